"""property id -> rule functions"""
import importlib

RULES = {
    'C27': [('linking', 'C27')],
    'C25': [('dictionary', 'C25')],
    'C23': [('ident', 'C23')],
    'C26': [('values', 'C26')],
    'C15': [('defs', 'C15'), ('typed_layer', 'C15')],
    'C19': [('defs', 'C19'), ('typed_layer', 'C19')],
    'C29': [('names', 'C29')],
    'C14': [('ownership', 'C14'), ('typed_layer', 'C14')],
    'C13': [('ownership', 'C13'), ('typed_layer', 'C13')],
    'C12': [('ownership', 'C12'), ('typed_layer', 'C12')],
    'C20': [('session', 'C20')],
    'C21': [('session', 'C21'), ('typed_layer', 'C21')],
    'C24': [('session', 'C24'), ('typed_layer', 'C24')],
    'C30': [('handles', 'C30')],
    'C28': [('lint', 'C28')],
    'C16': [('model_tables', 'C16')],
    'C17': [('model_tables', 'C17')],
    'C18': [('model_tables', 'C18')],
    'C01': [('obj_state', 'C01'), ('typed_layer', 'C01')],
    'C02': [('obj_state', 'C02'), ('typed_layer', 'C02')],
    'C06': [('save_close', 'C06')],
    'C05': [('obj_wire', 'C05')],
    'C09': [('cfb_dir', 'C09')],
    'C22': [('cfb_dir', 'C22')],
    'C08': [('cfb_io', 'C08')],
    'C11': [('cfb_io', 'C11')],
    'C07': [('cfb_alloc', 'C07')],
    'C10': [('cfb_alloc', 'C10')],
    'C04': [('cfb_header', 'run')],
    'C03': [('cfb_entry', 'run')],
}


def ids():
    return sorted(RULES)


EXPLAIN = {}
ASSUME = [
    'attributes are not rebound from outside the package, and modules are not monkey-patched',
    'library calls of the standard library behave as documented; calls that are not looked into do not undo what the path established, unless stated',
    'loops are walked zero and one time (two times in the thorough tier where a rule asks for it)',
]


def one(mod, fn, cx):
    m = importlib.import_module('sa.rules.' + mod)
    getattr(m, fn)(cx)


def run(pid, cx):
    for mod, fn in RULES[pid]:
        one(mod, fn, cx)
    return cx
