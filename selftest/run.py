#!/usr/bin/env python3
"""Development self-test: in-memory edits of the analysed tree.

MUT entries break a property and must be reported by its check; REF entries keep the
behaviour and every check must stay silent on them.  Edits whose text is not found are
skipped (the tree moved on)."""
import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from concurrent.futures import ProcessPoolExecutor
from sa.model import Program, AnalysisBroken
from sa.core import Ctx
from sa import registry
from selftest.edits import MUT, REF

BASE = Program().sources


def apply(edits):
    src = dict(BASE)
    for f, old, new in edits:
        t = src[f].replace('\r\n', '\n')
        if t.count(old) < 1:
            return None
        src[f] = t.replace(old, new, 1)
    return src


def one(job):
    kind, n, prop, edits = job
    src = apply(edits)
    if src is None:
        return kind, n, prop, 'SKIP', ''
    try:
        prog = Program(sources=src)
    except AnalysisBroken as e:
        return kind, n, prop, 'BROKEN', str(e)
    out = []
    props = [prop] if kind == 'MUT' else (ONLY or registry.ids())
    for q in props:
        cx = Ctx(prog)
        try:
            registry.run(q, cx)
        except AnalysisBroken as e:
            out.append('%s: BROKEN %s' % (q, e))
        except Exception as e:
            import traceback
            out.append('%s: BROKEN %s' % (q, traceback.format_exc(limit=-3)))
        finally:
            out = ['%s: %s %s %s %s' % (q, f.rule, f.construct, f.where, f.msg) for f in cx.findings
                    if f.key not in BASEKEYS.get(q, ())] + out
    return kind, n, prop, 'HIT' if any('BROKEN' not in o for o in out) else ('BROKEN' if out else 'quiet'), '; '.join(out[:3])


BASEKEYS = {}
# REF=<ids> runs only these checks on the refactorings; FROM=<n> starts with the n-th refactoring
ONLY = [x for x in os.environ.get('REF', '').split(',') if x]
FROM = int(os.environ.get('FROM', '0'))


def for_property(pid):
    """broken variants of the current tree, made in memory, that the check must report"""
    jobs = [('MUT', n, prop, [e] if isinstance(e, tuple) else e) for n, (prop, e) in enumerate(MUT) if prop == pid]
    with ProcessPoolExecutor(8) as ex:
        res = list(ex.map(one, jobs))
    return {'variants': len(jobs), 'applicable': sum(r[3] != 'SKIP' for r in res),
            'reported': sum(r[3] == 'HIT' for r in res),
            'missed': [r[1] for r in res if r[3] not in ('HIT', 'SKIP')]}


def main():
    only = sys.argv[1] if len(sys.argv) > 1 else None
    for q in registry.ids():
        if only in (None, 'REF', 'MUT', q):
            cx = registry.run(q, Ctx(Program()))
            if cx.findings:
                print('tree not quiet:', q, cx.findings[0].rule, cx.findings[0].construct, cx.findings[0].msg)
                return
    jobs = []
    for n, (prop, edits) in enumerate(MUT):
        if only in (None, prop, 'MUT'):
            jobs.append(('MUT', n, prop, [edits] if isinstance(edits, tuple) else edits))
    if only in (None, 'REF'):
        for n, (name, edits) in enumerate(REF):
            if n < FROM:
                continue
            jobs.append(('REF', n, name, [edits] if isinstance(edits, tuple) else edits))
    miss = fa = skip = 0
    with ProcessPoolExecutor(8) as ex:
        for kind, n, prop, res, msg in ex.map(one, jobs):
            if res == 'SKIP':
                skip += 1
                print('skip', kind, n, prop, jobs[0][3] and '')
            elif kind == 'MUT' and res != 'HIT':
                miss += 1
                e = MUT[n][1]
                e = e if isinstance(e, tuple) else e[0]
                print('MISS', n, prop, res, repr(e[1][:70]), '->', repr(e[2][:70]), msg[:200])
            elif kind == 'REF' and res != 'quiet':
                fa += 1
                print('FALSE ALARM', n, prop, res, msg[:300])
            elif kind == 'MUT' and '-v' in sys.argv:
                print('hit', n, prop, msg[:220])
    print('%d jobs, %d missed, %d false alarms, %d skipped' % (len(jobs), miss, fa, skip))


if __name__ == '__main__':
    main()
