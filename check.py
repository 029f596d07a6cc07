#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--repo /repo]

Decides one property from the source in /repo/src/aaf2 (nothing of it is imported or run).
exit 0: every obligation decided holds (listed known findings are printed); exit 1: a
VIOLATION line and a replay file; exit 2: the analysis lost its subject."""
import argparse, json, os, sys, time, traceback
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from sa.model import Program, AnalysisBroken
from sa.core import Ctx
from sa import registry


def known_findings():
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        with open(p) as f:
            for l in f:
                l = l.strip()
                if l.startswith('finding: '):
                    head, key = l[len('finding: '):].split(' key=', 1)
                    pid = head.split('property=', 1)[1].split()[0]
                    k, _, what = key.partition(' :: ')
                    out.setdefault(pid, {})[k] = what
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default=os.environ.get('VERIF_REPO', '/repo'))
    a = ap.parse_args()
    pid = a.property
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    broken = []
    cx = None
    try:
        cx = Ctx(Program(a.repo), tier=a.tier)
        for mod, fn in registry.RULES[pid]:
            try:
                registry.one(mod, fn, cx)
            except AnalysisBroken as e:
                broken.append('%s.%s: %s' % (mod, fn, e))
            except Exception:
                broken.append('%s.%s: %s' % (mod, fn, traceback.format_exc(limit=6)))
    except AnalysisBroken as e:
        broken.append(str(e))
    selftest = None
    if a.tier == 'thorough' and cx is not None and not broken:
        from selftest import run as st
        selftest = st.for_property(pid)
    known = known_findings().get(pid, {})
    new, old = [], []
    for f in (cx.findings if cx else []):
        (old if f.key in known else new).append(f)
    for f in old:
        print('KNOWN-FINDING: property=%s %s %s' % (pid, f.key, known[f.key] or f.msg))
    for k in known:
        if k not in [f.key for f in old]:
            print('note: listed finding %s is no longer found' % k)
    replay = None
    if new:
        os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
        replay = os.path.join(HERE, 'replay', pid + '.txt')
        with open(replay, 'w') as o:
            o.write('property %s: %d violations\nrerun: cd /verif && python3 check.py %s --tier %s\n' % (pid, len(new), pid, a.tier))
            for f in new:
                o.write('\nrule       %s\nconstruct  %s\nwhere      %s\nviolation  %s\n' % (f.rule, f.construct, f.where, f.msg))
                if f.path is not None:
                    o.write('path       %s\n' % describe(f.path))
        for f in new:
            print('%s: %s [%s] %s' % (f.where, f.rule, f.construct, f.msg))
        print('VIOLATION property=%s replay=%s' % (pid, replay))
    for b in broken:
        print('ANALYSIS-BROKEN %s' % b, file=sys.stderr)
    if cx is not None:
        rules = Counter(r for r, _ in cx.done)
        inst = sorted(set('%s | %s' % x for x in cx.done))
        step = max(1, len(inst) // 25)
        cov = {
            'explanation': 'Static: the source of aaf2 is parsed and its paths are walked symbolically by a dataflow '
                           'interpreter (no execution, no solver); each obligation is one rule applied to one construct on one path. '
                           + registry.EXPLAIN.get(pid, ''),
            'obligations': len(cx.done) + len(cx.findings),
            'discharged': len(cx.done),
            'rules': dict(sorted(rules.items())),
            'distinct_constructs': len(inst),
            'modules_parsed': len(cx.prog.modules),
            'functions_in_package': len(cx.prog.funcs),
            'functions_walked': len(cx.funcs),
            'paths_walked': cx.npaths,
            'undecided': ['%s | %s: %s' % u for u in cx.undecided[:40]],
            'undecided_count': len(cx.undecided),
            'known_findings': [f.key for f in old],
            'samples': inst[::step][:25],
            'broken': broken,
        }
        if selftest is not None:
            cov['self_test'] = selftest
        ev = {'property': pid, 'tier': a.tier, 'seed': seed, 'level': 'other', 'coverage': cov,
              'assumptions': registry.ASSUME, 'wall_s': round(time.time() - t0, 3), 'violations': len(new)}
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as o:
            json.dump(ev, o, indent=1, sort_keys=True)
        print('%s %s: %d obligations, %d discharged, %d undecided, %d paths, %d functions, %.1fs' % (
            pid, a.tier, cov['obligations'], cov['discharged'], len(cx.undecided), cx.npaths, len(cx.funcs), time.time() - t0))
    if new:
        return 1
    # a rule that lost its subject is reported and counted in the evidence; with nothing left to decide there is no answer
    return 2 if broken and not (cx and cx.done) else 0


def describe(p):
    from sa.terms import show
    out = []
    for e in p.ev[:400]:
        if e.kind == 'assume':
            out.append('%s is %s' % (show(e.a)[:160], e.b))
        elif e.kind in ('call', 'set', 'setitem', 'delitem', 'new', 'loop', 'loopexit'):
            v = ''
            try:
                v = show(e.v)[:160] if isinstance(e.v, tuple) else ''
                if e.kind == 'set':
                    v = '%s.%s = %s' % (show(e.a)[:80], e.b, v)
            except Exception:
                pass
            out.append('%s %s (%s)' % (e.kind, v, getattr(e, 'where', '')))
    try:
        out.append('ends: %s %s' % (p.exit[0], show(p.exit[1])[:200]))
    except Exception:
        pass
    return '\n           '.join(out)


if __name__ == '__main__':
    sys.exit(main())
