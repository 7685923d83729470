#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property from /repo's current sources."""
import sys, os, time, json, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from nsa.core import facts
from nsa.core.report import Report


def known():
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            if l.startswith('known: '):
                prop, key, what = l[7:].split(' | ', 2)
                out[(prop.split('=', 1)[1], key)] = what
    return out


def main():
    pid = sys.argv[1]
    tier = 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    t0 = time.time()
    R = Report(pid)
    try:
        mod = importlib.import_module('nsa.rules.' + pid)
        P = facts.load(extra=getattr(mod, 'EXTRA', ()), only=mod.UNITS if mod.UNITS is not None else None)
        mod.run(P, R)
        if not hasattr(mod, 'NO_DEFINED'):
            R.rule('defined', 'no statement certainly executed in the worlds analysed reads a value never initialised or an element outside the array or container it names', 1)
            R.check(True, 'defined', 'analysed', '', 'no access outside its object')
            for (f, l, _), (msg, stack) in sorted(facts.UB.items()):
                R.check(False, 'defined', '%s:%s' % (f, msg), '%s:%d' % (f, l), msg + ' reached through ' + ' -> '.join(str(x)[:120] for x in stack))
        R.functions |= {q for q in facts.VISITED if not q.startswith(('std::', '__'))}
    except facts.AnalysisError as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        sys.exit(3)
    kf = known()
    viol, know = [], []
    for (rule, inst, wh, st, msg) in R.obs:
        if st == 'bad':
            k = (pid, '%s/%s' % (rule, inst))
            (know if k in kf else viol).append((rule, inst, wh, msg))
    und = [o for o in R.obs if o[3] == 'undecided']
    und_per_rule = {}
    broken = []
    for r, fl in R.floors.items():
        n = sum(1 for o in R.obs if o[0] == r)
        if n < fl and not viol:
            broken.append('%s: %d instances, at least %d expected' % (r, n, fl))
    c = R.counts()
    print('property %s: %d functions, %d obligations: %d discharged, %d violated, %d undecided'
          % (pid, len(R.functions), len(R.obs), c['ok'], c['bad'], c['undecided']))
    for o in und:
        print('UNDECIDED %s/%s %s %s' % (o[0], o[1], o[2], o[4][:400]))
    for (rule, inst, wh, msg) in know:
        print('KNOWN-FINDING: property=%s %s/%s at %s: %s' % (pid, rule, inst, wh, kf[(pid, '%s/%s' % (rule, inst))]))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rp = os.path.join(HERE, 'evidence', pid + '.replay.json')
    if viol:
        with open(rp, 'w') as fh:
            json.dump([{'rule': a, 'instance': b, 'where': w, 'message': m} for a, b, w, m in viol], fh, indent=1)
    elif os.path.exists(rp):
        os.unlink(rp)
    per = {r: dict(R.counts(r), description=d) for r, d in R.rules.items()}
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'wall_s': round(time.time() - t0, 2),
          'coverage': {'explanation': 'static value-flow / effect analysis of the resolved sources; %d obligations over %d functions (%d translation units): %d discharged, %d violated, %d undecided'
                       % (len(R.obs), len(R.functions), len(P.units), c['ok'], c['bad'], c['undecided']),
                       'units': [P.rel(u) for u in P.units], 'functions': sorted(R.functions), 'rules': per,
                       'undecided': ['%s/%s: %s' % (o[0], o[1], o[4][:200]) for o in und],
                       'obligations': ['%s/%s [%s] %s' % (o[0], o[1], o[2], o[3]) for o in R.obs]},
          'assumptions': getattr(mod, 'ASSUMPTIONS', ['the analysed preprocessor configuration is the pinned build plus Kokkos (see DESIGN.md)',
                                                      'real arithmetic: rounding and overflow are not modelled']),
          'violations': ['%s/%s at %s: %s' % (a, b, w, m) for a, b, w, m in viol]}
    ev['coverage'].update(getattr(R, 'extra', {}))
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    if viol:
        for (rule, inst, wh, msg) in viol[:40]:
            print('  %s/%s at %s: %s' % (rule, inst, wh, msg[:600]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        sys.exit(1)
    if broken or not R.obs or (und and c['ok'] == 0):
        print('ANALYSIS-BROKEN property=%s %s' % (pid, '; '.join(broken) or 'no obligation decided'))
        sys.exit(3)
    print('HOLDS property=%s' % pid)


main()
