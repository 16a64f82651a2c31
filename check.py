#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]: decide one property statically."""
import sys, os, json, time, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(40000)
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
EVN = os.environ.get('VERIF_EVID', 'evidence')
EV = os.path.join(HERE, EVN)

def known(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                rest = l.split(' ', 2)[2]
                key, _, what = rest.partition(' :: ')
                out.append((key.strip(), what.strip()))
    return out

def matches(k, pat):
    import re
    return re.fullmatch('.*'.join(re.escape(x) for x in pat.split('*')), k) is not None

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from sa import num, harness
    num.SEED = seed
    t0 = time.time()
    from sa import dd
    dd.DEADLINE[0] = t0 + (420 if tier == 'quick' else 3000)
    rep = harness.Report(prop, tier)
    kn = known(prop)
    rep.known = lambda k: any(matches(k, p) for p, _ in kn)
    mod = importlib.import_module('sa.props.' + prop.lower())
    mod.run(rep)
    wall = time.time() - t0
    viol = [o for o in rep.obs if o.status == 'viol']
    new, old = [], {}
    for o in viol:
        for key, what in kn:
            if matches(o.key, key):
                old[key] = what; break
        else: new.append(o)
    ok = [o for o in rep.obs if o.status == 'ok']
    und = [o for o in rep.obs if o.status == 'und']
    ev = dict(property=prop, tier=tier, seed=seed, level='other', wall_s=round(wall, 3), violations=len(new),
        coverage=dict(
            explanation=mod.RULE,
            files=sorted(f for f in rep.files),
            functions_analysed=len(rep.functions),
            functions=sorted('%s:%s' % f for f in rep.functions),
            statements_interpreted=rep.steps, predicate_atoms=rep.atoms, diagram_nodes=rep.nodes,
            obligations=len(rep.obs), discharged=len(ok), undecided=len(und), violated=len(viol),
            cases=rep.cases,
            samples=[dict(obligation=o.key, status=o.status) for o in (ok[:6] + viol[:4])],
            undecided_obligations=[dict(obligation=o.key, reason=o.text[:200]) for o in und[:60]],
            rule=mod.RULE),
        assumptions=getattr(mod, 'ASSUME', []) + ['exact real arithmetic (rounding is property C25)', 'numpy behaves as modelled in sa/npmodel.py'])
    os.makedirs(EV, exist_ok=True)
    json.dump(ev, open(os.path.join(EV, prop + '.json'), 'w'), indent=1)
    for key, what in old.items(): print('KNOWN-FINDING: property=%s %s' % (prop, what))
    print('%s: %d obligations, %d discharged, %d undecided, %d violated, %d functions, %.1fs' % (prop, len(rep.obs), len(ok), len(und), len(viol), len(rep.functions), wall))
    if os.environ.get('VERIF_DEBUG'):
        for o in und: print('  UND', o.key, '|', o.text[:300])
        for o in viol: print('  VIOL', o.key, '|', o.text[:600], '|', o.loc)
    if new:
        rp = os.path.join(EVN, prop + '.violation.json')
        json.dump([dict(obligation=o.key, file=o.loc and o.loc[0], line=o.loc and o.loc[1], function=o.loc and o.loc[2], text=o.text) for o in new],
            open(os.path.join(HERE, rp), 'w'), indent=1)
        for o in new[:5]:
            print('  %s: %s\n    at %s' % (o.key, o.text[:500], ('%s:%s in %s' % o.loc) if o.loc else '?'))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    for m in rep.missing: print('NOTE: not found in the source: %s' % m)
    if not ok:
        print('CHECK ERROR: no obligation could be decided')
        return 2
    return 0

if __name__ == '__main__':
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    def go():
        try: rc.append(main())
        except SystemExit as e: rc.append(e.code)
        except BaseException:
            import traceback; traceback.print_exc(); rc.append(3)
    t = threading.Thread(target=go); t.start()
    # a case that overruns its time by far is interrupted: what it leaves open is undecided
    from sa import harness
    import ctypes
    while t.is_alive():
        t.join(2)
        if t.is_alive() and time.time() > harness.LIMIT[0]:
            harness.EXPIRED[0] = True
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(harness.OutOfTime))
            harness.LIMIT[0] = time.time() + 15
    sys.stdout.flush()
    os._exit(rc[0] if rc else 3)
