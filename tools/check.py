#!/usr/bin/env python3
"""check.py <property> [--replay FILE]

Decides one property of libcolumbus, as built from /repo's working tree:
 1. TLC checks the models (spec/MC_*.tla) that bear on the property;
 2. histories - every transition of bounded state graphs of the specification, and seeded
    random ones - are run against the real library; TLC decides whether each recorded
    execution is a behaviour of the specification (spec/Trace.tla, spec/Columbus.tla).
Exit 0: held. Exit 1 with "VIOLATION property=<id> replay=<path>": broken. Exit 2: no answer.
"""
import json, os, random, shutil, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, gen, plans

KNOWN = os.path.join(core.VERIF, 'KNOWN_FINDINGS.txt')


def known_findings(prop):
    """lines 'finding: property=<id> match=<json text of the failing event, or a part of it> :: <what fails>'"""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith('finding: property=%s ' % prop):
                body = line.split('match=', 1)[1]
                m, what = body.split(' :: ', 1)
                out.append((m.strip(), what.strip()))
    return out


def replay_file(prop, v, k):
    d = os.path.join(core.VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s-%d.json' % (prop, core.TIER, k))
    json.dump(dict(property=prop, why=v['why'], at=v['line'], event=json.loads(v['event']), flavour=v.get('flavour'),
                   runner=v.get('runner'), args=v.get('args', []), trace=[json.loads(x) for x in v['trace'][:v['line'] + 1]]),
              open(p, 'w'), indent=0)
    return p


def main():
    prop = sys.argv[1]
    t0 = time.time()
    if '--thorough' in sys.argv:
        core.TIER = 'thorough'
    plan = plans.PLANS[prop]
    work = os.path.join(core.VERIF, 'work', '%s.%d' % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    res = core.Result()
    try:
        if len(sys.argv) > 3 and sys.argv[2] == '--replay':
            plans.replay(res, prop, plan, sys.argv[3], work)
        else:
            plans.run(res, prop, plan, work)
    except core.CheckError as e:
        print('CHECK ERROR: %s' % e, file=sys.stderr)
        return 2
    finally:
        if not os.environ.get('KEEP_WORK'):
            shutil.rmtree(work, ignore_errors=True)
    for n in res.notes:
        print('note:', n)
    known = known_findings(prop)
    bad = []
    for v in res.violations:
        hit = [w for m, w in known if m in v['event']]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, hit[0]))
        else:
            bad.append(v)
    shutil.rmtree(os.path.join(core.VERIF, 'replays'), ignore_errors=True) if False else None
    for k, v in enumerate(bad[:5]):
        p = replay_file(prop, v, k)
        print('VIOLATION property=%s replay=%s' % (prop, p))
        print('  event %d: %s' % (v['line'], v['event'][:600]))
        if v['why']:
            print('  ' + v['why'])
    os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
    ev = dict(property=prop, tier=core.TIER if core.TIER in ('quick', 'thorough') else 'quick', seed=core.SEED, level='model_checking',
              coverage=dict(states=res.states, transitions=res.transitions, traces_validated_against_impl=res.traces,
                            events_validated=res.events, events_passed_over=res.passed, calls_by_operation=dict(sorted(res.ops.items())),
                            models=res.mc, samples=res.samples[:3] or ['none']),
              assumptions=plan.get('assumes', []) + plans.ASSUMES,
              wall_s=round(time.time() - t0, 1), violations=len(bad))
    json.dump(ev, open(os.path.join(core.VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %s; %d traces (%d events, %d not decided) of the real code validated, %d model states, %.1f s' % (
        prop, 'BROKEN' if bad else 'held', res.traces, res.events, res.passed, sum(m['states'] for m in res.mc), time.time() - t0))
    return 1 if bad else 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
