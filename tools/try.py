import sys, random, shutil, os, time, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, gen, sweep, near
prop = sys.argv[1]; n = int(sys.argv[2]); focus = sys.argv[3] if len(sys.argv) > 3 else prop
work = '/tmp/w/try.%s.%d' % (prop, os.getpid())
os.makedirs(work)
t = time.time()
G = (lambda p, r, n: near.near_sessions(p, r, n > 50)) if os.environ.get('NEAR') else gen.big_sessions if os.environ.get('BIG') else gen.huge_sessions if os.environ.get('HUGE') else sweep.sweep_sessions if os.environ.get('SWEEP') else lambda p, r, n: getattr(gen, 'sessions_' + p)(r, n)
ss = gen.unique(G(prop, random.Random(core.SEED), n))
if os.environ.get('WIDE'): ss = gen.widen(ss)
fl = 'wide' if os.environ.get('WIDE') else {'C22':'faults','C23':'account'}.get(prop,'asan'); core.build(fl)
res = core.Result()
t1 = time.time()
core.drive_and_validate(res, focus, ss, fl, work, 't', core.data_dirs(work), ['--twice'] if prop=='C23' else [], cfg='TraceWide.cfg' if os.environ.get('WIDE') else 'Trace.cfg')
print('sessions', len(ss), 'cmds', sum(map(len, ss)), 'viol', len(res.violations), 'events', res.events, 'gen+build %.1f' % (t1 - t), 'run %.1f' % (time.time() - t1))
for x in res.notes: print(x)
for v in res.violations[:3]:
    print('WHY', v['why']); print('EVENT', v['event'][:1500]); print('LINE', v['line'], 'of', len(v['trace']))
    json.dump(v['trace'], open('/tmp/w/last.json', 'w'))
shutil.rmtree(work)
