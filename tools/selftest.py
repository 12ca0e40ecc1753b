"""Does the validation notice? Records executions of the unchanged library, spoils one observation of one
event in each, and counts by call and field how many spoilt traces the specification refuses.
usage: selftest.py [how many] (part of no check)"""
import collections, concurrent.futures as cf
import copy, json, os, random, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, gen

N = int(sys.argv[1]) if len(sys.argv) > 1 else 400
WORK = '/tmp/columbus-selftest.%d' % os.getpid()


def spoil(r, v):
    """another value of the same shape"""
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + r.choice([-40, 40]) if abs(v) > 10000 else v + r.choice([-1, 1])
    if isinstance(v, list):
        if v and r.random() < .6:
            i = r.randrange(len(v))
            x = spoil(r, v[i])
            return None if x is None else v[:i] + [x] + v[i + 1:]
        return v[:-1] if v else None
    return None


def main():
    os.makedirs(WORK)
    r = random.Random(core.SEED)
    dirs = core.data_dirs(WORK)
    dj = os.path.join(WORK, 'dirs.json')
    json.dump(dirs[1], open(dj, 'w'))
    exe = os.path.join(core.build('asan'), 'driver')
    ss = []
    for i in list(range(1, 21)) + [26]:
        if i not in (17, 18):
            ss += getattr(gen, 'sessions_C%02d' % i)(r, 4)[:4]
    dargs = ['%s=%s' % kv for kv in dirs[0].items()]
    tr, cr = core.run_driver(exe, gen.unique(ss), WORK, 's', dargs)
    assert not cr
    traces = [[json.loads(x) for x in s] for s in core.split_sessions(tr)]
    by = collections.defaultdict(list)
    for t in traces:
        for k, e in enumerate(t):
            for f in e.get('r', {}):
                if f not in ('ok', 'threw'):
                    by[e['op'], f].append((t, k))
    todo = []
    keys = sorted(by)
    while len(todo) < N:
        for key in keys:
            t, k = r.choice(by[key])
            e = copy.deepcopy(t[k])
            x = spoil(r, e['r'][key[1]])
            if x is None or x == e['r'][key[1]]:
                continue
            e['r'][key[1]] = x
            todo.append((key, t[:k] + [e], t[k]))

    def job(a):
        i, (key, t, was) = a
        tf = os.path.join(WORK, 'm%d.ndjson' % i)
        open(tf, 'w').write(''.join(json.dumps(e, separators=(',', ':')) + '\n' for e in t))
        v = core.validate_file(tf, 'ALL', dj, WORK, 'm%d' % i)
        return key, 'error' in v or (not v['ok'] and v['matched'] == len(t) - 1), (was, t[-1])
    res = collections.Counter()
    lived = []
    with cf.ThreadPoolExecutor(core.JOBS) as ex:
        for key, killed, ev in ex.map(job, enumerate(todo[:N + len(keys)])):
            res[key, killed] += 1
            if not killed:
                lived.append(ev)
    for key in keys:
        if res[key, False] or res[key, True]:
            print('%-10s %-6s refused %3d accepted %3d' % (*key, res[key, True], res[key, False]))
    print('spoilt traces: %d, refused: %d' % (sum(res.values()), sum(n for k, n in res.items() if k[1])))
    for was, now in lived[:25]:
        print('ACCEPTED', json.dumps(now)[:300], '\n     was', json.dumps(was['r'])[:200])
    shutil.rmtree(WORK)


main()
