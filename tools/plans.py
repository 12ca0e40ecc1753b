"""What each property's check does."""
import concurrent.futures as cf
import json, os, random
import core, gen, sweep, near

ASSUMES = ['TLC, the JVM, the compiler and the sanitizers are trusted',
           'single letters are folded by the Unicode character database shipped with Python (spec/CaseTable.tla)']

def run_units(res, units, dirs, work, tag, threads=True):
    """C25: every actor alone in a process, all of them in one thread (with the sanitizers' memory and with
    the ordinary one, which hands out again what was released), and in threads of their own"""
    exe = {f: os.path.join(core.build(f), 'driver') for f in ('asan', 'tsan', 'release')}
    dargs = ['%s=%s' % kv for kv in dirs[0].items()]
    env = dict(core.ENV, COLUMBUS_DATADIR=dirs[0]['small'])

    seen = []

    def job(arg):
        u, (acts, mix) = arg
        notes, parts = [], []
        if len(seen) > 2:        # enough to report
            return parts, notes

        def one(sess, name, f='asan'):
            tr, cr = core.run_driver(exe[f], sess, work, '%s.%d.%s' % (tag, u, name), dargs, env=env)
            for c in cr:
                notes.append('crash %s in %s\n%s' % (c['rc'], json.dumps(c['command'])[:300], c['stderr'][-1500:]))
            parts.extend(core.split_sessions(tr))
            return bool(cr)

        def influenced():
            seen.append(u)
            parts.append([json.dumps(dict(op='reset', n=u, mode='thr', r={}), separators=(',', ':')),
                          json.dumps(dict(op='race', r={}), separators=(',', ':'))])
        dies = False
        for i, a in enumerate(acts):
            dies = one([[dict(op='reset', n=u, actor=i)] + a], 'a%d' % i) or dies
        for f in ('asan', 'release'):
            if one([[dict(op='reset', n=u, mode='mix')] + mix], 'mix.' + f, f) and not dies:
                influenced()
        if not threads:
            return parts, notes
        sess = [[dict(op='reset', n=u, mode='thr')] + a for a in acts + acts]
        for f in ('asan', 'tsan'):
            lines, bad = core.run_threads(exe[f], sess, work, '%s.%d.%s' % (tag, u, f), dargs, env)
            parts.extend(core.split_sessions(lines))
            if bad:
                notes.append(bad)
                if not dies or bad.startswith('data race'):
                    influenced()
                break
        return parts, notes
    with cf.ThreadPoolExecutor(core.JOBS) as ex:
        got = list(ex.map(job, list(enumerate(units))))
    for _, notes in got:
        res.notes += notes
    core.validate_units(res, 'C25', [p for p, _ in got if p], dirs, work, tag)


def run_C25(res, prop, plan, work, dirs):
    n = 1200 if core.TIER == 'thorough' else 40
    run_units(res, gen.units_C25(random.Random('C25/%d' % core.SEED), n), dirs, work, 'u')
    if not res.violations:
        t = core.TIER == 'thorough'
        r = random.Random('lives/%d' % core.SEED)
        bs = {p: core.generate(res, p, d + t, 6000 if t else 800, work)
              for p, d in (('store', 3), ('dict', 3), ('err', 3), ('match', 3), ('res', 3), ('doc', 3), ('word', 3), ('list', 3), ('twin', 3))}
        for k in range(20 if t else 1):
            run_units(res, gen.lives_C25(r, bs, 40, 140), dirs, work, 'l%d' % k, False)
    for v in res.violations:
        v.update(runner='units')


def run_C24(res, prop, plan, work, dirs):
    n = 2500 if core.TIER == 'thorough' else 60
    r = random.Random('C24/%d' % core.SEED)
    ss = gen.sessions_C24(r, n)
    big = core.TIER == 'thorough'
    ss += gen.big_sessions('C24', r, 300 if big else 8)
    ss += sweep.sweep_sessions('C24', r, 12 if big else 1)
    ss += near.near_sessions('C24', r, big)
    for pool in ('word', 'list', 'doc', 'match', 'err'):
        ss += gen.for_python(core.generate(res, pool, 4 if big else 3, 3000 if big else 120, work))
    python_unit(res, gen.unique(ss), dirs, work, 'u')
    for v in res.violations:
        v.update(runner='python')


# property -> histories: (generator, quick count, thorough count, build flavour, driver arguments)
# generated behaviours: (pool, quick depth, at most, thorough depth, at most, build flavour, adapted how)
A = 'asan'
GEN = {
    'C01': [('word', 3, 900, 4, 12000, A, None)],
    'C02': [('word', 3, 1500, 4, 30000, A, None)],
    'C03': [('list', 3, 1800, 4, 30000, A, None)],
    'C04': [('word', 3, 900, 4, 12000, A, None)],
    'C05': [('store', 4, 1500, 6, 30000, A, None)],
    'C06': [('dict', 3, 1200, 5, 30000, A, None)],
    'C07': [('dict', 3, 1200, 5, 30000, A, None)],
    'C08': [('dict', 3, 1200, 5, 30000, A, None)],
    'C09': [('err', 3, 1800, 4, 30000, A, None)],
    'C10': [('err', 3, 1800, 4, 30000, A, None)],
    'C11': [('err', 3, 1200, 4, 20000, A, None)],
    'C12': [('dict', 3, 700, 5, 20000, A, None), ('match', 2, 200, 3, 4000, A, None)],
    'C13': [('match', 3, 700, 4, 12000, A, None)],
    'C14': [('match', 3, 700, 4, 12000, A, None)],
    'C15': [('res', 4, 2500, 6, 40000, A, None)],
    'C16': [('filter', 3, 800, 4, 12000, A, None), ('match', 2, 100, 3, 2000, A, None)],
    'C17': [('twin', 3, 500, 4, 12000, A, 'keep'), ('match', 3, 400, 4, 8000, A, 'keep')],
    'C18': [('twin', 3, 800, 4, 15000, A, 'keep')],
    'C19': [('doc', 4, 1500, 5, 30000, A, None), ('twin', 2, 150, 3, 2000, A, 'keep')],
    'C20': [('match', 3, 700, 4, 12000, A, None)],
    'C21': [('word', 3, 250, 4, 8000, A, 'c_twins'), ('match', 3, 150, 4, 8000, A, 'c_twins'), ('res', 4, 200, 5, 8000, A, 'c_twins'),
            ('doc', 3, 200, 4, 8000, A, 'c_twins'), ('mfault', 3, 120, 4, 4000, 'faults', 'c_twins')],
    'C22': [('sfault', 3, 500, 5, 20000, 'faults', None), ('ifault', 3, 400, 5, 20000, 'faults', None),
            ('mfault', 3, 250, 4, 7000, 'faults', None)],
    'C23': [('sfault', 3, 60, 4, 3000, 'account', 'closed'), ('mfault', 3, 60, 4, 3000, 'account', 'closed')] + [(p, 3, 90, 4, 4000, 'account', 'closed') for p in ('word', 'list', 'res', 'doc', 'dict', 'match', 'err', 'store')],
    'C26': [('match', 3, 500, 4, 12000, A, 'keep'), ('twin', 3, 300, 4, 8000, A, 'keep')],
}

BIGS = {'C12': 8, 'C02': 24, 'C09': 24, 'C15': 24}     # how many large histories in a quick run
PLANS = {
    'C01': dict(rand=[('C01', 60, 1500, 'asan', [])]),
    'C02': dict(rand=[('C02', 60, 1500, 'asan', [])]),
    'C03': dict(rand=[('C03', 80, 2000, 'asan', [])]),
    'C04': dict(rand=[('C04', 60, 1500, 'asan', [])]),
    'C05': dict(rand=[('C05', 80, 2000, 'asan', [])]),
    'C06': dict(rand=[('C06', 80, 2000, 'asan', [])]),
    'C07': dict(rand=[('C07', 70, 1500, 'asan', [])]),
    'C08': dict(rand=[('C08', 80, 1500, 'asan', [])]),
    'C09': dict(rand=[('C09', 120, 3000, 'asan', [])]),
    'C10': dict(rand=[('C10', 120, 3000, 'asan', [])]),
    'C11': dict(rand=[('C11', 60, 1000, 'asan', [])]),
    'C12': dict(rand=[('C12', 60, 1200, 'asan', [])]),
    'C13': dict(rand=[('C13', 120, 3000, 'asan', [])]),
    'C14': dict(rand=[('C14', 120, 3000, 'asan', [])]),
    'C15': dict(rand=[('C15', 150, 4000, 'asan', [])]),
    'C16': dict(rand=[('C16', 90, 2500, 'asan', [])]),
    'C17': dict(rand=[('C17', 90, 2500, 'asan', [])]),
    'C18': dict(rand=[('C18', 90, 2500, 'asan', [])]),
    'C19': dict(rand=[('C19', 120, 3000, 'asan', [])]),
    'C20': dict(rand=[('C20', 120, 3000, 'asan', [])]),
    'C21': dict(rand=[('C21', 60, 1500, 'asan', [])]),
    'C22': dict(rand=[('C22', 150, 4000, 'faults', [])]),
    'C23': dict(rand=[('C23', 120, 3000, 'account', ['--twice'])]),
    'C24': dict(fn=run_C24),
    'C25': dict(fn=run_C25),
    'C26': dict(rand=[('C26', 70, 2000, 'asan', [])]),
}


for p_, g_ in GEN.items():
    PLANS[p_]['gen'] = g_

# property -> models TLC checks. Model configurations named M/x are spec/MC_M.tla with
# MC_M_x.cfg, or, for Props, the pool of calls x with the depths for quick and thorough.
# (A model is checked anew on every run: the specification has to keep holding as it grows.)
MODELS = {
    'C01': ['Text/words', 'Text/bytes', 'Props/word'],
    'C02': ['Own', 'Props/word'],
    'C03': ['Text/split', 'Text/runs', 'Own', 'Props/list'],
    'C04': ['Text/words', 'Text/points', 'Props/word'],
    'C05': ['Trie', 'Props/store'],
    'C06': ['Trie', 'Props/dict'],
    'C07': ['Edit', 'Search', 'Props/dict'],
    'C08': ['Search', 'Search/fill', 'Props/dict'],
    'C09': ['ErrorTable', 'Props/err'],
    'C10': ['ErrorTable', 'Props/err'],
    'C11': ['ErrorTable', 'Props/err'],
    'C12': ['Edit', 'Props/dict'],
    'C13': ['Matcher', 'Props/match'],
    'C14': ['Matcher', 'Props/match'],
    'C15': ['Results', 'Props/res'],
    'C16': ['Matcher', 'Props/filter', 'Props/match'],
    'C17': ['Matcher', 'Props/match'],
    'C18': ['Matcher', 'Props/twin'],
    'C19': ['Own', 'Text/runs', 'Props/doc', 'Props/twin'],
    'C20': ['Matcher', 'Props/match'],
    'C21': ['Own', 'Text/words'],
    'C22': ['Trie', 'Matcher'],
    'C23': ['Own', 'Trie'],
    'C24': ['Live'],
    'C25': ['Share', 'Share/own1', 'Share/static1'],
    'C26': ['Matcher', 'Props/match'],
}
# larger bounds, and wrong designs that TLC has to refuse: thorough runs only
DEEP = {'Text/bytes': 'Text/bytes_deep', 'Text/points': 'Text/points_deep', 'Text/split': 'Text/split_deep', 'Text/runs': 'Text/runs_deep', 'Own': 'Own_deep',
        'Trie': 'Trie_deep', 'Edit': 'Edit_deep', 'Search': 'Search_deep', 'Search/fill': 'Search/fill_deep',
        'ErrorTable': 'ErrorTable_deep', 'Matcher': 'Matcher_deep', 'Results': 'Results_deep'}
WRONG = {'Text': ['overlong'], 'Own': ['leakonrefuse', 'noselfcheck', 'noFree', 'shallow', 'movekeeps', 'moveleak', 'dangling'],
         'Trie': ['stale', 'earlyid', 'unmapfirst', 'totalfirst', 'leakmap'], 'Edit': ['lastdel', 'notrans'],
         'Search': ['oldprune', 'strict', 'latetall'], 'ErrorTable': ['onesided', 'selfpair', 'groupover', 'partial', 'clearlut'],
         'Matcher': ['sizeonce', 'lastbest', 'ownmax', 'queryadds'], 'Results': ['unstable', 'addkeeps', 'mergeflag', 'copyflag', 'moveflag', 'onelazy'],
         'Share': ['static', 'memo'], 'Live': ['nokeep', 'copypart']}
POOLS = dict(word=(3, 4), list=(3, 4), store=(4, 5), dict=(3, 4), err=(2, 3), res=(4, 5), doc=(3, 4), match=(2, 3), twin=(2, 3), filter=(2, 3))
SPOILT = dict(res=('alias', 4), err=('clear', 2), store=('reuse', 2), match=('queryadds', 1))


def model_jobs(prop):
    thorough = core.TIER == 'thorough'
    jobs = []
    for m in MODELS.get(prop, []):
        if m.startswith('Props/'):
            pool = m[6:]
            jobs.append(('MC_Props', 'MC_Props', 'ok', dict(POOL=pool, DEPTH=str(POOLS[pool][thorough]), FINE='0')))
            if thorough and pool in SPOILT:
                bug, d = SPOILT[pool]
                jobs.append(('MC_Props', 'MC_Props', 'violation', dict(POOL=pool, DEPTH=str(d), FINE='0', BUG=bug)))
            continue
        module = 'MC_' + m.split('/')[0]
        cfg = DEEP.get(m, m) if thorough else m
        jobs.append((module, 'MC_' + cfg.replace('/', '_'), 'ok', None))
        if thorough:
            jobs += [(module, '%s_%s' % (module, w), 'violation', None) for w in WRONG.get(m.split('/')[0], [])]
    return list(dict((json.dumps(j), j) for j in jobs).values())


def start_models(res, prop, work):
    """TLC on the models, beside the rest of the check; finish with the function returned"""
    thorough = core.TIER == 'thorough'
    ex = cf.ThreadPoolExecutor(2)
    fs = [ex.submit(core.model_check, res, m, c, work, 3000 if thorough else 300, '4' if thorough else '2', e, env)
          for m, c, e, env in model_jobs(prop)]

    def finish():
        try:
            for f in fs:
                f.result()
        finally:
            ex.shutdown(cancel_futures=True)
    return finish


def python_unit(res, ss, dirs, work, tag):
    """every session through the C++ interface and through the Python module"""
    drv = os.path.join(core.build('asan'), 'driver')
    mod = os.path.join(core.build('python'), 'b', 'python')
    if not any(f.startswith('columbus') and f.endswith('.so') for f in os.listdir(mod)):
        raise core.CheckError('no Python module in ' + mod)
    dargs = ['%s=%s' % kv for kv in dirs[0].items()]
    cpp = core.parallel_driver(res, drv, ss, work, tag + '.cc', dargs)
    pys = [[dict(c, via='py') if c['op'] != 'reset' else c for c in s] for s in ss]
    py = core.parallel_driver(res, os.path.join(core.DRIVER, 'pydriver.py'), pys, work, tag + '.py', [mod] + dargs,
                              runner=('/usr/bin/python3',))
    units = {}
    for t in cpp + py:
        units.setdefault(core.session_key(t), []).append(t)
    core.validate_units(res, 'C24', list(units.values()), dirs, work, tag)


def run(res, prop, plan, work):
    finish = start_models(res, prop, work)
    try:
        histories(res, prop, plan, work)
    finally:
        finish()


def histories(res, prop, plan, work):
    dirs = core.data_dirs(work)
    if 'fn' in plan:
        plan['fn'](res, prop, plan, work, dirs)
    groups = {}         # build flavour and driver arguments -> histories
    generated(res, plan, work, groups)
    for g, q, t, flavour, args in plan.get('rand', []):
        n = t if core.TIER == 'thorough' else q
        r = random.Random('%s/%s/%d' % (prop, g, core.SEED))
        groups.setdefault((flavour, tuple(args)), []).extend(getattr(gen, 'sessions_' + g)(r, n))
        big = 400 if core.TIER == 'thorough' else BIGS.get(prop, 16)
        groups[flavour, tuple(args)] += gen.big_sessions(prop, random.Random('big/%s/%d' % (prop, core.SEED)), big)
        groups[flavour, tuple(args)] += gen.huge_sessions(prop, random.Random('huge/%s/%d' % (prop, core.SEED)), 12 if core.TIER == 'thorough' else 1)
        groups[flavour, tuple(args)] += sweep.sweep_sessions(prop, random.Random('sweep/%s/%d' % (prop, core.SEED)), 20 if core.TIER == 'thorough' else 1)
        groups[flavour, tuple(args)] += near.near_sessions(prop, random.Random('near/%s/%d' % (prop, core.SEED)), core.TIER == 'thorough')
        if core.TIER == 'thorough' and flavour == 'asan':     # the other builds: as shipped, and with whole code points as letters
            for other in ('release', 'wide'):
                r = random.Random('%s/%s/%d' % (other, prop, core.SEED))
                ss = getattr(gen, 'sessions_' + g)(r, n // 3) + gen.big_sessions(prop, r, 60) + sweep.sweep_sessions(prop, r, 2)
                groups[other, tuple(args)] = gen.widen(ss) if other == 'wide' else ss
    for k, ((flavour, args), ss) in enumerate(groups.items()):
        before = len(res.violations)
        for at in range(0, len(ss), 8000):
            core.drive_and_validate(res, prop, gen.unique(ss[at:at + 8000]), flavour, work, 'r%d.%d' % (k, at), dirs, args, cfg(flavour))
        for v in res.violations[before:]:
            v.update(flavour=flavour, args=list(args), runner='driver')


def cfg(flavour):
    return 'TraceWide.cfg' if flavour == 'wide' else 'Trace.cfg'


def generated(res, plan, work, groups):
    """behaviours of the specification, to be replayed in the real code"""
    todo = plan.get('gen', [])
    thorough = core.TIER == 'thorough'

    def make(g):
        pool, qd, qn, td, tn, flavour, how = g
        return core.generate(res, pool, td if thorough else qd, tn if thorough else qn, work)
    with cf.ThreadPoolExecutor(core.JOBS) as ex:
        made = list(ex.map(make, todo))
    for (pool, qd, qn, td, tn, flavour, how), ss in zip(todo, made):
        if how:
            ss = getattr(gen, how)(ss)
        groups.setdefault((flavour, ('--twice',) if flavour == 'account' else ()), []).extend(ss)


def replay(res, prop, plan, path, work):
    d = json.load(open(path))
    cmds = []
    for e in d['trace']:
        e = dict(e)
        if e['op'] == 'crash':
            e = dict(e['c'])
        e.pop('r', None)
        cmds.append(e)
    if d['runner'] == 'units':
        acts, mix, cur = [], [], None
        for c in cmds:
            if c['op'] == 'reset':
                cur = [] if c.get('mode') == 'thr' else mix if 'mode' in c else []
                if 'mode' not in c:
                    acts.append(cur)
            elif c['op'] != 'race':
                cur.append(c)
        return run_units(res, [(acts, mix or sum(acts, []))] * 4, core.data_dirs(work), work, 'replay')
    if d['runner'] == 'python':
        cmds = [dict(c) for c in cmds if c['op'] == 'reset' and 'keep' not in c or c.get('via') != 'py']
        first = next((i for i, c in enumerate(cmds) if c['op'] == 'reset' and 'keep' in c), len(cmds))
        python_unit(res, [cmds[:first]], core.data_dirs(work), work, 'replay')
        return
    core.drive_and_validate(res, prop, [cmds], d['flavour'] or 'asan', work, 'replay', core.data_dirs(work), d['args'], cfg(d['flavour']))

TECHNIQUE = 'TLA+ specification checked by TLC; recorded executions of the real library validated against it by TLC'
NOTE = ('Every call of the histories run is decided against the specification; histories are the bounded state graphs of the '
        'specification and seeded random ones, so inputs outside them are covered by the models only.')
REASONS = {}
