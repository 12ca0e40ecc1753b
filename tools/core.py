"""Building, driving and validating: the machinery every check shares."""
import concurrent.futures as cf
import hashlib, json, os, random, re, shutil, subprocess, sys, time
import gen

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('COLUMBUS_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SPEC = os.path.join(VERIF, 'spec')
DRIVER = os.path.join(VERIF, 'driver')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
JOBS = max(2, min(8, os.cpu_count() or 4))
PY = sys.executable


class CheckError(Exception):
    """The check itself could not be carried out."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return p.returncode, p.stdout


# ---------------------------------------------------------------- building
FLAVOURS = {
    # address and undefined-behaviour sanitizers, assertions on
    'asan': dict(type='Debug', flags='-O1 -fsanitize=address,undefined -fno-sanitize=nonnull-attribute -fno-sanitize-recover=undefined -fno-omit-frame-pointer',
                 drv='-O0 -g -fsanitize=address,undefined -fno-sanitize=nonnull-attribute -fno-sanitize-recover=undefined'),
    # plain build with resource accounting and storage faults
    'account': dict(type='Debug', flags='-O1', drv='-O1 -g -DACCOUNT'),
    # storage faults under address checking
    'faults': dict(type='Debug', flags='-O1 -fsanitize=address,undefined -fno-sanitize=nonnull-attribute -fno-sanitize-recover=undefined -fno-omit-frame-pointer',
                   drv='-O0 -g -DACCOUNT -DNOMALLOC -fsanitize=address,undefined -fno-sanitize=nonnull-attribute -fno-sanitize-recover=undefined'),
    # data-race detection
    'tsan': dict(type='Debug', flags='-O1 -fsanitize=thread', drv='-O0 -g -fsanitize=thread'),
    # as shipped: assertions off, optimised
    'release': dict(type='Release', flags='-O2 -DNDEBUG', drv='-O1 -g'),
    # 32-bit letters
    'wide': dict(type='Debug', flags='-O1 -fsanitize=address,undefined -fno-sanitize=nonnull-attribute -fno-sanitize-recover=undefined',
                 drv='-O0 -g -fsanitize=address,undefined -fno-sanitize=nonnull-attribute -fno-sanitize-recover=undefined', extra=['-Dfull_unicode=ON']),
    # Python module
    'python': dict(type='Debug', flags='-O0', drv=None),
}


# what an installed library finds when no directory is configured
INSTALLED = {'latinAccentedLetterGroups.txt': 'aqz\nbx\n'.encode(), 'greekAccentedLetterGroups.txt': 'αώ\n'.encode()}


def tree_hash():
    h = hashlib.sha256()
    for base in (REPO, DRIVER):
        for top in ('src', 'include', 'python', 'cmake', 'share', 'CMakeLists.txt', ''):
            p = os.path.join(base, top)
            if base == DRIVER and top != '':
                continue
            if base == REPO and top == '':
                continue
            files = [p] if os.path.isfile(p) else sorted(
                os.path.join(d, f) for d, ds, fs in os.walk(p) for f in fs if '__pycache__' not in d)
            for f in files:
                if os.path.isfile(f):
                    h.update(f.encode()); h.update(open(f, 'rb').read())
    h.update(json.dumps(FLAVOURS, sort_keys=True).encode()); h.update(repr(INSTALLED).encode())
    return h.hexdigest()[:16]


def build(flavour):
    """Build libcolumbus from /repo's working tree; returns the build directory."""
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash()
    out = os.path.join(BUILD, '%s-%s' % (flavour, key))
    if os.path.exists(os.path.join(out, 'done')):
        return out
    fl = FLAVOURS[flavour]
    for d in os.listdir(BUILD):         # drop builds of earlier trees
        if d.startswith(flavour + '-'):
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    b = os.path.join(out, 'b')
    os.makedirs(b)
    rc, o = sh(['cmake', '-S', REPO, '-B', b, '-G', 'Ninja', '-Wno-dev', '-DCMAKE_BUILD_TYPE=' + fl['type'],
                '-DCMAKE_POLICY_VERSION_MINIMUM=3.5', '-Denable_tests=OFF', '-Duse_pch=OFF',
                '-DCMAKE_INSTALL_PREFIX=' + os.path.join(out, 'inst'),
                '-DBOOST_PYTHON_HACK=/usr/lib/x86_64-linux-gnu/libboost_python312.so',
                '-DCMAKE_CXX_FLAGS=' + fl['flags'], '-DCMAKE_C_FLAGS='] + fl.get('extra', []))
    if rc:
        raise CheckError('cmake failed:\n' + o[-3000:])
    try:        # the directory of an installed library's data
        sub = re.search(r'COLUMBUS_DATADIR COLUMBUS_INSTALL_PREFIX "/?([^"]*)"', open(os.path.join(b, 'include', 'ColumbusCore.hh')).read()).group(1)
    except (OSError, AttributeError):
        sub = 'share/columbus1'
    inst = os.path.join(out, 'inst', sub)
    os.makedirs(inst, exist_ok=True)
    for f, c in INSTALLED.items():
        open(os.path.join(inst, f), 'wb').write(c)
    drv = None
    if fl['drv']:
        drv = subprocess.Popen(['g++', '-std=c++17', '-w', *fl['drv'].split(), '-I', os.path.join(b, 'include'),
                                '-I', os.path.join(REPO, 'include'), '-c', os.path.join(DRIVER, 'driver.cc'),
                                '-o', os.path.join(out, 'driver.o')],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    rc, o = sh(['ninja', '-C', b] + (['columbus'] if fl['drv'] else ['columbus', 'columbus_ext']))
    if drv:
        do = drv.communicate()[0]
        if drv.returncode:
            raise CheckError('driver does not compile:\n' + do[-3000:])
    if rc:
        raise CheckError('build failed:\n' + o[-3000:])
    if fl['drv']:
        lib = os.path.join(b, 'src')
        rc, o = sh(['g++', *fl['drv'].split(), os.path.join(out, 'driver.o'), '-L', lib, '-lcolumbus',
                    '-Wl,-rpath,' + lib, '-lpthread', '-ldl', '-o', os.path.join(out, 'driver')])
        if rc:
            raise CheckError('driver does not link:\n' + o[-3000:])
    open(os.path.join(out, 'done'), 'w').write('ok')
    return out


# ---------------------------------------------------------------- data directories
def data_dirs(work):
    """Data directories for accent files: the repository's own and some of our making.
    Returns (name -> path, name -> {latin, greek -> lines as byte lists})."""
    root = os.path.join(work, 'dirs')
    os.makedirs(root, exist_ok=True)
    share = os.path.join(REPO, 'share')
    names = {'latin': 'latinAccentedLetterGroups.txt', 'greek': 'greekAccentedLetterGroups.txt'}

    def make(name, latin=None, greek=None):
        d = os.path.join(root, name)
        os.makedirs(d, exist_ok=True)
        for k, c in (('latin', latin), ('greek', greek)):
            if c is not None:
                open(os.path.join(d, names[k]), 'wb').write(c)
        return d
    paths = {
        'share': share, 'share/': share + '/', 'share//': share + '//',
        'small': make('small', 'aàá\nbḃ\n'.encode(), 'αά\n'.encode()),
        'small/': make('small', 'aàá\nbḃ\n'.encode(), 'αά\n'.encode()) + '/',
        'blank': make('blank', 'xyz\n\n\nuv\n'.encode(), b''),
        'noeol': make('noeol', 'Qw\nER'.encode(), 'ωώ'.encode()),
        'clash': make('clash', 'abc\nde\ncf\ngh\n'.encode(), 'αd\n'.encode()),
        'crlf': make('crlf', b'ab\r\ncd\r\n', 'αά\r\n'.encode()),
        'crlf2': make('crlf2', b'ab\n\r\ncd\n', 'αά\n'.encode()),
        'tab': make('tab', b'ab\nc\td\nef\n', 'αά\n'.encode()),
        'spaces': make('spaces', b'ab \ncd\n', ' αά\n'.encode()),
        'badutf': make('badutf', b'ab\nc\xc3\nef\n', b'\xce\xb1\xce\xac\n\xff\n'),
        'bom': make('bom', b'\xef\xbb\xbfab\ncd\n', 'αά\n'.encode()),
        'single': make('single', 'a\nb\nc\na\nd\n'.encode(), 'α\nά\n'.encode()),
        'high': make('high', 'a\u1e03\u2c65\n\u0180\u01ff\u0200\n\ufffdb\n'.encode(), 'αd\u1f00\n'.encode()),
        'astral': make('astral', 'ab\nc\U0001d41c\nd\n'.encode(), 'αά\n'.encode()),
        'onlygreek': make('onlygreek', None, 'αά\nωώ\n'.encode()),
        'onlylatin': make('onlylatin', 'kK\nmnM\n'.encode(), None),
        'empty': make('empty'),
        **{k: make(k, *v) for k, v in gen.long_dirs().items()},
        'default': make('default', *INSTALLED.values()),      # the driver leaves the variable unset
        'missing': os.path.join(root, 'no', 'such', 'dir'),
    }
    content = {}
    for k, p in paths.items():
        c = {}
        for g, f in names.items():
            q = os.path.join(p, f)
            if os.path.isfile(q):
                data = open(q, 'rb').read()
                lines = data.split(b'\n')
                if lines and lines[-1] == b'':
                    lines.pop()
                c[g] = [list(x) for x in lines]
        content[k] = c
    return paths, content


# ---------------------------------------------------------------- driving
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1',
           UBSAN_OPTIONS='print_stacktrace=0:exitcode=99', TSAN_OPTIONS='exitcode=66:halt_on_error=0', LC_ALL='C.UTF-8', MALLOC_PERTURB_='165', PYTHONDONTWRITEBYTECODE='1')


def run_driver(exe, sessions, work, name, args=(), timeout=None, recheck=True, runner=(), env=ENV):
    """Run sessions; returns the trace (list of lines) and the crashes met.
    A crash ends its session with a "crash" event naming the command it happened in;
    it is reported only if running that session alone crashes again."""
    trace, crashes = [], []
    todo = list(sessions)
    if timeout is None:
        timeout = 60 + sum(map(len, todo)) // 50
    n = 0
    while todo:
        n += 1
        inp = '\n'.join(json.dumps(c, separators=(',', ':')) for s in todo for c in s) + '\n'
        tf = os.path.join(work, '%s.%d.out' % (name, n))
        with open(tf, 'wb') as out, open(tf + '.err', 'wb') as err:
            p = subprocess.Popen([*runner, exe, *args], stdin=subprocess.PIPE, stdout=out, stderr=err, env=env)
            try:
                p.communicate(inp.encode(), timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                p.kill(); p.communicate()
                rc = -999
        lines = open(tf, errors='replace').read().split('\n')
        lines = [x for x in lines if x.endswith('}}')]
        if rc == 0:
            trace += lines
            break
        if rc in (3, 4):
            raise CheckError('driver failed (%d): %s' % (rc, open(tf + '.err', errors='replace').read()[-2000:]))
        # find the session that was running
        done = 0
        k = 0
        for k, s in enumerate(todo):
            if done + len(s) > len(lines):
                break
            done += len(s)
        else:                        # it died at exit
            k = len(todo) - 1
            done -= len(todo[k])
        ses = todo[k]
        at = len(lines) - done       # index of the command that died
        cmd = ses[min(at, len(ses) - 1)]
        confirmed = True
        if recheck:
            again, c2 = run_driver(exe, [ses], work, name + '.again%d' % n, args, 40, recheck=False, runner=runner, env=env)
            confirmed = bool(c2)
            if not confirmed and k:       # it may need the sessions before it
                _, c2 = run_driver(exe, todo[:k + 1], work, name + '.again%d' % n, args, None, recheck=False, runner=runner, env=env)
                confirmed = bool(c2)
        trace += lines[:done]
        part = lines[done:]
        if confirmed:
            cmd_r = dict(cmd); cmd_r.pop('r', None)
            trace += part + [json.dumps({'op': 'crash', 'c': cmd_r, 'r': {}, 'rc': rc}, separators=(',', ':'))]
            crashes.append(dict(session=ses, command=cmd, rc=rc,
                                stderr=open(tf + '.err', errors='replace').read()[-3000:]))
        elif recheck:
            log('note: a crash (%d) did not repeat' % rc)
            trace += again
        todo = todo[k + 1:]
        if len(crashes) > 5 or rc == -999:      # enough, or it hangs
            break
    return trace, crashes


def run_threads(exe, sessions, work, name, args, env):
    """All sessions at once, each in a thread of its own. Returns the trace, and what went wrong, if anything."""
    inp = '\n'.join(json.dumps(c, separators=(',', ':')) for s in sessions for c in s) + '\n'
    for attempt in range(3):
        tf = os.path.join(work, '%s.%d.out' % (name, attempt))
        with open(tf, 'wb') as out, open(tf + '.err', 'wb') as err:
            p = subprocess.Popen([exe, '--threads', *args], stdin=subprocess.PIPE, stdout=out, stderr=err, env=env)
            try:
                p.communicate(inp.encode(), timeout=120 + len(inp) // 5000)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                p.kill(); p.communicate()
                rc = -999
        etxt = open(tf + '.err', errors='replace').read()
        lines = [x for x in open(tf, errors='replace').read().split('\n') if x.endswith('}}')]
        if 'ThreadSanitizer: data race' in etxt or 'ThreadSanitizer: heap-use-after-free' in etxt:
            return [], 'data race:\n' + etxt[:3000]
        if rc == 0 or rc == 66:
            return lines, None
        if rc in (3, 4):
            raise CheckError('driver failed (%d): %s' % (rc, etxt[-2000:]))
        if rc not in (-9, -999):
            return [], 'threads crashed (%d):\n%s' % (rc, etxt[-3000:])
    if rc == -999:
        return [], 'threads hang'
    raise CheckError('threads were killed (%d)' % rc)


# ---------------------------------------------------------------- TLC
def java(args, work, env=None, timeout=600, mem='3g', jvm=()):
    e = dict(os.environ)
    if env:
        e.update(env)
    cmd = ['java', '-XX:+UseSerialGC', '-Xmx' + mem, '-Xss64m', '-XX:TieredStopAtLevel=4', '-Djava.io.tmpdir=' + work, *jvm, '-cp', CP, 'tlc2.TLC', *args]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as t:
        return -999, (t.stdout or b'').decode(errors='replace') if isinstance(t.stdout, bytes) else (t.stdout or '')


def validate_file(tf, focus, dirs_json, work, name, timeout=600, cfg='Trace.cfg'):
    meta = os.path.join(work, 'meta.' + name)
    rc, out = java(['-workers', '1', '-metadir', meta, '-config', cfg, 'Trace.tla'], work,
                   dict(TRACE=tf, FOCUS=focus, DIRS=dirs_json), timeout)
    shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r'<<"TRACE", (\d+), (\d+)>>', out)
    if not m or 'Error: Evaluating' in out or 'TLC threw' in out or re.search(r'Error: (?!Evaluating assumption)(?!.*[Pp]ostcondition)', out):
        if m and int(m.group(1)) == int(m.group(2)) and 'No error has been found' in out:
            pass
        elif m and 'ostcondition' in out and 'rror: The' not in out and 'Attempted' not in out:
            pass
        else:
            return dict(error=out[-4000:])
    got, total = int(m.group(1)), int(m.group(2))
    why = re.findall(r'<<\s*"NOT ALLOWED.*?>>(?:\s*>>)?', out, re.S)
    st = re.search(r'(\d+) states generated', out)
    pv = re.search(r'<<"PASSED OVER", (\d+)>>', out)
    return dict(passed=int(pv.group(1)) if pv else 0, ok=got == total, matched=got, total=total, why=why[-1] if why else '', states=int(st.group(1)) if st else 0)


def split_sessions(lines):
    """trace lines -> list of sessions (lists of lines), each starting with its reset"""
    out = []
    for x in lines:
        if x.startswith('{"op":"reset"') or not out:
            out.append([])
        out[-1].append(x)
    return out


class Result:
    def __init__(self):
        self.violations = []        # dict(why=, trace=[lines], line=)
        self.traces = 0
        self.events = 0
        self.passed = 0
        self.states = 0
        self.transitions = 0
        self.mc = []
        self.ops = {}
        self.notes = []
        self.samples = []


def chunks(xs, n):
    n = max(1, min(n, len(xs)))
    size = [len(xs) // n + (1 if i < len(xs) % n else 0) for i in range(n)]
    out, k = [], 0
    for s in size:
        out.append(xs[k:k + s]); k += s
    return out


def weight_chunks(sessions, n):
    """Deal sessions into n groups of similar total length (order kept inside a group)."""
    n = max(1, min(n, len(sessions)))
    groups, load = [[] for _ in range(n)], [0] * n
    weight = lambda s: 3 + len(s) + sum(map(len, s)) // 3000 if s and isinstance(s[0], str) else 3 + len(s)
    heavy = sorted((k for k, s in enumerate(sessions) if weight(s) > 400), key=lambda k: -weight(sessions[k]))
    for k in heavy + [k for k in range(len(sessions)) if k not in set(heavy)]:
        i = load.index(min(load))
        groups[i].append(sessions[k])
        load[i] += weight(sessions[k])
    return [g for g in groups if g]


def validate_sessions(res, focus, traced, dirs_json, work, tag, timeout=700, cfg='Trace.cfg', relational=False):
    """traced: list of session traces. Validates; on rejection records the violation and
    goes on with the sessions after it."""
    def job(arg):
        i, group = arg
        found = []
        states = events = ok = 0
        todo = group
        rnd = 0
        while todo:
            rnd += 1
            tf = os.path.join(work, '%s.%d.%d.ndjson' % (tag, i, rnd))
            with open(tf, 'w') as f:
                for s in todo:
                    f.write('\n'.join(s) + '\n')
            v = validate_file(tf, focus, dirs_json, work, '%s.%d.%d' % (tag, i, rnd), timeout, cfg)
            if 'error' in v:
                raise CheckError('TLC failed on %s:\n%s' % (tf, v['error']))
            states += v['states']
            passed[0] += v['passed']
            if v['ok']:
                events += v['total']; ok += len(todo)
                os.unlink(tf)
                break
            events += v['matched']
            k = 0
            pos = v['matched']
            for k, s in enumerate(todo):
                if pos < len(s):
                    break
                pos -= len(s)
            ok += k
            found.append(dict(why=v['why'], trace=todo[k] if not relational else sum(todo[:k + 1], []),
                              line=pos if not relational else v['matched'], event=todo[k][pos]))
            os.unlink(tf)
            if len(found) >= 3 or relational:
                break
            todo = todo[k + 1:]
        return found, states, events, ok
    passed = [0]
    groups = list(enumerate([traced] if relational == 'one' else weight_chunks(traced, JOBS)))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for found, states, events, ok in ex.map(job, groups):
            res.violations += found
            res.states += states
            res.transitions += events
            res.events += events
            res.traces += ok
    res.passed += passed[0]


def count_ops(res, traced):
    for s in traced:
        for x in s:
            m = re.match(r'\{"op":"([^"]+)"', x)
            if m:
                res.ops[m.group(1)] = res.ops.get(m.group(1), 0) + 1


def drive_and_validate(res, focus, sessions, flavour, work, tag, dirs, args=(), cfg='Trace.cfg', relational=False, timeout=700):
    """sessions -> real code -> traces -> TLC"""
    exe = os.path.join(build(flavour), 'driver')
    paths, content = dirs
    dj = os.path.join(work, 'dirs.json')
    if not os.path.exists(dj):
        json.dump(content, open(dj, 'w'))
    dargs = list(args) + ['%s=%s' % kv for kv in paths.items()]
    groups = [sessions] if relational == 'one' else weight_chunks(sessions, JOBS)
    traced = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for tr, cr in ex.map(lambda a: run_driver(exe, a[1], work, '%s.d%d' % (tag, a[0]), dargs), list(enumerate(groups))):
            traced += split_sessions(tr)
            for c in cr:
                res.notes.append('crash %s in %s' % (c['rc'], json.dumps(c['command'])[:300]))
                res.notes.append(c['stderr'][-1500:])
    count_ops(res, traced)
    if traced and len(res.samples) < 2:
        s = traced[len(traced) // 2]
        res.samples.append([json.loads(x) for x in s[:6]])
    validate_sessions(res, focus, traced, dj, work, tag, timeout, cfg, relational)
    return traced


def parallel_driver(res, exe, sessions, work, tag, dargs, runner=()):
    """Run sessions in several processes; returns their traces, in the order of the sessions."""
    groups = chunks(sessions, JOBS)
    out = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for tr, cr in ex.map(lambda a: run_driver(exe, a[1], work, '%s.d%d' % (tag, a[0]), dargs, runner=runner), list(enumerate(groups))):
            out += split_sessions(tr)
            for c in cr:
                res.notes.append('crash %s in %s' % (c['rc'], json.dumps(c['command'])[:300]))
                res.notes.append(c['stderr'][-1500:])
    return out


def session_key(lines):
    return json.loads(lines[0])['n']


def keep_going(lines):
    """the same session, continuing the one before it as far as answers go"""
    c = json.loads(lines[0])
    c['keep'] = 1
    return [json.dumps(c, separators=(',', ':'))] + lines[1:]


def validate_units(res, focus, units, dirs, work, tag, timeout=700):
    """units: list of lists of session traces whose answers have to agree with each other"""
    dj = os.path.join(work, 'dirs.json')
    if not os.path.exists(dj):
        json.dump(dirs[1], open(dj, 'w'))
    joined = []
    for unit in units:
        lines = []
        for k, t in enumerate(unit):
            lines += keep_going(t) if k else t
        joined.append(lines)
    count_ops(res, joined)
    if joined and len(res.samples) < 2:
        res.samples.append([json.loads(x) for x in joined[len(joined) // 2][:6]])
    validate_sessions(res, focus, joined, dj, work, tag, timeout)


# ---------------------------------------------------------------- model checking proper
def model_check(res, module, cfg, work, timeout=600, workers='4', expect='ok', env=None, mem='6g'):
    """Exhaustive TLC run of a model; expect='ok', or 'violation' for a negative test."""
    name = cfg + ''.join('.%s' % v for v in (env or {}).values())
    meta = os.path.join(work, 'meta.' + name)
    t = time.time()
    rc, out = java(['-workers', workers, '-noGenerateSpecTE', '-maxSetSize', '2000000', '-metadir', meta, '-config', cfg + '.cfg', '-deadlock', module + '.tla'],
                   work, env, timeout, mem)
    shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    viol = bool(re.search(r'(Invariant|Action property|Temporal properties|property) .*(is violated|were violated)', out))
    ok = 'Model checking completed. No error has been found' in out
    d = dict(model=module, config=name, states=int(m.group(2)) if m else 0, transitions=int(m.group(1)) if m else 0,
             result='ok' if ok else 'violation' if viol else 'error', wall_s=round(time.time() - t, 1), expected=expect)
    res.mc.append(d)
    if d['result'] == 'error' or (expect == 'ok' and not ok) or (expect == 'violation' and not viol):
        raise CheckError('model %s/%s: expected %s, got %s (%d)\n%s' % (module, name, expect, d['result'], rc, out[-3000:]))
    res.states += d['states']
    res.transitions += d['transitions']
    return d


def generate(res, pool, depth, limit, work, fine=True, timeout=600, mem='4g'):
    """Behaviours of the specification (spec/Gen.tla), as command sequences: one per
    transition of the bounded state graph, or a seeded choice of `limit` of them."""
    name = '%s%d%s' % (pool, depth, 'f' if fine else '')
    meta = os.path.join(work, 'meta.gen.' + name)
    rc, out = java(['-workers', '1', '-metadir', meta, '-config', 'Gen.cfg', '-deadlock', 'Gen.tla'], work,
                   dict(POOL=pool, DEPTH=str(depth), FINE='1' if fine else '0'), timeout, mem)
    shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    lines = [x for x in out.split('\n') if x.startswith('"GEN')]
    if 'No error has been found' not in out or not lines or not m:
        raise CheckError('generation from %s failed:\n%s' % (name, '\n'.join(x for x in out.split('\n') if not x.startswith('"GEN'))[-3000:]))
    total = len(lines)
    if limit and total > limit:
        lines = random.Random('%s/%d' % (name, SEED)).sample(lines, limit)
    sessions = []
    for x in lines:
        cs = json.loads(json.loads(x)[3:])
        sessions.append([dict(op='reset', n=len(sessions))] + [dict(op=c['op'], **{k: v for k, v in c.items() if k != 'op'}) for c in cs])
    res.states += int(m.group(2)); res.transitions += int(m.group(1))
    res.mc.append(dict(model='Gen', config=name, states=int(m.group(2)), transitions=int(m.group(1)), behaviours=total,
                       driven=len(sessions), purpose='behaviours of the specification driven into the real code'))
    return sessions
