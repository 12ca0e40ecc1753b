"""Histories in which one value takes the place of another that differs from it in a single respect:
the same size with other contents, one letter, order, one field or one number apart, or nothing at all."""
import itertools, random
import gen
from gen import L, u, Ses, fam


def chunked(r, jobs, size):
    out, s = [], None
    for i, j in enumerate(jobs):
        if i % size == 0:
            s = Ses(r); out.append(s.c)
        j(s, '_%d' % i)
    return out


def pairs(r, xs, n):
    ps = list(itertools.product(range(len(xs)), repeat=2))
    ps = ps if len(ps) <= n else r.sample(ps, n)
    return [(xs[i], xs[j]) for i, j in ps]


# ---------------------------------------------------------------- words
def near_words(r):
    long = [r.choice([97, 98, 0xe5, 0x20ac]) for _ in range(r.choice([7, 8, 15, 16, 17, 31, 33, 70]))]
    k = r.randrange(len(long))
    other = list(long); other[k] = other[k] + 1
    hi = list(long); hi[k] = long[k] ^ 0x100
    return [[], [97], [98], [97, 98], [98, 97], [97, 97], [97, 98, 99], [0x161], [0x61, 0x161], long, other, hi, long[:-1], long + [97], list(reversed(long)), [0xd83d, 0xde00], [97, 0xd83d, 0xde00]]


def near_C02(r, n=70):
    def job(a, b):
        def f(s, i):
            x, y, z = 'x' + i, 'y' + i, 'z' + i
            s.add('w.let', o=x, l=a); s.add('w.let', o=y, l=b)
            if r.random() < .5:
                s.add('w.cmp', o=x, s=y)
            how = r.choice(['w.set', 'w.mset', 'w.text', 'w.text', 'w.set'])
            if how == 'w.text':
                t = ''.join(map(chr, b)).encode('utf-16-le', 'surrogatepass').decode('utf-16-le')
                s.add('w.text', o=x, b=u(t) + r.choice([[], [], [], [32], [255]]), via=r.choice(['cstr', 'str']))
            else:
                s.add(how, o=x, s=y)
            s.add('w.obs', o=x); s.add('w.obs', o=y)
            s.add('w.cmp', o=x, s=y)
            s.add('w.let', o=z, l=a)
            s.add('w.cmp', o=z, s=x)
            if r.random() < .5:
                s.add('w.set', o=r.choice([x, y]), s=z); s.add('w.obs', o=x); s.add('w.obs', o=y)
            else:
                s.add('del', o=y); s.add('w.obs', o=x)
        return f
    return chunked(r, [job(a, b) for a, b in pairs(r, near_words(r), n)], 12)


# ---------------------------------------------------------------- lists
def near_lists(r):
    A, B, C, E = [97], [98], [97, 98], []
    base = [[r.choice([97, 98, 99]) for _ in range(r.randint(1, 3))] for _ in range(r.choice([4, 5, 8, 9, 17]))]
    k = r.randrange(len(base))
    other = list(base); other[k] = other[k] + [120]
    swapped = list(base); swapped[0], swapped[-1] = swapped[-1], swapped[0]
    return [[], [A], [B], [E], [A, B], [B, A], [A, A], [B, B], [C], [A, E], [E, A], [A, B, C], base, other, swapped, base[:-1], base + [A], base[:-1] + [B]]


def near_C03(r, n=70):
    def make(s, o, ws):
        if r.random() < .3 and all(ws):
            s.add('l.split', o=o, b=u(' '.join(''.join(map(chr, w)) for w in ws)))
        else:
            s.add('l.new', o=o)
            for w in ws:
                s.add('l.add', o=o, w=w)

    def job(a, b):
        def f(s, i):
            x, y, z = 'x' + i, 'y' + i, 'z' + i
            make(s, x, a); make(s, y, b)
            if r.random() < .5:
                s.add('l.cmp', o=x, s=y)
            s.add(r.choice(['l.set', 'l.set', 'l.mset']), o=x, s=y)
            s.add('l.obs', o=x); s.add('l.obs', o=y); s.add('l.cmp', o=x, s=y)
            make(s, z, a)
            s.add('l.cmp', o=z, s=x); s.add('l.cmp', o=z, s=y)
            k = r.choice([x, y])
            s.add('l.add', o=k, w=[r.choice([97, 98])])
            s.add('l.obs', o=x, probe=1); s.add('l.obs', o=y); s.add('l.cmp', o=y, s=x)
            if r.random() < .4:
                s.add('del', o=y); s.add('l.obs', o=x)
        return f
    return chunked(r, [job(a, b) for a, b in pairs(r, near_lists(r), n)], 8)


# ---------------------------------------------------------------- documents
FA, FB, FC = [102], [103], [102, 103]


def near_docs(r):
    t = [['aa', 'bb'], ['cc', 'dd'], ['bb', 'aa'], ['aa'], [], ['aa', 'bb', 'aa']]
    out = [{}, *[{str(0): x} for x in t]]
    out += [{'1': ['aa', 'bb']}, {'0': ['aa', 'bb'], '1': ['cc', 'dd']}, {'0': ['cc', 'dd'], '1': ['aa', 'bb']}, {'0': ['aa', 'bb'], '1': []},
            {'0': ['aa'], '1': ['bb'], '2': ['cc']}, {'0': ['aa', 'bb'], '2': ['cc', 'dd']}, {'0': [], '1': [], '2': []}]
    return out


def say(s, d, fs, r):
    for k, ws in fs.items():
        f = (FA, FB, FC)[int(k)]
        s.add('d.text', o=d, f=f, b=u(r.choice([' ', '  ', '\n']).join(ws)), via=r.choice(['cstr', 'str']))


def see(s, d, r):
    s.add('d.obs', o=d); s.add('d.id', o=d); s.add('d.n', o=d)
    for f in (FA, FB, FC):
        s.add('d.get', o=d, f=f)
    s.add('d.cnt', o=d, w=L('aa'), f=FA); s.add('d.cnt', o=d, w=L('cc'), f=r.choice([FA, FB]))


def near_C19(r, n=60):
    def job(a, b):
        def f(s, i):
            x, y, c = 'x' + i, 'y' + i, 'c' + i
            same = r.random() < .5
            s.add('d.new', o=x, id=3); s.add('d.new', o=y, id=3 if same else r.choice([4, 19, 11]))
            say(s, x, a, r); say(s, y, b, r)
            s.add('c.new', o=c); s.add('c.add', o=c, s=x); s.add('c.add', o=c, s=y)
            how = r.random()
            if how < .6:
                s.add('d.set', o=x, s=y)
            elif how < .75:     # the same field given other text
                say(s, x, b, r)
            elif how < .9:      # by word lists
                for k, ws in b.items():
                    l = 'l%s%s' % (i, k)
                    s.add('l.new', o=l)
                    for w in ws:
                        s.add('l.add', o=l, w=L(w))
                    s.add('d.words', o=x, f=(FA, FB, FC)[int(k)], s=l)
                    s.add('l.add', o=l, w=L('zz'))
            else:
                s.add('d.copy', o='z' + i, s=x); s.add('d.set', o='z' + i, s=y); see(s, 'z' + i, r); s.add('d.set', o=y, s='z' + i)
            see(s, x, r); see(s, y, r)
            say(s, r.choice([x, y]), {'0': ['ee', 'ff']}, r)
            see(s, x, r); see(s, y, r)
            s.add('c.add', o=c, s=x)
            s.add('c.obs', o=c)
            if r.random() < .5:
                s.add('del', o=r.choice([x, y])); s.add('c.obs', o=c)
        return f
    return chunked(r, [job(a, b) for a, b in pairs(r, near_docs(r), n)], 4)


# ---------------------------------------------------------------- results
def near_results(r):
    base = [(i + 1, r.randint(1, 15)) for i in range(r.choice([3, 5, 9, 18]))]
    one = list(base); k = r.randrange(len(base)); one[k] = (one[k][0], one[k][1] % 15 + 1)
    idd = list(base); idd[k] = (23, idd[k][1])
    return [[], [(1, 5)], [(2, 5)], [(1, 6)], [(1, 5), (2, 5)], [(2, 5), (1, 5)], [(1, 5), (2, 6)], [(1, 6), (2, 5)], [(1, 5), (1, 5)],
            [(1, 5), (2, 5), (3, 9)], [(1, 9), (2, 5), (3, 5)], base, one, idd, list(reversed(base)), sorted(base, key=lambda p: -p[1]), base[:-1]]


def near_C15(r, n=70):
    def job(a, b):
        def f(s, i):
            x, y, z = 'x' + i, 'y' + i, 'z' + i
            for o, es in ((x, a), (y, b)):
                s.add('r.new', o=o)
                for d, k in es:
                    s.add('r.add', o=o, id=d, k=k)
                if r.random() < .4:
                    s.add('r.read', o=o, i=r.choice([0, 1]))
            how = r.choice(['r.set', 'r.mset', 'r.all', 'r.one', 'r.move', 'r.copy'])
            if how == 'r.move':
                s.add('r.move', o=z, s=x); s.add('r.mset', o=x, s=y); s.add('r.obs', o=z)
            elif how == 'r.copy':
                s.add('r.copy', o=z, s=y); s.add('r.set', o=y, s=x); s.add('r.obs', o=z)
            elif how == 'r.one':
                for k in r.sample(range(4), 2):
                    s.add('r.one', o=x, s=y, i=k)
            else:
                s.add(how, o=x, s=y)
            if r.random() < .5:
                s.add('r.add', o=r.choice([x, y]), id=9, k=r.randint(1, 15))
            s.add('r.read', o=x, i=0)
            s.add('r.obs', o=x); s.add('r.obs', o=y)
            if r.random() < .5:
                s.add('del', o=y); s.add('r.obs', o=x)
        return f
    return chunked(r, [job(a, b) for a, b in pairs(r, near_results(r), n)], 10)


# ---------------------------------------------------------------- matchers: a document indexed again, or another much like it
def near_match(r, n=24, online=False, filt=False):
    docs = near_docs(r)

    def job(a, b):
        def f(s, i):
            m, x, y, c, e = 'm' + i, 'x' + i, 'y' + i, 'c' + i, 'e' + i
            s.add('m.new', o=m)
            s.add('d.new', o=x, id=3); s.add('d.new', o=y, id=r.choice([3, 4, 19]))
            say(s, x, a, r); say(s, y, b, r)
            s.add('c.new', o=c); s.add('c.add', o=c, s=x)
            if r.random() < .5:
                s.add('c.add', o=c, s=y); s.add('m.idx', o=m, s=c)
            else:
                s.add('m.idx', o=m, s=c); s.add('c.new', o=e); s.add('c.add', o=e, s=y); s.add('m.idx', o=m, s=e)
            if r.random() < .3:
                s.add('m.idx', o=m, s=c)
            for q in (['aa'], ['bb', 'aa'], ['cc', 'dd'], ['aa', 'bb'], ['dd']):
                if online:
                    for fl in (FA, FB):
                        s.add('m.online', o=m, q=[L(w) for w in q], f=fl)
                else:
                    s.add('m.match', o=m, q=[L(w) for w in q], via='wl')
            if filt:
                for fl, w in ((FA, 'aa'), (FB, 'aa'), (FA, 'cc'), (FC, 'cc'), (FA, 'zz')):
                    p = 'p%s%s%s' % (i, chr(fl[-1]) + str(len(fl)), w)
                    s.add('p.new', o=p); s.add('f.sub', o=p, f=fl, w=L(w))
                    s.add('m.match', o=m, q=[L('bb')], via='wl', p=p, base=1, nos=[])
        return f
    return chunked(r, [job(a, b) for a, b in pairs(r, docs, n)], 3)


def near_C23(r, n=1):
    out = []
    for p in ('C02', 'C03', 'C15', 'C19', 'C20', 'C16'):
        for c in r.sample(NEAR[p](r, 40), 3) if n == 1 else NEAR[p](r, 80):
            out.append(gen.finish(c, r))
    return out


def near_C24(r, n=1):
    return gen.for_python(sum([NEAR[p](r, 20 if n == 1 else n) for p in ('C02', 'C03', 'C15', 'C19', 'C13')], []))


def near_C21(r, n=1):
    return gen.c_twins(sum([NEAR[p](r, 12 if n == 1 else n) for p in ('C02', 'C15', 'C19', 'C13')], []))


NEAR = {'C02': near_C02, 'C03': near_C03, 'C15': near_C15, 'C19': near_C19,
        'C21': near_C21, 'C23': near_C23, 'C24': near_C24, 'C13': near_match, 'C14': near_match, 'C17': near_match, 'C18': near_match,
        'C20': lambda r, n=24: near_match(r, n, online=True), 'C16': lambda r, n=18: near_match(r, n, filt=True)}


def near_sessions(prop, r, thorough=False):
    f = NEAR.get(prop)
    if not f:
        return []
    return sum([f(r, 400) for _ in range(6)], []) if thorough else f(r)
