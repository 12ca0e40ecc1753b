"""Histories that go through sizes one by one: every length, count, fan-out or position of interest,
with the difference that matters at that very place. Deterministic in the seed."""
import gen
from gen import L, u, Ses, Mat, fam, wide, WS

KEYS = sorted({p + d for p in (4, 8, 10, 16, 20, 24, 32, 40, 48, 50, 60, 64, 80, 96, 100, 120, 128, 150, 160, 192, 200, 250, 255, 256,
                               300, 400, 500, 512, 1000, 1024, 2000, 2048, 4095, 4096) for d in (-1, 0, 1)})
LETTERS = [97, 98, 0xe5, 0x17f, 0x1e03, 0x20ac, 0xffee]
CHARS = [u('a'), u('B'), u('\u00c5'), u('\u1e02'), u('\u20ac'), u('\U00010400'), u('\U0001f600')]


def upto(hi, dense=0):
    """the numbers below `dense` and the interesting ones up to `hi`"""
    return sorted(set(range(dense)) | {k for k in KEYS if k <= hi})


def some(r, xs, n):
    xs = list(xs)
    return sorted(r.sample(xs, n)) if len(xs) > n else xs


def chunks(r, jobs, size=60):
    """a session for every so many jobs; a job adds its calls to the session it is given"""
    out = []
    s = None
    for i, j in enumerate(jobs):
        if i % size == 0:
            s = Ses(r)
            out.append(s.c)
        j(s, i)
    return out


def sweep_C01(r):
    TAILS = [[[32], 1], [[10], 1], [[255], 1], [[0xc3], 1], [[0xe2, 0x82], 1], [[0xf0, 0x9f, 0x98], 1], [[0xed, 0xa0, 0x80], 1], [[0xc0, 0x80], 1], [[0x80], 1],
             [[0xf4, 0x90, 0x80, 0x80], 1], None]
    jobs = []
    for n in upto(4200, 20):
        def bad(s, i, n=n):
            c = r.choice(CHARS)
            t = r.choice(TAILS)
            o = 'w%d' % i
            if r.random() < .5:
                k, rest = n, 0
            else:
                k, rest = divmod(n, len(c))
            ts = [[c, k], [[98], rest]] + ([t] if t else [[[0xc3, 0x89], 1]])
            if t and r.random() < .4:
                ts.append([[99], r.choice([1, 2, 3, 40])])
            s.add('w.new', o=o, ts=[x for x in ts if x[1]], via=r.choice(['cstr', 'str'])); s.add('w.obs', o=o, probe=1)

        def good(s, i, n=n):
            c = r.choice(CHARS)
            o = 'w%d' % i
            a = r.choice([0, n, r.randint(0, n)])
            ts = [[[r.choice([65, 90, 97])], a], [c, n - a], [r.choice(CHARS), 1]]
            s.add('w.new', o=o, ts=[x for x in ts if x[1]], via=r.choice(['cstr', 'str'])); s.add('w.obs', o=o, probe=1)

        def arr(s, i, n=n):
            o = 'w%d' % i
            w = [r.choice(LETTERS)] * n
            x = r.random()
            w += [0xd83d, 0xde00] if x < .2 else [0xd83d] if x < .35 else [0xde00] if x < .45 else [32] if x < .55 else [0] if x < .8 else [65]
            if r.random() < .3:
                w += [r.choice([97, 0, 0xdc00])]
            s.add('w.let', o=o, l=w); s.add('w.obs', o=o, probe=1)
        jobs += [bad, good] + ([arr] if n < 600 else [])
    return chunks(r, jobs)


def sweep_C02(r):
    jobs = []
    for n in upto(1025, 34):
        def cmp(s, i, n=n):
            base = [r.choice([97, 98, 0x100, 0x1e03, 0xfeee])] * n
            d = 97 if not n else base[0]
            for k, w in enumerate([base + [d], base + [d + r.choice([1, 256])], base, base + [d, 97]]):
                s.add('w.let', o='%s%d' % ('abcd'[k], i), l=w)
            a, b = ['%s%d' % (k, i) for k in r.sample('abcd', 2)]
            s.add('w.cmp', o=a, s=b); s.add('w.cmp', o=b, s=a)
            a, b = ['%s%d' % (k, i) for k in 'ab']
            s.add('w.cmp', o=a, s=b); s.add('w.cmp', o=b, s=a)

        def join(s, i, n=n):
            m = r.choice([0, 1, n, r.choice([k for k in KEYS if k < 300])])
            a, b = 'a%d' % i, 'b%d' % i
            s.add('w.let', o=a, l=[97] * n); s.add('w.let', o=b, l=[98] * m)
            s.add('w.join', o='j%d' % i, s=a, s2=b); s.add('w.obs', o='j%d' % i)
            x = r.random()
            if x < .4:
                s.add('w.copy', o='k%d' % i, s='j%d' % i); s.add('w.set', o='j%d' % i, s=b)
            elif x < .7:
                s.add('w.move', o='k%d' % i, s='j%d' % i)
            else:
                s.add('w.let', o='k%d' % i, l=[99] * r.choice([0, 3, 40])); s.add('w.mset', o='k%d' % i, s='j%d' % i)
            s.add('w.obs', o='k%d' % i); s.add('w.obs', o='j%d' % i, probe=1); s.add('w.cmp', o='k%d' % i, s=a)
        jobs += [cmp, join]
    return chunks(r, jobs, 25)


def sweep_C03(r):
    jobs = []
    for n in upto(1025, 24):
        def words(s, i, n=n):
            ts = [[u(r.choice(['x ', 'aB\t', '\u00c5\n', 'c\r'])), n], [u(r.choice(['', 'z', '\u20ac', ' '])), 1]]
            if r.random() < .15:
                ts.append([[0xff], 1])
            o = 'l%d' % i
            s.add('l.split', o=o, ts=ts); s.add('l.obs', o=o, probe=1)
            if n < 300:
                s.add('l.split', o='m%d' % i, ts=ts[:1] + [[u('z'), 1]]); s.add('l.copy', o='k%d' % i, s='m%d' % i)
                s.add('l.add', o='k%d' % i, w=[98]); s.add('l.cmp', o='m%d' % i, s='k%d' % i); s.add('l.obs', o='m%d' % i); s.add('l.obs', o='k%d' % i)

        def lengths(s, i, n=n):
            c = r.choice(CHARS)
            ts = [[u('q'), r.choice([0, 1])], [[r.choice([32, 9, 10, 13])], r.choice([1, 1, n])], [c, n], [[r.choice([32, 9, 10, 13])], r.choice([1, n])], [r.choice([u('e'), [0xc3], u('')]), 1]]
            o = 'l%d' % i
            s.add('l.split', o=o, ts=[x for x in ts if x[1] and x[0]]); s.add('l.obs', o=o, probe=1)

        def spot(s, i, n=n):        # something other than an ordinary blank or letter at byte n
            o = 'l%d' % i
            x = r.choice([[9], [13], [11], [12], [0xc2, 0xa0], [0xe3, 0x80, 0x80], [0xff], [0xc2, 0x85], [0x7f]])
            s.add('l.split', o=o, ts=[[[97], n], [x, 1], [[98], r.choice([0, 1, 5])]] if n else [[x, 1]]); s.add('l.obs', o=o, probe=1)
        jobs += [words, lengths, spot] if n < 600 else [words, spot]
    return chunks(r, jobs)


def sweep_C04(r):
    jobs = []
    for n in upto(4200, 30):
        def exact(s, i, n=n):
            o = 'w%d' % i
            pre = r.choice([0, 1, 2, 3])
            w = [97] * pre + r.choice([[97], [0xe5], [0x20ac], [0xd83d, 0xde00]]) * n
            s.add('w.let', o=o, l=w)
            if n < 300:
                s.add('w.obs', o=o, u=1)
            z = gen.utf8_len(w)
            for k in {z, z + 1, z + 2, max(0, z - r.choice([1, 2, 3, 4]))}:
                s.add('w.utf8', o=o, n=k, via=r.choice(['cstr', 'c']))

        def upto_n(s, i, n=n):      # text of exactly n bytes, of mixed widths
            o = 'w%d' % i
            w, left = [], n
            while left > 0:
                x, k = r.choice([([97], 1), ([0xe5], 2), ([0x20ac], 3), ([0xd83d, 0xde00], 4)])
                if k <= left:
                    m = r.randint(1, left // k)
                    w += x * m; left -= k * m
            s.add('w.let', o=o, l=w)
            for k in (n, n + 1):
                s.add('w.utf8', o=o, n=k, via=r.choice(['cstr', 'c']))
            if n < 300:
                s.add('w.obs', o=o, u=1)
        jobs += [exact, upto_n]
    return chunks(r, jobs, 30)


def orders(r, xs):
    """the same letters in different orders of arrival"""
    xs = sorted(xs)
    k = r.randrange(5)
    if k == 0:
        return xs
    if k == 1:
        return xs[::-1]
    if k == 2:      # from both ends
        return [xs[i // 2] if i % 2 == 0 else xs[-1 - i // 2] for i in range(len(xs))]
    if k == 3:      # from the middle
        return sorted(xs, key=lambda x: abs(2 * xs.index(x) - len(xs)))
    r.shuffle(xs)
    return xs


def sweep_C05(r):
    out = []
    for group in range(2):       # words of every length, most of them beginnings of others
        s = Ses(r)
        s.add('s.new', o='s')
        al = r.choice([[97, 98], [0xe5, 0x61], [0x1e03, 97]])
        base = [r.choice(al) for _ in range(600)]
        ns = upto(513, 70)
        r.shuffle(ns) if group else None
        for n in ns:
            s.add('s.id', o='s', w=base[:n])
        for n in some(r, ns, 60):
            s.add('s.has', o='s', w=base[:n]); s.add('s.has', o='s', w=base[:n] + [99]); s.add('s.id', o='s', w=base[:n])
            s.add('s.has', o='s', w=base[:n - 1] + [base[n - 1] + 1] if n else [120])
        for i in some(r, range(len(ns) + 2), 30):
            s.add('s.word', o='s', id=i)
        out.append(s.c)
    for d in range(6):           # very many letters after the same beginning, at every depth
        s = Ses(r)
        s.add('s.new', o='s')
        n = r.choice([130, 131, 150, 200, 260, 300])
        a = orders(r, wide(r, n))
        s.add('s.fam', o='s', a=a, len=d + 1, **{'from': 0}, n=n)
        for j in sorted({0, 1, 2, n // 2, n - 2, n - 1, 127, 128, 129} | {r.randrange(n) for _ in range(15)}):
            if j < n:
                w = fam(a, d + 1, j)
                s.add('s.id', o='s', w=w); s.add('s.has', o='s', w=w + [a[0]]); s.add('s.has', o='s', w=w[:-1] + [97])
        s.add('s.id', o='s', w=[a[0]] * d + [99]); s.add('s.has', o='s', w=[a[0]] * d)
        out.append(s.c)
    for n in some(r, upto(70, 12), 8):    # letters arriving one after the other, all asked again each time round
        s = Ses(r)
        s.add('s.new', o='s')
        d = r.randint(0, 4)
        pre = [r.choice([97, 98]) for _ in range(d)]
        ls = orders(r, r.sample(range(97, 123), min(n, 26)) if r.random() < .5 or n > 60 else wide(r, n))
        for i, x in enumerate(ls):
            s.add('s.id', o='s', w=pre + [x])
            if i % 8 == 7 or i < 4:
                for y in r.sample(ls, min(4, len(ls))):
                    s.add('s.has', o='s', w=pre + [y])
        for i, x in enumerate(ls):
            s.add('s.id', o='s', w=pre + [x]); s.add('s.word', o='s', id=i)
        out.append(s.c)
    return out


def sweep_C06(r):
    out = []
    for group in range(2):
        s = Ses(r)
        s.add('i.new', o='i')
        al = r.choice([[97, 98], [0xe5, 0x61], [0x1e03, 97]])
        base = [r.choice(al) for _ in range(600)]
        ns = upto(513, 60)[1:]
        r.shuffle(ns) if group else None
        for n in ns:
            s.add('i.ins', o='i', w=base[:n], id=n)
            if r.random() < .3:
                s.add('i.has', o='i', w=base[:r.choice(ns)])
        for n in some(r, ns, 60):
            s.add('i.has', o='i', w=base[:n]); s.add('i.has', o='i', w=base[:n] + [99]); s.add('i.has', o='i', w=base[:n - 1] + [base[n - 1] + 1])
        s.add('i.stat', o='i', ids=ns + [0, 9999])
        out.append(s.c)
    for d in range(6):
        s = Ses(r)
        s.add('i.new', o='i')
        n = r.choice([130, 131, 150, 200, 260, 300])
        a = orders(r, wide(r, n))
        s.add('i.fam', o='i', a=a, len=d + 1, **{'from': 0}, n=n, id=10)
        for j in sorted({0, 1, 2, n // 2, n - 2, n - 1, 127, 128, 129} | {r.randrange(n) for _ in range(15)}):
            if j < n:
                w = fam(a, d + 1, j)
                s.add('i.has', o='i', w=w); s.add('i.has', o='i', w=w + [a[0]]); s.add('i.has', o='i', w=w[:-1] + [97])
        s.add('i.stat', o='i', ids=[10, 10 + n - 1, 10 + n, 9] + [10 + r.randrange(n) for _ in range(20)])
        out.append(s.c)
    s = Ses(r)      # counts of every size
    s.add('i.new', o='i')
    for k in range(1, 25):
        for _ in range(k):
            s.add('i.ins', o='i', w=[97, 96 + k], id=k)
    s.add('i.stat', o='i', ids=list(range(27)))
    for _ in range(120):
        s.add('i.ins', o='i', w=[97, 100], id=4)
        if r.random() < .25:
            s.add('i.stat', o='i', ids=[3, 4, 5])
    s.add('i.stat', o='i', ids=[3, 4, 5])
    out.append(s.c)
    for n in some(r, upto(50, 12), 6):
        s = Ses(r)
        s.add('i.new', o='i')
        pre = [r.choice([97, 98]) for _ in range(r.randint(0, 4))]
        ls = orders(r, r.sample(range(97, 123), min(n, 26)) if r.random() < .5 else wide(r, n))
        for i, x in enumerate(ls):
            s.add('i.ins', o='i', w=pre + [x], id=x)
            for y in r.sample(ls, min(3, len(ls))):
                s.add('i.has', o='i', w=pre + [y])
        for x in ls:
            s.add('i.has', o='i', w=pre + [x])
        s.add('i.stat', o='i', ids=ls + [1])
        out.append(s.c)
    return out


def edited(r, w, p, k, al):
    """one edit of kind k at position p"""
    w = list(w)
    if k == 't' and p + 1 < len(w):
        w[p], w[p + 1] = w[p + 1], w[p]
    elif k == 'd' and len(w) > 1:
        w.pop(min(p, len(w) - 1))
    elif k == 'i':
        w.insert(p, r.choice(al))
    elif w:
        w[min(p, len(w) - 1)] = r.choice(al)
    return w


def search_sweep(r, ns, wild, per=1):
    """queries of every length against words with one or two edits at every place"""
    out = []
    for n in ns:
        s = Ses(r)
        al = r.choice([[97, 98, 99, 100], [97, 98], [0x161, 97, 0x3b1], [97, 0x200, 0x1ff]])
        s.add('i.new', o='i'); s.add('e.new', o='e'); s.add('q.new', o='q')
        q = [r.choice(al) for _ in range(n)]
        ws = [q]
        ps = list(range(n)) if n <= 10 else some(r, {0, 1, n // 2, n - 2, n - 1, 7, 8, 15, 16, 31, 32, 63, 64} & set(range(n)), 6 if n < 40 else 3)
        for p in ps:
            ws.append(edited(r, q, p, r.choice('tdis'), al))
            if n < 12:
                ws.append(edited(r, edited(r, q, p, r.choice('tdis'), al), r.randint(0, n), r.choice('tdis'), al))
        if n < 40:
            k = r.choice([1, 2, 3, n])
            x = [r.choice(al) for _ in range(k)]
            ws += [x + q, q + x, q[:-1], q[1:]]
        ids = {}
        ws = [list(t) for t in dict.fromkeys(tuple(w) for w in ws if w)]
        r.shuffle(ws)
        for w in ws:
            s.add('i.ins', o='i', w=w, id=gen.ident(ids, w, r))
        if wild:
            gen.set_errors(s, 'e', al, r, True)
        elif r.random() < .3:
            s.add('e.set', o='e', x=al[0], y=al[1], e=r.choice([20, 60, 130]))
        for _ in range(per):
            qq = q if r.random() < .5 else r.choice(ws)
            s.add('i.find', o='i', q=qq, e='e', max=r.choice([0, 100, 150, 200, 300] if n < 40 else [100, 200]), s='q'); s.add('q.clear', o='q')
        out.append(s.c)
    return out


def sweep_C07(r):
    return search_sweep(r, list(range(1, 25)) + some(r, [k for k in KEYS if 24 < k < 70], 8) + some(r, [95, 96, 97, 99, 100, 101, 119, 120, 127, 128, 129], 3), True, 2)


def sweep_C08(r):
    out = search_sweep(r, list(range(1, 20)) + some(r, [k for k in KEYS if 20 < k < 70], 6), True, 2)
    for n in some(r, [k for k in KEYS if 4 < k < 260], 14) + [some(r, [k for k in KEYS if 260 < k < 520], 1)[0]]:      # so many hits
        s = Ses(r)
        s.add('i.new', o='i'); s.add('e.new', o='e'); s.add('q.new', o='q')
        a = orders(r, wide(r, n))
        d = r.choice([0, 1, 2])
        s.add('i.fam', o='i', a=a, len=d + 1, **{'from': 0}, n=n, id=5)
        s.add('i.ins', o='i', w=[97] * 9, id=1)
        for x in r.sample(a, 3):
            s.add('e.set', o='e', x=97, y=x, e=r.choice([1, 40, 99, 101, 150]))
        s.add('i.find', o='i', q=[a[0]] * d + [97], e='e', max=100, s='q')
        if r.random() < .5:
            s.add('q.clear', o='q')
        s.add('i.find', o='i', q=[a[0]] * d + [r.choice(a)], e='e', max=r.choice([0, 99]), s='q'); s.add('q.obs', o='q')
        out.append(s.c)
    return out


def sweep_C12(r):
    out = []
    for n in list(range(1, 20)) + some(r, [k for k in KEYS if 20 < k < 66], 5):
        s = Ses(r)
        al = r.choice([[97, 98, 99], [97, 98, 99, 100], [0x161, 98, 0x200]])
        s.add('i.new', o='i'); s.add('e.new', o='e'); s.add('q.new', o='q')
        q = [r.choice(al) for _ in range(n)]
        ws = [q]
        for a in some(r, range(14), 5 if n > 8 else 8):
            b = r.choice([0, 1, 13 - a, 6])
            ws.append([r.choice(al) for _ in range(a)] + q + [r.choice(al) for _ in range(b)])
        ws += [q[1:], q[:-1], q[:n // 2] + [r.choice(al)] + q[n // 2:]]
        ids = {}
        for w in [list(t) for t in dict.fromkeys(tuple(w) for w in ws if w)]:
            s.add('i.ins', o='i', w=w, id=gen.ident(ids, w, r))
        if r.random() < .5:
            s.add('e.val', o='e', k=r.choice(gen.SCALARS[:5]), v=r.choice([10, 60, 130, 200]))
        s.add('e.sub', o='e')
        for mx in r.sample([15, 30, 90, 99, 100, 150, 200], 2):
            s.add('i.find', o='i', q=q, e='e', max=mx, s='q'); s.add('q.clear', o='q')
        s.add('i.find', o='i', q=q[:r.choice([1, 2, 3])], e='e', max=r.choice([30, 100, 200]), s='q')
        out.append(s.c)
    return out


def sweep_C09(r):
    out = []
    s = Ses(r)          # groups of every size, one with a letter of another group at its very end
    s.add('e.new', o='e')
    pool = wide(r, 2200)
    sizes = list(range(1, 21)) + some(r, [k for k in KEYS if 20 < k < 270], 9)
    r.shuffle(sizes)
    made = []
    for n in sizes:
        g = [pool.pop() for _ in range(n)]
        if made and r.random() < .35:
            bad = g[:-1] + [r.choice(r.choice(made))]
            if r.random() < .3:
                bad = bad[::-1]
            s.add('e.grp', o='e', l=bad, e=r.choice([0, 30, 77]))
            s.add('e.ing', o='e', l=bad[:3] + bad[-3:])
            s.add('e.err', o='e', ps=[[bad[0], x] for x in bad[-3:]])
        e = r.randint(0, 230)
        s.add('e.grp', o='e', l=g, e=e)
        made.append(g)
        s.add('e.ing', o='e', l=g[:2] + g[-3:] + [r.choice(pool)])
        s.add('e.err', o='e', ps=[[g[0], g[-1]], [g[-1], g[0]], [g[-1], r.choice(r.choice(made))], [g[len(g) // 2], g[-1]]])
    flat = [x for g in made for x in (g[0], g[-1], r.choice(g))]
    s.add('e.err', o='e', ps=gen.some_pairs(r, flat, 200)); s.add('e.clr', o='e'); s.add('e.ing', o='e', l=flat); s.add('e.err', o='e', ps=gen.some_pairs(r, flat, 60))
    s.add('e.grp', o='e', l=[made[0][0], made[-1][-1], pool[0]], e=9); s.add('e.err', o='e', ps=gen.some_pairs(r, flat[:12] + [pool[0]], 40))
    out.append(s.c)
    s = Ses(r)          # pairs: every letter of a plane is as good as another
    s.add('e.new', o='e')
    keep = []
    ls = some(r, {x for p in range(7, 17) for x in (2**p - 1, 2**p, 2**p + 1) if x < 65536} | set(range(97, 123)) | set(range(0, 65536, 1311)), 75)
    ls = [x for x in ls if not 0xd800 <= x < 0xe000]
    for k in range(110):
        x, y = r.choice(ls), r.choice(ls)
        keep.append([x, y])
        s.add('e.set', o='e', x=x, y=y, e=r.randint(0, 250))
        if k % 6 == 5:
            s.add('e.err', o='e', ps=[keep[-1], keep[-1][::-1], r.choice(keep), r.choice(keep)[::-1], [r.choice(ls), r.choice(ls)]])
    s.add('e.err', o='e', ps=keep + [p[::-1] for p in keep[:60]]); s.add('e.err', o='e', ps=gen.some_pairs(r, ls, 250))
    out.append(s.c)
    s = Ses(r)          # pairs that share a sum, a product, their low or high bits with one that was set
    s.add('e.new', o='e')
    some_error = r.sample(range(1, 250), 20)
    for k in range(14):
        x, y = sorted(r.sample(range(97, 0x300), 2) if k < 3 else (r.choice([97, 122, 0x3b1, r.randint(97, 3000)]), r.randint(0x2000, 0xd7ff)) if k < 8 else
                      (r.randint(0x100, 0x7fff), r.randint(0xe000, 0xffef)))
        s.add('e.set', o='e', **dict(zip('xy', r.choice([(x, y), (y, x)]))), e=some_error[k])
        ps = [[x, y], [y, x]]
        for m in [31, 33, 37, 100, 127, 128, 131, 255, 256, 257, 511, 512, 1000, 1024, 2048, 4096, 8192, 10000, 16384, 32768]:
            for a in (1, -1):
                ps += [[x + a, y - a * m], [x - a * m, y + a]]
        for i in range(0, 16):
            ps += [[x ^ (1 << i), y], [x, y ^ (1 << i)], [x ^ (1 << i), y ^ (1 << i)], [x + (1 << i), y - (1 << i)], [x - (1 << i), y + (1 << i)]]
        ps += [[x, x], [y, y], [x * y // 96, 96], [x + y, 0x61]]
        ps = [p for p in ps if all(0 < l < 65536 and not 0xd800 <= l < 0xe000 for l in p)]
        s.add('e.err', o='e', ps=ps)
    out.append(s.c)
    return out


def sweep_C10(r):
    out = sweep_C09(r)[:1]
    for d in sorted(SWEEPDIRS):
        s = Ses(r)
        s.add('e.new', o='e')
        gs = SWEEPDIRS[d][0]
        if r.random() < .3:
            s.add('e.grp', o='e', l=[r.choice(r.choice(gs)), 0x3b1 + r.randint(0, 5)], e=50)
        s.add('e.acc', o='e', g='latin', dir=d)
        probe = [x for g in gs for x in (g[0], g[-1], r.choice(g))]
        s.add('e.ing', o='e', l=probe); s.add('e.err', o='e', ps=[[g[0], x] for g in gs for x in (g[-1], r.choice(g), r.choice(r.choice(gs)))])
        s.add('e.acc', o='e', g='latin', dir=d)       # refused: the letters are taken
        s.add('e.acc', o='e', g='greek', dir='small'); s.add('e.ing', o='e', l=[0x3b1, 0x3ac] + probe[:5])
        out.append(s.c)
    return out


def _sweep_groups():
    """data files whose lines have every length in bytes up to 135, and lengths near larger powers"""
    import random
    r = random.Random(11)
    one = list(range(33, 127)); two = list(range(0x100, 0x180)) + list(range(0x400, 0x460)) + list(range(0x180, 0x3ff)) + list(range(0x460, 0x6ff)); three = list(range(0x4e00, 0x9f00))
    out = {}
    for name, lens in [('by%d' % k, list(range(1 + k, 136, 5))) for k in range(5)] + [('byte%d' % k, [x for p in (192, 256, 320, 384, 448, 512, 768, 1024) for x in (p - 1, p, p + 1)][k::3]) for k in range(3)]:
        a, b, c = r.sample(one, len(one)), r.sample(two, len(two)), r.sample(three, len(three))
        r.shuffle(lens)
        gs = []
        for n in lens:
            g = []
            while n:
                k = 2 if n in (2, 4) and b else 3 if n >= 3 and n != 4 else n if n < 3 else 2
                if k == 1 and not a:
                    break
                g.append((a, b, c)[k - 1].pop()); n -= k
            if g:
                r.shuffle(g)
                gs.append(g)
        out[name] = (gs, name.endswith(('1', '3')))
    return out


SWEEPDIRS = _sweep_groups()


def sweep_dirs():
    """name -> (latin, greek)"""
    return {k: ('\n'.join(''.join(map(chr, g)) for g in gs).encode() + (b'' if bare else b'\n'), None) for k, (gs, bare) in SWEEPDIRS.items()}


gen.MORE_DIRS.append(sweep_dirs)


# ---------------------------------------------------------------- matchers
def words_of(r, n, a='abcdefghij', ln=4, at=0):
    """n different words"""
    ls = [ord(c) for c in a]
    return [''.join(map(chr, fam(ls, ln, at + 7 * i))) for i in range(n)]


def ask(s, m, q, online=None, **kw):
    if online is not None:
        s.add('m.online', o=m, q=[L(w) for w in q], f=L(online))
    else:
        s.add('m.match', o=m, q=[L(w) for w in q], via='wl', **kw)


def matcher_sweep(r, online=False):
    out = []

    def put(s, q, **kw):
        ask(s, 'm', q, r.choice(['t', 'n']) if online else None, **kw)
    for n in some(r, upto(260, 20), 20):     # so many documents, the last one special
        s = Ses(r)
        s.add('m.new', o='m'); s.add('c.new', o='c')
        s.add('d.new', o='d', id=100); s.add('d.text', o='d', f=L('t'), b=u(r.choice(['same word', 'same same word', 'same'])))
        s.add('d.new', o='y', id=5); s.add('d.text', o='y', f=L('t'), b=u('last same')); s.add('d.text', o='y', f=L('n'), b=u('name'))
        s.add('d.new', o='x', id=99); s.add('d.text', o='x', f=L('t'), b=u('first word'))
        if r.random() < .5:
            s.add('c.add', o='c', s='x')
        if n:
            s.add('c.add', o='c', s='d', n=n)
        s.add('c.add', o='c', s='y')
        s.add('m.idx', o='m', s='c')
        for q in r.sample([['last'], ['same'], ['word', 'name'], ['lasd', 'same'], ['name']], 3):
            put(s, q)
        if r.random() < .5:
            s.add('c.new', o='k'); s.add('d.new', o='z', id=7); s.add('d.text', o='z', f=L('n'), b=u('name last')); s.add('c.add', o='k', s='z'); s.add('m.idx', o='m', s='k')
            put(s, ['last', 'name'])
        out.append(s.c)
    for n in some(r, upto(300, 12), 12):     # so many words in a field
        s = Ses(r)
        s.add('m.new', o='m'); s.add('c.new', o='c')
        ws = words_of(r, n + 1, at=r.randint(0, 99))
        r.shuffle(ws)
        s.add('d.new', o='d', id=1); s.add('d.text', o='d', f=L('t'), b=u(' '.join(ws)))
        s.add('d.new', o='e', id=2); s.add('d.text', o='e', f=L('t'), b=u(ws[-1])); s.add('d.text', o='e', f=L('n'), b=u(' '.join(ws[:3])))
        s.add('c.add', o='c', s='d'); s.add('c.add', o='c', s='e'); s.add('m.idx', o='m', s='c')
        for q in ([ws[-1]], [ws[0], ws[-1]], [ws[-1] + 'z']):
            put(s, q)
        out.append(s.c)
    for n in some(r, upto(70, 16), 12):      # so many fields
        s = Ses(r)
        s.add('m.new', o='m'); s.add('c.new', o='c')
        names = orders(r, ['f%d' % i for i in range(n + 1)])
        for d in (1, 2):
            s.add('d.new', o='d%d' % d, id=d)
            for i, f in enumerate(names):
                s.add('d.text', o='d%d' % d, f=L(f), b=u(('word ' if i % 2 else 'other ') * r.randint(1, 2) + ('only%d' % i if d == 1 else 'plain')))
            s.add('c.add', o='c', s='d%d' % d)
        s.add('m.idx', o='m', s='c')
        s.add('x.set', o='m', f=L(names[-1]), v=r.choice([0, 5, 17]))
        if r.random() < .5:
            s.add('x.set', o='m', f=L(names[0]), v=3)
        for q in (['word'], ['only%d' % n], ['plain', 'only0']):
            ask(s, 'm', q, names[-1] if online else None)
        out.append(s.c)
    for n in some(r, upto(66, 12), 10):      # so many query words, the last one decides
        s = Ses(r)
        s.add('m.new', o='m'); s.add('c.new', o='c')
        ws = words_of(r, n + 3, at=r.randint(0, 99))
        s.add('d.new', o='d', id=1); s.add('d.text', o='d', f=L('t'), b=u(' '.join(ws[:n + 1])))
        s.add('d.new', o='e', id=2); s.add('d.text', o='e', f=L('t'), b=u(ws[n])); s.add('d.text', o='e', f=L('n'), b=u('zzz'))
        s.add('d.new', o='g', id=3); s.add('d.text', o='g', f=L('t'), b=u(ws[0] + ' zzz'))
        for o in 'deg':
            s.add('c.add', o='c', s=o)
        s.add('m.idx', o='m', s='c')
        for q in (ws[:n + 1], ['yyy'] * n + [ws[n]]):
            put(s, q)
        q = list(ws[:n + 1])
        r.shuffle(q)
        put(s, q + [ws[n + 2]])
        out.append(s.c)
    s = Ses(r)                               # counts of every size, in both places
    s.add('m.new', o='m'); s.add('c.new', o='c')
    tops = some(r, upto(300, 10), 16)
    for i, k in enumerate(tops):
        s.add('d.new', o='d%d' % i, id=i + 1)
        s.add('d.text', o='d%d' % i, f=L('t'), ts=[[u('w%s ' % chr(97 + i)), k], [u('com '), 1]]); s.add('d.text', o='d%d' % i, f=L('u%d' % (i % 3)), ts=[[u('v '), k + 1], [u('com'), 1]])
        s.add('c.add', o='c', s='d%d' % i)
    s.add('m.idx', o='m', s='c')
    for i in some(r, range(len(tops)), 9):
        ask(s, 'm', ['w' + chr(97 + i)], 't' if online else None)
    ask(s, 'm', ['com', 'v'], 'u1' if online else None)
    out.append(s.c)
    for n in some(r, list(range(1, 22)) + [31, 32, 33, 40, 63, 64, 65], 10):      # query words of every length
        s = Ses(r)
        s.add('m.new', o='m'); s.add('c.new', o='c')
        al = [ord(c) for c in 'abcd']
        q = [r.choice(al) for _ in range(n)]
        for i, w in enumerate([q, edited(r, q, n - 1, 's', al), edited(r, q, 0, 's', al), edited(r, q, n // 2, 'i', al), edited(r, q, n - 1, 't', al), q + [97], q[:-1] or [98], [122] * n]):
            s.add('d.new', o='d%d' % i, id=i + 1); s.add('d.text', o='d%d' % i, f=L('tn'[i % 2]), b=u(''.join(map(chr, w)))); s.add('c.add', o='c', s='d%d' % i)
        s.add('m.idx', o='m', s='c')
        put(s, [''.join(map(chr, q))]); put(s, [''.join(map(chr, edited(r, q, n - 1, 'd', al)))])
        out.append(s.c)
    return out


def sweep_C13(r):
    return matcher_sweep(r)


def sweep_C14(r):
    out = matcher_sweep(r)
    for k in range(14):           # costs of every size between 0 and the allowance
        s = Ses(r)
        s.add('m.new', o='m'); s.add('c.new', o='c')
        for i, w in enumerate(['abc', 'abcx', 'aabc', 'bac', 'xbc', 'ab', 'abxx', 'yabcx']):
            s.add('d.new', o='d%d' % i, id=i + 1); s.add('d.text', o='d%d' % i, f=L('t'), b=u(w + ' zzzzzzz' * r.randint(0, 3))); s.add('c.add', o='c', s='d%d' % i)
        s.add('m.idx', o='m', s='c')
        for key in gen.SCALARS[:5]:
            s.add('e.val', o='m', k=key, v=r.randint(1, 210))
        s.add('e.set', o='m', x=97, y=120, e=r.randint(1, 210))
        for q in ('abc', 'xbc', 'ab'):
            s.add('m.match', o='m', q=[L(q)], via='wl')
        s.add('m.match', o='m', q=[L('abc'), L('abx')], via='wl')
        out.append(s.c)
    return out


def sweep_C20(r):
    return matcher_sweep(r, True)


def sweep_C16(r):
    out = []
    for n in some(r, upto(140, 14), 16):
        s = Ses(r)
        s.add('m.new', o='m'); s.add('c.new', o='c'); s.add('p.new', o='p')
        ws = words_of(r, n + 2)
        kind = r.randrange(4)
        for i in range(5):
            s.add('d.new', o='d%d' % i, id=i + 1)
            s.add('d.text', o='d%d' % i, f=L('t'), b=u(' '.join(['word'] + (ws[:n + 1] if i == 0 else ws[:n] if i == 1 else ws[1:n + 1] if i == 2 else ws[n:n + 1] if i == 3 else ws[:1]))))
            s.add('d.text', o='d%d' % i, f=L('u%d' % (i % 2)), b=u(ws[n] + ' word'))
            s.add('c.add', o='c', s='d%d' % i)
        s.add('m.idx', o='m', s='c')
        nos = []
        if kind == 0:           # a term of many requirements
            for w in ws[:n + 1]:
                s.add('f.sub', o='p', f=L('t'), w=L(w))
        elif kind == 1:         # many terms, the last may be met
            for w in ws[:n]:
                s.add('f.sub', o='p', f=L('u0'), w=L(w)); s.add('f.term', o='p')
            s.add('f.sub', o='p', f=L('t'), w=L(ws[n]))
        elif kind == 2:         # many excluded fields, the last one counts
            for i in range(n):
                s.add('p.nos', o='p', f=L('no%d' % i)); nos.append(L('no%d' % i))
            s.add('p.nos', o='p', f=L('u1')); nos.append(L('u1'))
        else:                   # many empty terms before a requirement
            s.add('f.sub', o='p', f=L('t'), w=L('zz'))
            for _ in range(n % 20):
                s.add('f.term', o='p')
                s.add('f.sub', o='p', f=L('t'), w=L('z' + r.choice(ws)))
            s.add('f.term', o='p')
            s.add('f.sub', o='p', f=L('u1'), w=L(ws[n]))
        s.add('f.obs', o='p'); s.add('p.obs', o='p', fs=nos[-2:] + [L('t')])
        s.add('m.match', o='m', q=[L('word')], via='wl', p='p', base=1, nos=nos)
        s.add('m.match', o='m', q=[L(ws[n]), L('wordz')], via='wl', p='p', base=1, nos=nos)
        out.append(s.c)
    return out


def sweep_C17(r):
    out = []
    s = Ses(r, keep=True)      # the same question very often, others in between
    s.add('m.new', o='m'); s.add('c.new', o='c')
    for i in range(6):
        s.add('d.new', o='d%d' % i, id=i + 1)
        s.add('d.text', o='d%d' % i, f=L('t'), b=u(r.choice(['one two', 'two three', 'one', 'four one two']))); s.add('d.text', o='d%d' % i, f=L('n'), b=u('five %s' % 'abcdef'[i]))
        s.add('c.add', o='c', s='d%d' % i)
    s.add('m.idx', o='m', s='c')
    qs = [['one'], ['two', 'fiv'], ['x'], ['three', 'one', 'two']]
    for k in range(140):
        q = qs[0] if k % 2 else r.choice(qs)
        ask(s, 'm', q, r.choice(['t', 'n', 'none']) if r.random() < .3 else None)
    out.append(s.c)
    s = Ses(r, keep=True)      # ever new words asked for
    s.add('m.new', o='m'); s.add('c.new', o='c'); s.add('d.new', o='d', id=1); s.add('d.text', o='d', f=L('t'), b=u('abc abd xyz')); s.add('c.add', o='c', s='d'); s.add('m.idx', o='m', s='c')
    for i, w in enumerate(words_of(r, 130, ln=3)):
        if r.random() < .3:
            ask(s, 'm', [w], r.choice(['t', 'f%d' % i]))
        else:
            ask(s, 'm', [w, 'abc'] if i % 8 == 0 else [w])
    ask(s, 'm', ['abc']); ask(s, 'm', ['xyz'], 't'); ask(s, 'm', ['xyz'], 'f3')
    out.append(s.c)
    return out


def sweep_C18(r):
    out = []
    for n in some(r, upto(135, 10), 16) + [64, 100, 128]:
        s = Ses(r, keep=True)
        x = r.randint(0, n)
        same = r.choice(['same word', 'same', 'aa bb aa'])
        for k in range(2):
            s.add('m.new', o='m%d' % k)
            s.add('d.new', o='d%d' % k, id=100); s.add('d.text', o='d%d' % k, f=L('t'), b=u(same)); s.add('d.text', o='d%d' % k, f=L('n'), b=u('zz'))
            s.add('d.new', o='e%d' % k, id=100 + x); s.add('d.text', o='e%d' % k, f=L('t'), b=u(same)); s.add('d.text', o='e%d' % k, f=L('n'), b=u('zz'))
            s.add('d.new', o='l%d' % k, id=3); s.add('d.text', o='l%d' % k, f=L('t'), b=u('last same word'))
        s.add('c.new', o='c0')
        if n:
            s.add('c.add', o='c0', s='d0', n=n)
        s.add('c.add', o='c0', s='l0'); s.add('m.idx', o='m0', s='c0')
        parts = [('d1', x), ('e1', n - x), ('l1', 1)]
        r.shuffle(parts)
        s.add('c.new', o='c1')
        for i, (o, k) in enumerate(parts):
            if k:
                s.add('c.add', o='c1', s=o, **({'n': k} if o != 'l1' else {}))
            if r.random() < .5 and i < 2:
                s.add('m.idx', o='m1', s='c1'); s.add('del', o='c1'); s.add('c.new', o='c1')
        s.add('m.idx', o='m1', s='c1')
        for q in (['same'], ['last'], ['word', 'zz']):
            for k in range(2):
                ask(s, 'm%d' % k, q)
        out.append(s.c)
    return out


def sweep_C15(r):
    out = []
    for n in some(r, upto(520, 40), 24):
        s = Ses(r)
        for o in 'ab':
            s.add('r.new', o=o)
        m = r.choice([0, 1, 2, n, r.choice(upto(130))])
        for o, k in (('a', n), ('b', m)):
            if r.random() < .5 and k:
                s.add('r.add', o=o, id=1000 if o == 'a' else 5000, k=r.randint(2, 14), n=k)
            else:
                for i in range(min(k, 90)):
                    s.add('r.add', o=o, id=1 + i, k=r.choice([3, 3, 4, 5, r.randint(1, 15)]))
            if r.random() < .3:
                s.add('r.obs', o=o)
            s.add('r.add', o=o, id=7, k=r.randint(1, 15))
        if r.random() < .6:
            s.add('r.all', o='a', s='b')
        else:
            s.add('r.one', o='a', s='b', i=r.choice([0, 0, m // 2]))
        s.add('r.add', o='a', id=8, k=r.randint(1, 15))
        if r.random() < .5:
            s.add('r.copy', o='c', s='a'); s.add('r.add', o='c', id=9, k=r.randint(1, 15)); s.add('r.obs', o='c')
        s.add('r.obs', o='a'); s.add('r.obs', o='b')
        out.append(s.c)
    return out


def sweep_C19(r):
    out = []
    for n in some(r, upto(260, 20), 22):
        s = Ses(r)
        s.add('d.new', o='d', id=r.randint(1, 24)); s.add('d.id', o='d')
        names = orders(r, ['f%d' % i for i in range(min(n, 70) + 1)])
        for f in names:
            s.add('d.text', o='d', f=L(f), b=u(r.choice(['a b', 'b', ''])))
        s.add('d.n', o='d'); s.add('d.obs', o='d'); s.add('d.get', o='d', f=L(names[-1])); s.add('d.cnt', o='d', w=L('b'), f=L(names[-1]))
        s.add('d.text', o='d', f=L('t'), ts=[[u('w '), n], [u('z%d z' % n), 1]]); s.add('d.get', o='d', f=L('t')); s.add('d.cnt', o='d', w=L('w'), f=L('t')); s.add('d.cnt', o='d', w=L('z'), f=L('t'))
        s.add('d.copy', o='e', s='d'); s.add('d.text', o='d', f=L('t'), b=u('w')); s.add('d.cnt', o='e', w=L('w'), f=L('t')); s.add('d.obs', o='e'); s.add('d.obs', o='d')
        s.add('c.new', o='c'); s.add('d.new', o='x', id=50); s.add('d.text', o='x', f=L('t'), b=u('x'))
        if n:
            s.add('c.add', o='c', s='x', n=n)
        s.add('c.add', o='c', s='e'); s.add('c.obs', o='c')
        out.append(s.c)
    return out


def sweep_C21(r):
    """sizes of everything that passes through the C interface, beside the same in C++"""
    out = []
    jobs = []
    for n in some(r, upto(520, 12), 40):
        def word(s, i, n=n):
            c = r.choice(CHARS)
            ts = [x for x in [[c, n], [r.choice(CHARS + [[255], [32], [0xc3]]), 1]] if x[1]]
            z = sum(len(a) * k for a, k in ts)
            for p, via in (('x', 'cstr'), ('y', 'c')):
                o = '%s%d' % (p, i)
                s.add('w.new', o=o, ts=ts, via=via); s.add('w.obs', o=o, u=1, via=via, probe=1)
                s.add('w.utf8', o=o, n=z + r.choice([-1, 0, 1, 2]) if z else 1, via=via, probe=1)
        jobs.append(word)
    out += chunks(r, jobs, 20)
    for n in some(r, upto(200, 10), 12):
        s = Ses(r)
        ws = words_of(r, n + 1)
        for via, p in (('cstr', 'x'), ('c', 'y')):
            s.add('m.new', o=p + 'm', via=via); s.add('c.new', o=p + 'c', via=via)
            for i in range(min(n, 40)):
                s.add('d.new', o='%sd%d' % (p, i), id=1 + i * 7, via=via); s.add('d.text', o='%sd%d' % (p, i), f=L('t'), b=u('same %s' % ws[i]), via=via)
                s.add('c.add', o=p + 'c', s='%sd%d' % (p, i), via=via)
            s.add('d.new', o=p + 'e', id=9999, via=via); s.add('d.text', o=p + 'e', f=L('t'), b=u(' '.join(ws)), via=via); s.add('c.add', o=p + 'c', s=p + 'e', via=via)
            s.add('m.idx', o=p + 'm', s=p + 'c', via=via)
        for q in ('same', ws[-1], ' '.join(ws[:min(n, 24) + 1])):
            for via, p in (('cstr', 'x'), ('c', 'y')):
                s.add('m.match', o=p + 'm', b=u(q), via=via)
        out.append(s.c)
    return out


def sweep_C22(r):
    out = []
    for n in some(r, upto(200, 10), 14):      # storage runs out after so many words, letters, or calls
        s = Ses(r)
        kind = r.choice('si')
        s.add(kind + '.new', o='o')
        if kind == 'i':
            s.add('e.new', o='e'); s.add('q.new', o='q')
        ws = [gen.valid_letters(r, 1, r.choice([4, 30]), list(range(97, 103))) for _ in range(24)]
        ws = [list(t) for t in dict.fromkeys(tuple(w) for w in ws)]
        a, ln = r.choice([([120, 121], 8), (list(range(103, 123)), 2), (wide(r, 200), 1)])
        if n:
            kw = {'id': 1000} if kind == 'i' else {}
            s.add(kind + '.fam', o='o', a=a, len=ln, **{'from': 0}, n=n, **kw)
        for j, w in enumerate(ws):
            kw = {'id': j} if kind == 'i' else {}
            op = 'i.ins' if kind == 'i' else 's.id'
            s.add(op, o='o', w=w, **kw, **gen.fault(r, 2))
            s.add(kind + '.has', o='o', w=w)
            if r.random() < .7:
                s.add(op, o='o', w=w, **kw)
        for w in ws:
            s.add(kind + '.has', o='o', w=w)
        if kind == 'i':
            s.add('i.find', o='o', q=ws[0], e='e', max=100, s='q')
            s.add('i.stat', o='o', ids=list(range(len(ws))) + [1000, 1000 + n - 1])
        out.append(gen.finish(s.c, r))
    return out


def sweep_C24(r):
    """the same sizes through the Python module"""
    out = []
    for n in some(r, upto(300, 10), 8):
        s = Ses(r)
        for i, ts in enumerate([[[u('a'), n], [u('B'), 1]], [[u('\u00c5'), n], [u('b'), 1]], [[u('\u20ac'), n], [u('\U0001f600'), 1]], [[u('a'), n], [[255], 1]]]):
            b = sum([x * k for x, k in ts], [])
            s.add('w.new', o='w%d' % i, b=b); s.add('w.obs', o='w%d' % i, u=1, probe=1)
            s.add('l.split', o='z%d' % i, b=b + [32] + b); s.add('l.obs', o='z%d' % i, probe=1)
        s.add('l.split', o='l', b=u('x Y ') * n + u('end')); s.add('l.obs', o='l')
        s.add('m.new', o='m'); s.add('c.new', o='c')
        for i in range(min(n, 30)):
            d = 'd%d' % i
            s.add('d.new', o=d, id=r.choice([1 + i, 30 + i * 1000])); s.add('d.text', o=d, f=L('t'), b=u('same w%s' % 'abcdefghij'[i % 10] * (1 + i % 3))); s.add('c.add', o='c', s=d)
        s.add('d.new', o='e', id=77777); s.add('d.text', o='e', f=L('t'), b=u('aa ' * n + 'bb')); s.add('d.n', o='e'); s.add('d.get', o='e', f=L('t')); s.add('c.add', o='c', s='e'); s.add('c.obs', o='c')
        s.add('m.idx', o='m', s='c')
        for q in ('same', 'aa', 'bb', 'sam ' * min(n, 20) + 'wa'):
            s.add('m.match', o='m', b=u(q), via='cstr')
        s.add('m.merge', o='m', bs=[u(q) for q in ['same', 'bb', 'aa', 'wb'] * (1 + min(n, 12) // 4)])
        out.append(s.c)
    return out


def sweep_C26(r):
    out = []
    s = Ses(r)             # weights for very many fields, each read back after all
    s.add('x.new', o='x')
    names = orders(r, ['f%d' % i for i in range(r.choice([70, 130, 150]))] + ['', 'a', 'ab', 'ba', '\u00f6', '\u20ac'])
    vals = {}
    for i, f in enumerate(names):
        vals[f] = r.choice([i, -i, 0, i * 1000003 % 2**31])
        s.add('x.set', o='x', f=L(f), v=vals[f]); s.add('x.get', o='x', f=L(f)); s.add('x.get', o='x', f=L(r.choice(names)))
    for f in names + ['zz', 'f', 'f1000']:
        s.add('x.get', o='x', f=L(f))
    for f in r.sample(names, 20):
        s.add('x.set', o='x', f=L(f), v=r.randint(-9, 9))
    for f in names:
        s.add('x.get', o='x', f=L(f))
    out.append(s.c)
    s = Ses(r)             # changes at once seen by the next match
    s.add('m.new', o='m'); s.add('c.new', o='c')
    for i, w in enumerate(['abc', 'abd', 'bac', 'abcx', 'xabc']):
        s.add('d.new', o='d%d' % i, id=i + 1); s.add('d.text', o='d%d' % i, f=L('tn'[i % 2]), b=u(w)); s.add('c.add', o='c', s='d%d' % i)
    s.add('m.idx', o='m', s='c')
    for k in range(110):
        x = r.random()
        if x < .3:
            s.add('x.set', o='m', f=L(r.choice('tn')), v=r.randint(-3, 30))
        elif x < .6:
            s.add('e.set', o='m', x=r.choice([97, 98, 99, 100]), y=r.choice([97, 98, 99, 100, 120]), e=r.randint(0, 210))
        elif x < .85:
            s.add('e.val', o='m', k=r.choice(gen.SCALARS), v=r.choice([0, 1, 2, 3, r.randint(0, 210)]))
        else:
            s.add('e.clr', o='m')
        s.add('m.match', o='m', q=[L(r.choice(['abc', 'abc', 'abd', 'bac']))], via='wl')
    out.append(s.c)
    return out


def sweep_C23(r):
    out = []
    for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C08', 'C09', 'C10', 'C13', 'C15', 'C16', 'C19', 'C20'):
        ss = SWEEP[p](r)
        for c in r.sample(ss, 3 if len(ss) > 20 else 1):
            out.append(gen.finish(c, r))
    return out


SWEEP = {k[6:]: v for k, v in list(globals().items()) if k.startswith('sweep_C')}


def sweep_sessions(prop, r, n=1):
    f = SWEEP.get(prop)
    return sum([f(r) for _ in range(n)], []) if f else []
