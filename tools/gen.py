"""Random sessions (command sequences) for each property. Deterministic in the seed."""
import random

# ---------------------------------------------------------------- text pools
def u(s):
    return list(s.encode('utf-8'))


def L(s):
    """letters (UTF-16 units) of a string, taken as they are"""
    b = s.encode('utf-16-le')
    return [b[i] | b[i + 1] << 8 for i in range(0, len(b), 2)]


def fold(s):
    """Lower case per letter, for characters below U+10000 in the ranges the specification knows."""
    return ''.join(c if ord(c) > 0xffff else low(c) for c in s)


def low(c):
    if c == '\u0130':
        return 'i'
    x = c.lower()
    return x if len(x) == 1 else c


EDGE = [0x21, 0x2f, 0x30, 0x40, 0x41, 0x5a, 0x5b, 0x60, 0x61, 0x7a, 0x7e, 0x7f, 0x80, 0x85, 0xa0, 0xbf, 0xc0, 0xd6, 0xd7,
        0xd8, 0xde, 0xdf, 0xf7, 0xff, 0x100, 0x12f, 0x130, 0x131, 0x132, 0x178, 0x17f, 0x1ff, 0x200, 0x386, 0x391, 0x3a3,
        0x3c3, 0x401, 0x410, 0x42f, 0x450, 0x4c0, 0x556, 0x7ff, 0x800, 0xfff, 0x1000, 0x1e9e, 0x1eff, 0x2028, 0x212a,
        0x3000, 0xd7ff, 0xe000, 0xfeff, 0xff21, 0xff3a, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x103ff, 0x10400, 0x1d400, 0x1f600,
        0x10ffff, 0xfffff, 0x100000, 0x2028, 0x2029, 0x00ad, 0x180e, 0x200b]


def char(r):
    x = r.random()
    if x < 0.35:
        return chr(r.choice([r.randint(0x61, 0x7a), r.randint(0x41, 0x5a), r.randint(0x21, 0x7e)]))
    if x < 0.6:
        return chr(r.choice(EDGE))
    if x < 0.7:
        return chr(r.randint(0x10000, 0x10ffff))
    if x < 0.85:
        a = r.choice([(0xa1, 0x250), (0x370, 0x3ff), (0x400, 0x586), (0x10a0, 0x10ff), (0x13a0, 0x13ff), (0x1c80, 0x1cbf),
                      (0x1e00, 0x1fff), (0x2100, 0x218f), (0x24b0, 0x24ef), (0x2c00, 0x2d2f), (0xa640, 0xa69f), (0xa720, 0xa7ff),
                      (0xab70, 0xabbf), (0xff21, 0xff5e)])
        return chr(r.randint(*a))
    while True:
        cp = r.randint(0x80, 0xffff)
        if not 0xd800 <= cp <= 0xdfff:
            return chr(cp)


def clean_text(r, lo=0, hi=8):
    return ''.join(char(r) for _ in range(r.randint(lo, hi)))


WS = ' \t\n\r'
BADWS = '\v\f\u00a0\u2003\u3000\u0085'     # not whitespace to the library
BAD = [b'\x80', b'\xbf', b'\xc0\x80', b'\xc1\xbf', b'\xc3', b'\xe2\x82', b'\xe0\x80\x80', b'\xe0\x9f\xbf', b'\xed\xa0\x80',
       b'\xed\xbf\xbf', b'\xf0\x80\x80\x80', b'\xf0\x8f\xbf\xbf', b'\xf4\x90\x80\x80', b'\xf5\x80\x80\x80', b'\xff', b'\xfe',
       b'\xf0\x9f\x98', b'\xf0\x9f', b'\xf0', b'\xe2\x28\xa1', b'\xc3\x28', b'\xf8\x88\x80\x80\x80', b'\xed\xa0\xbd\xed\xb8\x80']


def text_bytes(r, words=False):
    """bytes that may or may not be well-formed, may or may not contain whitespace"""
    x = r.random()
    if x < 0.5:
        return u(clean_text(r, 0, 10))
    if x < 0.62:
        s = clean_text(r, 0, 6)
        i = r.randint(0, len(s))
        return u(s[:i] + r.choice(WS) + s[i:])
    if x < 0.72:
        s = clean_text(r, 0, 5)
        i = r.randint(0, len(s))
        return u(s[:i] + r.choice(BADWS) + s[i:])
    if x < 0.92:
        s = clean_text(r, 0, 4)
        i = r.randint(0, len(s))
        return u(s[:i]) + list(r.choice(BAD)) + u(s[i:])
    n = r.randint(1, 6)
    return [r.choice([r.randint(1, 255), r.randint(0x80, 0xff), r.randint(0x41, 0x5a)]) for _ in range(n)]


def letter_array(r):
    n = r.randint(0, 6)
    out = []
    for _ in range(n):
        x = r.random()
        if x < 0.5:
            out.append(r.choice([r.randint(0x61, 0x7a), r.randint(0x41, 0x5a), r.randint(0x21, 0xffff)]))
        elif x < 0.7:
            out += [r.randint(0xd800, 0xdbff), r.randint(0xdc00, 0xdfff)]
        elif x < 0.78:
            out.append(r.randint(0xd800, 0xdfff))
        elif x < 0.86:
            out.append(r.choice([32, 9, 10, 13]))
        elif x < 0.9:
            out.append(0)
        else:
            out.append(r.choice([11, 12, 133, 160, 0xd7ff, 0xe000, 0xffff, 1]))
    if r.random() < 0.35:
        out.append(0)
    return out


class Ses:
    """a session under construction"""
    def __init__(self, r, keep=False):
        self.r = r
        self.c = [dict(op='reset', n=r.randint(0, 10**6), **({'keep': 1} if keep else {}))]
        self.live = {}
        self.k = 0

    def add(self, op, **kw):
        self.c.append(dict(op=op, **kw))
        return kw.get('o')

    def name(self, t):
        self.k += 1
        n = '%s%d' % (t, self.k)
        self.live.setdefault(t, []).append(n)
        return n

    def pick(self, t):
        return self.r.choice(self.live[t])

    def two(self, t):
        a = self.pick(t)
        b = self.pick(t)
        return a, b

    def drop(self, t, n, **kw):
        self.live[t].remove(n)
        self.add('del', o=n, **kw)

    def n(self, t):
        return len(self.live.get(t, []))


def valid_letters(r, lo=0, hi=6, pool=None):
    if pool is not None:
        return [r.choice(pool) for _ in range(r.randint(lo, hi))]
    while True:
        s = clean_text(r, lo, hi)
        if any(c in WS for c in s):
            continue
        return L(s)


# ---------------------------------------------------------------- C01 C02 C04: words
def sessions_C01(r, n):
    out = []
    for _ in range(n):
        s = Ses(r)
        w0 = s.name('w'); s.add('w.empty', o=w0)
        for i in range(12):
            x = r.random()
            if x < 0.5:
                o = s.name('w')
                b = text_bytes(r)
                s.add('w.new', o=o, b=b, via=r.choice(['cstr', 'str']))
                s.add('w.obs', o=o, probe=1)
            elif x < 0.8:
                o = s.name('w')
                s.add('w.let', o=o, l=letter_array(r))
                s.add('w.obs', o=o, probe=1)
            else:
                s.add('w.text', o=w0, b=text_bytes(r), via=r.choice(['cstr', 'str']))
                s.add('w.obs', o=w0)
        out.append(s.c)
    # every code point of interest alone, in blocks
    cps = [c for c in EDGE if c not in (0x3000,) and not 0xd800 <= c <= 0xdfff]
    cps += [c for c in range(0x21, 0x250) if c not in cps] + r.sample(range(0x250, 0xd7ff), 150) + r.sample(range(0x370, 0x588), 80)
    r.shuffle(cps)
    s = Ses(r)
    for i, c in enumerate(cps):
        if i % 40 == 0 and i:
            out.append(s.c); s = Ses(r)
        o = 'k%d' % i
        s.add('w.new', o=o, b=u(chr(c)), via='cstr')
        s.add('w.obs', o=o, probe=1)
    out.append(s.c)
    return out


def sessions_C02(r, n):
    out = []
    small = [97, 98, 0x100, 0x61 + 256, 0xffff, 1]
    for k in range(n):
        s = Ses(r)
        pool = small if k % 2 else None
        for i in range(3):
            o = s.name('w')
            s.add('w.let', o=o, l=valid_letters(r, 0, 4, pool))
        for i in range(14):
            x = r.random()
            if x < 0.12:
                o = s.name('w'); s.add('w.let', o=o, l=valid_letters(r, 0, 4, pool))
            elif x < 0.17:
                o = s.name('w'); s.add('w.empty', o=o)
            elif x < 0.27:
                a = s.pick('w'); o = s.name('w'); s.add('w.copy', o=o, s=a)
            elif x < 0.35:
                a = s.pick('w'); o = s.name('w'); s.add('w.move', o=o, s=a)
            elif x < 0.47:
                a, b = s.two('w'); s.add('w.set', o=a, s=b)
            elif x < 0.55:
                a, b = s.two('w')
                if a != b:
                    s.add('w.mset', o=a, s=b)
            elif x < 0.68:
                a = s.pick('w')
                s.add('w.text', o=a, b=text_bytes(r) if r.random() < .6 else u(' x'), via=r.choice(['cstr', 'str']))
            elif x < 0.8:
                a, b = s.two('w'); o = s.name('w')
                s.add('w.join', o=o, s=a, s2=b)
            elif x < 0.87 and s.n('w') > 2:
                s.drop('w', s.pick('w'))
            else:
                a, b = s.two('w'); s.add('w.cmp', o=a, s=b)
            if r.random() < .5:
                for o in s.live['w'][-6:]:
                    s.add('w.obs', o=o)
        for o in s.live['w']:
            s.add('w.obs', o=o)
        ws = s.live['w'][:6]
        for a in ws:
            for b in ws:
                s.add('w.cmp', o=a, s=b)
        for a in list(s.live['w']):
            s.drop('w', a)
            if s.live['w']:
                s.add('w.obs', o=s.pick('w'))
        out.append(s.c)
    # the order: all words of up to three letters over extreme letters, pairwise
    for _ in range(max(1, n // 30)):
        s = Ses(r)
        ws = [[]]
        for _ in range(14):
            ws.append(valid_letters(r, 1, 3, r.choice([[97, 98], [97, 0x161], [0x61, 0xff, 0x100], [0x7fff, 0x8000, 0xffff]])))
        for i, w in enumerate(ws):
            s.add('w.let', o='w%d' % i, l=w)
        for i in range(len(ws)):
            for j in range(len(ws)):
                s.add('w.cmp', o='w%d' % i, s='w%d' % j)
        out.append(s.c)
    return out


def sessions_C04(r, n):
    out = []
    for k in range(n):
        s = Ses(r)
        for i in range(3):
            o = s.name('w')
            x = r.random()
            if x < .65:
                l = valid_letters(r, 0, 5)
            elif x < .8:
                l = valid_letters(r, 0, 40)
            else:       # all letters of one width
                a, b = r.choice([(0x21, 0x7e), (0xa1, 0x7ff), (0x800, 0xd7ff), (0xe000, 0xfffd), (0x10000, 0x10ffff)])
                l = L(''.join(chr(r.randint(a, b)) for _ in range(r.randint(1, 40))))
            s.add('w.let', o=o, l=l)
            s.add('w.obs', o=o, u=1)
            size = utf8_len(l)
            for nbytes in sorted({0, 1, 2, 3, 4, max(0, size - 3), max(0, size - 2), max(0, size - 1), size, size + 1, size + 2, size + 3, size + 9}):
                s.add('w.utf8', o=o, n=nbytes)
        a, b = s.two('w'); o = s.name('w')
        s.add('w.join', o=o, s=a, s2=b)
        s.add('w.obs', o=o, u=1)
        out.append(s.c)
    # round trip: the UTF-8 text of a folded word is that word again
    for k in range(n):
        s = Ses(r)
        for i in range(6):
            t = fold(''.join(c for c in clean_text(r, 0, 6) if c not in WS))
            if any(low(c) != c for c in t if ord(c) < 0x10000):
                continue
            o = s.name('w'); o2 = s.name('w')
            s.add('w.let', o=o, l=L(t)); s.add('w.obs', o=o, u=1)
            s.add('w.new', o=o2, b=u(t)); s.add('w.cmp', o=o, s=o2); s.add('w.obs', o=o2, u=1)
        out.append(s.c)
    return out


def utf8_len(l):
    n = 0
    for x in l:
        n += 1 if x < 0x80 else 2 if x < 0x800 else 2 if 0xd800 <= x <= 0xdfff else 3
    return n


# ---------------------------------------------------------------- C03: splitting, lists
def sessions_C03(r, n):
    out = []

    def some_text():
        parts = []
        for _ in range(r.randint(0, 6)):
            x = r.random()
            if x < .45:
                parts.append(u(clean_text(r, 1, 5)))
            elif x < .9:
                parts.append(u(''.join(r.choice(WS) for _ in range(r.randint(1, 3)))))
            elif x < .94:
                parts.append(u(r.choice(BADWS)))
            else:
                parts.append(list(r.choice(BAD)))
        return sum(parts, [])
    for k in range(n):
        s = Ses(r)
        for i in range(4):
            o = s.name('l')
            # a good text, so that the list exists
            t = []
            for _ in range(r.randint(0, 4)):
                t += u(r.choice(WS)) + u(''.join(c for c in clean_text(r, 1, 4) if c not in WS) or 'x')
            if r.random() < .5:
                t = t[1:]
            if r.random() < .3:
                t += u(r.choice(WS))
            s.add('l.split', o=o, b=[x for x in t if x])
        for i in range(5):
            o = 'z%d' % i
            s.add('l.split', o=o, b=some_text())
            s.add('l.obs', o=o, probe=1)
        ow = s.name('w'); s.add('w.let', o=ow, l=valid_letters(r, 0, 3))
        for i in range(10):
            x = r.random()
            if x < .15:
                a = s.pick('l'); o = s.name('l'); s.add('l.copy', o=o, s=a)
            elif x < .25:
                a = s.pick('l'); o = s.name('l'); s.add('l.move', o=o, s=a)
            elif x < .4:
                a, b = s.two('l'); s.add('l.set', o=a, s=b)
            elif x < .5:
                a, b = s.two('l')
                if a != b:
                    s.add('l.mset', o=a, s=b)
            elif x < .7:
                s.add('l.add', o=s.pick('l'), w=valid_letters(r, 0, 3))
            elif x < .8:
                s.add('l.add', o=s.pick('l'), s=ow)
                s.add('w.text', o=ow, b=u(r.choice(['q', 'rr', '']) + 'x'))
            elif x < .86 and s.n('l') > 2:
                s.drop('l', s.pick('l'))
            else:
                a, b = s.two('l'); s.add('l.cmp', o=a, s=b)
        for o in s.live['l']:
            s.add('l.obs', o=o)
        a, b = s.two('l'); s.add('l.cmp', o=a, s=b); s.add('l.cmp', o=a, s=a)
        out.append(s.c)
    # long text
    s = Ses(r)
    s.add('l.split', o='l', b=u(' '.join('w%d' % i for i in range(300))))
    s.add('l.obs', o='l')
    out.append(s.c)
    return out


# ---------------------------------------------------------------- C05: word stores
FAMS = [([97, 98, 99, 100], 6, 4096), ([0x61, 0x161, 0x2061, 0xff61], 5, 1024), (list(range(0x100, 0x100 + 40)), 2, 1600),
        ([97, 98], 11, 2048)]


def cut(w, n):
    """the first n letters, not ending inside a surrogate pair"""
    return w[:n - 1] if n and 0xd800 <= w[n - 1] < 0xdc00 else w[:n]


def sessions_C05(r, n, big=1):
    out = []
    pools = [[97, 98], [97, 98, 0x161, 0x162], [0xff61, 0x61, 0x100], None]
    for k in range(n):
        s = Ses(r)
        pool = pools[k % 4]
        words = [valid_letters(r, 0, 4, pool) for _ in range(8)] + [[]]
        if k % 3 == 0:      # a long word, some of its beginnings and branches off it, in any order
            w = valid_letters(r, 6, 24, pool)
            words = [cut(w, r.randint(1, len(w))) for _ in range(6)] + [w, cut(w, len(w)//2) + [r.choice(pool or [97])], []]
            r.shuffle(words)
        for st in ('s1', 's2'):
            s.add('s.new', o=st)
        for i in range(22):
            st = r.choice(['s1', 's1', 's2'])
            w = r.choice(words)
            if r.random() < .15:
                w = w + [r.choice(pool or [97])]
                words.append(w)
            x = r.random()
            if x < .5:
                s.add('s.id', o=st, w=w)
            elif x < .7:
                s.add('s.has', o=st, w=w)
            elif x < .85:
                s.add('s.word', o=st, id=r.choice([0, 1, 2, 3, 4, 5, 6, 8, 100, 2**30, -1, -2, -2**31]))
            else:
                s.add('s.hasid', o=st, id=r.choice([0, 1, 2, 3, 5, 8, 9, 2**30, -1, -2**31]))
        for st in ('s1', 's2'):
            for w in words[:9]:
                s.add('s.has', o=st, w=w)
            for i in range(10):
                s.add('s.word', o=st, id=i)
        s.drop_all = None
        out.append(s.c)
    for k in range(big):     # growth
        s = Ses(r)
        s.add('s.new', o='s')
        s.add('s.id', o='s', w=[120]); s.add('s.id', o='s', w=[])
        for a, ln, cnt in r.sample(FAMS, 3 if big < 3 else 4):
            step = cnt // r.choice([1, 2, 3])
            at = 0
            while at < cnt:
                m = min(step, cnt - at)
                s.add('s.fam', o='s', a=a, len=ln, **{'from': at}, n=m)
                at += m
                for _ in range(3):
                    j = r.randint(0, at - 1)
                    s.add('s.has', o='s', w=fam(a, ln, j)); s.add('s.id', o='s', w=fam(a, ln, j))
                    s.add('s.has', o='s', w=fam(a, ln, j)[:-1]); s.add('s.has', o='s', w=fam(a, ln, j) + [97])
                s.add('s.id', o='s', w=[120]); s.add('s.has', o='s', w=[121])
            for _ in range(6):
                s.add('s.word', o='s', id=r.randint(0, 9000)); s.add('s.hasid', o='s', id=r.randint(0, 9000))
            s.add('s.word', o='s', id=0); s.add('s.word', o='s', id=1)
        w = [r.choice([97, 98, 0x3b1, 0xffee]) for _ in range(400)]
        for x in (w, w[:399], w[:200], w + [97]):
            s.add('s.id', o='s', w=x)
        for x in (w, w[:399], w[:200], w + [97], w[:100]):
            s.add('s.has', o='s', w=x)
        out.append(s.c)
    return out


def fam(a, n, k):
    w = []
    for _ in range(n):
        w.append(a[k % len(a)]); k //= len(a)
    return w[::-1]


# ---------------------------------------------------------------- C06 C07 C08 C12: dictionaries
def words_for(r, alphabet, cnt, lo, hi):
    return [[r.choice(alphabet) for _ in range(r.randint(lo, hi))] for _ in range(cnt)]


def ident(ids, w, r):
    """identifier of a word: any value but the invalid one, one per word"""
    t = tuple(w)
    if t not in ids:
        while True:
            x = r.choice([len(ids), len(ids) + 7, r.randint(0, 2**31 - 1), -r.randint(2, 2**31)])
            if x != -1 and x not in ids.values():
                ids[t] = x
                break
    return ids[t]


def sessions_C06(r, n, big=1):
    out = []
    for k in range(n):
        s = Ses(r)
        al = r.choice([[97, 98], [97, 98, 99], [0x61, 0x161, 0xff61], [0x3b1, 0x3b2, 97]])
        ids = {}
        words = words_for(r, al, 7, 0, 4)
        words += [w[:-1] for w in words[:3] if w] + [w + [al[0]] for w in words[:2]]
        for x in ('i1', 'i2'):
            s.add('i.new', o=x)
        for i in range(16):
            x = r.choice(['i1', 'i1', 'i2']); w = r.choice(words)
            s.add('i.ins', o=x, w=w, id=ident(ids, w, r))
            if r.random() < .4:
                s.add('i.has', o=x, w=r.choice(words) or [97])
            if r.random() < .2:
                s.add('i.stat', o=x, ids=[ident(ids, w, r) for w in words[:6]])
        for x in ('i1', 'i2'):
            for w in words:
                if w:
                    s.add('i.has', o=x, w=w)
                    if len(w) > 1:
                        s.add('i.has', o=x, w=w[:-1])
                    s.add('i.has', o=x, w=w + [al[-1]])
                    s.add('i.has', o=x, w=w[:-1] + [al[1]])
            s.add('i.stat', o=x, ids=[ident(ids, w, r) for w in words] + [12345, 0, 1, 2])
        out.append(s.c)
    for k in range(big):
        s = Ses(r)
        s.add('i.new', o='i')
        base = 0
        for a, ln, cnt in r.sample(FAMS, 3 if big < 3 else 4):
            order = r.random()
            s.add('i.fam', o='i', a=a, len=ln, **{'from': 0}, n=cnt, id=base)
            for _ in range(4):
                j = r.randint(0, cnt - 1)
                w = fam(a, ln, j)
                s.add('i.has', o='i', w=w); s.add('i.has', o='i', w=w[:-1]); s.add('i.has', o='i', w=w + [97])
            s.add('i.stat', o='i', ids=[base, base + cnt - 1, base + cnt, base + cnt // 2])
            base += cnt
        out.append(s.c)
    # counts beyond one byte
    s = Ses(r)
    s.add('i.new', o='i')
    for i in range(300):
        s.add('i.ins', o='i', w=[97, 98], id=5)
        if i % 3 == 0:
            s.add('i.ins', o='i', w=[97], id=6)
    s.add('i.stat', o='i', ids=[5, 6, 7])
    out.append(s.c)
    return out


MORE_DIRS = []     # functions giving further data directories: name -> (latin, greek)
SCALARS = ['ins', 'del', 'endd', 'st', 'tr', 'lim']


def set_errors(s, e, al, r, wild):
    """random error values on table e"""
    x = r.random()
    if x < .2:
        return
    if x < .35:
        s.add('e.sub', o=e)
    if x < .5:
        s.add('e.kbd', o=e)
    if wild:
        for k in SCALARS:
            if r.random() < .5:
                s.add('e.val', o=e, k=k, v=r.choice([0, 1, 2, 3, 5]) if k == 'lim' else r.choice([0, 1, 5, 10, 15, 30, 50, 99, 100, 101, 150, 200, 300, 1000]))
    for _ in range(r.randint(0, 4)):
        s.add('e.set', o=e, x=r.choice(al), y=r.choice(al), e=r.choice([0, 1, 10, 30, 50, 99, 120, 150, 250]))
    if r.random() < .3:
        g = list(dict.fromkeys(r.choice(al) for _ in range(3)))
        s.add('e.grp', o=e, l=g, e=r.choice([0, 5, 30, 70, 160]))


def find_session(r, wild, focus='C07'):
    s = Ses(r)
    al = r.choice([[97, 98], [97, 98, 99], [97, 98, 99, 100], [0x61, 0x161, 0xff61, 0x62], [0x1ff, 0x200, 0x61]])
    ids = {}
    words = words_for(r, al, r.randint(3, 9), 1, r.choice([3, 4, 5, 6]))
    words += [w[::-1] for w in words[:2]] + [w[:-1] for w in words[:2] if len(w) > 1]
    for i in range(3):      # neighbours by transposition
        w = list(r.choice(words))
        if len(w) > 1:
            j = r.randint(0, len(w) - 2)
            w[j], w[j + 1] = w[j + 1], w[j]
            words.append(w)
    s.add('i.new', o='i'); s.add('e.new', o='e'); s.add('q.new', o='q')
    r.shuffle(words)
    half = len(words) // 2
    for w in words[:half]:
        s.add('i.ins', o='i', w=w, id=ident(ids, w, r))
    set_errors(s, 'e', al, r, wild)
    queries = [r.choice(words) for _ in range(3)] + words_for(r, al, 3, 0, 5)
    for ph in range(2):
        for q in queries:
            if r.random() < .35:
                q = list(q)
                x = r.random()
                if x < .35 and len(q) > 1:
                    j = r.randint(0, len(q) - 2); q[j], q[j + 1] = q[j + 1], q[j]
                elif x < .6 and q:
                    q.pop(r.randint(0, len(q) - 1))
                else:
                    q.insert(r.randint(0, len(q)), r.choice(al))
            mx = r.choice([-1, 0, 1, 30, 50, 99, 100, 101, 150, 200, 250, 300, 100000])
            if r.random() < .6:
                mx = r.choice([100, 200, 300])
            s.add('i.find', o='i', q=q, e='e', max=mx, s='q')
            if r.random() < .8:
                s.add('q.clear', o='q')
            elif r.random() < .5:
                s.add('q.obs', o='q')
        for w in words[half:]:
            s.add('i.ins', o='i', w=w, id=ident(ids, w, r))
        if r.random() < .5:
            set_errors(s, 'e', al, r, wild)
    if r.random() < .6:      # the same query again, with one setting changed in between
        q = r.choice([w for w in words + queries if w])
        for _ in range(r.randint(2, 4)):
            s.add('q.clear', o='q')
            s.add('i.find', o='i', q=q, e='e', max=r.choice([100, 200, 300, 500]), s='q')
            x = r.random()
            if x < .6:
                k = r.choice(SCALARS)
                s.add('e.val', o='e', k=k, v=r.choice([0, 1, 2, 3, 5]) if k == 'lim' else r.choice([0, 7, 33, 50, 99, 101, 150, 200]))
            elif x < .8:
                s.add('e.set', o='e', x=r.choice(al), y=r.choice(al), e=r.randint(0, 210))
            else:
                s.add('e.sub', o='e')
        s.add('q.clear', o='q')
        s.add('i.find', o='i', q=q, e='e', max=r.choice([100, 200, 300, 500]), s='q')
    s.add('q.obs', o='q')
    return s.c


def stretched(r, wild):
    """words much longer than the query, the query much longer than the words, and no bound"""
    s = Ses(r)
    al = r.choice([[97, 98, 99, 100, 101], [97, 98], [0x61, 0x161, 0xff61, 0x62, 0x3b1]])
    s.add('i.new', o='i'); s.add('e.new', o='e'); s.add('q.new', o='q')
    set_errors(s, 'e', al, r, wild)
    ids = {}
    words = []
    for _ in range(3):
        w = [r.choice(al) for _ in range(r.randint(7, 22))]
        i, j = sorted(r.sample(range(len(w) + 1), 2))
        words += [w, w[i:j], w[i:], [x for x in w if r.random() < .3]]
    words = [w for w in words if w]
    for w in words:
        if len(w) > 6 or r.random() < .6:
            s.add('i.ins', o='i', w=w, id=ident(ids, w, r))
    for w in r.sample(words, 5):
        s.add('i.find', o='i', q=w, e='e', max=r.choice([100, 300, 2000, 100000]), s='q')
        s.add('q.clear', o='q')
    return s.c


def sessions_C07(r, n):
    return [stretched(r, k % 3 == 0) if k % 6 == 5 else find_session(r, k % 3 != 0) for k in range(n)] + long_words(r, max(1, n // 20))


def long_words(r, n):
    out = []
    for _ in range(n):
        s = Ses(r)
        s.add('i.new', o='i'); s.add('e.new', o='e'); s.add('q.new', o='q')
        base = [r.choice([97, 98, 99]) for _ in range(40)]
        ids = {}
        for i in range(4):
            w = list(base)
            for _ in range(r.randint(0, 3)):
                w[r.randint(0, len(w) - 1)] = r.choice([97, 98, 99])
            if r.random() < .5:
                w = w[:r.randint(35, 40)]
            s.add('i.ins', o='i', w=w, id=ident(ids, w, r))
        s.add('i.find', o='i', q=base, e='e', max=300, s='q')
        s.add('i.find', o='i', q=base[:30], e='e', max=1100, s='q')
        out.append(s.c)
    return out


def sessions_C08(r, n, big=1):
    out = [stretched(r, k % 4 == 3) if k % 8 == 7 else find_session(r, k % 2 == 0) for k in range(n)] + long_words(r, max(1, n // 30))
    # the answer does not depend on insertion order or on earlier searches
    for k in range(max(2, n // 6)):
        s = Ses(r)
        al = [97, 98, 99]
        words = [list(x) for x in {tuple(w) for w in words_for(r, al, 8, 1, 4)}]
        for x in ('i1', 'i2'):
            s.add('i.new', o=x)
            r.shuffle(words)
            for w in words:
                for _ in range(r.randint(1, 2)):
                    s.add('i.ins', o=x, w=w, id=sum((c - 96) * 4 ** i for i, c in enumerate(w)))
        s.add('e.new', o='e'); s.add('q.new', o='q1'); s.add('q.new', o='q2')
        for q in words_for(r, al, 5, 0, 5):
            mx = r.choice([0, 100, 200])
            for _ in range(2):
                s.add('i.find', o='i1', q=q, e='e', max=mx, s='q1')
                s.add('i.find', o='i2', q=q, e='e', max=mx, s='q2')
            s.add('q.clear', o='q1'); s.add('q.clear', o='q2')
        out.append(s.c)
    for k in range(big):     # large dictionaries
        s = Ses(r)
        s.add('i.new', o='i'); s.add('e.new', o='e'); s.add('q.new', o='q')
        base = 0
        for a, ln, cnt in r.sample(FAMS, 2):
            s.add('i.fam', o='i', a=a, len=ln, **{'from': 0}, n=cnt, id=base)
            base += cnt
            for _ in range(5):
                q = fam(a, ln, r.randint(0, cnt - 1))
                x = r.random()
                if x < .3:
                    q = q[:-1]
                elif x < .5:
                    q = q + [r.choice(a)]
                elif x < .7:
                    q = q[1:2] + q[:1] + q[2:]
                s.add('i.find', o='i', q=q, e='e', max=r.choice([0, 100, 150]), s='q')
                s.add('q.clear', o='q')
        out.append(s.c)
    return out


def sessions_C12(r, n):
    out = []
    for k in range(n):
        s = Ses(r)
        al = r.choice([[97, 98, 99], [97, 98, 99, 100], [0x161, 98, 0x200]])
        s.add('i.new', o='i'); s.add('e.new', o='e'); s.add('q.new', o='q')
        ids = {}
        core = words_for(r, al, 3, 1, 4)
        words = words_for(r, al, 3, 1, 5)
        for c in core:
            for _ in range(3):
                words.append(words_for(r, al, 1, 0, 6)[0] + c + words_for(r, al, 1, 0, 6)[0])
        for w in words:
            s.add('i.ins', o='i', w=w, id=ident(ids, w, r))
        if r.random() < .5:
            for k2 in SCALARS[:5]:
                if r.random() < .4:
                    s.add('e.val', o='e', k=k2, v=r.choice([10, 60, 100, 130, 200]))
        s.add('e.vals', o='e')
        if r.random() < .3:
            s.add('i.find', o='i', q=core[0], e='e', max=200, s='q'); s.add('q.clear', o='q')
        s.add('e.sub', o='e')
        s.add('e.vals', o='e')
        if r.random() < .2:
            s.add('e.set', o='e', x=al[0], y=al[1], e=40)
        if r.random() < .2:
            s.add('e.clr', o='e'); s.add('e.vals', o='e')
        for c in core + words_for(r, al, 2, 1, 5):
            for q in (c, c[:2], c[:1]):
                s.add('i.find', o='i', q=q, e='e', max=r.choice([0, 15, 29, 30, 45, 100, 200]), s='q')
                s.add('q.clear', o='q')
        # through a matcher
        s.add('m.new', o='m'); s.add('d.new', o='d', id=1); s.add('c.new', o='c')
        s.add('d.new', o='d2', id=2)
        f = L('f')
        s.add('l.new', o='l')
        for w in words:
            s.add('l.add', o='l', w=w)
        s.add('d.words', o='d', f=f, s='l'); s.add('l.new', o='l2')
        w = words[-1]; s.add('l.add', o='l2', w=w); s.add('d.words', o='d2', f=f, s='l2')
        s.add('c.add', o='c', s='d2')
        s.add('m.idx', o='m', s='c')
        if r.random() < .8:
            s.add('e.sub', o='m')
        s.add('e.vals', o='m')
        for c in core:
            s.add('m.match', o='m', q=[c])
        out.append(s.c)
    return out


# ---------------------------------------------------------------- C09 C10 C11: error tables
LETTERS = list(range(97, 123)) + list(range(48, 58)) + [39, 43, 44, 45, 46, 0xe4, 0xe5, 0xf6, 1, 0x1ff, 0x200, 0x201, 0xff,
                                                        0x100, 0x3b1, 0x3ac, 0xd7ff, 0xe000, 0xffff, 0x161, 0x171, 0x7fff, 0x8000]


def all_pairs(ls):
    return [[a, b] for i, a in enumerate(ls) for b in ls[i:]]


def some_pairs(r, ls, k):
    return [[r.choice(ls), r.choice(ls)] for _ in range(k)]


def sessions_C09(r, n):
    out = []
    for k in range(n):
        s = Ses(r)
        ls = r.choice([[97, 98, 99, 100], [0x1fe, 0x1ff, 0x200, 0x201], [97, 0x1ff, 0x200, 0xffff], [1, 0x8000, 0x7fff, 0xffff, 98], [97, 0x161, 0x361, 0x561, 0x2061]])
        for e in ('e1', 'e2'):
            s.add('e.new', o=e)
        s.add('e.def', o='e1')
        for i in range(r.randint(3, 14)):
            e = r.choice(['e1', 'e1', 'e2'])
            x = r.random()
            if x < .45:
                s.add('e.set', o=e, x=r.choice(ls), y=r.choice(ls), e=r.choice([0, 1, 30, 50, 99, 100, 101, 2000000]))
            elif x < .7:
                g = list(dict.fromkeys(r.choice(ls) for _ in range(r.randint(0, 3))))
                if g and r.random() < .1:
                    g.append(g[0])
                s.add('e.grp', o=e, l=g, e=r.choice([0, 5, 30, 70, 160]))
            elif x < .8:
                s.add('e.clr', o=e)
            elif x < .9:
                s.add('e.val', o=e, k=r.choice(SCALARS), v=r.randint(0, 300))
            elif x < .95:
                s.add('e.sub', o=e)
            else:
                s.add('e.pad', o=e)
            if r.random() < .5:
                s.add('e.err', o=e, ps=all_pairs(ls))
        for e in ('e1', 'e2'):
            s.add('e.err', o=e, ps=all_pairs(ls) + some_pairs(r, LETTERS + ls, 10))
            s.add('e.vals', o=e); s.add('e.ing', o=e, l=ls)
        if k % 5 == 0:      # a copy, where there can be one
            s.add('dup', o='e3', s='e1'); s.add('e.err', o='e3', ps=all_pairs(ls), probe=1)
            s.add('e.set', o='e3', x=ls[0], y=ls[1], e=77, probe=1); s.add('e.grp', o='e3', l=[0x2c65, 0x2c66], e=12, probe=1)
            for e in ('e1', 'e3'):
                s.add('e.err', o=e, ps=all_pairs(ls + [0x2c65, 0x2c66]), probe=1); s.add('e.ing', o=e, l=[0x2c65], probe=1)
            s.add('del', o=r.choice(['e1', 'e3']), probe=1, cp=1)
            for e in ('e1', 'e3'):
                s.add('e.err', o=e, ps=all_pairs(ls), probe=1); s.add('e.vals', o=e, probe=1)
        out.append(s.c)
    return out


def sessions_C10(r, n, fullstd=1):
    out = []
    dirs = ['small', 'small/', 'blank', 'noeol', 'clash', 'onlylatin', 'empty', 'missing', 'nonsense',
            'crlf', 'crlf2', 'tab', 'spaces', 'badutf', 'bom', 'single', 'high', 'astral', 'onlygreek', 'default']
    probe = [0xfeff, 0x2c65, 0x180, 0x1ff, 0x200, 0xfffd, 0x1f00, 97, 98, 99, 100, 101, 102, 103, 104, 120, 121, 122, 0xe0, 0xe1, 0x1e03, 0x3b1, 0x3ac, 0x3c9, 0x3ce, 113, 119, 107, 109, 110, 117, 118]
    for k in range(n):
        s = Ses(r)
        s.add('e.new', o='e')
        for i in range(r.randint(2, 6)):
            x = r.random()
            if x < .4:
                s.add('e.acc', o='e', g=r.choice(['latin', 'greek']), dir=r.choice(dirs))
            elif x < .5:
                s.add('e.std', o='e', dir=r.choice(dirs))
            elif x < .85:
                g = list(dict.fromkeys(r.choice(probe) for _ in range(r.randint(1, 4))))
                s.add('e.grp', o='e', l=g, e=r.choice([0, 7, 30, 90]))
            elif x < .92:
                s.add('e.set', o='e', x=r.choice(probe), y=r.choice(probe), e=r.choice([3, 60]))
            else:
                s.add('e.clr', o='e')
            if r.random() < .6:
                s.add('e.ing', o='e', l=probe)
                s.add('e.err', o='e', ps=some_pairs(r, probe, 25))
        s.add('e.ing', o='e', l=probe)
        s.add('e.err', o='e', ps=all_pairs(probe))
        out.append(s.c)
    for k in range(max(3, n // 12)):     # cleared and filled again and again, with letters of every kind
        s = Ses(r)
        s.add('e.new', o='e')
        pool = [97, 98, 122, 0xe5, 0x1ff, 0x200, 0x3b1, 0x3c9, 0x1e03, 0x20ac, 0xffee]
        for rnd in range(r.randint(2, 4)):
            ls = r.sample(pool, len(pool))
            for g in range(r.randint(0, 3)):
                m = r.randint(1, 3)
                s.add('e.grp', o='e', l=[ls.pop() for _ in range(m)], e=r.choice([0, 5, 17, 40, 66, 90, 130]))
                if r.random() < .3:
                    s.add('e.set', o='e', x=r.choice(pool), y=r.choice(pool), e=r.choice([3, 61]))
            s.add('e.ing', o='e', l=pool); s.add('e.err', o='e', ps=all_pairs(pool))
            s.add('e.clr', o='e')
            if r.random() < .3:
                s.add('e.err', o='e', ps=all_pairs(pool))
            if r.random() < .2:
                s.add('e.acc', o='e', g=r.choice(['latin', 'greek']), dir=r.choice(['small', 'high', 'single']))
        out.append(s.c)
    for k in range(fullstd):     # the real data files
        s = Ses(r)
        s.add('e.new', o='e')
        d = ['share', 'share/', 'share//'][k % 3]
        if k % 2:
            s.add('e.acc', o='e', g='greek', dir=d); s.add('e.acc', o='e', g='latin', dir=d)
        else:
            s.add('e.std', o='e', dir=d)
        real = [ord(c) for c in 'aáàăắåäbḃcćçeéêgğiíïİkķnñňoóöøôsśşuúüyýÿzźžαάεέιίϊΐυύ' if ord(c) < 0x10000] + [0x358, 0x303, 0x329]
        s.add('e.ing', o='e', l=real)
        s.add('e.err', o='e', ps=some_pairs(r, real, 250))
        s.add('e.std', o='e', dir=d)
        s.add('e.ing', o='e', l=real)
        s.add('e.err', o='e', ps=some_pairs(r, real, 100))
        out.append(s.c)
    return out


def sessions_C11(r, n):
    out = []
    kb = [ord(c) for c in "1234567890+qwertyuiopåasdfghjklöä'zxcvbnm,.-"]
    pad = [ord(c) for c in '0123456789abcdefghijklmnopqrstuvwxyz']
    pairs = all_pairs(sorted(set(kb + pad)))
    for k in range(n):
        s = Ses(r)
        s.add('e.new', o='e')
        for i in range(r.randint(0, 3)):
            if r.random() < .6:
                s.add('e.set', o='e', x=r.choice(kb + [0x200]), y=r.choice(kb), e=r.choice([0, 10, 77]))
            else:
                s.add('e.grp', o='e', l=list(dict.fromkeys(r.choice(kb) for _ in range(4))), e=r.choice([5, 60]))
        before = r.random() < .5
        ops = r.choice([['e.kbd'], ['e.pad'], ['e.kbd', 'e.pad'], ['e.pad', 'e.kbd']])
        for o in ops:
            s.add(o, o='e')
            s.add('e.err', o='e', ps=pairs if k < 8 else some_pairs(r, kb + pad, 150))
        for i in range(2):
            s.add('e.set', o='e', x=r.choice(kb), y=r.choice(kb), e=r.choice([0, 10, 77]))
        s.add('e.err', o='e', ps=some_pairs(r, kb + pad + [0x200, 0xffff, 0xe0], 120))
        out.append(s.c)
    return out


# ---------------------------------------------------------------- matchers
VOC = ['abc', 'abd', 'acb', 'ab', 'a', 'b', 'bcd', 'abcd', 'xyz', 'xy', 'hello', 'hallo', 'world', 'wörld', 'ba', 'abcde', 'zzz', '\u00f6', '\u00f6b', '\u20acuro', '\u20ac', '\U0001f600', '\U0001f600a']
FIELDS = ['t', 'name', 'ab', 'hello']


class Mat(Ses):
    """sessions about a matcher"""
    def __init__(self, r, keep=False):
        Ses.__init__(self, r, keep)
        self.voc = r.sample(VOC, r.randint(5, 10))
        self.fields = r.sample(FIELDS, r.randint(1, 3))
        self.idpool = r.sample(range(1, 25), 6)
        self.count = {}

    def doc(self, did=None, empty=.08, fields=None):
        r = self.r
        d = self.name('d')
        self.add('d.new', o=d, id=did or r.choice(self.idpool))
        for f in fields if fields is not None else [f for f in self.fields if r.random() < .75]:
            ws = [r.choice(self.voc) for _ in range(r.randint(1, 4))]
            if r.random() < .35 and len(ws) > 1:
                ws[1] = ws[0]
            if r.random() < empty:
                ws = []
            for w in ws:
                self.count[f, w] = self.count.get((f, w), 0) + 1
            self.add('d.text', o=d, f=L(f), b=u(' '.join(ws)), via=r.choice(['cstr', 'str']))
        return d

    def corpus(self, docs):
        c = self.name('c')
        self.add('c.new', o=c)
        for d in docs:
            self.add('c.add', o=c, s=d)
        return c

    def word(self):
        r = self.r
        w = r.choice(self.voc)
        x = r.random()
        if x < .45:
            return w
        if x < .5:
            return r.choice([w[0], w[0], w[:2], 'a', '\u00f6', '\u20ac', '\U0001f600', '\uff21'])
        if x < .6:
            return w.upper()
        l = list(w)
        if x < .7 and len(l) > 1:
            i = r.randint(0, len(l) - 2); l[i], l[i + 1] = l[i + 1], l[i]
        elif x < .8:
            l.pop(r.randint(0, len(l) - 1))
        elif x < .9:
            l.insert(r.randint(0, len(l)), r.choice('abxz'))
        else:
            l[r.randint(0, len(l) - 1)] = r.choice('abxz')
        return ''.join(l)

    def query(self, lo=1, hi=3):
        return [self.word() for _ in range(self.r.randint(lo, hi))]

    def qargs(self, q, via=None):
        """a match by word list or by text"""
        r = self.r
        via = via or r.choice(['wl', 'wl', 'cstr', 'str'])
        if via == 'wl' and r.random() < .5:
            return dict(q=[L(w.lower()) for w in q], via='wl')
        return dict(b=u(r.choice([' ', '  ', '\t']).join(q)), via=via)

    def ask(self, m, q=None, **kw):
        q = q if q is not None else self.query()
        self.add('m.match', o=m, **self.qargs(q), **kw)

    def settings(self, m, p=.4):
        r = self.r
        if r.random() < p:
            f = r.choice(self.fields)
            self.add('x.set', o=m, f=L(f), v=r.choice([0, 1, 2, 4, 8, 40, -4]))
        if r.random() < p:
            x, y = r.sample(sorted(set(''.join(self.voc)) | set('abxz')), 2) if r.random() < .5 else ('a', r.choice('bxz'))
            if ord(x) < 65536 and ord(y) < 65536:
                self.add('e.set', o=m, x=ord(x), y=ord(y), e=r.choice([0, 20, 60, 130, r.randint(0, 210), r.randint(1, 99)]))
        if r.random() < p / 2:
            self.add('e.kbd', o=m)
        if r.random() < p / 2:
            self.add('e.sub', o=m)
        if r.random() < p / 2:
            self.add('e.val', o=m, k=r.choice(SCALARS[:5]), v=r.choice([0, 20, 60, 100, 150, r.randint(1, 210)]))


def matcher_session(r, weights=True, keep=False):
    s = Mat(r, keep)
    m = s.name('m')
    s.add('m.new', o=m)
    for ph in range(r.randint(1, 3)):
        docs = [s.doc() for _ in range(r.randint(1, 4))]
        c = s.corpus(docs)
        if r.random() < .3:
            s.settings(m)
        s.add('m.idx', o=m, s=c)
        if weights:
            s.settings(m, .35)
        for _ in range(r.randint(1, 4)):
            s.ask(m)
        x = r.random()
        if x < .1:
            s.ask(m, [])
        elif x < .2:
            s.add('m.match', o=m, q=[[]], via='wl')
        elif x < .35:
            p = s.name('p')
            s.add('p.new', o=p)
            if r.random() < .6:
                s.add('p.dyn', o=p, v=0)
            if r.random() < .5:
                s.add('p.nos', o=p, f=L(r.choice(s.fields + ['nowhere'])))
            s.add('p.obs', o=p, fs=[L(f) for f in s.fields + ['q', '']])
            for _ in range(3):
                q = [s.word()[:r.choice([1, 2, 9])] for _ in range(r.randint(1, 2))]
                s.add('m.match', o=m, **s.qargs(q, r.choice(['wl', 'cstr'])), p=p)
        elif x < .4:
            s.add('m.match', o=m, b=[97, 0x80], via='cstr')
    for _ in range(r.randint(2, 5)):
        s.ask(m)
    return fix_bools(s.c)


def fix_bools(cs):
    for c in cs:
        if c['op'] == 'p.dyn':
            c['v'] = bool(c['v'])
    return cs


def many_docs(r):
    """more than a handful of documents, one word very common"""
    s = Mat(r)
    s.add('m.new', o='m')
    k = r.randint(12, 24)
    docs = []
    for i in range(k):
        d = 'd%d' % i
        s.add('d.new', o=d, id=i + 1)
        s.add('d.text', o=d, f=L('t'), b=u(' '.join(['abc'] * r.randint(1, 3) + r.sample(s.voc, 2))))
        docs.append(d)
    s.add('m.idx', o='m', s=s.corpus(docs))
    for _ in range(5):
        s.ask('m')
    return s.c


def crowd(r):
    """one field with very many words near the query, at several distances"""
    s = Mat(r)
    s.add('m.new', o='m')
    base = r.choice(['abcde', 'hello', 'ab', 'abcdefgh'])
    words = {base}
    while len(words) < r.choice([40, 70]):
        w = list(base)
        for _ in range(r.choice([1, 2, 2, 3])):
            i = r.randint(0, len(w))
            x = r.random()
            if x < .4:
                w.insert(i, r.choice('abxyzqrst'))
            elif x < .8 and i < len(w):
                w[i] = r.choice('abxyzqrst')
            elif w and i < len(w):
                w.pop(i)
        words.add(''.join(w))
    docs = []
    for i, w in enumerate(sorted(words - {''})):
        if i % 3 == 0:
            d = s.name('d')
            docs.append(d)
            s.add('d.new', o=d, id=len(docs))
            text = []
        text.append(w)
        if i % 3 == 2 or i == len(words - {''}) - 1:
            s.add('d.text', o=d, f=L('t'), b=u(' '.join(text)))
    r.shuffle(docs)
    s.add('m.idx', o='m', s=s.corpus(docs))
    s.ask('m', [base]); s.ask('m', [base, base + 'x'])
    return s.c


def sessions_C13(r, n):
    return [crowd(r) for _ in range(max(1, n // 40))] + [matcher_session(r, k % 3 == 0) for k in range(n)] + [many_docs(r) for _ in range(max(1, n // 25))]


def sessions_C14(r, n):
    return [matcher_session(r) for k in range(n)] + [many_docs(r) for _ in range(max(1, n // 15))]


def filter_ops(s, p, r, words, fields):
    s.add('p.new', o=p)
    for i in range(r.randint(0, 5)):
        if r.random() < .35:
            s.add('f.term', o=p)
        else:
            s.add('f.sub', o=p, f=L(r.choice(fields)), w=L(r.choice(words)))
    s.add('f.obs', o=p)


def sessions_C16(r, n):
    out = []
    for k in range(n):
        s = Mat(r)
        s.add('m.new', o='m')
        docs = [s.doc() for _ in range(r.randint(2, 5))]
        s.add('m.idx', o='m', s=s.corpus(docs))
        if r.random() < .3:
            s.settings('m')
        fields = s.fields + ['nowhere', s.voc[0]]
        words = s.voc + ['unseen', s.fields[0], '']
        for i in range(3):
            p = s.name('p')
            filter_ops(s, p, r, words, fields)
            nos = []
            for _ in range(r.choice([0, 0, 1, 1, 2])):
                f = L(r.choice(fields)); nos.append(f); s.add('p.nos', o=p, f=f)
            if r.random() < .3:
                s.add('p.dyn', o=p, v=False)
            s.add('p.obs', o=p, fs=[L(f) for f in fields])
            for _ in range(3):
                q = s.query()
                s.add('m.match', o='m', **s.qargs(q, r.choice(['wl', 'cstr'])), p=p, base=1, nos=nos)
            if r.random() < .4:
                s.add('m.idx', o='m', s=s.corpus([s.doc()]))
        s.add('f.new', o='rf')
        for i in range(4):
            s.add(*(['f.term'] if r.random() < .4 else ['f.sub']), **(dict(o='rf') if s.c[-1] is None else dict(o='rf', f=L(r.choice(fields)), w=L(r.choice(words)))))
        s.add('f.obs', o='rf')
        if k % 5 == 0:      # copies, where there can be any
            p = s.live['p'][0]; f = L(s.fields[0]); w = L(r.choice(s.voc)); q = s.qargs(s.query(), 'wl')
            s.add('dup', o='pz', s=p); s.add('dup', o='fz', s='rf')
            s.add('f.sub', o='fz', f=f, w=w, probe=1); s.add('f.obs', o='fz', probe=1); s.add('f.obs', o='rf'); s.add('p.nos', o='pz', f=f, probe=1)
            nos = [c['f'] for c in s.c if c['op'] == 'p.nos' and c['o'] == p]
            s.add('m.match', o='m', p=p, base=1, nos=nos, **q)
            s.add('del', o='pz', probe=1, cp=1); s.add('del', o='fz', probe=1, cp=1)
            s.add('p.obs', o=p, fs=[L(f) for f in fields]); s.add('m.match', o='m', p=p, base=1, nos=nos, **q)
        out.append(s.c)
    return out


def sessions_C17(r, n):
    """two matchers with the same content; one answers many queries, then both answer the same"""
    out = []
    for k in range(n):
        s = Mat(r)
        for m in ('m1', 'm2'):
            s.add('m.new', o=m)
        docs = [s.doc() for _ in range(r.randint(1, 4))]
        c = s.corpus(docs)
        for m in ('m1', 'm2'):
            s.add('m.idx', o=m, s=c)
        if r.random() < .3:
            v = r.choice([0, 2, 8]); f = L(r.choice(s.fields))
            for m in ('m1', 'm2'):
                s.add('x.set', o=m, f=f, v=v)
        strange = ['unseen', 'nope', 'qqq', s.voc[0] + 'z']
        seen, asked = [], []
        for i in range(r.randint(3, 8)):
            x = r.random()
            if x < .25:
                q = [r.choice(strange + s.voc) for _ in range(r.randint(1, 3))]
                asked.append(q)
                s.ask('m1', q)
            elif x < .6:
                p = s.name('p')
                filter_ops(s, p, r, s.voc + strange, s.fields + strange)
                if r.random() < .3:
                    s.add('p.nos', o=p, f=L(r.choice(s.fields + strange)))
                q = s.query()
                if r.random() < .4:     # a larger allowance, for short words
                    s.add('p.dyn', o=p, v=False)
                    q = [r.choice(s.voc)[:1]] + r.choice([[], [r.choice(s.voc)]])
                asked.append(q)
                s.add('m.match', o='m1', **s.qargs(q, r.choice(['wl', 'cstr'])), p=p)
            elif x < .9:
                f = r.choice(s.fields + strange + s.voc); seen.append(f)
                s.add('m.online', o='m1', q=[L(w.lower()) for w in s.query(0, 3) + [r.choice(strange)]], f=L(f))
            else:
                s.add('m.match', o='m1', b=[97, 0xff], via='cstr')
        if r.random() < .4:
            c2 = s.corpus([s.doc() for _ in range(r.randint(1, 2))])
            s.add('m.idx', o='m1', s=c2); s.add('m.idx', o='m2', s=c2)
        for q in r.sample(asked, min(3, len(asked))) + [s.query(), s.query()]:
            a = s.qargs(q)
            s.add('m.match', o='m2', **a); s.add('m.match', o='m1', **a)
        for f in r.sample(s.fields + strange + s.voc, 4) + seen[:2]:
            q = [L(w.lower()) for w in s.query(1, 2)]
            s.add('m.online', o='m2', q=q, f=L(f)); s.add('m.online', o='m1', q=q, f=L(f))
        p = s.name('p'); filter_ops(s, p, r, s.voc, s.fields)
        q = s.qargs(s.query(), 'wl')
        s.add('m.match', o='m2', **q, p=p); s.add('m.match', o='m1', **q, p=p)
        out.append(s.c)
    return out


def sessions_C18(r, n):
    out = []
    for k in range(n):
        s = Mat(r)
        ids = r.sample(range(1, 25), r.randint(2, 6))
        docs = [s.doc(did=i) for i in ids]
        ms = ['m%d' % i for i in range(1, 4)]
        for m in ms:
            s.add('m.new', o=m)
        # one call
        s.add('m.idx', o='m1', s=s.corpus(docs))
        # other divisions and orders, with empty things in between
        for m in ms[1:]:
            d2 = list(docs); r.shuffle(d2)
            while d2:
                j = r.randint(1, len(d2))
                part, d2 = d2[:j], d2[j:]
                if r.random() < .25:
                    s.add('m.idx', o=m, s=s.corpus([]))
                if r.random() < .25:
                    e = s.name('d'); s.add('d.new', o=e, id=r.choice([i for i in range(1, 25) if i not in ids]))
                    if r.random() < .5:
                        s.add('d.text', o=e, f=L(r.choice(s.fields)), b=[])
                    part = part + [e]
                if r.random() < .15:
                    s.ask(m)
                s.add('m.idx', o=m, s=s.corpus(part))
        f = L(r.choice(s.fields)); v = r.choice([2, 4, 12])
        for m in ms:
            s.add('x.set', o=m, f=f, v=v)
        for i in range(4):
            a = s.qargs(s.query())
            for m in ms:
                s.add('m.match', o=m, **a)
        for i in range(3):
            q = [L(w.lower()) for w in s.query(1, 3)]; f = L(r.choice(s.fields))
            for m in ms:
                s.add('m.online', o=m, q=q, f=f)
        p = s.name('p'); filter_ops(s, p, r, s.voc, s.fields)
        a = s.qargs(s.query(), 'wl')
        for m in ms:
            s.add('m.match', o=m, **a, p=p)
        out.append(s.c)
    return out


def sessions_C20(r, n):
    out = []
    for k in range(n):
        s = Mat(r)
        s.add('m.new', o='m')
        s.add('m.online', o='m', q=[L('abc')], f=L(s.fields[0]))
        for ph in range(r.randint(1, 2)):
            docs = [s.doc() for _ in range(r.randint(1, 4))]
            s.add('m.idx', o='m', s=s.corpus(docs))
            if r.random() < .3:
                s.settings('m', .3)
            for i in range(5):
                f = r.choice(s.fields * 3 + s.voc + ['nowhere', ''])
                # mostly texts really present in documents
                if r.random() < .6:
                    d = [c for c in s.c if c['op'] == 'd.text']
                    if d:
                        q = bytes(r.choice(d)['b']).decode().split()
                        if r.random() < .3:
                            r.shuffle(q)
                        if r.random() < .25 and q:
                            q.pop()
                        if r.random() < .2 and q:
                            q.append(q[0])
                    else:
                        q = s.query(0, 3)
                else:
                    q = s.query(0, 3)
                s.add('m.online', o='m', q=[L(w.lower()) for w in q] + ([[]] if r.random() < .05 else []), f=L(f))
        out.append(s.c)
    return out


def sessions_C26(r, n):
    out = []
    for k in range(n):
        s = Mat(r)
        docs = [s.doc() for _ in range(r.randint(2, 4))]
        c = s.corpus(docs)
        for m in ('m1', 'm2', 'm3'):
            s.add('m.new', o=m)
        s.add('m.idx', o='m1', s=c)      # m1: settings after indexing
        s.add('m.idx', o='m3', s=c)      # m3: untouched
        cmds = []
        for i in range(r.randint(1, 5)):
            x = r.random()
            if x < .3:
                cmds.append(('x.set', dict(f=L(r.choice(s.fields + ['nowhere'])), v=r.choice([0, 1, 2, 8, 40, -4]))))
            elif x < .5:
                cmds.append(('e.set', dict(x=r.choice([97, 98, 99]), y=r.choice([98, 99, 120, 122]), e=r.choice([0, 20, 60, 130, 250, r.randint(0, 210)]))))
            elif x < .65:
                cmds.append(('e.val', dict(k=r.choice(SCALARS), v=r.choice([0, 2, 20, 60, 100, 150, r.randint(0, 210)]))))
            elif x < .72:
                cmds.append(('e.kbd', {}))
            elif x < .8:
                cmds.append(('e.sub', {}))
            elif x < .9:
                cmds.append(('e.grp', dict(l=r.sample([97, 98, 99, 100, 120, 121, 122], 2), e=r.choice([0, 40]))))
            else:
                cmds.append(('e.clr', {}))
        qs = [s.qargs(s.query()) for _ in range(3)]
        for op, kw in cmds:
            s.add(op, o='m1', **kw)
            if r.random() < .5:
                s.add('m.match', o='m1', **r.choice(qs))
            s.add('e.vals', o='m1')
        for op, kw in cmds:
            s.add(op, o='m2', **kw)
        s.add('m.idx', o='m2', s=c)      # m2: settings before indexing
        probes = some_pairs(r, [97, 98, 99, 100, 120, 121, 122], 12)
        for rnd in range(2):
            for q in qs:
                for m in ('m1', 'm2', 'm3'):
                    s.add('m.match', o=m, **q)
            for m in ('m1', 'm2', 'm3'):
                s.add('e.err', o=m, ps=probes); s.add('e.vals', o=m)
                for f in s.fields + ['nowhere']:
                    s.add('x.get', o=m, f=L(f))
            if rnd == 0:
                c2 = s.corpus([s.doc()])
                for m in ('m1', 'm2', 'm3'):
                    s.add('m.idx', o=m, s=c2)
                s.add('x.set', o='m3', f=L(s.fields[0]), v=12)
        if k % 5 == 0:      # copies, where there can be any
            f = L(s.fields[0])
            s.add('x.new', o='x1'); s.add('x.set', o='x1', f=f, v=3); s.add('dup', o='x2', s='x1'); s.add('x.set', o='x2', f=f, v=5, probe=1)
            s.add('dup', o='m4', s='m1'); s.add('x.set', o='m4', f=f, v=1, probe=1); s.add('e.set', o='m4', x=97, y=122, e=33, probe=1)
            gone = r.choice([['x1', 'm1'], ['x2', 'm4']])
            for turn in range(2):
                for x in ('x1', 'x2', 'm1', 'm4'):
                    s.add('x.get', o=x, f=f, probe=1)
                for m in ('m1', 'm4'):
                    s.add('e.err', o=m, ps=probes + [[97, 122]], probe=1); s.add('m.match', o=m, probe=1, **qs[0])
                if not turn:
                    for x in gone:
                        s.add('del', o=x, probe=1, cp=1)
        s.add('x.new', o='x')
        s.add('x.get', o='x', f=L(s.fields[0]))
        s.add('x.set', o='x', f=L('a'), v=r.randint(-20, 20)); s.add('x.get', o='x', f=L('a')); s.add('x.get', o='x', f=L('A'))
        out.append(s.c)
    return out


# ---------------------------------------------------------------- C15: result lists
def sessions_C15(r, n):
    out = []
    for k in range(n):
        s = Ses(r)
        for i in range(2):
            s.add('r.new', o=s.name('r'))
        ids = r.sample(range(1, 25), 5)
        rk = r.sample(range(1, 16), 3) if k % 2 else list(range(1, 16))
        for i in range(r.randint(8, 24)):
            x = r.random()
            if x < .45:
                s.add('r.add', o=s.pick('r'), id=r.choice(ids), k=r.choice(rk))
            elif x < .53:
                a, b = s.two('r')
                if a != b:
                    s.add('r.all', o=a, s=b)
            elif x < .63:
                a, b = s.two('r')
                if a != b or True:
                    s.add('r.one', o=a, s=b, i=r.choice([0, 0, 1, 2, 3, 5, 9]))
            elif x < .68:
                a = s.pick('r'); o = s.name('r'); s.add('r.copy', o=o, s=a)
            elif x < .72:
                a = s.pick('r'); o = s.name('r'); s.add('r.move', o=o, s=a)
            elif x < .77:
                a, b = s.two('r'); s.add('r.set', o=a, s=b)
            elif x < .81:
                a, b = s.two('r')
                if a != b:
                    s.add('r.mset', o=a, s=b)
            elif x < .84 and s.n('r') > 2:
                s.drop('r', s.pick('r'))
            elif x < .93:
                s.add('r.read', o=s.pick('r'), i=r.choice([0, 1, 2, 4]), **({'rel': 1} if r.random() < .5 else {}))
            else:
                s.add('r.obs', o=s.pick('r'))
        for o in s.live['r']:
            s.add('r.obs', o=o)
        out.append(s.c)
    for k in range(max(1, n // 30)):     # longer than insertion-sort thresholds
        s = Ses(r)
        s.add('r.new', o='r')
        for i in range(90):
            s.add('r.add', o='r', id=r.randint(1, 24), k=r.choice([5, 8, 9, 10]))
            if r.random() < .05:
                s.add('r.read', o='r', i=r.randint(0, i))
        s.add('r.obs', o='r')
        out.append(s.c)
    return out


# ---------------------------------------------------------------- C19: documents and corpora
def sessions_C19(r, n):
    out = []
    for k in range(n):
        s = Ses(r)
        fields = [valid_letters(r, 0, 3, r.choice([[97, 98], None])) for _ in range(4)]
        voc = [''.join(c for c in clean_text(r, 1, 3) if c not in WS) or 'x' for _ in range(4)]
        for i in range(2):
            s.add('d.new', o=s.name('d'), id=r.randint(1, 24))
        s.add('l.new', o=s.name('l')); s.add('c.new', o=s.name('c'))
        for i in range(r.randint(8, 20)):
            x = r.random()
            if x < .3:
                t = ' '.join(r.choice(voc) for _ in range(r.randint(0, 4)))
                b = u(t)
                if r.random() < .12:
                    b = b + list(r.choice(BAD))
                s.add('d.text', o=s.pick('d'), f=r.choice(fields), b=b, via=r.choice(['cstr', 'str']))
            elif x < .4:
                s.add('d.words', o=s.pick('d'), f=r.choice(fields), s=s.pick('l'))
            elif x < .5:
                s.add('l.add', o=s.pick('l'), w=L(fold(r.choice(voc))))
            elif x < .56:
                a = s.pick('d'); s.add('d.copy', o=s.name('d'), s=a)
            elif x < .61:
                a, b = s.two('d'); s.add('d.set', o=a, s=b)
            elif x < .64:
                s.add('d.new', o=s.name('d'), id=r.randint(1, 24))
            elif x < .74:
                s.add('c.add', o=s.pick('c'), s=s.pick('d'))
            elif x < .79 and s.n('d') > 1:
                s.drop('d', s.pick('d'))
            elif x < .82 and s.n('l') > 1:
                s.drop('l', s.pick('l'))
            elif x < .85:
                s.add('l.new', o=s.name('l'))
            elif x < .9:
                s.add('d.get', o=s.pick('d'), f=r.choice(fields))
            elif x < .95:
                s.add('d.cnt', o=s.pick('d'), w=L(fold(r.choice(voc))), f=r.choice(fields))
            else:
                s.add('c.obs', o=s.pick('c'))
        for o in s.live['d']:
            s.add('d.obs', o=o); s.add('d.id', o=o)
            for f in fields[:3]:
                s.add('d.get', o=o, f=f); s.add('d.cnt', o=o, w=L(fold(voc[0])), f=f)
        for o in s.live['c']:
            s.add('c.obs', o=o)
        out.append(s.c)
    # matchers hold copies: one matcher's sources are changed and destroyed, the other's are not
    for k in range(max(2, n // 3)):
        s = Mat(r)
        for m in ('m1', 'm2'):
            s.add('m.new', o=m)
        docs = [s.doc() for _ in range(r.randint(1, 3))]
        c1, c2 = s.corpus(docs), None
        cp = []
        for d in docs:
            o = s.name('d'); s.add('d.copy', o=o, s=d); cp.append(o)
        c2 = s.corpus(cp)
        s.add('m.idx', o='m1', s=c1); s.add('m.idx', o='m2', s=c2)
        for d in docs:
            s.add('d.text', o=d, f=L(s.fields[0]), b=u('changed words'))
        s.add('c.add', o=c1, s=docs[0])
        s.add('c.obs', o=c1)
        for d in docs:
            s.add('del', o=d)
        s.add('c.obs', o=c1)
        s.add('del', o=c1)
        for i in range(3):
            a = s.qargs(s.query() if i else ['changed', 'words'])
            s.add('m.match', o='m2', **a); s.add('m.match', o='m1', **a)
        s.add('c.obs', o=c2)
        out.append(s.c)
    return out


# ---------------------------------------------------------------- C21: the C interface
def sessions_C21(r, n):
    """the same calls through both interfaces, on twin objects"""
    out = []
    for k in range(n):
        s = Mat(r)
        both = [('x', 'cstr'), ('y', 'c')]

        def twin(op, o, **kw):
            order = both if r.random() < .5 else both[::-1]
            for p, via in order:
                a = {k2: (p + v if k2 in ('s', 'e') and isinstance(v, str) else v) for k2, v in kw.items()}
                if op == 'm.match':
                    s.add(op, o=p + o, via='c' if via == 'c' else 'cstr', **a)
                else:
                    s.add(op, o=p + o, via=via, **a)
        for i in range(4):
            twin('w.new', 'w%d' % i, b=text_bytes(r))
            # a word known to exist
            t = ''.join(c for c in clean_text(r, 0, 5) if c not in WS)
            twin('w.new', 'v%d' % i, b=u(t))
            twin('w.obs', 'v%d' % i, u=1)
            for nb in r.sample(range(0, 14), 4):
                twin('w.utf8', 'v%d' % i, n=nb)
        twin('m.new', 'm')
        nd = r.randint(1, 3)
        for i in range(nd):
            twin('d.new', 'd%d' % i, id=r.choice(s.idpool))
            twin('d.id', 'd%d' % i)
            for f in s.fields:
                b = u(' '.join(r.choice(s.voc) for _ in range(r.randint(0, 3))))
                if r.random() < .1:
                    b += [0xff]
                twin('d.text', 'd%d' % i, f=L(f), b=b)
            for p, via in both:
                s.add('d.obs', o=p + 'd%d' % i)
        for ph in range(2):
            twin('c.new', 'c%d' % ph)
            for i in range(nd):
                if r.random() < .8:
                    twin('c.add', 'c%d' % ph, s='d%d' % i)
            for p, via in both:
                s.add('c.obs', o=p + 'c%d' % ph)
            twin('m.idx', 'm', s='c%d' % ph)
            if r.random() < .5:
                f = L(r.choice(s.fields)); v = r.choice([0, 2, 8, -4, 1])
                twin('x.set', 'm', f=f, v=v)
            for f in s.fields + ['other']:
                twin('x.get', 'm', f=L(f))
            if r.random() < .3:
                twin('e.sub', 'm')
            if r.random() < .3:
                twin('e.std', 'm', dir=r.choice(['small', 'missing', 'clash', 'noeol', 'default']))
            for p, via in both:
                s.add('e.vals', o=p + 'm')
                s.add('e.err', o=p + 'm', ps=[[97, 0xe0], [97, 98], [113, 119], [0x3b1, 0x3ac]])
            for i in range(4):
                q = s.query(0, 3)
                twin('m.match', 'm', b=u(' '.join(q)))
            if r.random() < .3:
                twin('m.match', 'm', b=[97, 0x80])
                twin('m.match', 'm', b=u(r.choice(s.voc)))
        twin('r.new', 'r')
        twin('r.obs', 'r')
        for i in range(r.randint(0, 6)):
            a = dict(id=r.randint(1, 24), k=r.randint(1, 15))
            for p, via in both:
                s.add('r.add', o=p + 'r', **a)
        twin('r.obs', 'r')
        s.add('null', via='c')
        for o in ['m', 'r', 'c0', 'c1'] + ['d%d' % i for i in range(nd)] + ['v0', 'v1']:
            twin('del', o)
        out.append(s.c)
    return out


# ---------------------------------------------------------------- large inputs, for every property
def long_text(r, lo, hi):
    """well-formed text of very many letters, and no whitespace"""
    n = r.choice([lo, r.randint(lo, hi), hi, 127, 128, 129, 255, 256, 257, 511, 513, 1023, 1025])
    n = max(lo, min(n, hi))
    pool = r.choice(['ab', 'aB\u00c5\u20ac', '\U0001f600\U00010400x', 'abcdefghijklmnopqrstuvwxyz', '\u20ac\u1e03', None])
    if pool:
        return ''.join(r.choice(pool) for _ in range(n))
    return ''.join(c for c in clean_text(r, n, n) if c not in WS) or 'x'


def big_C01(r):
    s = Ses(r)
    for i in range(5):
        b = u(long_text(r, 60, 1500))
        x = r.random()
        if x < .25:
            j = r.choice([0, len(b) // 2, len(b) - 1, len(b)]); b = b[:j] + list(r.choice(BAD)) + b[j:]
        elif x < .4:
            b = b + [r.choice([32, 9, 10, 13])]
        s.add('w.new', o='w%d' % i, b=b, via=r.choice(['cstr', 'str'])); s.add('w.obs', o='w%d' % i, probe=1)
        l = L(long_text(r, 60, 1500))
        x = r.random()
        if x < .2:
            l = l + [0]
        elif x < .4:
            l.insert(r.choice([0, len(l) - 1, len(l)]), r.choice([0, 32, 0xd800, 0xdc00, 10]))
        s.add('w.let', o='a%d' % i, l=l); s.add('w.obs', o='a%d' % i, probe=1)
    s.add('w.empty', o='t'); s.add('w.text', o='t', b=u(long_text(r, 200, 900))); s.add('w.obs', o='t')
    s.add('w.text', o='t', b=u('x')); s.add('w.obs', o='t')
    return s.c


def big_C02(r):
    s = Ses(r)
    base = L(long_text(r, 60, 700))
    base = [x for x in base if not 0xd800 <= x < 0xe000] or [97]
    ws = [base, base[:-1], base + [97], base[:-1] + [base[-1] + 1 if base[-1] < 0xd000 else 97], base[:len(base) // 2], [base[0] + 256 if base[0] < 0xc000 else 97] + base[1:]]
    for i, w in enumerate(ws):
        s.add('w.let', o='w%d' % i, l=w)
    for i in range(len(ws)):
        for j in range(len(ws)):
            s.add('w.cmp', o='w%d' % i, s='w%d' % j)
    s.add('w.join', o='j', s='w0', s2='w2'); s.add('w.obs', o='j'); s.add('w.copy', o='k', s='j'); s.add('w.cmp', o='j', s='k')
    s.add('w.set', o='w4', s='j'); s.add('del', o='j'); s.add('w.obs', o='w4'); s.add('w.move', o='v', s='w4'); s.add('w.obs', o='w4'); s.add('w.cmp', o='v', s='k')
    return s.c


def big_C03(r):
    s = Ses(r)
    t = []
    for _ in range(r.choice([3, 40, 150])):
        t += u(''.join(r.choice(WS) for _ in range(r.choice([1, 1, 2, 40]))))
        t += u(long_text(r, 1, 300) if r.random() < .05 else clean_word(r))
    if r.random() < .3:
        t += [32] + list(r.choice(BAD))
    s.add('l.split', o='l', b=t); s.add('l.obs', o='l', probe=1)
    s.add('l.new', o='m')
    for i in range(r.choice([20, 70])):
        s.add('l.add', o='m', w=L(fold(clean_word(r))))
    s.add('l.copy', o='n', s='m'); s.add('l.add', o='m', w=[97]); s.add('l.obs', o='m'); s.add('l.obs', o='n'); s.add('l.cmp', o='m', s='n')
    s.add('l.set', o='m', s='n'); s.add('l.cmp', o='m', s='n')
    return s.c


def clean_word(r):
    return ''.join(c for c in clean_text(r, 1, 5) if c not in WS) or 'x'


def big_C04(r):
    s = Ses(r)
    for i in range(3):
        l = L(long_text(r, 100, 1500))
        s.add('w.let', o='w%d' % i, l=l); s.add('w.obs', o='w%d' % i, u=1)
        z = utf8_len(l)
        for n in sorted({0, 1, z // 2, z - 1, z, z + 1, z + 2, z + 700}):
            s.add('w.utf8', o='w%d' % i, n=n)
    return s.c


def big_C05(r):
    """words sharing long beginnings; words with very many next letters"""
    s = Ses(r)
    s.add('s.new', o='s')
    pre = valid_letters(r, 20, 40, [97, 98, 0x161])
    kept = []
    for i in range(60):
        w = pre[:r.randint(0, len(pre))] + valid_letters(r, 0, r.choice([2, 30]), [97, 98, 99, 0x161])
        kept.append(w)
        s.add('s.id', o='s', w=w)
        if r.random() < .4:
            s.add('s.has', o='s', w=pre[:r.randint(0, len(pre))])
        if r.random() < .3:
            s.add('s.id', o='s', w=r.choice(kept))
    kids = r.sample(range(0x100, 0xd000), 90)
    for x in kids:
        s.add('s.id', o='s', w=pre[:3] + [x])
    for x in r.sample(kids, 25):
        s.add('s.has', o='s', w=pre[:3] + [x]); s.add('s.has', o='s', w=pre[:3] + [x, x]); s.add('s.has', o='s', w=pre[:2] + [x])
    for i in range(0, 150, 9):
        s.add('s.word', o='s', id=i); s.add('s.hasid', o='s', id=i)
    return s.c


def big_C06(r):
    s = Ses(r)
    s.add('i.new', o='i')
    ids, ws = {}, []
    pre = valid_letters(r, 10, 20, [97, 98, 0x161])
    for i in range(110):
        w = pre[:r.randint(0, len(pre))] + valid_letters(r, 1, r.choice([2, 20]), [97, 98, 99, 0x161] + list(range(0x200, 0x220)))
        ws.append(w)
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            s.add('i.ins', o='i', w=w, id=ident(ids, w, r))
        if i % 3 == 0:
            v = r.choice(ws)
            s.add('i.has', o='i', w=v[:r.randint(1, len(v))]); s.add('i.has', o='i', w=v + [97])
    s.add('i.stat', o='i', ids=[ident(ids, w, r) for w in ws[::2]] + [12345])
    for w in ws[::3]:
        s.add('i.has', o='i', w=w); s.add('i.has', o='i', w=w[:-1] or [97])
    return s.c


def big_C07(r):
    """large error values; long words"""
    s = Ses(r)
    al = r.choice([[97, 98, 99], [97, 98, 99, 100, 0x1ff, 0x200]])
    s.add('i.new', o='i'); s.add('e.new', o='e'); s.add('q.new', o='q')
    ids = {}
    for k in SCALARS[:5]:
        if r.random() < .6:
            s.add('e.val', o='e', k=k, v=r.choice([0, 127, 128, 255, 256, 999, 32767, 32768, 65535, 65536, 70000, 1000000]))
    for _ in range(4):
        s.add('e.set', o='e', x=r.choice(al), y=r.choice(al), e=r.choice([0, 127, 128, 255, 256, 32768, 65535, 65536, 1000000]))
    if r.random() < .3:
        s.add('e.val', o='e', k='lim', v=r.choice([0, 1, 4, 8, 100]))
        s.add('e.val', o='e', k='st', v=r.choice([0, 3, 500]))
    ws = words_for(r, al, 5, 1, 9)
    for w in ws:
        s.add('i.ins', o='i', w=w, id=ident(ids, w, r))
    for q in words_for(r, al, 4, 0, 9) + [ws[0], ws[1][::-1], ws[2] + ws[0], ws[3][1:]]:
        s.add('i.find', o='i', q=q, e='e', max=r.choice([0, 255, 256, 40000, 65536, 300000, 50000000]), s='q'); s.add('q.clear', o='q')
    return s.c


def big_C08(r):
    """very many branches; match lists gathered over many searches"""
    s = Ses(r)
    s.add('i.new', o='i'); s.add('e.new', o='e'); s.add('q.new', o='q')
    ids = {}
    letters = r.sample(range(0x61, 0x250), 50)
    ws = [[97, x] for x in letters] + [[x, 98] for x in letters[:20]] + [[x] for x in letters[:15]] + words_for(r, letters, 15, 2, 5)
    r.shuffle(ws)
    for w in ws:
        s.add('i.ins', o='i', w=w, id=ident(ids, w, r))
    for i in range(7):
        q = list(r.choice(ws))
        if r.random() < .5:
            q.insert(r.randint(0, len(q)), r.choice(letters))
        s.add('i.find', o='i', q=q, e='e', max=r.choice([0, 100, 100, 200]), s='q')
        if r.random() < .3:
            s.add('q.clear', o='q')
    s.add('q.obs', o='q')
    return s.c


def big_C09(r):
    """very many pairs and groups"""
    s = Ses(r)
    s.add('e.new', o='e')
    pool = r.sample(range(0x21, 0xd7ff), 60) + r.sample(range(0x61, 0x210), 60)
    pool = list(dict.fromkeys(pool))
    r.shuffle(pool)
    at, made = 0, []
    while at < len(pool) - 12:
        k = r.choice([1, 2, 3, 4, 12])
        made.append(pool[at:at + k]); at += k
        s.add('e.grp', o='e', l=made[-1], e=r.choice([0, 5, 30, 70, 160, 127, 128, 255, 300, 40000, 70000]))
        if r.random() < .2:     # refused: touches an older group
            s.add('e.grp', o='e', l=[pool[at], r.choice(r.choice(made))], e=33)
    for i in range(r.choice([20, 120])):
        s.add('e.set', o='e', x=r.choice(pool), y=r.choice(pool), e=r.choice([0, 1, 40, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 99999]))
    if r.random() < .3:
        s.add('e.kbd', o='e')
    s.add('e.err', o='e', ps=some_pairs(r, pool, 150) + [[a, b] for g in made[:14] for a in g[:3] for b in g[:3]])
    s.add('e.ing', o='e', l=pool)
    if r.random() < .4:
        s.add('e.clr', o='e'); s.add('e.err', o='e', ps=some_pairs(r, pool, 60)); s.add('e.ing', o='e', l=pool)
    return s.c


def big_C12(r):
    """the query deep inside much longer words"""
    s = Ses(r)
    al = r.choice([[97, 98, 99, 100], list(range(97, 123)), [0x161, 98, 0x200, 97]])
    s.add('i.new', o='i'); s.add('e.new', o='e'); s.add('q.new', o='q'); s.add('e.sub', o='e')
    if r.random() < .3:
        s.add('e.val', o='e', k=r.choice(['st', 'endd', 'lim', 'del', 'ins', 'tr']), v=r.choice([0, 1, 4, 5, 40, 256]))
    ids = {}
    cores = [valid_letters(r, 2, 9, al) for _ in range(3)]
    for c in cores:
        for _ in range(3):
            w = valid_letters(r, 0, 25, al) + c + valid_letters(r, 0, 25, al)
            s.add('i.ins', o='i', w=w, id=ident(ids, w, r))
    for c in cores:
        for q in (c, c[1:], c[:-1], c[:2], c[:3]):
            if q:
                s.add('i.find', o='i', q=q, e='e', max=r.choice([100, 200, 400, 1000]), s='q'); s.add('q.clear', o='q')
    return s.c


class Big(Mat):
    """a larger collection: many documents, fields and words, long queries"""
    def __init__(self, r, keep=False, docs=None):
        Mat.__init__(self, r, keep)
        base = ['%s%s' % (a, b) for a in ('al', 'ber', 'gamma', 'd', 'epsilon', 'zz', 'stra\u00dfe', '\u20acuro', '\u043c\u0438\u0440') for b in ('', 'x', 'yo', 'ing', 'ation', '42')]
        self.voc = r.sample(base, r.randint(14, 30)) + [self.r.choice(base) * r.choice([3, 9])]
        self.fields = ['f%d' % i for i in range(r.choice([2, 5, 11]))] + ['title']
        self.idpool = r.sample(range(1, 25), 8) + r.sample(range(25, 700), 60)
        self.nd = docs or r.choice([15, 40])
        self.used = []

    def docs(self, n=None):
        out = []
        r = self.r
        for k in range(n or self.nd):
            fs = [f for f in self.fields if r.random() < 2.5 / len(self.fields)] or [self.fields[0]]
            did = self.idpool[len(self.used) % len(self.idpool)]
            self.used.append(did)
            d = self.name('d')
            self.add('d.new', o=d, id=did)
            for f in fs:
                ws = [r.choice(self.voc[:4] if r.random() < .4 else self.voc) for _ in range(r.choice([1, 2, 3, 5, 12]))]
                self.add('d.text', o=d, f=L(f), b=u(' '.join(ws)))
            out.append(d)
        return out

    def weights(self, m):
        for f in self.fields:
            if self.r.random() < .6:
                self.add('x.set', o=m, f=L(f), v=self.r.choice([1, 2, 3, 5, 8, 12]))

    def long_query(self):
        return self.query(1, self.r.choice([1, 3, 6]))


def big_match(r, ops=('match', 'params', 'filter', 'online')):
    s = Big(r)
    s.add('m.new', o='m')
    ds = s.docs()
    cut_ = r.randint(1, len(ds))
    for part in (ds[:cut_], ds[cut_:]):
        if part:
            s.add('m.idx', o='m', s=s.corpus(part))
    if r.random() < .5:
        s.weights('m')
    for i in range(4):
        op = r.choice(ops)
        q = s.long_query()
        if op == 'match':
            s.ask('m', q)
        elif op == 'online':
            d = r.choice([c for c in s.c if c['op'] == 'd.text'])
            ws = bytes(d['b']).decode().split() if r.random() < .7 else q
            s.add('m.online', o='m', q=[L(fold(w)) for w in ws], f=d['f'])
        else:
            p = s.name('p'); s.add('p.new', o=p)
            nos = []
            if op == 'params' or r.random() < .4:
                for f in r.sample(s.fields, r.randint(0, len(s.fields) - 1)):
                    nos.append(L(f)); s.add('p.nos', o=p, f=L(f))
            if op == 'params' and r.random() < .4:
                s.add('p.dyn', o=p, v=False)
            if op == 'filter':
                texts = [c for c in s.c if c['op'] == 'd.text']
                for t in range(r.randint(1, 9)):
                    d = r.choice(texts)
                    for _ in range(r.choice([1, 2, 4])):
                        s.add('f.sub', o=p, f=d['f'], w=L(fold(r.choice(bytes(d['b']).decode().split()))))
                    s.add('f.term', o=p)
                if r.random() < .7:      # the last term has no requirements: everything passes; add one
                    s.add('f.sub', o=p, f=L('title'), w=L(r.choice(s.voc)))
                s.add('f.obs', o=p)
            s.add('p.obs', o=p, fs=[L(f) for f in s.fields[:12]])
            s.add('m.match', o='m', **s.qargs(q, r.choice(['wl', 'cstr'])), p=p, base=1, nos=nos)
    return s.c


def big_C13(r):
    return big_match(r, ('match', 'match', 'params'))


def big_C14(r):
    return big_match(r, ('match', 'match', 'online'))


def big_C16(r):
    return big_match(r, ('filter', 'filter', 'params'))


def big_C20(r):
    s = Big(r, docs=10)
    s.add('m.new', o='m')
    s.add('m.idx', o='m', s=s.corpus(s.docs()))
    d = s.name('d'); s.add('d.new', o=d, id=s.idpool[-1])
    ws = [r.choice(s.voc) for _ in range(r.choice([20, 45]))]
    s.add('d.text', o=d, f=L(s.fields[0]), b=u(' '.join(ws)))
    s.add('m.idx', o='m', s=s.corpus([d]))
    for q in (ws, ws[:-1], ws + ws[:1], ws[:7]):
        s.add('m.online', o='m', q=[L(fold(w)) for w in q], f=L(s.fields[0]))
    return s.c


def big_C15(r):
    s = Ses(r)
    rs = ['r%d' % i for i in range(3)]
    for o in rs:
        s.add('r.new', o=o)
    ks = r.choice([[5], [8, 9], list(range(1, 16))])
    for o in rs:
        for i in range(r.choice([5, 33, 65, 130])):
            s.add('r.add', o=o, id=r.randint(1, 200), k=r.choice(ks))
        if r.random() < .5:
            s.add('r.read', o=o, i=r.randint(0, 4))
    s.add('r.all', o='r0', s='r1'); s.add('r.one', o='r2', s='r1', i=3); s.add('r.copy', o='c', s='r0')
    s.add('r.add', o='r0', id=7, k=r.choice(ks)); s.add('r.all', o='r1', s='r0'); s.add('r.set', o='r2', s='r1')
    for o in rs + ['c']:
        s.add('r.obs', o=o)
    return s.c


def big_C17(r):
    s = Big(r, docs=12)
    for m in ('m1', 'm2'):
        s.add('m.new', o=m)
    c = s.corpus(s.docs())
    for m in ('m1', 'm2'):
        s.add('m.idx', o=m, s=c)
    for i in range(12):
        x = r.random()
        if x < .5:
            s.ask('m1', s.query(1, 2) + ['unseen%d' % i])
        elif x < .75:
            s.add('m.online', o='m1', q=[L('q%d' % i)], f=L(r.choice(s.fields)))
        else:
            p = s.name('p'); s.add('p.new', o=p); s.add('f.sub', o=p, f=L('nofield%d' % i), w=L('noword%d' % i))
            s.add('m.match', o='m1', **s.qargs(s.query(1, 1), 'wl'), p=p)
    for i in range(3):
        a = s.qargs(s.query(1, 2))
        for m in ('m2', 'm1'):
            s.add('m.match', o=m, **a)
    for i in range(0, 12, 3):
        for m in ('m2', 'm1'):
            s.add('m.online', o=m, q=[L(s.voc[0])], f=L(r.choice(['q%d', 'nofield%d', 'noword%d', 'unseen%d']) % i) if m == 'm2' else s.c[-1]['f'])
    return s.c


def big_C18(r):
    s = Big(r, docs=18)
    ds = s.docs()
    ms = ['m1', 'm2', 'm3']
    for m in ms:
        s.add('m.new', o=m)
    s.add('m.idx', o='m1', s=s.corpus(ds))
    for d in ds:
        s.add('m.idx', o='m2', s=s.corpus([d]))
    e = list(ds); r.shuffle(e)
    s.add('m.idx', o='m3', s=s.corpus(e))
    for i in range(3):
        a = s.qargs(s.query(1, 3))
        for m in ms:
            s.add('m.match', o=m, **a)
    t = r.choice([c for c in s.c if c['op'] == 'd.text'])
    for m in ms:
        s.add('m.online', o=m, q=[L(fold(w)) for w in bytes(t['b']).decode().split()], f=t['f'])
    return s.c


def big_C19(r):
    s = Ses(r)
    s.add('d.new', o='d', id=r.randint(1, 300)); s.add('c.new', o='c')
    fs = [L('f%d' % i) for i in range(r.choice([5, 30]))] + [L(fold(clean_word(r))) for _ in range(4)]
    for f in fs + fs[:3]:
        s.add('d.text', o='d', f=f, b=u(' '.join(clean_word(r) for _ in range(r.choice([0, 1, 9])))))
    s.add('d.text', o='d', f=fs[0], b=u(' '.join(r.choice(['aa', 'bb', 'cc']) for _ in range(150))))
    s.add('d.obs', o='d'); s.add('d.cnt', o='d', w=L('aa'), f=fs[0]); s.add('d.cnt', o='d', w=L('bb'), f=fs[1])
    s.add('d.copy', o='d2', s='d'); s.add('c.add', o='c', s='d')
    s.add('d.text', o='d', f=fs[0], b=u('now short')); s.add('d.obs', o='d'); s.add('d.obs', o='d2'); s.add('d.cnt', o='d2', w=L('aa'), f=fs[0])
    for i in range(r.choice([10, 40])):
        s.add('d.new', o='k%d' % i, id=r.randint(1, 500)); s.add('d.text', o='k%d' % i, f=[97], b=u('w%d' % i)); s.add('c.add', o='c', s='k%d' % i)
        s.add('del', o='k%d' % i)
    s.add('c.obs', o='c'); s.add('del', o='d'); s.add('c.obs', o='c'); s.add('d.obs', o='d2')
    return s.c


def big_C21(r):
    s = Big(r, docs=14)
    both = [('x', 'cstr'), ('y', 'c')]
    t = long_text(r, 60, 300)
    n = utf8_len(L(fold(t)))
    for p, via in both:
        s.add('w.new', o=p + 'w', b=u(t), via=via); s.add('w.obs', o=p + 'w', u=1, via=via)
        for k in (0, n - 1, n, n + 1, n + 5):
            s.add('w.utf8', o=p + 'w', n=max(0, k), via=via)
        s.add('c.new', o=p + 'c', via=via); s.add('m.new', o=p + 'm', via=via)
    for i in range(s.nd):
        did = s.idpool[i % len(s.idpool)]
        for f in r.sample(s.fields, min(2, len(s.fields))):
            b = u(' '.join(r.choice(s.voc) for _ in range(3)))
            for p, via in both:
                o = p + 'd%d' % i
                if not any(c['op'] == 'd.new' and c['o'] == o for c in s.c):
                    s.add('d.new', o=o, id=did, via=via); s.add('d.id', o=o, via=via)
                s.add('d.text', o=o, f=L(f), b=b, via=via)
        for p, via in both:
            s.add('c.add', o=p + 'c', s=p + 'd%d' % i, via=via)
    for p, via in both:
        s.add('m.idx', o=p + 'm', s=p + 'c', via=via)
    for f in s.fields:
        v = r.choice([0, 1, 2, 3, 8, 13])
        for p, via in both:
            s.add('x.set', o=p + 'm', f=L(f), v=v, via=via)
    for f in s.fields:
        for p, via in both:
            s.add('x.get', o=p + 'm', f=L(f), via=via)
    for i in range(4):
        b = u(' '.join(s.query(1, 4)))
        for p, via in both:
            s.add('m.match', o=p + 'm', b=b, via=via)
    return s.c


def big_C24(r):
    s = Big(r, docs=14)
    s.add('w.new', o='w', b=u(long_text(r, 60, 300))); s.add('w.obs', o='w', u=1)
    s.add('l.split', o='l', b=u(' '.join(clean_word(r) for _ in range(80)))); s.add('l.obs', o='l')
    s.add('m.new', o='m'); s.add('c.new', o='c')
    for d in s.docs():
        s.add('d.id', o=d); s.add('d.n', o=d); s.add('c.add', o='c', s=d)
    s.add('c.obs', o='c'); s.add('m.idx', o='m', s='c')
    for f in s.fields:
        s.add('x.set', o='m', f=L(f), v=r.choice([0, 1, 2, 3, 8])); s.add('x.get', o='m', f=L(f))
    for i in range(4):
        s.add('m.match', o='m', b=u(' '.join(s.query(1, 4))), via='cstr')
    return s.c


def big_C26(r):
    s = Big(r, docs=8)
    s.add('m.new', o='m'); s.add('m.new', o='n')
    c = s.corpus(s.docs())
    for m in 'mn':
        s.add('m.idx', o=m, s=c)
    for rnd in range(2):
        s.weights('m')
        for f in s.fields + ['nowhere', 'F1']:
            s.add('x.get', o='m', f=L(f)); s.add('x.get', o='n', f=L(f))
        for k in SCALARS:
            if r.random() < .3:
                s.add('e.val', o='m', k=k, v=r.choice([0, 2, 20, 60, 100, 150, 256, 65536]))
        s.add('e.vals', o='m'); s.add('e.vals', o='n')
        a = s.qargs(s.query(1, 3))
        for m in 'mn':
            s.add('m.match', o=m, **a)
        c = s.corpus(s.docs(3))
        for m in 'mn':
            s.add('m.idx', o=m, s=c)
    for m in 'mn':
        s.add('m.match', o=m, **a)
    return s.c

def big_C22(r):
    """storage failures when much has been stored"""
    s = Ses(r)
    kind = r.choice('si')
    al = [97, 98, 0x161]
    if kind == 's':
        s.add('s.new', o='s'); s.add('s.fam', o='s', a=[120, 121], len=11, **{'from': 0}, n=r.choice([300, 1500, 2048]))
    else:
        s.add('i.new', o='i'); s.add('i.fam', o='i', a=[120, 121], len=11, **{'from': 0}, n=r.choice([300, 1500, 2048]), id=1000)
        s.add('e.new', o='e'); s.add('q.new', o='q')
    kept = []
    for j in range(14):
        w = [r.choice(al) for _ in range(r.choice([50, 500, 700]))]
        known = r.choice(kept + [[120] * 11])
        if kind == 's':
            s.add('s.id', o='s', w=w, **fault(r, 2)); s.add('s.has', o='s', w=w); s.add('s.has', o='s', w=known)
            s.add('s.id', o='s', w=known)
            if r.random() < .8:
                s.add('s.id', o='s', w=w); kept.append(w)
        else:
            s.add('i.ins', o='i', w=w, id=j, **fault(r, 2)); s.add('i.has', o='i', w=w); s.add('i.has', o='i', w=known)
            if r.random() < .8:
                s.add('i.ins', o='i', w=w, id=j); kept.append(w)
    if kind == 's':
        for k in range(10):
            s.add('s.word', o='s', id=r.randint(0, 2100))
    else:
        s.add('i.find', o='i', q=[120] * 10 + [121], e='e', max=r.choice([0, 100]), s='q')
        s.add('i.stat', o='i', ids=list(range(14)) + [1000, 1001, 1299])
    return finish(s.c, r)


def big_C23(r):
    f = BIG[r.choice(['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C08', 'C09', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C22'])]
    cs = f(r)
    return cs if cs[-1]['op'] == 'z.res' else finish(cs, r)


BIG = {k[4:]: v for k, v in list(globals().items()) if k.startswith('big_C')}
BIG['C10'] = big_C09


def big_sessions(prop, r, n):
    f = BIG.get(prop)
    return [f(r) for _ in range(n)] if f else []


# ---------------------------------------------------------------- beyond bytes and shorts: counters, lengths, tables
def past(r, k=None):
    """a number at or past what 8 or 16 bits hold"""
    return r.choice([255, 256, 257, 300, 32767, 32768, 65535, 65536, 65537, 65536 + 256, 70000]) if k is None else \
        {8: r.choice([255, 256, 257, 258, 300]), 15: r.choice([32767, 32768, 32769]), 16: r.choice([65535, 65536, 65536, 65537, 65538, 65600, 66666, 70000])}[k]


UNITS = [u('a'), u('B'), u('\u00c5'), u('\u1e02'), u('\u20ac'), u('\uff21'), u('\U00010400'), u('\U0001f600')]


def runs_text(r, total):
    """runs of characters that make a text of about `total` bytes"""
    ts, left = [], total
    while left > 0:
        x = r.choice(UNITS)
        n = left // len(x) if r.random() < .6 else r.randint(0, max(0, left // len(x)))
        if n == 0:
            x, n = u('z'), min(left, r.randint(1, 3))
        ts.append([x, n]); left -= n * len(x)
    return ts


def runs_word(r, n):
    """the letters of a long word with few runs"""
    out = []
    while len(out) < n:
        x = r.choice([[97], [98], [0xe5], [0x1e03], [0x20ac], [0xffee], [0xd801, 0xdc28], [0xd83d, 0xde00]])
        k = n - len(out) if r.random() < .5 else r.randint(1, n - len(out))
        out += x * max(1, k // len(x))
    return out


def huge_C01(r):
    out = []
    for k in (8, 15, 16):
        s = Ses(r)
        for i in range(2):
            ts = runs_text(r, past(r, k))
            s.add('w.new', o='w%d' % i, ts=ts, via=r.choice(['cstr', 'str'])); s.add('w.obs', o='w%d' % i, probe=1)
        ts = runs_text(r, past(r, k))
        ts.insert(r.choice([0, len(ts), len(ts)]), [r.choice([[255], [0xc0], [32], [0xed, 0xa0, 0x80]]), 1])
        s.add('w.new', o='x', ts=ts); s.add('w.obs', o='x', probe=1)
        s.add('w.empty', o='t'); s.add('w.text', o='t', ts=runs_text(r, past(r, k))); s.add('w.obs', o='t')
        w = runs_word(r, past(r, k))
        s.add('w.let', o='l', l=w + r.choice([[], [0]])); s.add('w.obs', o='l')
        w = runs_word(r, past(r, k))
        w.insert(r.choice([0, len(w), len(w) - 1]), r.choice([0xdc00, 32, 10]))
        w.append(97)
        s.add('w.let', o='m', l=w); s.add('w.obs', o='m', probe=1)
        out.append(s.c)
    # every array of up to four letters that are: ordinary, half of a pair, white space, nothing
    kinds = [(97, 0x1e02), (0xd800, 0xdbff, 0xd83d), (0xdc00, 0xdfff, 0xde00), (32, 10), (0,)]
    alls = [[]]
    for n in range(4):
        alls += [a + [k] for a in alls if len(a) == n for k in range(5)]
    long = [a for a in alls if len(a) == 4]
    s = Ses(r)
    for i, a in enumerate([a for a in alls if len(a) < 4] + r.sample(long, 330)):
        if i % 60 == 59:
            out.append(s.c); s = Ses(r)
        o = 'a%d' % i
        s.add('w.let', o=o, l=[r.choice(kinds[k]) for k in a]); s.add('w.obs', o=o, probe=1)
    out.append(s.c)
    # every text of two bytes that matter to the decoder, and many of three
    E = [1, 32, 65, 97, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 236, 237, 238, 239, 240, 241, 243, 244, 245, 255]
    s = Ses(r)
    for i, b in enumerate([[a, b] for a in E for b in E] + [[r.choice(E[16:]), r.choice(E), r.choice(E)] for _ in range(350)] +
                          [[r.choice(E[21:26]), r.choice(E), r.choice(E[5:11]), r.choice(E[5:11])] for _ in range(150)]):
        if i % 60 == 59:
            out.append(s.c); s = Ses(r)
        o = 'b%d' % i
        s.add('w.new', o=o, b=b, via=('cstr', 'str')[i % 2]); s.add('w.obs', o=o, probe=1)
    out.append(s.c)
    return out


def huge_C02(r):
    out = []
    for k in (8, 16):
        s = Ses(r)
        w = [x for x in runs_word(r, past(r, k)) if not 0xd800 <= x < 0xe000]
        w += [97] * max(0, past(r, k) - len(w))
        ws = [w, w[:-1], w[:-1] + [w[-1] + 1], w[:-1] + [w[-1] - 1], [w[0] + 1] + w[1:], w + [97] * 3, w[:len(w) - 65536] if len(w) > 65536 else w[:len(w) - 256] if len(w) > 256 else w[:1]]
        for i, x in enumerate(ws):
            s.add('w.let', o='w%d' % i, l=x)
        for i in range(len(ws)):
            s.add('w.cmp', o='w0', s='w%d' % i); s.add('w.cmp', o='w%d' % i, s='w0'); s.add('w.cmp', o='w%d' % i, s='w%d' % r.randint(0, len(ws) - 1))
        s.add('w.join', o='j', s='w1', s2='w3'); s.add('w.obs', o='j'); s.add('w.copy', o='k', s='j'); s.add('w.cmp', o='j', s='k'); s.add('w.set', o='w2', s='k')
        s.add('w.obs', o='w2'); s.add('w.move', o='v', s='k'); s.add('w.cmp', o='v', s='j'); s.add('w.obs', o='k'); s.add('w.mset', o='w3', s='v'); s.add('w.obs', o='w3')
        s.add('w.empty', o='e'); s.add('w.set', o='w3', s='e'); s.add('w.obs', o='w3')
        out.append(s.c)
    return out


def huge_C03(r):
    out = []
    for k in (8, 15, 16):
        s = Ses(r)
        n = past(r, k)
        ts = runs_text(r, n) + [[[32], r.choice([1, past(r, k)])]] + [[u('ab\n'), r.choice([1, 300])]] + runs_text(r, past(r, k)) + [[[r.choice([32, 9, 10, 13])], r.choice([0, 1, 300])]]
        s.add('l.split', o='l', ts=ts); s.add('l.obs', o='l')
        ts = [[u(r.choice(['x ', 'aB\t', '\u00c5\n'])), past(r, k)]] + runs_text(r, 5)
        s.add('l.split', o='m', ts=ts); s.add('l.obs', o='m')
        s.add('l.copy', o='c', s='m'); s.add('l.add', o='c', w=[98]); s.add('l.cmp', o='c', s='m'); s.add('l.obs', o='m'); s.add('l.move', o='d', s='c'); s.add('l.obs', o='d')
        s.add('l.split', o='x', ts=runs_text(r, past(r, k)) + [[[255], 1]]); s.add('l.obs', o='x', probe=1)
        out.append(s.c)
    s = Ses(r)     # every short text over blanks and characters
    A = [[32], [10], [9], [13], [97], [66], [0xc3, 0x89], [255]]
    alls = [[]]
    for n in range(4):
        alls += [a + [x] for a in alls if len(a) == n for x in A]
    for i, a in enumerate([a for a in alls if len(a) < 3] + r.sample([a for a in alls if len(a) >= 3], 350)):
        if i % 60 == 59:
            out.append(s.c); s = Ses(r)
        o = 't%d' % i
        s.add('l.split', o=o, b=sum(a, [])); s.add('l.obs', o=o, probe=1)
    out.append(s.c)
    return out


def huge_C04(r):
    out = []
    for k in (8, 15, 16):
        s = Ses(r)
        w = runs_word(r, past(r, k))
        s.add('w.let', o='w', l=w); s.add('w.obs', o='w', u=1)
        z = utf8_len(w)
        for n in sorted({0, 1, z & 255, z & 65535, (z + 1) & 65535, z - 1, z, z + 1, z + 300, 65535, 65536}):
            s.add('w.utf8', o='w', n=n, via=r.choice(['cstr', 'c']))
        s.add('w.new', o='v', ts=runs_text(r, past(r, k))); s.add('w.obs', o='v', u=1)
        out.append(s.c)
    return out


def wide(r, n):
    """an alphabet of n letters, in no order"""
    return r.sample(range(0x100, 0xd7ff), n)


def letters_after(r, o, new):
    """a store or dictionary with thousands of letters after the same beginning"""
    s = Ses(r)
    s.add(new, o=o)
    lo, n, ln = r.randint(0x100, 0x1000), r.choice([8200, 8200, 17000, 33000]) + r.randint(0, 300), r.choice([1, 2, 3])
    ab = [lo, lo + n - 1]
    at = n * r.randint(0, 40) if ln > 1 else 0
    if o == 's':
        s.add('s.id', o=o, w=[97]); s.add('s.fam', o=o, ab=ab, len=ln, **{'from': at}, n=n)
    else:
        s.add('i.ins', o=o, w=[97], id=5); s.add('i.fam', o=o, ab=ab, len=ln, **{'from': at}, n=n, id=10)
    first = [lo + at // n // n, lo + at // n % n] if ln == 3 else [lo + at // n] if ln == 2 else []
    js = [0, 1, 255, 256, 1023, 1024, 2047, 2048, 4094, 4095, 4096, 4097, 4098, 8190, 8191, 8192, 8193, n - 2, n - 1] + [r.randint(0, n - 1) for _ in range(10)] + [j for j in (16384, 32767, 32768, 32769) if j < n]
    for j in js:
        w = first + [lo + j]
        if o == 's':
            s.add('s.has', o=o, w=w); s.add('s.id', o=o, w=w); s.add('s.word', o=o, id=j + 1); s.add('s.has', o=o, w=w + [97])
        else:
            s.add('i.has', o=o, w=w); s.add('i.has', o=o, w=w + [97])
    if o == 's':
        s.add('s.has', o=o, w=first + [lo + n]); s.add('s.has', o=o, w=first + [lo - 1]); s.add('s.id', o=o, w=first + [lo + n]); s.add('s.id', o=o, w=first + [lo + n])
    else:
        s.add('i.has', o=o, w=first + [lo + n]); s.add('i.has', o=o, w=first + [lo - 1])
        s.add('i.ins', o=o, w=first + [lo + n], id=n + 20); s.add('i.ins', o=o, w=first + [lo + n], id=n + 20)
        s.add('i.has', o=o, w=first + [lo + n])
        s.add('i.stat', o=o, ids=[5, n + 20] + sorted(set(10 + j for j in js)))
    return s.c


def huge_C05(r):
    out = []
    s = Ses(r)      # very many letters after the same beginning
    s.add('s.new', o='s'); s.add('s.id', o='s', w=[97])
    a = wide(r, r.choice([257, 300, 520]))
    for ln, at, n in ((2, 0, len(a)), (2, len(a) * 3, len(a) + 20), (1, 0, len(a))):
        s.add('s.fam', o='s', a=a, len=ln, **{'from': at}, n=n)
        for j in [0, 1, n // 2, n - 2, n - 1] + [r.randint(0, n - 1) for _ in range(8)]:
            w = fam(a, ln, at + j)
            s.add('s.has', o='s', w=w); s.add('s.id', o='s', w=w); s.add('s.has', o='s', w=w + [97])
    for i in [0, 1, 2, 255, 256, 257, 258, 3000] + [r.randint(0, 1000) for _ in range(6)]:
        s.add('s.word', o='s', id=i); s.add('s.hasid', o='s', id=i)
    s.add('s.has', o='s', w=[98]); s.add('s.id', o='s', w=[98])
    out.append(s.c)
    out.append(letters_after(r, 's', 's.new'))
    s = Ses(r)      # very many words
    s.add('s.new', o='s'); s.add('s.id', o='s', w=[120])
    a, ln = r.choice([(list(range(97, 123)), 4), (wide(r, 9), 6), ([97, 98, 99], 11)])
    s.add('s.fam', o='s', a=a, len=ln, **{'from': 100}, n=66000)
    s.add('s.id', o='s', w=[120]); s.add('s.id', o='s', w=[121])
    for j in (0, 1, 254, 255, 256, 32766, 32767, 65533, 65534, 65535, 65536, 65537, 65999):
        s.add('s.id', o='s', w=fam(a, ln, 100 + j)); s.add('s.word', o='s', id=j + 1); s.add('s.word', o='s', id=j); s.add('s.has', o='s', w=fam(a, ln, 100 + j))
    s.add('s.hasid', o='s', id=66001); s.add('s.hasid', o='s', id=66002); s.add('s.hasid', o='s', id=65536); s.add('s.has', o='s', w=fam(a, ln, 99))
    out.append(s.c)
    s = Ses(r)      # very long words
    s.add('s.new', o='s')
    w = runs_word(r, past(r, 16)); v = runs_word(r, past(r, 8))
    for x in (w, v, w[:-1] if not 0xdc00 <= w[-1] < 0xe000 else w[:-2], v + [97], v):
        s.add('s.id', o='s', w=x); s.add('s.has', o='s', w=x)
    s.add('s.has', o='s', w=w + [97]); s.add('s.word', o='s', id=0); s.add('s.word', o='s', id=1); s.add('s.word', o='s', id=3)
    out.append(s.c)
    return out


def huge_C06(r):
    out = []
    s = Ses(r)
    s.add('i.new', o='i'); s.add('i.ins', o='i', w=[97], id=5)
    a = wide(r, r.choice([257, 300, 520]))
    base, asked = 10, []
    for ln, at, n in ((2, 0, len(a)), (2, len(a) * 3, len(a) + 20), (1, 0, len(a))):
        s.add('i.fam', o='i', a=a, len=ln, **{'from': at}, n=n, id=base)
        for j in [0, 1, n // 2, n - 2, n - 1] + [r.randint(0, n - 1) for _ in range(8)]:
            w = fam(a, ln, at + j)
            s.add('i.has', o='i', w=w); s.add('i.has', o='i', w=w + [97]); asked.append(base + j)
        base += n
        s.add('i.stat', o='i', ids=asked + [1, 2, 9])
    out.append(s.c)
    out.append(letters_after(r, 'i', 'i.new'))
    s = Ses(r)      # very many words, and one word very many times
    s.add('i.new', o='i')
    a, ln = r.choice([(list(range(97, 123)), 4), (wide(r, 9), 6)])
    s.add('i.fam', o='i', a=a, len=ln, **{'from': 7}, n=66000, id=3)
    for j in (0, 255, 256, 32767, 65532, 65533, 65534, 65999):
        s.add('i.has', o='i', w=fam(a, ln, 7 + j))
    s.add('i.has', o='i', w=fam(a, ln, 6)); s.add('i.has', o='i', w=fam(a, ln, 7 + 66000))
    s.add('i.stat', o='i', ids=[2, 3, 4, 258, 259, 65535, 65536, 65537, 66002, 66003])
    for _ in range(270):
        s.add('i.ins', o='i', w=L('again'), id=70000)
    s.add('i.ins', o='i', w=L('twice'), id=70001); s.add('i.ins', o='i', w=L('twice'), id=70001)
    s.add('i.stat', o='i', ids=[70000, 70001, 3, 70002])
    w = runs_word(r, past(r, 16))
    s.add('i.ins', o='i', w=w, id=80000); s.add('i.has', o='i', w=w); s.add('i.has', o='i', w=w + [97]); s.add('i.has', o='i', w=w[:1] if w[0] < 0xd800 else w[:2]); s.add('i.stat', o='i', ids=[80000])
    out.append(s.c)
    return out


def huge_C07(r):
    out = []
    s = Ses(r)     # wide dictionaries, words longer than a byte counts
    s.add('i.new', o='i'); s.add('e.new', o='e'); s.add('q.new', o='q')
    a = wide(r, 270)
    s.add('i.fam', o='i', a=a, len=2, **{'from': 0}, n=len(a), id=10)
    s.add('i.fam', o='i', a=a, len=1, **{'from': 0}, n=len(a), id=1000)
    for x in r.sample(a, 2) + [a[-1]]:
        s.add('e.set', o='e', x=x, y=r.choice(a), e=r.choice([20, 255, 256]))
    for q in ([a[0], a[-1]], [a[-1]], [a[5]], [97, a[256]], [a[0], r.choice(a)]):
        s.add('i.find', o='i', q=q, e='e', max=r.choice([0, 99, 100]), s='q'); s.add('q.clear', o='q')
    out.append(s.c)
    s = Ses(r)
    s.add('i.new', o='i'); s.add('e.new', o='e'); s.add('q.new', o='q')
    n = r.choice([130, 257])
    w = words_for(r, [97, 98, 99], 1, n, n)[0]
    v = list(w); v[n // 2], v[n // 2 + 1] = 100, v[n // 2]
    ws = [w[1:], v, [97]] if n > 200 else [w, v, w[1:], w[:n - 1], [97]]
    for i, x in enumerate(ws):
        s.add('i.ins', o='i', w=x, id=i)
    s.add('e.val', o='e', k='endd', v=r.choice([1, 100])); s.add('e.set', o='e', x=97, y=100, e=r.choice([1, 300]))
    for q in (w, v[:-1] + [100])[:1 if n > 200 else 2]:
        s.add('i.find', o='i', q=q, e='e', max=r.choice([100, 400, 30000]), s='q'); s.add('q.clear', o='q')
    out.append(s.c)
    return out


def huge_C08(r):
    out = huge_C07(r)[:1]
    s = Ses(r)
    s.add('i.new', o='i'); s.add('e.new', o='e'); s.add('q.new', o='q')
    a, ln = list(range(97, 123)), 4
    s.add('i.fam', o='i', a=a, len=ln, **{'from': 7}, n=66000, id=3)
    for j in (0, 255, 65535, 65999, r.randint(0, 65999)):
        s.add('i.find', o='i', q=fam(a, ln, 7 + j), e='e', max=r.choice([0, 99, 100, 199]), s='q')
        if r.random() < .3:
            s.add('q.clear', o='q')
    s.add('i.find', o='i', q=[97, 97, 97], e='e', max=100, s='q'); s.add('q.obs', o='q')
    out.append(s.c)
    return out


def huge_C09(r):
    s = Ses(r)     # more groups than a byte counts, and one of more letters than that
    s.add('e.new', o='e')
    pool = wide(r, 900)
    n = r.choice([257, 270, 300])
    for i in range(n):
        s.add('e.grp', o='e', l=pool[2 * i:2 * i + 2], e=r.choice([30, 30, i % 200]))
    ps = [[pool[2 * i], pool[2 * j]] for i in range(0, n, 9) for j in (i + 256, i - 256, i + 1, i + 128) if 0 <= j < n] + [[pool[2 * i], pool[2 * i + 1]] for i in range(0, n, 5)]
    s.add('e.err', o='e', ps=ps[:200] + [[pool[2 * i], pool[2 * (i + 256)]] for i in range(n - 256)]); s.add('e.ing', o='e', l=pool[:2 * n + 10:7])
    g = pool[2 * n:2 * n + 280]
    s.add('e.grp', o='e', l=g, e=44)
    s.add('e.err', o='e', ps=[[g[0], g[-1]], [g[255], g[256]], [g[0], pool[0]], [g[1], pool[2]]]); s.add('e.ing', o='e', l=g[::20] + [g[-1]])
    s.add('e.clr', o='e'); s.add('e.err', o='e', ps=ps[:20]); s.add('e.ing', o='e', l=pool[::50])
    out = [s.c]
    s = Ses(r)     # very many pairs
    s.add('e.new', o='e')
    ls = wide(r, 20) + r.sample(range(0x61, 0x200), 15)
    kept = []
    for i in range(330):
        x, y = r.choice(ls), r.choice(ls)
        kept.append([x, y]); s.add('e.set', o='e', x=x, y=y, e=r.choice([i, 0, 70000 + i]))
    s.add('e.err', o='e', ps=kept[:250]); s.add('e.err', o='e', ps=all_pairs(ls)[:400])
    return out + [s.c]


def huge_C10(r):
    out = huge_C09(r)[:1]
    for d in r.sample(['long', 'longer', 'longest', 'lines', 'longbad'], 5):
        s = Ses(r)
        s.add('e.new', o='e')
        c = LONGDIRS[d]
        probe = []
        for g in c:
            probe += g[:2] + g[20:22] + g[40:44] + g[60:70:3] + g[83:88] + g[126:130] + g[168:174] + g[253:258] + g[338:344] + g[-3:]
        probe = list(dict.fromkeys(probe))[:220]
        if r.random() < .3:
            s.add('e.std', o='e', dir=d)
        else:
            s.add('e.acc', o='e', g='latin', dir=d)
        s.add('e.ing', o='e', l=probe + [97, 0x3b1])
        s.add('e.err', o='e', ps=some_pairs(r, probe, 150) + [[a, b] for g in c[:60] for a in (g[0], g[-1]) for b in (g[0], g[len(g) // 2], g[-1])][:200])
        if r.random() < .5:
            s.add('e.acc', o='e', g='greek', dir=d); s.add('e.ing', o='e', l=probe[::3])
        out.append(s.c)
    return out


def _long_groups():
    r = random.Random(7)
    ls = r.sample([c for c in range(0x4e00, 0x9f00)], 9000)
    take = lambda n: [ls.pop() for _ in range(n)]
    return {'long': [take(3), take(45), take(5), take(90), take(2), take(44)], 'longer': [take(130), take(4), take(400), take(3)],
            'longest': [take(2), take(1500), take(2), take(700)], 'lines': [take(r.choice([1, 2, 3])) for _ in range(330)],
            'longbad': [take(4), take(200), take(3)]}


LONGDIRS = _long_groups()


def long_dirs():
    """the text of the data files with long or many lines: name -> (latin, greek)"""
    out = {}
    for k, gs in LONGDIRS.items():
        lines = [''.join(map(chr, g)).encode() for g in gs]
        if k == 'longbad':
            lines[1] = lines[1][:500] + b'\xff' + lines[1][501:]
        out[k] = (b'\n'.join(lines) + (b'\n' if k != 'longer' else b''), '\u03b1\u03ac\n'.encode())
    for f in MORE_DIRS:
        out.update(f())
    return out


def huge_match(r, online=False):
    """very many different words in a matcher with several fields"""
    s = Ses(r)
    s.add('m.new', o='m')
    a = list(range(97, 97 + 12))
    for i in range(3):
        s.add('d.new', o='d%d' % i, id=i + 1); s.add('c.new', o='c%d' % i)
    take = lambda at, n: ' '.join(''.join(map(chr, fam(a, 3, j))) for j in range(at, at + n))
    at = r.randint(0, 50)
    s.add('d.new', o='z', id=9); s.add('c.new', o='y')      # the fields first
    for f in ('name', 'body', 'tag'):
        s.add('d.text', o='z', f=L(f), b=u('zz'))
    s.add('c.add', o='y', s='z'); s.add('m.idx', o='m', s='y')
    s.add('d.text', o='d0', f=L('name'), b=u(take(at, 40))); s.add('d.text', o='d0', f=L('body'), b=u(take(at + 20, 1150)))
    s.add('d.text', o='d1', f=L('body'), b=u(take(at + 600, 500))); s.add('d.text', o='d1', f=L('name'), b=u(take(at + 1100, 100)))
    s.add('d.text', o='d2', f=L('tag'), b=u(take(at + 1000, 120))); s.add('d.text', o='d2', f=L('name'), b=u(take(at + 10, 3)))
    for i in range(3):
        s.add('c.add', o='c%d' % i, s='d%d' % i); s.add('m.idx', o='m', s='c%d' % i)
    for i, j in enumerate([at + r.randint(10, 12), at + r.randint(20, 39), at + r.randint(600, 900), at + r.randint(1040, 1060), at + r.randint(1100, 1140)]):
        w = ''.join(map(chr, fam(a, 3, j)))
        if online:
            s.add('m.online', o='m', q=[L(w)], f=L(r.choice(['name', 'body', 'tag'])))
        else:
            s.add('m.match', o='m', q=[L(w)] + ([L(w[:2] + 'z')] if i == 3 else []), via='wl')
    return s.c


def huge_docs(r):
    """more documents than 16 bits count, all alike, and a few others"""
    s = Ses(r)
    s.add('m.new', o='m'); s.add('c.new', o='c')
    n = r.choice([65536, 66000])
    first = 30 + r.randint(0, 100)
    s.add('d.new', o='d', id=first); s.add('d.text', o='d', f=L('t'), b=u('same word'))
    s.add('d.new', o='x', id=3); s.add('d.text', o='x', f=L('t'), b=u('same other')); s.add('d.text', o='x', f=L('n'), b=u('same'))
    s.add('c.add', o='c', s='x'); s.add('c.add', o='c', s='d', n=n)
    s.add('m.idx', o='m', s='c')
    for q in ('other', 'word', 'sama'):
        s.add('m.match', o='m', q=[L(q)], via='wl')
    return s.c


def huge_counts(r):
    """a word more often than 16 bits count, in one field"""
    s = Ses(r)
    s.add('m.new', o='m'); s.add('c.new', o='c')
    k = past(r, 16)
    s.add('d.new', o='d', id=4); s.add('d.text', o='d', f=L('t'), ts=[[u('aa '), k], [u('bb '), past(r, 8)], [u('cc'), 1]])
    s.add('d.new', o='e', id=5); s.add('d.text', o='e', f=L('t'), ts=[[u('dd '), 65536 + 1], [u('cc '), 1]]); s.add('d.text', o='e', f=L('n'), b=u('aa bb cc'))
    s.add('d.new', o='g', id=6); s.add('d.text', o='g', f=L('t'), ts=[[u('cc '), 257], [u('ee '), 65536 - 256]])
    for o in 'deg':
        s.add('c.add', o='c', s=o)
    s.add('m.idx', o='m', s='c')
    for q in ('aa', 'bb', 'cc', 'dd', 'ee'):
        s.add('m.match', o='m', b=u(q), via='cstr')
        s.add('m.online', o='m', q=[L(q)], f=L('t'))
    s.add('m.idx', o='m', s='c'); s.add('m.match', o='m', b=u('bb dd'), via='cstr')
    return s.c


def huge_C13(r):
    return [huge_match(r), huge_match(r), huge_docs(r)]


def huge_C14(r):
    return [huge_counts(r)]


def huge_C20(r):
    return [huge_counts(r), huge_match(r, True)]


def huge_C18(r):
    s = Ses(r, keep=True)    # a long field counts the same however it is split over calls
    k = past(r, 16)
    ts = [[u('aa '), k], [u('bb '), 3], [u('cc'), 1]]
    for m in '12':
        s.add('m.new', o='m' + m); s.add('d.new', o='d' + m, id=4); s.add('c.new', o='c' + m)
        s.add('d.text', o='d' + m, f=L('t'), ts=ts); s.add('c.add', o='c' + m, s='d' + m)
        s.add('d.new', o='e' + m, id=5); s.add('d.text', o='e' + m, f=L('t'), b=u('bb dd'))
    s.add('c.add', o='c1', s='e1'); s.add('m.idx', o='m1', s='c1')
    s.add('m.idx', o='m2', s='c2'); s.add('c.new', o='c3'); s.add('c.add', o='c3', s='e2'); s.add('m.idx', o='m2', s='c3')
    for q in ('aa', 'bb cc', 'dd'):
        for m in '12':
            s.add('m.match', o='m' + m, b=u(q), via='cstr')
    return [s.c]


def huge_C19(r):
    out = []
    for k in (8, 16):
        s = Ses(r)
        ts = [[u('aa '), past(r, k)], [u('bb '), past(r, k)], [u('cc'), 1], [u('cc\n'), past(r, 8)]] + runs_text(r, past(r, k))
        s.add('d.new', o='d', id=3); s.add('d.text', o='d', f=L('t'), ts=ts, via=r.choice(['cstr', 'str'])); s.add('d.text', o='d', f=L('u'), ts=ts[:1] + [[u('zz'), 1]])
        for w in ('aa', 'bb', 'cc', 'cccc', 'dd'):
            s.add('d.cnt', o='d', w=L(w), f=L('t'))
        s.add('d.cnt', o='d', w=L('aa'), f=L('x')); s.add('d.obs', o='d'); s.add('d.copy', o='e', s='d')
        s.add('d.text', o='d', f=L('t'), b=u('short')); s.add('d.cnt', o='d', w=L('aa'), f=L('t')); s.add('d.cnt', o='e', w=L('aa'), f=L('t')); s.add('d.get', o='e', f=L('t'))
        out.append(s.c)
    s = Ses(r)
    s.add('c.new', o='c'); s.add('d.new', o='d', id=30); s.add('d.text', o='d', f=L('t'), b=u('a b'))
    for i in range(270):
        s.add('d.text', o='d', f=L('f%d' % i), b=u('w%d' % (i % 3)))
    s.add('d.n', o='d'); s.add('d.cnt', o='d', w=L('w1'), f=L('f1')); s.add('d.obs', o='d'); s.add('d.new', o='e', id=40); s.add('d.text', o='e', f=L('t'), b=u('A b'))
    s.add('c.add', o='c', s='e', n=300); s.add('c.add', o='c', s='d'); s.add('c.obs', o='c')
    out.append(s.c)
    return out


def huge_C15(r):
    s = Ses(r)
    for o in 'ab':
        s.add('r.new', o=o)
    n = r.choice([65536, 65537, 66000])
    s.add('r.add', o='a', id=100, k=r.randint(2, 14), n=n); s.add('r.add', o='a', id=5, k=r.randint(1, 15)); s.add('r.add', o='a', id=6, k=8)
    for i in (0, 256, 65536, n + 1, n + 2):
        s.add('r.read', o='a', i=i)
    s.add('r.add', o='b', id=7, k=3, n=257); s.add('r.add', o='b', id=9, k=11); s.add('r.obs', o='b'); s.add('r.copy', o='c', s='b')
    s.add('r.all', o='c', s='a'); s.add('r.one', o='b', s='a', i=65535); s.add('r.obs', o='b')
    for i in (258, n + 260, n + 261):
        s.add('r.read', o='c', i=i)
    s.add('r.obs', o='c')
    return [s.c]


def huge_C16(r):
    s = Ses(r)
    s.add('p.new', o='p')
    fs = [L('f%d' % i) for i in range(300)]
    for f in fs:
        s.add('p.nos', o='p', f=f)
    s.add('p.obs', o='p', fs=fs[::9] + fs[-3:] + [L('g'), L('f300')])
    for t in range(270):
        s.add('f.sub', o='p', f=L('t%d' % (t % 7)), w=L('w%d' % t)); s.add('f.term', o='p')
    for t in range(270):
        s.add('f.sub', o='p', f=L('t'), w=L('v%d' % t))
    s.add('f.obs', o='p')
    s.add('m.new', o='m'); s.add('c.new', o='c')
    for i in range(4):
        s.add('d.new', o='d%d' % i, id=i + 1)
        s.add('d.text', o='d%d' % i, f=L('t'), b=u('word ' + ' '.join('v%d' % t for t in range(270 if i == 1 else 269 if i == 2 else 3))))
        s.add('d.text', o='d%d' % i, f=L('t%d' % i), b=u('w%d w%d' % (r.randint(0, 269), i + 259)))
        s.add('c.add', o='c', s='d%d' % i)
    s.add('m.idx', o='m', s='c')
    s.add('m.match', o='m', q=[L('word')], via='wl', p='p', base=1, nos=fs)
    return [s.c]


def huge_C21(r):
    s = Ses(r)
    for i in range(2):
        ts = runs_text(r, past(r, (8, 16)[i]))[-3:]
        s.add('w.new', o='w%d' % i, ts=ts, via='c'); s.add('w.obs', o='w%d' % i, via='c', u=1); s.add('w.new', o='v%d' % i, ts=ts); s.add('w.obs', o='v%d' % i, u=1)
        s.add('w.utf8', o='w%d' % i, via='c', n=past(r, 16)); s.add('w.utf8', o='v%d' % i, n=past(r, 16))
    for via, o in (('c', '1'), ('cstr', '2')):
        s.add('m.new', o='m' + o, via=via); s.add('c.new', o='c' + o, via=via); s.add('d.new', o='d' + o, id=4, via=via)
        s.add('d.text', o='d' + o, f=L('t'), ts=[[u('aa '), 300], [u('bb '), 2], [u('c'), 65537]], via=via); s.add('c.add', o='c' + o, s='d' + o, via=via)
        s.add('d.new', o='e' + o, id=34, via=via); s.add('d.text', o='e' + o, f=L('t'), b=u('aa bb'), via=via)
        if via == 'c':
            s.add('c.add', o='c' + o, s='e' + o, via=via)
        else:
            s.add('c.add', o='c' + o, s='e' + o)
        s.add('m.idx', o='m' + o, s='c' + o, via=via); s.add('d.obs', o='d' + o)
    for q in ([[u('aa '), 257]], [[u('bb '), 3], [u('z'), 300]]):
        s.add('m.match', o='m1', ts=q, via='c'); s.add('m.match', o='m2', ts=q, via='cstr')
    return [s.c]


HUGE = {k[5:]: v for k, v in list(globals().items()) if k.startswith('huge_C')}


def huge_sessions(prop, r, n):
    f = HUGE.get(prop)
    return sum([f(r) for _ in range(n)], []) if f else []



# ---------------------------------------------------------------- C25: independence
def actor(r, tag, size=1.0):
    """one actor's session: uses its own objects only, names carry the tag"""
    kinds = [lambda: matcher_session(r), lambda: find_session(r, True), lambda: sessions_C05(r, 1, 0)[0],
             lambda: sessions_C15(r, 1)[0], lambda: sessions_C19(r, 1)[0], lambda: sessions_C02(r, 1)[0],
             lambda: sessions_C09(r, 1)[0], lambda: sessions_C03(r, 1)[0], lambda: sessions_C06(r, 1, 0)[0],
             lambda: sessions_C10(r, 1, 0)[0], lambda: sessions_C20(r, 1)[0], lambda: sessions_C21(r, 1)[0],
             lambda: sessions_C01(r, 1)[0], lambda: sessions_C04(r, 1)[0], lambda: sessions_C16(r, 1)[0],
             lambda: sessions_C12(r, 1)[0], lambda: sessions_C05(r, 1, 1)[1], lambda: sessions_C26(r, 1)[0]]
    if r.random() < .15:
        kinds = [lambda: BIG[r.choice(sorted(set(BIG) - {'C22', 'C23', 'C24'}))](r)]
    cs = kinds[r.randrange(len(kinds))]() if r.random() < .75 else kinds[0]()
    return tagged(cs, tag)


def tagged(cs, tag):
    """the calls of a session on objects of another name"""
    cs = [dict(c) for c in cs[1:]]
    for c in cs:
        if 'dir' in c:          # the environment, which threads share, is not touched
            c['dir'] = 'small'
        for k in ('o', 's', 's2', 'p'):
            if isinstance(c.get(k), str):
                c[k] = tag + c[k]
        if isinstance(c.get('e'), str):
            c['e'] = tag + c['e']
    return cs


def units_C25(r, n):
    """actors that share nothing, and one interleaving of them"""
    out = []
    for k in range(n):
        acts = [actor(r, 't%d' % i) for i in range(r.choice([2, 3, 3, 4]))]
        if r.random() < .3:         # two of a kind
            acts.append([dict(c, **{f: 'v' + c[f] for f in ('o', 's', 's2', 'p') if isinstance(c.get(f), str)},
                              **({'e': 'v' + c['e']} if isinstance(c.get('e'), str) else {})) for c in acts[0]])
        out.append((acts, interleaved(r, acts)))
    return out


def interleaved(r, acts):
    left = [list(a) for a in acts]
    mix = []
    while any(left):
        a = r.choice([x for x in left if x])
        for _ in range(r.choice([1, 1, 2, 5])):
            if a:
                mix.append(a.pop(0))
    return mix


def life(r, kind):
    """a few calls on objects of one kind, with very few values, so that lives resemble each other"""
    s = Ses(r)
    ws = [[97], [98], [97, 98], [98, 97]]
    if kind == 'store':
        s.add('s.new', o='s')
        for _ in range(r.randint(3, 7)):
            x = r.random()
            if x < .7:
                s.add('s.id', o='s', w=r.choice(ws))
            elif x < .85:
                s.add('s.has', o='s', w=r.choice(ws))
            else:
                s.add('s.word', o='s', id=r.randint(0, 2))
    elif kind == 'dict':
        s.add('i.new', o='i'); s.add('e.new', o='e'); s.add('q.new', o='q')
        ids = r.sample([1, 2, 3, 4], 4)
        for _ in range(r.randint(3, 8)):
            x = r.random()
            k = r.randrange(4)
            if x < .4:
                s.add('i.ins', o='i', w=ws[k], id=ids[k])
            elif x < .5:
                s.add('i.has', o='i', w=ws[k])
            elif x < .6:
                s.add('i.stat', o='i', ids=[1, 2, 3, 4])
            elif x < .75:
                s.add('e.set', o='e', x=97, y=98, e=r.choice([0, 40]))
            else:
                s.add('i.find', o='i', q=ws[k], e='e', max=r.choice([0, 100, 200]), s='q')
                if r.random() < .5:
                    s.add('q.clear', o='q')
    elif kind == 'err':
        s.add('e.new', o='e')
        for _ in range(r.randint(3, 7)):
            x = r.random()
            if x < .4:
                s.add('e.set', o='e', x=r.choice([97, 98]), y=r.choice([98, 99, 0x3b1]), e=r.choice([0, 40]))
            elif x < .6:
                s.add('e.grp', o='e', l=r.choice([[97, 98], [98, 99, 0x3b1]]), e=r.choice([10, 40]))
            elif x < .7:
                s.add(r.choice(['e.clr', 'e.kbd', 'e.sub']), o='e')
            else:
                s.add('e.err', o='e', ps=[[97, 98], [98, 99], [97, 0x3b1], [98, 0x3b1], [99, 98]]); s.add('e.ing', o='e', l=[97, 98, 99, 0x3b1]); s.add('e.vals', o='e')
    elif kind == 'match':
        s.add('m.new', o='m')
        for k in range(r.randint(1, 2)):
            s.add('c.new', o='c%d' % k)
            for d in range(r.randint(1, 2)):
                o = 'd%d%d' % (k, d)
                s.add('d.new', o=o, id=1 + k + 2 * d)
                for f in r.sample('tn', r.randint(1, 2)):
                    s.add('d.text', o=o, f=L(f), b=u(r.choice(['ab', 'abc', 'ab abc', 'bac abc abc'])))
                s.add('c.add', o='c%d' % k, s=o)
            s.add('m.idx', o='m', s='c%d' % k)
            for _ in range(r.randint(1, 4)):
                x = r.random()
                if x < .2:
                    s.add('x.set', o='m', f=L(r.choice('tn')), v=r.choice([0, 2]))
                elif x < .3:
                    s.add('e.set', o='m', x=97, y=98, e=40)
                elif x < .4:
                    s.add('m.online', o='m', q=[L(r.choice(['ab', 'abc']))], f=L(r.choice('tn')))
                else:
                    s.add('m.match', o='m', q=[L(r.choice(['ab', 'abc', 'bac'])) for _ in range(r.choice([1, 1, 2]))], via='wl')
    elif kind == 'res':
        s.add('r.new', o='r'); s.add('r.new', o='t')
        for _ in range(r.randint(3, 8)):
            x = r.random()
            if x < .6:
                s.add('r.add', o=r.choice('rt'), id=r.randint(1, 3), k=r.choice([3, 5, 8]))
            elif x < .7:
                s.add('r.all', o='r', s='t')
            else:
                s.add('r.obs', o=r.choice('rt'))
    elif kind == 'doc':
        s.add('d.new', o='d', id=r.randint(1, 3)); s.add('c.new', o='c')
        for _ in range(r.randint(3, 7)):
            x = r.random()
            if x < .5:
                s.add('d.text', o='d', f=L(r.choice('tn')), b=u(r.choice(['a', 'a b', 'b b a', ''])))
            elif x < .6:
                s.add('c.add', o='c', s='d'); s.add('c.obs', o='c')
            elif x < .8:
                s.add('d.cnt', o='d', w=L(r.choice('ab')), f=L(r.choice('tn')))
            else:
                s.add('d.obs', o='d')
    else:
        for i in range(r.randint(2, 4)):
            s.add('w.new', o='w%d' % i, b=u(r.choice(['a', 'ab', 'B', '\u00c5', 'abcdefghijklmnopqrstuvwxyz'])) + r.choice([[], [], [255]])); s.add('w.obs', o='w%d' % i, probe=1)
            s.add('l.split', o='l%d' % i, b=u(r.choice(['a b', 'b', 'ab a b', '']))); s.add('l.obs', o='l%d' % i)
    return s.c


def lives_C25(r, behaviours, alone, lives):
    """short lives after one another: what an object leaves behind, its address included, is met by the next"""
    out = []
    kinds = {k: [life(r, k) for _ in range(alone)] for k in ('store', 'dict', 'err', 'match', 'res', 'doc', 'text')}
    kinds['all'] = [r.choice(b) for b in behaviours.values() for _ in range(alone // 4)]
    for kind in sorted(kinds):
        acts = [tagged(finish(list(b), r)[:-1], 'a') for b in kinds[kind]]
        mix = []
        for k in range(lives):
            b = r.choice(kinds[kind])
            mix += tagged(finish(list(b), r)[:-1] if r.random() < .9 else list(b), 't%d' % k)
        out.append((acts, mix))
    return out


# ---------------------------------------------------------------- C24: the Python module
def stable(f):
    """fields whose letters folding leaves alone, so that they can be given as text"""
    return fold(f) == f


def sessions_C24(r, n):
    """histories in what the Python module offers"""
    out = []
    for k in range(n):
        s = Mat(r)
        s.fields = [f for f in s.fields if stable(f)] or ['title', 'body']
        for i in range(3):
            o = s.name('w'); s.add('w.new', o=o, b=[x for x in text_bytes(r) if x]); s.add('w.obs', o=o, u=1, probe=1)
        o = s.name('w'); s.add('w.new', o=o, b=u('plain')); s.add('w.obs', o=o, u=1)
        for i in range(3):
            t = []
            for _ in range(r.randint(0, 4)):
                t += u(r.choice(WS)) + [x for x in text_bytes(r) if x]
            o = 'z%d' % i
            s.add('l.split', o=o, b=t); s.add('l.obs', o=o, probe=1)
        for i in range(2):
            o = s.name('l'); s.add('l.split', o=o, b=u(' '.join(''.join(c for c in clean_text(r, 1, 4) if c not in WS) or 'x'
                                                                for _ in range(r.randint(1, 4)))))
        o = s.name('l'); s.add('l.new', o=o)
        for i in range(6):
            x = r.random()
            if x < .5:
                s.add('l.add', o=s.pick('l'), s=o.replace('l', 'w') if False else s.live['w'][-1])
            else:
                a = s.pick('l'); o = s.name('l'); s.add('l.copy', o=o, s=a)
            s.add('l.obs', o=s.pick('l'))
        a = s.pick('l'); s.live['l'].remove(a); s.add('l.drop', o=a)
        for m in range(r.choice([1, 1, 2])):
            s.add('m.new', o=s.name('m'))
        x0 = s.name('x'); s.add('x.new', o=x0)
        el = r.sample([1, 65, 97, 98, 0xe4, 0xe5, 0x1ff, 0x200, 0x3b1, 0x7fff, 0x8000, 0xd800, 0xffff], 6)
        e0 = 'e0'; s.add('e.new', o=e0); s.add('e.def', o=e0)
        for i in range(3):
            s.add('e.set', o=e0, x=r.choice(el), y=r.choice(el), e=r.choice([0, 1, 30, 99, 100, 101, 250, 70000]))
        s.add('e.err', o=e0, ps=all_pairs(el))
        s.add('e.sub', o=e0); s.add('e.val', o=e0, k='endd', v=7); s.add('e.clr', o=e0)
        for ph in range(2):
            co = s.name('c'); s.add('c.new', o=co)
            for i in range(r.randint(0, 3)):
                d = s.name('d')
                s.add('d.new', o=d, id=r.choice(s.idpool)); s.add('d.id', o=d)
                for f in s.fields:
                    if r.random() < .8:
                        b = u(' '.join(r.choice(s.voc) for _ in range(r.randint(0, 4))))
                        if r.random() < .12:
                            b = b + [0x20] + list(r.choice(BAD))
                        s.add('d.text', o=d, f=L(f), b=b)
                s.add('d.n', o=d)
                if r.random() < .3:
                    d2 = s.name('d'); s.add('d.copy', o=d2, s=d)
                    s.add('d.text', o=d2, f=L(s.fields[0]), b=u('quite different'))
                for q in (d, s.pick('d')):
                    for f in s.fields + ['zz']:
                        s.add('d.get', o=q, f=L(f))
                s.add('c.add', o=co, s=d); s.add('c.obs', o=co)
            if s.n('d') and r.random() < .4:
                d = s.pick('d'); f = L(r.choice(s.fields))
                s.add('d.text', o=d, f=f, b=u('fresh words here'))
                s.live['d'].remove(d); s.add('d.drop', o=d, f=f)
            for m in s.live['m']:
                s.add('m.idx', o=m, s=co)
            for step in range(4):
                m = s.pick('m')
                h = dict(h=1) if r.random() < .5 else {}
                x = r.random()
                if x < .35:
                    s.add('x.set', o=m, f=L(r.choice(s.fields)), v=r.choice([0, 1, 2, 8, -4, 40]), **h)
                elif x < .45:
                    s.add('x.set', o=x0, f=L(r.choice(s.fields)), v=r.choice([0, 1, 2]))
                elif x < .55:
                    s.add('e.sub', o=m, **h)
                elif x < .62:
                    s.add('e.clr', o=m, **h)
                elif x < .72:
                    vl = [ord(c) for c in ''.join(s.voc) if ord(c) < 65536]; s.add('e.set', o=m, x=r.choice(vl), y=r.choice(vl), e=r.choice([0, 10, 40, 150]), **h)
                elif x < .8:
                    s.add('e.val', o=m, k='endd', v=r.choice([0, 5, 60, 200]), **h)
                elif x < .9:
                    s.add('e.std', o=m, dir=r.choice(['small', 'small/', 'missing', 'clash', 'noeol', 'default']), **h)
                for q in s.live['m'] + [x0]:
                    for f in s.fields[:2]:
                        s.add('x.get', o=q, f=L(f))
                for q in s.live['m']:
                    s.add('m.match', o=q, b=u(' '.join(s.query(0, 3))), via='cstr')
                    s.add('e.err', o=q, ps=some_pairs(r, el + [ord(c) for c in ''.join(s.voc) if ord(c) < 65536], 12))
            m = s.pick('m')
            s.add('m.match', o=m, b=u(r.choice(s.voc)) + list(r.choice(BAD)), via='cstr')
            s.add('m.match', o=m, b=u(r.choice(s.voc)), via='cstr')
            s.add('m.merge', o=m, bs=[u(' '.join(s.query(1, 2))) for _ in range(r.randint(1, 3))])
            if r.random() < .5:
                s.add('del', o=co); s.live['c'].remove(co)
            m = s.pick('m')
            s.add('m.match', o=m, b=u(' '.join(s.query(1, 2))), via='cstr')
        for m in list(s.live['m']):
            s.add('x.drop', o=m, f=L(r.choice(s.fields)))
        out.append(s.c)
    return out


# ---------------------------------------------------------------- C22 C23: storage and resources
CREATES = {'w.new', 'w.let', 'w.empty', 'w.copy', 'w.move', 'w.join', 'l.split', 'l.new', 'l.copy', 'l.move', 'd.new', 'd.copy',
           'c.new', 's.new', 'i.new', 'q.new', 'e.new', 'x.new', 'f.new', 'p.new', 'm.new', 'r.new', 'r.copy', 'r.move'}


def finish(cs, r=None):
    """Destroy everything that may be alive, then look at what is still held."""
    live = []
    for c in cs:
        if c['op'] in CREATES and c['o'] not in live:
            live.append(c['o'])
        elif c['op'] == 'del' and c['o'] in live:
            live.remove(c['o'])
    if r:
        r.shuffle(live)
    for o in live:
        cs.append(dict(op='del', o=o, probe=1))
    cs.append(dict(op='z.res'))
    return cs


def fault(r, kmax=4):
    k = dict(fault=r.randint(1, kmax))
    if r.random() < .4:
        k['stick'] = 1
    return k


def sessions_C22(r, n):
    out = []
    for k in range(n):
        kind = k % 3
        s = Ses(r)
        al = r.choice([[97, 98, 99], [97, 98], [0x61, 0x161, 0xff61], list(range(97, 123))])
        words = [valid_letters(r, 1, r.choice([3, 20, 60]), al) for _ in range(14)]
        words += [w + valid_letters(r, 1, 40, al) for w in words[:5]]
        words = [list(t) for t in dict.fromkeys(tuple(w) for w in words)]
        if kind == 0:
            for j in range(1, r.randint(2, 6)):      # creation fails at every step
                s.add('s.new', o='s', **fault(r, 3))
                s.add('s.has', o='s', w=words[0], probe=1)
                s.add('del', o='s', probe=1)
            s.add('s.new', o='s')
            if r.random() < .3:
                s.add('s.fam', o='s', a=[120, 121], len=8, **{'from': 0}, n=r.choice([10, 100, 256]))
            kept = []
            for w in words:
                for _ in range(r.choice([1, 1, 2])):
                    s.add('s.id', o='s', w=w, **fault(r, 2))
                s.add('s.has', o='s', w=w)
                for x in r.sample(kept, min(3, len(kept))):
                    s.add('s.id', o='s', w=x) if r.random() < .5 else s.add('s.has', o='s', w=x)
                if r.random() < .85:
                    s.add('s.id', o='s', w=w)
                    kept.append(w)
            for w in words:
                s.add('s.has', o='s', w=w)
            for w in kept:
                s.add('s.id', o='s', w=w)
            for i in range(0, len(words), 3):
                s.add('s.word', o='s', id=i)
        elif kind == 1:
            for j in range(1, r.randint(2, 6)):
                s.add('i.new', o='i', **fault(r, 3))
                s.add('i.has', o='i', w=words[0], probe=1)
                s.add('del', o='i', probe=1)
            s.add('i.new', o='i'); s.add('e.new', o='e'); s.add('q.new', o='q')
            kept = []
            for j, w in enumerate(words):
                s.add('i.ins', o='i', w=w, id=j, **fault(r, 2))
                if r.random() < .5:
                    s.add('i.has', o='i', w=w)
                if r.random() < .3:
                    s.add('i.find', o='i', q=r.choice(kept or words), e='e', max=r.choice([0, 100, 200]), s='q'); s.add('q.clear', o='q')
                if r.random() < .85:
                    s.add('i.ins', o='i', w=w, id=j)
                    kept.append(w)
            for w in words:
                s.add('i.has', o='i', w=w)
            for w in kept[:4]:
                s.add('i.find', o='i', q=w, e='e', max=r.choice([0, 100, 200]), s='q'); s.add('q.clear', o='q')
            s.add('i.stat', o='i', ids=list(range(len(words))))
        else:
            s = Mat(r)
            long_ = [''.join(r.choice('abcdefg') for _ in range(r.randint(5, 30))) for _ in range(6)]
            s.voc += long_
            for j in range(1, r.randint(2, 7)):
                s.add('m.new', o='m', **fault(r, 8))
                s.add('del', o='m', probe=1)
            s.add('m.new', o='m')
            for ph in range(r.randint(1, 4)):
                c = s.corpus([s.doc() for _ in range(r.randint(1, 3))])
                for _ in range(r.randint(1, 3)):
                    s.add('m.idx', o='m', s=c, **fault(r, r.choice([1, 3, 8, 14])))
                    for _ in range(2):
                        s.ask('m')
                if r.random() < .8:
                    s.add('m.idx', o='m', s=c)
                for _ in range(3):
                    s.ask('m')
        out.append(finish(s.c, r))
    return out


def sessions_C23(r, n):
    out = []
    pools = [sessions_C01, sessions_C02, sessions_C03, sessions_C04, sessions_C05, sessions_C06, sessions_C08, sessions_C09,
             sessions_C10, sessions_C13, sessions_C15, sessions_C16, sessions_C17, sessions_C18, sessions_C19, sessions_C20,
             sessions_C21, sessions_C22]
    for k in range(n):
        f = pools[k % len(pools)]
        cs = [c for c in r.choice(f(r, 2))]
        if f is not sessions_C22:
            cs = finish(cs, r)
        out.append(cs)
    # create, grow and destroy again and again
    for k in range(max(2, n // 10)):
        s = Ses(r)
        for rnd in range(4):
            a, ln, cnt = r.choice(FAMS)
            s.add('s.new', o='s'); s.add('s.fam', o='s', a=a, len=ln, **{'from': 0}, n=r.choice([cnt, cnt // 3, 5]))
            s.add('i.new', o='i'); s.add('i.fam', o='i', a=a, len=ln, **{'from': 0}, n=r.choice([cnt, cnt // 2, 9]), id=0)
            s.add('m.new', o='m'); s.add('d.new', o='d', id=1); s.add('c.new', o='c')
            s.add('d.text', o='d', f=L('t'), b=u(' '.join('w%d' % r.randint(0, 9999) for _ in range(r.choice([3, 300])))))
            s.add('c.add', o='c', s='d'); s.add('m.idx', o='m', s='c')
            s.add('m.match', o='m', b=u('w12 w345'), via='cstr')
            for o in r.sample(['s', 'i', 'm', 'd', 'c'], 5):
                s.add('del', o=o)
            s.add('z.res')
        out.append(s.c)
    # things that hold nothing, or next to nothing
    for k in range(max(3, n // 20)):
        s = Ses(r)
        for rnd in range(4):
            s.add('s.new', o='s'); s.add('i.new', o='i'); s.add('m.new', o='m'); s.add('c.new', o='c'); s.add('q.new', o='q'); s.add('e.new', o='e')
            if r.random() < .5:
                s.add('s.id', o='s', w=[])
            if r.random() < .5:
                s.add('i.ins', o='i', w=[], id=0)
            if r.random() < .5:
                s.add('i.find', o='i', q=r.choice([[], L('a')]), e='e', max=r.choice([0, 500]), s='q')
            ls = []
            for j in range(r.randint(0, 4)):
                s.add('d.new', o='d%d' % j, id=j + 1)
                for f in r.sample(['t', 'name', 'ab'], r.randint(0, 3)):
                    x = 'l%d' % len(ls)
                    ls.append(x)
                    s.add('l.new', o=x)
                    for _ in range(r.choice([0, 1, 1, 2])):
                        s.add('l.add', o=x, w=r.choice([[], [], [], L('b')]))
                    s.add('d.words', o='d%d' % j, f=L(f), s=x)
                s.add('c.add', o='c', s='d%d' % j); s.add('del', o='d%d' % j)
            for x in ls:
                s.add('del', o=x)
            s.add('m.idx', o='m', s='c')
            s.add('m.match', o='m', b=u(r.choice(['', ' ', 'b', 'a'])), via='cstr')
            if r.random() < .3:
                s.add('m.idx', o='m', s='c')
            for o in r.sample(['s', 'i', 'm', 'c', 'q', 'e'], 6):
                s.add('del', o=o)
            s.add('z.res')
        out.append(s.c)
    return out


# ---------------------------------------------------------------- behaviours generated by TLC, adapted
def keep(ss, size=40):
    """answers have to agree across sessions that reach the same abstract state"""
    for i, s in enumerate(ss):
        if i % size:
            s[0]['keep'] = 1
    return ss


def closed(ss):
    """everything destroyed at the end"""
    return [finish(s) for s in ss]


IN_C = {'w.new', 'w.obs', 'w.utf8', 'm.new', 'd.new', 'd.id', 'd.text', 'c.new', 'c.add', 'm.idx', 'x.set', 'x.get', 'e.sub', 'e.std',
        'm.match', 'r.new', 'r.obs', 'del'}


def as_text(c):
    c = dict(c)
    if c['op'] == 'm.match' and 'q' in c:
        c['b'] = u(' '.join(''.join(map(chr, w)) for w in c.pop('q')))
        c['via'] = 'cstr'
    return c


def c_twins(ss):
    """every session on twin objects, one of them through the C interface where it can"""
    out = []
    for k, s in enumerate(ss):
        t = [s[0]]
        for c in s[1:]:
            if c['op'] == 'm.match' and 'p' in c or c['op'] in ('m.online', 'w.cmp', 'e.err', 'e.vals', 'd.obs', 'c.obs'):
                if c['op'] in ('m.match', 'm.online', 'w.cmp'):
                    continue
            c = as_text(c)
            for p in ('x', 'y') if k % 2 else ('y', 'x'):
                d = {f: p + v if f in ('o', 's', 's2', 'p') else v for f, v in c.items()}
                if p == 'y' and c['op'] in IN_C:
                    d['via'] = 'c'
                elif 'via' not in d:
                    d['via'] = 'cstr'
                t.append(d)
        out.append(t)
    return out


IN_PY = {'reset', 'e.set', 'e.err', 'e.def', 'w.new', 'w.obs', 'l.split', 'l.new', 'l.copy', 'l.add', 'l.obs', 'd.new', 'd.copy', 'd.text', 'd.id', 'd.get', 'c.new', 'c.add',
         'c.obs', 'x.set', 'x.get', 'e.sub', 'e.clr', 'm.new', 'm.idx', 'm.match', 'del'}


def for_python(ss):
    """what the Python module can do of each session"""
    out = []
    for s in ss:
        t, live = [], set()
        for c in s:
            c = as_text(c)
            if c['op'] == 'w.let':
                c = dict(op='w.new', o=c['o'], b=list(bytes(b''.join(chr(x).encode('utf-16-le', 'surrogatepass') for x in c['l'])).decode('utf-16-le').encode()))
            if c['op'] == 'e.val' and c['k'] == 'endd':
                pass
            elif c['op'] not in IN_PY or 'p' in c or c['op'] == 'l.add' and 's' not in c:
                continue
            if c['op'] in CREATES:
                if 's' in c and c['s'] not in live:
                    continue
                try:
                    bad = 'b' in c and bytes(c['b']).decode() and c['op'] == 'w.new' and bool(set(c['b']) & {9, 10, 13, 32})
                except UnicodeDecodeError:
                    bad = True
                if not bad:
                    live.add(c['o'])
            elif c['op'] == 'del':
                if c['o'] not in live:
                    continue
                live.discard(c['o'])
            elif c['op'] != 'reset' and (c['o'] not in live or 's' in c and c['s'] not in live):
                continue
            t.append(c)
        out.append(t)
    return out


def unique(out):
    for i, s in enumerate(out):
        s[0]['n'] = i
    return out


def widen(ss):
    """the same sessions for a library whose letters are whole code points"""
    def letters(l):
        out, i = [], 0
        while i < len(l):
            x = l[i]
            if 0xd800 <= x < 0xdc00 and i + 1 < len(l) and 0xdc00 <= l[i + 1] < 0xe000:
                out.append(0x10000 + (x - 0xd800) * 1024 + l[i + 1] - 0xdc00); i += 1
            elif not 0xd800 <= x < 0xe000:
                out.append(x)
            i += 1
        return out
    out = []
    for s in ss:
        t = []
        for c in s:
            c = dict(c)
            for k in ('l', 'w', 'f'):
                if k in c:
                    c[k] = letters(c[k])
            if isinstance(c.get('q'), list):
                c['q'] = [letters(w) for w in c['q']] if c['op'][0] == 'm' else letters(c['q'])
            if 'fs' in c:
                c['fs'] = [letters(w) for w in c['fs']]
            if 'nos' in c:
                c['nos'] = [letters(w) for w in c['nos']]
            if 'a' in c:
                c['a'] = letters(c['a'])
            if 'ps' in c:
                c['ps'] = [p for p in c['ps'] if not any(0xd800 <= x < 0xe000 for x in p)]
            if c['op'] == 'e.set' and any(0xd800 <= c[k] < 0xe000 for k in 'xy'):
                continue
            t.append(c)
        out.append(t)
    return out
