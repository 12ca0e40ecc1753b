"""The driver's command language, carried out through the Python module.

  pydriver.py <directory with the module> [name=dir ...] < commands.ndjson > trace.ndjson
"""
import gc, json, math, os, sys
sys.path.insert(0, sys.argv[1])
import columbus as col

DIRS = dict(a.split('=', 1) for a in sys.argv[2:] if '=' in a)
DOCS = [0, 1, 2, 3, 7, 42, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x100000001, 0x100000002,
        0x200000001, 1 << 53, (1 << 53) + 1, 0x7fffffffffffffff, 0x8000000000000000, 0x8000000000000001, 0xfffffffffffffffd,
        0xfffffffffffffffe]


DOC_BASE, DOC_STEP = 0x2500000000, 0x10001     # where the table ends


def doc_id(k):
    return DOCS[k - 1] if k <= len(DOCS) else DOC_BASE + (k - len(DOCS)) * DOC_STEP


def doc_index(d):
    if d in DOCS:
        return DOCS.index(d) + 1
    k, x = divmod(d - DOC_BASE, DOC_STEP)
    return len(DOCS) + k if x == 0 and 0 < k < 100000 else 0


def score(d):
    if not -20000 < d < 20000:
        return 2000000001 if d > 0 else -2000000001
    return math.floor(d * 1e5 + 0.4999993)


def text(b):
    """text as a Python program may give it: a string; bytes if it is none"""
    b = bytes(b)
    try:
        return b.decode('utf-8')
    except UnicodeDecodeError:
        return b


def from_letters(ls):
    return b''.join(x.to_bytes(2, 'little') for x in ls).decode('utf-16-le', 'surrogatepass')


def letters(w):
    b = w.get_string().encode('utf-16-le')
    return [b[i] | b[i + 1] << 8 for i in range(0, len(b), 2)]


def show(l):
    return [letters(l[i]) for i in range(len(l))]


def scored(res):
    out, desc = [], True
    for i in range(len(res)):
        if i and not res.get_relevancy(i - 1) >= res.get_relevancy(i):
            desc = False
        out.append([doc_index(res.get_document_id(i)), score(res.get_relevancy(i))])
    return out, desc


def refuses(f):
    try:
        f()
    except Exception:
        return True
    return False


def churn():
    """make sure that freed memory is used again"""
    gc.collect()
    x = [bytearray(n) for n in (16, 24, 32, 48, 64, 96, 128) for _ in range(60)]
    ws = [col.Word('zzzz%d' % i) for i in range(60)]
    return len(x) + len(ws)


class Session:
    def __init__(self):
        self.o = {}
        self.held = {}

    def ev(self, c):
        x = self.o[c['o']]
        if isinstance(x, col.ErrorValues):
            return x
        if c.get('h'):          # a handle obtained once and kept
            if ('e', c['o']) not in self.held:
                self.held['e', c['o']] = x.get_errorvalues()
            return self.held['e', c['o']]
        return x.get_errorvalues()

    def wt(self, c):
        x = self.o[c['o']]
        if isinstance(x, col.IndexWeights):
            return x
        if c.get('h'):
            if ('x', c['o']) not in self.held:
                self.held['x', c['o']] = x.get_indexweights()
            return self.held['x', c['o']]
        return x.get_indexweights()

    def run(self, c):
        op, o, O = c['op'], c.get('o'), self.o
        r = {}

        def make(f):
            try:
                O[o] = f()
                r['ok'] = True
            except Exception:
                r['ok'] = False

        def attempt(f):
            try:
                f()
                r['ok'] = True
            except Exception:
                r['ok'] = False
        if op == 'reset':
            O.clear(); self.held.clear()
        elif op == 'w.new': make(lambda: col.Word(text(c['b'])))
        elif op == 'w.obs':
            r['len'] = len(O[o]); r['u'] = list(O[o].get_string().encode())
        elif op == 'l.split': make(lambda: col.split_to_words(text(c['b'])))
        elif op == 'l.new': O[o] = col.WordList()
        elif op == 'l.copy': O[o] = col.WordList(O[c['s']])
        elif op == 'l.add': O[o].add_word(O[c['s']])
        elif op == 'l.obs':
            l = O[o]
            r['n'] = len(l); r['ws'] = show(l)
            r['oob'] = [refuses(lambda p=p: l[p]) for p in (len(l), len(l) + 1, len(l) + 1000, -1)]
        elif op == 'l.drop':    # the elements are read after the list was let go
            l = O.pop(o)
            es = [l[i] for i in range(len(l))]
            del l
            churn()
            r['ws'] = [letters(e) for e in es]
        elif op == 'd.new': O[o] = col.Document(doc_id(c['id']))
        elif op == 'd.copy': O[o] = col.Document(O[c['s']])
        elif op == 'd.text': attempt(lambda: O[o].add_text(col.Word(from_letters(c['f'])), text(c['b'])))
        elif op == 'd.id': r['id'] = doc_index(O[o].get_id())
        elif op == 'd.n': r['n'] = O[o].field_count()
        elif op in ('d.get', 'd.drop'):
            r['ws'] = []
            try:
                if op == 'd.get':
                    r['ws'] = show(O[o].get_text(col.Word(from_letters(c['f']))))
                else:
                    d = O.pop(o)
                    t = d.get_text(col.Word(from_letters(c['f'])))
                    del d
                    churn()
                    r['ws'] = show(t)
                r['ok'] = True
            except Exception:
                r['ok'] = False
        elif op == 'c.new': O[o] = col.Corpus()
        elif op == 'c.add': O[o].add_document(O[c['s']])
        elif op == 'c.obs':
            r['n'] = O[o].size()
            if len(O[o]) != r['n']:
                r['n'] = -1
        elif op == 'e.new': O[o] = col.ErrorValues()
        elif op == 'e.std':
            if c['dir'] == 'default':
                os.environ.pop('COLUMBUS_DATADIR', None)
            else:
                os.environ['COLUMBUS_DATADIR'] = DIRS.get(c['dir'], '/nonexistent/columbus')
            attempt(lambda: self.ev(c).add_standard_errors())
        elif op == 'e.set': self.ev(c).set_error(c['x'], c['y'], c['e'])
        elif op == 'e.err':
            e = self.ev(c)
            r['es'] = [e.get_substitute_error(x, y) for x, y in c['ps']]
            r['rs'] = [e.get_substitute_error(y, x) for x, y in c['ps']]
        elif op == 'e.def':
            e = self.ev(c)
            r['def'] = e.get_default_error()
            r['sub'] = col.ErrorValues.get_substring_default_end_deletion_error()
            # no letters
            r['bad'] = [refuses(lambda p=p: e.get_substitute_error(p, 97)) and refuses(lambda p=p: e.set_error(97, p, 1)) for p in (-1, 1 << 70, 'a', None)]
        elif op == 'e.sub': self.ev(c).set_substring_mode()
        elif op == 'e.clr': self.ev(c).clear_errors()
        elif op == 'e.val':
            assert c['k'] == 'endd'
            self.ev(c).set_end_deletion_error(c['v'])
        elif op == 'x.new': O[o] = col.IndexWeights()
        elif op == 'x.set': self.wt(c).set_weight(col.Word(from_letters(c['f'])), c['v'] / 4.0)
        elif op in ('x.get', 'x.drop'):
            x = self.wt(c)
            if op == 'x.drop':
                self.held.clear()
                O.pop(o)
                churn()
            q = x.get_weight(col.Word(from_letters(c['f']))) * 4
            r['v'] = int(q) if q == math.floor(q) and abs(q) < 1e9 else 1999999999
        elif op == 'm.new': O[o] = col.Matcher()
        elif op == 'm.idx': attempt(lambda: O[o].index(O[c['s']]))
        elif op == 'm.match':
            r['ok'] = False; r['ds'] = []; r['desc'] = True
            try:
                res = O[o].match(text(c['b']))
                r['ok'] = True
            except Exception:
                res = None
            if res is not None:
                r['ds'], r['desc'] = scored(res)
        elif op == 'm.merge':
            res = col.MatchResults()
            for q in c['bs']:
                res.add_results(O[o].match(text(q)))
            r['ds'], r['desc'] = scored(res)
            n = len(res)
            r['oob'] = [refuses(lambda p=p: res.get_document_id(p)) and refuses(lambda p=p: res.get_relevancy(p)) for p in (n, n + 1, -1)]
        elif op == 'del':
            for k in [k for k in self.held if k[1] == o]:
                del self.held[k]
            del O[o]
        else:
            raise SystemExit('op ' + op)
        if 'ok' not in r:
            r['ok'] = True
        return r


CREATES = {'w.new', 'l.split', 'l.new', 'l.copy', 'd.new', 'd.copy', 'c.new', 'e.new', 'x.new', 'm.new'}
s = Session()
for line in sys.stdin:
    line = line.strip()
    if not line:
        continue
    c = json.loads(line)
    if c['op'] != 'reset' and any(c[k] not in s.o for k in ('o', 's') if k in c and not (k == 'o' and c['op'] in CREATES)):
        r = {'gone': True, 'ok': False}
    else:
        try:
            r = s.run(c)
        except (KeyError, SystemExit):
            raise
        except Exception as e:
            r = {'ok': False, 'exc': type(e).__name__}
            r.pop('exc')
    sys.stdout.write(line[:-1] + ',"r":' + json.dumps(r, separators=(',', ':')) + '}\n')
    sys.stdout.flush()
