// Conformance driver: executes command records (one JSON object per line) against
// libcolumbus and writes each back with the observed results in field "r".
//
//   driver [--threads] [--twice] < commands.ndjson > trace.ndjson
//
// Sessions are separated by {"op":"reset"}. With --threads every session is run in
// a thread of its own, all at once. With --twice (resource accounting) every
// session is run once unrecorded first, so that one-time initialisations are done.
#include "columbus.h"
#include "Word.hh"
#include "WordList.hh"
#include "WordStore.hh"
#include "Document.hh"
#include "Corpus.hh"
#include "Matcher.hh"
#include "MatchResults.hh"
#include "ErrorValues.hh"
#include "IndexMatches.hh"
#include "IndexWeights.hh"
#include "LevenshteinIndex.hh"
#include "ResultFilter.hh"
#include "SearchParameters.hh"
#include "ColumbusHelpers.hh"
#include "json.hh"
#include <cmath>
#include <functional>
#include <cstring>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <atomic>
#include <unistd.h>
#include <fcntl.h>
#ifdef ACCOUNT
#include "account.hh"
#define LIB Account::Region region_
#else
#define LIB do {} while(0)
#endif

using namespace Columbus;
using std::string;
using std::vector;

static const uint64_t docTable[] = {
    0, 1, 2, 3, 7, 42, 255, 256, 65535, 65536, 0x7fffffffULL, 0x80000000ULL,
    0xffffffffULL, 0x100000000ULL, 0x100000001ULL, 0x100000002ULL, 0x200000001ULL,
    (1ULL << 53), (1ULL << 53) + 1, 0x7fffffffffffffffULL, 0x8000000000000000ULL,
    0x8000000000000001ULL, 0xfffffffffffffffdULL, 0xfffffffffffffffeULL };
static const int numDocs = sizeof(docTable)/sizeof(docTable[0]);
static const uint64_t docBase = 0x2500000000ULL, docStep = 0x10001ULL;     // where the table ends
static DocumentID docId(long long k) { return (DocumentID)(k <= numDocs ? docTable[k-1] : docBase + (k-numDocs)*docStep); }
static int docIndex(DocumentID d) {
    for(int i = 0; i < numDocs; i++) if(docTable[i] == d) return i+1;
    if(d > docBase && (d-docBase) % docStep == 0 && (d-docBase)/docStep < 100000) return numDocs + (int)((d-docBase)/docStep);
    return 0;
}
static vector<double> rankTable() {
    double inf = std::numeric_limits<double>::infinity();
    return { -inf, -1e300, -2.5, -1e-300, 0.0, std::numeric_limits<double>::denorm_min(), 1e-9,
             0.1, std::nextafter(0.1, 1.0), 1.0, std::nextafter(1.0, 2.0), 1e15, 1e15 + 0.125, 1e300, inf };
}
static const vector<double> ranks = rankTable();
static int rankIndex(double d) {
    for(size_t i = 0; i < ranks.size(); i++) if(ranks[i] == d) return (int)i+1;
    return -99;
}
static long long score(double d) {   // units of 0.00001; the odd offset keeps exact fractions off the edges
    if(!(d > -20000 && d < 20000)) return d > 0 ? 2000000001LL : -2000000001LL;
    return (long long)std::floor(d*1e5 + 0.4999993);
}
static const char *dataDir(const string &d);

struct Box {    // any object
    string t;
    Word *word = nullptr; WordList *list = nullptr; Document *doc = nullptr; Corpus *corpus = nullptr;
    WordStore *store = nullptr; LevenshteinIndex *index = nullptr; IndexMatches *hits = nullptr;
    ErrorValues *errors = nullptr; IndexWeights *weights = nullptr; ResultFilter *filter = nullptr;
    SearchParameters *params = nullptr; Matcher *matcher = nullptr; MatchResults *results = nullptr;
};
typedef std::map<string, Box> Objects;

// a copy of what may be copied
template<class T> typename std::enable_if<std::is_copy_constructible<T>::value, T*>::type dup(const T *t) { return t ? new T(*t) : nullptr; }
template<class T> typename std::enable_if<!std::is_copy_constructible<T>::value, T*>::type dup(const T*) { return nullptr; }

static Word mk(const vector<int> &l) {
    vector<Letter> v;
    for(int x : l) v.push_back(Letter((Letter_)x));
    v.push_back(Letter((Letter_)0));
    return Word(&v[0], v.size());
}
static vector<int> letters(const Word &w) {
    vector<int> r;
    for(unsigned int i = 0; i < w.length(); i++) r.push_back((int)(Letter_)w[i]);
    return r;
}
static string text(const vector<int> &b) { string s; for(int x : b) s += (char)x; return s; }
static string textOf(const J &c) {     // bytes, or runs of bytes
    if(!c.has("ts")) return text(c.ints("b"));
    string s;
    for(const auto &t : c["ts"].a) {
        string piece;
        for(const auto &x : t.a[0].a) piece += (char)x.i;
        for(long long i = 0; i < t.a[1].i; i++) s += piece;
    }
    return s;
}
static vector<int> bytes(const string &s) { vector<int> r; for(unsigned char c : s) r.push_back(c); return r; }
static vector<int> asInts(const J &j) { vector<int> r; for(const auto &x : j.a) r.push_back((int)x.i); return r; }
static WordList mkList(const J &j) {
    WordList l;
    for(const auto &x : j.a) l.addWord(mk(asInts(x)));
    return l;
}
static string showList(const WordList &l) {
    vector<string> r;
    for(size_t i = 0; i < l.size(); i++) r.push_back(arr(letters(l[i])));
    return arrs(r);
}
template<class F> static bool refuses(F f) {
    try { f(); } catch(const std::exception &) { return true; }
    return false;
}
static string oobAt(size_t n, const std::function<void(size_t)> &f) {
    vector<bool> r;
    const size_t ps[] = { n, n+1, n+1000, (size_t)0xffffffffULL, (size_t)-1 };
    for(size_t p : ps) if(p >= n) r.push_back(refuses([&]{ f(p); }));
    return arrb(r);
}
static void showDoc(Out &o, const Document &d) {
    WordList names;
    d.getFieldNames(names);
    vector<string> ts;
    for(size_t i = 0; i < names.size(); i++) ts.push_back(showList(d.getText(names[i])));
    o.num("id", docIndex(d.getID()));
    o.num("n", (long long)d.fieldCount());
    o.raw("fs", showList(names));
    o.raw("ts", arrs(ts));
}
static string showRanked(const MatchResults &r) {   // result lists with table relevancies
    vector<string> v;
    for(size_t i = 0; i < r.size(); i++)
        v.push_back("[" + std::to_string(docIndex(r.getDocumentID(i))) + "," + std::to_string(rankIndex(r.getRelevancy(i))) + "]");
    return arrs(v);
}
static string showScored(const MatchResults &r, bool &desc) {
    vector<string> v;
    desc = true;
    for(size_t i = 0; i < r.size(); i++) {
        double d = r.getRelevancy(i);
        if(i && !(r.getRelevancy(i-1) >= d)) desc = false;
        v.push_back("[" + std::to_string(docIndex(r.getDocumentID(i))) + "," + std::to_string(score(d)) + "]");
    }
    return arrs(v);
}
static string showHits(const IndexMatches &m) {
    vector<string> v;
    for(size_t i = 0; i < m.size(); i++)
        v.push_back("[" + std::to_string((int32_t)m.getMatch(i)) + "," + std::to_string(m.getMatchError(i)) + "]");
    return arrs(v);
}
static string runs(const vector<long long> &ids) {  // run-length coding of consecutive numbers
    vector<string> v;
    for(size_t i = 0; i < ids.size(); ) {
        size_t j = i;
        while(j+1 < ids.size() && ids[j+1] == ids[j]+1) j++;
        v.push_back("[" + std::to_string(ids[i]) + "," + std::to_string(j-i+1) + "]");
        i = j+1;
        if(v.size() > 20) break;
    }
    return arrs(v);
}
static vector<int> alphabet(const J &c) {   // letters listed, or all from one to another
    if(!c.has("ab")) return c.ints("a");
    const vector<int> ab = c.ints("ab");
    vector<int> a;
    for(int l = ab[0]; l <= ab[1]; l++) a.push_back(l);
    return a;
}
static vector<int> famWord(const vector<int> &a, int len, long long k) {
    vector<int> w(len);
    for(int i = len-1; i >= 0; i--) { w[i] = a[k % a.size()]; k /= a.size(); }
    return w;
}

struct Session {
    Objects obs;

    Box &at(const string &n) {
        auto it = obs.find(n);
        if(it == obs.end()) throw std::logic_error("no object " + n);
        return it->second;
    }
    bool live(const string &n) { return obs.find(n) != obs.end(); }
    ErrorValues &ev(const string &n, bool viaC = false) {
        Box &b = at(n);
        if(b.errors) return *b.errors;
        if(viaC) return *reinterpret_cast<ErrorValues*>(col_matcher_get_error_values(b.matcher));
        return b.matcher->getErrorValues();
    }
    IndexWeights &wt(const string &n, bool viaC = false) {
        Box &b = at(n);
        if(b.weights) return *b.weights;
        if(viaC) return *reinterpret_cast<IndexWeights*>(col_matcher_get_index_weights(b.matcher));
        return b.matcher->getIndexWeights();
    }
    ResultFilter &rf(const string &n) {
        Box &b = at(n);
        return b.filter ? *b.filter : b.params->getResultFilter();
    }
    void destroy(Box &b, bool viaC) {
        LIB;
        if(viaC) {
            if(b.word) { col_word_delete(b.word); return; }
            if(b.doc) { col_document_delete(b.doc); return; }
            if(b.corpus) { col_corpus_delete(b.corpus); return; }
            if(b.matcher) { col_matcher_delete(b.matcher); return; }
            if(b.results) { col_match_results_delete(b.results); return; }
        }
        delete b.word; delete b.list; delete b.doc; delete b.corpus; delete b.store; delete b.index;
        delete b.hits; delete b.errors; delete b.weights; delete b.filter; delete b.params;
        delete b.matcher; delete b.results;
    }
    void clear() {
        while(!obs.empty()) { destroy(obs.begin()->second, false); obs.erase(obs.begin()); }
    }
    void del(const string &n, bool viaC) {
        Box b = at(n);
        obs.erase(n);
        destroy(b, viaC);
    }

    void run(const J &c, Out &r);
    void doWord(const string &op, const J &c, Out &r);
    void doList(const string &op, const J &c, Out &r);
    void doDoc(const string &op, const J &c, Out &r);
    void doStore(const string &op, const J &c, Out &r);
    void doIndex(const string &op, const J &c, Out &r);
    void doErrors(const string &op, const J &c, Out &r);
    void doParams(const string &op, const J &c, Out &r);
    void doMatcher(const string &op, const J &c, Out &r);
    void doResults(const string &op, const J &c, Out &r);
};

static inline bool isC(const J &c) { return c.str("via") == "c"; }

// ---------------------------------------------------------------- words
void Session::doWord(const string &op, const J &c, Out &r) {
    const string o = c.str("o"), via = c.str("via", "cstr");
    if(op == "w.new") {
        string s = textOf(c);
        Word *w = nullptr;
        try {
            LIB;
            if(via == "c") w = reinterpret_cast<Word*>(col_word_new(s.c_str()));
            else if(via == "str") w = new Word(s);
            else w = new Word(s.c_str());
        } catch(const std::exception &) {
            if(via == "c") r.boolean("threw", true);
        }
        r.boolean("ok", w != nullptr);
        if(w) { obs[o].word = w; }
    } else if(op == "w.let") {
        vector<Letter> v;
        for(int x : c.ints("l")) v.push_back(Letter((Letter_)x));
        size_t n = v.size();
        std::unique_ptr<Letter[]> exact(new Letter[n ? n : 1]);   // exactly n letters, to catch overreads
        std::unique_ptr<Letter[]> zero(new Letter[0]);
        for(size_t i = 0; i < n; i++) exact[i] = v[i];
        Word *w = nullptr;
        try { LIB; w = new Word(n ? exact.get() : zero.get(), n); } catch(const std::exception &) {}
        r.boolean("ok", w != nullptr);
        if(w) obs[o].word = w;
    } else if(op == "w.empty") {
        LIB;
        obs[o].word = new Word();
    } else if(op == "w.copy") { LIB; obs[o].word = new Word(*at(c.str("s")).word);
    } else if(op == "w.move") { LIB; obs[o].word = new Word(std::move(*at(c.str("s")).word));
    } else if(op == "w.set") { LIB; *at(o).word = *at(c.str("s")).word;
    } else if(op == "w.mset") { LIB; *at(o).word = std::move(*at(c.str("s")).word);
    } else if(op == "w.text") {
        string s = textOf(c);
        bool ok = true;
        Word &w = *at(o).word;
        try {
            LIB;
            if(via == "str") w = s; else w = s.c_str();
        } catch(const std::exception &) { ok = false; }
        r.boolean("ok", ok);
        r.num("len", w.length());
        vector<int> l;
        try { l = letters(w); } catch(const std::exception &) {}
        r.raw("l", arr(l));
    } else if(op == "w.join") {
        LIB;
        Word j = at(c.str("s")).word->join(*at(c.str("s2")).word);
        obs[o].word = new Word(j);
    } else if(op == "w.obs") {
        Word &w = *at(o).word;
        if(via == "c") {
            r.num("len", (long long)col_word_length(&w));
            if(c.has("u")) {
                vector<char> buf(4*(col_word_length(&w)+1) + 8, 'Z');
                col_word_as_utf8(&w, buf.data(), buf.size());
                buf.back() = 0;
                r.raw("u", arr(bytes(buf.data())));
            }
        } else {
            LIB;
            r.num("len", w.length());
            r.raw("l", arr(letters(w)));
            size_t n = w.length();
            vector<bool> oob;
            const unsigned int ps[] = { (unsigned)n, (unsigned)n+1, (unsigned)n+1000, 0x80000000u, 0xffffffffu };
            for(unsigned int p : ps) oob.push_back(refuses([&]{ (void)w[p]; }));
            r.raw("oob", arrb(oob));
            if(c.has("u")) {
                try { r.raw("u", arr(bytes(w.asUtf8()))); }
                catch(const std::exception &) { r.raw("u", "[-1]"); }
            }
        }
    } else if(op == "w.cmp") {
        LIB;
        Word &a = *at(o).word, &b = *at(c.str("s")).word;
        r.boolean("eq", a == b); r.boolean("ne", a != b);
        r.boolean("lt", a < b); r.boolean("gt", b < a);
        r.boolean("heq", a.hash() == b.hash());
    } else if(op == "w.eqt") {
        LIB;
        string s = textOf(c);
        Word &a = *at(o).word;
        if(via == "str") { r.boolean("eq", a == s); r.boolean("ne", a != s); }
        else { r.boolean("eq", a == s.c_str()); r.boolean("ne", a != s.c_str()); }
    } else if(op == "w.utf8") {
        // the n bytes lie between guard bytes, and (for address checking) at the end of their own block
        const size_t n = (size_t)c.num("n"), guard = 24;
        Word &w = *at(o).word;
        bool ok = true, clean = true;
        vector<unsigned char> buf(n + 2*guard, 0xA5);
        try {
            LIB;
            if(via == "c") col_word_as_utf8(&w, (char*)buf.data() + guard, (unsigned)n);
            else w.toUtf8((char*)buf.data() + guard, (unsigned)n);
        } catch(const std::exception &) { ok = false; if(via == "c") r.boolean("threw", true); }
        for(size_t i = 0; i < guard; i++)
            if(buf[i] != 0xA5 || buf[guard+n+i] != 0xA5) clean = false;
        if(clean) {
            std::unique_ptr<char[]> tight(new char[n]);
            if(n) memset(tight.get(), 0x5A, n);
            try {
                LIB;
                if(via == "c") col_word_as_utf8(&w, tight.get(), (unsigned)n); else w.toUtf8(tight.get(), (unsigned)n);
            } catch(const std::exception &) {}
        }
        if(via != "c") r.boolean("ok", ok);
        r.boolean("clean", clean);
        vector<int> b;
        for(size_t i = 0; i < n && buf[guard+i]; i++) b.push_back(buf[guard+i]);
        r.raw("b", arr(b));
    } else throw std::logic_error("op " + op);
}

// ---------------------------------------------------------------- word lists
void Session::doList(const string &op, const J &c, Out &r) {
    const string o = c.str("o");
    if(op == "l.split") {
        string s = textOf(c);
        WordList *l = nullptr;
        try { LIB; l = new WordList(splitToWords(s.c_str())); } catch(const std::exception &) {}
        r.boolean("ok", l != nullptr);
        if(l) obs[o].list = l;
    } else if(op == "l.new") { LIB; obs[o].list = new WordList();
    } else if(op == "l.copy") { LIB; obs[o].list = new WordList(*at(c.str("s")).list);
    } else if(op == "l.move") { LIB; obs[o].list = new WordList(std::move(*at(c.str("s")).list));
    } else if(op == "l.set") { LIB; *at(o).list = *at(c.str("s")).list;
    } else if(op == "l.mset") { LIB; *at(o).list = std::move(*at(c.str("s")).list);
    } else if(op == "l.add") {
        LIB;
        if(c.has("s")) at(o).list->addWord(*at(c.str("s")).word);
        else at(o).list->addWord(mk(c.ints("w")));
    } else if(op == "l.obs") {
        LIB;
        WordList &l = *at(o).list;
        r.num("n", (long long)l.size());
        r.raw("ws", showList(l));
        r.raw("oob", oobAt(l.size(), [&](size_t p) { (void)l[p]; }));
    } else if(op == "l.drop") {
        r.raw("ws", showList(*at(o).list));
        del(o, false);
    } else if(op == "l.cmp") {
        LIB;
        WordList &a = *at(o).list, &b = *at(c.str("s")).list;
        r.boolean("eq", a == b); r.boolean("ne", a != b);
    } else throw std::logic_error("op " + op);
}

// ---------------------------------------------------------------- documents and corpora
void Session::doDoc(const string &op, const J &c, Out &r) {
    const string o = c.str("o"), via = c.str("via", "cstr");
    if(op == "d.new") {
        LIB;
        if(via == "c") obs[o].doc = reinterpret_cast<Document*>(col_document_new(docId(c.num("id"))));
        else obs[o].doc = new Document(docId(c.num("id")));
    } else if(op == "d.copy") { LIB; obs[o].doc = new Document(*at(c.str("s")).doc);
    } else if(op == "d.set") { LIB; *at(o).doc = *at(c.str("s")).doc;
    } else if(op == "d.text") {
        string s = textOf(c);
        bool ok = true;
        try {
            LIB;
            Word f = mk(c.ints("f"));
            if(via == "c") col_document_add_text(at(o).doc, &f, s.c_str());
            else if(via == "str") at(o).doc->addText(f, s);
            else at(o).doc->addText(f, s.c_str());
        } catch(const std::exception &) { ok = false; if(via == "c") r.boolean("threw", true); }
        if(via != "c") r.boolean("ok", ok);
    } else if(op == "d.words") {
        LIB;
        at(o).doc->addText(mk(c.ints("f")), *at(c.str("s")).list);
    } else if(op == "d.obs") {
        LIB;
        showDoc(r, *at(o).doc);
    } else if(op == "d.id") {
        if(via == "c") r.num("id", docIndex(col_document_get_id(at(o).doc)));
        else r.num("id", docIndex(at(o).doc->getID()));
    } else if(op == "d.n") { LIB; r.num("n", (long long)at(o).doc->fieldCount());
    } else if(op == "d.drop") {
        r.raw("ws", showList(at(o).doc->getText(mk(c.ints("f")))));
        del(o, false);
    } else if(op == "d.get") {
        string ws = "[]";
        bool ok = true;
        try { LIB; ws = showList(at(o).doc->getText(mk(c.ints("f")))); } catch(const std::exception &) { ok = false; }
        r.boolean("ok", ok);
        r.raw("ws", ws);
    } else if(op == "d.cnt") {
        LIB;
        Document &d = *at(o).doc;
        r.num("c", (long long)d.wordCount(mk(c.ints("w")), mk(c.ints("f"))));
        r.num("t", (long long)d.totalWordCount(mk(c.ints("w"))));
    } else if(op == "c.new") {
        LIB;
        if(via == "c") obs[o].corpus = reinterpret_cast<Corpus*>(col_corpus_new());
        else obs[o].corpus = new Corpus();
    } else if(op == "c.add") {
        LIB;
        if(c.has("n")) {    // alike documents, one after another
            Document &d = *at(c.str("s")).doc;
            WordList names;
            d.getFieldNames(names);
            const int first = docIndex(d.getID());
            for(long long i = 0; i < c.num("n"); i++) {
                Document e(docId(first + i));
                for(size_t f = 0; f < names.size(); f++) e.addText(names[f], d.getText(names[f]));
                at(o).corpus->addDocument(e);
            }
        } else if(via == "c") col_corpus_add_document(at(o).corpus, at(c.str("s")).doc);
        else at(o).corpus->addDocument(*at(c.str("s")).doc);
    } else if(op == "c.obs") {
        LIB;
        Corpus &k = *at(o).corpus;
        vector<string> ds;
        for(size_t i = 0; i < k.size(); i++) {
            Out d;
            showDoc(d, k.getDocument(i));
            ds.push_back("{" + d.s + "}");
        }
        r.num("n", (long long)k.size());
        r.raw("ds", arrs(ds));
        r.raw("oob", oobAt(k.size(), [&](size_t p) { (void)k.getDocument(p); }));
    } else throw std::logic_error("op " + op);
}

// ---------------------------------------------------------------- word stores
void Session::doStore(const string &op, const J &c, Out &r) {
    const string o = c.str("o");
    if(op == "s.new") {
        WordStore *s = nullptr;
        try { LIB; s = new WordStore(); } catch(const std::exception &) {}
        r.boolean("ok", s != nullptr);
        if(s) obs[o].store = s;
    } else if(op == "s.id") {
        long long id = -1;
        bool ok = true;
        try { LIB; id = (int32_t)at(o).store->getID(mk(c.ints("w"))); } catch(const std::exception &) { ok = false; }
        r.boolean("ok", ok);
        r.num("id", id);
    } else if(op == "s.has") { LIB; r.boolean("h", at(o).store->hasWord(mk(c.ints("w"))));
    } else if(op == "s.hasid") { LIB; r.boolean("h", at(o).store->hasWord((WordID)(int32_t)c.num("id")));
    } else if(op == "s.word") {
        bool ok = true;
        string l = "[]";
        try { LIB; l = arr(letters(at(o).store->getWord((WordID)(int32_t)c.num("id")))); } catch(const std::exception &) { ok = false; }
        r.boolean("ok", ok);
        r.raw("l", l);
    } else if(op == "s.fam") {
        vector<long long> ids;
        const vector<int> a = alphabet(c);
        bool ok = true;
        long long done = 0;
        try {
            ids.reserve(c.num("n"));
            for(long long k = 0; k < c.num("n"); k++) {
                LIB;
                ids.push_back(at(o).store->getID(mk(famWord(a, c.num("len"), c.num("from")+k))));
                done++;
            }
        } catch(const std::exception &) { ok = false; }
        r.boolean("ok", ok);
        r.num("done", done);
        r.raw("runs", runs(ids));
    } else throw std::logic_error("op " + op);
}

// ---------------------------------------------------------------- dictionaries
void Session::doIndex(const string &op, const J &c, Out &r) {
    const string o = c.str("o");
    if(op == "i.new") {
        LevenshteinIndex *x = nullptr;
        try { LIB; x = new LevenshteinIndex(); } catch(const std::exception &) {}
        r.boolean("ok", x != nullptr);
        if(x) obs[o].index = x;
    } else if(op == "i.ins") {
        bool ok = true;
        try { LIB; at(o).index->insertWord(mk(c.ints("w")), (WordID)(int32_t)c.num("id")); } catch(const std::exception &) { ok = false; }
        r.boolean("ok", ok);
    } else if(op == "i.fam") {
        const vector<int> a = alphabet(c);
        bool ok = true;
        long long done = 0;
        try {
            for(long long k = 0; k < c.num("n"); k++) {
                LIB;
                at(o).index->insertWord(mk(famWord(a, c.num("len"), c.num("from")+k)), (WordID)(c.num("id")+k));
                done++;
            }
        } catch(const std::exception &) { ok = false; }
        r.boolean("ok", ok);
        r.num("done", done);
    } else if(op == "i.has") { LIB; r.boolean("h", at(o).index->hasWord(mk(c.ints("w"))));
    } else if(op == "i.stat") {
        LIB;
        LevenshteinIndex &x = *at(o).index;
        vector<long long> n;
        for(int id : c.ints("ids")) n.push_back((long long)x.wordCount((WordID)id));
        r.num("n", (long long)x.numWords());
        r.num("m", (long long)x.maxCount());
        r.raw("c", arr(n));
    } else if(op == "i.find") {
        IndexMatches &m = *at(c.str("s")).hits;
        bool ok = true;
        try { LIB; at(o).index->findWords(mk(c.ints("q")), ev(c.str("e")), (int)c.num("max"), m); } catch(const std::exception &) { ok = false; }
        r.boolean("ok", ok);
        r.raw("ms", showHits(m));
    } else if(op == "q.new") { LIB; obs[o].hits = new IndexMatches();
    } else if(op == "q.clear") { LIB; at(o).hits->clear();
    } else if(op == "q.obs") {
        LIB;
        IndexMatches &m = *at(o).hits;
        r.raw("ms", showHits(m));
        size_t n = m.size();
        vector<bool> oob;
        const size_t ps[] = { n, n+1, n+1000, (size_t)-1 };
        for(size_t p : ps) {
            oob.push_back(refuses([&]{ (void)m.getMatch(p); }));
            oob.push_back(refuses([&]{ (void)m.getMatchError(p); }));
            oob.push_back(refuses([&]{ (void)m.getQuery(p); }));
        }
        r.raw("oob", arrb(oob));
    } else throw std::logic_error("op " + op);
}

// ---------------------------------------------------------------- error values, weights
void Session::doErrors(const string &op, const J &c, Out &r) {
    const string o = c.str("o");
    const bool viaC = isC(c);
    if(op == "e.new") { LIB; obs[o].errors = new ErrorValues();
    } else if(op == "e.set") { LIB; ev(o).setError(Letter((Letter_)c.num("x")), Letter((Letter_)c.num("y")), (int)c.num("e"));
    } else if(op == "e.grp") {
        bool ok = true;
        try { LIB; ev(o).setGroupError(mk(c.ints("l")), (int)c.num("e")); } catch(const std::exception &) { ok = false; }
        r.boolean("ok", ok);
    } else if(op == "e.acc" || op == "e.std") {
        bool ok = true;
        const char *now = getenv("COLUMBUS_DATADIR");    // threads share the environment: touch it only to change it
        if(c.str("dir") == "default") { if(now) unsetenv("COLUMBUS_DATADIR"); }
        else if(!now || strcmp(now, dataDir(c.str("dir")))) setenv("COLUMBUS_DATADIR", dataDir(c.str("dir")), 1);
        try {
            LIB;
            if(op == "e.acc") ev(o).addAccents(c.str("g") == "latin" ? latinAccentGroup : greekAccentGroup);
            else if(viaC) col_error_values_add_standard_errors(&ev(o, true));
            else ev(o).addStandardErrors();
        } catch(const std::exception &) { ok = false; if(viaC) r.boolean("threw", true); }
        if(!viaC) r.boolean("ok", ok);
    } else if(op == "e.kbd") { LIB; ev(o).addKeyboardErrors();
    } else if(op == "e.pad") { LIB; ev(o).addNumberpadErrors();
    } else if(op == "e.clr") { LIB; ev(o).clearErrors();
    } else if(op == "e.sub") {
        LIB;
        if(viaC) col_error_values_set_substring_mode(&ev(o, true));
        else ev(o).setSubstringMode();
    } else if(op == "e.val") {
        LIB;
        const string k = c.str("k");
        const int v = (int)c.num("v");
        ErrorValues &e = ev(o);
        if(k == "ins") e.setInsertionError(v); else if(k == "del") e.setDeletionError(v);
        else if(k == "endd") e.setEndDeletionError(v); else if(k == "st") e.setStartInsertionError(v);
        else if(k == "tr") e.setTransposeError(v); else e.setSubstringStartLimit(v);
    } else if(op == "e.err") {
        LIB;
        vector<long long> a, b;
        ErrorValues &e = ev(o);
        for(const auto &p : c["ps"].a) {
            Letter x((Letter_)p.a[0].i), y((Letter_)p.a[1].i);
            a.push_back(e.getSubstituteError(x, y));
            b.push_back(e.getSubstituteError(y, x));
        }
        r.raw("es", arr(a));
        r.raw("rs", arr(b));
    } else if(op == "e.vals") {
        LIB;
        ErrorValues &e = ev(o);
        vector<long long> st;
        for(int n = 0; n < 8; n++) st.push_back(e.getStartInsertionError(n));
        r.num("ins", e.getInsertionError()); r.num("del", e.getDeletionError());
        r.num("endd", e.getEndDeletionError()); r.num("tr", e.getTransposeError());
        r.raw("st", arr(st));
    } else if(op == "e.def") {
        LIB;
        r.num("def", ErrorValues::getDefaultError());
        r.num("sub", ErrorValues::getSubstringDefaultEndDeletionError());
    } else if(op == "e.ing") {
        LIB;
        vector<bool> g;
        for(int l : c.ints("l")) g.push_back(ev(o).isInGroup(Letter((Letter_)l)));
        r.raw("g", arrb(g));
    } else if(op == "x.new") { LIB; obs[o].weights = new IndexWeights();
    } else if(op == "x.set") {
        LIB;
        Word f = mk(c.ints("f"));
        // any number, not only those with few digits
        IndexWeights &x = wt(o), &y = viaC ? wt(o, true) : x;
        const double ws[] = { c.num("v")/3.0, c.num("v")/4.0 };
        bool same = &x == &y;
        for(double w : ws) {
            if(viaC) col_index_weights_set_weight(&y, &f, w); else x.setWeight(f, w);
            same = same && x.getWeight(f) == w && (!viaC || col_index_weights_get_weight(&y, &f) == w);
        }
        r.boolean("same", same);
    } else if(op == "x.get" || op == "x.drop") {
        LIB;
        Word f = mk(c.ints("f"));
        double w = viaC ? col_index_weights_get_weight(&wt(o, true), &f) : wt(o).getWeight(f);
        double q = w*4;
        r.num("v", q == std::floor(q) && std::fabs(q) < 1e9 ? (long long)q : 1999999999LL);
        if(op == "x.drop") del(o, viaC);
    } else throw std::logic_error("op " + op);
}

// the C accessors of a result list against the C++ ones; positions that are not there
static void mirrors(MatchResults &m, Out &r) {
    bool same = col_match_results_size(&m) == m.size();
    vector<bool> miss;
    try {
        for(size_t i = 0; i < m.size(); i++) {
            double a = col_match_results_get_relevancy(&m, i), b = m.getRelevancy(i);
            same = same && memcmp(&a, &b, sizeof(a)) == 0 && col_match_results_get_id(&m, i) == m.getDocumentID(i);
        }
        const size_t n = m.size();
        const size_t ps[] = { n, n+1, n+255, n+65536, (size_t)1 << 32, (size_t)-1 };
        for(size_t p : ps) {
            miss.push_back(col_match_results_get_id(&m, p) == INVALID_DOCID);
            miss.push_back(col_match_results_get_relevancy(&m, p) == -1.0);
        }
    } catch(const std::exception &) { r.boolean("threw", true); }
    r.boolean("same", same);
    r.raw("coob", arrb(miss));
}

// ---------------------------------------------------------------- filters and parameters
void Session::doParams(const string &op, const J &c, Out &r) {
    const string o = c.str("o");
    LIB;
    if(op == "f.new") obs[o].filter = new ResultFilter();
    else if(op == "p.new") obs[o].params = new SearchParameters();
    else if(op == "f.term") rf(o).addNewTerm();
    else if(op == "f.sub") rf(o).addNewSubTerm(mk(c.ints("f")), mk(c.ints("w")));
    else if(op == "f.obs") {
        const ResultFilter &f = rf(o);
        vector<string> ts;
        vector<bool> oob;
        for(size_t t = 0; t < f.numTerms(); t++) {
            vector<string> ss;
            for(size_t s = 0; s < f.numSubTerms(t); s++)
                ss.push_back("[" + arr(letters(f.getField(t, s))) + "," + arr(letters(f.getWord(t, s))) + "]");
            ts.push_back(arrs(ss));
            oob.push_back(refuses([&]{ (void)f.getField(t, f.numSubTerms(t)); }));
            oob.push_back(refuses([&]{ (void)f.getWord(t, f.numSubTerms(t)); }));
        }
        oob.push_back(refuses([&]{ (void)f.numSubTerms(f.numTerms()); }));
        oob.push_back(refuses([&]{ (void)f.getField(f.numTerms(), 0); }));
        oob.push_back(refuses([&]{ (void)f.getWord((size_t)-1, 0); }));
        r.num("n", (long long)f.numTerms());
        r.raw("ts", arrs(ts));
        r.raw("oob", arrb(oob));
    } else if(op == "p.dyn") at(o).params->setDynamic(c.num("v") != 0);
    else if(op == "p.nos") at(o).params->addNonsearchingField(mk(c.ints("f")));
    else if(op == "p.obs") {
        const SearchParameters &p = *at(o).params;
        vector<bool> nos;
        vector<long long> de;
        for(const auto &x : c["fs"].a) {
            Word w = mk(asInts(x));
            nos.push_back(p.isNonsearchingField(w));
            de.push_back(p.getDynamicError(w));
        }
        r.boolean("dyn", p.isDynamic());
        r.raw("nos", arrb(nos));
        r.raw("de", arr(de));
    } else throw std::logic_error("op " + op);
}

// ---------------------------------------------------------------- matchers
static void copyParams(const SearchParameters &p, SearchParameters &q, const J &c) {
    q.setDynamic(p.isDynamic());
    (void)c;
}
void Session::doMatcher(const string &op, const J &c, Out &r) {
    const string o = c.str("o");
    const bool viaC = isC(c);
    if(op == "m.new") {
        Matcher *m = nullptr;
        try {
            LIB;
            if(viaC) m = reinterpret_cast<Matcher*>(col_matcher_new()); else m = new Matcher();
        } catch(const std::exception &) { if(viaC) r.boolean("threw", true); }
        r.boolean("ok", m != nullptr);
        if(m) obs[o].matcher = m;
    } else if(op == "m.idx") {
        bool ok = true;
        try {
            LIB;
            if(viaC) col_matcher_index(at(o).matcher, at(c.str("s")).corpus);
            else at(o).matcher->index(*at(c.str("s")).corpus);
        } catch(const std::exception &) { ok = false; if(viaC) r.boolean("threw", true); }
        if(!viaC) r.boolean("ok", ok);
    } else if(op == "m.match") {
        // how: "wl" word list, "cstr", "str", "c"; with parameters p: "wl" or "cstr"
        bool ok = true, desc = true;
        string ds = "[]";
        const string how = c.str("via", "wl");
        Matcher &m = *at(o).matcher;
        try {
            LIB;
            string s = textOf(c);
            if(how == "c") {
                MatchResults *res = nullptr;
                try { res = reinterpret_cast<MatchResults*>(col_matcher_match(&m, s.c_str())); }
                catch(const std::exception &) { r.boolean("threw", true); }
                ok = res != nullptr;
                if(res) {
                    vector<string> v;
                    for(size_t i = 0; i < col_match_results_size(res); i++) {
                        double d = col_match_results_get_relevancy(res, i);
                        if(i && !(col_match_results_get_relevancy(res, i-1) >= d)) desc = false;
                        v.push_back("[" + std::to_string(docIndex(col_match_results_get_id(res, i))) + "," + std::to_string(score(d)) + "]");
                    }
                    ds = arrs(v);
                    mirrors(*res, r);
                    col_match_results_delete(res);
                }
            } else if(c.has("p")) {
                SearchParameters &p = *at(c.str("p")).params;
                MatchResults res = how == "cstr" ? m.match(s.c_str(), p) : m.match((c.has("b") || c.has("ts")) ? splitToWords(s.c_str()) : mkList(c["q"]), p);
                ds = showScored(res, desc);
            } else {
                MatchResults res = how == "cstr" ? m.match(s.c_str()) : how == "str" ? m.match(s) :
                                   m.match((c.has("b") || c.has("ts")) ? splitToWords(s.c_str()) : mkList(c["q"]));
                ds = showScored(res, desc);
            }
        } catch(const std::exception &) { ok = false; }
        r.boolean("ok", ok);
        r.raw("ds", ds);
        r.boolean("desc", desc);
        if(c.has("base") && ok) {   // the same match without the filter, same other parameters
            LIB;
            SearchParameters q;
            if(c.has("p")) {
                copyParams(*at(c.str("p")).params, q, c);
                for(const auto &x : c["nos"].a) q.addNonsearchingField(mk(asInts(x)));
            }
            bool d2;
            WordList ql = (c.has("b") || c.has("ts")) ? splitToWords(textOf(c).c_str()) : mkList(c["q"]);
            MatchResults res = m.match(ql, q);
            r.raw("base", showScored(res, d2));
        }
    } else if(op == "m.merge") {    // several matches gathered in one result list
        LIB;
        bool desc;
        MatchResults res;
        for(const auto &q : c["bs"].a) {
            MatchResults one = at(o).matcher->match(text(asInts(q)).c_str());
            res.addResults(one);
        }
        r.raw("ds", showScored(res, desc));
        r.boolean("desc", desc);
    } else if(op == "m.online") {
        bool ok = true, desc = true, d2;
        string ds = "[]", base = "[]";
        Matcher &m = *at(o).matcher;
        try {
            LIB;
            WordList q = mkList(c["q"]);
            MatchResults res = m.onlineMatch(q, mk(c.ints("f")));
            ds = showScored(res, desc);
        } catch(const std::exception &) { ok = false; }
        r.boolean("ok", ok);
        r.raw("ds", ds);
        r.boolean("desc", desc);
        if(ok) {
            try {
                LIB;
                MatchResults res = m.match(mkList(c["q"]));
                base = showScored(res, d2);
            } catch(const std::exception &) {}
        }
        r.raw("base", base);
    } else throw std::logic_error("op " + op);
}

// ---------------------------------------------------------------- result lists
void Session::doResults(const string &op, const J &c, Out &r) {
    const string o = c.str("o");
    const bool viaC = isC(c);
    if(op == "r.new") {
        LIB;
        if(viaC) obs[o].results = reinterpret_cast<MatchResults*>(col_match_results_new()); else obs[o].results = new MatchResults();
    } else if(op == "r.copy") { LIB; obs[o].results = new MatchResults(*at(c.str("s")).results);
    } else if(op == "r.move") { LIB; obs[o].results = new MatchResults(std::move(*at(c.str("s")).results));
    } else if(op == "r.set") { LIB; *at(o).results = *at(c.str("s")).results;
    } else if(op == "r.mset") { LIB; *at(o).results = std::move(*at(c.str("s")).results);
    } else if(op == "r.add") {
        LIB;
        const long long n = c.has("n") ? c.num("n") : 1;
        for(long long i = 0; i < n; i++) at(o).results->addResult(docId(c.num("id") + i), ranks[c.num("k")-1]);
    } else if(op == "r.all") { LIB; at(o).results->addResults(*at(c.str("s")).results);
    } else if(op == "r.one") {
        bool ok = true;
        try { LIB; at(o).results->copyResult(*at(c.str("s")).results, (size_t)c.num("i")); } catch(const std::exception &) { ok = false; }
        r.boolean("ok", ok);
    } else if(op == "r.obs") {
        LIB;
        MatchResults &m = *at(o).results;
        if(viaC) {
            size_t n = col_match_results_size(&m);
            vector<string> v;
            try {
                for(size_t i = 0; i < n; i++)
                    v.push_back("[" + std::to_string(docIndex(col_match_results_get_id(&m, i))) + "," +
                                std::to_string(rankIndex(col_match_results_get_relevancy(&m, i))) + "]");
            } catch(const std::exception &) { r.boolean("threw", true); }
            r.num("n", (long long)n);
            r.raw("ds", arrs(v));
            mirrors(m, r);
        } else {
            r.num("n", (long long)m.size());
            r.raw("ds", showRanked(m));
            size_t n = m.size();
            vector<bool> oob;
            const size_t ps[] = { n, n+1, n+1000, (size_t)-1 };
            for(size_t p : ps) {
                oob.push_back(refuses([&]{ (void)m.getDocumentID(p); }));
                oob.push_back(refuses([&]{ (void)m.getRelevancy(p); }));
            }
            r.raw("oob", arrb(oob));
        }
    } else if(op == "r.read") {
        bool ok = true;
        string e = "[]";
        try {
            LIB;
            MatchResults &m = *at(o).results;
            size_t i = (size_t)c.num("i");
            if(c.has("rel")) {
                int k = rankIndex(m.getRelevancy(i));
                e = "[" + std::to_string(docIndex(m.getDocumentID(i))) + "," + std::to_string(k) + "]";
            } else {
                int d = docIndex(m.getDocumentID(i));
                e = "[" + std::to_string(d) + "," + std::to_string(rankIndex(m.getRelevancy(i))) + "]";
            }
        } catch(const std::exception &) { ok = false; }
        r.boolean("ok", ok);
        r.raw("e", e);
    } else throw std::logic_error("op " + op);
}

void Session::run(const J &c, Out &r) {
    const string op = c.str("op");
    bool always = true;
    try {
        switch(op[0]) {
        case 'w': doWord(op, c, r); break;
        case 'l': doList(op, c, r); break;
        case 'd': if(op == "dup") {
            LIB;
            const Box &s = at(c.str("s"));
            Box b;
            b.errors = dup(s.errors); b.weights = dup(s.weights); b.params = dup(s.params); b.filter = dup(s.filter);
            b.matcher = dup(s.matcher); b.corpus = dup(s.corpus); b.store = dup(s.store); b.index = dup(s.index); b.hits = dup(s.hits);
            const bool ok = b.errors || b.weights || b.params || b.filter || b.matcher || b.corpus || b.store || b.index || b.hits;
            r.boolean("ok", ok);
            if(ok) obs[c.str("o")] = b;
            break;
        }
        if(op == "del") { del(c.str("o"), isC(c)); break; } doDoc(op, c, r); break;
        case 'c': doDoc(op, c, r); break;
        case 's': doStore(op, c, r); break;
        case 'i': case 'q': doIndex(op, c, r); break;
        case 'e': case 'x': doErrors(op, c, r); break;
        case 'f': case 'p': doParams(op, c, r); break;
        case 'm': doMatcher(op, c, r); break;
        case 'r': if(op == "reset") { clear(); break; } doResults(op, c, r); break;
        case 'n':
            col_word_delete(nullptr); col_document_delete(nullptr); col_corpus_delete(nullptr);
            col_matcher_delete(nullptr); col_match_results_delete(nullptr);
            break;
#ifdef ACCOUNT
        case 'z': Account::report(r); break;
#endif
        default: throw std::logic_error("op " + op);
        }
    } catch(const std::logic_error &e) {
        if(string(e.what()).compare(0, 3, "op ") == 0 || string(e.what()).compare(0, 10, "no object ") == 0) {
            r.s.clear(); r.first = true;
            r.boolean("gone", true);
            r.boolean("ok", false);
            return;
        }
        always = false;
    } catch(const std::exception &) { always = false; }
    if(!always) {   // an exception from a call that never refuses
        r.s.clear(); r.first = true;
        r.boolean("ok", false);
        return;
    }
    if(r.s.find("\"ok\"") == string::npos && !isC(c)) r.boolean("ok", true);
}

static std::map<string, string> dirs;
static const char *dataDir(const string &d) {
    auto it = dirs.find(d);
    return it == dirs.end() ? "/nonexistent/columbus" : it->second.c_str();
}

static void emit(string &out, const string &cmd, const Out &r, bool buffered) {
    string line = cmd;
    while(!line.empty() && line.back() != '}') line.pop_back();
    line.pop_back();
    line += ",\"r\":{" + r.s + "}}\n";
    if(buffered) { out += line; return; }
    size_t off = 0;
    while(off < line.size()) {
        ssize_t n = write(3, line.data() + off, line.size() - off);
        if(n <= 0) _exit(4);
        off += n;
    }
}

int main(int argc, char **argv) {
    bool threads = false, twice = false;
    for(int i = 1; i < argc; i++) {
        string a = argv[i];
        if(a == "--threads") threads = true;
        else if(a == "--twice") twice = true;
        else if(a.find('=') != string::npos) dirs[a.substr(0, a.find('='))] = a.substr(a.find('=')+1);
    }
    if(fcntl(3, F_GETFD) < 0) dup2(1, 3);
    // The C interface reports on stderr; keep it apart from our output.
    vector<vector<string>> sessions(1);
    string line;
    while(std::getline(std::cin, line)) {
        if(line.empty()) continue;
        bool reset = line.find("\"op\":\"reset\"") != string::npos;
        if(reset && !sessions.back().empty()) sessions.emplace_back();
        sessions.back().push_back(line);
    }
    if(threads) {
        vector<string> outs(sessions.size());
        vector<std::thread> ts;
        std::atomic<size_t> ready{0};
        for(size_t n = 0; n < sessions.size(); n++)
            ts.emplace_back([&, n] {
                Session s;
                ready++;
                while(ready < sessions.size()) std::this_thread::yield();
                for(const auto &l : sessions[n]) {
                    J c = JParser(l.c_str()).value();
                    Out r;
                    s.run(c, r);
                    emit(outs[n], l, r, true);
                }
                s.clear();
            });
        for(auto &t : ts) t.join();
        for(const auto &o : outs) {
            size_t off = 0;
            while(off < o.size()) { ssize_t n = write(3, o.data()+off, o.size()-off); if(n <= 0) _exit(4); off += n; }
        }
        return 0;
    }
    string dummy;
#ifdef ACCOUNT
    Account::init();
#endif
    Session s;
    for(const auto &ses : sessions) {
        if(twice) {
            for(const auto &l : ses) {
                J c = JParser(l.c_str()).value();
                Out r;
#ifdef ACCOUNT
                const J *f = c.get("fault");
                if(f) Account::arm((int)f->i, c.has("stick"));
#endif
                s.run(c, r);
#ifdef ACCOUNT
                Account::disarm();
#endif
            }
            s.clear();
#ifdef ACCOUNT
            Account::baseline();
#endif
        }
        for(const auto &l : ses) {
            J c = JParser(l.c_str()).value();
            Out r;
#ifdef ACCOUNT
            const J *f = c.get("fault");
            if(f) Account::arm((int)f->i, c.has("stick"));
#endif
            s.run(c, r);
#ifdef ACCOUNT
            if(f) r.boolean("fired", Account::disarm());
#endif
            emit(dummy, l, r, false);
        }
        s.clear();
    }
    return 0;
}
