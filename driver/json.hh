// Minimal JSON reader and writer for the driver (integers, strings, booleans, arrays, objects).
#pragma once
#include <string>
#include <vector>
#include <utility>
#include <cstdlib>
#include <cstdio>
struct J {
    enum T { NUL, INT, STR, BOOL, ARR, OBJ } t = NUL;
    long long i = 0;
    std::string s;
    std::vector<J> a;
    std::vector<std::pair<std::string, J>> o;
    const J *get(const char *k) const {
        for(const auto &p : o) if(p.first == k) return &p.second;
        return nullptr;
    }
    bool has(const char *k) const { return get(k) != nullptr; }
    const J &operator[](const char *k) const {
        const J *p = get(k);
        if(!p) { fprintf(stderr, "driver: field %s missing\n", k); exit(3); }
        return *p;
    }
    std::string str(const char *k, const char *def = "") const { const J *p = get(k); return p ? p->s : def; }
    long long num(const char *k, long long def = 0) const { const J *p = get(k); return p ? p->i : def; }
    std::vector<int> ints(const char *k) const {
        std::vector<int> r;
        if(const J *p = get(k)) for(const auto &x : p->a) r.push_back((int)x.i);
        return r;
    }
};
struct JParser {
    const char *p;
    explicit JParser(const char *s) : p(s) {}
    void ws() { while(*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r') p++; }
    [[noreturn]] void bad() { fprintf(stderr, "driver: bad JSON near: %.40s\n", p); exit(3); }
    std::string string() {
        std::string r;
        p++;
        while(*p && *p != '"') {
            if(*p == '\\') { p++; if(*p == 'n') r += '\n'; else r += *p; p++; }
            else r += *p++;
        }
        if(*p != '"') bad();
        p++;
        return r;
    }
    J value() {
        J v; ws();
        if(*p == '{') {
            v.t = J::OBJ; p++; ws();
            if(*p == '}') { p++; return v; }
            for(;;) {
                ws(); if(*p != '"') bad();
                std::string k = string(); ws();
                if(*p++ != ':') bad();
                v.o.emplace_back(k, value()); ws();
                if(*p == ',') { p++; continue; }
                if(*p == '}') { p++; return v; }
                bad();
            }
        } else if(*p == '[') {
            v.t = J::ARR; p++; ws();
            if(*p == ']') { p++; return v; }
            for(;;) {
                v.a.push_back(value()); ws();
                if(*p == ',') { p++; continue; }
                if(*p == ']') { p++; return v; }
                bad();
            }
        } else if(*p == '"') { v.t = J::STR; v.s = string(); }
        else if(*p == 't') { v.t = J::BOOL; v.i = 1; p += 4; }
        else if(*p == 'f') { v.t = J::BOOL; v.i = 0; p += 5; }
        else if(*p == 'n') { p += 4; }
        else if(*p == '-' || (*p >= '0' && *p <= '9')) {
            char *e; v.t = J::INT; v.i = strtoll(p, &e, 10); p = e;
        } else bad();
        return v;
    }
};
// Output: one object under construction.
struct Out {
    std::string s;
    bool first = true;
    void key(const char *k) { if(!first) s += ','; first = false; s += '"'; s += k; s += "\":"; }
    void raw(const char *k, const std::string &v) { key(k); s += v; }
    void num(const char *k, long long v) { key(k); s += std::to_string(v); }
    void boolean(const char *k, bool v) { key(k); s += v ? "true" : "false"; }
};
template<class C> std::string arr(const C &c) {
    std::string r = "[";
    for(size_t i = 0; i < c.size(); i++) { if(i) r += ','; r += std::to_string((long long)c[i]); }
    return r + "]";
}
inline std::string arrs(const std::vector<std::string> &c) {
    std::string r = "[";
    for(size_t i = 0; i < c.size(); i++) { if(i) r += ','; r += c[i]; }
    return r + "]";
}
inline std::string arrb(const std::vector<bool> &c) {
    std::string r = "[";
    for(size_t i = 0; i < c.size(); i++) { if(i) r += ','; r += c[i] ? "true" : "false"; }
    return r + "]";
}
