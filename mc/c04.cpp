// uses: lang.cpp corpus.cpp
// C04: objects as maps. Every operation sequence over sets of keys that collide (in the bucket, in the whole hash, by
// raw bits, by spelling), through script syntax and the host interface, against std::map.
#include "corpus.h"
#include "diff.h"
#include <algorithm>
using namespace mc;
using std::string;
using std::vector;

// -- keys ---------------------------------------------------------------------------------------------------------
// A key has a script expression, and a class: two expressions denote the same key if and only if the classes are equal.
struct Key { const char *expr; const char *cls; };
static const char *SETUP =
    "var one = 1; var e = \"\"; var half = 0.5; var z = 0; var A = object(); var B = object(); A.id = 1; B.id = 2; var C = A;\n"
    "function f(x) { return x; } function g(x) { return x; } var h = f; var bdb = \"bd\"; var self = object();\n"
    "function put(o, k, v) { o[k] = v; return 0; } function get(o, k) { return o[k]; } function del(o, k) { o[k] = nil; return 0; } function size(o) { return len(o); } \n";
static const vector<Key> KEYS = {
    {"0", "i0"}, {"(1-1)", "i0"}, {"z", "i0"}, {"1", "i1"}, {"one", "i1"}, {"(3==3)", "i1"}, {"16", "i16"}, {"32", "i32"}, {"17", "i17"}, {"(-1)", "i-1"}, {"(0-1)", "i-1"}, {"2147483647", "imax"}, {"(0-2147483647-1)", "imin"}, {"(2147483647+1)", "imin"}, {"1065353216", "i1065353216"}, {"256", "i256"}, {"65536", "i65536"},
    {"0.0", "f0"}, {"(0.5-half)", "f0"}, {"(-0.0)", "f0"}, {"(0.0*(0-1))", "f0"}, {"1.0", "f1"}, {"(half+0.5)", "f1"}, {"(half*2)", "f1"}, {"0.5", "f.5"}, {"half", "f.5"}, {"16.0", "f16"}, {"0.1", "f.1"}, {"100000000.0", "f1e8"}, {"(-1.0)", "f-1"},
    {"\"\"", "s"}, {"e", "s"}, {"(e+e)", "s"}, {"\"0\"", "s0"}, {"(e+0)", "s0"}, {"\"1\"", "s1"}, {"(e+1)", "s1"}, {"(e+one)", "s1"}, {"\"1.000000\"", "s1.0"}, {"(e+1.0)", "s1.0"}, {"\"bdb\"", "sbdb"}, {"(bdb+\"b\")", "sbdb"}, {"\"cbc\"", "scbc"}, {"(\"cb\"+\"c\")", "scbc"}, {"\"a\"", "sa"}, {"\"A\"", "sA"}, {"\"aa\"", "saa"}, {"\"nil\"", "snil"}, {"\"-1\"", "s-1"}, {"\"id\"", "sid"}, {"\"\\n\"", "snl"}, {"\"\\\"\"", "sq"}, {"\" 1\"", "s 1"},
    {"nil", "n"}, {"e[e]", ""}, {"A.nosuch", "n"}, {"A", "oA"}, {"C", "oA"}, {"f(A)", "oA"}, {"B", "oB"}, {"self", "oS"}, {"f", "ff"}, {"h", "ff"}, {"f(f)", "ff"}, {"g", "fg"}, {"print", "np"}, {"f(print)", "np"}, {"len", ""}, {"get", "fget"},
};
// Sets of keys that collide as much as possible in a table of 16 (or fewer) buckets.
static const vector<vector<string>> SETS = {
    {"0", "16", "0.0", "1.0", "nil"},                 // one bucket, four types
    {"\"bdb\"", "\"cbc\"", "\"cdaca\"", "\"bbccb\"", "B"}, // strings with the same hash
    {"1", "17", "33", "\"1\"", "self"},
    {"1", "1.0", "\"1\"", "\"1.000000\"", "f"},        // alike by value
    {"1065353216", "1.0", "0", "0.0", "\"\""},         // alike by raw bits
    {"A", "B", "f", "g", "0"},                         // references with small ids
    {"(-1)", "\"-1\"", "2147483647", "(0-2147483647-1)", "(-1.0)"},
};

struct Obj { std::map<int, int> m; };
// Script and host in one VM: objects o and p, keys fetched from script.
struct World {
    Host h; vector<NKValue> key; NKValue ob[2]; Obj m[2]; bool ok = false;
    bool load(Case &c, const vector<string> &keys) {
        string s = string("var keys = object(); function key(n) { return keys[n]; }\n") + SETUP + "var o = object(); var p = object(); var q = o;\n";
        for(size_t i = 0; i < keys.size(); i++) s += strf("keys[%zu] = %s; ", i, keys[i].c_str());
        if(!h.load(s)) { c.fail("does not load: %s\n%s", h.errors().c_str(), s.c_str()); return false; }
        nkxSetGarbageCollectionInterval(h.vm, 50); nkxSetGarbageCollectionNewObjectInterval(h.vm, 5);
        if(!h.run()) { c.fail("setup: %s", h.errors().c_str()); return false; }
        key.resize(keys.size());
        for(size_t i = 0; i < keys.size(); i++) { NKValue n; nkxValueSetInt(h.vm, &n, i); key[i] = call("key", {n}); }
        ob[0] = *nkxVmFindGlobalVariable(h.vm, nullptr, "o"); ob[1] = *nkxVmFindGlobalVariable(h.vm, nullptr, "p");
        return ok = !nkxVmHasErrors(h.vm);
    }
    NKValue call(const char *fn, vector<NKValue> a) {
        NKValue *f = nkxVmFindGlobalVariable(h.vm, nullptr, fn), fv, r; memset(&r, 0, sizeof r); r.type = NK_VALUETYPE_NIL;
        if(!f) return r;
        fv = *f;
        nkxVmCallFunction(h.vm, &fv, a.size(), a.data(), &r);
        return r;
    }
    NKValue num(int v) { NKValue n; nkxValueSetInt(h.vm, &n, v); return n; }
    void set(int o, int k, int v, bool host) {
        m[o].m[k] = v;
        if(!host) { call("put", {ob[o], key[k], num(v)}); return; }
        NKValue *e = nkxVmObjectFindOrAddEntry(h.vm, &ob[o], &key[k], nkfalse);
        if(e) nkxValueSetInt(h.vm, e, v);
    }
    void del(int o, int k, bool host) { m[o].m.erase(k); if(host) nkxVmObjectClearEntry(h.vm, &ob[o], &key[k]); else call("del", {ob[o], key[k]}); }
    // The object must hold exactly the model's entries, by every way of looking.
    void check(Case &c, const string &what, bool script) {
        for(int o = 0; o < 2; o++) {
            nkuint32_t n = nkxVmObjectGetSize(h.vm, &ob[o]);
            if(n != m[o].m.size()) { c.fail("%s: object %d reports %u entries to the host instead of %zu", what.c_str(), o, n, m[o].m.size()); return; }
            for(size_t k = 0; k < key.size(); k++) {
                auto it = m[o].m.find(k);
                NKValue *e = nkxVmObjectFindOrAddEntry(h.vm, &ob[o], &key[k], nktrue);
                if(!e != (it == m[o].m.end()) || (e && (e->type != NK_VALUETYPE_INT || e->intData != it->second))) { c.fail("%s: object %d, key %zu: the host finds %s instead of %s", what.c_str(), o, k, e ? strf("%d", e->intData).c_str() : "nothing", it == m[o].m.end() ? "nothing" : strf("%d", it->second).c_str()); return; }
                if(!script) continue;
                NKValue v = call("get", {ob[o], key[k]});
                if(it == m[o].m.end() ? v.type != NK_VALUETYPE_NIL : v.type != NK_VALUETYPE_INT || v.intData != it->second) { c.fail("%s: object %d, key %zu: script reads the wrong value", what.c_str(), o, k); return; }
            }
            if(script) { NKValue v = call("size", {ob[o]}); if(v.type != NK_VALUETYPE_INT || (size_t)v.intData != m[o].m.size()) { c.fail("%s: len() of object %d is %d instead of %zu", what.c_str(), o, v.intData, m[o].m.size()); return; } }
            if(nkxVmObjectGetSize(h.vm, &ob[o]) != m[o].m.size()) { c.fail("%s: looking created entries", what.c_str()); return; }
        }
        if(nkxVmHasErrors(h.vm)) c.fail("%s: error %s", what.c_str(), h.errors().c_str());
        c.trace();
        uint64_t s = 0; for(auto &x : m[0].m) s = s * 31 + x.first * 7 + x.second; c.state(s);
    }
};

// 1. every ordered pair of key expressions
static void pair(Case &c, const Key &a, const Key &b, int form) {
    if(!*a.cls || !*b.cls) return;
    bool same = !strcmp(a.cls, b.cls);
    string s = string(SETUP) + "var o = object(); var r = nil; var k = " + a.expr + "; var j = " + b.expr + ";\n";
    switch(form) {
    case 0: s += strf("o[%s] = 5; print(len(o), o[%s], len(o)); o[%s] = 6; print(len(o), o[%s], o[%s]); o[%s] = nil; print(len(o), o[%s], o[%s]);", a.expr, b.expr, b.expr, a.expr, b.expr, a.expr, a.expr, b.expr); break;
    case 1: s += "o[k] = 5; print(len(o), o[j], len(o)); o[j] = 6; print(len(o), o[k], o[j]); o[k] = nil; print(len(o), o[k], o[j]);"; break;
    }
    string n = "nil";
    string want = same ? "i1,i5,i1;i1,i6,i6;i0,nil,nil;" : "i1,nil,i1;i2,i5,i6;i1,nil,i6;";
    c.descs(s);
    Host h; if(!h.load(s)) { c.fail("does not load: %s", h.errors().c_str()); return; }
    h.run();
    if(h.hasErrors()) { c.fail("error: %s", h.errors().c_str()); return; }
    if(h.out != want) c.fail("the keys %s and %s are %s; got %s, expected %s", a.expr, b.expr, same ? "equal" : "different", h.out.c_str(), want.c_str());
    // ... and as the host sees them
    NKValue k = *nkxVmFindGlobalVariable(h.vm, nullptr, "k"), j = *nkxVmFindGlobalVariable(h.vm, nullptr, "j"), o = *nkxVmFindGlobalVariable(h.vm, nullptr, "o");
    nkxVmObjectClearEntry(h.vm, &o, &j); nkxVmObjectClearEntry(h.vm, &o, &k);
    if(nkxVmObjectGetSize(h.vm, &o)) c.fail("%u entries left after the host removed both", nkxVmObjectGetSize(h.vm, &o));
    NKValue *e = nkxVmObjectFindOrAddEntry(h.vm, &o, &k, nkfalse); if(e) nkxValueSetInt(h.vm, e, 9);
    e = nkxVmObjectFindOrAddEntry(h.vm, &o, &j, nktrue);
    if(!e != !same) c.fail("the host %s what it stored under %s by looking for %s", e ? "finds" : "does not find", a.expr, b.expr);
    nkxVmObjectClearEntry(h.vm, &o, &j);
    if(nkxVmObjectGetSize(h.vm, &o) != (same ? 0u : 1u)) c.fail("removing %s removed what is under %s", b.expr, a.expr);
    c.trace(2); c.nontrivial(hashStr(s)); c.outcome(same ? "equal keys" : "different keys");
    c.state(hashStr(h.out));
}
// 2. orders of insertion and removal among colliding keys
static uint64_t nOrders(int K) { uint64_t n = 0, f = 1; for(int i = 0; i < K; i++) { f *= K - i; n += f; } return n; } // non-empty ordered subsets
static vector<int> orderAt(uint64_t i, int K) {
    uint64_t f = 1; int len = 0;
    for(len = 1; len <= K; len++) { f *= K - len + 1; if(i < f) break; i -= f; }
    vector<int> pool, r; for(int k = 0; k < K; k++) pool.push_back(k);
    for(int k = 0; k < len; k++) { int p = i % pool.size(); i /= pool.size(); r.push_back(pool[p]); pool.erase(pool.begin() + p); }
    return r;
}
static void order(Case &c, int set, const vector<int> &ins, const vector<int> &rem, int again, int via) {
    const int K = SETS[set].size();
    string d = strf("keys"); for(auto &k : SETS[set]) d += " " + k;
    d += "; insert"; for(int k : ins) d += strf(" %d", k);
    d += "; remove"; for(int k : rem) d += strf(" %d", k);
    if(again >= 0) d += strf("; store %d", again);
    d += strf("; interface pattern %d", via);
    c.descs(d);
    World w; if(!w.load(c, SETS[set])) return;
    int step = 0; auto host = [&] { return via == 0 ? false : via == 1 ? true : via == 2 ? step++ % 2 == 0 : step++ % 2 == 1; };
    for(int k : ins) w.set(0, k, 100 + k, host());
    w.set(1, ins[0], 7, host()); // a bystander
    w.check(c, "after insertion", via < 2);
    for(int k : rem) { w.del(0, k, host()); c.trans(); if(!c.failed()) w.check(c, strf("after removing %d", k), false); }
    if(again >= 0) { w.set(0, again, 200 + again, host()); if(!c.failed()) w.check(c, "after storing again", via >= 2); }
    if(c.failed()) return;
    for(int k = 0; k < K; k++) w.del(0, k, host());
    w.check(c, "after removing everything", true);
    c.trans(ins.size() + K + 1); c.nontrivial(hashStr(d));
    w.h.destroy(); for(auto &p : w.h.problems) c.fail("%s", p.c_str());
}
// 3. all operation sequences on two objects, with collections in between
enum { SS, SH, DS, DH, NKIND };
static void history(Case &c, const vector<int> &ops, int set) {
    static const char *N[] = {"script stores", "host stores", "script stores nil at", "host removes"};
    // keys 0..3 of the set on object 0, keys 0..1 on object 1 through script only, then: collect, alias
    World w; string d = strf("set %d:", set);
    for(int o : ops) d += o < 16 ? strf(" %s %d;", N[o / 4], o % 4) : o < 20 ? strf(" %s %d of the other object;", N[(o - 16) / 2 * 2], o % 2) : o == 20 ? " collect;" : o == 21 ? " read;" : " exchange the objects;";
    c.descs(d);
    if(!w.load(c, SETS[set])) return;
    int n = 0;
    for(int o : ops) {
        n++;
        if(o < 16) { int k = o % 4; if(o / 4 < 2) w.set(0, k, 10 * n, o / 4 == 1); else w.del(0, k, o / 4 == 3); }
        else if(o < 20) { int k = o % 2; if(o < 18) w.set(1, k, 10 * n, false); else w.del(1, k, false); }
        else if(o == 20) nkxVmGarbageCollect(w.h.vm);
        else if(o == 21) w.check(c, "reading", true);
        else { std::swap(w.ob[0], w.ob[1]); std::swap(w.m[0], w.m[1]); }
        c.trans();
        if(!c.failed()) w.check(c, strf("after operation %d", n), false);
        if(c.failed()) return;
    }
    w.check(c, "at the end", true);
    c.nontrivial(hashStr(d));
    w.h.destroy(); for(auto &p : w.h.problems) c.fail("%s", p.c_str());
}
enum { HOPS = 23 };
// 4. many keys
static void bulk(Case &c, int kind, int N, int pattern, int via) {
    static const char *KN[] = {"integers", "integers in one bucket", "strings", "floats", "strings and integers of the same spelling", "objects"};
    c.desc("%d %s, removal pattern %d, interface %d", N, KN[kind], pattern, via);
    World w; if(!w.load(c, {"0"})) return;
    NKVM *vm = w.h.vm;
    NKValue keep = *nkxVmFindGlobalVariable(vm, nullptr, "self");
    w.key.clear();
    for(int i = 0; i < N; i++) {
        NKValue v; memset(&v, 0, sizeof v);
        switch(kind) {
        case 0: nkxValueSetInt(vm, &v, i - N / 2); break;
        case 1: nkxValueSetInt(vm, &v, i * 4096); break;
        case 2: nkxValueSetString(vm, &v, strf("key%d", i).c_str()); break;
        case 3: nkxValueSetFloat(vm, &v, i * 0.25f - N / 8); break;
        case 4: if(i % 2) nkxValueSetInt(vm, &v, i / 2); else nkxValueSetString(vm, &v, strf("%d", i / 2).c_str()); break;
        default: nkxCreateObject(vm, &v); break;
        }
        w.key.push_back(v);
        // keep every key alive for the host
        NKValue k; nkxValueSetInt(vm, &k, i); NKValue *e = nkxVmObjectFindOrAddEntry(vm, &keep, &k, nkfalse); if(e) *e = v;
    }
    for(int i = 0; i < N; i++) w.set(0, i, i, via == 2 ? i % 2 : via);
    w.check(c, "all stored", true);
    for(int i = 0; i < N && !c.failed(); i++) {
        bool rm = pattern == 0 ? true : pattern == 1 ? i % 2 : pattern == 2 ? i % 3 == 0 : i > N / 2;
        int k = pattern == 0 ? N - 1 - i : i;
        if(rm) { w.del(0, k, via == 2 ? i % 2 : via); if(i % (N / 8 + 1) == 0) w.check(c, "while removing", false); }
    }
    if(!c.failed()) w.check(c, "after removing", true);
    for(int i = 0; i < N && !c.failed(); i += 2) w.set(0, i, -i, !via);
    if(!c.failed()) w.check(c, "stored again", true);
    c.trans(3 * N); c.nontrivial(kind * 1000000 + N * 100 + pattern * 10 + via);
    w.h.destroy(); for(auto &p : w.h.problems) c.fail("%s", p.c_str());
}
// 5. programs in every syntax, against the reference interpreter
static const vector<string> STM = {
    "o.a = 1;", "o[\"a\"] = 2;", "o.b = o;", "o.b.a = 3;", "o[\"b\"].c = 4;", "q = o;", "q = object();", "q.a = o.a;", "o.a = nil;", "q[\"b\"] = nil;", "o.a++;", "o.n = o.n + 1;", "--q.a;", "o[i] = i; i = i + 1;", "o[o] = q;", "o[o][\"a\"] = 5;", "print(len(o), len(q));", "print(o.a, o[\"b\"].a, q.a, o[0]);",
    "o = f(q);", "q = o; o.z = (q.y = 7);", "g.a = o; o = g.a;", "m(o);", "o[k] = o[k] + 1;", "k = k + \"a\";", "o[m] = m; o[m](o);", "print(o == q, o != q, o === q);", "o[f(i)] = q[f(i)];", "print(o.nosuch, len(o)); o.nosuch2;",
};
static string program(const vector<int> &s, bool fn) {
    string p = "var g = object(); function f(x) { return x; } function m(x) { x.m = len(x); return x; }\n", b = "var o = object(); var q = object(); var i = 0; var k = \"\"; ";
    for(int k : s) b += STM[k] + " ";
    b += "print(o, q, g, len(o), len(q), i, k);";
    return p + (fn ? "function main() { " + b + " return o; } print(main());" : b);
}
// 6. what is not an object
static void notObject(Case &c, uint64_t i) {
    static const vector<string> V = {"1", "1.5", "\"s\"", "nil", "f", "print"};
    static const vector<string> F = {"x.a = 1;", "print(x.a);", "x[0] = 1;", "print(x[\"a\"]);", "x.a.b = 1;", "o.v = x; o.v.w = 2;", "x[o] = nil;", "x.a++;", "print(o.v.w);", "o[x].y = 1;", "x->a();", "x.a();"};
    Idx d(i); string v = V[d.pick(V.size())], f = F[d.pick(F.size())]; bool fn = d.pick(2);
    string s = "var o = object(); function f(y) { return y; } ";
    s += fn ? "function m(x) { " + f + " } m(" + v + "); print(\"not reached\");" : "var x = " + v + "; " + f + " print(\"not reached\");";
    diff::Opt o; diff::compare(c, s, o); c.nontrivial(hashStr(s));
    // the host interface
    Host h; if(!h.load("function f(y) { return y; } var x = " + v + ";")) { c.fail("does not load: %s", h.errors().c_str()); return; }
    h.run();
    NKValue x = *nkxVmFindGlobalVariable(h.vm, nullptr, "x"), k; memset(&k, 0, sizeof k); nkxValueSetInt(h.vm, &k, 0);
    nkuint32_t n = nkxGetErrorCount(h.vm);
    switch(i % 4) {
    case 0: nkxVmObjectClearEntry(h.vm, &x, &k); break;
    case 1: if(nkxVmObjectFindOrAddEntry(h.vm, &x, &k, nkfalse)) c.fail("an entry of something that is not an object"); break;
    case 2: if(nkxVmObjectFindOrAddEntry(h.vm, &x, &k, nktrue)) c.fail("an entry of something that is not an object"); break;
    case 3: if(nkxVmObjectGetSize(h.vm, &x)) c.fail("a size of something that is not an object"); break;
    }
    if(nkxGetErrorCount(h.vm) != n + 1) c.fail("a host operation on something that is not an object reported %u errors", nkxGetErrorCount(h.vm) - n);
}

void define(Registry &r) {
    bool th = r.thorough();
    r.level = "model_checking";
    r.rule = "all ordered pairs of key expressions; all insertion orders of colliding keys with removals; all sequences of stores and removals through script and host on two objects, all compared after every step with an ordinary map (reads and sizes through both interfaces); programs over object syntax against the reference interpreter";
    const uint64_t NK_ = KEYS.size();
    r.add("pair", NK_ * NK_ * 2, [NK_](uint64_t i, Case &c) { Idx d(i); int form = d.pick(2); auto &a = KEYS[d.pick(NK_)], &b = KEYS[d.pick(NK_)]; pair(c, a, b, form); });
    const int K = 5; uint64_t no = nOrders(K);
    int variants = th ? 4 : 1;
    for(int s = 0; s < (int)SETS.size(); s++) r.add(strf("order%d", s), no * 26 * 6 * variants, [s, no, variants, th](uint64_t i, Case &c) {
        Idx d(i); auto ins = orderAt(d.pick(no), K); uint64_t rm = d.pick(26); vector<int> rem;
        if(rm >= 1 && rm <= 5) rem = {(int)rm - 1}; else if(rm > 5) { int a = (rm - 6) / 4, b = (rm - 6) % 4; if(b >= a) b++; rem = {a, b}; }
        if(!th && rem.size() == 2 && std::count(ins.begin(), ins.end(), rem[0]) + std::count(ins.begin(), ins.end(), rem[1]) < 2) return; // quick: pairs of removals only of what is there
        int again = (int)d.pick(6) - 1; int via = th ? d.pick(variants) : (i * 2654435761u >> 5) % 4;
        if(!th && (i / no) % 3 != (uint64_t)s % 3 && again >= 0) return; // quick: a third of the final stores per set
        order(c, s, ins, rem, again, via);
        if(i % 5003 == 0) c.sample(strf("set %d, case %llu", s, (unsigned long long)i));
    });
    unsigned D = th ? 4 : 3;
    for(int s = 0; s < (int)SETS.size(); s++) r.add(strf("history%d", s), seqCount(HOPS, D), [s](uint64_t i, Case &c) { history(c, seqDecode(i, HOPS), s); });
    static vector<int> SZ; SZ = th ? vector<int>{1, 2, 15, 16, 17, 31, 33, 64, 100, 255, 257, 1000, 3000} : vector<int>{1, 2, 16, 17, 33, 100, 257};
    r.add("bulk", 6 * SZ.size() * 4 * 3, [](uint64_t i, Case &c) { Idx d(i); int kind = d.pick(6), pat = d.pick(4), via = d.pick(3); bulk(c, kind, SZ[d.pick(SZ.size())], pat, via); });
    uint64_t S = STM.size(); unsigned PD = th ? 4 : 3;
    int skip = r.noteName("skipped_unspecified");
    r.add("syntax", seqCount(S, PD) * (th ? 1 : 1), [S, skip](uint64_t i, Case &c) { string p = program(seqDecode(i, S), i % 2); if(diff::compare(c, p) == diff::SKIPPED) c.note(skip); c.nontrivial(hashStr(p)); });
    r.add("notobject", 6 * 12 * 2, [](uint64_t i, Case &c) { notObject(c, i); });
    r.bounds = strf("%llu key expressions in all ordered pairs, 2 forms; %zu sets of 5 colliding keys: all ordered subsets inserted, all removals of up to two, one further store, script / host / alternating; all histories of %d operations to length %u on each set; up to %d keys at once; %llu statements, all programs to length %u", (unsigned long long)NK_, SETS.size(), (int)HOPS, D, SZ.back(), (unsigned long long)S, PD);
    r.assumptions = {"not-a-number is not used as a key (it equals nothing, itself included)", "the host removes entries with the removal call rather than by writing nil into them", "a pointer to an entry is used before the next operation on the object"};
}
