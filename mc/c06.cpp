// uses: lang.cpp corpus.cpp
// C06: after every sequence of heap operations a collection must leave exactly the objects and strings the model
// of the object graph says are reachable; cleanup callbacks run exactly once.
#include "corpus.h"
using namespace mc;
using std::string;
using std::vector;

// -- model of the object graph ------------------------------------------------------------------------------------
struct V { int t = 0, id = 0; bool operator<(const V &o) const { return t != o.t ? t < o.t : id < o.id; } bool operator==(const V &o) const { return t == o.t && id == o.id; } }; // 0 other, 1 object, 2 big string, 3 coroutine
struct Graph {
    V a, b, co; // roots
    std::map<int, std::map<string, V>> field;             // object -> named field
    std::map<int, std::set<V>> keys;                      // object -> keys that are values
    std::map<int, V> ref;                                 // native reference of an object
    std::map<int, std::pair<int, V>> cor;                 // coroutine -> state (0 fresh, 1 suspended, 2 finished), its value
    vector<V> held;                                       // handles of the host, the latest last
    int nObj = 0, nStr = 0, nCo = 0;
    void mark(V v, std::set<V> &s) const {
        if(!v.t || !s.insert(v).second) return;
        if(v.t == 3) { mark(cor.at(v.id).second, s); return; }
        if(v.t != 1) return;
        auto f = field.find(v.id); if(f != field.end()) for(auto &x : f->second) mark(x.second, s);
        auto k = keys.find(v.id); if(k != keys.end()) for(auto &x : k->second) mark(x, s);
        auto r = ref.find(v.id); if(r != ref.end()) mark(r->second, s);
    }
    std::set<V> live(bool locals) const { std::set<V> s; if(locals) { mark(a, s); mark(b, s); mark(co, s); } for(auto &x : held) mark(x, s); return s; }
};
static const uint64_t BIG = 20000;
enum { NOPS = 24 };
static const char *opNames[NOPS] = {"a=res", "b=res", "a=b", "b=a", "a=nil", "b=nil", "a.x=b", "b.y=a", "a[b]=1", "a[b]=nil", "a.z=a", "b=a.x", "a.x=nil", "a=big", "a[big]=b", "co=coroutine(w,a)", "b=resume(co)", "co=nil", "hold a", "a=unhold", "a=res(b)", "gc", "a._data=co", "temp"};
// Appends the statement for the operation and changes the graph; false if it has no meaning in this state.
static bool step(Graph &g, int op, string &src) {
    bool ao = g.a.t == 1, bo = g.b.t == 1;
    switch(op) {
    case 0: src += "a = res();"; g.a = {1, ++g.nObj}; return true;
    case 1: src += "b = res();"; g.b = {1, ++g.nObj}; return true;
    case 2: if(g.a == g.b) return false; src += "a = b;"; g.a = g.b; return true;
    case 3: if(g.a == g.b) return false; src += "b = a;"; g.b = g.a; return true;
    case 4: if(!g.a.t) return false; src += "a = nil;"; g.a = V(); return true;
    case 5: if(!g.b.t) return false; src += "b = nil;"; g.b = V(); return true;
    case 6: if(!ao || !g.b.t) return false; src += "a.x = b;"; g.field[g.a.id]["x"] = g.b; return true;
    case 7: if(!bo || !g.a.t) return false; src += "b.y = a;"; g.field[g.b.id]["y"] = g.a; return true;
    case 8: if(!ao || !g.b.t) return false; src += "a[b] = 1;"; g.keys[g.a.id].insert(g.b); return true;
    case 9: if(!ao || !g.b.t || !g.keys[g.a.id].erase(g.b)) return false; src += "a[b] = nil;"; return true;
    case 10: if(!ao) return false; src += "a.z = a;"; g.field[g.a.id]["z"] = g.a; return true;
    case 11: if(!ao) return false; src += "b = a.x;"; g.b = g.field[g.a.id].count("x") ? g.field[g.a.id]["x"] : V(); return true;
    case 12: if(!ao || !g.field[g.a.id].count("x")) return false; src += "a.x = nil;"; g.field[g.a.id].erase("x"); return true;
    case 13: if(g.nStr >= 3) return false; src += strf("a = hook(%d);", g.nStr); g.a = {2, ++g.nStr}; return true;
    case 14: { if(!ao || g.nStr >= 3) return false; src += strf("a[hook(%d)] = b;", g.nStr); V k{2, ++g.nStr}; if(g.b.t) { g.field[g.a.id][strf("k%d", k.id)] = g.b; g.keys[g.a.id].insert(k); } else return false; return true; }
    case 15: src += "co = coroutine(w, a);"; g.co = {3, ++g.nCo}; g.cor[g.co.id] = {0, g.a}; return true;
    case 16: { if(g.co.t != 3) return false; auto &c = g.cor[g.co.id]; src += "b = resume(co);"; V l = c.second; if(c.first == 0) { c.first = 1; g.b = V(); } else if(c.first == 1) { c.first = 2; g.b = l; c.second = V(); } else g.b = V(); return true; }
    case 17: if(!g.co.t) return false; src += "co = nil;"; g.co = V(); return true;
    case 18: if(!ao || g.held.size() >= 3) return false; src += strf("hold(%zu, a);", g.held.size()); g.held.push_back(g.a); return true;
    case 19: if(g.held.empty()) return false; src += strf("a = unhold(%zu);", g.held.size() - 1); g.a = g.held.back(); g.held.pop_back(); return true;
    case 20: src += "a = res(b);"; g.a = {1, ++g.nObj}; if(g.b.t) g.ref[g.nObj] = g.b; return true;
    case 21: src += "gc();"; return true;
    case 22: if(!ao || !g.co.t) return false; src += "a._data = co;"; g.field[g.a.id]["_data"] = g.co; return true;
    case 23: src += "res(res()); w2(res());"; g.nObj += 3; return true; // temporaries only
    }
    return false;
}
static string show(const std::set<V> &s) { string r; for(auto &v : s) if(v.t == 1 || v.t == 2) r += strf("%s%d ", v.t == 1 ? "object" : "string", v.id); return r; }

struct Snap { const Graph *g; bool locals; };
static void observe(Case &c, Host &h, const Graph &g, bool locals, uint64_t base, const char *where) {
    nkxVmGarbageCollect(h.vm);
    std::set<V> want = g.live(locals), got;
    for(auto &l : h.live) got.insert({1, l.first});
    std::set<int> byType; nkuint32_t it = 0; NKValue v;
    while(nkxGetNextObjectOfExternalType(h.vm, h.tRes, &v, &it)) { Res *r = (Res *)nkxVmObjectGetExternalData(h.vm, &v); if(!r || !byType.insert(r->id).second) { c.fail("enumeration by type repeats or lost an object (%s)", where); return; } }
    int64_t extra = (int64_t)nkxVmGetCurrentMemoryUsage(h.vm) - (int64_t)base;
    int64_t units = (extra + (int64_t)BIG / 4) / (int64_t)BIG;
    if(extra < -(int64_t)BIG / 4) units = -1;
    for(int k = 0; k < 3; k++) if(units > 0 && units >> k & 1) got.insert({2, k + 1});
    std::set<V> w; for(auto &x : want) if(x.t == 1 || x.t == 2) w.insert(x);
    if(units < 0 || units >> 3) { c.fail("memory use after collection (%s) is %lld bytes away from the base", where, (long long)extra); return; }
    if(got != w) { c.fail("after a collection (%s)\n  kept:      %s\n  reachable: %s", where, show(got).c_str(), show(w).c_str()); return; }
    if(byType.size() != h.live.size()) { c.fail("enumeration by type finds %zu of %zu live objects (%s)", byType.size(), h.live.size(), where); return; }
    for(auto &x : h.cleaned) if(x.second != 1) c.fail("object %d cleaned up %d times", x.first, x.second);
    if((int)(h.cleaned.size() + h.live.size()) != h.nextRes - 1) c.fail("%d objects made, %zu cleaned up, %zu alive", h.nextRes - 1, h.cleaned.size(), h.live.size());
    c.state(hashStr(show(w)) * 31 + h.cleaned.size());
}
static string preamble() {
    return "function w(p) { var l = p; yield(1); return l; } function w2(p) { return 1; } ";
}
// gcMode: 0 a collection and comparison after every operation, 1 only at the end, 2 automatic at every instruction, 3 every 7
static void sequence(Case &c, const vector<int> &ops, bool local, int gcMode) {
    Graph g; vector<Graph> at; string body, d;
    for(int o : ops) {
        if(!step(g, o, body)) return; // no meaning here: not an execution of the space
        d += string(opNames[o]) + "; ";
        at.push_back(g);
        if(gcMode == 0) body += " hook(); ";
    }
    if(gcMode != 0) body += "hook();";
    string src = preamble() + (local ? "var m; m = function() { var a = nil; var b = nil; var co = nil; hook(); " + body + " }; m();" : "var a = nil; var b = nil; var co = nil; hook(); " + body);
    c.desc("%s, %s: %s", local ? "in local variables" : "in globals", gcMode == 0 ? "collecting after each operation" : gcMode == 1 ? "collecting at the end" : gcMode == 2 ? "collecting at every instruction" : "collecting every 7 instructions", d.c_str());
    Host h; uint64_t base = 0; size_t k = 0; bool first = true;
    h.onHook = [&](Host &x, NKVMFunctionCallbackData *d) {
        if(d->argumentCount) { nkxValueSetString(x.vm, &d->returnValue, string(BIG << d->arguments[0].intData, 'q').c_str()); return; }
        if(first) { first = false; nkxVmGarbageCollect(x.vm); base = nkxVmGetCurrentMemoryUsage(x.vm); return; }
        const Graph &s = gcMode == 0 ? at[k] : g;
        observe(c, x, s, true, base, gcMode == 0 ? opNames[ops[k]] : "end of the sequence");
        k++;
        c.trans();
    };
    if(!h.load(src)) { c.fail("does not load: %s", h.errors().c_str()); return; }
    nkxSetGarbageCollectionInterval(h.vm, gcMode == 2 ? 1 : gcMode == 3 ? 7 : 1000000);
    nkxSetGarbageCollectionNewObjectInterval(h.vm, gcMode >= 2 ? 1 : 1000000);
    h.run();
    if(h.hasErrors()) c.fail("script error: %s", h.errors().c_str());
    else if(k != (gcMode == 0 ? ops.size() : 1)) c.fail("only %zu comparisons took place", k);
    else observe(c, h, g, !local, base, "after the program ended");
    int made = h.nextRes - 1;
    h.destroy();
    for(auto &p : h.problems) c.fail("%s", p.c_str());
    if(!h.live.empty()) c.fail("%zu objects not cleaned up by deletion", h.live.size());
    for(auto &x : h.cleaned) if(x.second != 1) c.fail("object %d cleaned up %d times in all", x.first, x.second);
    if((int)h.cleaned.size() != made) c.fail("%d objects made, %zu cleaned up after deletion", made, h.cleaned.size());
    c.trace();
    c.nontrivial(hashStr(d) * 8 + local * 4 + gcMode);
    c.outcome(strf("%zu live of %d", g.live(true).size(), made));
}

// Deletion of the VM: three objects, with native data and each held so many times, acquired and released in this order,
// linked so, after an error or not.
static void deletion(Case &c, const vector<int> &holds, int release, int link, int state) {
    c.trace();
    string d; for(int k : holds) d += char('A' + k);
    c.desc("handles acquired on %s, the first %d of them released again; %s; %s; then the VM is deleted", d.c_str(), release,
           link == 0 ? "otherwise unreferenced" : link == 1 ? "in globals" : link == 2 ? "linked in a ring through native references and fields" : "?",
           state == 0 ? "running" : state == 1 ? "after a script error" : state == 2 ? "before running at all" : "after collecting and compacting");
    Host h;
    if(!h.load("var x = nil; var y = nil; var z = nil; while(1) { x = x; } ")) { c.fail("does not load: %s", h.errors().c_str()); return; }
    if(state != 2) nkxVmIterate(h.vm, 20);
    NKValue v[3]; static const char *G[] = {"x", "y", "z"};
    for(int i = 0; i < 3; i++) {
        nkxCreateObject(h.vm, &v[i]);
        nkxVmObjectSetExternalType(h.vm, &v[i], h.tRes);
        Res *r = new Res; r->id = h.nextRes++; r->hasRef = false; h.live[r->id] = r; nkxVmObjectSetExternalData(h.vm, &v[i], r);
        if(link == 2) { r->hasRef = true; r->ref = v[i ? i - 1 : 0]; NKValue k; memset(&k, 0, sizeof k); nkxValueSetString(h.vm, &k, "next"); NKValue *e = nkxVmObjectFindOrAddEntry(h.vm, &v[i], &k, nkfalse); if(e) *e = v[0]; }
        if(link) *nkxVmFindGlobalVariable(h.vm, nullptr, G[i]) = v[i];
    }
    for(int k : holds) nkxVmObjectAcquireHandle(h.vm, &v[k]);
    for(int i = 0; i < release; i++) nkxVmObjectReleaseHandle(h.vm, &v[holds[i]]);
    std::set<int> keep; for(int i = 0; i < 3; i++) if(link) keep.insert(i + 1);
    for(size_t i = release; i < holds.size(); i++) keep.insert(holds[i] + 1);
    if(nkxVmHasErrors(h.vm)) { c.fail("error: %s", h.errors().c_str()); return; }
    if(state == 1) nkxAddError(h.vm, "stop");
    if(state == 3) {
        nkxVmGarbageCollect(h.vm);
        std::set<int> got; for(auto &l : h.live) got.insert(l.first);
        if(got != keep) c.fail("a collection keeps %zu objects instead of %zu", got.size(), keep.size());
        nkxVmShrink(h.vm);
    }
    h.destroy();
    for(auto &p : h.problems) c.fail("%s", p.c_str());
    for(int i = 1; i <= 3; i++) if(h.cleaned[i] != 1) c.fail("object %c was cleaned up %d times by the time the VM is deleted", 'A' + i - 1, h.cleaned[i]);
    c.state(hashStr(d) * 64 + release * 16 + link * 4 + state); c.nontrivial(hashStr(d) * 64 + release * 16 + link * 4 + state);
}
// Steady state: an action sequence repeated many times must not make memory grow.
static void steady(Case &c, const string &body, bool fn, int interval) {
    string src = "var o = object(); var a; var b; var co = nil; var i = 0; function w(p) { var l = p; yield(1); return l; } function mk(x) { var r = object(); r.v = x; r.me = r; return r; } ";
    string loop = "for(i = 100; i < 160; ++i) { " + body + " if(i % 10 == 0) { a = nil; b = nil; co = nil; o = object(); hook(i); } }";
    src += fn ? "function m() { " + loop + " } m();" : loop;
    c.desc("steady state, interval %d:\n%s", interval, src.c_str());
    Host h; vector<uint64_t> use, peaks;
    h.onHook = [&](Host &x, NKVMFunctionCallbackData *) { nkxVmGarbageCollect(x.vm); use.push_back(nkxVmGetCurrentMemoryUsage(x.vm)); peaks.push_back(nkxVmGetPeakMemoryUsage(x.vm)); c.trans(); };
    if(!h.load(src)) { c.fail("does not load: %s", h.errors().c_str()); return; }
    nkxSetGarbageCollectionInterval(h.vm, interval);
    h.run();
    if(h.hasErrors()) { c.fail("script error: %s", h.errors().c_str()); return; }
    if(use.size() < 6) { c.fail("loop did not run: %zu", use.size()); return; }
    for(size_t i = 3; i < use.size(); i++) {
        if(use[i] > use[2]) { c.fail("memory grows: %llu bytes after round 3, %llu after round %zu", (unsigned long long)use[2], (unsigned long long)use[i], i + 1); break; }
        if(interval < 100 && peaks[i] > peaks[2] + 256) { c.fail("peak grows: %llu bytes after round 3, %llu after round %zu", (unsigned long long)peaks[2], (unsigned long long)peaks[i], i + 1); break; }
    }
    h.destroy();
    for(auto &p : h.problems) c.fail("%s", p.c_str());
    if(!h.live.empty()) c.fail("native data left after deletion");
    c.trace(); c.state(use.back());
    c.nontrivial(hashStr(src) + interval);
}
static const char *BODIES[] = {
    "a = object();", "a = \"s\" + i;", "a = object(); a.x = a;", "a = object(); b = object(); a.x = b; b.x = a;", "a = object(); a[\"k\" + i] = i;", "o[i] = nil; o[\"x\"] = i;", "co = coroutine(w, mk(i)); resume(co);",
    "co = coroutine(w, mk(i)); resume(co); resume(co);", "a = res();", "a = res(mk(i));", "a = res(); b = res(a); a = nil;", "hold(1, mk(i)); unhold(1);", "a = mk(mk(mk(i)));", "a = object(); b = a; b[a] = a; a = nil;", "o[\"t\" + i] = mk(i); o[\"t\" + i] = nil;",
    "{ var t = mk(i); var u = \"l\" + i; t[u] = u; }", "call(mk, i);", "str(i); str(1.5 + i);", "a = function(x) { return x; };", "a = coroutine(function(x) { yield(mk(x)); }, i);", "gc();", "a = object(); a._exec = mk; a._data = i; a();",
};

void define(Registry &r) {
    r.level = "model_checking";
    r.rule = "all sequences of heap operations up to the stated length over two variables, a coroutine variable and a host handle, compiled to script; a model of the object graph gives the reachable set; after a collection the surviving native-typed objects (seen through cleanup callbacks and enumeration) and surviving run-time strings (told apart by size in the reported memory use) must be exactly that set";
    bool th = r.thorough();
    int depth = th ? 5 : 4;
    uint64_t n = seqCount(NOPS, depth);
    // quick: each sequence once, cycling through the variants; thorough: all variants to depth 4, one to depth 5
    uint64_t n4 = seqCount(NOPS, 4), n3 = seqCount(NOPS, 3);
    uint64_t full = th ? n4 : n3;
    r.add("sequence", full * 8, [](uint64_t i, Case &c) { sequence(c, seqDecode(i / 8, NOPS), i & 1, i >> 1 & 3); if(i % 20001 == 0) c.sample(strf("operation sequence %llu", (unsigned long long)i / 8)); });
    r.add("long", n - full, [full](uint64_t i, Case &c) { uint64_t k = i * 2654435761u >> 7; sequence(c, seqDecode(full + i, NOPS), k & 1, k >> 1 & 3); });
    // a fixed prefix that builds a linked structure, then all short sequences
    static const vector<vector<int>> PRE = {{0, 1, 6, 7}, {0, 8, 10, 3}, {1, 20, 15, 16}, {0, 15, 22, 17}, {0, 1, 6, 18}, {1, 0, 14, 6}, {0, 20, 7, 8}, {13, 15, 16, 4}};
    uint64_t pd = seqCount(NOPS, th ? 4 : 3);
    r.add("linked", PRE.size() * pd, [pd](uint64_t i, Case &c) { vector<int> s = PRE[i / pd], t = seqDecode(i % pd, NOPS); Graph g; string x; vector<int> p; for(int o : s) if(step(g, o, x)) p.push_back(o); p.insert(p.end(), t.begin(), t.end()); uint64_t k = i * 2654435761u >> 9; sequence(c, p, k & 1, k >> 1 & 3); });
    const uint64_t nb = sizeof BODIES / sizeof *BODIES;
    r.add("steady", (nb + nb * nb) * 2 * 2, [nb](uint64_t i, Case &c) { Idx x(i); bool fn = x.pick(2); int iv = x.pick(2) ? 5 : 1000000; auto s = seqDecode(x.v, nb); string b; for(int k : s) b += string(BODIES[k]) + " "; steady(c, b, fn, iv); });
    // every order of acquiring up to 4 (5) handles on three objects, then deletion
    static int HD; HD = th ? 5 : 4;
    r.add("deletion", (1 + seqCount(3, HD)) * 3 * 3 * 4, [](uint64_t i, Case &c) {
        Idx x(i); int state = x.pick(4), link = x.pick(3), rel = x.pick(3); vector<int> s; if(x.v) s = seqDecode(x.v - 1, 3);
        if((size_t)rel > s.size()) return;
        deletion(c, s, rel, link, state);
    });
    r.bounds = strf("%d operations; all sequences to length %d, in globals and in locals, x 4 collection patterns (length %d: one pattern each); %zu linked structures followed by all sequences to length %d; %llu loop bodies for steady state; deletion of the VM after every order of acquiring up to %d handles on three objects and releasing 0..2 of them, 3 linkings, 4 situations", NOPS, th ? 4 : 3, depth, PRE.size(), th ? 4 : 3, (unsigned long long)(nb + nb * nb), HD);
    r.assumptions = {"a finished coroutine no longer reaches its locals", "string sizes are recognisable in the reported memory use (C11 shows the figure is exact)"};
}
