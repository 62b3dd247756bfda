// uses: lang.cpp corpus.cpp
// C07: histories of handle operations, reference changes, collections, compactions, saves and calls against a model of
// the object graph and the handle counts. All short histories, and every operation in every reachable model state.
#include "corpus.h"
using namespace mc;
using std::string;
using std::vector;

enum { NO = 4 };
struct M {
    int made = 0;
    bool exists[NO] = {};
    int g[2] = {-1, -1};
    int x[NO] = {-1, -1, -1, -1};
    int cnt[NO] = {};
    string order; // the objects with handles, the latest first: a history variable that keeps states apart whose histories differ
    bool bad = false; // an error has been provoked
    std::set<int> reach(int extra = -1) const {
        std::set<int> s; vector<int> st;
        for(int i : g) if(i >= 0) st.push_back(i);
        for(int i = 0; i < NO; i++) if(exists[i] && cnt[i]) st.push_back(i);
        if(extra >= 0) st.push_back(extra);
        while(!st.empty()) { int i = st.back(); st.pop_back(); if(s.insert(i).second && x[i] >= 0) st.push_back(x[i]); }
        return s;
    }
    void collect(int extra = -1) { auto r = reach(extra); for(int i = 0; i < NO; i++) if(!r.count(i)) { exists[i] = false; x[i] = -1; cnt[i] = 0; } }
    string key() const { string s = strf("%d%d%d%d%s:", made, g[0], g[1], bad, order.c_str()); for(int i = 0; i < NO; i++) s += strf("%d.%d.%d ", exists[i], x[i], cnt[i]); return s; }
};
enum { NEW0, NEW1, NEWFREE, SET0, SET0b, SET0c, NIL0, NIL1, X01, X10, X12, XNIL0, ACQ0, ACQ1, ACQ2, REL0, REL1, REL2, GC, SHRINK, SAVE, CALL0, CALL1, BADREL, BADACQ, BADCOUNT, RUN, NOPS, ACQ3 = NOPS, REL3, NALL };
static const char *NM[] = {"g0=new", "g1=new", "new", "g0=A", "g0=B", "g0=C", "g0=nil", "g1=nil", "A.x=B", "B.x=A", "B.x=C", "A.x=nil", "acquire A", "acquire B", "acquire C", "release A", "release B", "release C", "gc", "shrink", "save+restore", "call(A)", "call(B)", "release 5", "acquire nil", "count of a string", "run", "acquire D", "release D"};
static int objOf(int op) { return op == ACQ3 || op == REL3 ? 3 : op >= REL0 ? op - REL0 : op - ACQ0; }
// Changes the model; false if the operation has no meaning.
static bool mstep(M &m, int op) {
    auto ex = [&](int i) { return m.exists[i]; };
    switch(op) {
    case NEW0: case NEW1: case NEWFREE: { if(m.made >= (op == NEWFREE ? NO : 3)) return false; int i = m.made++; m.exists[i] = true; if(op != NEWFREE) m.g[op == NEW1] = i; return true; }
    case SET0: case SET0b: case SET0c: { int i = op - SET0; if(!ex(i) || m.g[0] == i) return false; m.g[0] = i; return true; }
    case NIL0: case NIL1: { int i = op - NIL0; if(m.g[i] < 0) return false; m.g[i] = -1; return true; }
    case X01: if(!ex(0) || !ex(1) || m.x[0] == 1) return false; m.x[0] = 1; return true;
    case X10: if(!ex(0) || !ex(1) || m.x[1] == 0) return false; m.x[1] = 0; return true;
    case X12: if(!ex(1) || !ex(2) || m.x[1] == 2) return false; m.x[1] = 2; return true;
    case XNIL0: if(!ex(0) || m.x[0] < 0) return false; m.x[0] = -1; return true;
    case ACQ0: case ACQ1: case ACQ2: case ACQ3: { int i = objOf(op); if(!ex(i)) return false; if(!m.cnt[i]++) m.order = char('A' + i) + m.order; return true; }
    case REL0: case REL1: case REL2: case REL3: { int i = objOf(op); if(!ex(i)) return false; if(!m.cnt[i]) m.bad = true; else if(!--m.cnt[i]) m.order.erase(m.order.find(char('A' + i)), 1); return true; }
    case GC: m.collect(); return true;
    case SHRINK: if(m.bad) return false; return m.collect(), true;
    case SAVE: if(m.bad) return false; m.collect(); std::sort(m.order.begin(), m.order.end(), std::greater<char>()); return true;
    case CALL0: case CALL1: { int i = op - CALL0; if(!ex(i) || m.bad) return false; m.collect(i); return true; }
    case BADREL: case BADACQ: case BADCOUNT: m.bad = true; return true;
    case RUN: if(m.bad) return false; m.collect(); return true;
    }
    return false;
}
static const char *SRC = "var g0 = nil; var g1 = nil; var n = 0; function touch(o) { gc(); var t = object(); t.o = o; gc(); return o; } while(1) { n = n + 1; var t = object(); t.me = t; }";

struct World {
    Host *h; vector<Host *> all; NKValue v[NO]; M m;
    bool plain = false; // the objects have no native type and no fields of their own
    World() { h = new Host; all.push_back(h); memset(v, 0, sizeof v); }
    ~World() { for(Host *x : all) delete x; }
    NKValue *glob(int i) { return nkxVmFindGlobalVariable(h->vm, nullptr, i ? "g1" : "g0"); }
    // Values are obtained again after compaction or restoring.
    void refetch() { nkuint32_t it = 0; NKValue o; memset(v, 0, sizeof v); while(nkxGetNextObjectOfExternalType(h->vm, h->tRes, &o, &it)) { Res *r = (Res *)nkxVmObjectGetExternalData(h->vm, &o); if(r && r->id >= 1 && r->id <= NO) v[r->id - 1] = o; } }
    bool field(int i, int j) {
        NKValue k; memset(&k, 0, sizeof k); nkxValueSetString(h->vm, &k, "x");
        if(j < 0) { nkxVmObjectClearEntry(h->vm, &v[i], &k); return true; }
        NKValue *e = nkxVmObjectFindOrAddEntry(h->vm, &v[i], &k, nkfalse);
        if(e) *e = v[j];
        return e;
    }
};
static void check(Case &c, World &w, const char *op) {
    Host *h = w.h; M &m = w.m;
    std::set<int> ids; nkuint32_t it = 0; NKValue o;
    while(nkxGetNextObjectOfExternalType(h->vm, h->tRes, &o, &it)) { Res *r = (Res *)nkxVmObjectGetExternalData(h->vm, &o); if(!r || !ids.insert(r->id - 1).second) { c.fail("after '%s': enumeration repeats an object or lost its data", op); return; } }
    for(int i = 0; i < NO && !w.plain; i++) {
        if(m.exists[i] && !ids.count(i)) { c.fail("after '%s': object %c is gone although %s", op, 'A' + i, m.cnt[i] ? "a handle is held" : m.reach().count(i) ? "it is reachable" : "nothing collected it"); return; }
        if(!m.exists[i] && ids.count(i)) { c.fail("after '%s': object %c survives although it has no handle and is unreachable", op, 'A' + i); return; }
    }
    nkuint32_t ec = nkxGetErrorCount(h->vm);
    for(int i = 0; i < NO; i++) if(m.exists[i]) {
        nkuint32_t n = nkxVmObjectGetExternalHandleCount(h->vm, &w.v[i]);
        if((int)n != m.cnt[i]) { c.fail("after '%s': object %c has a handle count of %u, %d are held", op, 'A' + i, n, m.cnt[i]); return; }
        NKValue k; memset(&k, 0, sizeof k); nkxValueSetString(h->vm, &k, "x");
        NKValue *e = nkxVmObjectFindOrAddEntry(h->vm, &w.v[i], &k, nktrue);
        if(!e != (m.x[i] < 0) || (e && (e->type != NK_VALUETYPE_OBJECTID || e->objectId != w.v[m.x[i]].objectId))) { c.fail("after '%s': object %c's field changed", op, 'A' + i); return; }
        if(nkxVmObjectGetSize(h->vm, &w.v[i]) != (m.x[i] >= 0)) { c.fail("after '%s': object %c has %u fields", op, 'A' + i, nkxVmObjectGetSize(h->vm, &w.v[i])); return; }
    }
    for(int i = 0; i < 2; i++) { NKValue *g = w.glob(i); if(!g || (m.g[i] < 0 ? g->type != NK_VALUETYPE_NIL : g->type != NK_VALUETYPE_OBJECTID || g->objectId != w.v[m.g[i]].objectId)) { c.fail("after '%s': variable g%d changed", op, i); return; } }
    if(nkxGetErrorCount(h->vm) != ec) c.fail("after '%s': reading raised an error: %s", op, h->errors().c_str());
    if(!m.bad && nkxVmHasErrors(h->vm)) c.fail("after '%s': error %s", op, h->errors().c_str());
}
static bool apply(Case &c, World &w, int op) {
    M before = w.m;
    if(!mstep(w.m, op)) return false;
    Host *h = w.h; NKVM *vm = h->vm; M &m = w.m;
    nkuint32_t ec = nkxGetErrorCount(vm), wantErr = 0;
    switch(op) {
    case NEW0: case NEW1: case NEWFREE: {
        int i = m.made - 1; NKValue o; memset(&o, 0, sizeof o);
        nkxCreateObject(vm, &o);
        if(!w.plain) { nkxVmObjectSetExternalType(vm, &o, h->tRes);
        Res *r = new Res; r->id = i + 1; r->hasRef = false; h->live[r->id] = r; nkxVmObjectSetExternalData(vm, &o, r); }
        w.v[i] = o;
        if(op != NEWFREE) *w.glob(op == NEW1) = o;
        break;
    }
    case SET0: case SET0b: case SET0c: *w.glob(0) = w.v[op - SET0]; break;
    case NIL0: case NIL1: nkxValueSetNil(vm, w.glob(op - NIL0)); break;
    case X01: w.field(0, 1); break;
    case X10: w.field(1, 0); break;
    case X12: w.field(1, 2); break;
    case XNIL0: w.field(0, -1); break;
    case ACQ0: case ACQ1: case ACQ2: case ACQ3: nkxVmObjectAcquireHandle(vm, &w.v[objOf(op)]); break;
    case REL0: case REL1: case REL2: case REL3: nkxVmObjectReleaseHandle(vm, &w.v[objOf(op)]); wantErr = before.cnt[objOf(op)] == 0; break;
    case GC: nkxVmGarbageCollect(vm); break;
    case SHRINK: nkxVmGarbageCollect(vm); nkxVmShrink(vm); if(!w.plain) w.refetch(); break;
    case SAVE: {
        nkxVmGarbageCollect(vm);
        Stream s; if(!h->save(s)) { c.fail("saving failed"); return true; }
        Host *n = new Host; n->create(); n->natives();
        n->nextRes = h->nextRes;
        Stream t; t.buf = s.buf;
        if(!n->restore(t)) { c.fail("restoring failed: %s", n->errors().c_str()); delete n; return true; }
        nkxSetGarbageCollectionInterval(n->vm, 3);
        w.all.push_back(n); w.h = n; if(!w.plain) w.refetch();
        // the saved VM is still intact
        { World *o = nullptr; (void)o; }
        break;
    }
    case CALL0: case CALL1: {
        NKValue *f = nkxVmFindGlobalVariable(vm, nullptr, "touch"); NKValue fv = *f, r; memset(&r, 0, sizeof r);
        nkxVmCallFunction(vm, &fv, 1, &w.v[op - CALL0], &r);
        if(r.type != NK_VALUETYPE_OBJECTID || r.objectId != w.v[op - CALL0].objectId) c.fail("the call did not answer its argument");
        break;
    }
    case BADREL: { NKValue b; memset(&b, 0, sizeof b); nkxValueSetInt(vm, &b, 5); nkxVmObjectReleaseHandle(vm, &b); wantErr = 1; break; }
    case BADACQ: { NKValue b; memset(&b, 0, sizeof b); nkxValueSetNil(vm, &b); nkxVmObjectAcquireHandle(vm, &b); wantErr = 1; break; }
    case BADCOUNT: { NKValue b; memset(&b, 0, sizeof b); nkxValueSetString(vm, &b, "s"); if(nkxVmObjectGetExternalHandleCount(vm, &b)) c.fail("a string has a handle count"); wantErr = 1; break; }
    case RUN: nkxVmIterate(vm, 300); nkxVmGarbageCollect(vm); break;
    }
    nkuint32_t got = nkxGetErrorCount(w.h->vm) - (op == SAVE ? 0 : ec);
    if(got != wantErr) c.fail("'%s' reported %u errors, expected %u", NM[op], got, wantErr);
    if(!c.failed()) check(c, w, NM[op]);
    c.trans();
    return true;
}
static void history(Case &c, const vector<int> &ops, bool plain = false) {
    string d; M probe;
    for(int o : ops) { if(!mstep(probe, o)) return; d += string(NM[o]) + "; "; }
    c.descs((plain ? "plain objects: " : "") + d);
    World w; w.plain = plain;
    if(!w.h->load(SRC)) { c.fail("does not load: %s", w.h->errors().c_str()); return; }
    nkxSetGarbageCollectionInterval(w.h->vm, 3);
    nkxSetGarbageCollectionNewObjectInterval(w.h->vm, 2);
    nkxVmIterate(w.h->vm, 40);
    for(int o : ops) { apply(c, w, o); c.state(hashStr(w.m.key())); if(c.failed()) return; }
    // the end: everything collectable goes
    nkxVmGarbageCollect(w.h->vm); w.m.collect(); check(c, w, "final gc");
    for(Host *h : w.all) {
        int made = w.m.made; (void)made;
        h->destroy();
        for(auto &p : h->problems) c.fail("%s", p.c_str());
        if(!h->live.empty()) c.fail("%zu objects were not cleaned up by deletion", h->live.size());
        for(auto &x : h->cleaned) if(x.second != 1) c.fail("object %d cleaned up %d times", x.first, x.second);
    }
    c.trace(); c.nontrivial(hashStr(d) + plain);
    c.outcome(w.m.bad ? "with a reported misuse" : "without misuse");
}

// Native data that keeps a handle of its own and lets go of it in its cleanup callback: objects K0..K2, a root object
// whose fields keep those it names, and cleanup callbacks that do other things with the object they kept as well.
enum { NK = 3 };
namespace keepers {
enum { MORE_NONE, MORE_TOUCH, MORE_NEW, MORE_TWICE, NMORE };
struct Kept; struct KWorld;
struct Kept { KWorld *w; int id; bool holds; NKValue held; };
struct KWorld { NKVM *vm = nullptr; NKVMExternalDataTypeID t; NKValue root, v[NK]; Kept d[NK]; int cleaned[NK] = {}; int more = 0; bool deleting = false; string problem; };
static void cleanup(NKVM *vm, NKValue *, void *data) {
    Kept *k = (Kept *)data; if(!k) return;
    KWorld &w = *k->w;
    w.cleaned[k->id]++;
    if(!k->holds) return;
    k->holds = false;
    switch(w.more) {
    case MORE_TOUCH: { NKValue key; memset(&key, 0, sizeof key); nkxValueSetInt(vm, &key, 9); NKValue *e = nkxVmObjectFindOrAddEntry(vm, &k->held, &key, nkfalse); if(e) nkxValueSetInt(vm, e, 1); else if(!w.deleting) w.problem = "no field could be added to an object that is held"; break; }
    case MORE_NEW: { NKValue o; memset(&o, 0, sizeof o); nkxCreateObject(vm, &o); break; }
    case MORE_TWICE: nkxVmObjectAcquireHandle(vm, &k->held); nkxVmObjectReleaseHandle(vm, &k->held); break;
    }
    nkxVmObjectReleaseHandle(vm, &k->held);
}
struct KM {
    bool alive[NK] = {true, true, true}, root[NK] = {true, true, true};
    int host[NK] = {}, keeps[NK] = {-1, -1, -1}, cleaned[NK] = {};
    int count(int j) const { int n = host[j]; for(int i = 0; i < NK; i++) if(alive[i] && keeps[i] == j) n++; return n; }
    void collect() { // one pass: what is held when it begins survives it
        bool stay[NK]; for(int i = 0; i < NK; i++) stay[i] = alive[i] && (root[i] || count(i));
        for(int i = 0; i < NK; i++) if(alive[i] && !stay[i]) { alive[i] = false; keeps[i] = -1; cleaned[i]++; }
    }
};
enum { HACQ = 0, HREL = HACQ + NK, KEEP = HREL + NK, UNROOT = KEEP + NK * NK, COLLECT = UNROOT + NK, NKOPS };
static bool mstep(KM &m, int op) {
    if(op == COLLECT) { m.collect(); return true; }
    if(op >= UNROOT) { int i = op - UNROOT; if(!m.alive[i] || !m.root[i]) return false; m.root[i] = false; return true; }
    if(op >= KEEP) { int i = (op - KEEP) / NK, j = (op - KEEP) % NK; if(!m.alive[i] || !m.alive[j] || m.keeps[i] >= 0) return false; m.keeps[i] = j; return true; }
    if(op >= HREL) { int j = op - HREL; if(!m.alive[j] || !m.host[j]) return false; m.host[j]--; return true; }
    if(!m.alive[op]) return false; m.host[op]++; return true;
}
static string opName(int op) {
    if(op == COLLECT) return "collect";
    if(op >= UNROOT) return strf("unroot K%d", op - UNROOT);
    if(op >= KEEP) return strf("K%d keeps K%d", (op - KEEP) / NK, (op - KEEP) % NK);
    if(op >= HREL) return strf("host releases K%d", op - HREL);
    return strf("host holds K%d", op);
}
static bool one(Case &c, const vector<int> &ops, int more) {
    KM m; string d; for(int o : ops) { if(!mstep(m, o)) return false; d += opName(o) + "; "; }
    m = KM();
    static const char *MORE[] = {"lets go", "adds a field to what it kept and lets go", "creates an object and lets go", "takes and drops another handle and lets go"};
    c.descs(strf("%scleanup %s", d.c_str(), MORE[more]));
    KWorld w; w.more = more; NKVM *vm = w.vm = nkxVmCreate();
    w.t = nkxVmRegisterExternalType(vm, "K", nullptr, cleanup, nullptr);
    memset(&w.root, 0, sizeof w.root); nkxCreateObject(vm, &w.root); nkxVmObjectAcquireHandle(vm, &w.root);
    for(int i = 0; i < NK; i++) {
        memset(&w.v[i], 0, sizeof w.v[i]); nkxCreateObject(vm, &w.v[i]);
        w.d[i] = Kept{&w, i, false, {}};
        nkxVmObjectSetExternalType(vm, &w.v[i], w.t); nkxVmObjectSetExternalData(vm, &w.v[i], &w.d[i]);
        NKValue key; memset(&key, 0, sizeof key); nkxValueSetInt(vm, &key, i);
        NKValue *e = nkxVmObjectFindOrAddEntry(vm, &w.root, &key, nkfalse); if(e) *e = w.v[i];
    }
    auto check = [&](const string &op) {
        for(int i = 0; i < NK; i++) {
            if(w.cleaned[i] != m.cleaned[i]) { c.fail("after '%s': K%d has been cleaned up %d times, expected %d (%s)", op.c_str(), i, w.cleaned[i], m.cleaned[i], m.alive[i] ? m.root[i] ? "it is reachable" : "a handle is held" : "nothing holds it"); return; }
            if(m.alive[i] && nkxVmObjectGetExternalHandleCount(vm, &w.v[i]) != (nkuint32_t)m.count(i)) { c.fail("after '%s': K%d's handle count is %u, %d are held", op.c_str(), i, nkxVmObjectGetExternalHandleCount(vm, &w.v[i]), m.count(i)); return; }
        }
        if(!w.problem.empty()) c.fail("after '%s': %s", op.c_str(), w.problem.c_str());
        if(nkxVmHasErrors(vm)) { string t(nkxGetErrorLength(vm) + 2, 0); nkxGetErrorText(vm, &t[0]); c.fail("after '%s': error %s", op.c_str(), t.c_str()); }
    };
    auto apply = [&](int op) {
        mstep(m, op);
        if(op == COLLECT) nkxVmGarbageCollect(vm);
        else if(op >= UNROOT) { NKValue key; memset(&key, 0, sizeof key); nkxValueSetInt(vm, &key, op - UNROOT); nkxVmObjectClearEntry(vm, &w.root, &key); }
        else if(op >= KEEP) { Kept &k = w.d[(op - KEEP) / NK]; k.holds = true; k.held = w.v[(op - KEEP) % NK]; nkxVmObjectAcquireHandle(vm, &k.held); }
        else if(op >= HREL) nkxVmObjectReleaseHandle(vm, &w.v[op - HREL]);
        else nkxVmObjectAcquireHandle(vm, &w.v[op]);
        c.trans(); check(opName(op));
    };
    for(int o : ops) { apply(o); if(c.failed()) break; }
    if(!c.failed() && ops.size() && ops.back() == COLLECT) { // chains of keepers go one link per collection
        for(int i = 0; i < NK && !c.failed(); i++) apply(COLLECT);
    }
    w.deleting = true;
    nkxVmDelete(vm);
    for(int i = 0; i < NK; i++) if(w.cleaned[i] != 1) c.fail("K%d was cleaned up %d times when everything was deleted", i, w.cleaned[i]);
    c.state(hashStr(d) + more);
    return true;
}
}

void define(Registry &r) {
    r.level = "model_checking";
    r.rule = "all histories of handle, reference, collection, compaction, save/restore and call operations to the stated depth; and breadth-first over the model's states: every operation is applied to every reachable state (shortest history to it), comparing existence, counts, fields, variables and reported errors after every operation; and all histories in which native data keeps handles of its own and releases them from its cleanup callback";
    bool th = r.thorough();
    int depth = th ? 5 : 4;
    uint64_t n = seqCount(NOPS, depth);
    r.add("history", n, [](uint64_t i, Case &c) { history(c, seqDecode(i, NOPS)); if(i % 30011 == 0) c.sample(strf("history %llu", (unsigned long long)i)); });
    // breadth-first over model states; every operation is applied to every state
    struct Graph { vector<vector<int>> paths; vector<std::pair<int, int>> edges; bool closed = true; size_t states = 0, longest = 0; };
    auto explore = [](Graph &g, const vector<int> &prefix, const vector<int> &ops, int maxCnt, size_t cap) {
        std::map<string, int> seen; vector<M> st;
        M m0; for(int o : prefix) mstep(m0, o);
        st.push_back(m0); g.paths.push_back(prefix); seen[m0.key()] = 0;
        for(size_t i = 0; i < st.size(); i++) for(int o : ops) {
            M m = st[i]; if(!mstep(m, o)) continue;
            g.edges.push_back({(int)i, o});
            bool big = false; for(int k : m.cnt) if(k > maxCnt) big = true;
            if(big || (st[i].bad && m.bad)) continue; // after an error one more operation is explored
            if(seen.count(m.key())) continue;
            if(st.size() >= cap) { g.closed = false; continue; }
            seen[m.key()] = st.size(); st.push_back(m); vector<int> p = g.paths[i]; p.push_back(o); g.paths.push_back(p);
        }
        g.states = st.size(); for(auto &p : g.paths) g.longest = std::max(g.longest, p.size());
    };
    static Graph full, lists, plain;
    full = lists = plain = Graph();
    vector<int> every, handleOps = {ACQ0, ACQ1, ACQ2, ACQ3, REL0, REL1, REL2, REL3, GC, SHRINK, SAVE}, plainOps;
    for(int o = 0; o < NOPS; o++) { every.push_back(o); if(o != SHRINK) plainOps.push_back(o); }
    int maxCnt = th ? 3 : 2;
    explore(full, {}, every, maxCnt, th ? 60000 : 5000);
    explore(lists, {NEWFREE, NEWFREE, NEWFREE, NEWFREE}, handleOps, maxCnt, th ? 60000 : 20000);
    explore(plain, {}, plainOps, maxCnt, th ? 60000 : 3000);
    r.add("states", full.edges.size(), [](uint64_t i, Case &c) { vector<int> p = full.paths[full.edges[i].first]; p.push_back(full.edges[i].second); history(c, p); });
    // the order in which four objects' handles are acquired and released
    r.add("lists", lists.edges.size() * 5, [](uint64_t i, Case &c) {
        Idx x(i); int after = x.pick(5); auto &e = lists.edges[x.pick(lists.edges.size())];
        vector<int> p = lists.paths[e.first]; p.push_back(e.second);
        // and then let go of one that is still held, if any
        if(after) { M m; for(int o : p) mstep(m, o); int k = after - 1; if(!m.cnt[k] || m.bad) return; while(m.cnt[k]--) p.push_back(k == 3 ? REL3 : REL0 + k); p.push_back(GC); }
        history(c, p);
    });
    // objects without native type or data
    r.add("plain", plain.edges.size(), [](uint64_t i, Case &c) { vector<int> p = plain.paths[plain.edges[i].first]; p.push_back(plain.edges[i].second); history(c, p, true); });
    // every history of the given length, and its prefixes with it
    int kdepth = th ? 5 : 4;
    uint64_t kn = 1; for(int i = 0; i < kdepth - 2; i++) kn *= keepers::NKOPS;
    r.add("keepers", kn * keepers::NMORE, [kdepth](uint64_t i, Case &c) {
        Idx x(i); int more = x.pick(keepers::NMORE); vector<int> pre; for(int k = 0; k < kdepth - 2; k++) pre.push_back(x.pick(keepers::NKOPS));
        int ran = 0;
        for(int a = 0; a < keepers::NKOPS && !c.failed(); a++) { vector<int> p = pre; p.push_back(a); ran += keepers::one(c, p, more); for(int b = 0; b < keepers::NKOPS && !c.failed(); b++) { p.push_back(b); if(!c.failed()) ran += keepers::one(c, p, more); p.pop_back(); } }
        if(ran) { c.trace(); c.outcome("cleanup callbacks that let go of handles"); }
    });
    auto graph = [](const Graph &g) { return strf("%zu states%s, %zu transitions, longest history %zu", g.states, g.closed ? " (all reachable ones within the count bound)" : " (breadth-first until the state cap)", g.edges.size(), g.longest + 1); };
    r.bounds = strf("%d operations on up to %d objects, two script variables and one field each; all histories to length %d; model states told apart also by the order in which handles were acquired, handle counts to %d: all operations: %s; handle operations on four objects: %s; objects without native data: %s; handles kept by native data: all histories to length %d over %d objects, %d kinds of cleanup callback", (int)NALL, NO, depth, maxCnt + 1, graph(full).c_str(), graph(lists).c_str(), graph(plain).c_str(), kdepth, (int)NK, (int)keepers::NMORE);
    r.assumptions = {"the host obtains object values again after compacting or restoring, by enumeration of its native type", "the handle count's own integer range is not exhausted"};
}
