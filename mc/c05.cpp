// uses: lang.cpp corpus.cpp
// C05: collections at every instruction boundary, at every automatic interval and inside natives are invisible.
#include "corpus.h"
#include "lang.h"
#include <string.h>
using namespace mc;
using corpus::Run;
using std::string;
using std::vector;

enum Mode { AT, EVERY, EVERY_NATIVE, AUTO, PAIR, WRAP };
struct Plan { Mode m; uint64_t k1 = 0, k2 = 0; uint32_t interval = 0, newObj = 0; };

// Makes the VM one that has collected `pass` times before (by going through a save whose count is altered).
static bool setPass(Case &c, Host &h, uint32_t pass) {
    static const uint32_t MARK = 48879;
    for(int k = 0; k < 3; k++) nkxVmGarbageCollect(h.vm);
    nkxSetGarbageCollectionInterval(h.vm, MARK);
    Stream s;
    if(!h.save(s)) return false;
    uint32_t pat[2] = {3, MARK}; string q((char *)pat, 8);
    size_t at = s.buf.find(q);
    if(at == string::npos || s.buf.find(q, at + 1) != string::npos) { c.note(0); return false; }
    memcpy(&s.buf[at], &pass, 4);
    if(!h.restore(s)) { c.fail("restoring failed: %s", h.errors().c_str()); return false; }
    nkxSetGarbageCollectionInterval(h.vm, 60000); nkxSetGarbageCollectionNewObjectInterval(h.vm, 0x7fffffff);
    return true;
}
static Run perturbed(Case &c, const string &src, const Plan &p, const Run *base = nullptr) {
    Run r;
    Host h;
    r.ok = corpus::start(h, src);
    if(!r.ok) { c.fail("does not load: %s", h.errors().c_str()); return r; }
    if(p.m == EVERY_NATIVE) h.gcInNatives = true;
    if(p.m == AUTO) { nkxSetGarbageCollectionInterval(h.vm, p.interval); nkxSetGarbageCollectionNewObjectInterval(h.vm, p.newObj); }
    if(p.m == WRAP && !setPass(c, h, (uint32_t)0 - (uint32_t)p.k2)) { h.destroy(); r = base ? *base : r; return r; }
    while(!nkxVmProgramHasEnded(h.vm) && !nkxVmHasErrors(h.vm) && r.n < corpus::MAXINST) {
        if(p.m == WRAP && r.n % p.k1 == p.k1 - 1) nkxVmGarbageCollect(h.vm);
        if(p.m == EVERY || p.m == EVERY_NATIVE || ((p.m == AT || p.m == PAIR) && (r.n == p.k1 || (p.m == PAIR && r.n == p.k2)))) nkxVmGarbageCollect(h.vm);
        nkxVmIterate(h.vm, 1); r.n++;
    }
    if(p.m == EVERY || p.m == AT) if(!nkxVmHasErrors(h.vm)) nkxVmGarbageCollect(h.vm);
    corpus::finish(h, r);
    c.trans(r.n);
    h.destroy();
    for(auto &q : h.problems) c.fail("%s", q.c_str());
    return r;
}
static void same(Case &c, const Run &base, const Run &r, const char *what) {
    c.trace();
    c.state(hashStr(r.key()));
    if(base.key() != r.key() || base.n != r.n) c.fail("%s\n  undisturbed: %s (%llu instructions)\n  collected:   %s (%llu instructions)", what, base.key().c_str(), (unsigned long long)base.n, r.key().c_str(), (unsigned long long)r.n);
}

// Cleanup callbacks that use the API: tables of garbage, kept objects and garbage with native data whose cleanup callback
// stores new objects in an object that is held, calls the script or asks for a collection itself.
namespace callbacks {
enum { STORE, STORE_DEEP, STORE_STRING, MAKE, CALL, COLLECT, CALL_COLLECT, ACTIONS };
static const char *AN[] = {"stores a new object", "stores two new objects", "stores a new string", "creates an object with native data", "calls the script", "asks for a collection", "calls the script, which collects"};
struct World { NKVM *vm; int action; NKValue log, fn; int n = 0; std::map<int, int> runs; bool deleting = false; };
static World *W;
static void put(NKVM *vm, NKValue *o, const char *k, NKValue v) { NKValue key; memset(&key, 0, sizeof key); nkxValueSetString(vm, &key, k); NKValue *e = nkxVmObjectFindOrAddEntry(vm, o, &key, nkfalse); if(e) *e = v; }
static void cleanup(NKVM *vm, NKValue *, void *data) {
    if(!data) return;
    int id = (int)(intptr_t)data; NKValue v, x; memset(&v, 0, sizeof v); memset(&x, 0, sizeof x); nkxValueSetInt(vm, &x, id);
    string k = strf("%d", id); W->runs[id]++;
    if(id > 100) return; // made by a callback
    W->n++;
    if(W->deleting && W->action < MAKE) return;
    switch(W->action) {
    case STORE: nkxCreateObject(vm, &v); put(vm, &v, "id", x); put(vm, &W->log, k.c_str(), v); break;
    case STORE_DEEP: { NKValue in; memset(&in, 0, sizeof in); nkxCreateObject(vm, &in); nkxCreateObject(vm, &v); put(vm, &in, "id", x); put(vm, &v, "in", in); put(vm, &W->log, k.c_str(), v); break; }
    case STORE_STRING: nkxValueSetString(vm, &v, ("text of " + k).c_str()); put(vm, &W->log, k.c_str(), v); break;
    case MAKE: // (also while the VM is being deleted)
        nkxCreateObject(vm, &v); nkxVmObjectSetExternalType(vm, &v, nkxVmFindExternalType(vm, "Busy")); nkxVmObjectSetExternalData(vm, &v, (void *)(intptr_t)(100 + id));
        if(!W->deleting) put(vm, &W->log, k.c_str(), x);
        break;
    case COLLECT: nkxVmGarbageCollect(vm); put(vm, &W->log, k.c_str(), x); break;
    default: { NKValue r; memset(&r, 0, sizeof r); nkxVmCallFunction(vm, &W->fn, 1, &x, &r); }
    }
}
static void make(NKVMFunctionCallbackData *d) {
    static NKVMExternalDataTypeID t; t = nkxVmFindExternalType(d->vm, "Busy");
    nkxCreateObject(d->vm, &d->returnValue); nkxVmObjectSetExternalType(d->vm, &d->returnValue, t); nkxVmObjectSetExternalData(d->vm, &d->returnValue, (void *)(intptr_t)d->arguments[0].intData);
}
static void run(Case &c, const vector<int> &kinds, int action, int when) {
    string d, src = "var log = object(); var keep = object(); var tmp;\nfunction told(id) { var o = object(); o.id = id; " + string(action == CALL_COLLECT ? "gc(); " : "") + "var more = object(); more.o = o; log[\"\" + id] = more; return o; }\n", want;
    for(size_t k = 0; k < kinds.size(); k++) {
        string n = std::to_string(k + 1);
        d += kinds[k] == 0 ? "garbage " : kinds[k] == 1 ? "kept " : kinds[k] == 2 ? "native " : "kept native ";
        if(kinds[k] == 0) src += "tmp = object(); tmp.s = \"g\" + " + n + ";";
        else if(kinds[k] == 1) src += "tmp = object(); tmp.s = \"k\" + " + n + "; keep[" + n + "] = tmp;";
        else src += "tmp = make(" + n + ");" + string(kinds[k] == 3 ? " keep[" + n + "] = tmp;" : "");
        src += " tmp = nil;\n";
    }
    src += when == 0 ? "hook(1);\n" : when == 1 ? "gc();\n" : "{ var i; for(i = 0; i < 40; ++i) { tmp = object(); } } tmp = nil;\n"; // by the host between instructions, by a native, by itself
    c.desc("objects: %s- the cleanup callback %s; collection %s", d.c_str(), AN[action], when == 0 ? "by the host" : when == 1 ? "by a native" : "by itself");
    World w; W = &w; w.action = action;
    Host h; bool flag = false; h.onHook = [&](Host &, NKVMFunctionCallbackData *) { flag = true; };
    h.create(); h.compiler(); h.natives(); w.vm = h.vm;
    nkxVmRegisterExternalType(h.vm, "Busy", nullptr, cleanup, nullptr);
    nkxVmSetupExternalFunction(h.vm, h.cs, "make", make, nktrue, 1, NK_VALUETYPE_INT);
    nkxCompilerCompileScript(h.cs, src.c_str(), "busy"); h.finalize();
    if(h.hasErrors()) { c.fail("harness: %s", h.errors().c_str()); return; }
    nkxSetGarbageCollectionInterval(h.vm, when == 2 ? 16 : 60000); nkxSetGarbageCollectionNewObjectInterval(h.vm, when == 2 ? 3 : 0x7fffffff);
    int natives = 0; for(int k : kinds) natives += k == 2;
    auto glob = [&](const char *n) { return nkxVmFindGlobalVariable(h.vm, nullptr, n); };
    bool held = false;
    for(int n = 0; n < 20000 && !nkxVmProgramHasEnded(h.vm) && !h.hasErrors(); n++) {
        nkxVmIterate(h.vm, 1);
        if(!held && glob("log")->type == NK_VALUETYPE_OBJECTID) { held = true; w.log = *glob("log"); nkxVmObjectAcquireHandle(h.vm, &w.log); }
        w.fn = *glob("told");
        if(flag) { flag = false; nkxVmGarbageCollect(h.vm); }
    }
    c.trans();
    for(int round = 0; round < 2 && !c.failed(); round++) { // everything stored is there, and stays there
        if(h.hasErrors()) { c.fail("%s", h.errors().c_str()); break; }
        auto get = [&](NKValue *o, const char *k) -> NKValue * { NKValue key; memset(&key, 0, sizeof key); nkxValueSetString(h.vm, &key, k); return nkxVmObjectFindOrAddEntry(h.vm, o, &key, nktrue); };
        if(round && w.n != natives) c.fail("%d cleanup callbacks for %d objects", w.n, natives);
        int seen = 0;
        for(size_t k = 0; k < kinds.size() && !c.failed(); k++) {
            string n = std::to_string(k + 1); NKValue *e = nullptr;
            if(kinds[k] == 2) {
                e = get(&w.log, n.c_str()); if(!e) continue; seen++;
                if(action == STORE && e->type == NK_VALUETYPE_OBJECTID) e = get(e, "id");
                else if(action == STORE_DEEP && e->type == NK_VALUETYPE_OBJECTID) { e = get(e, "in"); if(e) e = get(e, "id"); }
                else if((action == CALL || action == CALL_COLLECT) && e->type == NK_VALUETYPE_OBJECTID) { e = get(e, "o"); if(e) e = get(e, "id"); }
                else if(action == STORE_STRING) { if(h.repr(e).find("text of " + n) == string::npos) c.fail("what was stored for object %zu is %s", k, h.repr(e).c_str()); continue; }
                if(!e || e->type != NK_VALUETYPE_INT || e->intData != (int)k + 1) c.fail("what the cleanup callback of object %zu stored is lost: %s", k, e ? h.repr(e).c_str() : "no field");
            } else if(kinds[k] == 1) {
                NKValue key; memset(&key, 0, sizeof key); nkxValueSetInt(h.vm, &key, k + 1); e = nkxVmObjectFindOrAddEntry(h.vm, glob("keep"), &key, nktrue);
                NKValue *f = e && e->type == NK_VALUETYPE_OBJECTID ? get(e, "s") : nullptr;
                if(!f || h.repr(f).find("k" + n) == string::npos) c.fail("kept object %zu is lost", k);
            }
        }
        if(seen != w.n) c.fail("%d of %d things stored are there", seen, w.n);
        nkxVmGarbageCollect(h.vm);
    }
    if(h.hasErrors() && !c.failed()) c.fail("%s", h.errors().c_str());
    if(held) nkxVmObjectReleaseHandle(h.vm, &w.log);
    w.deleting = true; h.destroy(); W = nullptr;
    if(!c.failed()) for(size_t k = 0; k < kinds.size(); k++) if(kinds[k] >= 2 && w.runs[k + 1] != 1) c.fail("%d cleanup callbacks for object %zu", w.runs[k + 1], k);
    if(!c.failed() && action == MAKE) for(size_t k = 0; k < kinds.size(); k++) if(kinds[k] >= 2 && w.runs[k + 101] != 1) c.fail("%d cleanup callbacks for the object made by the cleanup callback of object %zu", w.runs[k + 101], k);
    for(auto &p : h.problems) c.fail("%s", p.c_str());
    c.nontrivial(hashStr(d) * 32 + action * 4 + when); c.trace(); c.state(w.n * 100 + action * 4 + when); c.outcome(AN[action]);
}
}

void define(Registry &r) {
    r.rule = "collection forced at each instruction boundary of each program (one, every, every pair in the thorough tier), inside native calls, and with every small automatic interval, and with the count of collections (32 bits) starting again at every collection; compared with the same program without collection";
    bool th = r.thorough();
    r.noteName("executions whose collection count could not be set");
    static vector<Run> base;
    auto &P = corpus::all();
    for(auto &p : P) base.push_back(corpus::baseline(p.src));
    // the undisturbed executions themselves agree with the reference semantics
    r.add("baseline", P.size(), [&P](uint64_t i, Case &c) {
        c.descs(P[i].src);
        Run &b = base[i];
        if(!b.ok) { c.fail("corpus program %s does not load: %s", P[i].name, b.err.c_str()); return; }
        if(b.n >= corpus::MAXINST) c.fail("corpus program %s does not end", P[i].name);
        if(!(P[i].flags & corpus::FAILS) != b.err.empty()) c.fail("corpus program %s: unexpected error state: %s", P[i].name, b.err.c_str());
        if(P[i].flags & corpus::PURE) {
            lang::Result l = lang::run(P[i].src);
            if(!l.compiled || !l.unspecified.empty()) c.fail("harness: reference: %s %s", l.why.c_str(), l.unspecified.c_str());
            else if(l.out != b.out) c.fail("undisturbed run differs from the language rules\n library %s\n rules %s", b.out.c_str(), l.out.c_str());
        }
        c.trace();
    });
    for(size_t p = 0; p < P.size(); p++) {
        uint64_t n = base[p].n;
        r.add(strf("at/%s", P[p].name), n + 1, [&P, p](uint64_t i, Case &c) {
            c.desc("collect before instruction %llu of: %s", (unsigned long long)i, P[p].src);
            Plan pl{AT}; pl.k1 = i;
            same(c, base[p], perturbed(c, P[p].src, pl), "collection at one point changed the outcome");
            if(i % 50 == 0) c.sample(strf("%s, collection before instruction %llu", P[p].name, (unsigned long long)i));
        });
        if(th && n < 700) r.add(strf("pair/%s", P[p].name), n * n, [&P, p, n](uint64_t i, Case &c) {
            if(i / n >= i % n) return;
            c.desc("collect before instructions %llu and %llu of: %s", (unsigned long long)(i / n), (unsigned long long)(i % n), P[p].src);
            Plan pl{PAIR}; pl.k1 = i / n; pl.k2 = i % n;
            same(c, base[p], perturbed(c, P[p].src, pl), "collection at two points changed the outcome");
        });
    }
    static const vector<uint32_t> IV = {1, 2, 3, 4, 5, 7, 11, 16, 33, 100}, NO = {0, 1, 2, 3, 5, 1000};
    r.add("modes", P.size() * (2 + IV.size() * NO.size()), [&P](uint64_t i, Case &c) {
        size_t p = i % P.size(), m = i / P.size();
        Plan pl{EVERY};
        if(m == 1) pl.m = EVERY_NATIVE;
        if(m >= 2) { pl.m = AUTO; pl.interval = IV[(m - 2) % IV.size()]; pl.newObj = NO[(m - 2) / IV.size()]; }
        c.desc("%s (interval %u, new-object interval %u): %s", m == 0 ? "collect before every instruction" : m == 1 ? "collect before every instruction and in natives" : "automatic collection", pl.interval, pl.newObj, P[p].src);
        same(c, base[p], perturbed(c, P[p].src, pl), "collection changed the outcome");
    });
    // a VM that has collected 2^32 - 1 times before: the count starts again at the t-th collection, collecting every d instructions
    static const vector<uint64_t> WD = {2, 3, 5, 8, 13, 21, 34};
    for(size_t p = 0; p < P.size(); p++) {
        uint64_t n = std::min<uint64_t>(base[p].n, 3000); vector<std::pair<uint64_t, uint64_t>> w;
        for(uint64_t d : WD) for(uint64_t t = 1; t <= n / d + 1; t += n > 1000 && !th ? 3 : 1) w.push_back({d, t});
        r.add(strf("wrap/%s", P[p].name), w.size(), [&P, p, w](uint64_t i, Case &c) {
            Plan pl{WRAP}; pl.k1 = w[i].first; pl.k2 = w[i].second;
            c.desc("collect every %llu instructions, the count starting again at collection %llu: %s", (unsigned long long)pl.k1, (unsigned long long)pl.k2, P[p].src);
            same(c, base[p], perturbed(c, P[p].src, pl, &base[p]), "collection changed the outcome when the number of collections wrapped around");
        });
    }
    // all sequences of heap actions
    uint64_t A = corpus::heapActions();
    unsigned D = th ? 4 : 3;
    r.add("heap", seqCount(A, D) * 2, [A, th](uint64_t i, Case &c) {
        bool fn = i & 1;
        auto seq = seqDecode(i / 2, A);
        string src = corpus::heapProgram(seq, fn);
        c.descs(src);
        Run b = corpus::baseline(src);
        if(!b.ok) { c.fail("harness: does not load: %s", b.err.c_str()); return; }
        Plan pl{EVERY_NATIVE};
        same(c, b, perturbed(c, src, pl), "collection before every instruction and in natives changed the outcome");
        pl.m = AUTO; pl.interval = 2 + i % 5; pl.newObj = i % 3;
        same(c, b, perturbed(c, src, pl), "automatic collection changed the outcome");
        if(seq.size() <= (th ? 3u : 2u)) for(uint64_t t = 1; t < 4; t++) { Plan q{WRAP}; q.k1 = 3 + i % 11; q.k2 = t; same(c, b, perturbed(c, src, q, &b), "collection changed the outcome when the number of collections wrapped around"); }
        if(seq.size() <= (th ? 3u : 2u)) for(uint64_t k = 0; k <= b.n; k++) { Plan q{AT}; q.k1 = k; same(c, b, perturbed(c, src, q), strf("collection before instruction %llu changed the outcome", (unsigned long long)k).c_str()); if(c.failed()) break; }
    });
    // n values in every kind of place
    int HN = th ? 140 : 34;
    r.add("holders", corpus::HOLDERS * corpus::SHAPES * (HN + 1), [](uint64_t i, Case &c) {
        Idx x(i); int kind = x.pick(corpus::HOLDERS), shape = x.pick(corpus::SHAPES), n = x.v;
        string src = corpus::holder(kind, shape, n);
        c.desc("%d x %s in %s", n, corpus::shapeNames[shape], corpus::holderNames[kind]);
        Run b = corpus::baseline(src); uint64_t m = corpus::marker(src);
        if(!b.ok || !b.err.empty() || !b.ended || m == ~0ull) { c.fail("harness: %s: %s", b.err.c_str(), src.c_str()); return; }
        c.nontrivial(i);
        Plan pl{AT}; pl.k1 = m; same(c, b, perturbed(c, src, pl), "collection while the values were kept changed the outcome");
        if(n <= 12 || n % 8 < 2) { pl.m = EVERY_NATIVE; same(c, b, perturbed(c, src, pl), "collection before every instruction and in natives changed the outcome"); }
        pl.m = AUTO; pl.interval = 1 + n % 7; pl.newObj = n % 3; same(c, b, perturbed(c, src, pl), "automatic collection changed the outcome");
    });
    unsigned CK = th ? 7 : 5;
    r.add("callbacks", seqCount(4, CK) * callbacks::ACTIONS * 3, [](uint64_t i, Case &c) { Idx x(i); int a = x.pick(callbacks::ACTIONS), w = x.pick(3); callbacks::run(c, seqDecode(x.v, 4), a, w); });
    r.bounds = strf("up to %d values of 5 shapes in 14 kinds of places; %zu programs, every boundary; %zu automatic interval settings; the count starting again at each collection for 7 distances between collections; all tables of up to %u objects of 4 kinds x 6 things a cleanup callback does x 3 ways of collecting; all sequences of up to %u of %llu heap actions in global and local frames (every instruction, inside natives, automatic; single points for shorter sequences)%s", HN, P.size(), IV.size() * NO.size(), CK, D, (unsigned long long)A, th ? "; every pair of boundaries" : "");
    r.assumptions = {"collections happen between instructions or inside native calls, as the API allows", "native data marks what it refers to (gc mark callback), values returned by a native are not held across a forced collection inside the same native"};
}
