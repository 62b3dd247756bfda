// C23: native types, native functions and subsystems keep their registration and life-cycle contract. All histories of
// registrations, object operations, collections, saves and errors up to a depth, in lock-step with a model that is
// compared completely after every step; every allocation failure; all numbers of registrations.
#include "host.h"
#include <memory>
using namespace mc;
using std::string;
using std::vector;

static const int NT = 3, NS = 3, NO = 2;
static const char *TNAME[] = {"A", "AB", "coroutin"};
static const char *SNAME[] = {"bdb", "cbc", "s"}; // the first two have the same hash
static const char *FNAME[] = {"f", "fg"};
enum { REGT0, REGT1, REGT2, REGF, REGF_END = REGF + 4, INIT = REGF_END, INIT_END = INIT + NS * 2, NEW0 = INIT_END, NEW1, TYPE, TYPE_END = TYPE + NO * 4, DATA = TYPE_END, DATA_END = DATA + NO * 2, DROP0 = DATA_END, DROP1, SWAP, GC, SAVE, CALL, CALL_END = CALL + 2, MISSING = CALL_END, RAISE, NOPS };
static string opName(int op) {
    if(op < REGF) return strf("register type %s", TNAME[op]);
    if(op < REGF_END) return strf("register function %s/%d", FNAME[(op - REGF) / 2], (op - REGF) % 2);
    if(op < INIT_END) return strf("init subsystem %s with data %d", SNAME[(op - INIT) / 2], (op - INIT) % 2);
    if(op <= NEW1) return strf("o%d = new", op - NEW0);
    if(op < TYPE_END) { int t = (op - TYPE) % 4; return strf("o%d type %s", (op - TYPE) / 4, t < NT ? TNAME[t] : "none"); }
    if(op < DATA_END) return strf("o%d data %s", (op - DATA) / 2, (op - DATA) % 2 ? "fresh" : "null");
    if(op <= DROP1) return strf("o%d = nil", op - DROP0);
    if(op < CALL || op >= MISSING) return op == SWAP ? "o1 = o0" : op == GC ? "gc" : op == SAVE ? "save+restore" : op == MISSING ? "demand unknown subsystem" : "raise error";
    return strf("call function value %d", op - CALL);
}

struct Sess;
struct Tok { Sess *s; int id; };
struct SubTok { Sess *s; int sub, d; };
struct Obj { int type = -1; Tok *tok = nullptr; };
struct Model {
    vector<int> types;                 // registration order
    std::map<std::pair<int, int>, nkuint32_t> funcs; // (name, callback) -> id
    std::map<int, SubTok *> subs;
    std::map<int, Obj> objs;           // by serial
    int o[NO] = {-1, -1};
    int fv[2] = {-1, -1};              // function values held in globals: callback index
    bool bad = false;
};
struct Sess {
    Case *c; Ledger led; NKVM *vm = nullptr; Model m; NKVMExternalDataTypeID tid[NT];
    vector<std::unique_ptr<Tok>> toks; vector<std::unique_ptr<SubTok>> stoks;
    int nextTok = 1, nextObj = 1, called[2] = {0, 0};
    std::map<Tok *, int> cleaned; std::map<Tok *, int> cleanedBy; std::map<SubTok *, int> subCleaned;
    vector<string> writes, reads; // payloads, tagged
    int saves = 0, loads = 0; bool deleting = false, faulty = false;
    string problem;
    void bad(const string &s) { if(problem.empty()) problem = s; }
    Tok *tok() { toks.emplace_back(new Tok{this, nextTok++}); return toks.back().get(); }
};
static Sess *of(NKVM *vm) { return (Sess *)nkxGetUserData(vm); }
template<int T> static void tCleanup(NKVM *vm, NKValue *v, void *data) {
    Sess *s = of(vm); Tok *t = (Tok *)data; (void)v;
    if(!t) return;
    s->cleaned[t]++; s->cleanedBy[t] = T;
}
template<int T> static void tSerialize(NKVM *vm, NKValue *v, void *data) {
    Sess *s = of(vm);
    if(nkxSerializerGetWriteMode(vm)) {
        nkint32_t n = data ? ((Tok *)data)->id : -1, tag = 1000 + T;
        nkxSerializeData(vm, &tag, 4); nkxSerializeData(vm, &n, 4);
        s->writes.push_back(strf("type %d token %d", T, n));
    } else {
        nkint32_t n = 0, tag = 0;
        nkxSerializeData(vm, &tag, 4); nkxSerializeData(vm, &n, 4);
        s->reads.push_back(strf("type %d token %d", tag - 1000, n));
        if(tag != 1000 + T) s->bad(strf("the callback of type %d reads what the callback of type %d wrote", T, tag - 1000));
        if(data) s->bad("a restored object has data before its callback ran");
        if(nkxVmObjectGetExternalType(vm, v).id != s->tid[T].id) s->bad("the serialisation callback got an object of another type");
        Tok *t = nullptr;
        if(n >= 0) { s->toks.emplace_back(new Tok{s, n}); t = s->toks.back().get(); }
        nkxVmObjectSetExternalData(vm, v, t);
    }
}
static void sCleanup(NKVM *vm, void *data) {
    SubTok *t = (SubTok *)data; Sess *s = of(vm);
    if(!t || t->s != s) { s->bad("subsystem cleanup with foreign data"); return; }
    s->subCleaned[t]++;
    if(!s->deleting) s->bad("subsystem cleaned up while the VM is alive");
    if(nkxGetExternalSubsystemData(vm, SNAME[t->sub]) != t) s->bad("the subsystem is not retrievable in its own cleanup");
    // lingering objects are found in emergency cleanup, each exactly once
    if(nkxVmHasAllocationFailure(vm) && s->faulty) for(int ty : s->m.types) {
        nkuint32_t i = 0; NKValue v; std::set<void *> seen; int n = 0, want = 0;
        while(nkxGetNextObjectOfExternalType(vm, s->tid[ty], &v, &i)) { void *d = nkxVmObjectGetExternalData(vm, &v); n++; if(d && !seen.insert(d).second) s->bad("enumerated twice"); }
        // (garbage may have been collected before the failure, but then its callback has run)
        for(auto &o : s->m.objs) if(o.second.type == ty && (o.first == s->m.o[0] || o.first == s->m.o[1] || ((ty == 0 || ty == 2) && o.second.tok && !s->cleaned.count(o.second.tok)))) want++;
        if(n < want) s->bad(strf("emergency cleanup finds %d objects of type %s, %d exist", n, TNAME[ty], want));
    }
}
static void sSerialize(NKVM *vm, void *data) {
    SubTok *t = (SubTok *)data; Sess *s = of(vm);
    if(!t || t->s != s) { s->bad("subsystem serialisation with foreign data"); return; }
    static const int LEN[] = {0, 1, 100};
    if(nkxSerializerGetWriteMode(vm)) {
        string p = strf("%d/%d/", t->sub, t->d) + string(LEN[t->sub], (char)('a' + t->d)); nkuint32_t n = p.size();
        nkxSerializeData(vm, &n, 4); nkxSerializeData(vm, &p[0], n); s->writes.push_back("sub " + p);
    } else {
        nkuint32_t n = 0; nkxSerializeData(vm, &n, 4);
        if(n > 1000) { s->bad("what was written is not what is read back"); return; }
        string p(n, 0); if(n) nkxSerializeData(vm, &p[0], n);
        s->reads.push_back("sub " + p);
        if(atoi(p.c_str()) != t->sub) s->bad(strf("subsystem %s reads another one's data", SNAME[t->sub]));
    }
}
// the second subsystem data set of "s" has no callbacks, the second type has no cleanup, the third no serialisation
static void fn0(NKVMFunctionCallbackData *d) { of(d->vm)->called[0]++; nkxValueSetInt(d->vm, &d->returnValue, 100); }
static void fn1(NKVMFunctionCallbackData *d) { of(d->vm)->called[1]++; nkxValueSetInt(d->vm, &d->returnValue, 101); }
static const NKVMFunctionCallback FN[] = {fn0, fn1};
static string errs(NKVM *vm) { nkuint32_t n = nkxGetErrorLength(vm); string s(n + 1, 0); nkxGetErrorText(vm, &s[0]); return s.c_str(); }
static NKVMExternalDataTypeID regType(NKVM *vm, int t) {
    return nkxVmRegisterExternalType(vm, TNAME[t], t == 2 ? nullptr : t == 0 ? tSerialize<0> : tSerialize<1>, t == 1 ? nullptr : t == 0 ? tCleanup<0> : tCleanup<2>, nullptr);
}
static bool hasCleanup(int t) { return t == 0 || t == 2; }
static bool hasSerial(int t) { return t == 0 || t == 1; }
static bool subCallbacks(int sub, int d) { return !(sub == 2 && d == 1); }
static bool initSub(NKVM *vm, int sub, SubTok *t) { bool cb = subCallbacks(sub, t->d); return nkxInitSubsystem(vm, nullptr, SNAME[sub], t, cb ? sCleanup : nullptr, cb ? sSerialize : nullptr); }
static bool open(Sess &s, bool program = true) {
    NKVMCreateParams p; p.mallocReplacement = ledgerMalloc; p.freeReplacement = ledgerFree; p.mallocAndFreeReplacementUserData = &s.led; gFallbackLedger = &s.led;
    s.vm = nkxVmCreateEx(&p);
    if(!s.vm) return false;
    nkxSetUserData(s.vm, &s);
    for(auto &t : s.tid) t.id = NK_INVALID_VALUE;
    if(nkxVmHasErrors(s.vm)) return false;
    if(!program) return true;
    NKCompilerState *cs = nkxCompilerCreate(s.vm);
    if(!cs) return false;
    static const char *G[] = {"o0", "o1", "f0", "f1"};
    for(auto g : G) nkxCompilerCreateGlobalVariable(cs, g);
    nkxCompilerFinalize(cs);
    return !nkxVmHasErrors(s.vm);
}
static NKValue *glob(Sess &s, const char *n) { NKValue *v = nkxVmFindGlobalVariable(s.vm, nullptr, n); if(!v) s.bad(strf("global %s not found", n)); static NKValue dummy; memset(&dummy, 0, sizeof dummy); return v ? v : &dummy; }
static const char *ON[] = {"o0", "o1"}, *FVN[] = {"f0", "f1"};

static void collected(Sess &s) { // the model's collection
    for(auto i = s.m.objs.begin(); i != s.m.objs.end();) { if(i->first == s.m.o[0] || i->first == s.m.o[1]) ++i; else i = s.m.objs.erase(i); }
}
static std::map<Tok *, int> expected; // token -> type whose callback must have cleaned it
static void died(Sess &s, const Obj &o) { (void)s; if(o.tok && o.type >= 0 && hasCleanup(o.type)) expected[o.tok] = o.type; }
static void collectBoth(Sess &s) { for(auto &o : s.m.objs) if(o.first != s.m.o[0] && o.first != s.m.o[1]) died(s, o.second); collected(s); }
static void checkCleaned(Sess &s) {
    for(auto &t : s.toks) {
        int n = s.cleaned.count(t.get()) ? s.cleaned[t.get()] : 0, want = expected.count(t.get()) ? 1 : 0;
        if(n != want) { s.bad(strf("native data %d was cleaned up %d times, expected %d", t->id, n, want)); continue; }
        if(want && s.cleanedBy[t.get()] != expected[t.get()]) s.bad(strf("native data %d was cleaned up by the callback of type %s, its object's type is %s", t->id, TNAME[s.cleanedBy[t.get()]], TNAME[expected[t.get()]]));
    }
}
static void observe(Sess &s) { // everything the interface shows, against the model
    NKVM *vm = s.vm;
    string e0 = errs(vm);
    std::set<nkuint32_t> ids;
    for(int t = 0; t < NT; t++) {
        bool is = false; for(int k : s.m.types) if(k == t) is = true;
        NKVMExternalDataTypeID id = nkxVmFindExternalType(vm, TNAME[t]);
        if(is ? id.id != s.tid[t].id : id.id != NK_INVALID_VALUE) s.bad(strf("type %s found as %u, expected %u", TNAME[t], id.id, is ? s.tid[t].id : NK_INVALID_VALUE));
        if(is) { const char *n = nkxVmGetExternalTypeName(vm, s.tid[t]); if(!n || strcmp(n, TNAME[t])) s.bad(strf("type %s is called %s", TNAME[t], n ? n : "<null>")); if(!ids.insert(id.id).second) s.bad("two types share an id"); }
    }
    static const char *OTHER[] = {"", "a", "ABC", "coroutine ", " A"};
    for(auto o : OTHER) if(nkxVmFindExternalType(vm, o).id != NK_INVALID_VALUE) s.bad(strf("type '%s' found", o));
    if(nkxVmFindExternalType(vm, "coroutine").id == NK_INVALID_VALUE) s.bad("the coroutine type is gone");
    for(int k = 0; k < NS; k++) { void *w = s.m.subs.count(k) ? s.m.subs[k] : nullptr, *g = nkxGetExternalSubsystemData(vm, SNAME[k]); if(g != w) s.bad(strf("subsystem %s: %s data", SNAME[k], g ? "wrong" : "no")); if(w && nkxGetExternalSubsystemDataOrError(vm, SNAME[k]) != w) s.bad("demanding the subsystem fails"); }
    if(nkxGetExternalSubsystemData(vm, "") || nkxGetExternalSubsystemData(vm, "S") || nkxGetExternalSubsystemData(vm, "ss")) s.bad("a subsystem nobody registered");
    std::map<int, nkuint32_t> oid;
    for(int k = 0; k < NO; k++) {
        NKValue v = *glob(s, ON[k]);
        if(s.m.o[k] < 0) { if(v.type == NK_VALUETYPE_OBJECTID) s.bad(strf("o%d holds an object", k)); continue; }
        Obj &o = s.m.objs[s.m.o[k]];
        if(v.type != NK_VALUETYPE_OBJECTID) { s.bad(strf("o%d holds no object", k)); continue; }
        oid[s.m.o[k]] = v.objectId;
        NKVMExternalDataTypeID id = nkxVmObjectGetExternalType(vm, &v); nkuint32_t want = o.type >= 0 ? s.tid[o.type].id : NK_INVALID_VALUE;
        if(id.id != want) s.bad(strf("o%d has type %u, expected %u", k, id.id, want));
        if(nkxVmObjectGetExternalData(vm, &v) != o.tok) s.bad(strf("o%d has the wrong data", k));
    }
    for(int t : s.m.types) {
        nkuint32_t i = 0; NKValue v; std::map<nkuint32_t, int> seen; size_t n = 0, want = 0;
        while(nkxGetNextObjectOfExternalType(vm, s.tid[t], &v, &i)) { n++; if(v.type != NK_VALUETYPE_OBJECTID || seen[v.objectId]++) s.bad("enumeration gives an object twice"); if(nkxVmObjectGetExternalType(vm, &v).id != s.tid[t].id) s.bad("enumeration gives an object of another type"); if(n > 100) break; }
        for(auto &o : s.m.objs) if(o.second.type == t) { want++; if(oid.count(o.first) && !seen.count(oid[o.first])) s.bad("enumeration misses an object"); }
        if(n != want) s.bad(strf("enumeration of type %s gives %zu objects, %zu exist", TNAME[t], n, want));
    }
    for(int k = 0; k < 2; k++) { NKValue v = *glob(s, FVN[k]); if((s.m.fv[k] >= 0) != (v.type == NK_VALUETYPE_FUNCTIONID)) s.bad(strf("f%d is of type %d", k, (int)v.type)); }
    if(errs(vm) != e0) s.bad("looking raised an error: " + errs(vm));
    if(nkxVmHasErrors(vm) != s.m.bad) s.bad(s.m.bad ? "no error is pending" : "an error is pending: " + errs(vm));
    checkCleaned(s);
}
static void close(Sess &s) {
    if(!s.vm) return;
    bool failed = nkxVmHasAllocationFailure(s.vm);
    if(!failed) for(auto &o : s.m.objs) died(s, o.second);
    s.deleting = true;
    nkxVmDelete(s.vm); s.vm = nullptr;
    if(failed) { for(auto &t : s.toks) if(s.cleaned.count(t.get()) && s.cleaned[t.get()] > 1) s.bad("native data cleaned up twice"); }
    else checkCleaned(s);
    std::set<SubTok *> current; for(auto &x : s.m.subs) if(subCallbacks(x.first, x.second->d)) current.insert(x.second);
    for(auto &t : s.stoks) { int n = s.subCleaned.count(t.get()) ? s.subCleaned[t.get()] : 0, want = current.count(t.get()); if(n != want) s.bad(strf("subsystem %s, data %d: cleaned up %d times, expected %d", SNAME[t->sub], t->d, n, want)); }
    if(s.led.blocks) s.bad(strf("%llu blocks left", (unsigned long long)s.led.blocks));
    if(!s.led.problem.empty()) s.bad(s.led.problem);
}
// One operation; false if it has no meaning here. The caller owns the sessions; a restore starts a new one.
static bool step(std::unique_ptr<Sess> &S, int op, Case &c) {
    Sess &s = *S; Model &m = s.m; NKVM *vm = s.vm;
    auto newError = [&](const string &before, const char *what) { if(errs(vm) == before) s.bad(strf("%s raised no error", what)); m.bad = true; };
    string e0 = errs(vm);
    if(op < REGF) {
        bool dup = false; for(int t : m.types) dup |= t == op;
        auto id = regType(vm, op);
        if(nkxVmHasAllocationFailure(vm)) return true;
        if(dup) { if(id.id != NK_INVALID_VALUE) s.bad("registering a type again gave an id"); newError(e0, "registering a type again"); }
        else { s.tid[op] = id; m.types.push_back(op); if(id.id == NK_INVALID_VALUE) s.bad("registration failed"); }
    } else if(op < REGF_END) {
        int n = (op - REGF) / 2, k = (op - REGF) % 2;
        auto id = nkxVmRegisterExternalFunction(vm, FNAME[n], FN[k]);
        if(nkxVmHasAllocationFailure(vm)) return true;
        auto f = nkxVmGetOrCreateInternalFunctionForExternalFunction(vm, id);
        if(nkxVmHasAllocationFailure(vm)) return true;
        if(m.funcs.count({n, k})) { if(id.id != m.funcs[{n, k}]) s.bad("registering a function again gave another id"); }
        else { for(auto &x : m.funcs) if(x.second == id.id) s.bad("two functions share an id"); m.funcs[{n, k}] = id.id; }
        auto f2 = nkxVmGetOrCreateInternalFunctionForExternalFunction(vm, id);
        if(f2.id != f.id) s.bad("two function values for one native function");
        NKValue v; memset(&v, 0, sizeof v); nkxValueSetFunction(vm, &v, f); *glob(s, FVN[n]) = v; m.fv[n] = k;
    } else if(op < INIT_END) {
        int n = (op - INIT) / 2, d = (op - INIT) % 2;
        s.stoks.emplace_back(new SubTok{&s, n, d}); SubTok *t = s.stoks.back().get();
        bool ok = initSub(vm, n, t);
        if(nkxVmHasAllocationFailure(vm)) { if(ok) s.bad("initialised in spite of an allocation failure"); return true; }
        if(ok == m.bad) s.bad(ok ? "initialised in spite of an error" : "initialising a subsystem failed");
        if(ok) m.subs[n] = t;
    } else if(op <= NEW1) {
        int k = op - NEW0; NKValue v; memset(&v, 0, sizeof v); v.type = NK_VALUETYPE_NIL;
        nkxCreateObject(vm, &v);
        if(nkxVmHasAllocationFailure(vm)) return true;
        if(v.type != NK_VALUETYPE_OBJECTID) s.bad("no object created");
        *glob(s, ON[k]) = v; m.o[k] = s.nextObj++; m.objs[m.o[k]] = Obj();
    } else if(op < TYPE_END) {
        int k = (op - TYPE) / 4, t = (op - TYPE) % 4;
        if(m.o[k] < 0) return false;
        if(t < NT && s.tid[t].id == NK_INVALID_VALUE) return false;
        NKValue v = *glob(s, ON[k]); NKVMExternalDataTypeID none; none.id = NK_INVALID_VALUE;
        if(!nkxVmObjectSetExternalType(vm, &v, t < NT ? s.tid[t] : none)) s.bad("setting the type failed");
        m.objs[m.o[k]].type = t < NT ? t : -1;
    } else if(op < DATA_END) {
        int k = (op - DATA) / 2; if(m.o[k] < 0) return false;
        Tok *t = (op - DATA) % 2 ? s.tok() : nullptr;
        NKValue v = *glob(s, ON[k]);
        if(!nkxVmObjectSetExternalData(vm, &v, t)) s.bad("setting the data failed");
        m.objs[m.o[k]].tok = t;
    } else if(op <= DROP1) {
        int k = op - DROP0; if(m.o[k] < 0) return false;
        NKValue v; memset(&v, 0, sizeof v); nkxValueSetNil(vm, &v); *glob(s, ON[k]) = v; m.o[k] = -1;
    } else if(op == SWAP) {
        if(m.o[0] == m.o[1]) return false;
        *glob(s, ON[1]) = *glob(s, ON[0]); m.o[1] = m.o[0];
    } else if(op == GC) {
        nkxVmGarbageCollect(vm);
        if(nkxVmHasAllocationFailure(vm)) return true;
        collectBoth(s);
    } else if(op == SAVE) {
        if(m.bad) return false;
        Stream st;
        s.writes.clear(); s.reads.clear();
        bool ok = nkxVmSerialize(vm, streamRW, &st, nktrue);
        if(nkxVmHasAllocationFailure(vm)) return true;
        if(!ok) { s.bad("saving failed: " + errs(vm)); return true; }
        vector<string> want;
        for(auto &x : m.subs) if(subCallbacks(x.first, x.second->d)) want.push_back(strf("sub %d/%d/", x.first, x.second->d) + string(x.first == 0 ? 0 : x.first == 1 ? 1 : 100, (char)('a' + x.second->d)));
        for(auto &o : m.objs) if(o.second.type >= 0 && hasSerial(o.second.type)) want.push_back(strf("type %d token %d", o.second.type, o.second.tok ? o.second.tok->id : -1));
        vector<string> w = s.writes; std::sort(w.begin(), w.end()); std::sort(want.begin(), want.end());
        if(w != want) s.bad(strf("saving called %zu callbacks, expected %zu", w.size(), want.size()));
        if(s.reads.size()) s.bad("a callback was called in reading mode while saving");
        observe(s);
        st.pos = 0;
        // restore into a fresh VM with the same registrations, functions in another order
        std::unique_ptr<Sess> N(new Sess); N->c = &c;
        N->led.failAt = s.led.failAt < 0 ? -1 : std::max<int64_t>(0, s.led.failAt - (int64_t)s.led.calls); N->led.persistent = s.led.persistent; N->faulty = s.faulty;
        if(s.led.failAt >= 0 && (uint64_t)s.led.failAt < s.led.calls && !s.led.persistent) N->led.failAt = -1;
        if(!open(*N, false)) { s.problem.empty() && !N->led.failed ? s.bad("no VM") : void(); close(s); string pr = s.problem; if(N->vm) { N->deleting = true; nkxVmDelete(N->vm); N->vm = nullptr; } if(!pr.empty()) N->bad(pr); S = std::move(N); return true; }
        for(int t : m.types) { N->tid[t] = regType(N->vm, t); if(N->tid[t].id != NK_INVALID_VALUE && !nkxVmHasAllocationFailure(N->vm)) N->m.types.push_back(t); }
        for(int k = NS - 1; k >= 0; k--) if(m.subs.count(k) && !nkxVmHasAllocationFailure(N->vm)) { N->stoks.emplace_back(new SubTok{N.get(), k, m.subs[k]->d}); if(initSub(N->vm, k, N->stoks.back().get())) N->m.subs[k] = N->stoks.back().get(); }
        for(auto i = m.funcs.rbegin(); i != m.funcs.rend() && !nkxVmHasAllocationFailure(N->vm); ++i) N->m.funcs[i->first] = nkxVmRegisterExternalFunction(N->vm, FNAME[i->first.first], FN[i->first.second]).id;
        bool rok = !nkxVmHasErrors(N->vm) && nkxVmSerialize(N->vm, streamRW, &st, nkfalse);
        bool nofail = !nkxVmHasAllocationFailure(N->vm);
        if(!rok && nofail) N->bad("restoring failed: " + errs(N->vm));
        if(rok && nofail) {
            if(N->reads != s.writes) N->bad(strf("what the callbacks read is not what they wrote (%zu and %zu)", N->reads.size(), s.writes.size()));
            if(N->writes.size()) N->bad("a callback was called in writing mode while restoring");
            N->m.bad = false; N->nextTok = s.nextTok; N->nextObj = s.nextObj; N->m.fv[0] = m.fv[0]; N->m.fv[1] = m.fv[1]; N->m.o[0] = m.o[0]; N->m.o[1] = m.o[1];
            for(auto &o : m.objs) {
                Obj x; x.type = o.second.type;
                if(o.second.tok && x.type >= 0 && hasSerial(x.type)) for(auto &t : N->toks) if(t->id == o.second.tok->id) x.tok = t.get();
                N->m.objs[o.first] = x;
            }
        }
        close(s);
        if(!s.problem.empty()) N->bad(s.problem);
        S = std::move(N);
    } else if(op < CALL_END) {
        int k = op - CALL; if(m.fv[k] < 0 || m.bad) return false;
        NKValue f = *glob(s, FVN[k]), r; memset(&r, 0, sizeof r);
        int b[2] = {s.called[0], s.called[1]};
        nkxVmCallFunction(vm, &f, 0, nullptr, &r);
        if(nkxVmHasAllocationFailure(vm)) return true;
        for(int j = 0; j < 2; j++) if(s.called[j] != b[j] + (j == m.fv[k])) s.bad(strf("calling the function registered as %s called the wrong callback", FNAME[k]));
        if(r.type != NK_VALUETYPE_INT || r.intData != 100 + m.fv[k]) s.bad("wrong value returned");
    } else if(op == MISSING) {
        for(int k = 0; k < NS; k++) if(!m.subs.count(k)) {
            if(nkxGetExternalSubsystemDataOrError(vm, SNAME[k])) s.bad("an unknown subsystem has data");
            if(nkxVmHasAllocationFailure(vm)) return true;
            newError(e0, "demanding an unknown subsystem");
            if(errs(vm).find(SNAME[k]) == string::npos) s.bad("the error does not name the subsystem");
            return true;
        }
        return false;
    } else if(op == RAISE) { if(m.bad) return false; nkxAddError(vm, "raised"); m.bad = true; }
    return true;
}
static string names(const vector<int> &h) { string r; for(int o : h) r += (r.empty() ? "" : "; ") + opName(o); return r; }
static int KF = 120; // allocations per history that are made to fail (no history makes more)
static void history(Case &c, const vector<int> &h, int64_t failAt = -1, bool persistent = false) {
    c.descs(names(h) + (failAt >= 0 ? strf(" (allocation %lld fails%s)", (long long)failAt, persistent ? " and all later ones" : "") : ""));
    expected.clear();
    std::unique_ptr<Sess> S(new Sess); S->c = &c; S->led.failAt = failAt; S->led.persistent = persistent; S->faulty = failAt >= 0;
    bool up = open(*S);
    if(!up && failAt < 0) c.fail("no VM");
    if(up) for(size_t i = 0; i < h.size(); i++) {
        if(!step(S, h[i], c)) { if(failAt < 0 && i + 1 == h.size()) {} break; }
        c.trans();
        if(!S->vm || nkxVmHasAllocationFailure(S->vm)) break;
        observe(*S);
        if(!S->problem.empty()) { c.fail("after step %zu (%s): %s", i + 1, opName(h[i]).c_str(), S->problem.c_str()); break; }
    }
    string k; for(int t : S->m.types) k += strf("t%d", t); for(auto &x : S->m.subs) k += strf("s%d.%d", x.first, x.second->d); for(auto &o : S->m.objs) k += strf("o%d", o.second.type) + (o.second.tok ? "+" : "-"); k += strf("%d%d%d%d%d", S->m.o[0] >= 0, S->m.o[1] >= 0, S->m.fv[0], S->m.fv[1], S->m.bad);
    if(failAt == KF - 1 && S->led.failed) c.fail("harness error: more than %d allocations", KF);
    if(S->led.failed) c.outcome("allocation failure"); else c.outcome(S->m.bad ? "error" : "no error");
    close(*S);
    if(!S->problem.empty() && !c.failed()) c.fail("%s", S->problem.c_str());
    c.trace(); c.state(hashStr(k)); c.nontrivial(hashStr(names(h)) + failAt * 2 + persistent);
}
// Histories in which every operation has a meaning, from the model alone.
static bool meaningful(const vector<int> &h) {
    bool t[NT] = {}, o[NO] = {}, same = true, f[2] = {}, bad = false, reg[4] = {}; int subs = 0; bool sub[NS] = {};
    for(int op : h) {
        if(op < REGF) { if(t[op]) bad = true; t[op] = true; }
        else if(op < REGF_END) { f[(op - REGF) / 2] = true; reg[op - REGF] = true; }
        else if(op < INIT_END) { int k = (op - INIT) / 2; if(!bad) { if(!sub[k]) subs++; sub[k] = true; } }
        else if(op <= NEW1) { o[op - NEW0] = true; same = false; }
        else if(op < TYPE_END) { int y = (op - TYPE) % 4; if(!o[(op - TYPE) / 4] || (y < NT && !t[y])) return false; }
        else if(op < DATA_END) { if(!o[(op - DATA) / 2]) return false; }
        else if(op <= DROP1) { if(!o[op - DROP0]) return false; o[op - DROP0] = false; same = !o[0] && !o[1]; }
        else if(op == SWAP) { if(same) return false; o[1] = o[0]; same = true; }
        else if(op == SAVE) { if(bad || (reg[0] && reg[1]) || (reg[2] && reg[3])) return false; } // functions are saved by name: two under one name cannot be told apart
        else if(op >= CALL && op < CALL_END) { if(!f[op - CALL] || bad) return false; }
        else if(op == MISSING) { if(subs == NS) return false; bad = true; }
        else if(op == RAISE) { if(bad) return false; bad = true; }
    }
    return true;
}
// Long histories: objects set up in every way, then every tail.
static const vector<vector<int>> PREFIX = {
    {REGT0, NEW0, TYPE + 0, DATA + 1}, {REGT0, REGT1, REGT2, NEW0, TYPE + 0, DATA + 1, NEW1, TYPE + 4 + 0, DATA + 3}, {REGT1, REGT0, NEW0, TYPE + 1, DATA + 1, SWAP, DROP0}, {REGT2, NEW0, TYPE + 2, DATA + 1, DROP0, NEW0, TYPE + 2, DATA + 1},
    {REGT0, NEW0, TYPE + 0, DATA + 1, INIT + 0, INIT + 2, INIT + 4}, {INIT + 0, INIT + 2, INIT + 1, INIT + 5}, {REGF + 0, REGF + 2, REGF + 3, REGF + 1}, {REGT2, REGT1, NEW0, DATA + 1, TYPE + 1, TYPE + 2, NEW1, TYPE + 4 + 2, DATA + 3, SAVE},
    {REGT0, INIT + 3, NEW0, NEW1, TYPE + 4 + 0, DATA + 3, DROP0, GC, NEW0, TYPE + 0, DATA + 1, SAVE, INIT + 2}, {REGF + 0, REGF + 3, SAVE, REGF + 1}, {REGT0, REGT0, NEW0, TYPE + 0, DATA + 1}, {INIT + 2, INIT + 0, RAISE},
};
static void counts(Case &c, int n, int what) { // n registrations of one kind; all stay retrievable
    c.desc("%d %s", n, what == 0 ? "types" : what == 1 ? "subsystems" : what == 2 ? "native functions" : "typed objects");
    Sess s; s.c = &c; expected.clear();
    if(!open(s)) { c.fail("no VM"); return; }
    vector<std::unique_ptr<int>> data; vector<nkuint32_t> ids; vector<NKValue> vals; std::set<nkuint32_t> distinct;
    static int cleanups; static std::map<void *, int> who; cleanups = 0; who.clear();
    auto nm = [&](int i) { return i % 3 == 0 ? strf("n%d", i) : i % 3 == 1 ? string(i / 3 + 1, 'x') : strf("%c%c%c_%d", 'b' + i % 2, 'd' - i % 2 * 2, 'b' + i % 2, i); };
    NKVMExternalDataTypeID two[2];
    for(auto &t : two) t.id = NK_INVALID_VALUE;
    if(what == 3) { two[0] = regType(s.vm, 0); two[1] = regType(s.vm, 1); }
    for(int i = 0; i < n; i++) {
        data.emplace_back(new int(i));
        string x = nm(i);
        if(what == 0) ids.push_back(nkxVmRegisterExternalType(s.vm, x.c_str(), nullptr, nullptr, nullptr).id);
        else if(what == 1) { if(!nkxInitSubsystem(s.vm, nullptr, x.c_str(), data.back().get(), [](NKVM *, void *d) { who[d]++; cleanups++; }, nullptr)) c.fail("init failed"); ids.push_back(i); }
        else if(what == 2) ids.push_back(nkxVmRegisterExternalFunction(s.vm, x.c_str(), FN[i % 2]).id);
        else { NKValue v; memset(&v, 0, sizeof v); nkxCreateObject(s.vm, &v); nkxVmObjectAcquireHandle(s.vm, &v); vals.push_back(v); ids.push_back(v.objectId); if(i % 3 < 2) nkxVmObjectSetExternalType(s.vm, &v, two[i % 3]); nkxVmObjectSetExternalData(s.vm, &v, i % 3 == 1 ? (void *)data.back().get() : nullptr); if(i % 5 == 0) nkxVmGarbageCollect(s.vm); }
        if(ids.back() == NK_INVALID_VALUE || !distinct.insert(ids.back()).second) c.fail("id %u is invalid or not new", ids.back());
    }
    for(int i = 0; i < n && !c.failed(); i++) {
        string x = nm(i);
        if(what == 0) { NKVMExternalDataTypeID t = nkxVmFindExternalType(s.vm, x.c_str()); if(t.id != ids[i] || x != nkxVmGetExternalTypeName(s.vm, t)) c.fail("type %s is not found", x.c_str()); }
        else if(what == 1) { if(nkxGetExternalSubsystemData(s.vm, x.c_str()) != data[i].get()) c.fail("subsystem %s has the wrong data", x.c_str()); }
        else if(what == 2) {
            if(nkxVmRegisterExternalFunction(s.vm, x.c_str(), FN[i % 2]).id != ids[i]) c.fail("function %s got another id", x.c_str());
            NKVMExternalFunctionID e; e.id = ids[i]; auto f = nkxVmGetOrCreateInternalFunctionForExternalFunction(s.vm, e); NKValue v, r; memset(&v, 0, sizeof v); memset(&r, 0, sizeof r); nkxValueSetFunction(s.vm, &v, f);
            nkxVmCallFunction(s.vm, &v, 0, nullptr, &r);
            if(r.type != NK_VALUETYPE_INT || r.intData != 100 + i % 2) c.fail("function %s is not what was registered", x.c_str());
        } else if(nkxVmObjectGetExternalType(s.vm, &vals[i]).id != (i % 3 < 2 ? two[i % 3].id : NK_INVALID_VALUE) || nkxVmObjectGetExternalData(s.vm, &vals[i]) != (i % 3 == 1 ? (void *)data[i].get() : nullptr)) c.fail("object %d lost its type or data", i);
    }
    if(what == 3) for(int k = 0; k < 2; k++) {
        nkuint32_t at = 0; NKValue v; std::set<nkuint32_t> seen; int want = 0; for(int i = 0; i < n; i++) want += i % 3 == k;
        while(nkxGetNextObjectOfExternalType(s.vm, two[k], &v, &at)) if(!seen.insert(v.objectId).second || !distinct.count(v.objectId)) c.fail("enumeration is wrong");
        if((int)seen.size() != want) c.fail("enumeration gives %zu, expected %d", seen.size(), want);
    }
    if(nkxVmHasErrors(s.vm)) c.fail("error: %s", errs(s.vm).c_str());
    if(what == 3) for(auto &v : vals) if(nkxVmObjectGetExternalType(s.vm, &v).id == two[0].id) nkxVmObjectSetExternalData(s.vm, &v, nullptr);
    s.deleting = true; nkxVmDelete(s.vm); s.vm = nullptr;
    if(what == 1) { if(cleanups != n || (int)who.size() != n) c.fail("%d cleanups for %d subsystems", cleanups, n); }
    if(s.led.blocks) c.fail("%llu blocks left", (unsigned long long)s.led.blocks);
    c.trace(); c.trans(n); c.state(n * 4 + what); c.nontrivial(n * 4 + what);
}

static void badIds(Case &c, int n, int what, int k) { // ids that were never handed out
    static const char *W[] = {"an external function", "a type name", "a called function value", "an object's type"};
    Sess s; s.c = &c; expected.clear();
    if(!open(s)) { c.fail("no VM"); return; }
    nkuint32_t count = 0, nf = 0;
    for(int i = 0; i < n; i++) {
        auto e = nkxVmRegisterExternalFunction(s.vm, strf("fn%d", i).c_str(), FN[i % 2]);
        auto f = nkxVmGetOrCreateInternalFunctionForExternalFunction(s.vm, e); nf = std::max(nf, (nkuint32_t)f.id + 1);
        auto t = nkxVmRegisterExternalType(s.vm, strf("ty%d", i).c_str(), nullptr, nullptr, nullptr);
        count = std::max(count, what == 0 ? (nkuint32_t)e.id + 1 : what == 2 ? nf : (nkuint32_t)t.id + 1);
    }
    if(what != 0 && what != 2 && !n) { auto t = nkxVmRegisterExternalType(s.vm, "ty", nullptr, nullptr, nullptr); count = t.id + 1; }
    nkuint32_t id = k < 8 ? count + k : k == 8 ? 0x7fffffffu : k == 9 ? 0x80000000u : 0xfffffffeu + (k - 10);
    c.desc("%d natives and types; id %u (%u handed out) used as %s", n, id, count, W[what]);
    NKValue v, r; memset(&v, 0, sizeof v); memset(&r, 0, sizeof r);
    if(what == 0) {
        NKVMExternalFunctionID e; e.id = id;
        if(nkxVmGetOrCreateInternalFunctionForExternalFunction(s.vm, e).id != NK_INVALID_VALUE) c.fail("a function was found");
        if(!nkxVmHasErrors(s.vm)) c.fail("no error");
    } else if(what == 1) {
        NKVMExternalDataTypeID t; t.id = id;
        const char *x = nkxVmGetExternalTypeName(s.vm, t);
        if(x && *x) c.fail("the type is called %s", x);
    } else if(what == 2) {
        NKVMInternalFunctionID f; f.id = id; nkxValueSetFunction(s.vm, &v, f);
        nkxVmCallFunction(s.vm, &v, 0, nullptr, &r);
        if(!nkxVmHasErrors(s.vm)) c.fail("calling it raised no error");
    } else {
        NKVMExternalDataTypeID t; t.id = id;
        nkxCreateObject(s.vm, &v); nkxVmObjectAcquireHandle(s.vm, &v);
        nkxVmObjectSetExternalType(s.vm, &v, t);
        if(!nkxVmHasErrors(s.vm) && nkxVmObjectGetExternalType(s.vm, &v).id != id) c.fail("the type is neither refused nor kept");
        nkxValueToString(s.vm, &v); nkxVmGarbageCollect(s.vm); nkxVmShrink(s.vm); nkxVmObjectReleaseHandle(s.vm, &v); nkxVmGarbageCollect(s.vm);
    }
    s.deleting = true; nkxVmDelete(s.vm); s.vm = nullptr;
    if(s.led.blocks) c.fail("%llu blocks left", (unsigned long long)s.led.blocks);
    c.trans(); c.trace(); c.nontrivial(n * 64 + what * 16 + k); c.state(n * 64 + what * 16 + k);
}

void define(Registry &r) {
    bool th = r.thorough();
    r.level = "model_checking";
    r.rule = "after every operation of every history everything the interface shows (types by name and id, subsystem data, object types and data, enumerations, function values, pending errors, cleanups so far) equals the model; saves and restores call each callback once in the right mode with exactly what was written; deletion cleans up each live datum and each subsystem exactly once, also after every allocation failure";
    int d = th ? 4 : 3;
    static vector<vector<int>> H; H.clear();
    for(int n = 1; n <= d; n++) { vector<int> h(n, 0); for(uint64_t i = 0, e = ipow(NOPS, n); i < e; i++) { uint64_t v = i; for(int k = 0; k < n; k++) { h[k] = v % NOPS; v /= NOPS; } if(meaningful(h)) H.push_back(h); } }
    r.add("histories", H.size(), [](uint64_t i, Case &c) { history(c, H[i]); if(i % 20011 == 0) c.sample(names(H[i])); });
    int td = th ? 4 : 3;
    for(size_t p = 0; p < PREFIX.size(); p++) r.add(strf("tails/%zu", p), seqCount(NOPS, td), [=](uint64_t i, Case &c) { vector<int> h = PREFIX[p]; for(int o : seqDecode(i, NOPS)) h.push_back(o); if(!meaningful(h)) return; history(c, h); });
    if(th) KF = 200;
    // allocation failures: every prefix followed by every single operation (thorough: every two), every allocation, once and from then on
    static vector<vector<int>> F; F.clear(); static vector<uint64_t> A; A.clear();
    for(auto &p : PREFIX) for(uint64_t i = 0; i < (th ? seqCount(NOPS, 2) : (uint64_t)NOPS); i++) {
        vector<int> h = p; for(int o : seqDecode(i, NOPS)) h.push_back(o);
        if(!meaningful(h)) continue;
        F.push_back(h);
    }
    r.add("failures", F.size() * KF * 2, [](uint64_t i, Case &c) { Idx d(i); int k = d.pick(KF), p = d.pick(2); history(c, F[d.v], k, p); });
    r.add("counts", 4 * (th ? 260 : 130), [](uint64_t i, Case &c) { Idx d(i); int w = d.pick(4); counts(c, d.v, w); });
    r.add("bad ids", 4 * 12 * 20, [](uint64_t i, Case &c) { Idx d(i); int w = d.pick(4), k = d.pick(12); badIds(c, d.v, w, k); });
    r.bounds = strf("all %zu meaningful histories of up to %d of %d operations; %zu prepared situations x all histories of up to %d operations; %zu histories x %d allocations failing once or for good; 0 to %d registrations of each kind", H.size(), d, (int)NOPS, PREFIX.size(), td, F.size(), KF, th ? 259 : 129);
    r.assumptions = {"no two native functions of one name are registered when saving", "types are registered in the same order when restoring (otherwise restoring is refused, see C09)", "native data of objects is cleaned up by their subsystem in emergency cleanup, as documented"};
}
