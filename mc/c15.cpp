// uses: lang.cpp corpus.cpp
// C15: the lives of two and three VMs, cut into steps, in every interleaving; nested inside each other's native calls;
// with one of them failing (by error or by allocation failure) at every point. Each must behave as when alone.
#include "corpus.h"
using namespace mc;
using std::string;
using std::vector;

static const char *PROG[] = {
    "var a = object(); var i; var s = \"\"; for(i = 0; i < 6; i++) { s = s + \"a\" + i; a[s] = i; hook(i); } print(a[\"a0a1\"], len(a), s);",
    "function gen(n) { var l = object(); for(var i = 0; i < n; i++) { l.v = yield(i); print(l.v); } return \"end\"; } var co = coroutine(gen, 3); var r; while(!is_finished(co)) { r = resume(co, \"v\" + r); hook(r); } print(r);",
    "var a = res(); a.x = res(a); hold(1, a); a = nil; gc(); hook(1); var b = held(1); print(b.x, len(b)); unhold(1); b = nil; gc(); hook(2); var o = object(); o[print] = 1; o[hook] = 2; print(o[hook], o[print]); hook(3);",
    "function f(n) { if(n == 0) { hook(n); return call(g, 3); } return f(n - 1) + 1; } function g(x) { hook(x); return x * 2; } var n = f(4); print(n); hook(n); print(nfn(\"print\") == print, str(1.5));",
    "var o = object(); o.v = \"x\" + 1; hook(1); print(o);\nhook(2);\nvar d = 0; print(1 / d); hook(3); print(\"no\");",
    "var a = 1; hook(a); function h(m) { error(\"bad \" + m); } hook(2);\nh(\"thing\"); hook(3);",
    "var a = 1; print(a; hook(a);",
    "var t = object(); var i; for(i = 0; i < 24; i++) { t[i] = object(); t[i].s = \"t\" + i; if(i % 8 == 7) hook(i); } for(i = 0; i < 24; i = i + 2) t[i] = nil; gc(); hook(0); print(len(t), t[23]);",
};
enum { NPROG = sizeof PROG / sizeof *PROG, NSTEP = 8 };
static const char *STEP[] = {"create", "register and compile", "finalize", "run a little", "collect, compact and save", "run", "run to the end", "delete"};

// A life: NSTEP steps, each with everything observable after it.
struct Life {
    Host h; int prog, config; vector<string> digests; Stream saved; int hooks = 0;
    NKVMExternalFunctionID fid{NK_INVALID_VALUE};
    std::function<void(Life &)> onHook;
    Life(int prog, int config) : prog(prog), config(config) {
        h.onHook = [this](Host &x, NKVMFunctionCallbackData *d) { NKValue v; v.type_uint = 0; nkxValueSetNil(x.vm, &v); if(d->argumentCount) v = d->arguments[0]; x.out += "h" + x.repr(&v) + ";"; hooks++; if(onHook) onHook(*this); };
        h.subMode = config;
        h.nativeOrder = config == 0 ? 0 : config == 1 ? 1 : 5;
    }
    ~Life() { h.onHook = nullptr; }
    string digest() {
        string s = h.out + "|";
        if(h.vm) {
            s += h.errors() + strf("|%d %u|%llu %llu|", (int)nkxVmProgramHasEnded(h.vm), nkxGetErrorCount(h.vm), (unsigned long long)nkxVmGetCurrentMemoryUsage(h.vm), (unsigned long long)nkxVmGetPeakMemoryUsage(h.vm));
            s += strf("%d af%d|", nkxGetUserData(h.vm) == &h, (int)nkxVmHasAllocationFailure(h.vm));
            if(!nkxVmHasErrors(h.vm) && !h.cs) s += h.globalsRepr({"a", "o", "n", "t"});
            NKVMExternalDataTypeID t = nkxVmFindExternalType(h.vm, "Res"); s += strf("|type %d|", t.id == h.tRes.id);
            s += strf("sub %d %d %d|", (int)(nkxGetExternalSubsystemData(h.vm, "hostsub") == &h), (int)(nkxGetExternalSubsystemData(h.vm, "other") != nullptr), (int)(nkxGetExternalSubsystemData(h.vm, "plain") == &h.plain));
            const char *tn = nkxVmGetExternalTypeName(h.vm, h.tRes), *on = nkxVmGetExternalTypeName(h.vm, h.tOther); s += strf("types %s %s %d|", tn ? tn : "-", on ? on : "-", (int)(nkxVmFindExternalType(h.vm, "Other").id == h.tOther.id));
            if(!nkxVmHasErrors(h.vm) && t.id == h.tRes.id && t.id != NK_INVALID_VALUE) { NKValue v; nkuint32_t k = 0; while(nkxGetNextObjectOfExternalType(h.vm, t, &v, &k) && k < 1000) { void *data = nkxVmObjectGetExternalData(h.vm, &v); s += strf("res %u %d %u|", k, (int)(data != nullptr), nkxVmObjectGetExternalHandleCount(h.vm, &v)); } }
            s += strf("gc %u %u lim %u %u|", nkxGetGarbageCollectionInterval(h.vm), nkxGetRemainingInstructionLimit(h.vm), nkxGetMaxStackSize(h.vm), nkxGetMaxFieldsPerObject(h.vm));
            s += strf("%llu", (unsigned long long)nkxVmGetCurrentMemoryUsage(h.vm));
        }
        s += strf("|led %llu %llu %llu|live %zu cleaned %zu natives %d sub %d %d|saved %llx", (unsigned long long)h.led.calls, (unsigned long long)h.led.bytes, (unsigned long long)h.led.blocks, h.live.size(), h.cleaned.size(), h.nativeCalls, h.subCleaned, h.subSaved, (unsigned long long)hashStr(saved.buf));
        for(auto &p : h.problems) s += "|PROBLEM " + p;
        return s;
    }
    void step() {
        int k = digests.size();
        if(k >= NSTEP) return;
        NKVM *vm = h.vm;
        if(k == 0) { h.create(); if((vm = h.vm) && config == 1) { nkxSetGarbageCollectionInterval(vm, 3); nkxSetGarbageCollectionNewObjectInterval(vm, 2); } if(vm && config == 2) { nkxSetMaxStackSize(vm, 500); nkxSetMaxFieldsPerObject(vm, 40); nkxSetRemainingInstructionLimit(vm, 3000); } }
        else if(vm) switch(k) {
        case 1: if(h.compiler()) { h.natives(); h.compile(PROG[prog], config ? "b.nks" : "a.nks"); } else h.natives(); break;
        case 2: h.finalize(); break;
        case 3: nkxVmIterate(vm, 25); break;
        case 4: nkxVmGarbageCollect(vm); if(h.held.empty()) nkxVmShrink(vm); h.save(saved); break; // held values stay valid for the script
        case 5: nkxVmIterate(vm, 60); break;
        case 6: nkxVmIterate(vm, 5000); break;
        case 7: h.destroy(); break;
        }
        digests.push_back(digest());
    }
    bool over() const { return digests.size() >= NSTEP; }
};
static vector<string> alone(int prog, int config) { Life l(prog, config); while(!l.over()) l.step(); return l.digests; }
static vector<string> ALONE[NPROG][3];
static void match(Case &c, Life &l, const vector<string> &want, const char *who) {
    for(size_t k = 0; k < l.digests.size(); k++) {
        if(l.digests[k] != want[k]) { c.fail("%s VM (program %d) differs from when it is alone after '%s'\n  alone: %s\n  here:  %s", who, l.prog, STEP[k], want[k].c_str(), l.digests[k].c_str()); return; }
        c.state(hashStr(l.digests[k]));
    }
    c.trace();
}
// The i-th way to interleave a steps of one with b of the other.
static uint64_t binom(int n, int k) { uint64_t r = 1; for(int i = 1; i <= k; i++) r = r * (n - k + i) / i; return r; }
static vector<int> interleaving(uint64_t i, int a, int b) {
    vector<int> s;
    while(a + b) { if(!b) { s.push_back(0); a--; continue; } if(!a) { s.push_back(1); b--; continue; } uint64_t f = binom(a + b - 1, b); if(i < f) { s.push_back(0); a--; } else { i -= f; s.push_back(1); b--; } }
    return s;
}
static string show(const vector<int> &s) { string r; for(int k : s) r += char('A' + k); return r; }

void define(Registry &r) {
    bool th = r.thorough();
    r.level = "model_checking";
    r.rule = "the lives of two VMs (create, register and compile, finalize, run, collect+compact+save, run, run to the end, delete) in every interleaving; of three VMs in every interleaving of four phases; one driven step by step from inside the native calls of another in every distribution, also calling back into the outer one; lives one after another and interleaved from an allocator that reuses addresses at once, the earlier ones given up after every number of steps; and with one VM's n-th allocation failing, for every n; after each step everything observable (output, errors, globals, memory figures, the allocator's ledger, save bytes) must equal that of the VM alone";
    for(int p = 0; p < NPROG; p++) for(int k = 0; k < 3; k++) ALONE[p][k] = alone(p, k);
    uint64_t n2 = binom(2 * NSTEP, NSTEP);
    static vector<std::pair<int, int>> PAIRS; PAIRS.clear();
    if(th) { for(int a = 0; a < NPROG; a++) for(int b = 0; b < NPROG; b++) PAIRS.push_back({a, b}); }
    else PAIRS = {{0, 1}, {2, 3}, {4, 7}, {1, 5}, {6, 2}};
    r.add("two", n2 * PAIRS.size(), [n2](uint64_t i, Case &c) {
        Idx d(i); auto &p = PAIRS[d.pick(PAIRS.size())]; uint64_t w = d.pick(n2); int ca = (i / 3) % 3, cb = (i / 7) % 3;
        auto s = interleaving(w, NSTEP, NSTEP);
        c.desc("programs %d (configuration %d) and %d (configuration %d) in the order %s", p.first, ca, p.second, cb, show(s).c_str());
        Life a(p.first, ca), b(p.second, cb);
        for(int k : s) { (k ? b : a).step(); c.trans(); }
        match(c, a, ALONE[p.first][ca], "first"); match(c, b, ALONE[p.second][cb], "second");
        c.nontrivial(w * 64 + (&p - &PAIRS[0]));
        if(w % 2003 == 0) c.sample(strf("%d/%d %s", p.first, p.second, show(s).c_str()));
    });
    // three VMs, four phases each (two steps at a time): 12! / 4!^3
    r.add("three", 34650ull * (th ? 8 : 1), [](uint64_t i, Case &c) {
        Idx d(i); uint64_t w = d.pick(34650); int v = d.pick(8);
        auto ab = interleaving(w % 70, 4, 4), m = interleaving(w / 70, 8, 4);
        vector<int> s; size_t x = 0; for(int k : m) s.push_back(k ? 2 : ab[x++]);
        int P[3] = {v, (v + 2) % NPROG, (v + 3) % NPROG};
        c.desc("programs %d, %d, %d, two steps at a time in the order %s", P[0], P[1], P[2], show(s).c_str());
        Life a(P[0], 0), b(P[1], 1), e(P[2], 2); Life *l[] = {&a, &b, &e};
        for(int k : s) { l[k]->step(); l[k]->step(); c.trans(2); }
        for(int k = 0; k < 3; k++) match(c, *l[k], ALONE[P[k]][k], k == 0 ? "first" : k == 1 ? "second" : "third");
        c.nontrivial(w * 8 + v);
    });
    // the second VM lives inside the native calls of the first: step k of it happens in hook call h(k), h non-decreasing
    static const int H = 4; uint64_t nn = binom(NSTEP + H - 1, H - 1);
    r.add("nested", nn * NPROG * NPROG * 2, [nn](uint64_t i, Case &c) {
        Idx d(i); uint64_t w = d.pick(nn); int pa = d.pick(NPROG), pb = d.pick(NPROG); bool back = d.pick(2);
        auto s = interleaving(w, NSTEP, H - 1); // 0: a step of the inner VM, 1: on to the next hook call
        c.desc("program %d of the second VM driven from native calls of program %d: %s%s", pb, pa, show(s).c_str(), back ? ", which in turn calls into the first" : "");
        Life a(pa, 0), b(pb, 1); size_t at = 0; int depth = 0;
        auto inner = [&](Life &) { if(depth) return; depth++; while(at < s.size() && !s[at]) { b.step(); at++; c.trans(); } if(at < s.size()) at++; depth--; };
        a.onHook = inner;
        // from inside the inner VM's native calls the outer VM is read and used
        if(back) b.onHook = [&](Life &) { if(!a.h.vm) return; NKValue *g = nkxVmFindGlobalVariable(a.h.vm, nullptr, "a"); (void)g; nkxGetErrorCount(a.h.vm); nkxVmGetCurrentMemoryUsage(a.h.vm); nkxVmProgramHasEnded(a.h.vm); nkxGetUserData(a.h.vm); };
        while(!a.over()) { a.step(); c.trans(); }
        while(!b.over()) b.step();
        // the inner VM is complete; the outer one as well
        match(c, a, ALONE[pa][0], "outer"); match(c, b, ALONE[pb][1], "inner");
        c.nontrivial(w * 200 + pa * 20 + pb * 2 + back); c.outcome(a.hooks >= H ? "all hooks reached" : "fewer hooks");
    });
    // nested use with a call back: the innermost VM's native calls a script function of the outermost one
    r.add("callback", 6 * 200, [](uint64_t i, Case &c) {
        int shape = i % 6, cut = i / 6;
        c.desc("a native of A runs B for %d instructions, a native of B calls a function of A (shape %d)", cut, shape);
        const char *A = "var n = 0; function bump(k) { var o = object(); o.k = k; n = n + o.k; gc(); return n; } function go() { var l = object(); l.s = \"l\" + n; hook(1); return l.s; } print(go()); var co = coroutine(go); print(resume(co)); print(n); hook(2); print(n);";
        const char *B = "var m = 0; function loop(x) { var t = object(); t.x = x; hook(x); return t.x; } var i; for(i = 0; i < 5; i++) m = m + loop(i); print(m);";
        const char *BE[] = {B, "function d(n) { hook(n); return 1 / (2 - n); } print(d(0)); print(d(1)); print(d(2)); print(d(3));", "var i = 0; while(1) { hook(i); i++; }"};
        const char *b = BE[shape % 3]; bool limit = shape >= 3;
        Host x, y; int calls = 0, ynow = 0; string yout;
        if(!x.load(A, "a.nks") || !y.load(b, "b.nks")) { c.fail("does not load %s%s", x.errors().c_str(), y.errors().c_str()); return; }
        if(limit) { nkxSetGarbageCollectionInterval(y.vm, 1); nkxSetRemainingInstructionLimit(y.vm, 40); }
        x.onHook = [&](Host &, NKVMFunctionCallbackData *) { if(ynow) return; ynow++; nkxVmIterate(y.vm, cut); ynow--; };
        y.onHook = [&](Host &, NKVMFunctionCallbackData *) {
            NKValue f = *nkxVmFindGlobalVariable(x.vm, nullptr, "bump"), k, res; memset(&res, 0, sizeof res); nkxValueSetInt(x.vm, &k, 10);
            nkxVmCallFunction(x.vm, &f, 1, &k, &res); calls++;
            if(res.type != NK_VALUETYPE_INT || res.intData != calls * 10) c.fail("call %d into A answered %d", calls, res.intData);
        };
        x.run();
        // B alone, for the same number of instructions in the same slices (A's hook ran three times)
        Host z; int zcalls = 0; if(!z.load(b, "b.nks")) return; if(limit) { nkxSetGarbageCollectionInterval(z.vm, 1); nkxSetRemainingInstructionLimit(z.vm, 40); }
        z.onHook = [&](Host &, NKVMFunctionCallbackData *) { zcalls++; };
        for(int k = 0; k < 3; k++) nkxVmIterate(z.vm, cut);
        if(x.hasErrors()) c.fail("A has errors: %s", x.errors().c_str());
        if(z.errors() != y.errors() || z.out != y.out || zcalls != calls || nkxVmProgramHasEnded(z.vm) != nkxVmProgramHasEnded(y.vm)) c.fail("B differs from running alone: '%s' '%s' %d; alone '%s' '%s' %d", y.out.c_str(), y.errors().c_str(), calls, z.out.c_str(), z.errors().c_str(), zcalls);
        if(z.led.calls != y.led.calls || z.led.bytes != y.led.bytes) c.fail("B's memory differs from running alone");
        NKValue *n = nkxVmFindGlobalVariable(x.vm, nullptr, "n"); if(!n || n->intData != calls * 10) c.fail("A counted %d for %d calls", n ? n->intData : -1, calls);
        x.destroy(); y.destroy(); for(auto &p : x.problems) c.fail("%s", p.c_str()); for(auto &p : y.problems) c.fail("%s", p.c_str());
        c.trace(2); c.trans(calls); c.state(calls * 8 + shape); c.nontrivial(i);
    });
    // one VM after another at the same addresses: the first two given up after any number of steps
    r.add("recycled", NPROG * NPROG * NPROG * NSTEP * NSTEP, [](uint64_t i, Case &c) {
        Idx d(i); int p = d.pick(NPROG), q = d.pick(NPROG), x = d.pick(NPROG), k1 = d.pick(NSTEP) + 1, k2 = d.pick(NSTEP) + 1; int ca = i % 3, cb = (i / 5) % 3, cc = (i / 11) % 3;
        c.desc("programs %d (%d steps), %d (%d steps) and %d one after another, from an allocator that hands out the same addresses again", p, k1, q, k2, x);
        Pool pool;
        auto life = [&](int prog, int config, int steps) {
            Life l(prog, config); l.h.led.pool = &pool;
            for(int k = 0; k < steps; k++) { l.step(); c.trans(); }
            if(l.h.cs) l.h.finalize();
            if(l.h.vm) l.h.destroy();
            match(c, l, ALONE[prog][config], "recycled");
        };
        life(p, ca, k1); life(q, cb, k2); life(x, cc, NSTEP);
        if(!pool.reused) c.fail("no address was used again");
        c.nontrivial(i);
    });
    r.add("recycled/two", n2, [](uint64_t i, Case &c) {
        // two lives in every interleaving, then two more in the reverse order, all from one such allocator
        auto s = interleaving(i, NSTEP, NSTEP); int p = i % NPROG, q = (i / 8) % NPROG; Pool pool;
        c.desc("programs %d and %d in the order %s, then exchanged, from an allocator that hands out the same addresses again", p, q, show(s).c_str());
        for(int round = 0; round < 2; round++) {
            Life a(p, 0), b(q, 1); a.h.led.pool = b.h.led.pool = &pool;
            for(int k : s) { (k ^ round ? b : a).step(); c.trans(); }
            match(c, a, ALONE[p][0], "first"); match(c, b, ALONE[q][1], "second");
        }
        c.nontrivial(i);
    });
    // allocation failures in one VM, at every request, while the other lives on
    static const vector<vector<int>> ORD = {{0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1}, {1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1}, {0, 0, 1, 1, 0, 0, 1, 1, 0, 0, 1, 1, 0, 0, 1, 1}};
    static uint64_t most; most = 0;
    static uint64_t calls[NPROG]; for(int p = 0; p < NPROG; p++) { Life l(p, 0); while(!l.over()) l.step(); calls[p] = l.h.led.calls; most = std::max(most, calls[p]); }
    for(int p = 0; p < NPROG; p++) r.add(strf("failing/%d", p), (calls[p] + 1) * 2 * 3, [p](uint64_t i, Case &c) {
        Idx d(i); bool persistent = d.pick(2); int o = d.pick(3); uint64_t at = d.v; int q = (p + 1 + at % (NPROG - 1)) % NPROG;
        c.desc("request %llu%s of program %d's VM fails; program %d's VM, in the order %s", (unsigned long long)at, persistent ? " and all later ones" : "", p, q, show(ORD[o]).c_str());
        vector<string> want; { Life l(p, 0); l.h.led.failAt = at; l.h.led.persistent = persistent; while(!l.over()) l.step(); want = l.digests; }
        Life a(p, 0), b(q, 1); a.h.led.failAt = at; a.h.led.persistent = persistent;
        for(int k : ORD[o]) { (k ? b : a).step(); c.trans(); }
        match(c, a, want, "failing"); match(c, b, ALONE[q][1], "other");
        c.nontrivial(i * NPROG + p);
    });
    // ... also from inside a native call of the other
    r.add("failing/nested", most * NPROG, [](uint64_t i, Case &c) {
        Idx d(i); int p = d.pick(NPROG); uint64_t at = d.v; if(at > calls[p]) return; int q = at % 4;
        c.desc("request %llu of program %d's VM, which lives inside a native call of program %d's VM, fails", (unsigned long long)at, p, q);
        vector<string> want; { Life l(p, 0); l.h.led.failAt = at; l.h.led.persistent = at & 1; while(!l.over()) l.step(); want = l.digests; }
        Life a(q, 1), b(p, 0); b.h.led.failAt = at; b.h.led.persistent = at & 1; int n = 0;
        a.onHook = [&](Life &) { n++; for(int k = 0; k < 3; k++) b.step(); };
        while(!a.over()) a.step();
        while(!b.over()) b.step();
        match(c, a, ALONE[q][1], "outer"); match(c, b, want, "failing"); c.trans(16); c.nontrivial(i);
    });
    r.bounds = strf("%d programs in 3 configurations; %zu pairs x all %llu interleavings of two lives of %d steps; all 34650 interleavings of three lives of four phases%s; all %llu distributions of one life over %d native calls of another, all program pairs; all triples of programs at reused addresses with every two cut-off points, every interleaving of two repeated at reused addresses; every allocation request of every program failing once or from then on, in 3 orders and nested", (int)NPROG, PAIRS.size(), (unsigned long long)n2, (int)NSTEP, th ? " x 8 program triples" : "", (unsigned long long)nn, H);
    r.assumptions = {"VMs are used from one thread, or from several without sharing a VM (no shared mutable state was observed, which is what is checked here)"};
}
