// uses: lang.cpp corpus.cpp
// C08: a VM saved between any two instructions and restored elsewhere continues identically.
#include "corpus.h"
#include <algorithm>
#include <memory>
using namespace mc;
using corpus::Run;
using std::string;
using std::vector;

static bool step(Host &h, uint64_t &n) {
    if(nkxVmProgramHasEnded(h.vm) || nkxVmHasErrors(h.vm) || n >= corpus::MAXINST) return false;
    nkxVmIterate(h.vm, 1); n++;
    return true;
}
// What the embedding application itself carries over.
static void carry(Host &from, Host &to) {
    to.held = from.held;
    to.nextRes = from.nextRes;
}
static bool restoreInto(Case &c, Host &b, Host &a, Stream &s, int order) {
    b.nativeOrder = order;
    if(!b.create() || !b.natives()) { c.fail("harness: fresh VM: %s", b.errors().c_str()); return false; }
    b.subData = "overwritten";
    nkxSetGarbageCollectionInterval(b.vm, 60000);
    nkxSetGarbageCollectionNewObjectInterval(b.vm, 0x7fffffff);
    bool hadErr = nkxVmHasErrors(a.vm);
    if(!b.restore(s)) { c.fail("restoring a save of this VM failed: %s", b.errors().c_str()); return false; }
    if(s.pos != s.buf.size()) { c.fail("restore read %zu of %zu bytes", s.pos, s.buf.size()); return false; }
    if(!hadErr && nkxVmHasErrors(b.vm)) { c.fail("restored VM has errors: %s", b.errors().c_str()); return false; }
    if(b.subData != a.subData) c.fail("subsystem data not carried over: %s", b.subData.c_str());
    if(a.subSaved < 1 || b.subLoaded != 1) c.fail("subsystem callbacks: %d saves, %d loads", a.subSaved, b.subLoaded);
    carry(a, b);
    return true;
}
static void same(Case &c, const Run &base, const Run &r, const char *what) {
    c.trace();
    c.state(hashStr(r.key()));
    if(base.key() != r.key() || base.n != r.n) c.fail("%s\n  original: %s (%llu instructions)\n  got:      %s (%llu instructions)", what, base.key().c_str(), (unsigned long long)base.n, r.key().c_str(), (unsigned long long)r.n);
}
static void closeHost(Case &c, Host &h) { h.destroy(); for(auto &p : h.problems) c.fail("%s", p.c_str()); if(!h.live.empty()) c.fail("%zu native data objects never cleaned up", h.live.size()); }

// hook(): collects, then reports which native-typed objects are alive, by id, and each one's handle count.
static void liveHook(Host &h, NKVMFunctionCallbackData *d) {
    nkxVmGarbageCollect(h.vm);
    std::map<int, nkuint32_t> m; nkuint32_t it = 0; NKValue v;
    while(nkxGetNextObjectOfExternalType(h.vm, h.tRes, &v, &it)) { Res *r = (Res *)nkxVmObjectGetExternalData(h.vm, &v); m[r ? r->id : -1] = nkxVmObjectGetExternalHandleCount(h.vm, &v); }
    h.out += "[";
    for(auto &x : m) h.out += strf("%d:%u ", x.first, x.second);
    h.out += "];";
}
static vector<vector<int>> perms(vector<int> v) { vector<vector<int>> r; std::sort(v.begin(), v.end()); do r.push_back(v); while(std::next_permutation(v.begin(), v.end())); return r; }
// Objects held by the host in every order, released in every order.
static string handleProgram(const vector<int> &acq, const vector<int> &rel) {
    string s = "var a = res(); var b = res(); var c = res(); a.n = \"A\"; b.n = \"B\"; c.n = \"C\"; ";
    for(size_t i = 0; i < acq.size(); i++) s += strf("hold(%zu, %c); ", i, 'a' + acq[i]);
    s += "a = nil; b = nil; c = nil; hook(); ";
    for(int k : rel) s += strf("print(unhold(%d).n); hook(); ", k);
    return s;
}
// Save after exactly the instruction counts in `at` (or every `period`), moving to a fresh VM each time. If `keep`, the
// original also runs to completion after each save.
static void migrate(Case &c, const string &src, const Run &base, const vector<uint64_t> &at, uint64_t period, bool keep, int order, bool settle, bool hook = false) {
    std::unique_ptr<Host> a(new Host);
    if(hook) a->onHook = liveHook;
    if(!corpus::start(*a, src)) { c.fail("does not load: %s", a->errors().c_str()); return; }
    a->subData = strf("S%llu", (unsigned long long)base.n);
    uint64_t n = 0; size_t k = 0; string out;
    while(1) {
        bool now = period ? (n % period == 0) : (k < at.size() && at[k] == n);
        if(now) {
            k++;
            Stream s, s2;
            if(settle) nkxVmGarbageCollect(a->vm);
            if(!a->save(s)) { c.fail("saving failed after %llu instructions: %s", (unsigned long long)n, a->errors().c_str()); break; }
            if(keep) { a->save(s2); if(s2.buf != s.buf) c.fail("saving twice gives different bytes: the first save changed the VM"); }
            std::unique_ptr<Host> b(new Host);
            if(!restoreInto(c, *b, *a, s, order)) { closeHost(c, *b); break; }
            b->out = a->out;
            b->onHook = a->onHook;
            if(keep) { // saving left the original undisturbed
                Run r; r.ok = true;
                r.n = n;
                while(step(*a, r.n)) {}
                corpus::finish(*a, r);
                same(c, base, r, strf("saving after %llu instructions disturbed the VM being saved", (unsigned long long)n).c_str());
            }
            closeHost(c, *a);
            a.swap(b);
        }
        if(!step(*a, n)) break;
    }
    Run r; r.ok = true; r.n = n;
    corpus::finish(*a, r);
    c.trans(n);
    same(c, base, r, "the restored VM did not continue like the original");
    closeHost(c, *a);
}

// Going back to an earlier state: the VM a save is restored into has been running (this program, further than when it was
// saved, or another one) and everything in it is replaced.
static bool goBack(Case &c, Host &h, Stream &s, const string &out, const std::map<int, NKValue> &held, int nextRes) {
    uint64_t cleanups = 0; for(auto &x : h.cleaned) cleanups += x.second;
    size_t live = h.live.size();
    h.subData = "overwritten";
    if(!h.restore(s)) { c.fail("restoring a save into a VM that has run failed: %s", h.errors().c_str()); return false; }
    if(s.pos != s.buf.size()) { c.fail("restore read %zu of %zu bytes", s.pos, s.buf.size()); return false; }
    if(nkxVmHasErrors(h.vm)) { c.fail("restored VM has errors: %s", h.errors().c_str()); return false; }
    uint64_t after = 0; for(auto &x : h.cleaned) after += x.second;
    if(after - cleanups != live) c.fail("%zu native data objects were alive before restoring, %llu were cleaned up", live, (unsigned long long)(after - cleanups));
    h.cleaned.clear();
    h.out = out; h.held = held; h.nextRes = nextRes;
    return true;
}
static void reload(Case &c, const string &src, const Run &base, uint64_t at, const vector<uint64_t> &further, const string *other, uint64_t otherSteps) {
    Host a;
    if(!corpus::start(a, src)) { c.fail("does not load: %s", a.errors().c_str()); return; }
    uint64_t n = 0;
    while(n < at && step(a, n)) {}
    if(nkxVmHasErrors(a.vm)) { closeHost(c, a); return; }
    Stream s;
    if(!a.save(s)) { c.fail("saving failed: %s", a.errors().c_str()); closeHost(c, a); return; }
    auto held = a.held; string out = a.out; int nextRes = a.nextRes;
    Host b; Host *d = &a;
    if(other) {
        if(!corpus::start(b, *other)) { c.fail("harness: does not load: %s", b.errors().c_str()); return; }
        d = &b;
    }
    for(size_t k = 0; k <= further.size(); k++) {
        uint64_t m = 0, todo = k < further.size() ? further[k] : corpus::MAXINST;
        if(d == &b && k == 0) todo = otherSteps;
        if(k) { Run r; r.ok = true; r.n = n;
            while(m < todo && step(*d, r.n)) m++;
            c.trans(m);
            if(k == further.size()) { corpus::finish(*d, r); same(c, base, r, "a VM put back to an earlier state did not continue like the original"); break; }
        } else while(m < todo && step(*d, m)) {}
        if(k % 2) nkxVmGarbageCollect(d->vm);
        if(!goBack(c, *d, s, out, held, nextRes)) break;
    }
    closeHost(c, *d);
    if(d != &a) closeHost(c, a);
}

void define(Registry &r) {
    r.rule = "each program is saved at each instruction boundary, restored into a fresh VM (native functions registered in the same, reversed or permuted order) and run on; compared with the unsaved execution; also moved to a fresh VM before every instruction, put back into the VM it was taken from after it has run on, restored over another program, and saved through writers failing at each write";
    bool th = r.thorough();
    static vector<Run> base;
    auto &P = corpus::all();
    for(auto &p : P) base.push_back(corpus::baseline(p.src));
    for(size_t p = 0; p < P.size(); p++) {
        uint64_t n = base[p].n;
        r.add(strf("at/%s", P[p].name), n + 1, [&P, p](uint64_t i, Case &c) {
            c.desc("save and restore before instruction %llu of: %s", (unsigned long long)i, P[p].src);
            migrate(c, P[p].src, base[p], {i}, 0, true, i % 3 == 0 ? 0 : i % 3 == 1 ? 1 : 5, i % 5 == 4);
            if(i % 50 == 0) c.sample(strf("%s, saved before instruction %llu", P[p].name, (unsigned long long)i));
        });
        if(th && n < 500) r.add(strf("pair/%s", P[p].name), n * n, [&P, p, n](uint64_t i, Case &c) {
            if(i / n > i % n) return;
            c.desc("save and restore before instructions %llu and %llu of: %s", (unsigned long long)(i / n), (unsigned long long)(i % n), P[p].src);
            vector<uint64_t> at = {i / n, i % n}; // equal: two generations with nothing in between is covered by "periods"
            migrate(c, P[p].src, base[p], at, 0, false, i % 2, false);
        });
    }
    static const vector<int> PER = {1, 2, 3, 5, 8, 13};
    r.add("periods", P.size() * PER.size() * 2, [&P](uint64_t i, Case &c) {
        Idx x(i); size_t p = x.pick(P.size()); int per = PER[x.pick(PER.size())]; int order = x.pick(2);
        c.desc("moved to a fresh VM every %d instructions: %s", per, P[p].src);
        migrate(c, P[p].src, base[p], {}, per, false, order, per == 3);
    });
    uint64_t A = corpus::heapActions();
    unsigned D = th ? 4 : 3;
    r.add("heap", seqCount(A, D) * 2, [A, th](uint64_t i, Case &c) {
        bool fn = i & 1;
        auto seq = seqDecode(i / 2, A);
        string src = corpus::heapProgram(seq, fn);
        c.descs(src);
        Run b = corpus::baseline(src);
        if(seq.size() <= (th ? 2u : 1u)) for(uint64_t k = 0; k <= b.n && !c.failed(); k++) { c.desc("saved before instruction %llu: %s", (unsigned long long)k, src.c_str()); migrate(c, src, b, {k}, 0, true, k % 2, false); }
        migrate(c, src, b, {}, 7 + i % 5, false, i % 2, false);
    });
    // every order in which up to four handles are acquired on three objects and released again
    static vector<std::pair<vector<int>, vector<int>>> HP; HP.clear();
    int HN = th ? 5 : 4;
    for(uint64_t i = 0; i < seqCount(3, HN); i++) { auto acq = seqDecode(i, 3); vector<int> slots; for(size_t k = 0; k < acq.size(); k++) slots.push_back(k); for(auto &p : perms(slots)) HP.push_back({acq, p}); }
    r.add("handles", HP.size() * 2, [th](uint64_t i, Case &c) {
        auto &hp = HP[i / 2];
        string src = handleProgram(hp.first, hp.second);
        Run b; { Host h; h.onHook = liveHook; b.ok = corpus::start(h, src); while(step(h, b.n)) {} corpus::finish(h, b); if(!b.err.empty()) c.fail("error: %s", b.err.c_str()); }
        // by the model: the objects still held, with their counts
        string want;
        { int cnt[3] = {}; for(int k : hp.first) cnt[k]++; auto show = [&] { want += "["; for(int k = 0; k < 3; k++) if(cnt[k]) want += strf("%d:%d ", k + 1, cnt[k]); want += "];"; };
          show(); for(int k : hp.second) { want += strf("'%c';", 'A' + hp.first[k]); cnt[hp.first[k]]--; 
              show(); } }
        c.desc("period %d: %s", i % 2 ? 1000 : 9, src.c_str());
        if(b.out != want) { c.fail("without saving: %s\nexpected: %s", b.out.c_str(), want.c_str()); return; }
        if(i % 2) { uint64_t n = b.n; vector<uint64_t> at; // one save, at every boundary of the part after the handles were acquired (quick: every third)
            for(uint64_t k = n / 3; k < n && !c.failed(); k += th ? 1 : n / 4) migrate(c, src, b, {k + i % 7}, 0, true, i / 2 % 2, false, true); }
        else migrate(c, src, b, {}, 9, false, i / 2 % 2, false, true);
    });
    // saving through a writer that fails: reported, and the VM is undisturbed
    static const char *WP[] = {"locals", "coronest", "res", "handles", "objkeys"};
    r.add("writer", 5 * 400, [&P](uint64_t i, Case &c) {
        size_t p = 0; while(string(P[p].name) != WP[i % 5]) p++;
        uint64_t q = i / 5;
        Host h;
        if(!corpus::start(h, P[p].src)) { c.fail("does not load"); return; }
        uint64_t n = 0, half = base[p].n * (q % 4 + 1) / 5;
        while(n < half && step(h, n)) {}
        Stream probe; h.save(probe);
        uint64_t size = probe.buf.size(), cut = size * (q / 4) / 100;
        Stream s; s.failAfter = cut;
        c.desc("writer accepting %llu of %llu bytes, before instruction %llu of %s", (unsigned long long)cut, (unsigned long long)size, (unsigned long long)n, P[p].src);
        if(h.save(s)) c.fail("save reported success although the writer failed");
        if(nkxVmHasErrors(h.vm)) { c.note(0); c.outcome("writer failure also raised a VM error"); closeHost(c, h); return; }
        Run r; r.n = n;
        while(step(h, r.n)) {}
        corpus::finish(h, r);
        same(c, base[p], r, "a failed save disturbed the VM");
        closeHost(c, h);
    });
    // put back to an earlier state
    for(size_t p = 0; p < P.size(); p++) {
        uint64_t n = base[p].n;
        r.add(strf("back/%s", P[p].name), n + 1, [&P, p, n](uint64_t i, Case &c) {
            c.desc("saved before instruction %llu, put back to that state after 1, 7, all, 0 more: %s", (unsigned long long)i, P[p].src);
            reload(c, P[p].src, base[p], i, {1, 7, corpus::MAXINST, 0}, nullptr, 0);
        });
    }
    r.add("over", P.size() * P.size() * 9, [&P](uint64_t i, Case &c) {
        Idx x(i); size_t p = x.pick(P.size()), q = x.pick(P.size()); int a = x.pick(3), b = x.v;
        uint64_t at = base[p].n * (a + 1) / 4, run = base[q].n * (b + 1) / 3;
        c.desc("saved before instruction %llu, restored into a VM that has run %llu instructions of another program: %s // %s", (unsigned long long)at, (unsigned long long)run, P[p].src, P[q].src);
        string other = P[q].src;
        reload(c, P[p].src, base[p], at, {0, 3}, &other, run);
    });
    // n values in every kind of place
    int HV = th ? 140 : 34;
    r.add("holders", corpus::HOLDERS * corpus::SHAPES * (HV + 1), [](uint64_t i, Case &c) {
        Idx x(i); int kind = x.pick(corpus::HOLDERS), shape = x.pick(corpus::SHAPES), n = x.v;
        string src = corpus::holder(kind, shape, n);
        c.desc("%d x %s in %s", n, corpus::shapeNames[shape], corpus::holderNames[kind]);
        Run b = corpus::baseline(src); uint64_t m = corpus::marker(src);
        if(!b.ok || !b.err.empty() || !b.ended || m == ~0ull) { c.fail("harness: %s: %s", b.err.c_str(), src.c_str()); return; }
        c.nontrivial(i);
        migrate(c, src, b, {m}, 0, true, n % 2, false);
        migrate(c, src, b, {m / 3, m / 2, m, m + 5}, 0, false, n % 2, n & 1);
    });
    r.bounds = strf("up to %d values of 5 shapes in 14 kinds of places; %zu programs, every instruction boundary, every %s; chains moved every 1,2,3,5,8,13 instructions; all sequences of up to %u of %llu heap actions; %zu programs acquiring up to %d handles on three objects in every order and releasing them in every order; 100 cut points of the writer at 4 boundaries of 5 programs; every boundary put back after 1, 7, all and no more instructions; every ordered pair of programs restored over each other", HV, P.size(), th ? "pair of boundaries" : "single save", D, (unsigned long long)A, HP.size(), HN);
    r.assumptions = {"the application re-registers the same native types in the same order and carries its own state (handle values, user data, limits, intervals) over itself", "native data callbacks save and restore everything they own"};
    r.noteName("writer failure raised VM error");
}
