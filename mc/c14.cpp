// uses: lang.cpp corpus.cpp
// C14: shrinking a VM between any two instructions is unobservable, also combined with collection and saving.
#include "corpus.h"
#include <memory>
using namespace mc;
using corpus::Run;
using std::string;
using std::vector;

enum What { SHRINK, GC_SHRINK, SHRINK_TWICE, SHRINK_GC, SHRINK_SAVE, WHATS };
static const char *WN[] = {"shrink", "collect then shrink", "shrink twice", "shrink then collect", "shrink, save, restore, shrink"};

static bool act(Case &c, std::unique_ptr<Host> &h, int w) {
    NKVM *vm = h->vm;
    switch(w) {
    case GC_SHRINK: nkxVmGarbageCollect(vm); nkxVmShrink(vm); break;
    case SHRINK_TWICE: nkxVmShrink(vm); nkxVmShrink(vm); break;
    case SHRINK_GC: nkxVmShrink(vm); nkxVmGarbageCollect(vm); break;
    case SHRINK_SAVE: {
        nkxVmShrink(vm);
        Stream s;
        if(!h->save(s)) { c.fail("save after shrinking failed"); return false; }
        std::unique_ptr<Host> b(new Host);
        if(!b->create() || !b->natives() || !b->restore(s)) { c.fail("restore after shrinking failed: %s", b->errors().c_str()); return false; }
        nkxSetGarbageCollectionInterval(b->vm, 60000);
        nkxSetGarbageCollectionNewObjectInterval(b->vm, 0x7fffffff);
        b->held = h->held; b->nextRes = h->nextRes; b->out = h->out;
        h->destroy();
        for(auto &p : h->problems) c.fail("%s", p.c_str());
        h.swap(b);
        nkxVmShrink(h->vm);
        break; }
    default: nkxVmShrink(vm);
    }
    return true;
}
// Every entry of every observable object must still be found: walk globals through the host API.
static Run perturbed(Case &c, const string &src, int w, const std::function<bool(uint64_t)> &when, int autogc = 0) {
    Run r;
    std::unique_ptr<Host> h(new Host);
    r.ok = corpus::start(*h, src);
    if(!r.ok) { c.fail("does not load: %s", h->errors().c_str()); return r; }
    if(autogc) { nkxSetGarbageCollectionInterval(h->vm, autogc); nkxSetGarbageCollectionNewObjectInterval(h->vm, 1); }
    while(!nkxVmProgramHasEnded(h->vm) && !nkxVmHasErrors(h->vm) && r.n < corpus::MAXINST) {
        if(when(r.n)) if(!act(c, h, w)) return r;
        nkxVmIterate(h->vm, 1); r.n++;
    }
    if(!nkxVmHasErrors(h->vm)) if(!act(c, h, w)) return r;
    corpus::finish(*h, r);
    c.trans(r.n);
    h->destroy();
    for(auto &q : h->problems) c.fail("%s", q.c_str());
    if(!h->live.empty()) c.fail("%zu native data objects never cleaned up", h->live.size());
    return r;
}
static void same(Case &c, const Run &base, const Run &r, const string &what) {
    c.trace();
    c.state(hashStr(r.key()));
    if(base.key() != r.key() || base.n != r.n) c.fail("%s\n  undisturbed: %s (%llu instructions)\n  shrunk:      %s (%llu instructions)", what.c_str(), base.key().c_str(), (unsigned long long)base.n, r.key().c_str(), (unsigned long long)r.n);
}

void define(Registry &r) {
    r.rule = "the VM is shrunk (alone, twice, before or after a collection, around a save and restore) at each instruction boundary of each program, at every boundary, and at every pair of boundaries in the thorough tier; compared with the undisturbed execution; the memory given back, for every pattern of holes";
    bool th = r.thorough();
    static vector<corpus::Prog> P = corpus::without(corpus::NATREF);
    r.noteName("not_applicable_masks");
    static vector<Run> base;
    for(auto &p : P) base.push_back(corpus::baseline(p.src));
    for(size_t p = 0; p < P.size(); p++) {
        uint64_t n = base[p].n;
        int W = th ? WHATS : 2;
        r.add(strf("at/%s", P[p].name), (n + 1) * W, [p, W](uint64_t i, Case &c) {
            uint64_t k = i / W; int w = i % W;
            c.desc("%s before instruction %llu of: %s", WN[w], (unsigned long long)k, P[p].src);
            same(c, base[p], perturbed(c, P[p].src, w, [k](uint64_t n) { return n == k; }), strf("%s before instruction %llu changed the outcome", WN[w], (unsigned long long)k));
            if(i % 50 == 0) c.sample(strf("%s, %s before instruction %llu", P[p].name, WN[w], (unsigned long long)k));
        });
        if(th && n < 500) r.add(strf("pair/%s", P[p].name), n * n, [p, n](uint64_t i, Case &c) {
            if(i / n >= i % n) return;
            c.desc("collect then shrink before instructions %llu and %llu of: %s", (unsigned long long)(i / n), (unsigned long long)(i % n), P[p].src);
            same(c, base[p], perturbed(c, P[p].src, i & 1, [i, n](uint64_t k) { return k == i / n || k == i % n; }), "shrinking at two points changed the outcome");
        });
    }
    static const vector<int> PER = {1, 2, 3, 7};
    r.add("periods", P.size() * PER.size() * WHATS, [](uint64_t i, Case &c) {
        Idx x(i); size_t p = x.pick(P.size()); int per = PER[x.pick(PER.size())]; int w = x.pick(WHATS);
        c.desc("%s every %d instructions: %s", WN[w], per, P[p].src);
        same(c, base[p], perturbed(c, P[p].src, w, [per](uint64_t n) { return n % per == 0; }, per == 2 ? 3 : 0), strf("%s every %d instructions changed the outcome", WN[w], per));
    });
    uint64_t A = corpus::heapActions();
    unsigned D = th ? 4 : 3;
    r.add("heap", seqCount(A, D) * 2, [A, th](uint64_t i, Case &c) {
        bool fn = i & 1;
        auto seq = seqDecode(i / 2, A);
        string src = corpus::heapProgram(seq, fn);
        c.descs(src);
        Run b = corpus::baseline(src);
        if(!b.ok) { c.fail("harness: does not load: %s", b.err.c_str()); return; }
        same(c, b, perturbed(c, src, GC_SHRINK, [](uint64_t) { return true; }), "collecting and shrinking before every instruction changed the outcome");
        same(c, b, perturbed(c, src, SHRINK, [](uint64_t) { return true; }, 4), "shrinking before every instruction, with automatic collection, changed the outcome");
        same(c, b, perturbed(c, src, SHRINK_SAVE, [i](uint64_t n) { return n % 11 == i % 11; }), "shrinking around saves changed the outcome");
        if(seq.size() <= (th ? 3u : 2u)) for(uint64_t k = 0; k <= b.n && !c.failed(); k++) {
            c.desc("collect then shrink before instruction %llu of: %s", (unsigned long long)k, src.c_str());
            same(c, b, perturbed(c, src, GC_SHRINK, [k](uint64_t n) { return n == k; }), strf("collecting and shrinking before instruction %llu changed the outcome", (unsigned long long)k));
        }
    });
    // Objects the host pins stay what they are: every arrangement of objects of every kind in the table, shrunk in between.
    static const int KINDS = 8;
    unsigned NS = th ? 5 : 4;
    r.add("pinned", seqCount(KINDS, NS) * 3 * (1u << NS), [NS](uint64_t i, Case &c) {
        Idx x(i);
        unsigned mask = x.pick(1u << NS); int mode = x.pick(3);
        auto seq = seqDecode(x.v, KINDS);
        if(mask >> seq.size()) { c.note(0); return; }
        static const char *KN[] = {"garbage", "kept by the script", "pinned", "pinned twice", "pinned and released", "pinned and kept", "coroutine", "native data"};
        string d, src = "var keep = object(); var i; var tmp;\nfunction co(a) { var l = object(); l.v = a; yield(1); return l.v; }\nfunction more(n) { var t; for(i = 0; i < n; ++i) { t = object(); t.v = i; keep[100 + i] = t; } return 1; }\nfunction get(k) { if(k > 99) { return keep[k]; } return keep[k].v; }\n";
        for(size_t k = 0; k < seq.size(); k++) {
            d += string(k ? ", " : "") + KN[seq[k]] + (mask >> k & 1 ? " [collect, shrink]" : "");
            string v = std::to_string(40 + k), q = std::to_string(k);
            if(seq[k] == 6) src += "keep[" + q + "] = coroutine(co, " + v + "); resume(keep[" + q + "]);\n";
            else if(seq[k] == 7) src += "tmp = res(" + q + "); tmp.v = " + v + "; keep[" + q + "] = tmp; tmp = nil;\n";
            else { src += "tmp = object(); tmp.v = " + v + ";"; if(seq[k] == 1 || seq[k] == 5) src += " keep[" + q + "] = tmp;"; src += " hook(" + q + ", tmp); tmp = nil;\n"; }
            src += "hook(\"done\", " + q + ");\n";
        }
        c.desc("%s; mode %d", d.c_str(), mode);
        Host h; bool flag = false; std::map<int, NKValue> pins;
        h.onHook = [&](Host &q, NKVMFunctionCallbackData *dd) {
            if(dd->arguments[0].type == NK_VALUETYPE_STRING) { if(mask >> nkxValueToInt(q.vm, &dd->arguments[1]) & 1) flag = true; return; }
            int k = nkxValueToInt(q.vm, &dd->arguments[0]), kind = seq[k];
            NKValue v = dd->arguments[1];
            if(kind >= 2 && kind <= 5) { nkxVmObjectAcquireHandle(q.vm, &v); if(kind == 3) nkxVmObjectAcquireHandle(q.vm, &v); }
            if(kind == 4) nkxVmObjectReleaseHandle(q.vm, &v); else if(kind >= 2) pins[k] = v;
        };
        if(!corpus::start(h, src)) { c.fail("harness: does not load: %s", h.errors().c_str()); return; }
        auto check = [&](const char *when) {
            for(auto &p : pins) {
                NKValue key; memset(&key, 0, sizeof key); nkxValueSetString(h.vm, &key, "v");
                NKValue *e = nkxVmObjectFindOrAddEntry(h.vm, &p.second, &key, nktrue);
                if(!e || nkxValueToInt(h.vm, e) != 40 + p.first) c.fail("%s: pinned object %d is not what it was (%s)", when, p.first, e ? h.repr(e).c_str() : "no field");
            }
        };
        auto tidy = [&]() { if(mode != 1) nkxVmGarbageCollect(h.vm); nkxVmShrink(h.vm); if(mode == 2) nkxVmShrink(h.vm); c.trans(); check("after shrinking"); };
        for(int n = 0; n < 2000 && !nkxVmProgramHasEnded(h.vm) && !h.hasErrors(); n++) { nkxVmIterate(h.vm, 1); if(flag) { flag = false; tidy(); } }
        auto kept = [&](const char *when) {
            NKValue *f = nkxVmFindGlobalVariable(h.vm, nullptr, "get");
            for(size_t k = 0; k < seq.size(); k++) if(seq[k] == 1 || seq[k] == 5 || seq[k] == 7) {
                NKValue a, ret; memset(&a, 0, sizeof a); memset(&ret, 0, sizeof ret); nkxValueSetInt(h.vm, &a, k);
                nkxVmCallFunction(h.vm, f, 1, &a, &ret);
                if(h.hasErrors() || nkxValueToInt(h.vm, &ret) != 40 + (int)k) { c.fail("%s: the script's object %zu is not what it was: %s%s", when, k, h.repr(&ret).c_str(), h.errors().c_str()); break; }
            }
        };
        kept("at the end"); tidy(); kept("after shrinking");
        NKValue a, ret; memset(&a, 0, sizeof a); memset(&ret, 0, sizeof ret); nkxValueSetInt(h.vm, &a, 5);
        nkxVmCallFunction(h.vm, nkxVmFindGlobalVariable(h.vm, nullptr, "more"), 1, &a, &ret);
        check("after allocating more"); kept("after allocating more"); tidy();
        for(auto it = pins.begin(); it != pins.end();) { // released one by one
            NKValue v = it->second; int k = it->first; it = pins.erase(it);
            nkxVmObjectReleaseHandle(h.vm, &v); if(seq[k] == 3) nkxVmObjectReleaseHandle(h.vm, &v);
            tidy();
        }
        kept("after releasing");
        c.trace(); c.state(hashStr(d) * 3 + mode);
        if(h.hasErrors()) c.fail("errors: %s", h.errors().c_str());
        h.destroy();
        for(auto &p : h.problems) c.fail("%s", p.c_str());
        if(!h.live.empty()) c.fail("native data never cleaned up");
    });
    // n values in every kind of place
    int HN = th ? 140 : 34;
    r.add("holders", corpus::HOLDERS * corpus::SHAPES * (HN + 1), [](uint64_t i, Case &c) {
        Idx x(i); int kind = x.pick(corpus::HOLDERS), shape = x.pick(corpus::SHAPES), n = x.v;
        string src = corpus::holder(kind, shape, n);
        c.desc("%d x %s in %s", n, corpus::shapeNames[shape], corpus::holderNames[kind]);
        Run b = corpus::baseline(src); uint64_t m = corpus::marker(src);
        if(!b.ok || !b.err.empty() || !b.ended || m == ~0ull) { c.fail("harness: %s: %s", b.err.c_str(), src.c_str()); return; }
        c.nontrivial(i);
        same(c, b, perturbed(c, src, GC_SHRINK, [m](uint64_t k) { return k == m; }), "collecting and shrinking while the values were kept changed the outcome");
        same(c, b, perturbed(c, src, SHRINK_SAVE, [m](uint64_t k) { return k == m || k == m / 2; }), "shrinking and moving while the values were kept changed the outcome");
        if(n <= 12 || n % 8 < 2) same(c, b, perturbed(c, src, n & 1 ? SHRINK : GC_SHRINK, [](uint64_t) { return true; }), "shrinking before every instruction changed the outcome");
    });
    // What shrinking gives back: the memory in use afterwards depends on how much is alive, not on where the holes were.
    static const unsigned GB = th ? 11 : 9;
    r.add("given back", (1u << GB) * 10, [](uint64_t i, Case &c) {
        Idx x(i); int what = x.pick(5); bool again = x.pick(2); unsigned mask = x.v;
        static const char *W[] = {"objects", "strings", "objects with a field", "objects used as keys", "typed objects with native data"};
        c.desc("%u %s of which those in mask 0x%x stay alive%s; collected and shrunk", GB, W[what], mask, again ? ", filled up and the same again" : "");
        auto usage = [&](unsigned m, bool twice) -> uint64_t {
            Host h;
            string src = "var keep = object();"; for(unsigned k = 0; k < GB; k++) src += strf("var g%u;", k);
            if(!h.load(src)) { c.fail("harness: %s", h.errors().c_str()); return 0; }
            nkxSetGarbageCollectionInterval(h.vm, 60000); nkxSetGarbageCollectionNewObjectInterval(h.vm, 0x7fffffff);
            h.run();
            auto global = [&](const string &n) { return nkxVmFindGlobalVariable(h.vm, nullptr, n.c_str()); };
            auto name = [](unsigned k) { return strf("g%u", k); };
            static int native; NKVMExternalDataTypeID type = nkxVmRegisterExternalType(h.vm, "kind of its own", nullptr, [](NKVM *, NKValue *, void *) {}, nullptr);
            auto fill = [&](unsigned k) {
                NKValue v; memset(&v, 0, sizeof v); NKValue key; memset(&key, 0, sizeof key);
                if(what == 1) nkxValueSetString(h.vm, &v, strf("text %02u", k).c_str()); else nkxCreateObject(h.vm, &v);
                *global(name(k)) = v;
                if(what == 4) { nkxVmObjectSetExternalType(h.vm, &v, type); nkxVmObjectSetExternalData(h.vm, &v, &native); return; }
                if(what >= 2) { nkxValueSetInt(h.vm, &key, k); NKValue *o = what == 2 ? &v : global("keep"); NKValue *e = nkxVmObjectFindOrAddEntry(h.vm, o, what == 2 ? &key : &v, nkfalse); if(e) nkxValueSetInt(h.vm, e, k); }
            };
            auto thin = [&]() {
                for(unsigned k = 0; k < GB; k++) if(!(m >> k & 1)) {
                    NKValue *g = global(name(k)); if(what == 3) nkxVmObjectClearEntry(h.vm, global("keep"), g);
                    memset(g, 0, sizeof *g); g->type = NK_VALUETYPE_NIL;
                }
                nkxVmGarbageCollect(h.vm);
                uint64_t u = nkxVmGetCurrentMemoryUsage(h.vm);
                nkxVmShrink(h.vm); c.trans();
                uint64_t s = nkxVmGetCurrentMemoryUsage(h.vm);
                if(s > u) c.fail("shrinking raised the memory in use from %llu to %llu", (unsigned long long)u, (unsigned long long)s);
                nkxVmShrink(h.vm);
                if(nkxVmGetCurrentMemoryUsage(h.vm) != s) c.fail("shrinking again changed the memory in use from %llu to %u", (unsigned long long)s, nkxVmGetCurrentMemoryUsage(h.vm));
            };
            for(unsigned k = 0; k < GB; k++) fill(k);
            thin();
            if(twice) { for(unsigned k = 0; k < GB; k++) if(!(m >> k & 1)) fill(k); thin(); }
            uint64_t u = nkxVmGetCurrentMemoryUsage(h.vm);
            if(h.hasErrors()) c.fail("%s", h.errors().c_str());
            h.destroy();
            for(auto &p : h.problems) c.fail("%s", p.c_str());
            return u;
        };
        unsigned n = __builtin_popcount(mask);
        uint64_t a = usage((1u << n) - 1, false), b = usage(mask, again);
        if(a != b && !c.failed()) c.fail("%llu bytes in use; with the same number alive but no holes %llu", (unsigned long long)b, (unsigned long long)a);
        c.nontrivial(i); c.trace(); c.state(b * 8 + what * 2 + again);
    });
    r.bounds = strf("up to %d values of 5 shapes in 14 kinds of places; %zu programs, every instruction boundary, 5 combinations with collection and saving, periods 1,2,3,7; all sequences of up to %u of %llu heap actions in global and local frames; all tables of up to %u objects of 8 kinds (pinned, released, coroutine, ...) shrunk after any subset of the steps; every pattern of holes among %u objects, strings, fields and keys%s", HN, P.size(), D, (unsigned long long)A, NS, GB, th ? "; every pair of boundaries" : "");
    r.assumptions = {"the host shrinks only between instructions and pins the objects it keeps with handles; raw object references kept inside native data are renumbered by shrinking and are outside the property"};
}
