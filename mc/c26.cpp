// uses: corpus.cpp
// C26: a script that overwrites the interpreter's own bookkeeping (the function, argument count and return address that the
// language leaves within its reach) is contained: an error, an end or the instruction limit, never a damaged host.
#include "corpus.h"
using namespace mc;
using std::string;
using std::vector;

static const char *NAME[] = {"_returnPointer", "_argumentCount", "_functionId", "self0", "a"};
static const int NNAME = 5;
// -- what is stored ------------------------------------------------------------------------------------------------------
static const char *ODD[] = {"nil", "0.0", "2.5", "-1.0", "3000000000.0", "\"\"", "\"3\"", "\"-1\"", "\"x\"", "\"4000000000\"", "object()", "ob", "other", "target", "print", "call", "co1", "callme", "res(1)",
    "2147483647", "-2147483648", "2147483646", "1073741824", "65535", "65536", "65537", "1000000", "_functionId", "_argumentCount", "_returnPointer", "a", "b"};
static const int NODD = 32;
static string value(int v, int nInts) { // first the odd ones, then integers -8...
    if(v < NODD) return ODD[v];
    v -= NODD;
    if(v < nInts) return std::to_string(v - 8);
    v -= nInts; // relative to the present value
    int d = v - 12;
    return d < 0 ? "@ - " + std::to_string(-d) : "@ + " + std::to_string(d);
}
static const int NREL = 25;
// -- what follows the store ------------------------------------------------------------------------------------------------
static const char *FOLLOW[] = {
    "return b;", "", "return other(1);", "var z = other(2); return z;", "return call(other, 3);", "yield(4); return 5;", "{ var q = 1; var w = 2; if(b) { return q; } }",
    "print(a, b); return print(_returnPointer, _argumentCount);", "return resume(coroutine(other, 6));", "var i; for(i = 0; i < 3; ++i) { print(i); if(i == 1) { return i; } }",
    "return target(b - 1, b - 1);", "gc(); hook(); return b;", "return _functionId(1, 1);", "b = _functionId; return b(0, 0);", "return callme(1);"};
static const int NFOLLOW = 15;
// -- who calls -------------------------------------------------------------------------------------------------------------
static const char *CALLER[] = {
    "r = target(1, 2);",
    "function mid(p) { var l = 7; var x = target(p, 2); print(l, p, x); return x; } r = mid(3); print(r);",
    "var k = coroutine(target, 1, 2); r = resume(k); print(r); r = resume(k); print(r);",
    "function body(p) { var l = 7; var x = target(p, 2); print(l, p, x); yield(x); return l; } var k = coroutine(body, 1); r = resume(k); print(r); r = resume(k); print(r);",
    "r = call(target, 1, 2);",
    "function body(p) { var l = 7; var x = call(target, p, 2); print(l, p, x); yield(x); return l; } var k = coroutine(body, 1); r = resume(k); print(r); r = resume(k); print(r);",
    "ob.m = target; r = ob->m(2);",
    "ob._exec = target; ob._data = 4; r = ob(2); print(ob);",
    "function mid(p) { return call(target, p, 2); } function top(p) { var l = 1; var x = call(mid, p); print(l, x); return x; } r = call(top, 3);",
    "print(1, target(1, 2), other(3), target(0, 0), 5);",
    "function outer() { function inner(a, b) { return target(a, b); } return inner(1, 2) + inner(0, 1); } r = outer();",
    "r = object(); r[target(1, 2)] = target(0, 3); r.x = 1;",
    "function ka() { return resume(coroutine(kb)); } function kb() { return resume(coroutine(target, 2, 1)); } r = resume(coroutine(ka)); print(r);"};
static const int NCALLER = 13;

static string program(int name, const string &val, int follow, int caller, bool inBlock) {
    string n = NAME[name], v = val;
    for(size_t p; (p = v.find('@')) != string::npos;) v.replace(p, 1, n);
    string s = "var r = nil; var ob = object(); ob.x = 1; var target; var hits = 0;\n"
        "function other(x) { print(\"o\", x); return x; } function cf() { yield(1); return 2; } var co1 = coroutine(cf); resume(co1); var callme = object(); callme._exec = other;\n";
    string store = n == "self0" ? "target = " + v + ";" : n + " = " + v + ";";
    if(inBlock) store = "{ var t1 = 1; { " + store + " } }";
    s += "function target0(a, b) { hits = hits + 1; if(hits > 6) { return 0; } " + store + " " + FOLLOW[follow] + " }\ntarget = target0;\n";
    s += CALLER[caller];
    return s + "\nprint(\"end\", r);\n";
}
static void afterwards(Case &c, Host &h, int kind) {
    // The embedding program goes on using its VM.
    bool err = h.hasErrors();
    string e = h.errors();
    if(err != !e.empty()) c.fail("error state and error text disagree");
    if(err) for(size_t i = 0; i < e.size();) { // every line has file:line: text
        size_t j = e.find('\n', i); if(j == string::npos) { c.fail("error text without line end: %s", esc(e).c_str()); break; }
        i = j + 1;
    }
    nkxVmGarbageCollect(h.vm);
    nkxVmShrink(h.vm);
    if(kind & 1) {
        Stream s;
        bool ok = h.save(s);
        if(ok && !h.hasErrors()) {
            Host g;
            if(g.create() && g.natives() && g.restore(s) && !g.hasErrors()) {
                nkxSetRemainingInstructionLimit(g.vm, 2000); nkxSetGarbageCollectionInterval(g.vm, 32);
                nkxVmExecuteProgram(g.vm); nkxVmGarbageCollect(g.vm);
                for(auto &p : g.problems) c.fail("restored: %s", p.c_str());
            }
            g.destroy();
            for(auto &p : g.problems) c.fail("restored: %s", p.c_str());
        }
    }
    if(kind & 2 && !h.hasErrors()) { // the host calls in
        NKValue *f = nkxVmFindGlobalVariable(h.vm, nullptr, "other");
        if(f && f->type == NK_VALUETYPE_FUNCTIONID) {
            NKValue a, r; memset(&a, 0, sizeof a); memset(&r, 0, sizeof r); nkxValueSetInt(h.vm, &a, 41);
            nkxSetRemainingInstructionLimit(h.vm, 2000);
            nkxVmCallFunction(h.vm, f, 1, &a, &r);
            (void)h.repr(&r);
        }
    }
    (void)h.globalsRepr({"r", "ob", "hits", "target", "other", "k", "co1"});
}
static void one(Case &c, int name, const string &val, int follow, int caller, bool block, int kind) {
    string src = program(name, val, follow, caller, block);
    c.descs(src + strf("// afterwards %d", kind));
    Host h; h.led.cap = 64u << 20; h.onHook = [](Host &q, NKVMFunctionCallbackData *) { nkxVmShrink(q.vm); };
    if(!h.load(src)) { // e.g. the name is not available: that is containment, too
        c.trans(); c.trace(); c.outcome("rejected");
        string e = h.errors(); if(e.empty()) c.fail("rejected without an error");
        h.destroy(); for(auto &p : h.problems) c.fail("%s", p.c_str());
        return;
    }
    nkxSetGarbageCollectionInterval(h.vm, 16);
    nkxSetRemainingInstructionLimit(h.vm, 3000);
    uint64_t n = 0, slices = 0;
    while(!nkxVmProgramHasEnded(h.vm) && !nkxVmHasErrors(h.vm)) {
        nkxVmIterate(h.vm, 61); n += 61;
        if(++slices > 100) { c.fail("still running after %llu instructions under a limit of 3000", (unsigned long long)n); break; }
    }
    c.trans(n); c.trace();
    string e = h.hasErrors() ? firstLine(h.errors()) : "ended";
    { size_t p = e.rfind(": "); c.outcome(p == string::npos ? e : e.substr(p + 2)); }
    c.state(hashStr(h.out + e)); c.nontrivial(hashStr(src));
    if(hashStr(src) % 5000 == 0) c.sample(src + " -> " + e);
    afterwards(c, h, kind);
    h.destroy();
    for(auto &p : h.problems) c.fail("%s", p.c_str());
    for(auto &q : h.live) c.fail("native data %d never cleaned up", q.first);
}
// The host calls the hostile function itself.
static void hosted(Case &c, int name, const string &val, int follow, int kind) {
    string src = program(name, val, follow, 0, false);
    src = src.substr(0, src.rfind("r = target(1, 2);")) + "\n";
    c.descs(src + strf("// target(1, 2) called by the host; afterwards %d", kind));
    Host h; h.led.cap = 64u << 20; h.onHook = [](Host &q, NKVMFunctionCallbackData *) { nkxVmShrink(q.vm); };
    if(!h.load(src)) { c.trace(); c.trans(); h.destroy(); return; }
    nkxSetGarbageCollectionInterval(h.vm, 16);
    nkxSetRemainingInstructionLimit(h.vm, 6000);
    nkxVmExecuteProgram(h.vm);
    if(h.hasErrors()) { c.fail("harness error: %s", h.errors().c_str()); h.destroy(); return; }
    NKValue *f = nkxVmFindGlobalVariable(h.vm, nullptr, "target");
    for(int i = 0; f && i < 3; i++) {
        NKValue a[2], r; memset(a, 0, sizeof a); memset(&r, 0, sizeof r); nkxValueSetInt(h.vm, &a[0], 1); nkxValueSetInt(h.vm, &a[1], 2);
        NKValue fn = *f;
        if(fn.type != NK_VALUETYPE_FUNCTIONID) break;
        nkxVmCallFunction(h.vm, &fn, 2, a, &r);
        if(!h.hasErrors()) (void)h.repr(&r);
        c.trans();
    }
    c.trace(); c.outcome(h.hasErrors() ? "error" : "ended"); c.state(hashStr(h.out + h.errors()));
    afterwards(c, h, kind);
    h.destroy();
    for(auto &p : h.problems) c.fail("%s", p.c_str());
}
void define(Registry &r) {
    bool t = r.thorough();
    int nInts = t ? 220 : 150, nVals = NODD + nInts + NREL;
    r.rule = "a script that assigns to the bookkeeping variables of its own call ends, stops with an error or meets its instruction limit, and the VM can then be inspected, collected, shrunk, saved, called and deleted without a memory error and with all memory and native data returned";
    r.bounds = strf("%d names x %d values (%d odd ones, all integers -8..%d, the present value +-12) x %d continuations x %d callers, instruction limit 3000", NNAME, nVals, NODD, nInts - 9, NFOLLOW, NCALLER);
    r.add("callers", (uint64_t)3 * nVals * NCALLER * 4, [=](uint64_t i, Case &c) { Idx x(i); int ca = x.pick(NCALLER), f = x.pick(4), n = x.pick(3), v = x.pick(nVals); one(c, n, value(v, nInts), f == 3 ? 5 : f, ca, false, v & 3); });
    r.add("odd", (uint64_t)NNAME * NODD * NFOLLOW * NCALLER * 2, [=](uint64_t i, Case &c) { Idx x(i); int f = x.pick(NFOLLOW), n = x.pick(NNAME), ca = x.pick(NCALLER), b = x.pick(2), v = x.pick(NODD); one(c, n, ODD[v], f, ca, b, (f + ca) & 3); });
    r.add("host", (uint64_t)3 * nVals * NFOLLOW, [=](uint64_t i, Case &c) { Idx x(i); int f = x.pick(NFOLLOW), n = x.pick(3), v = x.pick(nVals); hosted(c, n, value(v, nInts), f, v & 3); });
    static const char *ARGC[] = {"0", "1", "2", "3", "4", "7", "-1", "-2", "1000", "65536"};
    r.add("pairs", (uint64_t)10 * nInts * NCALLER * 2, [=](uint64_t i, Case &c) { Idx x(i); int ca = x.pick(NCALLER), f = x.pick(2), k = x.pick(10), v = x.pick(nInts); one(c, 0, string(ARGC[k]) + "; _returnPointer = " + std::to_string(v - 8) + "; _argumentCount = " + ARGC[k], f, ca, false, v & 3); });
    if(t) r.add("all", (uint64_t)3 * nVals * NFOLLOW * NCALLER * 2, [=](uint64_t i, Case &c) { Idx x(i); int f = x.pick(NFOLLOW), ca = x.pick(NCALLER), n = x.pick(3), b = x.pick(2), v = x.pick(nVals); one(c, n, value(v, nInts), f, ca, b, (v + f) & 3); });
}
