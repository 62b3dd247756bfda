// uses: lang.cpp corpus.cpp
// C25: method calls and callable objects bind their data correctly. Every call form x target x arguments x context is run
// on the library and on the reference interpreter; every function of those contexts is also called by the host.
#include "corpus.h"
#include "diff.h"
using namespace mc;
using std::string;
using std::vector;

// -- targets ---------------------------------------------------------------------------------------------------------------
// Script text that leaves the target in the global T.
static const char *BASE[] = {"f0", "f1", "f2", "f3", "f4", "f5", "print", "call", "str", "nil", "7", "2.5", "\"s\"", "object()"};
static const int NBASE = 14, NGOOD = 9;
static const char *DATA[] = {"%d", "nil", "\"d%d\"", "pt", "f1", "0.5"};
struct Target { string setup, name; };
static string wrap(int level, bool has, int dk) {
    string s = "{ var o = object(); o._exec = T; o.n = " + std::to_string(level) + "; ";
    if(has) { string v = DATA[dk % 6]; size_t p = v.find("%d"); if(p != string::npos) v.replace(p, 2, std::to_string(10 + level)); s += "o._data = " + v + "; "; }
    return s + "T = o; }\n";
}
static Target chain(int base, int depth, uint64_t mask, int dk) {
    Target t; t.setup = string("T = ") + BASE[base] + ";\n"; t.name = BASE[base];
    for(int i = 0; i < depth; i++) { t.setup += wrap(i + 1, mask >> i & 1, dk + i); t.name += mask >> i & 1 ? "<d" : "<"; }
    return t;
}
static Target special(int i) {
    static const char *S[] = {
        "T = object(); T._exec = T;",                                         // a cycle of one
        "T = object(); T._exec = T; T._data = 1;",
        "T = object(); T._exec = object(); T._exec._exec = T;",               // a cycle of two
        "T = object(); T._data = 3;",                                         // data but nothing to run
        "T = object(); T._exec = nil; T._data = 3;",
        "T = object(); T._exec = f1; T._data = T;",                           // itself as data
        "T = object(); T._exec = f2; T._data = object(); T._data._exec = f1;",// callable data is not called
        "T = object(); T._exec = f3; T._exec2 = f1; T.data = 5; T._Data = 6; T[\"_data \"] = 7;",
        "T = object(); T._exec = f1; T._data = 4; T._data = nil;",            // a nil data field removed or present
        "T = object(); T._exec = f1; T._data = 4; T._exec = f2;",
        "T = object(); T._exec = call; T._data = f1;",                        // partial application through the host
        "T = object(); T._exec = call; T._data = object(); T._data._exec = f2; T._data._data = 8;",
        "T = object(); T[1] = f1; T.f = f1;",
        "T = object(); T._exec = selfy; T._data = T;",
        "T = object(); T._exec = inner;",                                     // calls another callable inside
        "T = object(); T._exec = morph; T._data = T;",                        // changes its own fields while running
        "T = coroutine(f1, 2);",                                              // a coroutine is not callable
        "T = coroutine(f1, 2); T._exec = f1; T._data = 1;",
        "T = yielder;",
        "T = object(); T._exec = yielder; T._data = 5;",
        "T = object(); T._exec = print; T._data = object(); T.a = 1; T.b = 2; T.c = 3; T.d = 4; T.e = 5; T.g = 6; T.h = 7; T.i = 8;",
        "var cnt = 0; function up() { cnt = cnt + 1; return cnt; } T = object(); T._exec = up;",
        "T = mk;",
        "T = object(); T._exec = mkf;",
        "T = object(); T._exec = rec; T._data = 3;",
    };
    static const int n = sizeof S / sizeof *S;
    Target t; if(i >= n) { t.name = "?"; return t; }
    t.setup = string(S[i]) + "\n"; t.name = S[i]; return t;
}
static const int NSPECIAL = 25;
// -- arguments -------------------------------------------------------------------------------------------------------------
static const char *ARGS[] = {"", "1", "1, 2", "1, 2, 3", "T", "chg()", "1, chg()", "f1(4), f2(5, 6)", "h->self()", "h.f, h.inn", "1, 2, 3, 4, 5, 6, 7, 8, 9"};
static const int NARGS = 11;
// -- call forms: $ is the argument list, % the list with a comma in front if it is not empty -----------------------------
static const char *FORM[] = {
    "T($)", "(T)($)", "h.f($)", "h->f($)", "h[0]($)", "h[\"f\"]($)", "mk().f($)", "mk()->f($)", "h.inn.f($)", "h.inn->f($)", "h[1]->f($)", "get()($)", "h.get()($)",
    "call(T%)", "resume(coroutine(T%))", "h->self()->f($)", "h->self().f($)", "h->self().inn->f($)", "mk()->self()->self()->f($)", "(mk())->f($)", "h[sub(1)]->f($)",
    "h->none($)", "h.none($)", "none->f($)", "h.n->f($)", "T->f($)", "call(h.f%)", "coroutine(h.f%)", "h.inn.inn2->f($)", "h->f($)->f()", "T($)()"};
static const int NFORM = 31;
static string form(int f, int a) {
    string r;
    for(const char *p = FORM[f]; *p; p++) if(*p == '$') r += ARGS[a]; else if(*p == '%') r += *ARGS[a] ? string(", ") + ARGS[a] : string(); else r += *p;
    return r;
}
// -- contexts: @ is the call ------------------------------------------------------------------------------------------------
static const char *CTXT[] = {
    "r = @; print(r);",
    "function ctx(p) { var l = 1; var m = 2; var x = @; print(l, m, p, x); return x; } r = ctx(9); print(r);",
    "var i; for(i = 0; i < 3; ++i) { var q = i; @; print(i, q); }",
    "function co(p) { var l = 5; yield(1); var x = @; print(p, l, x); yield(x); return @; } var c = coroutine(co, 8); resume(c); r = resume(c); print(r); r = resume(c); print(r);",
    "function ctx(p) { var l = 1; var x = @; print(l, p); return x; } r = call(ctx, 9); print(r);",
    "print(1, 2 * 3, @, 4); print(\"after\");",
    "print(@, @);",
    "{ var q = 1; var w = 2; r = @; print(q, w, r); }",
    "function deep(n) { var z = n; if(n == 0) { return @; } var y = deep(n - 1); print(z, n); return y; } r = deep(5); print(r);",
    "var k = 0; while((k < 2) && (@ == 1)) { print(\"loop\"); k = k + 1; } print(k);",
    "function ctx(p) { function nested(q) { return @; } return nested(p); } r = ctx(3); print(r);",
    "function coi(p) { var l = 3; var x = @; print(l, p); return x; } function co(p) { return call(coi, p); } r = resume(coroutine(co, 4)); print(r);",
    "h.r = @; print(h.r, h.n);",
    "r = object(); r[@] = @; print(r);",
    "function m(me, p) { print(me.n, p); return @; } h.m = m; r = h->m(6); print(r);",
    "function w(d, p) { print(d, p); var x = @; print(d, p); return x; } var g2 = object(); g2._exec = w; g2._data = 2; r = g2(3); print(r);",
};
static const int NCTX = 16;
static const string PRELUDE =
    "var r = nil; var T; var pt = object(); pt.n = 77;\n"
    "function f0() { print(\"f0\"); return 100; } function f1(a) { print(\"f1\", a); return a; } function f2(a, b) { print(\"f2\", a, b); return b; }\n"
    "function f3(a, b, c) { print(\"f3\", a, b, c); a = 1; c = 2; return b; } function f4(a, b, c, d) { print(\"f4\", a, b, c, d); return 1; } function f5(a, b, c, d, e) { print(\"f5\", a, b, c, d, e); }\n"
    "function sub(x) { print(\"sub\", x); return x; }\n";
static const string HOLDER = // needs T
    "var h = object(); h.n = 5; h.f = T; h[0] = T; h.inn = object(); h.inn.n = 6; h.inn.f = T; h[1] = h.inn; h.inn.inn2 = object(); h.inn.inn2.n = 7; h.inn.inn2.f = T; var none = nil;\n"
    "function mk() { print(\"mk\"); return h; } function get() { print(\"get\"); return T; } h.get = get; function self(x) { print(\"self\"); return x; } h.self = self; h.inn.self = self;\n"
    "function chg() { h.f = f1; T = f2; h[0] = nil; h.inn.f = f0; print(\"chg\"); return 1; }\n";
static const string SPECIALPRE =
    "function selfy(o, a) { print(o.n, a); o.n = a; return o; } function inner(a) { var q = object(); q._exec = f2; q._data = 4; return q(a); } function morph(o, a) { o._exec = f1; o._data = a; print(o); return o; }\n"
    "function yielder(a) { print(\"y1\", a); if(a == 1) { return 2; } print(\"y2\", a); return a; } function mkf(a) { print(\"mkf\", a); return f1; } function rec(n, a) { print(\"rec\", n, a); if(n == 0) { return a; } T._data = n - 1; return T(a); }\n";

static string program(const Target &t, int f, int a, int x) {
    string s = PRELUDE;
    string hold = HOLDER, set = t.setup;
    if(t.setup.find("T = object()") != string::npos || t.name[0] == 'T' || t.name[0] == 'v') s += SPECIALPRE;
    if(t.name == "T = mk;") { hold = HOLDER; set = ""; } // mk is defined with the holder
    s += set + hold;
    if(t.name == "T = mk;") s += "T = mk; h.f = mk; h[0] = mk; h.inn.f = mk;\n";
    string ctx = CTXT[x], call = form(f, a);
    for(char ch : ctx) if(ch == '@') s += call; else s += ch;
    return s + "\n";
}
static uint64_t skips;
static void one(Case &c, const Target &t, int f, int a, int x) {
    if(t.name == "?") return;
    lang::Result r;
    string src = program(t, f, a, x);
    diff::Skip s = diff::compare(c, src, diff::Opt(), &r);
    c.trace(); c.trans();
    if(s == diff::COMPARED) { c.state(hashStr(r.out) + r.error); c.nontrivial(hashStr(src)); c.outcome(r.error ? r.why : "ended"); }
    else { c.note(0); (void)skips; }
}
// -- the host calls a function that makes the call ------------------------------------------------------------------------
static void hosted(Case &c, const Target &t, int f, int a, int kind) {
    static const char *BODY[] = {
        "function entry(p, q) { var l = 1; var x = @; print(l, p, q, x); return x; }",
        "function entry(p, q) { var i; var x = nil; for(i = 0; i < 2; ++i) { x = @; } return x; }",
        "function co(p) { yield(p); return @; } function entry(p, q) { var k = coroutine(co, p); print(resume(k)); return resume(k); }",
        "function mid(p) { return @; } function entry(p, q) { return call(mid, p); }"};
    string call = form(f, a), body; for(const char *p = BODY[kind]; *p; p++) if(*p == '@') body += call; else body += *p;
    bool mk = t.name == "T = mk;";
    string src = PRELUDE + SPECIALPRE + (mk ? "" : t.setup) + HOLDER + (mk ? "T = mk; h.f = mk; h[0] = mk; h.inn.f = mk;\n" : "") + body + "\n";
    lang::Result r = lang::run(src + "r = entry(3, \"q\"); print(r);", lang::Options());
    c.descs(src);
    if(r.timeout || !r.compiled || !r.unspecified.empty()) { c.note(0); if(!r.compiled) c.fail("harness error: %s", r.why.c_str()); return; }
    Host h;
    if(!h.load(src)) { c.fail("rejected: %s", h.errors().c_str()); return; }
    while(!nkxVmProgramHasEnded(h.vm) && !h.hasErrors()) nkxVmIterate(h.vm, 1000);
    if(h.hasErrors()) { if(!r.error) c.fail("error: %s", h.errors().c_str()); }
    else {
        NKValue args[2], ret; memset(args, 0, sizeof args); memset(&ret, 0, sizeof ret);
        nkxValueSetInt(h.vm, &args[0], 3); nkxValueSetString(h.vm, &args[1], "q");
        nkxVmCallFunction(h.vm, nkxVmFindGlobalVariable(h.vm, nullptr, "entry"), 2, args, &ret);
        if(!h.hasErrors()) { h.out += h.repr(&ret) + ";"; }
        bool err = h.hasErrors();
        if(err != r.error) c.fail("%s: %s %s", err ? "the library raised an error" : "the library raised no error", h.errors().c_str(), r.why.c_str());
        if(h.out != r.out) c.fail("the call printed %s, expected %s", h.out.c_str(), r.out.c_str());
    }
    h.finalize(); h.destroy(); for(auto &p : h.problems) c.fail("%s", p.c_str());
    c.trace(); c.trans(); c.nontrivial(hashStr(src)); c.state(hashStr(r.out));
}
// -- chains of every length ------------------------------------------------------------------------------------------------
static Target longChain(int base, int depth, int mk, int dk) {
    uint64_t all = (1ull << depth) - 1, m = mk == 0 ? 0 : mk == 1 ? all : mk == 2 ? 1 : mk == 3 ? all ^ (all >> 1) : mk == 4 ? all & 0x5555 : all & 0xaaaa;
    return chain(base, depth, m, dk);
}
// -- call stacks: every two calls nested in one another ----------------------------------------------------------------------
static const int PT[] = {0, 1, 2, 3, 4}; // simple, one level with data, two levels, special self, missing
static Target pairTarget(int i) {
    switch(i) { case 0: return chain(1, 0, 0, 0); case 1: return chain(2, 0, 0, 0); case 2: return chain(2, 1, 1, 0); case 3: return chain(3, 2, 3, 3); case 4: return chain(6, 3, 5, 0); case 5: return chain(9, 1, 1, 0); case 6: return special(13); default: return chain(7, 1, 1, 4); }
}
static void nested(Case &c, int t1, int f1, int t2, int f2, int how) {
    Target a = pairTarget(t1), b = pairTarget(t2);
    // the second target lives in U
    string bs = b.setup, s = PRELUDE + SPECIALPRE + "var U;\n" + bs + "U = T;\n" + a.setup + HOLDER + "h.u = U; h.inn.u = U; function getu() { print(\"getu\"); return U; }\n";
    static const char *F1[] = {"T(*)", "h.f(*)", "h->f(*)", "mk()->f(*)", "h.inn->f(*)", "call(T, *)", "resume(coroutine(T, *))", "h->self()->f(*)"};
    static const char *F2[] = {"U(%)", "h.u(%)", "h->u(%)", "mk()->u(%)", "h.inn->u(%)", "call(U%%)", "getu()(%)", "h->self()->u(%)"};
    auto rep = [](const string &x, const string &from, const string &to) { string r; size_t p = 0, q; while((q = x.find(from, p)) != string::npos) { r += x.substr(p, q - p) + to; p = q + from.size(); } return r + x.substr(p); };
    string inner = rep(rep(F2[f2], "%%", ", 8"), "%", "8");
    if(how == 1) inner = "1, " + inner; else if(how == 2) inner = inner + ", 2"; else if(how == 3) inner = inner + ", " + rep(rep(F2[(f2 + 1) % 8], "%%", ", 9"), "%", "9");
    string call = rep(F1[f1], "*", inner);
    s += "function ctx(p) { var l = 4; var x = " + call + "; print(l, p); return x; } r = " + (how % 2 ? string("ctx(2)") : call) + "; print(r);\n";
    lang::Result r;
    if(diff::compare(c, s, diff::Opt(), &r) == diff::COMPARED) { c.state(hashStr(r.out)); c.nontrivial(hashStr(s)); c.outcome(r.error ? r.why : "ended"); } else c.note(0);
    c.trace(); c.trans();
}
// -- argument counts ---------------------------------------------------------------------------------------------------------
static void counted(Case &c, int argc, int form, int depth) {
    string params, args, prints; int total = argc + depth + (form >= 2 ? 1 : 0);
    for(int i = 0; i < total; i++) { params += (i ? ", p" : "p") + std::to_string(i); if(i < 40 || i == total - 1) prints += (i ? ", p" : "p") + std::to_string(i); }
    for(int i = 0; i < argc; i++) args += (i ? ", " : "") + std::to_string(1000 + i);
    string s = "var T; function tgt(" + params + ") { var l = 5; print(" + prints + "); return l; } T = tgt;\n";
    for(int i = 0; i < depth; i++) s += wrap(i, true, 0);
    static const char *F[] = {"T(", "h.f(", "h->f(", "h->self()->f("};
    s += string("var h = object(); h.f = T; function self(x) { return x; } h.self = self; function ctx(a) { var b = 2; var x = ") + F[form] + args + "); print(a, b); return x; } print(ctx(1)); print(" + F[form] + args + "));\n";
    lang::Result r;
    if(diff::compare(c, s, diff::Opt(), &r) == diff::COMPARED) { c.state(hashStr(r.out)); c.nontrivial(hashStr(s)); } else c.note(0);
    c.trace(); c.trans();
}
void define(Registry &r) {
    bool th = r.thorough();
    r.level = "model_checking";
    r.rule = "output (every argument every function received, order of evaluation), result, error or success and globals equal those of the reference interpreter";
    (void)PT;
    r.noteName("programs the reference leaves unspecified");
    vector<Target> T1, T2;
    for(int b = 0; b < NBASE; b++) for(int d = 0; d <= (b < NGOOD ? 2 : 1); d++) for(int m = 0; m < 1 << d; m++) T1.push_back(chain(b, d, m, d ? b : 0));
    for(int i = 0; i < NSPECIAL; i++) T1.push_back(special(i));
    uint64_t per = (uint64_t)NFORM * NARGS * NCTX;
    unsigned step = th ? 1 : 13; // quick: a fixed thirteenth of the large product, every pair of coordinates occurs
    r.add("forms", T1.size() * per / step, [=](uint64_t i, Case &c) { Idx d(i * step + (i / 7) % step); int x = d.pick(NCTX), a = d.pick(NARGS), f = d.pick(NFORM); if(d.v >= T1.size()) return; one(c, T1[d.v], f, a, x); if(i % 9001 == 0) c.sample(T1[d.v].name + " | " + form(f, a) + " | " + CTXT[x]); });
    for(int b = 0; b < NBASE; b++) for(int d = 3; d <= 4; d++) for(int m = 0; m < 1 << d; m++) T2.push_back(chain(b, d, m, b + m));
    static const int XS[] = {0, 1, 3, 5, 10}, AS[] = {0, 1, 2, 5};
    r.add("chains", T2.size() * NFORM * 4 * 5 / (th ? 1 : 7), [=](uint64_t i, Case &c) { Idx d(th ? i : i * 7 + (i / 11) % 7); int x = XS[d.pick(5)], a = AS[d.pick(4)], f = d.pick(NFORM); if(d.v >= T2.size()) return; one(c, T2[d.v], f, a, x); });
    r.add("chains/long", 14 * 6 * 3 * 6 * NFORM / (th ? 1 : 5), [=](uint64_t i, Case &c) { Idx d(th ? i : i * 5 + (i / 13) % 5); if(d.v >= 14ull * 6 * 3 * 6 * NFORM) return; int mk = d.pick(6), b = d.pick(3), x = d.pick(6), f = d.pick(NFORM); static const int B[] = {1, 6, 9}, X[] = {0, 1, 3, 4, 5, 11}; one(c, longChain(B[b], d.v + 1, mk, 0), f, (d.v + mk) % 3, X[x]); });
    r.add("nested", 8 * 8 * 8 * 8 * 4 / (th ? 1 : 3), [=](uint64_t i, Case &c) { Idx d(th ? i : i * 3 + (i / 5) % 3); if(d.v >= 8 * 8 * 8 * 8 * 4) return; int how = d.pick(4), f1 = d.pick(8), f2 = d.pick(8), t1 = d.pick(8); nested(c, t1, f1, d.v, f2, how); });
    r.add("hosted", T1.size() * NFORM * 4 * 4 / (th ? 1 : 5), [=](uint64_t i, Case &c) { Idx d(th ? i : i * 5 + (i / 7) % 5); int k = d.pick(4), a = AS[d.pick(4)], f = d.pick(NFORM); if(d.v >= T1.size()) return; hosted(c, T1[d.v], f, a, k); });
    r.add("counts", (th ? 300 : 70) * 4 * 5, [](uint64_t i, Case &c) { Idx d(i); int dp = d.pick(5), f = d.pick(4); counted(c, d.v, f, dp); });
    r.bounds = strf("%zu targets (%d functions, natives and values behind 0-2 callable objects with every data placement, %d special) x %d call forms x %d argument lists x %d contexts%s; chains of 3-4 with every data placement and of 1-14 with 6 placements; all pairs of nested calls (8 targets x 8 forms each x 4 arrangements); the same targets and forms in functions called by the host; argument counts 0-%d",
        T1.size(), NBASE, NSPECIAL, NFORM, NARGS, NCTX, th ? "" : " (a fixed thirteenth of the product, and of the following a fixed third to a seventh)", th ? 299 : 69);
    r.assumptions = {"programs whose meaning the reference leaves unspecified are counted and not compared"};
}
