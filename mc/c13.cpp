// uses: lang.cpp corpus.cpp
// C13: the coroutine protocol. All bodies up to a length for two coroutines x all drive histories, richer drive
// histories with creation, nesting, native calls and errors, and suspension in every expression / statement position.
#include "corpus.h"
#include "diff.h"
using namespace mc;
using std::string;
using std::vector;

static const char *BODY[] = {
    "t = yield(%V); print(\"got\", t); ",
    "if(%O != nil) print(\"in\", resume(%O, %V)); ",
    "if(%O != nil) print(\"fin\", is_finished(%O)); ",
    "var l%N = object(); l%N.v = %V; print(l%N, helper(%V)); ",
    "t = t + 1; return %V; ",
    "print(\"nest\", deep(2, %V), t); ",
};
static const uint64_t NB = sizeof BODY / sizeof *BODY;
static string subst(string s, const string &v, const string &o, int n) {
    string r;
    for(size_t i = 0; i < s.size(); i++) {
        if(s[i] == '%' && i + 1 < s.size() && s[i + 1] == 'V') { r += v; i++; }
        else if(s[i] == '%' && i + 1 < s.size() && s[i + 1] == 'O') { r += o; i++; }
        else if(s[i] == '%' && i + 1 < s.size() && s[i + 1] == 'N') { r += strf("%d", n); i++; }
        else r += s[i];
    }
    return r;
}
static string body(uint64_t i, const string &tag, const string &other) {
    string r = "var t = x; ";
    if(i) { vector<int> s = seqDecode(i - 1, NB); int n = 0; for(int k : s) { r += subst(BODY[k], strf("\"%s%d\"", tag.c_str(), n), other, n); n++; } }
    return r;
}
static const char *PRE = "var p = nil; var q = nil; var r;\nfunction helper(v) { return v; }\nfunction deep(n, v) { if(n == 0) return yield(v + n); var k = n; var z = deep(n - 1, v); print(\"d\", k, z); return z; }\n";

static const char *OPS[] = {
    "r = resume(p, %N); print(r); ",
    "r = resume(q, \"v%N\"); print(r); ",
    "print(is_finished(p), is_finished(q)); ",
    "p = coroutine(gp, %N); print(len(p)); ",
    "q = coroutine(gq, p, %N); ",
    "r = p; p = q; q = r; ",
    "print(drive(p, %N), drive(q, object())); ",
    "print(call(drive, p, %N)); ",
    "p.n = q; gc(); print(resume(p.n)); ",
    "r = coroutine(wrap, p); print(resume(r), is_finished(r)); print(resume(r, %N), is_finished(r)); ",
    "r = nil; p = coroutine(function(z) { var s = z; for(var i = 0; i < 2; i++) { s = s + yield(s); } return s; }, %N); gc(); ",
    "print(resume(p) + resume(p) * 2, resume(p)); ",
};
static const uint64_t NOPS = sizeof OPS / sizeof *OPS;
static const char *OPPRE = "var p; var q; var r;\nfunction drive(c, v) { var k = \"loc\"; var w = resume(c, v); print(k); return w; }\n"
    "function gp(n) { var o = object(); o.n = n; while(1) { var g = yield(o.n); o.n = o.n + 1; print(\"p\", g, o); if(o.n > n + 2) return \"pend\"; } }\n"
    "function gq(c, n) { var l = n; while(l > 0) { var g = yield(is_finished(c)); print(\"q\", g, l); l = l - 1; if(!is_finished(c)) print(resume(c, l)); } return c; }\n"
    "function wrap(c) { var a = yield(\"w\"); return resume(c, a); }\n"
    "p = coroutine(gp, 1); q = coroutine(gq, p, 2);\n";

// Expressions and statements with suspension points; %Y0.. are the yields.
static const char *POS[] = {
    "print(%A);", "var a = %A; print(a);", "var a = 1; a = %A; print(a);", "print(%A + %B);", "print(1 + %A * 2 - %B);", "print(helper(%A));", "print(two(%A, %B));", "print(two(1, %A), two(%B, 2));",
    "var o = object(); o[%A] = %B; print(o);", "var o = object(); o.v = %A; o.n = 3; print(o.v + o.n);", "var o = object(); print(o[%A], o);", "if(%A) { print(\"yes\"); } else { print(\"no\"); }",
    "var i = 0; while(i < %A) { i = i + 1; print(i); }", "var i = 0; do { i = i + 1; print(i); } while(i < %A);", "for(var i = %A; i < 4; i = i + %B) { var z = i; print(z, %A); }", "return two(%A, %B);",
    "{ var z = 5; { var w = %A; print(z, w); } print(%B); }", "print(-%A, !%B);", "print((%A) == (%B), (%A) < 9);", "print(%A && %B, %A || %B);", "var o = object(); o.f = function(s, v) { return v + %A; }; print(o->f(%B));",
    "var o = object(); o._exec = helper; print(o(%A));", "var c = coroutine(two, %A, %B); print(resume(c), is_finished(c));", "var c = coroutine(gen2, %A); print(resume(c, %B)); print(resume(c, %A)); print(is_finished(c));",
    "for(var i = 0; i < 3; i++) { if(i == 1) { var m = %A; break; } print(i, %B); }", "function inner(k) { if(k > 2) return %A; return inner(k + 1) + %B; } print(inner(1));", "print(call(helper, %A));", "print(%A, call(two, 1, %B));",
    "var o = object(); o[1] = 7; o[%A - %A + 1] = %B; print(o);", "var s = \"\" + %A + \"-\" + %B; print(s);", "print(yield(%A));", "print(yield(yield(%A)));", "print(resume(coroutine(gen2, %A), %B));", "print(is_finished(coroutine(two, %A, %B)));",
    "yield(%A); yield(%B);", "var a; var b; a = (b = %A); print(a, b);", "var x1; var x2; var x3; x2 = %A; print(x1, x2, x3);", "print(len(object()) + %A);", "var a = object(); a.b = object(); a.b.c = %A; print(a.b.c, a);", "print(str(%A), str(%B));",
};
static const uint64_t NPOS = sizeof POS / sizeof *POS;
static const char *YV[] = {"yield(1)", "yield(\"s\")", "yield()", "yv(2)", "yield(object())", "3"};
static const uint64_t NYV = sizeof YV / sizeof *YV;
static const char *RV[] = {"2", "1.5", "\"5\"", "nil", "0", ""}; // resume values
static const uint64_t NRV = sizeof RV / sizeof *RV;

static const char *BADV[] = {"0", "1.5", "\"s\"", "nil", "object()", "helper", "print", "fin", "act", "act2", "objx"};
static const uint64_t NBV = sizeof BADV / sizeof *BADV;
static const char *BADOP[] = {
    "print(resume(%V));", "print(resume(%V, 1));", "print(is_finished(%V));", "print(resume(coroutine(%V)));", "var c = coroutine(%V, 1); print(\"made\"); print(resume(c)); print(resume(c, 2)); print(is_finished(c));",
    "print(resume(coroutine(%V, 1, 2)));", "var c = coroutine(%V); print(is_finished(c)); print(len(c));", "yield(%V); print(1);", "print(call(function(v) { return resume(v); }, %V));", "var c = coroutine(function(v) { print(is_finished(v)); return resume(v, 3); }, %V); print(resume(c)); print(is_finished(c));",
    "var c = coroutine(function(v) { yield(v); return 1; }, %V); print(resume(c) == %V); print(resume(c), resume(c), resume(c)); print(is_finished(c));",
    "%V(1);", "print(coroutine(%V) == coroutine(%V));", "var o = object(); o._exec = %V; var c = coroutine(o, 1); print(resume(c)); print(is_finished(c), resume(c));", "var o = object(); o._exec = helper; o._data = %V; var c = coroutine(o); print(\"m\"); print(resume(c)); print(resume(c), is_finished(c));",
    "var o = object(); o._exec = print; o._data = %V; var c = coroutine(o, 5); print(\"m\"); print(resume(c)); print(resume(c), is_finished(c));",
};
static const uint64_t NBO = sizeof BADOP / sizeof *BADOP;
// where the operation happens
static string inContext(int k, const string &s) {
    switch(k) {
    case 0: return s;
    case 1: return "function f() { " + s + " return 1; } print(f());";
    case 2: return "function f() { " + s + " return 1; } print(call(f));";
    case 3: return "function f() { " + s + " return 1; } var cc = coroutine(f); print(resume(cc)); print(resume(cc)); print(is_finished(cc));";
    case 4: return "function f() { " + s + " return 1; } function g() { return call(f); } var cc = coroutine(g); print(resume(cc)); print(resume(cc)); print(is_finished(cc));";
    default: return "function f() { " + s + " return 1; } function g() { var q = coroutine(f); yield(resume(q)); return resume(q); } var cc = coroutine(g); print(resume(cc)); print(resume(cc)); print(is_finished(cc));";
    }
}
static string rep(string s, const string &a, const string &b) { size_t p = 0; while((p = s.find(a, p)) != string::npos) { s.replace(p, a.size(), b); p += b.size(); } return s; }

void define(Registry &r) {
    r.level = "model_checking";
    r.rule = "every pair of coroutine bodies up to a length (yield, resume the other, query, call, nested yield, return) driven by every resume history; every sequence of richer operations; suspension in every expression and statement position; every operation on every kind of target in every context. Output, errors and globals are compared with the reference interpreter (separate stacks per coroutine)";
    bool th = r.thorough();
    unsigned lb = th ? 3 : 2, ld = th ? 5 : 4;
    uint64_t nb = 1 + seqCount(NB, lb), nd = seqCount(2, ld);
    // bodies: p may resume q and q may resume p (also while active: an error)
    uint64_t n = nb * nb;
    r.add("proto", n, [nb, ld](uint64_t i, Case &c) {
        Idx x(i);
        uint64_t a = x.pick(nb), b = x.pick(nb);
        string pre = string(PRE) + "function fp(x) { " + body(a, "P", "q") + "return \"pe\"; }\nfunction fq(x) { " + body(b, "Q", "p") + "return \"qe\"; }\np = coroutine(fp, 1); q = coroutine(fq, 2);\n";
        // the drive histories of length ld contain every shorter one as a prefix
        for(uint64_t d = 0; d < ipow(2, ld); d++) {
            string s = pre;
            for(unsigned k = 0; k < ld; k++) { const char *w = d >> k & 1 ? "q" : "p"; s += strf("print(\"%s\", resume(%s, %u), is_finished(p), is_finished(q));\n", w, w, k); }
            diff::Opt o; o.globals = false;
            diff::compare(c, s, o);
            if(c.failed()) return;
        }
        if(i % 300 == 0) c.sample(pre);
    });
    unsigned lo = th ? 5 : 4;
    r.add("ops", seqCount(NOPS, lo), [](uint64_t i, Case &c) {
        vector<int> s = seqDecode(i, NOPS);
        string src = OPPRE;
        int n = 0;
        for(int k : s) src += rep(OPS[k], "%N", strf("%d", ++n)) + "\n";
        diff::compare(c, src);
        if(i % 4001 == 0) c.sample(src);
    });
    r.add("position", NPOS * NYV * NYV * NRV, [](uint64_t i, Case &c) {
        Idx x(i);
        uint64_t p = x.pick(NPOS), a = x.pick(NYV), b = x.pick(NYV), v = x.pick(NRV);
        string s = rep(rep(POS[p], "%A", YV[a]), "%B", YV[b]);
        string src = "function helper(v) { return v; } function two(a, b) { return \"\" + a + \"/\" + b; } function yv(x) { var l = x; return yield(l) + l; } function gen2(v) { var g = yield(v); return \"\" + g + v; }\n"
            "function f() { var before = 11; " + s + " print(before); return \"end\"; }\nvar co = coroutine(f); var n = 0; while(!is_finished(co) && n < 12) { print(\"r\", resume(co" + (RV[v][0] ? string(", ") + RV[v] : string()) + ")); n++; } print(resume(co), n);";
        diff::compare(c, src);
        if(i % 701 == 0) c.sample(src);
    });
    r.add("target", NBV * NBO * 6, [](uint64_t i, Case &c) {
        Idx x(i);
        uint64_t v = x.pick(NBV), o = x.pick(NBO), k = x.pick(6);
        string src = "function helper(v) { return v; } var fin = coroutine(helper, 1); resume(fin); function a2(v) { yield(1); yield(2); return v; } var act = coroutine(a2, 4); resume(act); var act2 = coroutine(a2, \"fresh\"); var objx = object(); objx._exec = a2;\n"
            + inContext(k, rep(BADOP[o], "%V", BADV[v])) + "\nprint(\"end\");";
        diff::compare(c, src);
        if(i % 97 == 0) c.sample(src);
    });
    // deep nesting: coroutines inside coroutines, recursion inside coroutines, many at once
    uint64_t D = th ? 60 : 24;
    r.add("depth", D * 6, [](uint64_t i, Case &c) {
        int n = (int)(i / 6) + 1; string s;
        switch(i % 6) {
        case 0: s = strf("function f(n) { if(n == 0) { yield(\"leaf\"); return 0; } var k = coroutine(f, n - 1); var s = 0; while(!is_finished(k)) { var v = resume(k, n); yield(v); s = s + 1; } return s; } var c = coroutine(f, %d); while(!is_finished(c)) print(resume(c));", n); break;
        case 1: s = strf("function d(n) { if(n == 0) return yield(\"b\"); var l = n; var z = d(n - 1) + l; yield(l); return z; } var c = coroutine(d, %d); var r = 0; while(!is_finished(c)) { r = resume(c, 100); print(r); }", n); break;
        case 2: s = strf("function g(i) { var k = i; while(1) { k = k + yield(k); } } var o = object(); var i; for(i = 0; i < %d; i++) { o[i] = coroutine(g, i); } var j; for(j = 0; j < 3; j++) { for(i = 0; i < %d; i++) { print(resume(o[i], j)); } }", n, n); break;
        case 3: s = strf("var top; function f(n) { if(n == 0) return resume(top); return resume(coroutine(f, n - 1)); } top = coroutine(f, %d); print(resume(top));", n); break; // resumes an active ancestor
        case 4: s = strf("var i; var c = nil; function f(p) { if(p != nil) { while(!is_finished(p)) { yield(resume(p)); } } yield(\"x\"); return p; } for(i = 0; i < %d; i++) { c = coroutine(f, c); } while(!is_finished(c)) { print(resume(c) == nil); }", n); break;
        default: s = strf("function f() { var n = 0; while(n < %d) { n = n + 1; yield(n); } return \"z\"; } var c = coroutine(f); var i; for(i = 0; i < %d; i++) { print(resume(c), is_finished(c)); }", n, n + 4);
        }
        diff::Opt o; diff::compare(c, s, o);
        if(i % 25 == 0) c.sample(s);
    });
    r.bounds = strf("two coroutines with bodies of up to %u actions x all resume histories of length %u; operation sequences up to %u of %d; %d suspension positions x 6 x 6 x 6 values; %d targets x %d operations x 6 contexts; nesting to %d", lb, ld, lo, (int)NOPS, (int)NPOS, (int)NBV, (int)NBO, (int)D);
    (void)nd;
}
