#include "corpus.h"
using mc::strf;
namespace corpus {
const std::vector<std::string> globalNames = {"a", "b", "c", "g", "i", "n", "s", "o", "p", "r", "co", "x", "y"};

static const std::vector<Prog> P = {
{"arith", "var a = 1; var b = 2.5; var i;\nfor(i = 0; i < 4; i++) { a = a * 3 - i; b = b / 2 + i; }\nprint(a, b, a % 7, -a, !b, a < b, a == 76, \"x\" + a + b); var s = \"\" + a;", PURE},
{"strings", "var s = \"\"; var i; var o = newobject;\nfor(i = 0; i < 5; i++) { s = s + \"k\" + i; o[s] = i; o[\"k\" + i] = s; }\nprint(s, o[\"k0\"], o[\"k0k1\"], o.k3, len(o));\nfor(i = 0; i < 5; i = i + 2) { o[\"k\" + i] = nil; print(len(o), o[\"k\" + i]); }", PURE},
{"list", "var a = nil; var i;\nfunction cons(v, n) { var o = object(); o.v = v; o.next = n; return o; }\nfor(i = 0; i < 5; i++) a = cons(i, a);\nvar b = a; var n = 0; while(b != nil) { n = n + b.v; b = b.next; } print(n, a);\na = a.next.next; print(a);", PURE},
{"cycle", "var a = object(); a.a = a; a.b = object(); a.b.x = a; a.b.s = \"str\" + 1; var b = a.b;\na = nil; gc(); print(b.x.b.s, b.x == b.x.a, len(b.x));\nb = nil; gc(); var c = object(); c.v = \"str\" + 2; print(c);", PURE},
{"objkeys", "var a = object(); var b = object(); var c = object(); var i;\nc[a] = 1; c[b] = 2; c[c] = 3; c[1] = 4; c[1.5] = 5; c[\"1\"] = 6; c[nil] = 7; c[print] = 8;\nprint(c[a], c[b], c[c], c[1], c[1.5], c[\"1\"], c[nil], c[print], len(c));\nvar o = object(); o[a] = b; a = nil; print(len(o)); c[b] = nil; print(len(c), c[b]);\nfor(i = 0; i < 20; i++) { var t = object(); c[t] = i; if(i > 2) c[t] = nil; } print(len(c));", PURE},
{"keyonly", "var o = object(); var x;\nfunction fill() { var k = object(); k.v = \"deep\" + 1; o[k] = \"val\" + 2; x = k; }\nfill(); print(o[x], x.v, len(o)); var y = object(); y.n = x; x = nil; print(o[y.n]);", PURE},
{"recursion", "function fib(n) { if(n < 2) return n; return fib(n - 1) + fib(n - 2); }\nvar r = fib(6); print(r);\nfunction tree(d) { if(d == 0) return nil; var o = object(); o.a = tree(d - 1); o.b = tree(d - 1); o.v = \"d\" + d; return o; }\nvar a = tree(3); print(a); a.a = nil; var b = tree(2); print(a, b);", PURE},
{"locals", "function f(a, b) { var c = object(); c.a = a; { var d = object(); d.c = c; for(var i = 0; i < 2; i++) { var e = object(); e.x = d; e.n = i; b = e; } print(d); } return b; }\nvar g = f(object(), nil); print(g); print(f(\"s\" + 1, 2).x.c.a);", PURE},
{"temps", "function mk(v) { var o = object(); o.v = v; return o; } function pair(a, b) { var o = object(); o.a = a; o.b = b; return o; }\nvar a = pair(pair(mk(1), mk(\"q\" + 2)), pair(mk(object()), mk(nil)));\nprint(a); print(pair(mk(3), mk(4)).b.v + mk(5).v * mk(6).v, (\"t\" + 1) + (\"u\" + 2));", PURE},
{"methods", "var o = object(); o.n = 1; o.add = function(self, k) { self.n = self.n + k; return self; }; o.get = function(self) { return self.n; };\nprint(o->add(2)->add(3)->get()); o.plain = function(z) { return z * 2; }; print(o.plain(4), o[\"plain\"](5));\nvar p = object(); p.o = o; print(p.o->get(), p.o->add(10).n);", PURE},
{"callable", "var o = object(); o._exec = function(d, v) { d.n = d.n + v; return d.n; }; o._data = object(); o._data.n = 5;\nprint(o(1), o(2)); var p = object(); p._exec = o; print(p(3)); p._data = object(); p._data.n = 1;\nvar q = object(); q._exec = function(a, b) { return \"\" + a + b; }; q._data = \"D\" + 1; print(q(7)); var c = coroutine(o, 4); print(resume(c));", PURE | CORO},
{"coro1", "function gen(n) { for(var i = 0; i < n; i++) { var g = yield(\"y\" + i); print(\"got\", g); } return \"done\"; }\nvar co = coroutine(gen, 3); var i = 0;\nwhile(!is_finished(co)) { print(resume(co, i), is_finished(co)); i++; } print(resume(co));", PURE | CORO},
{"coro2", "function w(id, o) { var t = object(); t.v = id; for(var i = 0; i < 2; i++) { t.n = yield(t); o[id] = i; } return t; }\nvar o = object(); var a = coroutine(w, 0, o); var b = coroutine(w, 1, o); var r;\nr = resume(a); print(r); r = resume(b); print(r); r = resume(a, object()); print(r); b = nil; gc(); r = resume(a, 5); print(r, is_finished(a)); print(o);", PURE | CORO},
{"coronest", "function inner(x) { var t = object(); t.x = x; yield(t); yield(x + 1); return \"ie\"; }\nfunction outer(n) { var c = coroutine(inner, n); var l = object(); l.v = \"L\" + n; print(resume(c)); yield(l); print(resume(c)); print(resume(c), is_finished(c)); return l; }\nvar co = coroutine(outer, 5); print(resume(co)); var a = object(); a.co = co; co = nil; print(resume(a.co)); print(is_finished(a.co));", PURE | CORO},
{"corotemp", "function f(x) { var o = object(); o.v = \"t\" + x; yield(o); return o; }\nprint(resume(coroutine(f, 1))); var r = resume(coroutine(f, \"u\")); print(r);\nfunction g() { var k = \"loc\" + 1; var z = resume(coroutine(f, k)); yield(z); print(k, z); return k; }\nprint(resume(coroutine(g))); var co = coroutine(g); resume(co); print(resume(co));", PURE | CORO},
{"corodeep", "function d(n) { if(n == 0) { yield(\"bottom\"); return 1; } var l = object(); l.v = n; var r = d(n - 1); print(l); return r + n; }\nvar co = coroutine(d, 3); print(resume(co)); print(resume(co)); print(is_finished(co));\nvar x = coroutine(function() { while(1) { yield(object()); } }); var i; for(i = 0; i < 3; i++) { print(resume(x)); }", PURE | CORO},
{"coroself", "var co; function me(x) { var s = \"in\" + x; co.v = s; yield(co); print(s, co.v); return s; }\nco = coroutine(me, 1); co.n = 7; var r = resume(co); print(r.n, r.v, r == co); r = nil; print(resume(co), co.n);", PURE | CORO},
{"coronat", "var co = coroutine(print, 1, \"x\" + 2); gc(); print(is_finished(co)); var r = resume(co, 5); print(r, is_finished(co), resume(co)); var o = object(); o._exec = str; o._data = \"d\" + 1; co = coroutine(o); gc(); var a = resume(co); print(a, is_finished(co)); function f(v) { var t = object(); t.v = v; return t; } var c = coroutine(call, f, \"z\" + 3); o = coroutine(function(q) { yield(1); return resume(q); }, c); resume(o); print(resume(o), is_finished(c));", PURE | CORO | NESTED},
{"native", "function cb(a, b) { var o = object(); o.a = a; o.b = b; return o; }\nvar a = call(cb, object(), \"s\" + 1); print(a); print(call(call, cb, 1, 2));\nfunction rec(n) { if(n == 0) return \"z\" + n; return call(rec, n - 1) + n; } print(rec(3)); var r = call(function() { gc(); return object(); }); print(r, str(1.5) + str(7));", PURE | NESTED},
{"nativecoro", "function h(v) { var t = object(); t.v = v; gc(); return t.v; } function g(x) { var l = \"l\" + x; var y = yield(l); return call(h, y) + l; }\nvar co = coroutine(g, 1); print(resume(co)); print(resume(co, \"w\" + 2)); function k(c) { return resume(c); } var c = coroutine(g, 3); print(call(k, c)); print(resume(c, \"q\"));", PURE | NESTED | CORO},
{"handles", "var a = object(); a.v = \"h\" + 1; hold(1, a); var b = object(); b.n = a; hold(2, b); a = nil; b = nil; gc(); var c = object();\nprint(held(1), held(2)); unhold(2); gc(); print(held(1)); var r = unhold(1); print(r); r = nil; gc(); print(object());", HANDLES},
{"res", "var a = res(); var b = object(); b.v = res(); print(a, b); a = nil; gc(); print(b.v); b.v.x = res(); var c = b.v; b = nil; gc(); print(c);", 0},
{"resref", "var o = object(); o.v = \"kept\" + 1; var a = res(o); o = nil; gc(); print(resref(a)); var b = res(\"str\" + 2); gc(); print(resref(b)); var c = object(); c[a] = b; a = nil; b = nil; gc(); print(len(c));", NATREF},
{"funcs", "var a = function(x) { return x + 1; }; var o = object(); o[a] = \"f\"; o.f = a; var n = 0;\nfunction ap(f, n, x) { for(var i = 0; i < n; i++) x = f(x); return x; }\nprint(ap(a, 4, 0), o[a], o.f == a, o.f(9));", PURE},
{"nestfn", "function out(k) { function in1(z) { if(z) return in1(z - 1) + 2; return 100; } return in1(k); } var n = out(3); print(n); var g = out; print(g(1), g == out);", PURE},
{"ctrl", "var i = 0; var n = 0;\nwhile(1) { i++; if(i % 2) { var t = \"o\" + i; n = n + 1; } else { if(i > 6) break; do { var q = object(); q.v = i; n = n + q.v; } while(n < 3); } for(var k = 0; k < 3; k++) { if(k == 2) break; { var z = \"z\" + k; } } }\nprint(i, n);", PURE},
{"poly", "var o = object(); var i; for(i = 0; i < 40; i++) { o[i] = object(); o[i].v = \"v\" + i; if(i > 5) o[i - 5] = nil; }\nprint(len(o), o[36], o[3]); for(i = 0; i < 40; i++) o[i] = nil; print(len(o), o);", PURE},
{"errdiv", "var a = object(); a.v = \"x\" + 1; var b = 3;\nfunction f(n) { var l = object(); l.a = a; if(n == 0) return b / n;\n return f(n - 1); }\nprint(a);\nprint(f(2)); print(\"not here\");", PURE | FAILS},
{"errcoro", "function g(x) { var l = \"s\" + x; yield(l);\n return x.y; }\nvar co = coroutine(g, 4); print(resume(co));\nprint(resume(co)); print(\"no\");", PURE | FAILS | CORO},
{"errnat", "var a = object(); a.e = function(m) { error(\"bad \" + m); print(\"no\"); };\nprint(1); a.e(\"thing\"); print(2);", PURE | FAILS},
{"errargs", "function f(a, b) { return a; }\nvar o = object(); print(f(1, 2));\nprint(f(o)); print(3);", PURE | FAILS},
{"floats", "var a = 0.1; var b = 3; var i; for(i = 0; i < 4; i++) { a = a * 1.5 + b; b = b - 1; } var o = object(); o[a] = \"fk\"; o[2.5] = 1; o[0.5] = 2; print(a, b, o[a], o[2.5], len(o)); o[a] = nil; print(len(o), a > b, a == 1);", PURE},
{"many", "var a = object(); var i; for(i = 0; i < 12; i++) { var t = object(); t.i = i; t.s = \"many\" + i; if(i % 3 == 0) a[i / 3] = t; } print(a); gc(); for(i = 0; i < 6; i++) { var u = object(); u.s = \"more\" + i; a[i] = u; } print(a, len(a));", PURE},
{"swap", "var a = object(); var b = object(); var c; a.v = 1; b.v = 2; a.next = b; b.next = a; var i; for(i = 0; i < 3; i++) { c = a; a = b; b = c; a.next = object(); a.next.v = i; a.next.next = b; } print(a, b, c); a = b; b = nil; c = nil; print(a);", PURE},
{"yielder", "function pr(o) { while(1) { o.n = o.n + 1; yield(o.n); } } function cons(p, o) { var s = 0; while(s < 6) { s = s + resume(p); o.v = s; yield(s); } return o; }\nvar o = object(); o.n = 0; var p = coroutine(pr, o); var co = coroutine(cons, p, o); while(!is_finished(co)) print(resume(co)); print(o, is_finished(p));", PURE | CORO},
{"natvals", "var a = nfn(\"print\"); var o = object(); o[gc] = 1; o[print] = 2; o[res] = 3;\nfunction chk(f, n) { return f == nfn(n); } print(a == print, chk(gc, \"gc\"), chk(res, \"res\"), o[nfn(\"res\")], o[nfn(\"gc\")]); var x = nfn(\"str\"); a(x(4) + str(5)); print(chk(str, \"str\"), chk(a, \"gc\"), chk(call, \"call\"), o[a], len(o)); print(chk(nfn, \"nfn\"), chk(nfn(\"held\"), \"held\"), chk(held, \"held\"), chk(error, \"error\"));", 0},
{"selfobj", "var o = object(); o._exec = function(n) { if(n == 0) return \"end\"; return o(n - 1); }; print(o(3)); o._data = o; o._exec = function(d, n) { if(n == 0) return d.k; return d(n - 1); }; o.k = \"K\" + 1; print(o(2));", PURE},
{"manyglob", "var a=1;var b=2;var c=3;var d=4;var e=5;var f=6;var g=7;var h=8;var i=9;var j=10;var k=11;var l=12;var m=13;var n=14;var o=15;var p=16;var q=17;var r=object();r.v=\"z\"+q;var s=\"s\"+r.v;print(a+b+c+d+e+f+g+h+i+j+k+l+m+n+o+p+q,r,s);", PURE},
};
const std::vector<Prog> &all() { return P; }
std::vector<Prog> without(unsigned f) { std::vector<Prog> r; for(auto &p : P) if(!(p.flags & f)) r.push_back(p); return r; }

static const char *ACT[] = {
    "a = object(); a.v = \"A\" + n;",
    "b = a;",
    "a.next = b;",
    "a = nil;",
    "b[a] = \"K\" + n; print(b[a]);",
    "c = coroutine(gen, a); r = resume(c, 0); print(r);",
    "r = resume(c, b); print(r);",
    "a._exec = fn; a._data = b; print(a(n));",
    "b = res(); b.a = a; a = b;",
    "hold(n, a); a = nil;",
    "a = unhold(n - 2);",
    "b = call(mk, a, \"C\" + n);",
    "print(mk(mk(a, \"t\" + n), object()));",
    "gc(); b = object(); b.n = c; c = a;",
    "b.x = a; b.a = b; a = b.next;",
    "c = b; b = nil; r = nil;",
};
uint64_t heapActions() { return sizeof(ACT) / sizeof *ACT; }
std::string heapProgram(const std::vector<int> &acts, bool fn) {
    std::string s = "var a = object(); var b = nil; var c = nil; var r; var n = 0;\nfunction gen(x) { var l = object(); l.v = x; while(1) { l.n = yield(l); l.k = \"G\"; } }\n"
                    "function mk(p, q) { var o = object(); o.a = p; o.b = q; return o; }\nfunction fn(d, m) { return mk(d, m); }\n";
    if(fn) s += "function main(a, b) { var c = nil; var r; var n = 0;\n";
    for(int k : acts) s += std::string("n = n + 1; ") + ACT[k] + "\n";
    s += "print(a, b, c, r);";
    if(fn) s += " return a; }\nr = main(a, b); print(r);";
    return s;
}

const char *const holderNames[HOLDERS] = {"globals", "locals", "locals of a suspended coroutine", "values of fields", "keys of fields", "keys and values of fields", "a chain", "frames of a recursion", "arguments", "temporaries", "suspended coroutines", "bound data", "coroutines waiting for one another", "globals and locals with the same values"};
const char *const shapeNames[SHAPES] = {"string", "object", "native data", "coroutine", "object in object"};
std::string holder(int kind, int shape, int n) {
    static const char *MK[SHAPES] = {
        "return \"v\" + i;", "var o = object(); o.s = \"v\" + i; return o;", "var o = res(); o.s = \"v\" + i; return o;",
        "var co = coroutine(cobody, i); resume(co); return co;", "var o = object(); o.s = object(); o.s.s = \"v\" + i; o.s.up = o; return o;"};
    static const char *RD[SHAPES] = {"return v;", "return v.s;", "return v.s;", "var s = resume(v); return s;", "return v.s.up.s.s;"};
    std::string s = "function cobody(i) { var s = \"v\" + i; while(1) { yield(s); } }\n"
        "function mk(i) { var j = object(); j.t = \"junk\" + i + \"-\"; j = nil; " + std::string(MK[shape]) + " }\n"
        "function rd(v) { " + RD[shape] + " }\n"
        "function churn(n) { var l = object(); var i; for(i = 0; i < n; i++) { l[i] = \"c\" + i; l[\"o\" + i] = object(); } return l; }\n";
    std::string N = std::to_string(n), after = "hook(1); var ch = churn(7); ", r;
    auto k = [](const char *f, int i) { std::string t; for(; *f; f++) if(*f == '#') t += std::to_string(i); else t += *f; return t; };
    auto rep = [&](const char *f) { std::string t; for(int i = 0; i < n; i++) t += k(f, i); return t; };
    std::string sep; auto list = [&](const char *f) { std::string t; for(int i = 0; i < n; i++) t += (i ? ", " : "") + k(f, i); return t; };
    switch(kind) {
    case 0: return s + rep("var g# = mk(#);\n") + "hook(1); print(churn(7)); " + rep("print(rd(g#));\n");
    case 1: return s + "function f() { " + rep("var g# = mk(#); ") + after + rep("print(rd(g#)); ") + " }\nf();";
    case 2: return s + "function f() { " + rep("var g# = mk(#); ") + "yield(1); " + rep("print(rd(g#)); ") + " }\nvar c = coroutine(f); resume(c); " + after + "resume(c); print(is_finished(c));";
    case 3: return s + "var o = object(); var i; for(i = 0; i < " + N + "; i++) o[i] = mk(i); " + after + "for(i = 0; i < " + N + "; i++) print(rd(o[i])); print(len(o));";
    case 4: return shape ? s + "var o = object(); var l = object(); var i; var t; for(i = 0; i < " + N + "; i++) { t = mk(i); o[t] = i; l[i] = t; } t = nil; " + after + "for(i = 0; i < " + N + "; i++) print(o[l[i]], rd(l[i])); print(len(o));"
                         : s + "var o = object(); var i; for(i = 0; i < " + N + "; i++) o[mk(i)] = i; " + after + "for(i = 0; i < " + N + "; i++) print(o[\"v\" + i]); print(len(o));";
    case 5: return shape ? s + "var o = object(); var l = object(); var i; var t; for(i = 0; i < " + N + "; i++) { t = mk(i); o[t] = t; l[i] = t; } t = nil; " + after + "for(i = 0; i < " + N + "; i++) print(o[l[i]] == l[i], rd(o[l[i]])); print(len(o));"
                         : s + "var o = object(); var i; var t; for(i = 0; i < " + N + "; i++) { t = mk(i); o[t] = t; } t = nil; " + after + "for(i = 0; i < " + N + "; i++) print(o[\"v\" + i]); print(len(o));";
    case 6: return s + "var o = object(); var i; var t; for(i = 0; i < " + N + "; i++) { t = object(); t.v = mk(i); t.next = o; o = t; } t = nil; " + after + "for(i = 0; i < " + N + "; i++) { print(rd(o.v)); o = o.next; }";
    case 7: return s + "function f(d) { var v = mk(d); if(d > 0) { f(d - 1); } else { " + after + " } print(rd(v)); }\nf(" + N + ");";
    case 8: return s + "function f(" + list("a#") + ") { " + after + rep("print(rd(a#)); ") + " }\nf(" + list("mk(#)") + ");";
    case 9: return s + "function mark() { " + after + " return 0; }\nprint(" + list("rd(mk(#))") + (n ? ", " : "") + "\"\" + mark()" + rep(" + rd(mk(#))") + ");\nfunction id(" + list("a#") + (n ? ", " : "") + "z) { " + rep("print(rd(a#)); ") + " }\nid(" + list("mk(#)") + (n ? ", " : "") + "mark());";
    case 10: return s + "function w(v) { while(1) { yield(rd(v)); } }\nvar o = object(); var i; for(i = 0; i < " + N + "; i++) { o[i] = coroutine(w, mk(i)); if(i % 3) resume(o[i]); } " + after + "for(i = 0; i < " + N + "; i++) print(resume(o[i]));";
    case 11: return s + "function show(v) { print(rd(v)); }\nvar o = object(); var i; var t; for(i = 0; i < " + N + "; i++) { t = object(); t._exec = show; t._data = mk(i); o[i] = t; } t = nil; " + after + "for(i = 0; i < " + N + "; i++) { t = o[i]; t(); }";
    case 12: return s + "function w(d) { var v = mk(d); if(d > 0) { resume(coroutine(w, d - 1)); } else { " + after + " } print(rd(v)); return v; }\nresume(coroutine(w, " + N + "));";
    default: return s + rep("var g# = mk(#);\n") + "function f(" + list("a#") + ") { " + rep("var l# = a#; ") + "hook(1); print(churn(7)); " + rep("print(rd(l#), l# == a#, l# == g#);\n") + " }\nf(" + list("g#") + "); " + rep("print(rd(g#));\n");
    }
}
uint64_t marker(const std::string &src) {
    Host h; bool hit = false; uint64_t n = 0;
    h.onHook = [&](Host &, NKVMFunctionCallbackData *) { hit = true; };
    if(!start(h, src)) return ~0ull;
    while(!hit && !nkxVmProgramHasEnded(h.vm) && !nkxVmHasErrors(h.vm) && n < MAXINST) { nkxVmIterate(h.vm, 1); n++; }
    return n;
}

bool start(Host &h, const std::string &src) {
    if(!h.load(src)) return false;
    nkxSetGarbageCollectionInterval(h.vm, 60000);
    nkxSetGarbageCollectionNewObjectInterval(h.vm, 0x7fffffff);
    return true;
}
void finish(Host &h, Run &r) {
    r.out = h.out;
    r.err = h.errors();
    r.ended = nkxVmProgramHasEnded(h.vm);
    if(r.err.empty()) r.globals = h.globalsRepr(globalNames);
}
Run baseline(const std::string &src) {
    Run r;
    Host h;
    r.ok = start(h, src);
    if(r.ok) while(!nkxVmProgramHasEnded(h.vm) && !nkxVmHasErrors(h.vm) && r.n < MAXINST) { nkxVmIterate(h.vm, 1); r.n++; }
    finish(h, r);
    return r;
}
} // namespace corpus
