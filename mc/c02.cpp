// uses: lang.cpp
// C02: control flow, scopes and functions. All statement trees up to a size, unranked from a grammar, in several
// contexts; plus matrices over declaration positions and call forms. Oracle: reference interpreter.
#include "diff.h"
using namespace mc;
using std::string;
using std::vector;

// ---- grammar of statement lists, counted and unranked by size
// leaves: P print, V declaration, A assignment, B break, R return, K conditional break, Q conditional return, C call
// composites (size 1 + inner): block, if, while, do, for, for with declaration; ifelse splits its size
enum { LEAVES_FN_LOOP = 7, LEAVES_FN = 5 };
struct Gram {
    // stmts(n, ctx), lists(n, ctx); ctx bit0: inside a loop, bit1: inside a function
    uint64_t st[16][4], li[16][4];
    Gram() { memset(st, 0, sizeof st); memset(li, 0, sizeof li); }
    static string leaves(int ctx) { string s = "PVA"; if(ctx & 1) s += "BK"; if(ctx & 2) s += "RQ"; return s; }
    uint64_t S(int n, int c) {
        if(n <= 0) return 0;
        if(st[n][c]) return st[n][c] - 1;
        uint64_t r = 0;
        if(n == 1) r += leaves(c).size();
        r += L(n - 1, c) * 2;             // block, if
        r += L(n - 1, c | 1) * 4;         // while, do, for, for-var
        if(n >= 2) for(int a = 0; a <= n - 2; a++) r += L(a, c) * L(n - 2 - a, c); // if-else counts 2
        st[n][c] = r + 1;
        return r;
    }
    uint64_t L(int n, int c) {
        if(n == 0) return 1;
        if(li[n][c]) return li[n][c] - 1;
        uint64_t r = 0;
        for(int a = 1; a <= n; a++) r += S(a, c) * L(n - a, c);
        li[n][c] = r + 1;
        return r;
    }
};
static Gram G;
struct Gen {
    int id = 0, loops = 0;
    vector<std::set<string>> sc; // declared names per scope
    string P() { return strf("print(%d, x, y); ", ++id); }
    string stmt(uint64_t i, int n, int c) {
        if(n == 1) {
            string lv = Gram::leaves(c);
            if(i < lv.size()) {
                switch(lv[i]) {
                case 'P': return P();
                case 'V': {
                    const char *nm[] = {"x", "y"};
                    for(auto q : nm) if(!sc.back().count(q)) { sc.back().insert(q); return strf("var %s = %d; ", q, ++id + 100) + P(); }
                    string q = strf("z%d", ++id); return "var " + q + "; print(" + q + "); ";
                }
                case 'A': return "x = x + 1; y = x * 2; ";
                case 'B': return "break; ";
                case 'K': return strf("if(x > %d) break; ", 3 + id % 3);
                case 'R': return strf("return x + %d; ", 1000 * ++id);
                case 'Q': return strf("if(x > %d) return %d; ", 4 + id % 3, 1000 * ++id);
                }
            }
            i -= lv.size();
        }
        auto body = [&](uint64_t k, int m, int cc) { sc.push_back({}); string s = "{ " + list(k, m, cc) + "} "; sc.pop_back(); return s; };
        uint64_t b = G.L(n - 1, c);
        if(i < b) return body(i, n - 1, c);
        i -= b;
        if(i < b) return strf("if(x < %d) ", 2 + (int)(i % 4)) + body(i, n - 1, c);
        i -= b;
        b = G.L(n - 1, c | 1);
        for(int k = 0; k < 4; k++) {
            if(i < b) {
                string v = strf("c%d", ++loops);
                int lim = 2;
                switch(k) {
                case 0: return "var " + v + " = 0; while(" + v + strf(" < %d) { ", lim) + v + "++; " + P() + body(i, n - 1, c | 1) + "} ";
                case 1: return "var " + v + " = 0; do { " + v + " = " + v + " + 1; " + body(i, n - 1, c | 1) + strf("} while(%s < %d); ", v.c_str(), lim);
                case 2: return "var " + v + "; for(" + v + " = 0; " + v + strf(" < %d; ++", lim) + v + ") " + body(i, n - 1, c | 1);
                default: return "for(var " + v + " = 0; " + v + strf(" < %d; ", lim) + v + " = " + v + " + 1) " + body(i, n - 1, c | 1);
                }
            }
            i -= b;
        }
        for(int a = 0; a <= n - 2; a++) {
            uint64_t m = G.L(a, c) * G.L(n - 2 - a, c);
            if(i < m) {
                string t = body(i / G.L(n - 2 - a, c), a, c), e = body(i % G.L(n - 2 - a, c), n - 2 - a, c);
                return strf("if(x > %d) ", 2 + (int)(i % 3)) + t + "else " + e;
            }
            i -= m;
        }
        return "<bug>";
    }
    string list(uint64_t i, int n, int c) {
        if(n == 0) return "";
        for(int a = 1; a <= n; a++) {
            uint64_t m = G.S(a, c) * G.L(n - a, c);
            if(i < m) { uint64_t l = G.L(n - a, c); string s = stmt(i / l, a, c); return s + list(i % l, n - a, c); }
            i -= m;
        }
        return "<bug>";
    }
};

// Wraps a statement list in a context.
static const int NCTX = 6;
static string wrap(uint64_t i, int n, int ctx) {
    Gen g;
    g.sc.push_back({});
    switch(ctx) {
    case 0: { g.sc.back() = {"x"}; string b = g.list(i, n, 2); return "var y = 50;\nfunction f(x) { " + b + "print(\"end\", x, y); }\nprint(f(1)); print(f(3), f(4) + f(5)); print(y);"; }
    case 1: { g.sc.back() = {"x", "y"}; string b = g.list(i, n, 0); return "var x = 1; var y = 2;\n" + b + "\nprint(x, y);"; }
    case 2: { g.sc.back() = {"x", "y"}; string b = g.list(i, n, 2); return "var g = function(x, y) { " + b + "};\nvar o = newobject; o.m = g; for(var k = 1; k < 6; k++) { print(10 + g(k, 0), o.m(k, k)); }\nfunction k_() { return g(2, 3); } print(k_());"; }
    case 3: { g.sc.back() = {}; string b = g.list(i, n, 3); return "var x = 2; var y = 3;\nfunction f() { var q = 7; while(q < 9) { var w = q; " + b + "q = q + 1; print(q, w); } return q; }\nvar r = f(); print(r, x, y);"; }
    case 4: { g.sc.back() = {"x"}; string b = g.list(i, n, 2); return "var y = 5;\nfunction f(x) { " + b + "yield(x); print(\"co\", x, y); return 77; }\nvar c = coroutine(f, 2); print(resume(c)); y = 9; print(resume(c), is_finished(c)); print(resume(c));"; }
    default: { g.sc.back() = {"x"}; string b = g.list(i, n, 2); return "var y = 5;\nfunction f(x, d) { " + b + "if(d > 0) { print(f(x + 1, d - 1) + f(d, 0)); } return x + d; }\nprint(f(1, 2)); print(call(f, 2, 1));"; }
    }
}

void define(Registry &r) {
    r.rule = "statement trees up to a size, unranked from the grammar (print, declaration, assignment, break, return, conditional break/return, block, if, if-else, while, do, for) in six contexts; reference interpreter as oracle";
    int skip = r.noteName("skipped");
    auto cmp = [skip](Case &c, const string &s, const diff::Opt &o) { if(diff::compare(c, s, o) == diff::SKIPPED) c.note(skip); else c.sample(s); };
    diff::Opt gen; // break/return directly followed by more statements is fine
    static const int lctx[NCTX] = {2, 0, 2, 3, 2, 2};
    int N = r.thorough() ? 5 : 4;
    for(int x = 0; x < NCTX; x++)
        for(int n = 1; n <= N; n++) {
            if(!r.thorough() && n == 4 && x != 0) continue;
            r.add(strf("tree%d/ctx%d", n, x), G.L(n, lctx[x]), [=](uint64_t i, Case &c) { cmp(c, wrap(i, n, x), gen); });
        }
    // scopes: a declaration and a use of one name at every pair of positions in a nest of scopes
    // positions: 0 global before, 1 param, 2 function body start, 3 block, 4 loop body, 5 inner block in loop, 6 after loop, 7 after block, 8 global after
    r.add("scope", 9 * 9 * 9 * 2, [=](uint64_t i, Case &c) {
        Idx d(i);
        int a = d.pick(9), b = d.pick(9), u = d.pick(9); bool w = d.pick(2);
        string at[9];
        auto decl = [&](int p, const char *v) { if(p == 1) return; at[p] += string("var n = ") + v + "; "; };
        decl(a, "11"); if(b != a) decl(b, "22");
        at[u] += w ? "n = n + 1; print(n); " : "print(n); ";
        bool par = a == 1 || b == 1;
        string s = (u == 1 ? "" : "") + at[0] + "\nfunction f(" + (par ? "n" : "m") + ") { " + at[2] + "{ " + at[3] + "for(var i = 0; i < 2; i++) { " + at[4] + "{ " + at[5] + "} print(i); } " + at[6] + "} " + at[7] + "return " + (par ? "n" : "m") + "; }\n" + at[8] + (u == 1 ? "print(n);" : "") + "print(f(5));";
        diff::Opt o; o.expectAccept = false;
        cmp(c, s, o);
    });
    // function values, calls and arities
    static const vector<string> DEF = {"function f(a, b) { return a * 10 + b; }", "function f() { }", "function f(a) { a = a + 1; return a; }", "function f(a) return a;", "function f(a) { if(a > 0) return f(a - 1) + 1; return 100; }", "function f(a) { var q = a; function g(b) { return b * 2; } return g(q) + g(1); }", "function f(a) { return function(b) { return b + 1; }; }", "function f(a) { while(1) { for(;1;) { return a; } } }", "function f(a, b) { a = b; b = 7; print(a, b); }", "var f = function(a) { return a; };", "function h(z) { return z + 1; } function f(a) { return h; }", "function f(a) { g2 = g2 + a; return g2; }", "function f(a) { { var l = a; { var l2 = l; { return l2 + l; } } } }", "function f(a) { do { var l = a; if(l) break; } while(1); return a; }", "function f(a) print(a);", "function f(_x, _y) { return _x; }"};
    static const vector<string> USE = {"print(f);", "print(f());", "print(f(1));", "print(f(1, 2));", "print(f(1, 2, 3));", "print(f(f(1)));", "print(f(1)(2));", "var g = f; print(g(4), f == g, f === g, g != h0);", "var o = newobject; o.f = f; print(o.f(3), o[\"f\"](4));", "f(1); f(2); print(g2);", "print(f(f(2) + f(3)) - f(1));", "for(var i = 0; i < 3; i = i + 1) print(f(i));", "if(f(1)) print(1); else print(2);", "print(call(f, 5), call(f, 1, 2), call(f));", "f = 5; print(f);", "var a = 1; { var a = 2; print(f(a)); } print(a);", "function w(f) { return f(9); } print(w(f));", "while(f(1) < 2) { break; } print(3);", "print(-f(2), !f(0), f(1) + 1, 1 + f(1));", "print(function(q) { return q * 3; }(f(2)));"};
    r.add("functions", DEF.size() * USE.size() * 3, [=](uint64_t i, Case &c) {
        Idx d(i);
        string df = DEF[d.pick(DEF.size())], u = USE[d.pick(USE.size())], pre = "var g2 = 0; function h0(p) { return p; }\n";
        diff::Opt o; o.expectAccept = false;
        switch(d.pick(3)) {
        case 0: cmp(c, pre + df + "\n" + u, o); break;
        case 1: cmp(c, pre + df + "\nfunction main(a) { " + u + " return a; } print(main(3));", o); break;
        default: cmp(c, pre + "function main(a) { " + df + " " + u + " return a; } print(main(3));", o); break;
        }
    });
    // single-statement (brace-less) bodies in every combination, two levels
    static const vector<string> H = {"if(X) ", "if(X) S else ", "while(n++ < 2) ", "do ", "for(var i = 0; i < 2; i++) ", "for(i2 = 5; i2 < 7; i2 = i2 + 1) ", "{ ", "if(0) S else if(X) "};
    static const vector<string> ST = {"print(n);", "n = n + 5;", "break;", "return n;", "{ }", "{ var l = n; print(l); }", "var l = 3;", "function q() { return 1; }", "f0(n);", "{ break; }", "{ return 3; }", "o.x++;"};
    r.add("braceless", H.size() * H.size() * ST.size() * 4, [=](uint64_t i, Case &c) {
        Idx d(i);
        string h1 = H[d.pick(H.size())], h2 = H[d.pick(H.size())], st = ST[d.pick(ST.size())];
        int cx = d.pick(4);
        string cond = cx & 1 ? "n < 3" : "n > 2";
        auto mk = [&](const string &h, const string &body) {
            string s;
            for(char ch : h) s += ch == 'X' ? cond : ch == 'S' ? string("print(\"s\");") : string(1, ch);
            s += body;
            if(h == "do ") s += " while(n++ < 2);";
            if(h == "{ ") s += " }";
            return s;
        };
        string b = mk(h1, mk(h2, st));
        string s = "var n = 1; var i2 = 0; var o = newobject; o.x = 1; function f0(a) { print(\"f0\", a); }\n" + string(cx & 2 ? "function m() { " : "") + b + " print(\"after\", n);" + (cx & 2 ? " }\nprint(m());" : "") + " print(n, i2, o.x);";
        diff::Opt o; o.expectAccept = false;
        cmp(c, s, o);
    });
    // functions defined inside other constructs: what they may break out of, see and change
    static const vector<string> OUT = {"F", "while(n++ < 2) { F }", "do { F } while(n++ < 2);", "for(var i = 0; i < 2; i++) { F }", "{ F }", "if(n) { F } else { F }", "while(n++ < 2) { if(n) { F } print(n); }", "for(var i = 0; i < 2; i++) { for(var j = 0; j < 2; j++) { F } }", "for(n = 1; n < 3; n++) { { F } if(n == 2) break; }"};
    static const vector<string> FN = {"function f(a) { B } U", "var f = function(a) { B }; U", "function f(a) { function g(a) { B } return g(a); } U", "function f(a) { while(a < 3) { function g(a) { B } a = a + g(a) + 1; } return a; } U", "var f = function(a) { for(var i = 0; i < 2; i++) { var g = function(a) { B }; a = a + g(i) + 1; if(a > 2) break; } return a; }; U", "function f(a) { if(a) { { function g(a) { B } g(a); } } B } U"};
    static const vector<string> BODY = {"break;", "if(a) break;", "{ break; }", "if(a) { break; } else { break; }", "return a;", "while(1) { break; } return 1;", "return i;", "return n;", "return l;", "var l = 7; return l;", "l = 5; return l;", "n = n + 1; return n;", "for(var i = 3; i < 5; i++) { if(a) break; } return a;", "do { if(a) { break; } } while(0); print(a);", "function z(a) { break; } z(1);", "while(a < 2) { function z(b) { break; } a++; }", "while(a < 2) { function z(b) { return b; } a = a + z(1); break; } return a;", "while(a < 2) { var z = function(b) { while(b < 2) { b++; break; } return b; }; a = a + z(1); if(a > 1) { break; } } return a;", "var i = a; while(i < 3) { i++; if(i == 2) break; } break;", "j = 1; return j;"};
    static const vector<string> CALL = {"print(f(0), f(1));", "o.m = f;", "print(f(n)); break;", "if(f(1) > 1) { break; } print(n);", "k_ = f(0); k_ = k_ + f(2);"};
    r.add("inner", OUT.size() * FN.size() * BODY.size() * CALL.size() * 4, [=](uint64_t i, Case &c) {
        Idx d(i);
        string out = OUT[d.pick(OUT.size())], fn = FN[d.pick(FN.size())], b = BODY[d.pick(BODY.size())], u = CALL[d.pick(CALL.size())]; bool infn = d.pick(2), l = d.pick(2);
        auto sub = [](const string &t, char k, const string &v) { string q; for(size_t x = 0; x < t.size(); x++) { bool word = (x && (isalnum(t[x - 1]) || t[x - 1] == '_')) || (x + 1 < t.size() && (isalnum(t[x + 1]) || t[x + 1] == '_')); if(t[x] == k && !word) q += v; else q += t[x]; } return q; };
        string s = sub(sub(sub(out, 'F', (l ? "var l = n; " : "") + fn), 'B', b), 'U', u);
        s = "var n = 0; var k_ = 0; var o = newobject; o.m = 3;\n" + string(infn ? "function main(p) { " : "") + s + " print(\"after\", n, k_);" + (infn ? " return p; }\nprint(main(9));" : "") + " if(o.m != 3) print(o.m(2)); print(n, k_);";
        diff::Opt o; o.expectAccept = false;
        cmp(c, s, o);
    });
    r.bounds = strf("all statement trees of size <= %d (size 4 in one context in the quick tier); 9^3 declaration/declaration/use positions; %zu definitions x %zu uses x 3 placements; %zu^2 brace-less nestings x %zu statements x 4; %zu constructs x %zu function forms x %zu bodies x %zu uses x 4", N, DEF.size(), USE.size(), H.size(), ST.size(), OUT.size(), FN.size(), BODY.size(), CALL.size());
    r.assumptions = {"loops in generated programs run at most two iterations per entry"};
}
