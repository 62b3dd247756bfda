// uses: lang.cpp
// C01: expression evaluation, exhaustively over operators, operand types and boundary values, precedence chains,
// lvalue forms; oracle: the reference interpreter.
#include "diff.h"
using namespace mc;
using std::string;
using std::vector;

static const vector<string> OPS = {"+", "-", "*", "/", "%", "<", ">", "<=", ">=", "==", "!=", "===", "&&", "||"};
// Operand values: setup statement (run before) and expression.
static const vector<string> VALS = {
    "0", "1", "(0-1)", "2", "7", "(0-7)", "255", "256", "65536", "2147483647", "(0-2147483647-1)", "46341",
    "0.0", "0.5", "(0.0-0.5)", "1.0", "2.9", "(0.0-2.9)", "16777217.0", "3000000000.0", "0.000001",
    "\"\"", "\"0\"", "\"5\"", "\"-3x\"", "\"abc\"", "\"2.5\"", "\"abd\"", "nil", "o", "p", "f", "print"};
static const string PRE = "var o = newobject; var p = object(); function f(a) { return a; } o.q = 1;\n";

void define(Registry &r) {
    r.rule = "programs over the expression grammar within the bounds; each is run by the real library and by the reference interpreter and output, error and globals are compared";
    int skip = r.noteName("skipped_unspecified");
    auto cmp = [skip](Case &c, const string &s, const diff::Opt &o = diff::Opt()) { if(diff::compare(c, s, o) == diff::SKIPPED) c.note(skip); else if(c.failed() == false) c.sample(s); };
    const uint64_t V = VALS.size(), O = OPS.size();
    // 1. operator x value x value x operand form (variable / literal / field / function result)
    r.add("binary", O * V * V * 4, [=](uint64_t i, Case &c) {
        Idx d(i);
        string op = OPS[d.pick(O)], a = VALS[d.pick(V)], b = VALS[d.pick(V)];
        string s = PRE;
        switch(d.pick(4)) {
        case 0: s += "var a = " + a + "; var b = " + b + ";\nvar r = a " + op + " b; print(r, a, b);"; break;
        case 1: s += "print(" + a + " " + op + " " + b + ");"; break;
        case 2: s += "var t = newobject; t.x = " + a + "; t[3] = " + b + "; t.y = t.x " + op + " t[3]; print(t.y, t);"; break;
        default: s += "function g() { var l = " + a + "; return f(l) " + op + " f(" + b + "); }\nprint(g());"; break;
        }
        cmp(c, s);
    });
    // 2. prefix operators
    static const vector<string> UN = {"-", "!", "--x", "++x", "- -", "!!", "-!", "!-", "- - -"};
    r.add("unary", UN.size() * V * 3, [=](uint64_t i, Case &c) {
        Idx d(i);
        string u = UN[d.pick(UN.size())], a = VALS[d.pick(V)], s = PRE;
        int form = d.pick(3);
        if(u == "--x" || u == "++x") {
            string q = u.substr(0, 2);
            if(form == 0) s += "var a = " + a + "; print(" + q + "a, a);";
            else if(form == 1) s += "var t = newobject; t.a = " + a + "; t.b = " + q + "t.a; print(t);";
            else s += "function g(a) { var b = 1 - " + q + "a; print(a, b); return a; } print(g(" + a + "));";
        } else {
            if(form == 0) s += "var a = " + a + "; print(" + u + "a, a);";
            else if(form == 1) s += "print(" + u + a + ");";
            else s += "var t = newobject; t.a = " + a + "; print(1 - " + u + "t.a * 2);";
        }
        cmp(c, s);
    });
    // 2b. what a string is worth as a number: every short string over the characters that matter to a number
    static const vector<string> SC = {"0", "1", "9", "x", "-", "+", " ", ".", "e", "a"};
    unsigned SL = r.thorough() ? 4 : 3;
    r.add("strings", seqCount(SC.size(), SL) * 2, [=](uint64_t i, Case &c) {
        string v; for(int k : seqDecode(i / 2, SC.size())) v += SC[k];
        if(i & 1) v += "7";
        cmp(c, "var s = \"" + v + "\"; var q = 0; var z = 0.0;\nprint(0 + s, 1 * s, 0 - s, 0.0 + s, 2.0 * s, 8 - s, 0 < s, 0.0 < s, s == q, s == z, !s); if(s) { print(\"yes\"); } q = 5 + s; print(q);");
    });
    // 3. precedence and associativity: every operator chain without parentheses
    static const vector<vector<string>> FILL = {{"7", "3", "2", "5", "11", "4"}, {"0", "1", "0", "2", "0", "1"}, {"a", "b", "c", "d", "e", "a"}, {"a", "2", "o.x", "f(d)", "-e", "!b"}, {"8.5", "2", "0.5", "\"3\"", "1", "2"}};
    for(int n = 2; n <= (r.thorough() ? 5 : 4); n++) {
        bool two = n <= 3 || r.thorough();
        uint64_t F = two ? FILL.size() : 1;
        if(n == 5) F = 2;
        r.add(strf("chain%d", n), ipow(O, n) * F, [=](uint64_t i, Case &c) {
            Idx d(i);
            const auto &fl = FILL[n == 4 && F == 1 ? 3 : n == 5 ? 2 + d.pick(2) : d.pick(F)];
            string e = fl[0];
            for(int k = 0; k < n; k++) e += " " + OPS[d.pick(O)] + " " + fl[k + 1];
            cmp(c, "var a = 7; var b = 3; var c = 2; var d = 5; var e = 11; var o = newobject; o.x = 2; function f(x) { return x; }\nprint(" + e + ");");
        });
    }
    // 4. parenthesisation and operand evaluation order: every binary tree shape, operands log themselves
    static const vector<string> OPS2 = {"+", "-", "*", "/", "<", "==", "&&", "||", "==="};
    static const vector<string> SH3 = {"(A x B) y C", "A x (B y C)", "A x B y C", "(A x B y C)", "((A) x (B)) y (C)", "-A x (-B y C)", "!(A x B) y C", "A x -(B y C)", "t[A x B] y C", "A x t[B y C]", "f(A x B) y C", "A x f(B y C)", "A x B[C y A]"};
    static const vector<vector<string>> LV = {{"l(5)", "l(3)", "l(0)"}, {"l(2)", "l(\"x\")", "l(4)"}, {"l(1.5)", "l(t)", "l(2)"}, {"l(nil)", "l(1)", "l(7)"}};
    r.add("shape", OPS2.size() * OPS2.size() * SH3.size() * LV.size(), [=](uint64_t i, Case &c) {
        Idx d(i);
        string x = OPS2[d.pick(OPS2.size())], y = OPS2[d.pick(OPS2.size())], sh = SH3[d.pick(SH3.size())];
        const auto &v = LV[d.pick(LV.size())];
        string e;
        for(char ch : sh) e += ch == 'A' ? v[0] : ch == 'B' ? v[1] : ch == 'C' ? v[2] : ch == 'x' ? x : ch == 'y' ? y : string(1, ch);
        cmp(c, "var t = newobject; t[2] = 40; t[15] = 41; t[8] = 42; t[0] = 43; t[1] = 44;\nfunction l(v) { print(\"l\", v); return v; } function f(v) { print(\"f\", v); return v; }\nprint(" + e + ");");
    });
    // 5. lvalue forms x operation x value x context
    static const vector<string> LVS = {"g", "v", "p", "o.a", "o[\"a\"]", "o[1]", "o.b.c", "o[k][\"c\"]", "o[o[1]]", "q(o).a", "o[q(1)]", "o[1.5]", "o[nil]", "o[o]", "(g)", "o[v+1]", "(o).a", "o[\"\"]"};
    static const vector<string> LOPS = {"L = W", "L++", "L--", "++L", "--L", "L = L + W", "L = (L = W)", "L = L + L++", "L++ + L++", "++L - --L", "-L++", "!L--", "L++ * 2", "(L = W) + 1", "L = W == W", "L = nil", "f(L++)", "f(L = W, L)", "L = f", "g = (L = W)"};
    static const vector<string> WS = {"5", "2.25", "\"s\"", "nil", "o", "2147483647", "(0-2147483647-1)"};
    static const vector<string> CTX = {"X;", "print(X);", "var r = X; print(r);", "t.z = (X);", "if(X) { print(1); } else { print(2); }", "for(X; g < 0; X) { }", "print(X, X);", "print(f(X));", "while(w(X)) X;", "var h = 10 - (X); print(h);"};
    r.add("lvalue", LVS.size() * LOPS.size() * WS.size() * CTX.size() * 2, [=](uint64_t i, Case &c) {
        Idx d(i);
        string L = LVS[d.pick(LVS.size())], op = LOPS[d.pick(LOPS.size())], W = WS[d.pick(WS.size())], cx = CTX[d.pick(CTX.size())];
        bool objInit = d.pick(2);
        string e, body;
        for(char ch : op) e += ch == 'L' ? L : ch == 'W' ? W : string(1, ch);
        for(char ch : cx) body += ch == 'X' ? e : string(1, ch);
        string s = "var g = 3; var o = newobject; o.a = " + string(objInit ? "6" : "1.5") + "; o[1] = 2; o[2] = " + (objInit ? "nil" : "3") + "; o.b = newobject; o.b.c = 4; o[1.5] = 9; o[nil] = 8; o[o] = 7; o[\"\"] = 1; var t = newobject; var k = \"b\"; var n = 0;\n"
                   "function f(a) { return a; } function q(a) { print(\"q\", a); return a; } function w(a) { n = n + 1; return n < 3; }\n"
                   "function main(p) { var v = 1; " + body + "\nprint(g, v, p, o, t, o[2], o[1.5], o[nil], o[o], o[\"\"]); }\nmain(4); print(g, o, len(o));";
        cmp(c, s);
    });
    r.bounds = strf("all %zu binary operators x %zu^2 operand values x 4 operand forms; all prefix operators; all unparenthesised operator chains up to %d operators; %zu tree shapes; %zu lvalue forms x %zu operations x %zu values x %zu contexts", OPS.size(), VALS.size(), r.thorough() ? 5 : 4, SH3.size(), LVS.size(), LOPS.size(), WS.size(), CTX.size());
    r.assumptions = {"32-bit int and IEEE-754 single floats (x86-64, gcc)", "programs whose meaning the rules leave open (float to integer out of range, order of references, NaN comparisons, post-increment of strings, lvalues with side effects in ++/--) are explored for safety but not compared"};
}
