// uses: lang.cpp
// C03: constant folding never changes meaning. Every expression is executed with every subset of its literal
// operands replaced by variables of the same value; all variants must agree with each other and with the rules.
#include "diff.h"
using namespace mc;
using std::string;
using std::vector;

static const vector<string> OPS = {"+", "-", "*", "/", "%", "<", "==", "&&", "===", "!="};
static const vector<string> FOLD = {"+", "-", "*", "/"};
static const vector<string> LITS = {"0", "1", "2", "3", "7", "46341", "65536", "2147483647", "1000000007", "0.0", "1.0", "0.5", "2.9", "0.99999999", "0.0000001",
                                    "0.00000000000000000000000000001", "16777216.0", "16777217", "3000000.7", "100000000000000000000.0", "340000000000000000000000000000000000000.0", "2147483648.0", "0.1", "0.333333333"};
static const vector<string> SMALL = {"0", "1", "3", "2147483647", "0.0", "0.5", "2.9", "0.0000001", "100000000.0"};

struct Var { string src; };
// E: expression text with operands #0..#k; produces the variant with the operands in mask replaced by variables.
static string variant(const string &E, const vector<string> &lits, unsigned mask, int ctx) {
    string decl, e;
    for(size_t i = 0; i < E.size(); i++) {
        if(E[i] == '#') {
            int k = E[++i] - '0';
            if(mask & (1u << k)) e += strf("v%d", k); else e += lits[k];
        } else e += E[i];
    }
    for(size_t k = 0; k < lits.size(); k++) if(mask & (1u << k)) decl += strf("var v%zu = %s; ", k, lits[k].c_str());
    switch(ctx) {
    case 0: return decl + "\nprint(" + e + ");";
    case 1: return "function g() { " + decl + "\nvar t = newobject; t.x = " + e + "; return t.x; }\nvar r = g(); print(r, r === r);";
    case 2: return decl + "var t = newobject;\nt[" + e + "] = 5; print(len(t), t); if(" + e + ") { print(1); } else { print(2); }\nprint(t[" + e + "]);";
    default: return "function h(a, b) { print(a, b); return a; } " + decl + "\nvar n = 0; while(h(n, " + e + ") < 1) { n = n + 1; } print(-(" + e + "), !(" + e + "));";
    }
}
struct Ob { string out; bool err; bool comp; };
static Ob exec(const string &s) {
    Host h; Ob o;
    o.comp = h.load(s);
    if(o.comp) h.run();
    o.err = h.hasErrors();
    o.out = h.out;
    return o;
}
static void check(Case &c, const string &E, const vector<string> &lits, int ctx, int skip) {
    unsigned full = (1u << lits.size()) - 1;
    string sv = variant(E, lits, full, ctx);
    c.descs(sv);
    lang::Result r = lang::run(sv);
    if(!r.compiled) { c.fail("harness error: ill-formed (%s)", r.why.c_str()); return; }
    bool spec = r.unspecified.empty() && !r.timeout;
    if(!spec) c.note(skip);
    Ob ref = exec(sv);
    c.trace();
    if(spec && (ref.out != r.out || ref.err != r.error)) c.fail("with variables: %s%s, rules: %s%s", ref.out.c_str(), ref.err ? " +error" : "", r.out.c_str(), r.error ? " +error" : "");
    for(unsigned m = 0; m < full; m++) {
        string s = variant(E, lits, m, ctx);
        c.descs(s);
        Ob o = exec(s);
        c.trace(); c.trans();
        if(!o.comp) c.fail("rejected");
        else if(o.out != ref.out || o.err != ref.err) c.fail("with literals: %s%s; the same expression over variables: %s%s", o.out.c_str(), o.err ? " +error" : "", ref.out.c_str(), ref.err ? " +error" : "");
    }
    c.state(hashStr(ref.out + (ref.err ? "E" : "")));
    c.sample(sv);
}

void define(Registry &r) {
    r.rule = "expressions over the literal set; every subset of operands as literals versus variables on the real compiler and VM, plus the reference interpreter";
    int skip = r.noteName("reference_unspecified");
    bool th = r.thorough();
    const uint64_t L = LITS.size(), O = OPS.size(), F = FOLD.size();
    r.add("binary", O * L * L * (th ? 4 : 2), [=](uint64_t i, Case &c) {
        Idx d(i);
        string op = OPS[d.pick(O)], a = LITS[d.pick(L)], b = LITS[d.pick(L)];
        check(c, "#0 " + op + " #1", {a, b}, (int)d.pick(4), skip);
    });
    static const vector<string> UN = {"-#0", "--#0", "- -#0", "- - -#0", "!#0", "-!#0", "!-#0", "-#0 + 1", "1 - -#0", "-(#0)", "-(-#0 * 2)", "(#0)", "-#0 / 3", "5 % -#0", "-#0 == -#0"};
    r.add("unary", UN.size() * L * 4, [=](uint64_t i, Case &c) {
        Idx d(i);
        string e = UN[d.pick(UN.size())];
        if(e.compare(0, 2, "--") == 0) e = "-(-#0)";
        string l = LITS[d.pick(L)];
        check(c, e, {l}, (int)d.pick(4), skip);
    });
    static const vector<string> SH = {"#0 x #1 y #2", "#0 x (#1 y #2)", "(#0 x #1) y #2", "-#0 x #1 y #2", "#0 x -(#1 y #2)", "-(#0 x #1) y -#2", "#0 x !#1 y #2"};
    const vector<string> &S = th ? LITS : SMALL;
    const uint64_t N = S.size();
    r.add("nested", F * F * SH.size() * N * N * N, [=, &S](uint64_t i, Case &c) {
        Idx d(i);
        string x = FOLD[d.pick(F)], y = FOLD[d.pick(F)], sh = SH[d.pick(SH.size())], e;
        vector<string> l = {S[d.pick(N)], S[d.pick(N)], S[d.pick(N)]};
        for(char ch : sh) e += ch == 'x' ? x : ch == 'y' ? y : string(1, ch);
        // quick: all literals / one variable at a time would be 8 runs each; masks are all enumerated in check()
        check(c, e, l, (int)(i % 4), skip);
    });
    // folding next to operands with effects: nothing may be dropped or reordered
    static const vector<string> EFF = {"f(1) * 0", "0 * f(1)", "f(2) + #0 x #1", "#0 x #1 + f(2)", "#0 x f(#1)", "f(#0) x #1", "f(#0 x #1) x #0", "(#0 x #1) x f(3) x (#1 x #0)", "t[#0 x #1]", "t.a x #0", "f(\"s\") + #0", "\"s\" + #0 x #1", "\"\" + (#0 x #1)"};
    r.add("effects", EFF.size() * F * N * N, [=, &S](uint64_t i, Case &c) {
        Idx d(i);
        string sh = EFF[d.pick(EFF.size())], x = FOLD[d.pick(F)], e;
        vector<string> l = {S[d.pick(N)], S[d.pick(N)]};
        for(size_t k = 0; k < sh.size(); k++) e += sh[k] == 'x' ? x : string(1, sh[k]);
        unsigned full = 3;
        string ref; bool referr = false;
        for(int m = 3; m >= 0; m--) {
            string s = "var t = newobject; t.a = 4; t[1] = 5; t[2] = 6; t[0.5] = 7; function f(q) { print(\"f\", q); return q; }\n" + variant(e, l, m, 0);
            c.descs(s);
            if(m == 3) {
                lang::Result q = lang::run(s);
                Ob o = exec(s);
                ref = o.out; referr = o.err;
                if(!q.compiled) { c.fail("harness error: %s", q.why.c_str()); return; }
                if(q.unspecified.empty() && (q.out != o.out || q.error != o.err)) c.fail("library %s%s rules %s%s", o.out.c_str(), o.err ? "+error" : "", q.out.c_str(), q.error ? "+error" : "");
            } else {
                Ob o = exec(s);
                if(o.out != ref || o.err != referr) c.fail("with literals: %s%s; over variables: %s%s", o.out.c_str(), o.err ? "+error" : "", ref.c_str(), referr ? "+error" : "");
            }
            c.trace(); c.trans();
        }
        (void)full;
        c.state(hashStr(ref));
    });
    r.bounds = strf("%zu operators x %zu^2 literals (all contexts); %zu prefix shapes; all trees of two foldable operators (%zu shapes) over %zu^3 literals with all 8 literal/variable masks; %zu shapes with side effects", OPS.size(), LITS.size(), UN.size(), SH.size(), (size_t)N, EFF.size());
    r.assumptions = {"float results are compared to 9 significant digits, which identifies a single-precision value exactly"};
}
