// uses: lang.cpp
// C22: strings and literals keep their exact content: every byte in every position and every escape through every way a
// string can travel; every short sequence of literal pieces; numeric literals of every length and exponent; conversions.
#include "diff.h"
#include <algorithm>
#include <math.h>
using namespace mc;
using std::string;
using std::vector;

static string lit(const string &s) { // the literal that denotes s
    string r = "\"";
    for(char ch : s) { if(ch == '\n') r += "\\n"; else if(ch == '"') r += "\\\""; else if(ch == '\\') r += "\\"; else r += ch; }
    return r + "\"";
}
static bool fetch(Case &c, Host &h, const char *name, NKValue &v) {
    NKValue *g = nkxVmFindGlobalVariable(h.vm, h.cs, name);
    if(!g) { c.fail("global %s not found", name); return false; }
    v = *g;
    return true;
}
static void expectStr(Case &c, Host &h, NKValue v, const string &want, const char *where) {
    if(v.type != NK_VALUETYPE_STRING) { c.fail("%s: not a string: %s", where, h.repr(&v).c_str()); return; }
    const char *s = nkxValueToString(h.vm, &v);
    if(!s || want != s) c.fail("%s: content is %s, expected %s", where, s ? esc(s).c_str() : "<null>", esc(want).c_str());
    c.trans();
}
static void expectGlobal(Case &c, Host &h, const char *name, const string &want, const char *where) { NKValue v; if(fetch(c, h, name, v)) expectStr(c, h, v, want, where); }
static void finish(Case &c, Host &h) { h.destroy(); for(auto &p : h.problems) c.fail("%s", p.c_str()); }
static bool load(Case &c, Host &h, const string &src) {
    if(h.load(src)) return true;
    c.fail("rejected: %s", h.errors().c_str()); finish(c, h);
    return false;
}
// -- one string through every way it can travel --------------------------------------------------------------------
static void travel(Case &c, const string &a, const string &b) { // the string is a + b
    string s = a + b, A = lit(a), B = lit(b);
    // a trailing backslash would escape the quote, and an escape may not be split: the callers avoid both
    string src = "var l1 = " + lit(s) + ";\nvar l2 = " + A + " " + B + ";\nvar va = " + A + "; var vb = " + B + "; var l3 = va + vb;\n"
        "var o = object(); o[" + lit(s) + "] = " + lit(s) + "; o.f = l3; var l4 = o[va + vb]; var l5 = o.f; var n1 = o[l2];\n"
        "function id(x) { var t = x; return t; } var l6 = id(va + vb); var l7 = call(id, l3); var l8 = str(l2);\n"
        "function gen(x) { yield(x); return x + \"\"; } var co = coroutine(gen, l2); var l9 = resume(co); var l10 = resume(co);\n"
        "var l11 = \"\" + l3; var l12 = l3 + \"\"; print(l3); gc();\n"
        "var eq = (l1 == l2) + (l1 === l3) * 2 + (l3 == " + lit(s) + ") * 4 + (l1 != l2) * 8 + (l1 == l1 + \"x\") * 16 + ((\"x\" + l1) === l1) * 32; var bh = back === l1; var kh = o[back];\nvar never = 0; if(l1 == \"\") { never = 1; }";
    Host h; h.create(); h.compiler(); h.natives();
    nkxCompilerCreateGlobalVariable(h.cs, "back");
    NKValue *cell = nkxVmFindGlobalVariable(h.vm, h.cs, "back");
    if(!cell) { c.fail("host global not found"); finish(c, h); return; }
    NKValue hv; memset(&hv, 0, sizeof hv); nkxValueSetString(h.vm, &hv, s.c_str()); *cell = hv;
    expectStr(c, h, hv, s, "set by the host");
    if(!h.compile(src)) { c.fail("rejected: %s", h.errors().c_str()); h.finalize(); finish(c, h); return; }
    h.finalize(); h.run();
    if(h.hasErrors()) { c.fail("error: %s", h.errors().c_str()); finish(c, h); return; }
    const char *W[] = {"l1", "literal", "l2", "adjacent literals", "l3", "concatenation", "l4", "stored", "l5", "stored in a field", "n1", "found by an equal key", "l6", "passed to a function", "l7", "passed through a native", "l8", "converted to a string", "l9", "yielded", "l10", "returned by a coroutine", "l11", "empty prefix", "l12", "empty suffix", "kh", "found by the host's string", "back", "the host's string", "va", "first part", "vb", "second part"};
    auto look = [&](Host &h, const char *when) {
        for(size_t i = 0; i + 1 < sizeof W / sizeof *W && !c.failed(); i += 2) expectGlobal(c, h, W[i], string(W[i]) == "va" ? a : string(W[i]) == "vb" ? b : s, strf("%s%s", W[i + 1], when).c_str());
        NKValue v; const char *N[] = {"eq", "bh", "never"}; int X[] = {7, 1, s.empty()};
        for(int i = 0; i < 3; i++) if(fetch(c, h, N[i], v) && h.repr(&v) != strf("i%d", X[i])) c.fail("%s is %s, expected %d%s", N[i], h.repr(&v).c_str(), X[i], when);
    };
    look(h, "");
    if(h.out != "'" + s + "';") c.fail("the native received %s", esc(h.out).c_str());
    nkxVmGarbageCollect(h.vm); nkxVmShrink(h.vm);
    look(h, " after collecting");
    Stream st;
    if(!h.save(st)) c.fail("save failed");
    else {
        Host h2; h2.create(); h2.natives();
        if(!h2.restore(st)) c.fail("restore failed: %s", h2.errors().c_str());
        else look(h2, " after restoring");
        finish(c, h2);
    }
    finish(c, h);
    c.trace(); c.state(hashStr(s)); c.nontrivial(hashStr(a) * 31 + hashStr(b));
}
// -- all pairs of bytes: 254 literals in one program ----------------------------------------------------------------
static bool plain(int b) { return b && b != '\n' && b != '"' && b != '\\'; }
static void bytePairs(Case &c, int first, int second, int third) { // -1: that position runs over all bytes
    c.desc("strings of bytes %d %d %d (-1: all)", first, second, third);
    string src = "var a = object(); var i = 0;"; vector<string> want;
    for(int b = 1; b < 256; b++) {
        int x[3] = {first, second, third}; string s; bool ok = true;
        for(int k = 0; k < 3; k++) { int v = x[k] == -1 ? b : x[k]; if(v == -2) continue; if(!plain(v) && v != '\n' && v != '"') ok = false; s += (char)v; }
        if(!ok) continue;
        src += strf("\na[%zu] = ", want.size()) + lit(s) + ";";
        want.push_back(s);
    }
    Host h;
    if(!load(c, h, src + " var k = object(); for(i = 0; i < len(a); ++i) { k[a[i]] = i; } gc(); var bad = 0; for(i = 0; i < len(a); ++i) { if(k[\"\" + a[i]] != i) { ++bad; } }")) return;
    h.run();
    if(h.hasErrors()) c.fail("error: %s", h.errors().c_str());
    NKValue a, bad;
    if(fetch(c, h, "a", a) && fetch(c, h, "bad", bad)) {
        if(h.repr(&bad) != "i0") c.fail("%s of the strings were not found as keys", h.repr(&bad).c_str());
        for(size_t i = 0; i < want.size() && !c.failed(); i++) {
            NKValue k; memset(&k, 0, sizeof k); nkxValueSetInt(h.vm, &k, i);
            NKValue *f = nkxVmObjectFindOrAddEntry(h.vm, &a, &k, nktrue);
            if(f) expectStr(c, h, *f, want[i], "literal"); else c.fail("entry %zu is missing", i);
        }
    }
    finish(c, h);
    c.trace(want.size()); c.nontrivial(first * 65536 + second * 256 + third); c.state(hashStr(src));
}
// -- sequences of characters after an opening quote: escapes and where a literal ends ---------------------------------
static const vector<string> ESC = {"\\", "\"", "n", "r", "t", "\n", "a", ";", "//"};
static void escapes(Case &c, const vector<int> &w, int ctx) {
    string s = "\"";
    for(int k : w) s += ESC[k];
    diff::Opt o; o.expectAccept = false;
    diff::compare(c, ctx == 0 ? "print(" + s + "\");\nprint(2);" : ctx == 1 ? "var o = object(); o[" + s + "\"] = " + s + "\";\nprint(len(o)); var e = " + s + "\";" : "print(" + s, o);
}
// what \X denotes, for every byte X, at every place of a literal, also split over two literals
static void escapeByte(Case &c, int x, int place) {
    if(x == 0 || x == '\n') return; // a literal cannot contain a line break
    c.desc("backslash and byte %d, place %d", x, place);
    string e = x == 'n' ? "\n" : x == 'r' ? "\r" : x == 't' ? "\t" : x == '"' ? "\"" : string("\\") + (char)x;
    string raw = string("\\") + (char)x, src, want;
    switch(place) {
    case 0: src = "\"" + raw + "\""; want = e; break;
    case 1: src = "\"ab" + raw + "\""; want = "ab" + e; break;
    case 2: src = "\"" + raw + "cd\""; want = e + "cd"; break;
    case 3: src = "\"" + raw + "n\""; want = e + "n"; break;
    case 4: src = "\"" + raw + raw + "\""; want = e + e; break;
    case 5: src = "\"" + raw + "\"\"" + raw + "\""; want = e + e; break;
    case 6: src = "\"x\" \"" + raw + "\" \"n\""; want = "x" + e + "n"; break;
    case 7: src = "\"\\n" + raw + "\\t\""; want = "\n" + e + "\t"; break;
    case 8: src = "\"\\\"" + raw + "\\\"\""; want = "\"" + e + "\""; break;
    }
    if(x == '\\' && place != 0 && place != 1 && place != 2 && place != 5 && place != 6) {
        // two backslashes: the next character is not escaped by the second
        if(place == 3) want = "\\\\n"; else if(place == 4) want = "\\\\\\\\"; else if(place == 7) want = "\n\\\\\t"; else want = "\"\\\\\"";
    }
    Host h;
    if(!load(c, h, "var s = " + src + "; var after = 7;")) return;
    h.run();
    expectGlobal(c, h, "s", want, "literal");
    NKValue v; if(fetch(c, h, "after", v) && h.repr(&v) != "i7") c.fail("the literal ended at the wrong place");
    finish(c, h);
    c.trace(); c.nontrivial(x * 16 + place); c.state(hashStr(want));
}
// -- adjacent literals ------------------------------------------------------------------------------------------------
static const vector<string> PIECE = {"\"a\"", "\"\"", "\"\\n\"", "\"\\\\\"", "\"\\\"\"", "\"//\"", "\"1\"", "\"\xc3\xa4\"", "x", "2", "\"\\t n\""};
static const vector<string> SEP = {"", " ", "\n", " // \"c\"\n", " + ", "\t\r\n\n"};
static void adjacent(Case &c, uint64_t i, int n) {
    Idx d(i); string e = PIECE[d.pick(PIECE.size())];
    for(int k = 1; k < n; k++) { e += SEP[d.pick(SEP.size())]; e += PIECE[d.pick(PIECE.size())]; }
    diff::Opt o; o.expectAccept = false;
    diff::compare(c, "var x = \"x\"; var o = object();\nvar r = " + e + "; print(r, " + e + ");\no[" + e + "] = 1; print(o[\"a\"], len(o), r === (" + e + "));", o);
}
// -- lengths ----------------------------------------------------------------------------------------------------------
static string text(uint64_t n, int salt) { string s; for(uint64_t i = 0; i < n; i++) s += (char)(1 + (i * 7 + salt * 13 + i / 251) % 254); for(auto &ch : s) if(!plain((unsigned char)ch)) ch = '_'; return s; }
static void length(Case &c, uint64_t n, int how) {
    c.desc("a string of %llu bytes, made as %d", (unsigned long long)n, how);
    string s = text(n, how), src;
    switch(how) {
    case 0: src = "var s = " + lit(s) + ";"; break;
    case 1: src = "var s = " + lit(s.substr(0, n / 2)) + " " + lit(s.substr(n / 2)) + ";"; break;
    case 2: src = "var h = " + lit(s.substr(0, n / 3)) + "; var s = h + " + lit(s.substr(n / 3)) + ";"; break;
    case 3: src = "var s = \"\"; "; for(uint64_t i = 0; i < n; i += 16) src += "s = s + " + lit(s.substr(i, 16)) + "; "; break;
    case 5: src = "var s = " + lit(s.substr(0, n - n / 32768)) + lit(s.substr(n - n / 32768)) + ";"; break;
    case 6: src = "var s = " + lit(s.substr(0, n / 32768)) + "\n" + lit(s.substr(n / 32768)) + " \"\";"; break;
    case 4: { src = "var s = \"ab\"; var i = 2; while(i * 2 <= " + std::to_string(n) + ") { s = s + s; i = i * 2; } while(i < " + std::to_string(n) + ") { s = s + \"c\"; ++i; }"; uint64_t k = 2; s = "ab"; while(k * 2 <= n) { s += s; k *= 2; } while(k < n) { s += "c"; k++; } if(n < 2) s = "ab"; break; }
    }
    Host h;
    if(!load(c, h, src + " var o = object(); o[s] = s; var t = str(s); gc(); var ok = (o[t] === s) + (t == s) * 2 + ((s + \"x\") != t) * 4;")) return;
    h.run();
    if(h.hasErrors()) c.fail("error: %s", h.errors().c_str());
    expectGlobal(c, h, "s", s, "made"); expectGlobal(c, h, "t", s, "through a native");
    NKValue v; if(fetch(c, h, "ok", v) && h.repr(&v) != "i7") c.fail("comparisons gave %s", h.repr(&v).c_str());
    Stream st;
    if(h.save(st)) { Host h2; h2.create(); h2.natives(); if(h2.restore(st)) { expectGlobal(c, h2, "s", s, "restored"); h2.compiler(); } else c.fail("restore failed: %s", h2.errors().c_str()); if(h2.cs) h2.finalize(); finish(c, h2); } else c.fail("save failed");
    finish(c, h);
    c.trace(); c.nontrivial(n * 8 + how); c.state(hashStr(s));
}
// -- many strings ------------------------------------------------------------------------------------------------------
static void many(Case &c, int n, int gcs) {
    c.desc("%d different strings, collecting every %d", n, gcs);
    Host h;
    if(!load(c, h, strf("var o = object(); var p = object(); var i; for(i = 0; i < %d; ++i) { o[i] = \"s\" + i; p[\"s\" + i] = i; var junk = \"junk\" + i; if(%d) { if(i %% %d == 0) { gc(); } } } var bad = 0; for(i = 0; i < %d; ++i) { if(p[o[i]] != i) { ++bad; } if(o[i] != \"s\" + i) { ++bad; } } bad = bad + (len(p) - %d);", n, gcs, gcs ? gcs : 1, n, n))) return;
    h.run();
    if(h.hasErrors()) c.fail("error: %s", h.errors().c_str());
    NKValue o, bad;
    if(fetch(c, h, "bad", bad) && h.repr(&bad) != "i0") c.fail("%s wrong lookups", h.repr(&bad).c_str());
    nkxVmGarbageCollect(h.vm);
    if(fetch(c, h, "o", o)) for(int i = 0; i < n && !c.failed(); i++) { NKValue k; memset(&k, 0, sizeof k); nkxValueSetInt(h.vm, &k, i); NKValue *f = nkxVmObjectFindOrAddEntry(h.vm, &o, &k, nktrue); if(f) expectStr(c, h, *f, strf("s%d", i), "string"); else c.fail("entry %d missing", i); }
    finish(c, h);
    c.trace(); c.nontrivial(n * 64 + gcs); c.state(n);
}
// -- equal strings made in different ways are the same key ---------------------------------------------------------------
static const vector<string> WAY = {"#", "(\"\" + #)", "(# + \"\")", "str(#)", "mk(#)", "call(mk, #)", "resume(coroutine(mk, #))", "hs", "oo.f", "(h1 + h2)", "rt"};
static const vector<string> WORD = {"", "a", "bdb", "cbc", "0", "12", "1.500000", "aa", "ab", "ba", "_exec", "\xff\x01", "a longer string of text", "\t", " "};
static void keys(Case &c, int w1, int w2, int a, int b) {
    auto make = [&](int w, const string &s) { string r = WAY[w]; size_t p; while((p = r.find('#')) != string::npos) r.replace(p, 1, lit(s)); return r; };
    string s = WORD[a], t = WORD[b];
    c.desc("%s and %s", make(w1, s).c_str(), make(w2, t).c_str());
    bool uses1 = w1 >= 7; // hs, oo.f and the like denote the second word only if the first is a plain form
    if(uses1 && w2 >= 7 && a != b) return;
    const string &g = uses1 ? s : t;
    string src = "function mk(x) { var l = x + \"!\"; return x; } var oo = object(); oo.f = " + lit(g) + "; var h1 = " + lit(g.substr(0, g.size() / 2)) + "; var h2 = " + lit(g.substr(g.size() / 2)) + ";\n"
        "function tail(x) { gc(); return x; } var rt = tail(h1 + h2); var o = object(); o[" + make(w1, s) + "] = 5; o.other = 6; gc();\nvar r1 = o[" + make(w2, t) + "]; o[" + make(w2, t) + "] = 7; var r2 = o[" + make(w1, s) + "]; var n = len(o); var e = (" + make(w1, s) + " == " + make(w2, t) + ") * 2 + (" + make(w1, s) + " === " + make(w2, t) + ");\n"
        "o[" + make(w1, s) + "] = nil; var r3 = o[" + make(w2, t) + "]; var n2 = len(o);";
    Host h; h.create(); h.compiler(); h.natives();
    nkxCompilerCreateGlobalVariable(h.cs, "hs");
    NKValue *cell = nkxVmFindGlobalVariable(h.vm, h.cs, "hs"), hv; memset(&hv, 0, sizeof hv);
    if(!cell) { c.fail("host global not found"); h.finalize(); finish(c, h); return; }
    nkxValueSetString(h.vm, &hv, g.c_str()); *cell = hv;
    bool ok = h.compile(src); h.finalize();
    if(!ok) { c.fail("rejected: %s", h.errors().c_str()); finish(c, h); return; }
    h.run();
    if(h.hasErrors()) c.fail("error: %s", h.errors().c_str());
    bool same = s == t;
    const char *N[] = {"r1", "r2", "n", "e", "r3"}; string X[] = {same ? "i5" : "nil", same ? "i7" : "i5", same ? "i2" : "i3", same ? "i3" : "i0", same ? "nil" : "i7"};
    NKValue v;
    for(int i = 0; i < 5; i++) if(fetch(c, h, N[i], v) && h.repr(&v) != X[i]) c.fail("%s is %s, expected %s", N[i], h.repr(&v).c_str(), X[i].c_str());
    finish(c, h);
    c.trace(); c.nontrivial(((w1 * 16 + w2) * 16 + a) * 16 + b); c.state((a == b) * 100 + w1);
}
// -- numeric literals -----------------------------------------------------------------------------------------------------
struct Num { string text; bool isFloat; int32_t i; float f; };
static Num num(const string &t) { Num n; n.text = t; n.isFloat = t.find('.') != string::npos; n.i = n.isFloat ? 0 : (int32_t)strtoll(t.c_str(), nullptr, 10); n.f = n.isFloat ? (float)strtod(t.c_str(), nullptr) : 0; return n; }
static void numbers(Case &c, const vector<Num> &v, const string &what) {
    if(v.empty()) return;
    c.desc("numeric literals %s: %s .. %s", what.c_str(), v[0].text.substr(0, 60).c_str(), v.back().text.substr(0, 60).c_str());
    string src = "var a = object(); var b = object(); var s = object(); function f(x) { return x; } var n;";
    for(size_t i = 0; i < v.size(); i++) src += strf("\na[%zu] = ", i) + v[i].text + "; b[" + std::to_string(i) + "] = f(" + v[i].text + "); s[" + std::to_string(i) + "] = \"\" + " + v[i].text + ";";
    src += strf(" var bad = 0; for(n = 0; n < %zu; ++n) { if(a[n] !== b[n]) { ++bad; } }", v.size());
    size_t q; while((q = src.find("!==")) != string::npos) src.replace(q, 3, "!=");
    Host h;
    if(!load(c, h, src)) return;
    h.run();
    if(h.hasErrors()) c.fail("error: %s", h.errors().c_str());
    NKValue a, b, s, bad;
    if(!fetch(c, h, "a", a) || !fetch(c, h, "b", b) || !fetch(c, h, "s", s) || !fetch(c, h, "bad", bad)) { finish(c, h); return; }
    if(h.repr(&bad) != "i0") c.fail("%s literals differ from themselves", h.repr(&bad).c_str());
    for(size_t i = 0; i < v.size() && !c.failed(); i++) for(int k = 0; k < 3; k++) {
        NKValue key; memset(&key, 0, sizeof key); nkxValueSetInt(h.vm, &key, i);
        NKValue *f = nkxVmObjectFindOrAddEntry(h.vm, k == 0 ? &a : k == 1 ? &b : &s, &key, nktrue);
        if(!f) { c.fail("entry missing"); break; }
        NKValue x = *f;
        if(k == 2) { char t[400]; if(v[i].isFloat) snprintf(t, sizeof t, "%f", v[i].f); else snprintf(t, sizeof t, "%d", v[i].i); expectStr(c, h, x, t, ("text of " + v[i].text).c_str()); }
        else if(v[i].isFloat ? x.type != NK_VALUETYPE_FLOAT || memcmp(&x.floatData, &v[i].f, 4) : x.type != NK_VALUETYPE_INT || x.intData != v[i].i) c.fail("%s denotes %s", v[i].text.c_str(), h.repr(&x).c_str());
        c.trans();
    }
    finish(c, h);
    c.trace(v.size()); c.nontrivial(hashStr(src)); c.state(hashStr(src));
}
static const string DIG = "0159.";
static void shortNumbers(Case &c, uint64_t block) {
    vector<Num> v;
    for(uint64_t i = block * 100; i < block * 100 + 100; i++) {
        if(i >= seqCount(5, 7)) break;
        string t; for(int k : seqDecode(i, 5)) t += DIG[k];
        if(t[0] == '.' || std::count(t.begin(), t.end(), '.') > 1) continue;
        v.push_back(num(t));
    }
    numbers(c, v, "of up to seven characters");
}
static string full(double d) { char t[500]; snprintf(t, sizeof t, "%.160f", d); string s = t; while(s.size() > 2 && s.back() == '0' && s[s.size() - 2] != '.') s.pop_back(); return s; }
// every exponent, with mantissas at the edges of rounding, written exactly, cut off and rounded
static void floats(Case &c, int e, int how) {
    vector<Num> v;
    static const uint32_t M[] = {0, 1, 2, 3, 0x400000, 0x3fffff, 0x400001, 0x7ffffe, 0x7fffff, 0x555555, 0x2aaaaa, 0x123456};
    for(uint32_t m : M) {
        uint32_t u = ((uint32_t)e << 23) | m; float f; memcpy(&f, &u, 4);
        string s;
        if(how == 0) s = full(f);                                        // exact
        else if(how == 1) s = strf("%.9f", f);                            // cut off
        else if(how == 2) { float g = nextafterf(f, INFINITY); if(isinf(g)) continue; s = full(((double)f + g) / 2); } // half way: ties
        else if(how == 3) { float g = nextafterf(f, INFINITY); if(isinf(g)) continue; s = full(nextafter(((double)f + g) / 2, INFINITY)); }
        else if(how == 4) { float g = nextafterf(f, INFINITY); if(isinf(g)) continue; s = full(nextafter(((double)f + g) / 2, 0)); }
        else s = "000" + strf("%.60f", f);
        v.push_back(num(s));
    }
    numbers(c, v, strf("exponent %d written as %d", e, how));
}
static void ints(Case &c, uint64_t block, bool th) {
    vector<Num> v;
    auto add = [&](int64_t x) { if(x >= 0 && x <= 2147483647) { v.push_back(num(std::to_string(x))); if(x % 7 == 0) v.push_back(num("00" + std::to_string(x))); } };
    if(block < 31) { for(int k = -20; k <= 20; k++) add((1ll << block) + k); }
    else if(block < 41) { int64_t p = 1; for(uint64_t k = 31; k < block; k++) p *= 10; for(int k = -20; k <= 20; k++) add(p + k); for(int k = 2; k < 10; k++) add(p * k - 1), add(p * k); }
    else if(block == 41) { for(int k = 0; k < 40; k++) add(2147483647ll - k); }
    else for(int k = 0; k < 100; k++) add((int64_t)(block - 42) * 100 + k);
    numbers(c, v, "of integers"); (void)th;
}
// -- conversions -----------------------------------------------------------------------------------------------------------
static void intBack(Case &c, uint64_t block) { // integers, also negative ones, to text and back
    vector<int32_t> v;
    auto add = [&](int64_t x) { if(x >= -2147483647ll - 1 && x <= 2147483647) v.push_back((int32_t)x); };
    if(block < 32) for(int k = -30; k <= 30; k++) add((1ll << block) + k), add(-(1ll << block) + k);
    else { int64_t p = 1; for(uint64_t k = 32; k < block; k++) p *= 10; for(int k = -30; k <= 30; k++) add(p + k), add(-p + k); }
    c.desc("integers around %d to text and back", v[v.size() / 2]);
    string src = "var a = object(); var t = object(); var b = object(); var n; for(n = 0; n < " + std::to_string(v.size()) + "; ++n) { var x = get(n); a[n] = x; t[n] = \"\" + x; b[n] = 0 + t[n]; } var bad = 0; for(n = 0; n < len(a); ++n) { if(a[n] !== b[n]) { ++bad; } }";
    size_t q; while((q = src.find("!==")) != string::npos) src.replace(q, 3, "!=");
    while((q = src.find("get(n)")) != string::npos) src.replace(q, 6, "hook(n)");
    Host h;
    h.onHook = [&](Host &h, NKVMFunctionCallbackData *d) { nkxValueSetInt(h.vm, &d->returnValue, v[nkxValueToInt(d->vm, &d->arguments[0])]); };
    if(!load(c, h, src)) return;
    h.run();
    if(h.hasErrors()) c.fail("error: %s", h.errors().c_str());
    NKValue t, b;
    if(fetch(c, h, "t", t) && fetch(c, h, "b", b)) for(size_t i = 0; i < v.size() && !c.failed(); i++) {
        NKValue key; memset(&key, 0, sizeof key); nkxValueSetInt(h.vm, &key, i);
        NKValue *p = nkxVmObjectFindOrAddEntry(h.vm, &t, &key, nktrue);
        if(!p) { c.fail("entry missing"); break; }
        expectStr(c, h, *p, std::to_string(v[i]), "text");
        p = nkxVmObjectFindOrAddEntry(h.vm, &b, &key, nktrue);
        if(!p || p->type != NK_VALUETYPE_INT || p->intData != v[i]) { c.fail("%d came back differently", v[i]); break; }
        NKValue hv; memset(&hv, 0, sizeof hv); nkxValueSetInt(h.vm, &hv, v[i]);
        const char *hs = nkxValueToString(h.vm, &hv);
        if(!hs || std::to_string(v[i]) != hs) c.fail("the host gets %s for %d", hs, v[i]);
        nkxValueSetString(h.vm, &hv, std::to_string(v[i]).c_str());
        if(nkxValueToInt(h.vm, &hv) != v[i]) c.fail("the host gets %d for text %d", nkxValueToInt(h.vm, &hv), v[i]);
        c.trans(4);
    }
    finish(c, h);
    c.trace(v.size()); c.nontrivial(block); c.state(block);
}
static void floatText(Case &c, int e, int sign) { // text of floats of every exponent, and the number a float's text denotes
    c.desc("floats of exponent %d, sign %d to text and back", e, sign);
    static const uint32_t M[] = {0, 1, 0x400000, 0x3fffff, 0x7fffff, 0x555555, 0x2aaaaa, 0x123456, 0x700000, 0x0ccccd};
    Host h;
    float cur = 0;
    h.onHook = [&](Host &h, NKVMFunctionCallbackData *d) { nkxValueSetFloat(h.vm, &d->returnValue, cur); };
    if(!load(c, h, "var t; var b; var o = object(); function go() { var x = hook(); t = \"\" + x; b = 0.0 + t; o[t] = x; return o[\"\" + x]; }")) return;
    h.run();
    NKValue f, r, t, b; memset(&r, 0, sizeof r);
    if(fetch(c, h, "go", f)) for(uint32_t m : M) {
        uint32_t u = ((uint32_t)sign << 31) | ((uint32_t)e << 23) | m; memcpy(&cur, &u, 4);
        nkxVmCallFunction(h.vm, &f, 0, nullptr, &r);
        char want[400]; snprintf(want, sizeof want, "%f", cur);
        if(!fetch(c, h, "t", t) || !fetch(c, h, "b", b)) break;
        expectStr(c, h, t, want, "text");
        float back = 0.0f + (float)strtod(want, nullptr);
        if(b.type != NK_VALUETYPE_FLOAT || memcmp(&b.floatData, &back, 4)) { c.fail("%s read back as %s", want, h.repr(&b).c_str()); break; }
        if(r.type != NK_VALUETYPE_FLOAT || memcmp(&r.floatData, &cur, 4)) { c.fail("stored under its text, %s came back as %s", want, h.repr(&r).c_str()); break; }
        if(h.hasErrors()) { c.fail("error: %s", h.errors().c_str()); break; }
        c.trans(3); c.trace();
    }
    finish(c, h);
    c.nontrivial(e * 2 + sign); c.state(e * 2 + sign);
}
static const string NC = "019.-+ eax";
static void stringToNumber(Case &c, uint64_t block) {
    Host h; string src = "var i = object(); var f = object(); var k = object();"; vector<string> v;
    for(uint64_t x = block * 200; x < block * 200 + 200; x++) {
        if(x > seqCount(NC.size(), 5)) break;
        string t; if(x) for(int k : seqDecode(x - 1, NC.size())) t += NC[k];
        src += strf("\ni[%zu] = 0 + \"", v.size()) + t + "\"; f[" + std::to_string(v.size()) + "] = 0.0 + \"" + t + "\";";
        v.push_back(t);
    }
    if(v.empty()) return;
    c.desc("the numbers denoted by \"%s\" .. \"%s\"", v[0].c_str(), v.back().c_str());
    if(!load(c, h, src)) return;
    h.run();
    if(h.hasErrors()) c.fail("error: %s", h.errors().c_str());
    NKValue a, b;
    if(fetch(c, h, "i", a) && fetch(c, h, "f", b)) for(size_t i = 0; i < v.size() && !c.failed(); i++) {
        NKValue key; memset(&key, 0, sizeof key); nkxValueSetInt(h.vm, &key, i);
        NKValue *p = nkxVmObjectFindOrAddEntry(h.vm, &a, &key, nktrue), x = p ? *p : key;
        int32_t wi = (int32_t)strtol(v[i].c_str(), nullptr, 10); float wf = (float)(0.0f + (float)strtod(v[i].c_str(), nullptr));
        if(!p || x.type != NK_VALUETYPE_INT || x.intData != wi) { c.fail("\"%s\" as an integer is %s, expected %d", v[i].c_str(), h.repr(&x).c_str(), wi); break; }
        p = nkxVmObjectFindOrAddEntry(h.vm, &b, &key, nktrue); x = p ? *p : key;
        if(!p || x.type != NK_VALUETYPE_FLOAT || memcmp(&x.floatData, &wf, 4)) { c.fail("\"%s\" as a float is %s, expected %g", v[i].c_str(), h.repr(&x).c_str(), wf); break; }
        NKValue hv; memset(&hv, 0, sizeof hv); nkxValueSetString(h.vm, &hv, v[i].c_str());
        float hf = (float)strtod(v[i].c_str(), nullptr), gf = nkxValueToFloat(h.vm, &hv);
        if(nkxValueToInt(h.vm, &hv) != wi || memcmp(&gf, &hf, 4)) c.fail("the host gets %d and %g for \"%s\"", nkxValueToInt(h.vm, &hv), gf, v[i].c_str());
        c.trans(4);
    }
    finish(c, h);
    c.trace(v.size()); c.nontrivial(block); c.state(block);
}

void define(Registry &r) {
    bool th = r.thorough();
    r.level = "model_checking";
    r.rule = "every string over the enumerated bytes, escapes, pieces and lengths has exactly the written content after every way it can travel (literal, adjacent literals, concatenation, storage, key, native, host, coroutine, collection, save); every numeric literal has exactly its value; every conversion gives exactly the expected text or number";
    // the ways of travelling, for every byte at the front, in the middle and at the end, and words
    r.add("travel/byte", 256 * 4, [](uint64_t i, Case &c) { Idx d(i); int b = d.pick(256), p = d.pick(4); if(!b || b == '\\') return; string x(1, (char)b); c.desc("byte %d, place %d", b, p); travel(c, p == 0 ? x : p == 1 ? "ab" : p == 2 ? "a" + x : x + x, p == 0 ? "" : p == 1 ? x : p == 2 ? "b" : x); });
    r.add("travel/words", ipow(WORD.size(), 2), [](uint64_t i, Case &c) { Idx d(i); string a = WORD[d.pick(WORD.size())], b = WORD[d.v]; c.desc("%s + %s", esc(a).c_str(), esc(b).c_str()); travel(c, a, b); if(i % 51 == 0) c.sample(esc(a) + " + " + esc(b)); });
    r.add("bytes/1", 3, [](uint64_t i, Case &c) { bytePairs(c, i == 1 ? 'a' : -1, i == 0 ? -2 : i == 1 ? -1 : 'z', -2); });
    r.add("bytes/2", 255 * 2, [](uint64_t i, Case &c) { Idx d(i); int b = 1 + d.pick(255); bytePairs(c, d.v ? b : -1, d.v ? -1 : b, -2); });
    if(th) r.add("bytes/3", 255 * 255, [](uint64_t i, Case &c) { Idx d(i); int a = 1 + d.pick(255), b = 1 + d.pick(255); bytePairs(c, a, b, -1); });
    else r.add("bytes/3", 255 * 15, [](uint64_t i, Case &c) { Idx d(i); int a = 1 + d.pick(255); static const int B[] = {1, 9, 10, 13, 32, 34, 39, 47, 64, 127, 128, 129, 192, 254, 255}; bytePairs(c, a, -1, B[d.v]); });
    unsigned ed = th ? 6 : 4;
    r.add("escapes/sequences", seqCount(ESC.size(), ed) * 3, [](uint64_t i, Case &c) { escapes(c, seqDecode(i / 3, ESC.size()), i % 3); });
    r.add("escapes/bytes", 256 * 9, [](uint64_t i, Case &c) { Idx d(i); int x = d.pick(256); escapeByte(c, x, d.v); });
    unsigned an = th ? 4 : 3;
    for(unsigned n = 2; n <= an; n++) r.add(strf("adjacent/%u", n), ipow(PIECE.size(), n) * ipow(SEP.size(), n - 1), [=](uint64_t i, Case &c) { adjacent(c, i, n); });
    static vector<uint64_t> L; L.clear();
    for(uint64_t n = 0; n <= (th ? 1100u : 300u); n++) L.push_back(n);
    for(unsigned p = 9; p <= (th ? 20u : 17u); p++) for(int k = -2; k <= 2; k++) L.push_back((1ull << p) + k);
    r.add("length", L.size() * 7, [](uint64_t i, Case &c) { Idx d(i); int how = d.pick(7); uint64_t n = L[d.v]; if(how == 3 && n > 20000) return; if(how == 4 && n > 3000 && (n & (n - 1)) > 300) return; length(c, n, how); });
    static vector<int> MN; MN.clear(); for(int n = 0; n < (th ? 600 : 140); n++) MN.push_back(n); for(int p = 8; p <= (th ? 14 : 12); p++) for(int k = -1; k <= 1; k++) MN.push_back((1 << p) + k);
    r.add("many", MN.size() * 3, [](uint64_t i, Case &c) { Idx d(i); static const int G[] = {0, 1, 7}; int g = G[d.pick(3)], n = MN[d.v]; if(g == 1 && n > 300) g = 64; many(c, n, g); });
    r.add("keys", ipow(WAY.size(), 2) * ipow(WORD.size(), 2), [](uint64_t i, Case &c) { Idx d(i); int w1 = d.pick(WAY.size()), w2 = d.pick(WAY.size()), a = d.pick(WORD.size()); keys(c, w1, w2, a, d.v); });
    r.add("numbers/short", seqCount(5, 7) / 100 + 1, [](uint64_t i, Case &c) { shortNumbers(c, i); });
    r.add("numbers/floats", 255 * 6, [](uint64_t i, Case &c) { Idx d(i); int e = d.pick(255); floats(c, e, d.v); });
    r.add("numbers/ints", 42 + (th ? 10000 : 1000), [=](uint64_t i, Case &c) { ints(c, i, th); });
    r.add("convert/ints", 42, [](uint64_t i, Case &c) { intBack(c, i); });
    r.add("convert/floats", 255 * 2, [](uint64_t i, Case &c) { Idx d(i); int e = d.pick(255); floatText(c, e, d.v); });
    r.add("convert/strings", seqCount(NC.size(), 5) / 200 + 1, [](uint64_t i, Case &c) { stringToNumber(c, i); });
    r.bounds = strf("every byte 1-255 in 4 positions and %zu words x %zu words through every way; all strings of 1 and 2 bytes and %s of 3; all sequences of up to %u of %zu pieces after a quote, \\X for every byte X in 9 places; up to %u adjacent pieces; lengths 0-%d and around powers of two up to 2^%d; up to %d strings; %zu x %zu ways of making %zu words; all numeric literals of up to 7 characters over 0159. ; every float exponent x 12 mantissas x 6 notations; integers around every power and up to %d; all strings of up to 5 characters over '%s' as numbers", WORD.size(), WORD.size(), th ? "all" : "15 x 65025", ed, ESC.size(), an, th ? 1100 : 300, th ? 20 : 16, th ? 16385 : 4097, WAY.size(), WAY.size(), WORD.size(), th ? 1000000 : 100000, NC.c_str());
    r.assumptions = {"integer literals above 2147483647 and literals with two points are outside the property", "the C library's strtod, strtol and snprintf are the reference for decimal conversion"};
}
