// uses: lang.cpp corpus.cpp
// C19: every source text is accepted or rejected as the grammar says, with errors exactly when rejected, and nothing of a
// rejected text runs. All byte strings, all token strings, all truncations and single-token edits of programs within the
// bounds, and all sizes of everything that can repeat or nest.
#include "corpus.h"
#include "lang.h"
#include <stdlib.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
using namespace mc;
using std::string;
using std::vector;

static int nStrict, nLenient, nLimit;
struct Light { // a VM with print only
    NKVM *vm = nullptr; NKCompilerState *cs = nullptr; Ledger led; int prints = 0;
    static void print(NKVMFunctionCallbackData *d) { ((Light *)nkxGetUserData(d->vm))->prints++; }
    Light() {
        NKVMCreateParams p; p.mallocReplacement = ledgerMalloc; p.freeReplacement = ledgerFree; p.mallocAndFreeReplacementUserData = &led; gFallbackLedger = &led;
        vm = nkxVmCreateEx(&p); nkxSetUserData(vm, this);
        cs = nkxCompilerCreate(vm);
        nkxVmSetupExternalFunction(vm, cs, "print", print, nktrue, NK_INVALID_VALUE);
    }
    string errors() { nkuint32_t n = nkxGetErrorLength(vm); string s(n + 1, 0); if(n) nkxGetErrorText(vm, &s[0]); return s.c_str(); }
    void done(Case &c) {
        if(cs) nkxCompilerFinalize(cs);
        cs = nullptr;
        gFallbackLedger = &led;
        nkxVmDelete(vm); vm = nullptr;
        if(led.blocks) c.fail("%llu blocks leaked", (unsigned long long)led.blocks);
        if(!led.problem.empty()) c.fail("%s", led.problem.c_str());
    }
};
enum Want { REJECT, ACCEPT, EITHER };
static bool compileOnce(Case &c, const string &src, Want want, const string &why, const char *file = "t.nks") {
    Light l;
    bool ok = nkxCompilerCompileScript(l.cs, src.c_str(), file);
    nkuint32_t ec = nkxGetErrorCount(l.vm); bool he = nkxVmHasErrors(l.vm);
    if(nkxVmHasAllocationFailure(l.vm)) c.fail("reported an allocation failure");
    if(ok != !he || he != (ec > 0)) c.fail("compilation returned %d with %u errors", (int)ok, ec);
    if(he && !nkxGetErrorLength(l.vm)) c.fail("rejected without a message");
    if(want == ACCEPT && !ok) c.fail("well-formed but rejected: %s", l.errors().c_str());
    if(want == REJECT && ok) c.fail("accepted although it is not a program: %s", why.c_str());
    if(!ok) { // nothing of it runs
        NKCompilerState *cs = l.cs; l.cs = nullptr;
        nkxCompilerFinalize(cs);
        bool r = nkxVmExecuteProgram(l.vm);
        nkxVmIterate(l.vm, 10);
        if(r || l.prints) c.fail("a rejected program was executed");
        if(nkxGetErrorCount(l.vm) < ec) c.fail("errors disappeared");
    }
    l.done(c);
    c.trace(); c.outcome(ok ? "accepted" : "rejected");
    return ok;
}
// Compares with the grammar and the static rules of the language.
static void text(Case &c, const string &src) {
    c.descs(src);
    lang::Options o; o.compileOnly = true; o.nativeNames = {"print"};
    lang::Result r = lang::run(src.c_str(), o);
    Want w = r.lenient || r.unspecified.size() ? EITHER : r.compiled ? ACCEPT : REJECT;
    c.note(r.lenient ? nLenient : nStrict);
    compileOnce(c, src, w, r.why);
    c.state(hashStr(r.compiled ? "ok" : r.why.substr(0, 40)));
    c.nontrivial(hashStr(src));
}

// -- alphabets ----------------------------------------------------------------------------------------------------
static const vector<string> TOK = {
    "a", "1", "2.5", "\"s\"", "nil", "newobject", "(", ")", "[", "]", "{", "}", ";", ",", ".", "->", "=", "+", "-", "*", "!", "++", "==", "<", "&&", "var", "function", "return", "if", "else", "while", "do", "for", "break", "b",
    "object", "len", "yield", "coroutine", "/", "===", "--", "#", "print", "\n"};
static const vector<string> SMALL = {"a", "1", "(", ")", "[", "]", "{", "}", ";", ",", ".", "->", "=", "+", "-", "++", "var", "function", "if", "else", "\"s\"", "return", "while", "for", "break", "b"}; // quick: the first 20
static const vector<std::pair<string, string>> CTX = {{"", ""}, {"", ";"}, {"var a = 1; ", ""}, {"var a = 1; a = ", ";"}, {"var a = 1; ", " a = 2;"}, {"function f(a) { ", " }"}, {"var a; if(a) ", " else a = 1;"}, {"var a = object(); print(", ");"}, {"var a; while(a) { ", " break; }"}, {"function f(", ") { return 1; }"}, {"var a; for(", ") a = 1;"}};
static string join(const vector<int> &s, const vector<string> &t) { string r; for(int k : s) r += t[k] + " "; return r; }

static vector<string> tokens(const string &src) { // of a corpus program, with their text
    vector<string> v; size_t i = 0;
    auto id = [](unsigned char ch) { return isalnum(ch) || ch == '_' || ch == '.'; };
    while(i < src.size()) {
        size_t j = i;
        if(isspace((unsigned char)src[i])) { while(j < src.size() && isspace((unsigned char)src[j])) j++; }
        else if(src[i] == '"') { j++; while(j < src.size() && src[j] != '"') j += src[j] == '\\' ? 2 : 1; j++; }
        else if(isdigit((unsigned char)src[i])) { while(j < src.size() && id(src[j])) j++; }
        else if(isalpha((unsigned char)src[i]) || src[i] == '_') { while(j < src.size() && id(src[j]) && src[j] != '.') j++; }
        else { static const char *ops[] = {"===", "==", "!=", "<=", ">=", "&&", "||", "++", "--", "->", nullptr}; j++; for(const char **o = ops; *o; o++) if(!src.compare(i, strlen(*o), *o)) { j = i + strlen(*o); break; } }
        j = std::min(j, src.size());
        v.push_back(src.substr(i, j - i)); i = j;
    }
    return v;
}
static string cat(const vector<string> &v) { string r; for(auto &x : v) r += x; return r; }

// -- sizes --------------------------------------------------------------------------------------------------------
struct Shape { const char *name; std::function<string(int)> gen; bool nests; };
static string rep(const string &s, int n) { string r; r.reserve(s.size() * n); while(n-- > 0) r += s; return r; }
static const vector<Shape> SHAPES = {
    // length: must be accepted whatever the size
    {"identifier", [](int n) { return "var a" + rep("b", n) + " = 1; print(a" + rep("b", n) + ");"; }, false},
    {"string", [](int n) { return "var a = \"" + rep("x", n) + "\";"; }, false},
    {"escapes", [](int n) { return "var a = \"" + rep("\\n", n) + "\";"; }, false},
    {"pieces of a string", [](int n) { return "var a = \"\" " + rep("\"xy\" ", n) + ";"; }, false},
    {"zeros before a number", [](int n) { return "var a = " + rep("0", n) + "1;"; }, false},
    {"digits of a fraction", [](int n) { return "var a = 1." + rep("3", n) + ";"; }, false},
    {"blank", [](int n) { return "var a" + rep(" ", n) + "= 1;"; }, false},
    {"lines", [](int n) { return rep("\n", n) + "var a = 1;"; }, false},
    {"comment", [](int n) { return "//" + rep("c", n) + "\nvar a = 1;"; }, false},
    {"comments", [](int n) { return rep("// c\n", n) + "var a = 1;"; }, false},
    {"statements", [](int n) { return "var a = 1; " + rep("a = a + 1;\n", n); }, false},
    {"globals", [](int n) { string r; for(int i = 0; i < n; i++) r += strf("var v%d = %d;\n", i, i); return r + "var z = 1;"; }, false},
    {"locals", [](int n) { string r = "function f() { "; for(int i = 0; i < n; i++) r += strf("var v%d = %d;\n", i, i); return r + " return 1; }"; }, false},
    {"functions", [](int n) { string r; for(int i = 0; i < n; i++) r += strf("function f%d(x) { return x; }\n", i); return r + "var z = 1;"; }, false},
    {"parameters", [](int n) { string r = "function f(p"; for(int i = 0; i < n; i++) r += strf(", p%d", i); return r + ") { return p; }"; }, false},
    {"arguments", [](int n) { return "print(0" + rep(", 1", n) + ");"; }, true},
    {"blocks in a row", [](int n) { return rep("{ var a = 1; }\n", n) + "var z;"; }, false},
    {"ifs in a row", [](int n) { return "var a; " + rep("if(a) a = 1; else a = 2;\n", n); }, false},
    {"loops in a row", [](int n) { return "var a; " + rep("while(a) a = 0;\n", n); }, false},
    {"returns", [](int n) { return "function f() { " + rep("return 1;\n", n) + "}"; }, false},
    {"breaks", [](int n) { return "while(0) { " + rep("break;\n", n) + "}"; }, false},
    {"distinct literals", [](int n) { string r = "var a;"; for(int i = 0; i < n; i++) r += strf("a = \"s%d\";", i); return r; }, false},
    {"line directives", [](int n) { return rep("#line 5\n", n) + "var a = 1;"; }, false},
    {"file directives", [](int n) { string r; for(int i = 0; i < n; i++) r += strf("#file \"f%d\"\n", i); return r + "var a = 1;"; }, false},
    {"directive words", [](int n) { return "#file \"" + rep("x", n) + "\"\nvar a = 1;"; }, false},
    {"carriage returns", [](int n) { return rep("\r\n", n) + "var a = 1;"; }, false},
    // chains of operators and arguments: like nesting, as the compiler recurses along them
    {"sum", [](int n) { return "var a = 1" + rep(" + 1", n) + ";"; }, true},
    {"sum of variables", [](int n) { return "var a = 1; a = a" + rep(" + a", n) + ";"; }, true},
    {"products and sums", [](int n) { return "var a = 1; a = a" + rep(" * 2 + a", n) + ";"; }, true},
    {"comparison chain", [](int n) { return "var a = 1" + rep(" < 1", n) + ";"; }, true},
    {"concatenation", [](int n) { return "var a = \"\"" + rep(" + \"x\"", n) + ";"; }, true},
    {"logical chain", [](int n) { return "var a = 1; a = a" + rep(" && a", n) + ";"; }, true},
    {"assignment chain", [](int n) { return "var a = 1; var o = object(); a = 1" + rep(" + 1", n) + ";"; }, true},
    {"field chain", [](int n) { return "function f() { var o = object(); o" + rep(".x", n) + "; }"; }, true},
    {"index chain", [](int n) { return "function f() { var o = object(); o" + rep("[1]", n) + "; }"; }, true},
    {"call chain", [](int n) { return "function f() { var o = object(); o" + rep("()", n) + "; }"; }, true},
    {"method chain", [](int n) { return "function f() { var o = object(); o" + rep("->m()", n) + "; }"; }, true},
    {"else if chain", [](int n) { return "var a; if(a) a = 1; " + rep("else if(a) a = 1; ", n); }, true},
    // nesting: may be refused beyond a limit, but must be accepted below it
    {"parentheses", [](int n) { return "var a = " + rep("(", n) + "1" + rep(")", n) + ";"; }, true},
    {"negations", [](int n) { return "var a = " + rep("- ", n) + "1;"; }, true},
    {"nots", [](int n) { return "var a = 1; a = " + rep("!", n) + "a;"; }, true},
    {"blocks", [](int n) { return rep("{", n) + " var a = 1; " + rep("}", n); }, true},
    {"ifs", [](int n) { return "var a = 1; " + rep("if(a) ", n) + "a = 2;"; }, true},
    {"ifs with else", [](int n) { return "var a = 1; " + rep("if(a) { ", n) + "a = 2;" + rep("} else a = 3;", n); }, true},
    {"whiles", [](int n) { return "var a = 1; " + rep("while(a) ", n) + "a = 0;"; }, true},
    {"dos", [](int n) { return "var a = 1; " + rep("do ", n) + "a = 0;" + rep(" while(0);", n); }, true},
    {"fors", [](int n) { return "var a = 1; " + rep("for(a = 0; a; a = 1) ", n) + "a = 0;"; }, true},
    {"functions in functions", [](int n) { return rep("function f() { ", n) + "return 1; " + rep("}", n); }, true},
    {"function values", [](int n) { return "var a = " + rep("function() { return ", n) + "1" + rep("; }", n) + ";"; }, true},
    {"calls in arguments", [](int n) { return rep("print(", n) + "1" + rep(")", n) + ";"; }, true},
    {"indices in indices", [](int n) { return "function f() { var o = object(); o" + rep("[o", n) + rep("]", n) + "; }"; }, true},
    {"right operands", [](int n) { return "var a = " + rep("1 + (", n) + "1" + rep(")", n) + ";"; }, true},
    {"fields of parentheses", [](int n) { return "function f() { var o = object(); " + rep("(", n) + "o" + rep(").x", n) + "; }"; }, true},
    {"built-in operators", [](int n) { return "var a = " + rep("len(", n) + "\"x\"" + rep(")", n) + ";"; }, true},
    // unbalanced and endless input: rejected
    {"open parentheses", [](int n) { return "var a = " + rep("(", n + 1); }, true},
    {"increments of increments", [](int n) { return "var a = 1; " + rep("++", n + 1) + "a;"; }, true},
    {"postfix increments of increments", [](int n) { return "var a = 1; a" + rep("++", n + 1) + ";"; }, true},
    {"open brackets", [](int n) { return "var o; o" + rep("[", n + 1); }, true},
    {"open braces", [](int n) { return rep("{", n + 1); }, true},
    {"closing braces", [](int n) { return rep("}", n + 1); }, false},
    {"open functions", [](int n) { return rep("function f(", n + 1); }, true},
    {"dangling operators", [](int n) { return "var a = 1 " + rep("+ ", n + 1); }, false},
    {"dangling ifs", [](int n) { return rep("if(1) ", n + 1); }, true},
    {"open calls", [](int n) { return rep("print(", n + 1); }, true},
    {"commas", [](int n) { return "print(1" + rep(",", n + 2) + "1);"; }, false},
    {"dots", [](int n) { return "var o; o" + rep(".", n + 2) + "x;"; }, false},
    {"unknown names", [](int n) { return rep("nosuch = 1; ", n + 1); }, false},
    {"open string", [](int n) { return "var a = \"" + rep("x", n); }, false},
    {"open string ending in an escape", [](int n) { return "var a = \"" + rep("\\", n * 2 + 1); }, false},
    {"bad characters", [](int n) { return rep("@", n + 1); }, false},
    {"bad directives", [](int n) { return rep("#bad\n", n + 1); }, false},
};

static bool sizedSlow(int k) { static const vector<string> V = {"pieces of a string", "statements", "globals", "locals", "functions", "parameters", "blocks in a row", "ifs in a row", "loops in a row", "returns", "breaks", "distinct literals", "file directives"}; return std::find(V.begin(), V.end(), SHAPES[k].name) != V.end(); }
static void sized(Case &c, int k, int n, int cap) {
    const Shape &s = SHAPES[k];
    if(n > cap && sizedSlow(k)) return; // quadratic
    bool good = string(s.name) != "open parentheses";
    int firstBad = 0; while(string(SHAPES[firstBad].name) != "open parentheses") firstBad++;
    good = k < firstBad;
    c.desc("%s, %d times", s.name, n);
    // below the compiler's recursion limit (a statement nested in a block costs at most a few levels) everything is accepted
    Want w = !good ? REJECT : !s.nests || n <= 25 ? ACCEPT : EITHER;
    bool ok = compileOnce(c, s.gen(n), w, "unbalanced or meaningless input");
    if(good && s.nests && !ok) c.note(nLimit);
    c.state(k * 1000003ull + n); c.nontrivial(k * 10000000ull + n);
}
// Whatever is accepted at a size is accepted at every smaller one.
static void monotone(Case &c, int k, int max) {
    const Shape &s = SHAPES[k]; bool prev = true; int flips = 0, at = 0;
    c.desc("%s, 1 to %d times", s.name, max);
    for(int n = 1; n <= max; n++) { Light l; bool ok = nkxCompilerCompileScript(l.cs, s.gen(n).c_str(), "t.nks"); l.done(c); if(ok != prev) { flips++; at = n; prev = ok; } c.trans(); }
    if(flips > 1 || (flips == 1 && prev)) c.fail("accepted and rejected alternately with growing size (last change at %d)", at);
    if(flips) c.note(nLimit);
    c.trace(max); c.nontrivial(k);
}
// -- many statements of one form in a row: none of them nests in another, so any number is fine --
static const vector<string> ROW = {
    ";", "a;", "1;", "\"s\";", "nil;", "a = 1;", "a = (b = 1);", "a++;", "--a;", "a = -a;", "a = !a;", "a = (a);", "a = ((1 + a) * 2);", "a = a + 1 * 2 % 3;", "a = a < 1 && b == 2 || 3;",
    "{ }", "{ ; }", "{ var x = 1; }", "{ { { a; } } }", "if(a) b = 1;", "if(a) { b = 1; }", "if(a) b = 1; else a = 1;", "if(a) { } else { }", "if(a) a = 1; else if(b) b = 1; else a = b;",
    "while(a) { a = 0; }", "while(a) break;", "while(a) { break; }", "while(a) { if(b) { break; } else { a = 0; } }", "do { } while(0);", "do { a = 0; } while(a);", "do { break; } while(1);", "do { if(a) break; } while(b);",
    "for(a = 0; a < 1; a++) b = 1;", "for(var i = 0; i < 1; i++) { b = i; }", "for(var i = 0; i < 1; i++) { break; }", "for(a = 0; a; a++) { for(b = 0; b; b++) { break; } break; }",
    "print();", "print(a);", "print(a, b, 1);", "print(print(1), print(2));", "a = print(a);", "print(function() { });", "a = function(x) { return x; };", "a = function(x, y) { if(x) { return y; } return; };",
    "o.x = 1;", "o.x.y = 1;", "o[1] = 2;", "o[a] = o[b];", "o[o[1]] = o.x;", "o->m();", "o->m(1, a);", "a = o->m(1)->n(2).x[3];", "o.x();", "o[1](2);", "o.x++;", "++o[1];", "a = object();", "a = len(\"x\");", "a = len(o) + len(o);",
    "a = coroutine(a, 1);", "a = yield(1);", "a = resume(b, 2);", "a = is_finished(b);", "yield(a);", "a = \"x\" \"y\";", "a = 1.5;", "// c", "#line 3", "#file \"g\"",
};
static const vector<std::pair<string, string>> ROWIN = {{"var a; var b; var o;\n", ""}, {"function f(a, b, o) {\n", "}"}, {"var a; var b; var o; while(a) {\n", "break; }"}, {"var a; var b; var o; for(var q = 0; q < 1; q++) { if(q) {\n", "} else {\n} }"}, {"var a; var b; var o; var f = function() { do {\n", "return 1; } while(0); };"}};
static lang::Result rowOne(size_t form, size_t in) { lang::Options o; o.compileOnly = true; o.nativeNames = {"print"}; return lang::run((ROWIN[in].first + ROW[form] + "\n" + ROWIN[in].second).c_str(), o); } // one of them decides
static void row(Case &c, size_t form, size_t in, int n, bool mixed) {
    lang::Result r = rowOne(form, in);
    if(r.lenient || r.unspecified.size()) { c.note(nLenient); return; }
    vector<size_t> use = {form};
    if(mixed) for(size_t k = 1; k < 6; k++) { lang::Result x = rowOne((form + k * 7) % ROW.size(), in); if(x.compiled && !x.lenient && x.unspecified.empty()) use.push_back((form + k * 7) % ROW.size()); }
    string body; for(int k = 0; k < n; k++) body += ROW[use[k % use.size()]] + "\n";
    c.desc("%d x '%s'%s within '%s'", n, ROW[form].c_str(), mixed ? " and other statements" : "", ROWIN[in].first.c_str());
    compileOnce(c, ROWIN[in].first + body + ROWIN[in].second, r.compiled ? ACCEPT : REJECT, r.why);
    c.state(form * 1000 + in); c.nontrivial(form * 100000 + in * 10000 + n * 2 + mixed);
}
// -- script files -------------------------------------------------------------------------------------------------
static void file(Case &c, int kind, int k) {
    static const vector<string> T = {"", "var a = 1; print(a);", "var a = ;", "print(1);\n", "// only a comment", "var a = \"\xc3\xa9\";", "\"unterminated", "{", "print(1);\r\nprint(2);\r\n", "nosuch();", "1 / 0;", string("var a = 1;\0garbage(", 20), "\xef\xbb\xbfvar a = 1;"};
    char dir[] = "/tmp/nkvfile.XXXXXX"; if(!mkdtemp(dir)) return;
    string path = string(dir) + "/s.nks", src = T[k];
    static const char *KN[] = {"a file", "a missing file", "a directory", "a missing directory", "an empty name", "an unreadable path", "a large file"};
    c.desc("%s, text %d", KN[kind], k);
    Light l; bool expectRead = kind == 0 || kind == 6;
    if(kind == 6) src += rep("\n", 70000);
    if(expectRead) { FILE *f = fopen(path.c_str(), "wb"); fwrite(src.data(), 1, src.size(), f); fclose(f); }
    string name = expectRead ? path : kind == 1 ? path : kind == 2 ? string(dir) : kind == 3 ? path + "/x/y" : kind == 4 ? "" : string(dir) + "/" + rep("n", 5000);
    bool ok = nkxCompilerCompileScriptFile(l.cs, name.c_str());
    if(ok == (bool)nkxVmHasErrors(l.vm)) c.fail("returned %d with %u errors", (int)ok, nkxGetErrorCount(l.vm));
    if(!expectRead && ok) c.fail("compiled %s", KN[kind]);
    string e = l.errors();
    if(expectRead) {
        Light m; bool ok2 = nkxCompilerCompileScript(m.cs, src.c_str(), path.c_str());
        if(ok != ok2 || m.errors() != e) c.fail("from a file: %d '%s', from memory: %d '%s'", (int)ok, e.c_str(), (int)ok2, m.errors().c_str());
        auto run = [](Light &x) { NKCompilerState *cs = x.cs; x.cs = nullptr; nkxCompilerFinalize(cs); nkxVmExecuteProgram(x.vm); return strf("%d ", x.prints) + x.errors(); };
        string a = run(l), b = run(m);
        if(a != b) c.fail("running it: '%s' from a file, '%s' from memory", a.c_str(), b.c_str());
        m.done(c);
    }
    l.done(c);
    unlink(path.c_str()); rmdir(dir);
    c.trace(); c.nontrivial(kind * 100 + k); c.state(hashStr(e));
}

void define(Registry &r) {
    bool th = r.thorough();
    r.level = "model_checking";
    r.rule = "all byte strings and token strings within the bounds in several contexts, all truncations and single-token deletions, duplications, replacements, insertions and exchanges of the corpus programs: accepted if and only if the independent recogniser of the grammar and the static rules accepts, errors if and only if rejected, nothing runs after a rejection, all memory returned; everything that can repeat or nest, at all sizes of a range and at large ones";
    nStrict = r.noteName("compared_strictly"); nLenient = r.noteName("acceptance_unspecified"); nLimit = r.noteName("refused_for_nesting");
    // 1. bytes
    r.add("bytes", 1 + 255 + 255 * 255, [](uint64_t i, Case &c) { string s; if(i > 255) { i -= 256; s += char(1 + i / 255); s += char(1 + i % 255); } else if(i) s += char(i); text(c, s); });
    static const string CH = "a1.\"\\(){}[];=+-/#\n,<!&|n t_\x80\xff@'";
    uint64_t B = CH.size();
    r.add("characters", ipow(B, 3) * 2, [B](uint64_t i, Case &c) { Idx d(i); bool in = d.pick(2); string s; for(int k = 0; k < 3; k++) s += CH[d.pick(B)]; text(c, in ? "var a; a = " + s + ";" : s); });
    if(th) r.add("characters4", ipow(B, 4), [B](uint64_t i, Case &c) { Idx d(i); string s; for(int k = 0; k < 4; k++) s += CH[d.pick(B)]; text(c, "var a; a = 1" + s + ";"); });
    static const string SC = "x\\n\"t\n\rq"; // inside string literals and directives
    r.add("strings", seqCount(SC.size(), th ? 6 : 5) * 3, [](uint64_t i, Case &c) { Idx d(i); int k = d.pick(3); string s; for(int x : seqDecode(d.v, SC.size())) s += SC[x]; text(c, k == 0 ? "var a = \"" + s + "\"; print(a);" : k == 1 ? "var a = \"" + s : "#file \"" + s + "\"\nvar a;"); });
    static const vector<string> DW = {"line", "file", "1", "0", "99999999999", "\"f\"", "\"", "-1", "x", "//", "\r", "#", "1.5", "+"};
    r.add("directives", (1 + seqCount(DW.size(), 4)) * 3, [](uint64_t i, Case &c) { Idx d(i); int k = d.pick(3); string s = "#"; if(d.v) for(int x : seqDecode(d.v - 1, DW.size())) s += DW[x] + " "; text(c, k == 0 ? s : k == 1 ? s + "\nvar a = 1;" : "var a = 1; " + s + "\nprint(a);"); });
    static const string NC = "019.x-";
    r.add("numbers", seqCount(NC.size(), th ? 7 : 5) * 2, [](uint64_t i, Case &c) { Idx d(i); int k = d.pick(2); string s; for(int x : seqDecode(d.v, NC.size())) s += NC[x]; text(c, k ? "print(" + s + ");" : "var x; x = " + s + ";"); });
    // 2. tokens
    uint64_t T = TOK.size(), S = th ? SMALL.size() : 20;
    r.add("tokens", (1 + seqCount(T, 2)) * CTX.size(), [](uint64_t i, Case &c) { Idx d(i); auto &x = CTX[d.pick(CTX.size())]; text(c, x.first + (d.v ? join(seqDecode(d.v - 1, TOK.size()), TOK) : "") + x.second); });
    static const int C3[] = {0, 1, 3, 5, 7, 10};
    int n3 = th ? 6 : 3;
    r.add("tokens3", ipow(T, 3) * n3, [T, n3](uint64_t i, Case &c) { Idx d(i); auto &x = CTX[C3[d.pick(n3)]]; vector<int> s; for(int k = 0; k < 3; k++) s.push_back(d.pick(T)); text(c, x.first + join(s, TOK) + x.second); if(i % 50021 == 0) c.sample(x.first + join(s, TOK) + x.second); });
    r.add("tokens4", ipow(S, 4) * (th ? 2 : 1), [S](uint64_t i, Case &c) { Idx d(i); vector<int> s; for(int k = 0; k < 4; k++) s.push_back(d.pick(S)); text(c, d.v ? "var a; { " + join(s, SMALL) + "}" : "var a = object(); a = " + join(s, SMALL) + ";"); });
    if(th) r.add("tokens5", ipow(S, 5), [S](uint64_t i, Case &c) { Idx d(i); vector<int> s; for(int k = 0; k < 5; k++) s.push_back(d.pick(S)); text(c, "var a; var b; " + join(s, SMALL)); });
    // 3. edits of programs
    static vector<vector<string>> PT; PT.clear(); static vector<string> names; names.clear();
    for(auto &p : corpus::all()) if(p.flags & corpus::PURE) { string s = p.src; for(const char *n : {"gc(", "error(", "call(", "str("}) { size_t at; while((at = s.find(n)) != string::npos) s.replace(at, strlen(n), "print("); } if(s.find("gc") != string::npos || s.find("call") != string::npos || s.find("str)") != string::npos) continue; PT.push_back(tokens(s)); names.push_back(p.name); }
    PT.push_back(tokens("#file \"x.nks\"\n#line 7\nvar a = function(x, y) { if(x === y) return -x; else { do { x--; } while(x > 0); } for(var i = 0; i < 3; ++i) { a[i]->m(x, !y); break; } };\n// end\nvar b = a(1, 2.5)[\"k\" \"l\"].f;")); names.push_back("all forms");
    for(size_t p = 0; p < PT.size(); p++) {
        size_t len = cat(PT[p]).size();
        r.add("cut/" + names[p], len + 1, [p](uint64_t i, Case &c) { text(c, cat(PT[p]).substr(0, i)); });
        uint64_t n = PT[p].size();
        static const vector<string> R = {"", "a", "1", "\"s\"", "(", ")", "{", "}", "[", "]", ";", ",", "=", "+", ".", "->", "++", "var ", "function ", "return ", "if", "else ", "while", "for", "break", "!", "object", "nil", "\"", "#", "\n"};
        // replace (nothing: delete), insert, duplicate, exchange with the next; quick: every third replacement by index
        r.add("edit/" + names[p], n * R.size() * 2, [p, n, th](uint64_t i, Case &c) {
            Idx d(i); int ins = d.pick(2); size_t k = d.pick(n), w = d.pick(R.size());
            auto v = PT[p];
            if(isspace((unsigned char)v[k][0]) && !ins) return;
            if(!th && (k + w) % 3 && w) return;
            if(!ins) v[k] = w ? " " + R[w] + " " : ""; else if(w) v[k] += " " + R[w] + " "; else v[k] += " " + v[k];
            text(c, cat(v));
        });
        r.add("swap/" + names[p], n, [p, n](uint64_t i, Case &c) { auto v = PT[p]; size_t j = i + 1; while(j < n && isspace((unsigned char)v[j][0])) j++; if(j >= n) return; std::swap(v[i], v[j]); v[i] += " "; v[j] = " " + v[j] + " "; text(c, cat(v)); });
    }
    // 4. sizes
    static vector<int> N; N.clear();
    for(int i = 1; i <= (th ? 700 : 40); i++) N.push_back(i);
    for(int i : {63, 64, 65, 100, 126, 127, 128, 129, 200, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 300, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 4000, 10000}) if(i > N.back()) N.push_back(i);
    r.add("size", SHAPES.size() * N.size(), [th](uint64_t i, Case &c) { sized(c, i % SHAPES.size(), N[i / SHAPES.size()], th ? 30000 : 4000); });
    static const vector<int> BIG = {30000, 66000, 100000}; static const vector<int> BIGT = {30000, 65535, 65536, 65537, 100000, 300000, 1000000};
    r.add("huge", SHAPES.size() * (th ? BIGT : BIG).size(), [th](uint64_t i, Case &c) { sized(c, i % SHAPES.size(), (th ? BIGT : BIG)[i / SHAPES.size()], th ? 30000 : 4000); }).cpuSeconds = 300;
    r.add("monotone", SHAPES.size(), [th](uint64_t i, Case &c) { monotone(c, i, th ? 600 : 300); }).cpuSeconds = 120;
    static const vector<int> RN = th ? vector<int>{2, 100, 128, 254, 255, 256, 257, 258, 300, 512, 600, 1100} : vector<int>{2, 128, 256, 257, 600};
    r.add("rows", ROW.size() * ROWIN.size() * RN.size() * 2, [](uint64_t i, Case &c) { Idx d(i); bool m = d.pick(2); size_t f = d.pick(ROW.size()), in = d.pick(ROWIN.size()); row(c, f, in, RN[d.pick(RN.size())], m); });
    // 5. files
    r.add("file", 7 * 13, [](uint64_t i, Case &c) { file(c, i % 7, i / 7); });
    r.bounds = strf("all byte strings to length 2, all strings of 3 of %llu characters in 2 contexts, string bodies to length %d, directive words to 4, numbers to length %d; all token strings to length 2 in %zu contexts, length 3 in %d, length 4 over %llu tokens; all truncations and single-token edits of %zu programs; %zu repeated or nested forms at %zu sizes up to %d (forms of quadratic cost to %d); %zu statement forms in %zu contexts at %zu numbers in a row; 91 script file situations", (unsigned long long)B, th ? 6 : 5, th ? 7 : 5, CTX.size(), n3, (unsigned long long)S, PT.size(), SHAPES.size(), N.size() + (th ? BIGT : BIG).size(), (th ? BIGT : BIG).back(), th ? 30000 : 4000, ROW.size(), ROWIN.size(), RN.size());
    r.assumptions = {"trailing commas in lists are accepted or rejected at the implementation's discretion", "nesting of up to 25 levels of any construct, and chains of up to 25 operators or arguments, are below the compiler's limit"};
}
