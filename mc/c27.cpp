// uses: corpus.cpp
// program: interp/main.c nk_interpreter_main
// C27: the command-line interpreter. Its main() runs in-process on substituted standard streams; every session (arguments, files,
// input lines) is compared with a host that embeds the library as documented and has its own versions of the four natives.
#include "corpus.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/stat.h>
using namespace mc;
using std::string;
using std::vector;
extern "C" int nk_interpreter_main(int argc, char *argv[]);

// -- scratch files ----------------------------------------------------------------------------------------------------------
static const string &dir() { scratch(); mkdir("dir", 0755); static string d = "."; return d; }
static string P(const char *n) { dir(); return n; }
static void put(const char *name, const string &content) { FILE *f = fopen(P(name).c_str(), "wb"); if(!f) abort(); fwrite(content.data(), 1, content.size(), f); fclose(f); }

// -- one session of the real program --------------------------------------------------------------------------------------------
struct Out { string out, err; int rc = 0; };
struct Input { const string *s; size_t pos; };
static ssize_t inRead(void *k, char *b, size_t n) { Input *i = (Input *)k; size_t m = std::min(n, i->s->size() - i->pos); memcpy(b, i->s->data() + i->pos, m); i->pos += m; return m; }
static ssize_t outWrite(void *k, const char *b, size_t n) { string *s = (string *)k; if(s->size() < (1u << 20)) s->append(b, n); return n; }
static Out session(const vector<string> &args, const string &in) {
    Out o; Input i{&in, 0};
    cookie_io_functions_t r; memset(&r, 0, sizeof r); r.read = inRead; cookie_io_functions_t w; memset(&w, 0, sizeof w); w.write = outWrite;
    FILE *si = stdin, *so = stdout, *se = stderr;
    FILE *ni = fopencookie(&i, "r", r), *no = fopencookie(&o.out, "w", w), *ne = fopencookie(&o.err, "w", w);
    vector<string> a; a.push_back("ninkasi"); a.insert(a.end(), args.begin(), args.end());
    vector<char *> v; for(auto &x : a) v.push_back(&x[0]); v.push_back(nullptr);
    stdin = ni; stdout = no; stderr = ne;
    o.rc = nk_interpreter_main((int)a.size(), v.data());
    stdin = si; stdout = so; stderr = se;
    fclose(ni); fclose(no); fclose(ne);
    return o;
}
// -- the reference: the documented embedding ------------------------------------------------------------------------------------
static string *gOut;
static void oPrint(NKVMFunctionCallbackData *d) { for(nkuint32_t i = 0; i < d->argumentCount; i++) *gOut += nkxValueToString(d->vm, &d->arguments[i]); }
static void oAscii(NKVMFunctionCallbackData *d) {
    string s = nkxValueToString(d->vm, &d->arguments[0]); long i = nkxValueToInt(d->vm, &d->arguments[1]);
    if(i < 0 || i >= (long)s.size()) { nkxAddError(d->vm, "String ASCII index out of range!"); return; }
    nkxValueSetString(d->vm, &d->returnValue, s.substr(i, 1).c_str());
}
static void oLen(NKVMFunctionCallbackData *d) { string s = nkxValueToString(d->vm, &d->arguments[0]); nkxValueSetInt(d->vm, &d->returnValue, (int)s.size()); }
static bool slurp(const string &n, string &s) {
    struct stat st; if(stat(n.c_str(), &st) || S_ISDIR(st.st_mode)) return false;
    FILE *f = fopen(n.c_str(), "rb"); if(!f) return false;
    int c; while((c = getc(f)) != EOF) s += (char)c;
    fclose(f); return true;
}
static bool gLoadFailed;
static void oLoad(NKVMFunctionCallbackData *d) {
    string s, n = nkxValueToString(d->vm, &d->arguments[0]);
    if(!slurp(n, s)) { gLoadFailed = true; nkxAddError(d->vm, "Cannot open file."); return; }
    nkxValueSetString(d->vm, &d->returnValue, s.c_str());
}
static string errText(NKVM *vm) { if(!nkxVmHasErrors(vm)) return ""; vector<char> b(nkxGetErrorLength(vm) + 1, 0); nkxGetErrorText(vm, b.data()); return b.data(); }
static void setup(NKVM *vm, NKCompilerState *cs) {
    nkxVmSetupExternalFunction(vm, cs, "print", oPrint, nktrue, NK_INVALID_VALUE);
    nkxVmSetupExternalFunction(vm, cs, "stringGetASCII", oAscii, nktrue, 2, NK_VALUETYPE_STRING, NK_VALUETYPE_INT);
    nkxVmSetupExternalFunction(vm, cs, "stringGetLengthASCII", oLen, nktrue, 1, NK_VALUETYPE_STRING);
    nkxVmSetupExternalFunction(vm, cs, "loadFile", oLoad, nktrue, 1, NK_VALUETYPE_STRING);
}
static Out script(const string &path) {
    Out o; gOut = &o.out; string text;
    if(!slurp(path, text)) { o.rc = 1; o.err = "?"; return o; }
    NKVM *vm = nkxVmCreate(); NKCompilerState *cs = nkxCompilerCreate(vm); setup(vm, cs);
    nkxCompilerCompileScript(cs, text.c_str(), path.c_str());
    nkxCompilerFinalize(cs);
    if(!nkxVmHasErrors(vm)) nkxVmIterate(vm, NK_UINT_MAX);
    o.err = errText(vm); o.rc = o.err.empty() ? 0 : 1;
    nkxVmDelete(vm);
    return o;
}
static Out repl(const string &in, int *prompts = nullptr) {
    Out o; gOut = &o.out;
    NKVM *vm = nkxVmCreate(); NKCompilerState *cs = nkxCompilerCreate(vm); setup(vm, cs);
    for(size_t pos = 0;;) {
        o.out += "\n>>> ";
        if(prompts) ++*prompts;
        if(pos >= in.size()) { o.out += "\n"; break; }
        size_t e = in.find('\n', pos); e = e == string::npos ? in.size() : e + 1;
        string line = in.substr(pos, e - pos); pos = e;
        nkuint32_t w = nkxCompilerGetInstructionWriteIndex(cs);
        nkxCompilerCompileScript(cs, line.c_str(), "<stdin>");
        if(!nkxVmHasErrors(vm)) { nkxCompilerPartiallyFinalize(cs); nkxVmIterate(vm, NK_UINT_MAX); }
        if(nkxVmHasErrors(vm)) { o.err += "error:\n" + errText(vm) + "\n"; nkxCompilerClearReplErrorState(cs, w); }
    }
    nkxCompilerFinalize(cs);
    nkxVmDelete(vm);
    return o;
}
// -- comparison -----------------------------------------------------------------------------------------------------------------
static string show(const vector<string> &args, const string &in) { string s = "ninkasi"; for(auto &a : args) s += " " + (a.empty() ? string("\"\"") : a); return s + (in.empty() ? "" : " <<< '" + esc(in.size() > 600 ? in.substr(0, 300) + "..." + in.substr(in.size() - 60) : in) + "'"); }
static int64_t gLive0;
static Out both(Case &c, const vector<string> &args, const string &in, const string &what = "") {
    dir();
    c.descs(what + (what.empty() ? "" : "\n") + show(args, in));
    int64_t live = gRawLive;
    Out o = session(args, in);
    if(gRawLive != live) c.fail("%lld blocks not returned", (long long)(gRawLive - live));
    c.trace(); c.trans(); c.state(hashStr(o.out + "\1" + o.err)); c.nontrivial(hashStr(show(args, in) + what)); c.outcome(strf("exit %d, %s output, %s errors", o.rc, o.out.empty() ? "no" : "some", o.err.empty() ? "no" : "some"));
    return o;
}
static void runScript(Case &c, const string &content) {
    put("a", content);
    string p = P("a");
    Out o = both(c, {p}, "", "file of " + std::to_string(content.size()) + " bytes: " + esc(content.size() > 700 ? content.substr(0, 300) + "..." + content.substr(content.size() - 300) : content)), e = script(p);
    if(o.out != e.out) c.fail("printed '%s' instead of '%s'", esc(o.out).c_str(), esc(e.out).c_str());
    if(o.rc != e.rc) c.fail("exit status %d instead of %d", o.rc, e.rc);
    if(o.err.empty() != e.err.empty()) c.fail("errors '%s' instead of '%s'", esc(o.err).c_str(), esc(e.err).c_str());
    else if(o.err.find(e.err) == string::npos) c.fail("the error text '%s' does not contain '%s'", esc(o.err).c_str(), esc(e.err).c_str());
}
static void runRepl(Case &c, const string &in) {
    Out o = both(c, {}, in), e = repl(in);
    if(o.out != e.out) c.fail("printed '%s' instead of '%s'", esc(o.out).c_str(), esc(e.out).c_str());
    if(o.rc) c.fail("exit status %d", o.rc);
    if(o.err != e.err) c.fail("errors '%s' instead of '%s'", esc(o.err).c_str(), esc(e.err).c_str());
}
// -- material -------------------------------------------------------------------------------------------------------------------
static const char *PIECE[] = {
    "print(1);", "print(\"a\", 2.5, nil, \"\\n\");", "var x = 3;", "print(x);", "x = x + 1;", "function f(a) { print(\"f\", a); return a * 2; }", "print(f(4));", "f(1, 2);", "print(y);", "var x = 9;",
    "var o = object(); o.a = 1; print(o.a, o[\"b\"]);", "print(\"\\n\");", "+;", "\"unterminated", "print(1 / 0); print(9);", "var i; for(i = 0; i < 3; i++) { print(i); }", "nil + 1;", "print(stringGetLengthASCII(\"abc\"));",
    "print(stringGetASCII(\"abc\", 1));", "stringGetASCII(\"abc\", 3);", "print(loadFile(\"/nonexistent/x\"));", "var c = coroutine(f, 1);", "print(resume(c));", "while(x < 5) { x = x + 1; print(x); }", "", " ", "// comment", "{ var q = 1; print(q); }",
    "print(q);", "function g() { return h(); }", "return 1;", "break;", "var a = f; print(a(1));", "o.m = f; o.m(5);", "#file \"other\"", "print(\"\xc3\xa9\");", "stringGetASCII(1, 1);", "print();", "{", "}", "error(\"x\");", "function f(a) { return a; }"};
static const int NPIECE = sizeof PIECE / sizeof *PIECE;
static const char *ENDL[] = {"\n", "\r\n", " ", ""};
static string sized(uint64_t n, int kind) { // exactly n bytes
    static const string tail = "print(7);";
    string s;
    switch(kind) {
    case 0: s = string(n, ' '); break;                                                       // blank
    case 1: s = n < tail.size() ? tail.substr(0, n) : string(n - tail.size(), ' ') + tail; break;
    case 2: s = n < 10 ? string(n, ';') : "print(\"" + string(n > 10 ? n - 10 : 0, 'x') + "\");"; s.resize(n, ' '); break;
    case 3: s = n < 2 ? string(n, '/') : "//" + string(n - 2, 'c'); break;
    case 4: s = string(n, '(') ; break;
    default: s = n < tail.size() ? string(n, '\n') : tail + string(n - tail.size(), '\n'); break;
    }
    return s;
}
static const char *VALS[] = {"0", "-1", "2147483647", "0.5", "-3.25", "1000000.0", "\"\"", "\"a\"", "\"two words\\n\"", "\"%d %s %n\"", "nil", "print", "f", "1 == 1"};
static const int NVALS = 14;
static const char *STRS[] = {"", "a", "ab", "abc", "\\n", "%s", "\xff\x01", "\xc3\xa9", "0123456789", "x\\\"y", "a b c d e f g h"};
static const int NSTRS = 11;
static const char *INDEXES[] = {"-2147483648", "-2", "-1", "0", "1", "2", "3", "4", "9", "10", "15", "2147483647", "0.0", "nil", "\"0\"", "0 - 1"};
static const int NINDEXES = 16;
static string fileBody(int k) {
    switch(k) {
    case 0: return ""; case 1: return "x"; case 2: return "line\n"; case 3: return string("a\0b", 3); case 4: return "%s%n\r\n\"quoted\"";
    case 5: return string("\0", 1); case 6: return string(4095, 'y') + "z"; case 7: return string(4096, 'y') + "z"; case 8: return string(100000, 'y') + "z";
    default: return string(k - 9, 'q'); }
}
// -- allocation failures -----------------------------------------------------------------------------------------------------------
struct Sess { vector<string> args; string in, file, out; uint64_t calls; };
static vector<Sess> &sessions() {
    static vector<Sess> v;
    if(v.empty()) {
        auto add = [&](bool script, const string &s) { Sess x; if(script) { x.args = {P("a")}; x.file = s; } else x.in = s; x.calls = 0; v.push_back(x); };
        add(true, "print(1);"); add(true, "var o = object(); o.a = \"s\" + 1; print(o.a, 2.5, \"\\n\"); print(stringGetLengthASCII(o.a), stringGetASCII(o.a, 0));");
        add(true, "print(loadFile(\"" + dir() + "/b\"));"); add(true, "+ nil;"); add(true, "nil * 1;"); add(true, sized(300, 2)); add(true, ""); add(true, "function f(a) { yield(a); return 2; } var c = coroutine(f, 3); print(resume(c), resume(c));");
        add(true, "stringGetASCII(\"a\", 2);"); add(true, "print(loadFile(\"/nonexistent/x\"));");
        add(false, ""); add(false, "print(1);\n"); add(false, "var x = 1;\nprint(x);\n"); add(false, "+;\nprint(2);\nnil * 1;\nprint(\"s\" + 3);\n"); add(false, sized(300, 2) + "\nprint(3);\n"); add(false, "function f(a) { return a; }\nprint(f(1), f(\"b\"));\nprint(stringGetLengthASCII(\"abc\"), stringGetASCII(\"abc\", 1));\n");
    }
    return v;
}
static void faulty(Case &c, Sess &s, int64_t at, bool persistent) {
    if(!s.file.empty() || !s.args.empty()) put("a", s.file);
    put("b", "contents");
    c.descs(show(s.args, s.in) + (s.args.empty() ? "" : " with '" + esc(s.file.substr(0, 300)) + "'") + strf(" allocation %lld%s fails", (long long)at, persistent ? " and every later one" : ""));
    gRawCalls = 0; gRawFailed = 0; int64_t live = gRawLive;
    gRawFailAt = at; gRawPersistent = persistent;
    Out o = session(s.args, s.in);
    gRawFailAt = -1; gRawPersistent = false;
    if(gRawLive != live) c.fail("%lld blocks not returned", (long long)(gRawLive - live));
    c.trace(); c.trans(); c.state(hashStr(o.out + o.err)); c.nontrivial(hashStr(show(s.args, s.in) + s.file) + at * 2 + persistent);
    // Whatever is printed before the failure is noticed is what would have been printed. (Not being able to read another line, or to
    // format an error message, is not more than the end of that line.)
    string p = o.out; if(s.args.empty() && !p.empty() && p.back() == '\n') p.pop_back();
    if(s.out.compare(0, p.size(), p)) c.fail("printed '%s' instead of the beginning of '%s'", esc(o.out).c_str(), esc(s.out).c_str());
    if(gRawFailed) { if(!s.args.empty() && o.err.empty()) c.fail("no error reported"); if(!s.args.empty() && !o.rc) c.fail("exit status 0 after a failed allocation"); c.outcome(strf("exit %d", o.rc)); }
}
void define(Registry &r) {
    bool t = r.thorough();
    r.rule = "for every session the interpreter prints what a host embedding the library in the documented way prints, reports the same error text exactly if there is an error, exits with the matching status, returns all its memory and never crashes, also when an allocation fails";
    r.assumptions = {"the four natives of the reference host are written independently; standard streams are substituted inside one process", "what --help does after printing the usage text is unspecified"};
    int L = t ? 3 : 2;
    uint64_t seqs = seqCount(NPIECE, L);
    r.bounds = strf("files and sessions of up to %d lines over %d lines x %d line ends; files and lines of every length up to %d; every argument list of up to 3; every native x argument; every allocation of %d sessions", L, NPIECE, 4, t ? 2100 : 1100, 16);
    r.add("script", seqs * 4, [=](uint64_t i, Case &c) { Idx x(i); int e = x.pick(4); string s; for(int k : seqDecode(x.v, NPIECE)) s += string(PIECE[k]) + (e == 3 ? "\n" : ENDL[e]); if(e == 3) s.pop_back(); runScript(c, s); });
    r.add("repl", seqs * 4, [=](uint64_t i, Case &c) { Idx x(i); int e = x.pick(4); string s; for(int k : seqDecode(x.v, NPIECE)) s += string(PIECE[k]) + (e == 3 ? "\n" : ENDL[e]); if(e == 3) s.pop_back(); runRepl(c, s); });
    static const int CORE[] = {0, 2, 3, 4, 5, 6, 9, 12, 14, 16, 24, 28, 38, 39}; // lines that interact
    uint64_t n3 = seqCount(14, t ? 5 : 4);
    r.add("history", n3, [=](uint64_t i, Case &c) { string s; for(int k : seqDecode(i, 14)) s += string(PIECE[CORE[k]]) + "\n"; runRepl(c, s); });
    int N = t ? 2100 : 1100;
    r.add("size", (uint64_t)N * 6 * 2, [=](uint64_t i, Case &c) { Idx x(i); int k = x.pick(6); bool re = x.pick(2); uint64_t n = x.v; if(re) runRepl(c, "print(1);\n" + sized(n, k) + (n & 1 ? "\nprint(2);" : "")); else runScript(c, sized(n, k)); });
    r.add("nul", 64, [=](uint64_t i, Case &c) { Idx x(i); string s = PIECE[x.pick(4)]; s.insert(x.pick(2) ? s.size() : 0, 1, '\0'); if(x.pick(2)) s += "print(8);"; if(x.pick(2)) s += "\nprint(9);"; if(x.pick(2)) runScript(c, s); else runRepl(c, s); });
    static const char *ARG[] = {"a", "b", "c", "missing", "dir", "-x", "-", "d", ""};
    r.add("args", 1 + seqCount(9, 3), [=](uint64_t i, Case &c) {
        dir(); put("a", "print(\"good\");"); put("b", "+"); put("c", "print(1); nil * 1;"); put("d", "");
        vector<string> args; vector<int> ks; if(i) for(int k : seqDecode(i - 1, 9)) { ks.push_back(k); args.push_back(ARG[k][0] == '-' || !*ARG[k] ? string(ARG[k]) : P(ARG[k])); }
        Out o = both(c, args, "print(5);\n");
        bool bad = false; int files = 0, first = -1; // the first thing that is wrong ends it
        for(int k : ks) { if(k == 5 || k == 6) { bad = true; break; } if(files++) { bad = true; break; } first = k; }
        Out e;
        if(bad || first == 3 || first == 8) { e.rc = 1; e.err = "?"; }
        else if(first == 4) { if(!o.out.empty()) c.fail("a directory printed '%s'", esc(o.out).c_str()); return; } // not a script: what is said about it is open
        else if(first < 0) e = repl("print(5);\n"); else e = script(P(ARG[first]));
        if(o.rc != e.rc) c.fail("exit status %d instead of %d", o.rc, e.rc);
        if(o.out != e.out) c.fail("printed '%s' instead of '%s'", esc(o.out).c_str(), esc(e.out).c_str());
        if(o.err.empty() != e.err.empty()) c.fail("errors '%s'", esc(o.err).c_str()); });
    r.add("help", 2, [=](uint64_t i, Case &c) { dir(); put("a", "print(6);"); vector<string> a; a.push_back("--help"); if(i) a.push_back(P("a")); Out o = both(c, a, ""); if(o.out.find("Usage") == string::npos) c.fail("no usage text: '%s'", esc(o.out).c_str()); if(o.rc) c.fail("exit status %d", o.rc); });
    r.add("print", seqCount(NVALS, t ? 4 : 3) * 2, [=](uint64_t i, Case &c) { Idx x(i); bool re = x.pick(2); string s = "function f(a) { return a; } print("; bool f = true; for(int k : seqDecode(x.v, NVALS)) { s += (f ? "" : ", ") + string(VALS[k]); f = false; } s += ");"; if(re) runRepl(c, s + "\n"); else runScript(c, s); });
    r.add("ascii", (uint64_t)NSTRS * NINDEXES * 3, [=](uint64_t i, Case &c) { Idx x(i); int m = x.pick(3), n = x.pick(NINDEXES); string s = STRS[x.pick(NSTRS)], e = "stringGetASCII(\"" + s + "\", " + INDEXES[n] + ")"; string src = m == 0 ? "print(" + e + ", stringGetLengthASCII(\"" + s + "\"));" : m == 1 ? "var s = " + e + "; print(s, stringGetLengthASCII(s), s == \"a\");" : "print(stringGetLengthASCII(\"" + s + "\" + " + INDEXES[n] + "));"; runScript(c, src); });
    r.add("arity", 4 * 40, [=](uint64_t i, Case &c) { Idx x(i); static const char *FN[] = {"print", "stringGetASCII", "stringGetLengthASCII", "loadFile"}; static const char *A[] = {"", "1", "\"a\"", "nil", "\"a\", 0", "\"a\", 0, 0", "\"a\", \"b\"", "0, \"a\"", "object()", "print", "print, 1", "\"\"", "\"\", 0", "2.5, 1", "\"a\", 0.0", "1, 2, 3, 4, 5, 6, 7, 8, 9", "\"/\"", "\"x\", nil", "object(), 0", "loadFile"}; string s = FN[x.pick(4)]; s += "(" + string(A[x.pick(20)]) + ");"; if(x.pick(2)) s = "print(" + s.substr(0, s.size() - 1) + ");"; runScript(c, s); });
    int NF = t ? 1400 : 700;
    r.add("load", (uint64_t)NF * 3, [=](uint64_t i, Case &c) { Idx x(i); int m = x.pick(3); dir(); put("b", fileBody(x.v)); string p = P("b"); string s = m == 0 ? "print(loadFile(\"" + p + "\"));" : m == 1 ? "var s = loadFile(\"" + p + "\"); print(stringGetLengthASCII(s), s == loadFile(\"" + p + "\"));" : "var s = loadFile(\"" + p + "\") + \"!\"; print(stringGetASCII(s, stringGetLengthASCII(s) - 1));"; runScript(c, s); });
    r.add("loadbad", 8, [=](uint64_t i, Case &c) { static const string B[] = {"missing", "dir", "", "dir/", "b/x", "../missing", "nul", "x"}; dir(); put("b", "B"); string p = B[i].empty() ? "" : P(B[i].c_str()); runScript(c, "print(\"before\"); print(loadFile(\"" + p + "\")); print(\"after\");"); });
    auto &ss = sessions();
    for(size_t k = 0; k < ss.size(); k++) { // count the allocations
        if(!ss[k].args.empty()) put("a", ss[k].file); put("b", "contents");
        gRawCalls = 0; ss[k].out = session(ss[k].args, ss[k].in).out; ss[k].calls = gRawCalls;
    }
    for(size_t k = 0; k < ss.size(); k++) r.add("faults" + std::to_string(k), (ss[k].calls + 2) * 2, [=](uint64_t i, Case &c) { faulty(c, sessions()[k], i / 2, i & 1); });
}
