// uses: lang.cpp corpus.cpp
// C17: compiling in pieces and recovering from errors is equivalent to having compiled only what was good.
#include "corpus.h"
#include "lang.h"
#include <map>
using namespace mc;
using std::string;
using std::vector;

// ---- a host that feeds lines to the incremental compiler interface ----
struct Repl {
    Host h;
    bool ok;
    int slice; // 0: run each line in one go
    Repl(int slice = 0) : slice(slice) { ok = h.create() && h.compiler() && h.natives(); h.ran = true; }
    void execute() {
        if(!slice) { nkxVmIterate(h.vm, 200000); return; }
        for(int n = 0; n < 4000 && !nkxVmProgramHasEnded(h.vm) && !nkxVmHasErrors(h.vm); n++) nkxVmIterate(h.vm, slice);
    }
    // Returns the error text of the line ("" if it was fine). run=false: compile only.
    struct Line { bool compiled; string err; nkuint32_t count; };
    Line line(const string &src, bool run = true, const char *file = "line") {
        Line r;
        nkuint32_t idx = nkxCompilerGetInstructionWriteIndex(h.cs);
        r.compiled = nkxCompilerCompileScript(h.cs, src.c_str(), file);
        if(r.compiled && run) { nkxCompilerPartiallyFinalize(h.cs); execute(); }
        r.err = h.errors();
        r.count = nkxGetErrorCount(h.vm);
        if(nkxVmHasErrors(h.vm)) nkxCompilerClearReplErrorState(h.cs, idx);
        return r;
    }
    string globals(const vector<string> &names, bool viaCompiler) {
        string s;
        for(auto &n : names) {
            NKValue *v = nkxVmFindGlobalVariable(h.vm, viaCompiler ? h.cs : nullptr, n.c_str());
            if(!v) { s += n + "=? "; continue; }
            NKValue k = *v;
            s += n + "=" + h.repr(&k) + " ";
        }
        return s;
    }
    ~Repl() { if(h.cs && h.vm) { nkxCompilerFinalize(h.cs); h.cs = nullptr; } }
    void done(Case &c) { if(h.cs) { nkxCompilerFinalize(h.cs); h.cs = nullptr; } h.destroy(); for(auto &p : h.problems) c.fail("%s", p.c_str()); }
};
// What the rules say about a whole text.
struct Expect { bool compiled, error, skip; string out, globals, why; };
static Expect rules(const string &src, const vector<string> &names) {
    static std::map<string, Expect> memo;
    auto it = memo.find(src);
    if(it != memo.end()) return it->second;
    lang::Result r = lang::run(src);
    Expect e;
    e.compiled = r.compiled; e.error = r.error; e.skip = r.timeout || !r.unspecified.empty() || (r.lenient && !r.compiled);
    e.out = r.out; e.why = r.why;
    for(auto &n : names) { auto g = r.globals.find(n); e.globals += n + "=" + (g == r.globals.end() ? "?" : g->second) + " "; }
    if(memo.size() > 20000) memo.clear();
    return memo[src] = e;
}

// ---- lines ----
struct Ln { const char *src; const char *effect; }; // effect: what remains of the line if it fails while running
static const Ln LINES[] = {
    {"var a = 1;", ""}, {"var b = 10;", ""}, {"a = a + 1;", ""}, {"print(a);", ""}, {"print(a, b);", ""},
    {"function f(x) { return x + a; }", ""}, {"print(f(5));", ""}, {"var o = object(); o.k = a; o.f = f;", "var o = object(); o.k = a; o.f = f;"},
    {"o.k = o.k + 1; print(o.k);", ""}, {"print(o.f(3));", ""},
    {"function g(n) { if(n < 1) { return 0; } return g(n - 1) + n; } print(g(4));", ""},
    {"if(a > 1) { var t = a; a = t + b; } else { a = 5; }", ""}, {"for(var i = 0; i < 3; i = i + 1) { if(i == 2) { break; } a = a + i; }", ""},
    // rejected lines: syntax, unknown names, unfinished blocks, declarations before the fault
    {"var a2 = ;", ""}, {"nosuch = 1;", ""}, {"var c = 3; var d = nosuch;", ""}, {"function f2(x) { return y; }", ""}, {"function b(x) {", ""}, {"if(a) {", ""},
    {"{ var b = 1; {", ""}, {"}", ""}, {"while(1) { var z = 1; for(var y = 0; y < 1; y++) { break; ", ""}, {"\"open", ""}, {"a = a + 100; ) b;", ""}, {"return 1;", "return 1;"},
    {"break;", ""}, {"function c(q) { var d = q; while(d) { break break; } }", ""},
    // lines that fail while running
    {"a = a + 1; error(\"e1\"); a = 1000;", "a = a + 1;"}, {"var c = 3; nil + 1; var d = 4;", "var c = 3; var d;"}, {"print(1 / 0);", ""},
    {"function h(x) { a = a * 2; return x / 0; } function k(x) { return x * 3; } var e = h; h(1); a = 0;", "function h(x) { a = a * 2; return x / 0; } function k(x) { return x * 3; } var e = h; a = a * 2;"},
    {"print(k(7));", ""}, {"e(1);", "a = a * 2;"},
    {"function m() { return yield(1); } var co = coroutine(m); print(resume(co));", ""}, {"print(resume(co, 9));", ""}, {"print(c, d);", ""}, {"print(is_finished(co));", ""},
    {"function m2() { print(7); yield(1); nil.x; } var c2 = coroutine(m2); resume(c2);", ""}, {"resume(c2); a = 1000;", ""},
    {"error(\"x\"); error(\"y\");", ""}, {"if(1) { var b = 2; while(1) { for(var i = 0; 1; i = i + 1) { nil(); } } } a = 1000;", ""},
    {"", ""}, {"// nothing", ""},
};
static const int NL = sizeof(LINES) / sizeof *LINES;
static const vector<string> NAMES = {"a", "b", "c", "d", "e", "f", "g", "h", "k", "o", "f2", "a2", "t", "i", "z", "y", "co", "x"};

static void history(const vector<int> &seq, int slice, bool viaCompiler, Case &c) {
    Repl r(slice);
    if(!r.ok) { c.fail("no session: %s", r.h.errors().c_str()); return; }
    string eff, said;
    bool alive = true;
    for(int s : seq) {
        const Ln &L = LINES[s];
        string whole = eff + L.src + "\n";
        Expect e = rules(whole, NAMES);
        if(e.skip) { alive = false; break; }
        Repl::Line got = r.line(L.src);
        said += strf("  > %s\n", L.src);
        c.trans();
        if(!e.compiled) {
            if(got.compiled) { c.fail("accepted although it is not valid here (%s)\n%s", e.why.c_str(), said.c_str()); return; }
            if(got.err.empty() || !got.count) { c.fail("rejected without an error\n%s", said.c_str()); return; }
        } else {
            if(!got.compiled) { c.fail("rejected: %s\n%s", got.err.c_str(), said.c_str()); return; }
            if(e.error != !got.err.empty()) { c.fail("%s\n  errors: %s\n  rules: %s\n%s", e.error ? "should raise an error" : "raised an error", got.err.c_str(), e.why.c_str(), said.c_str()); return; }
            string keep = e.error ? string(L.effect) : string(L.src);
            if(r.h.out != e.out) { c.fail("output after the last line\n  library: %s\n  rules:   %s\n%s", r.h.out.c_str(), e.out.c_str(), said.c_str()); return; }
            if(!keep.empty()) eff += keep + "\n";
            if(!e.error && !nkxVmProgramHasEnded(r.h.vm)) { c.fail("not at the end after a good line\n%s", said.c_str()); return; }
        }
        if(nkxVmHasErrors(r.h.vm) || nkxGetErrorCount(r.h.vm) || !r.h.errors().empty()) { c.fail("errors remain after clearing them\n%s", said.c_str()); return; }
        if(!nkxCompilerIsAtRootContext(r.h.cs)) { c.fail("the compiler is not back at the top level\n%s", said.c_str()); return; }
        // everything defined so far must be as if only the good parts had ever been entered
        Expect x = rules(eff, NAMES);
        if(x.skip || x.error || !x.compiled) { if(!x.skip) c.fail("harness error: effective text fails: %s\n%s", x.why.c_str(), eff.c_str()); alive = false; break; }
        if(r.h.out.substr(0, x.out.size()) != x.out && !e.error) { c.fail("harness error: outputs of the effective text diverge\n%s", said.c_str()); alive = false; break; }
        string g = r.globals(NAMES, viaCompiler);
        if(viaCompiler || got.compiled) // the table is only refreshed by a line that compiles
            if(g != x.globals) { c.fail("variables after the last line\n  library: %s\n  rules:   %s\n%s", g.c_str(), x.globals.c_str(), said.c_str()); return; }
        // the errors of a failed line may have produced output the effective text does not
        if(e.compiled && e.error && r.h.out != x.out) { alive = false; break; }
        c.state(hashStr(r.h.out + g));
        c.outcome(!e.compiled ? "rejected" : e.error ? "run-time error" : "fine");
    }
    if(alive) {
        // wrapping up leaves a finished program that can be saved, collected and stepped
        nkxCompilerFinalize(r.h.cs); r.h.cs = nullptr;
        nkxVmGarbageCollect(r.h.vm);
        string g = r.globals(NAMES, false);
        Expect x = rules(eff, NAMES);
        if(g != x.globals) c.fail("variables after finalizing\n  library: %s\n  rules:   %s\n%s", g.c_str(), x.globals.c_str(), said.c_str());
        string before = r.h.out;
        nkxVmExecuteProgram(r.h.vm);
        if(nkxVmHasErrors(r.h.vm) || r.h.out != before) c.fail("finishing ran something: %s %s\n%s", r.h.errors().c_str(), r.h.out.substr(before.size()).c_str(), said.c_str());
        c.trace();
        c.nontrivial(hashStr(said));
    }
    r.done(c);
}

// ---- literals that equal strings computed before, collected between the lines ----
static const Ln STR[] = {
    {"s = \"ab\" + 7;", ""}, {"s = 0;", ""}, {"s = \"x\" + 9;", ""}, {"f = function() { return \"ab7\"; };", ""}, {"print(f());", ""}, {"o.ab7 = f;", ""}, {"o[\"ab\" + 7] = s;", ""}, {"print(o.ab7, s);", "" },
    {"o = object();", ""}, {"s = \"ab7\" ) ;", ""}, {"s = \"ab7\"; error(\"x9\"); s = 2;", "s = \"ab7\";"}, {"gc();", ""},
};
static const int NSTR = sizeof STR / sizeof *STR;
static void strings(const vector<int> &seq, int mode, Case &c) {
    Repl r; string eff = "var s; var o = object(); var f = function() { return s; };\n", said;
    if(!r.ok || !r.line(eff).compiled) { c.fail("no session: %s", r.h.errors().c_str()); return; }
    static const vector<string> names = {"s", "o"};
    for(int k : seq) {
        if(mode) { nkxVmGarbageCollect(r.h.vm); if(mode == 2) nkxVmShrink(r.h.vm); }
        Expect e = rules(eff + STR[k].src + "\n", names);
        if(e.skip) { c.outcome("not specified"); break; }
        auto got = r.line(STR[k].src); said += strf("  > %s\n", STR[k].src); c.trans();
        if(got.compiled != e.compiled || (e.compiled && e.error != !got.err.empty())) { c.fail("library: %d '%s', rules: %d %s\n%s", (int)got.compiled, got.err.c_str(), (int)e.compiled, e.why.c_str(), said.c_str()); return; }
        if(e.compiled) {
            if(r.h.out != e.out) { c.fail("output\n  library: %s\n  rules:   %s\n%s", r.h.out.c_str(), e.out.c_str(), said.c_str()); return; }
            eff += string(e.error ? STR[k].effect : STR[k].src) + "\n";
        }
        Expect x = rules(eff, names); string g = r.globals(names, true);
        if(!x.skip && x.globals != g) { c.fail("variables\n  library: %s\n  rules:   %s\n%s", g.c_str(), x.globals.c_str(), said.c_str()); return; }
        c.state(hashStr(r.h.out + g));
    }
    c.trace(); c.nontrivial(hashStr(said) + mode); c.outcome("literals and computed strings");
    r.done(c);
}
// ---- splitting ----
// Start offsets of the top-level statements (a lexical scan; the reference recogniser confirms every piece).
static vector<string> statements(const string &s) {
    vector<string> r;
    size_t start = 0; int depth = 0;
    for(size_t i = 0; i < s.size(); i++) {
        char ch = s[i];
        if(ch == '"') { for(i++; i < s.size() && s[i] != '"'; i++) if(s[i] == '\\') i++; continue; }
        if(ch == '/' && i + 1 < s.size() && s[i + 1] == '/') { while(i < s.size() && s[i] != '\n') i++; continue; }
        if(ch == '{' || ch == '(' || ch == '[') depth++;
        if(ch == '}' || ch == ')' || ch == ']') depth--;
        if(depth == 0 && (ch == ';' || ch == '}')) {
            string piece = s.substr(start, i + 1 - start);
            size_t j = i + 1; while(j < s.size() && isspace((unsigned char)s[j])) j++;
            if(s.compare(j, 4, "else") == 0) continue;
            if(!lang::recognise(piece)) continue; // e.g. the body of a do-while
            r.push_back(piece); start = i + 1;
        }
    }
    if(r.empty()) r.push_back(s); else r.back() += s.substr(start);
    return r;
}
struct Split { bool natref; string src; vector<string> st; vector<string> out1; string name; lang::Result ref; corpus::Run run; };
static vector<Split> S;
// Runs pieces; bit k of 'runs' says whether piece k is executed before the next one is compiled.
static void split(const Split &p, const vector<string> &pieces, uint64_t runs, int slice, Case &c, int bads = 0) {
    static const char *BAD[] = {"zz = ;", "function q( {", "if(1) { while(1) {", "var zz1 = 1; error2();"};
    Repl r(slice);
    if(!r.ok) { c.fail("no session"); return; }
    bool failed = false; string err;
    size_t k = 0;
    for(; k < pieces.size() && !failed; k++) {
        bool run = runs >> k & 1;
        if(bads && (k % 2 == 0 || bads > 4)) {
            // only where nothing is pending: clearing an error discards code that was not made executable yet
            if(k == 0 || (runs >> (k - 1) & 1)) {
                auto b = r.line(BAD[(bads - 1 + k) % 4]);
                if(b.compiled || b.err.empty()) { c.fail("accepted: %s", BAD[(bads - 1 + k) % 4]); return; }
            }
        }
        auto l = r.line(pieces[k], run, "t.nks");
        if(!l.compiled) { c.fail("piece %zu rejected: %s\n%s", k, l.err.c_str(), pieces[k].c_str()); r.done(c); return; }
        if(!l.err.empty()) { failed = true; err = l.err; }
        c.trans();
    }
    if(!failed) {
        nkxCompilerFinalize(r.h.cs); r.h.cs = nullptr;
        nkxSetRemainingInstructionLimit(r.h.vm, 200000);
        nkxVmExecuteProgram(r.h.vm);
        err = r.h.errors();
        failed = !err.empty();
    }
    if(r.h.out != p.run.out) c.fail("output of the pieces differs\n  pieces: %s %s\n  whole:  %s %s", r.h.out.c_str(), err.c_str(), p.run.out.c_str(), p.run.err.c_str());
    else if(failed != !p.run.err.empty()) c.fail("errors of the pieces differ\n  pieces: %s\n  whole:  %s", err.c_str(), p.run.err.c_str());
    else if(failed) {
        auto msg = [](const string &e) { string f = firstLine(e); size_t a = f.find(':'); a = a == string::npos ? a : f.find(':', a + 1); return a == string::npos ? f : f.substr(a); };
        if(msg(err) != msg(p.run.err)) c.fail("error message differs\n  pieces: %s\n  whole:  %s", err.c_str(), p.run.err.c_str());
    } else {
        string g = r.h.globalsRepr(corpus::globalNames);
        if(g != p.run.globals) c.fail("variables differ\n  pieces: %s\n  whole:  %s", g.c_str(), p.run.globals.c_str());
    }
    c.trace();
    c.state(hashStr(r.h.out + err));
    c.nontrivial(hashStr(p.name) * 31 + runs * 7 + pieces.size() * 1000003 + hashStr(pieces[0]));
    c.outcome(failed ? "fails as the whole does" : "ends as the whole does");
    r.done(c);
}

// The rest of the program arrives while the first part is stopped between two instructions (or in a native call).
static uint64_t pausedLen(const Split &p, const vector<string> &pieces) {
    Repl r; uint64_t n = 0;
    if(!r.ok || !nkxCompilerCompileScript(r.h.cs, pieces[0].c_str(), "t.nks")) { Case d; r.done(d); return 0; }
    nkxCompilerPartiallyFinalize(r.h.cs);
    while(!nkxVmProgramHasEnded(r.h.vm) && !nkxVmHasErrors(r.h.vm) && n < 100000) { nkxVmIterate(r.h.vm, 1); n++; }
    Case d; r.done(d);
    return n;
}
static void paused(const Split &p, const vector<string> &pieces, uint64_t at, bool look, Case &c) {
    Repl r;
    if(!r.ok) { c.fail("no session"); return; }
    string err; bool failed = false;
    for(size_t k = 0; k < pieces.size(); k++) {
        if(!nkxCompilerCompileScript(r.h.cs, pieces[k].c_str(), "t.nks")) { c.fail("piece %zu rejected: %s\n%s", k, r.h.errors().c_str(), pieces[k].c_str()); r.done(c); return; }
        nkxCompilerPartiallyFinalize(r.h.cs);
        if(k + 1 == pieces.size()) break;
        nkxVmIterate(r.h.vm, at);
        if(look) { nkxVmGarbageCollect(r.h.vm); if(!p.natref) nkxVmShrink(r.h.vm); } // compacting renumbers what native data refers to
        if(nkxVmHasErrors(r.h.vm)) { failed = true; break; }
    }
    if(!failed) {
        nkxCompilerFinalize(r.h.cs); r.h.cs = nullptr;
        nkxSetRemainingInstructionLimit(r.h.vm, 200000);
        nkxVmExecuteProgram(r.h.vm);
    }
    err = r.h.errors(); failed = !err.empty();
    if(r.h.out != p.run.out) c.fail("output differs\n  in parts: %s %s\n  whole:  %s %s", r.h.out.c_str(), err.c_str(), p.run.out.c_str(), p.run.err.c_str());
    else if(failed != !p.run.err.empty()) c.fail("errors differ\n  in parts: %s\n  whole:  %s", err.c_str(), p.run.err.c_str());
    else if(!failed) { string g = r.h.globalsRepr(corpus::globalNames); if(g != p.run.globals) c.fail("variables differ\n  in parts: %s\n  whole:  %s", g.c_str(), p.run.globals.c_str()); }
    c.trace(); c.state(hashStr(r.h.out + err)); c.trans(pieces.size());
    c.nontrivial(hashStr(p.name) * 31 + at * 7 + pieces[0].size() * 1000003);
    c.outcome(failed ? "fails as the whole does" : "ends as the whole does");
    r.done(c);
}
// A native compiles the rest while the script that called it waits.
static const char *WAIT[] = {
    "var a = 1; hook(); a = a + 1;",
    "var a = 1; function f(x) { var l = x + 1; hook(); return l * 2; } a = f(3) + f(4);",
    "var a = 0; function g(x) { yield(x); hook(); yield(x + 1); return 9; } var co = coroutine(g, 5); a = resume(co) + resume(co);",
    "var a = 0; for(var i = 0; i < 3; ++i) { { var t = \"t\" + i; if(i == 1) { hook(); } a = a + len(object()) + i; print(t); } }",
    "var a = 0; function f(x) { hook(); return x; } a = call(f, 7);",
    "var o = object(); o.f = function(s, x) { hook(); s.v = x; return s; }; var a = 0; a = (o->f(4)).v;",
    "var a = 1 + (2 * (3 + hook())); var q = a;",
};
static const char *REST[] = {"print(a); var z = \"end\" + a;", "function h(x) { return x + a; } var z = h(1); print(z);", "var z = object(); z.k = a; for(var i = 0; i < 4; ++i) { z[i] = i; } print(z); var co2 = coroutine(function(x) { yield(x); }, 4); print(resume(co2));",
    "var z0 = 0; var z1 = 1; var z2 = 2; var z3 = 3; var z4 = 4; var z5 = 5; var z6 = 6; var z7 = 7; var z8 = 8; var z9 = 9; var z = z9 * 10 + z1; print(z, a);", "var z = a / 0;", "yield(1); var z = 1;"};
static void inNative(int w, int k, int times, Case &c) {
    c.descs(string(WAIT[w]) + " / " + REST[k] + strf(" (compiled in %d parts)", times));
    static const vector<string> names = {"a", "z", "o", "q", "z0", "z8"};
    string want, wantErr, wantG;
    { Host h; if(!h.load(string(WAIT[w]) + "\n" + REST[k])) { c.fail("whole rejected: %s", h.errors().c_str()); return; } nkxVmExecuteProgram(h.vm); want = h.out; wantErr = firstLine(h.errors()); wantG = h.globalsRepr(names); }
    Repl r; bool done = false; bool bad = false;
    r.h.onHook = [&](Host &h, NKVMFunctionCallbackData *) {
        if(done) return;
        done = true;
        string rest = REST[k]; size_t cut = times == 1 ? rest.size() : rest.find("; ") == string::npos || rest[0] == 'f' ? rest.size() : rest.find("; ") + 1;
        for(const string &part : {rest.substr(0, cut), rest.substr(cut)}) {
            if(!nkxCompilerCompileScript(h.cs, part.c_str(), "t.nks")) bad = true;
            if(!nkxVmHasErrors(h.vm)) nkxCompilerPartiallyFinalize(h.cs);
        }
    };
    if(!nkxCompilerCompileScript(r.h.cs, WAIT[w], "t.nks")) { c.fail("rejected: %s", r.h.errors().c_str()); r.done(c); return; }
    nkxCompilerPartiallyFinalize(r.h.cs);
    nkxSetRemainingInstructionLimit(r.h.vm, 100000);
    nkxVmExecuteProgram(r.h.vm);
    string err = firstLine(r.h.errors());
    auto msg = [](const string &e) { size_t a = e.find(": "); return a == string::npos ? e : e.substr(a); };
    if(bad) c.fail("the rest was rejected in the native: %s", r.h.errors().c_str());
    else if(r.h.out != want || msg(err) != msg(wantErr)) c.fail("%s %s\n  whole:  %s %s", r.h.out.c_str(), err.c_str(), want.c_str(), wantErr.c_str());
    else if(r.h.globalsRepr(names) != wantG) c.fail("variables %s\n  whole:  %s", r.h.globalsRepr(names).c_str(), wantG.c_str());
    c.trace(); c.trans(); c.state(hashStr(r.h.out)); c.nontrivial(w * 100 + k * 10 + times); c.outcome("compiled in a native call");
    r.done(c);
}

void define(Registry &r) {
    r.level = "model_checking";
    r.rule = "every sequence of lines up to the depth over an alphabet of good, rejected, unfinished and failing lines is fed to the real incremental compiler; after every line output, errors and every variable are compared with the reference interpreter on the text that consists only of the good parts; lines whose literals equal strings computed before, garbage collected and memory compacted between them; corpus programs are cut at every set of statement boundaries, run and not run in between; or the rest is compiled while the first part is stopped between any two instructions, or from inside a native call";
    r.bounds = strf("%d lines, depth %d (all) ; splits: all subsets for programs of up to %d statements, else every cut, pair and all-separate; run-in-between: all subsets/all/none; %d string lines, depth %d, x 3; stopping points: every instruction (thinned beyond %d)", NL, 3, 9, NSTR, r.thorough() ? 6 : 4, r.thorough() ? 1500 : 150);
    r.assumptions = {"a line that fails while running keeps the effects of the part that was executed and the names it declares"};
    bool th = r.thorough();
    // longer sessions over a smaller alphabet that covers all kinds of interaction
    static const vector<int> CORE = th ? vector<int>{0, 2, 4, 5, 6, 15, 17, 19, 27, 28, 30, 31, 32, 33, 34, 37, 38, 40} : vector<int>{0, 2, 5, 6, 15, 19, 27, 28, 30, 32, 40};
    unsigned deep = 4;
    r.add("lines", seqCount(NL, th ? 3 : 2), [](uint64_t i, Case &c) {
        auto s = seqDecode(i, NL);
        string d; for(int x : s) d += string(LINES[x].src) + "\n";
        c.descs(d);
        history(s, 0, i & 1, c);
        if(i % 5000 == 0) c.sample(d);
    });
    r.add("three", th ? 0 : (uint64_t)NL * NL * NL, [](uint64_t i, Case &c) {
        Idx x(i); vector<int> s = {(int)x.pick(NL), (int)x.pick(NL), (int)x.pick(NL)};
        string d; for(int x : s) d += string(LINES[x].src) + "\n";
        c.descs(d);
        history(s, (i / 7) % 3 == 2 ? 5 : 0, i & 1, c);
    });
    // after the definitions the interesting lines need: everything is declared, then every sequence
    r.add("session", seqCount(CORE.size(), deep), [](uint64_t i, Case &c) {
        auto s = seqDecode(i, CORE.size());
        vector<int> q = {0, 1, 5};
        for(int x : s) q.push_back(CORE[x]);
        string d; for(int x : q) d += string(LINES[x].src) + "\n";
        c.descs(d);
        history(q, i % 3 == 1 ? 1 : 0, true, c);
        if(i % 5000 == 0) c.sample(d);
    });
    // every pair of lines around every kind of failure, repeated many times: nothing may accumulate
    r.add("repeat", (uint64_t)NL * 3, [](uint64_t i, Case &c) {
        Idx x(i); int a = x.pick(NL); int n = x.pick(3);
        vector<int> q = {0, 1, 5, 7};
        for(int k = 0; k < (n == 0 ? 40 : n == 1 ? 300 : 7); k++) q.push_back(a);
        q.push_back(10); q.push_back(6); q.push_back(27); q.push_back(4);
        c.desc("%s repeated", LINES[a].src);
        history(q, 0, true, c);
    });
    r.add("strings", seqCount(NSTR, th ? 6 : 4) * 3, [](uint64_t i, Case &c) { Idx d(i); int m = d.pick(3); auto q = seqDecode(d.v, NSTR); string t; for(int k : q) t += string(STR[k].src) + "\n"; c.descs(t + (m == 0 ? "" : m == 1 ? "collected before every line" : "collected and compacted before every line")); strings(q, m, c); });
    // splits
    static bool init = false;
    if(!init) {
        init = true;
        for(auto &p : corpus::all()) {
            Split s; s.natref = p.flags & corpus::NATREF; s.src = p.src; s.name = p.name; s.st = statements(p.src);
            Host h; bool ok = corpus::start(h, p.src);
            if(!ok) continue;
            nkxSetRemainingInstructionLimit(h.vm, 200000);
            nkxVmExecuteProgram(h.vm);
            corpus::finish(h, s.run);
            S.push_back(s);
        }
    }
    r.add("native", (sizeof WAIT / sizeof *WAIT) * (sizeof REST / sizeof *REST) * 2, [](uint64_t i, Case &c) { Idx x(i); int t = x.pick(2) + 1, k = x.pick(sizeof REST / sizeof *REST); inNative(x.pick(sizeof WAIT / sizeof *WAIT), k, t, c); });
    for(size_t p = 0; p < S.size(); p++) {
        size_t n = S[p].st.size();
        if(n < 2) continue;
        // stop inside the first part: every cut, every instruction
        static std::map<size_t, vector<std::pair<size_t, uint64_t>>> PAUSE;
        auto cutAt = [](const Split &s, size_t cut) { vector<string> q(2); for(size_t k = 0; k < s.st.size(); k++) q[k >= cut] += s.st[k]; return q; };
        if(!PAUSE.count(p)) {
            auto &v = PAUSE[p];
            uint64_t cap = th ? 1500 : 150;
            for(size_t cut = 1; cut < n; cut++) { uint64_t len = pausedLen(S[p], cutAt(S[p], cut)); uint64_t step = len / cap + 1; for(uint64_t at = 0; at <= len + 1; at += step) v.push_back({cut, at}); }
        }
        r.add(strf("paused/%s", S[p].name.c_str()), PAUSE[p].size() * 2, [p, cutAt](uint64_t i, Case &c) {
            auto &e = PAUSE[p][i / 2];
            c.desc("cut at statement %zu, stopped after %llu instructions%s: %s", e.first, (unsigned long long)e.second, i & 1 ? ", collected and compacted" : "", S[p].src.c_str());
            paused(S[p], cutAt(S[p], e.first), e.second, i & 1, c);
        });
        unsigned all = th ? 11 : 8;
        auto join = [](const Split &s, uint64_t cuts) { vector<string> r; string cur = s.st[0]; for(size_t k = 1; k < s.st.size(); k++) { if(cuts >> (k - 1) & 1) { r.push_back(cur); cur = ""; } cur += s.st[k]; } r.push_back(cur); return r; };
        if(n - 1 <= all) {
            r.add(strf("split/%s", S[p].name.c_str()), (1ull << (n - 1)) * 4, [p, n, join](uint64_t i, Case &c) {
                uint64_t cuts = i / 4; int mode = i % 4;
                auto q = join(S[p], cuts);
                c.desc("cuts %llx mode %d: %s", (unsigned long long)cuts, mode, S[p].src.c_str());
                split(S[p], q, mode == 0 ? 0 : mode == 1 ? ~0ull : mode == 2 ? 0x5555555555555555ull : ~0ull, mode == 1 ? 3 : 0, c, mode == 3 ? 1 + cuts % 8 : 0);
            });
        } else {
            uint64_t m = n - 1;
            r.add(strf("split/%s", S[p].name.c_str()), (m + m * m + 1) * 3, [p, m, join](uint64_t i, Case &c) {
                int mode = i % 3; uint64_t k = i / 3, cuts;
                if(k < m) cuts = 1ull << (k % 64); else if(k < m + m * m) { k -= m; uint64_t a = k / m, b = k % m; if(b <= a) return; cuts = 1ull << a | 1ull << b; } else cuts = ~0ull;
                auto q = join(S[p], cuts);
                c.desc("cuts %llx mode %d: %s", (unsigned long long)cuts, mode, S[p].src.c_str());
                split(S[p], q, mode == 0 ? 0 : ~0ull, 0, c, mode == 2 ? 1 + k % 8 : 0);
            });
        }
        // all separate, every subset of pieces executed at once
        if(n <= 64) r.add(strf("runs/%s", S[p].name.c_str()), 1ull << std::min<size_t>(n, th ? 12 : 7), [p, join](uint64_t i, Case &c) {
            c.desc("every statement separate, run after %llx: %s", (unsigned long long)i, S[p].src.c_str());
            split(S[p], join(S[p], ~0ull), i | i << 7 | i << 14 | i << 21, 0, c);
        });
    }
}
