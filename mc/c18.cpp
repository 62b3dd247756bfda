// uses: lang.cpp corpus.cpp
// C18: errors stop the program at once and are reported faithfully (message, count, length, file and line).
#include "corpus.h"
#include "lang.h"
#include <string.h>
using namespace mc;
using std::string;
using std::vector;

struct Script { string text, file; };
// The text of several scripts compiled one after the other, as one text (a directive starts each at its own line 1).
static string joined(const vector<Script> &s) { string r; for(auto &x : s) r += "#line 1 \"" + x.file + "\"\n" + x.text + "\n"; return r; }

// Error text with exactly the reported length, guarded by the sanitizer (heap block of exactly that size).
static string errorText(Host &h, Case &c) {
    nkuint32_t n = nkxGetErrorLength(h.vm);
    char *b = new char[n ? n : 1];
    memset(b, 'Z', n);
    nkxGetErrorText(h.vm, b);
    string r = n ? string(b, strnlen(b, n)) : "";
    if(n && r.size() != n - 1) c.fail("the reported error length is %u but the text has %zu characters: %s", (unsigned)n, r.size(), r.c_str());
    delete[] b;
    return r;
}
struct Msg { string file; int line; string text; };
static bool parseLine(const string &l, Msg &m) {
    size_t a = l.find(':'); if(a == string::npos) return false;
    size_t b = l.find(": ", a + 1); if(b == string::npos) return false;
    m.file = l.substr(0, a); m.line = atoi(l.c_str() + a + 1); m.text = l.substr(b + 2);
    return true;
}
static vector<string> lines(const string &s) { vector<string> r; size_t p = 0; while(p < s.size()) { size_t e = s.find('\n', p); if(e == string::npos) e = s.size(); r.push_back(s.substr(p, e - p)); p = e + 1; } return r; }

// Runs scripts on the library and the rules and compares everything about the error.
static void check(const vector<Script> &s, Case &c, int slice = 0, bool mustFail = false, const char *text = nullptr) {
    string all = joined(s);
    lang::Result r = lang::run(all);
    if(r.timeout || !r.unspecified.empty()) return;
    if(!r.compiled) { c.fail("harness error: not a program: %s", r.why.c_str()); return; }
    if(mustFail && !r.error) { c.fail("harness error: the rules raise no error"); return; }
    Host h;
    if(!h.create() || !h.compiler() || !h.natives()) { c.fail("no VM"); return; }
    h.ran = true;
    for(auto &x : s) if(!h.compile(x.text, x.file.c_str())) { c.fail("%s rejected: %s", x.file.c_str(), h.errors().c_str()); h.finalize(); h.destroy(); return; }
    if(!h.finalize()) { c.fail("rejected: %s", h.errors().c_str()); h.destroy(); return; }
    if(!slice) { nkxSetRemainingInstructionLimit(h.vm, 300000); nkxVmExecuteProgram(h.vm); }
    else for(int n = 0; n < 100000 && !nkxVmProgramHasEnded(h.vm) && !nkxVmHasErrors(h.vm); n++) nkxVmIterate(h.vm, slice);
    string e = errorText(h, c);
    nkuint32_t count = nkxGetErrorCount(h.vm);
    c.trace(); c.trans(r.steps + 1); c.state(hashStr(h.out + "|" + e)); c.nontrivial(hashStr(all));
    c.outcome(r.error ? "error" : "no error");
    if(h.out != r.out) c.fail("statements executed before the error differ\n  library: %s\n  rules:   %s\n  errors: %s", h.out.c_str(), r.out.c_str(), e.c_str());
    else if(r.error != (count != 0) || r.error != (bool)nkxVmHasErrors(h.vm) || r.error != !e.empty()) c.fail("%s\n  errors (%u): %s\n  rules: %s", r.error ? "no error was reported" : "an error was reported for a program that raises none", (unsigned)count, e.c_str(), r.why.c_str());
    else if(r.error) {
        vector<string> l = lines(e);
        Msg m;
        if(count != 1 || l.size() != 1) c.fail("one error was raised, %u were counted and %zu reported: %s", (unsigned)count, l.size(), e.c_str());
        else if(e.back() != '\n' || !parseLine(l[0], m)) c.fail("malformed error text: %s", e.c_str());
        else if(r.file != "*" && r.line1 <= r.line2 && r.line2 < r.line1 + 100 && (m.file != r.file || m.line < r.line1 || m.line > r.line2)) c.fail("error reported at the wrong place\n  library: %s\n  rules: %s line %d..%d (%s)", l[0].c_str(), r.file.c_str(), r.line1, r.line2, r.why.c_str());
        else if(m.text.empty()) c.fail("error without a message");
        else if(!r.nativeMsg.empty() && m.text != r.nativeMsg) c.fail("message '%s' instead of '%s'", m.text.c_str(), r.nativeMsg.c_str());
        else {
            // nothing more takes effect
            string out = h.out;
            nkxVmIterate(h.vm, 1); nkxVmIterate(h.vm, 1000); nkxVmExecuteProgram(h.vm); nkxVmGarbageCollect(h.vm);
            NKValue *f = nkxVmFindGlobalVariable(h.vm, nullptr, "ok");
            if(f) { NKValue fn = *f, ret; memset(&ret, 0, sizeof ret); nkxVmCallFunction(h.vm, &fn, 0, nullptr, &ret); }
            if(h.out != out) c.fail("something was executed after the error: %s", h.out.c_str());
            string e2 = errorText(h, c);
            if(e2.compare(0, e.size(), e)) c.fail("the error text changed from %s to %s", e.c_str(), e2.c_str());
        }
    }
    h.destroy();
    for(auto &p : h.problems) c.fail("%s", p.c_str());
}

// ---- failing expressions, in every place, in every layout ('~' is a place where a line break may go) ----
static const char *PRE = "var o = object();~function ok() { print(99); }~function bad(n) {~ print(n); return n / 0;~}~function one(a) { return a; }~"
                         "function co(n) { yield(n); print(5);~ return nil + n;~}~var k = coroutine(co, 3); resume(k);~o.m = bad; o.z = 0;~function deep(n) { if(n) { return deep(n - 1); }~return nil.x; }~";
static const char *FAILS[] = {"1 / o.z", "(nil + 1)", "error(\"boom\")", "bad(4)", "one()", "o.zz()", "o->m()", "resume(k, 1)", "deep(3)", "yield(2)", "nil.q", "len(3)", "7 % 0", "resume(o)", "call(bad, 1)", "call(one)", "one(1, 2)",
                              "(print(3) + nil.q)", "one(error(\"a:b: c\"))", "o[nil.x]", "call(deep, 2)", "resume(coroutine(bad, 6))", "function() { ~return nil - 1; ~}()", "(object() < 1)", "(-o)", "str(nil.x)"};
static const char *PLACES[] = {
    "print(1);~@;~print(2);", "print(1);~var x =~ @;~print(x);", "if(@) {~print(2);~} else {~print(3);~}", "if(0) {~print(4);~} else {~@;~}~print(2);",
    "while(@)~{ print(2); }~print(3);", "var i = 0;~while(i < 3) {~i = i + 1;~if(i == 2) {~@;~}~print(i);~}", "do {~print(1);~} while(@);~print(2);",
    "for(var i = @;~i < 1;~i = i + 1) {~print(i);~}", "for(var i = 0;~@;~i = i + 1) {~print(i);~}", "for(var i = 0;~i < 3;~i = i + @) {~print(i);~}~print(7);", "for(var i = 0;~i < 3;~i = i + 1) {~print(i);~if(i == 1) @;~}",
    "function f() {~print(1);~@;~print(2);~}~f();~print(3);", "function f() {~return @;~}~print(~f()~);", "function f(x) {~{~print(x);~@;~}~}~for(var i = 0; i < 2; i++)~f(i);", "print(1,~@,~print(2));", "o.x = @;~print(o);", "o[@] = 1;~print(o);",
    "var g = function() {~print(1);~@;~};~g();~print(2);", "function c() {~yield(1);~@;~print(4);~}~var t = coroutine(c);~resume(t);~print(1);~resume(t);~print(2);",
    "function c() {~print(1);~@;~}~function d() {~resume(coroutine(c));~print(2);~}~resume(coroutine(d));~print(3);", "function f() {~print(1);~@;~}~call(f);~print(2);", "function g2() {~@;~}~function f() {~call(g2);~print(2);~}~f();",
    "function f(n) {~if(n == 0) {~@;~}~print(n);~return f(n - 1) +~ n;~}~f(2);~print(9);", "print(1); { { {~@; } } }~print(2);", "var x = 1;~x = x +~ @ + x;~print(x);", "@;", "print(0);~@;", "var a = 0; a =~ (@);~a++;", "o.m2 = one;~o.one = one;~print(o.one(~@));", "one(~one(~@~)~);~print(1);",
    "function c(a) {~for(var i = 0; i < 2; i++) {~a = yield(a);~}~@;~}~var t = coroutine(c, 1);~while(!is_finished(t)) {~print(resume(t, 8));~}", "!(@);~print(1);", "(@) == 1;~print(1);", "1 && @;~print(1);", "0 || @;~print(1);",
    "function f() { }~f();~@;~f();", "if(1) {~function q() {~@;~}~q();~}~print(2);", "{ var a = 1; {~var b = 2;~@;~} }",
};
static string fill(const string &t, const string &what, bool tilde) {
    string r;
    for(char ch : t) { if(ch == '@') r += what; else r += ch; }
    (void)tilde;
    return r;
}
// layout: bits say which '~' become line breaks; style 1: CRLF, 2: comment lines, 3: all breaks double, 4: directive at break number 'bits'
static string layout(const string &t, uint64_t bits, int style) {
    string r; int n = 0;
    for(char ch : t) {
        if(ch != '~') { r += ch; continue; }
        bool br = style == 4 ? true : bits >> (n % 60) & 1;
        if(style == 4 && (uint64_t)n == bits) r += n & 1 ? "\n#line 500 \"inc.nks\"\n" : "\r\n#line 7\r\n";
        else if(style == 5 && br) r += (uint64_t)n == bits % 23 ? "\n#file \"x.y\" // c\n" : "\n";
        else if(br) r += style == 1 ? "\r\n" : style == 2 ? " // \"x\n" : style == 3 ? "\n\n\t" : "\n";
        else r += ' ';
        n++;
    }
    return r;
}
static int tildes(const string &s) { int n = 0; for(char c : s) n += c == '~'; return n; }

// ---- compile errors at a known line ----
static const char *BADLINES[] = {
    "x = ;", "nosuch = 1;", "print(nosuch);", "var a;", "break;", "1 = 2;", ") ;", "\"open", "$;", "var 5;", "function f( 5 ) { }", "if x { }", "for(;;) { }", "while() { }", "a +;", "a b;", "return 1;", "len();", "resume();",
    "object(1);", "is_finished();", "a.5;", "a->b;", "(1 + 2;", "[1];", "a[1;", "print(1,;", "}", "var b = nosuch2;", "{ var z; var z; }", "function g(p, p) { }", "function h() { return nosuch3; }", "do { } while 1;", "a++ = 3;", "#bogus", "#line", "#file \"x", "yield(1, 2);", "coroutine(nosuch);", "nil = 1;", "else { }", "@", "\\", "'a'",
};
static const char *GOOD[] = {"print(1);", "", "var @ = 1;", "// comment", "{ var q = 1;\n q = 2; }", "function @() {\n return 1;\n}", "\"str\";", "#line 40", "#file \"other\"", "\t \r"};

void define(Registry &r) {
    r.level = "model_checking";
    r.rule = "failing expressions of every kind are placed at every kind of place in programs laid out over lines in every way; statements executed, error count, text, length, file and line are compared with the reference interpreter; compile errors are placed on every line of small texts; histories of host-raised errors are compared with a list model; host calls fail at every instruction boundary";
    bool th = r.thorough();
    static const int NF = sizeof(FAILS) / sizeof *FAILS, NP = sizeof(PLACES) / sizeof *PLACES;
    // 1. every expression x place; every subset of line breaks
    for(int p = 0; p < NP; p++) {
        r.add(strf("place/%d", p), (uint64_t)NF * (th ? 600 : 60), [p, th](uint64_t i, Case &c) {
            Idx x(i); int f = x.pick(NF); uint64_t lay = x.v;
            string body = fill(PLACES[p], FAILS[f], true);
            int k = tildes(PLACES[p]), kp = tildes(PRE);
            uint64_t bits; int style = 0;
            uint64_t subsets = th ? 512 : 32;
            if(lay < subsets) {
                if(k < 9 && (1u << k) <= lay && lay < (1ull << 9) && subsets >= (1ull << k)) { // all subsets done: vary the prefix as well
                    bits = lay * 0x9e3779b97f4a7c15ull >> 20; style = lay & 1 ? 3 : 0;
                } else bits = k > 5 && !th ? lay * 0x9e3779b97f4a7c15ull >> 13 : lay;
            }
            else { int z = lay - subsets; static const int ST[] = {1, 2, 3, 4, 4, 4, 4, 4, 4, 4, 5, 5, 5, 5}; style = ST[z % 14]; bits = style == 4 ? (uint64_t)z - 3 : style == 5 ? z : ~0ull; if(z > 13) bits = z * 31; }
            string pre = layout(PRE, lay & 1 ? ~0ull : 0x155, 0);
            (void)kp;
            string src = pre + layout(body, bits, style);
            c.descs(src);
            check({{src, "t.nks"}}, c, i % 5 == 3 ? 1 + i % 3 : 0, FAILS[f][0] != 'y' || !strstr(PLACES[p], "coroutine"));
            if(i % 3000 == 0) c.sample(src);
        });
    }
    // 2. several scripts: every expression, definitions in one file, use in another, in every order of files
    r.add("files", (uint64_t)NF * NP * 6, [](uint64_t i, Case &c) {
        Idx x(i); int f = x.pick(NF), p = x.pick(NP), o = x.pick(6);
        string pre = layout(PRE, o & 1 ? ~0ull : 0, 0), body = layout(fill(PLACES[p], FAILS[f], true), o & 2 ? ~0ull : 0x2492, 0);
        vector<Script> s;
        if(o == 0) s = {{pre, "a.nks"}, {body, "b.nks"}};
        else if(o == 1) s = {{"print(8);\n\n", "c.nks"}, {pre, "a.nks"}, {"", "e.nks"}, {body + "\nprint(3);", "b.nks"}};
        else if(o == 2) s = {{pre, "a.nks"}, {body, "a.nks"}};
        else if(o == 3) s = {{pre + "#file \"d.nks\"\nprint(5);", "a.nks"}, {body, "b.nks"}, {"print(1);", "c.nks"}};
        else if(o == 4) s = {{pre + body, "only.nks"}, {"print(4);", "z"}};
        else s = {{"// first\n" + pre, "x/y.nks"}, {"#line 90 \"q\"\n" + body, "b.nks"}};
        c.descs(joined(s));
        check(s, c);
    });
    // 2b. every short text of directives and statements: positions coincide in line, in file, in both, or in neither
    static const char *DL[] = {"#line 1", "#line 2", "#line 3", "#file \"p\"", "#file \"q\"", "#line 2 \"p\"", "n = n + 1;", "", "var @ = n; print(@);"};
    static const int ND = 9;
    static const char *DF[] = {"n = nil * 2;", "bad();", "{ bad(); }", "var z9 = coroutine(bad); resume(z9);", "call(bad);", "ob->m();"};
    r.add("directives", seqCount(ND, th ? 5 : 4) * 6 * 3, [](uint64_t i, Case &c) {
        Idx x(i); int f = x.pick(6), shape = x.pick(3);
        auto seq = seqDecode(x.v, ND);
        string head = "var n = 1; function bad() { n = nil * 2; } var ob = object(); ob.m = function(o) { n = nil * 2; };", body; int v = 0;
        if(shape == 1) head = "var n = 1; var ob = object();\nfunction bad() {\n#line 1\n n = nil * 2; }\n#file \"h\"\nob.m = function(o) { n = nil * 2; };";
        for(int k : seq) { string l = DL[k]; for(size_t p; (p = l.find('@')) != string::npos;) l.replace(p, 1, strf("v%d", v)); v++; body += l + "\n"; }
        body += DF[f];
        vector<Script> s;
        if(shape == 2) s = {{head, "a.nks"}, {body, "b.nks"}}; else s = {{head + "\n" + body + "\nprint(3);", "a.nks"}};
        c.descs(joined(s));
        check(s, c, 0, true);
    });
    // 3. compile errors on every line
    static const int NB = sizeof(BADLINES) / sizeof *BADLINES, NG = sizeof(GOOD) / sizeof *GOOD;
    r.add("compile", (uint64_t)NB * NG * NG * NG * 2, [](uint64_t i, Case &c) {
        Idx x(i); int b = x.pick(NB), g1 = x.pick(NG), g2 = x.pick(NG), g3 = x.pick(NG), pos = x.pick(2);
        string src, file = "t.nks"; int line = 1, badLine = 0; string badFile;
        string gs[3] = {GOOD[g1], GOOD[g2], GOOD[g3]};
        for(int k = 0; k < 3; k++) { size_t at = gs[k].find('@'); if(at != string::npos) gs[k].replace(at, 1, strf("v%d", k)); }
        src = "var a;\n"; line = 2;
        for(int k = 0; k < 3; k++) {
            if(k == pos + 1) { badLine = line; badFile = file; src += string(BADLINES[b]) + "\n"; line++; }
            src += gs[k] + "\n";
            if(gs[k] == "#line 40") line = 40; else if(gs[k] == "#file \"other\"") file = "other"; // the directive's own line does not count
            else { for(char ch : gs[k]) line += ch == '\n'; line++; }
        }
        src += "print(7);\n";
        c.descs(src);
        Host h;
        h.create(); h.compiler(); h.natives(); h.ran = true;
        bool ok = h.compile(src);
        string e = errorText(h, c);
        h.finalize();
        c.trace(); c.trans(); c.nontrivial(hashStr(src)); c.state(hashStr(e));
        vector<string> l = lines(e);
        Msg m;
        if(ok || e.empty() || !nkxVmHasErrors(h.vm)) c.fail("accepted: %s", BADLINES[b]);
        else {
            if(l.size() != nkxGetErrorCount(h.vm)) c.fail("%u errors counted, %zu reported: %s", (unsigned)nkxGetErrorCount(h.vm), l.size(), e.c_str());
            if(!parseLine(l[0], m)) c.fail("malformed: %s", e.c_str());
            else if(m.file != badFile || m.line != badLine) c.fail("error reported at the wrong place\n  library: %s\n  is at %s:%d", l[0].c_str(), badFile.c_str(), badLine);
            for(auto &q : l) if(!parseLine(q, m) || m.file != badFile || m.line < badLine) c.fail("error reported at the wrong place: %s\n  is at %s:%d", q.c_str(), badFile.c_str(), badLine);
        }
        nkxVmExecuteProgram(h.vm);
        if(!h.out.empty()) c.fail("a rejected script was executed: %s", h.out.c_str());
        h.destroy();
        for(auto &p : h.problems) c.fail("%s", p.c_str());
        c.outcome("rejected at the right line");
    });
    // 4. histories of host-raised errors
    static const int NO = 11;
    r.add("history", seqCount(NO, th ? 5 : 4), [](uint64_t i, Case &c) {
        vector<int> s = seqDecode(i, NO);
        Host h;
        h.create(); h.compiler(); h.natives(); h.ran = true;
        h.compile("function f(x) {\n return x / 0; }\nprint(1);\n\nprint(2);", "base");
        h.finalize();
        vector<string> want; // full lines, or the text only if it starts with '*'
        string d, out;
        bool stopped = false, ended = false;
        for(int op : s) {
            string big(op == 2 ? 300 : 5000, 'x');
            switch(op) {
            case 0: nkxAddError(h.vm, "first"); want.push_back("*first"); d += "AddError "; break;
            case 1: nkxAddError(h.vm, ""); want.push_back("*"); d += "AddError-empty "; break;
            case 2: case 3: nkxAddError(h.vm, big.c_str()); want.push_back("*" + big); d += "AddError-long "; break;
            case 4: nkxAddErrorEx(h.vm, "ex %s %n %d", "file.x", 12); want.push_back("file.x:12: ex %s %n %d"); d += "AddErrorEx "; break;
            case 5: nkxAddErrorEx(h.vm, "big", "base", 4000000000u); want.push_back("base:4000000000: big"); d += "AddErrorEx-base "; break;
            case 6: nkxAddErrorEx(h.vm, "", "", 0); want.push_back(":0: "); d += "AddErrorEx-empty "; break;
            case 7: nkxVmExecuteProgram(h.vm); d += "Execute "; if(!stopped && want.empty() && !ended) { out += "i1;i2;"; ended = true; } break;
            case 8: nkxVmIterate(h.vm, 1); d += "Iterate "; break;
            case 9: { // a failing host call
                d += "Call ";
                NKValue *f = nkxVmFindGlobalVariable(h.vm, nullptr, "f");
                if(f && f->type == NK_VALUETYPE_FUNCTIONID && want.empty()) {
                    NKValue fn = *f, a, ret; memset(&a, 0, sizeof a); memset(&ret, 0, sizeof ret);
                    nkxVmCallFunction(h.vm, &fn, 1, &a, &ret);
                    want.push_back("base:2: *");
                }
                break;
            }
            case 10: nkxAddErrorEx(h.vm, "tab\there\n", "\xc3\xa9.nks", 1); want.push_back("\xc3\xa9.nks:1: tab\there\n"); d += "AddErrorEx-bytes "; break;
            }
            c.trans();
            string e = errorText(h, c);
            size_t pos = 0; bool ok = true;
            for(auto &w : want) {
                if(w.size() >= 9 && w.compare(0, 9, "base:2: *") == 0) { if(e.compare(pos, 8, "base:2: ")) { ok = false; break; } pos = e.find('\n', pos); if(pos == string::npos) { ok = false; break; } pos++; continue; }
                string t = w;
                if(w[0] == '*') { size_t b = e.find(": ", pos); if(b == string::npos) { ok = false; break; } pos = b + 2; t = w.substr(1); }
                if(e.compare(pos, t.size() + 1, t + "\n")) { ok = false; break; }
                pos += t.size() + 1;
            }
            if(!ok || pos != e.size()) { c.fail("after %s\n  library: %s", d.c_str(), e.c_str()); break; }
            if(nkxGetErrorCount(h.vm) != want.size()) { c.fail("after %s %u errors are counted", d.c_str(), (unsigned)nkxGetErrorCount(h.vm)); break; }
            if((bool)nkxVmHasErrors(h.vm) != !want.empty()) { c.fail("nkxVmHasErrors after %s", d.c_str()); break; }
            if(op != 8 && !want.empty() && h.out.size() > out.size() && !stopped) { stopped = true; out = h.out; }
            if(stopped && h.out != out) { c.fail("executed after an error: %s", h.out.c_str()); break; }
            if(!want.empty()) { stopped = true; out = h.out; }
            c.state(hashStr(e));
        }
        c.descs(d); c.trace(); c.nontrivial(i); c.outcome(strf("%zu errors", want.size()));
        h.destroy();
        for(auto &p : h.problems) c.fail("%s", p.c_str());
    });
    // 5. a host call fails at every instruction boundary of a program
    static vector<corpus::Prog> P = corpus::without(corpus::FAILS);
    static const char *TAIL = "\nfunction zbad(n) {\n  if(n) {\n    return zbad(n - 1);\n  }\n  print(77);\n  return nil.x;\n}\nfunction zerr() { error(\"in call\"); print(78); }\nvar zready = 1;";
    static vector<corpus::Run> base;
    for(size_t p = 0; p < P.size(); p++) {
        base.push_back(corpus::baseline(string(TAIL + 1) + "\n" + P[p].src));
        uint64_t n = std::min<uint64_t>(base[p].n + 1, th ? 20000 : 400);
        if(!base[p].ok) continue;
        r.add(strf("call/%s", P[p].name), n * 3, [p](uint64_t i, Case &c) {
            uint64_t k = i / 3; int w = i % 3;
            c.desc("call failing (%d) after %llu instructions: %s", w, (unsigned long long)k, P[p].src);
            string src = string(TAIL + 1) + "\n" + P[p].src;
            Host h;
            if(!corpus::start(h, src)) { c.fail("does not load"); return; }
            nkxVmIterate(h.vm, k);
            NKValue *g = nkxVmFindGlobalVariable(h.vm, nullptr, w == 1 ? "zerr" : "zbad"), *rd = nkxVmFindGlobalVariable(h.vm, nullptr, "zready");
            if(!g || !rd || rd->intData != 1 || g->type != NK_VALUETYPE_FUNCTIONID) { h.destroy(); return; }
            string before = h.out;
            NKValue fn = *g, a, ret; memset(&a, 0, sizeof a); memset(&ret, 0, sizeof ret); a.type = NK_VALUETYPE_INT; a.intData = 2;
            nkxVmCallFunction(h.vm, &fn, w == 0 ? 1 : 0, &a, &ret);
            string e = errorText(h, c);
            vector<string> l = lines(e);
            Msg m;
            string said = h.out.substr(before.size());
            if(nkxGetErrorCount(h.vm) != 1 || l.size() != 1 || !parseLine(l[0], m)) c.fail("%u errors: %s", (unsigned)nkxGetErrorCount(h.vm), e.c_str());
            else if(w == 0 && (m.file != "t.nks" || m.line != 6 || said != "i77;")) c.fail("failing call: %s %s", e.c_str(), said.c_str());
            else if(w == 1 && (m.file != "t.nks" || m.line != 8 || m.text != "in call" || !said.empty())) c.fail("failing call: %s %s", e.c_str(), said.c_str());
            else if(w == 2 && !said.empty()) c.fail("called with too few arguments: %s", said.c_str());
            before = h.out;
            nkxVmIterate(h.vm, 5); nkxVmExecuteProgram(h.vm);
            if(h.out != before) c.fail("executed after a failed call: %s", h.out.substr(before.size()).c_str());
            c.trace(); c.trans(k); c.nontrivial(i * 131 + p); c.state(hashStr(e + h.out)); c.outcome("call failed, program stopped");
            h.destroy();
            for(auto &q : h.problems) c.fail("%s", q.c_str());
        });
    }
    // 6. programs without an error report none
    r.add("clean", base.size(), [](uint64_t i, Case &c) {
        c.descs(P[i].src);
        Host h;
        if(!corpus::start(h, P[i].src)) { c.fail("does not load"); return; }
        nkxSetRemainingInstructionLimit(h.vm, 300000);
        nkxVmExecuteProgram(h.vm);
        if(nkxGetErrorCount(h.vm) || nkxVmHasErrors(h.vm) || !errorText(h, c).empty()) c.fail("reports an error: %s", h.errors().c_str());
        c.trace(); c.outcome("clean");
        h.destroy();
    });
    // 7. the stack limit is reached at every push of a block of variables in every layout: even the first instruction of a line
    // belongs to that line
    static const unsigned NL = th ? 7 : 6;
    r.add("firsts", 4 * ipow(4, NL), [](uint64_t i, Case &c) {
        Idx x(i); int form = x.pick(4);
        static const char *BR[] = {" ", "\n", "\n\n", "\n#line 90\n"};
        vector<int> line; string one, many; int at = 1; Idx y(x.v); string tail;
        auto put = [&](const string &s) { one += s; many += s; };
        static const char *HEAD[] = {"if(1) {", "{", "do {", ""}, *TAILS[] = {"} else { var w = 2; }", "}", "} while(0);", ""};
        // the program starts with an empty stack and every variable takes one place; deciding the if takes two, one after the other

        put(HEAD[form]);
        for(unsigned k = 0; k < NL; k++) {
            int b = y.pick(4);
            one += " "; many += BR[b]; at = b == 3 ? 90 : at + b;
            line.push_back(at);
            if(form == 3) { put("{"); tail += "}"; }
            put(strf("var v%u = \"s%u\";", k, k));
        }
        put(tail + TAILS[form]);
        c.descs(many);
        auto go = [&](const string &src, int limit, Msg &m) { // 1: ran, 0: stopped by an error, -1: something else
            Host h; int res = -1;
            if(h.load(src)) {
                nkxSetMaxStackSize(h.vm, limit); nkxVmExecuteProgram(h.vm);
                string e = errorText(h, c); vector<string> l = lines(e);
                if(!nkxVmHasErrors(h.vm)) res = 1; else if(l.size() == 1 && parseLine(l[0], m)) res = 0; else c.fail("errors: %s", e.c_str());
            } else c.fail("rejected: %s", h.errors().c_str());
            h.destroy(); for(auto &q : h.problems) c.fail("%s", q.c_str());
            c.trans();
            return res;
        };
        Msg m;
        for(unsigned k = form ? 0 : 2; k < NL && !c.failed(); k++) {
            if(go(many, k, m) != 0) { c.fail("no error with room for %u values", k); break; }
            if(m.line != line[k]) c.fail("push %u of %u is on line %d but its error was reported at line %d", k + 1, NL, line[k], m.line);
        }
        if(!c.failed() && (go(one, 64, m) != 1 || go(many, 64, m) != 1)) c.fail("does not run");
        c.trace(NL + 1); c.nontrivial(i); c.state(hashStr(many)); c.outcome("pushes reported at their lines");
    });
    r.bounds = strf("%d failing expressions x %d places x %d layouts; %d rejected lines x %d^3 contexts x 2 positions; host error histories of %d operations to depth %d; host call at every instruction (up to %d); %u pushes in 4 forms x 4^%u layouts, stack exhausted at each", NF, NP, th ? 600 : 60, NB, NG, NO, th ? 5 : 4, th ? 20000 : 400, NL, NL);
    r.assumptions = {"a statement spread over several lines may be reported at any of its lines", "#line N numbers the following line N; the line of a #file directive is not counted"};
}
