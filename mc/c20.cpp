// C20: a native function is entered once per matching call with exactly the arguments, and never on a mismatch; script
// functions check their argument count. Every declared signature x every argument tuple x call forms, and every argument
// count, value, return value and error position.
#include "host.h"
#include <math.h>
#include <tuple>
using namespace mc;
using std::string;
using std::vector;

// -- declared parameter types and argument values ------------------------------------------------------------------
enum { P_ANY, P_INT, P_FLOAT, P_STRING, P_FUNCTION, P_OBJECT, P_RES, P_OTHER, P_BOGUS, NPARAM };
static const char *PN[] = {"any", "int", "float", "string", "function", "object", "Res", "Other", "unregistered type"};
enum { V_NIL, V_INT, V_FLOAT, V_STRING, V_SFUN, V_NFUN, V_OBJECT, V_RES, V_OTHER, V_COROUTINE, NVALUE };
static const char *VS[] = {"nil", "7", "2.5", "\"s\"", "sf", "gc", "po", "ro", "oo", "cc"};
static const char *VR[] = {"nil", "i7", "f2.5", "'s'", "fn", "fn", "{#1 n=i1}", "Res1{#0}", "<Other>{#0}", "<coroutine>{#0}"};
static bool fits(int p, int v) {
    switch(p) {
    case P_ANY: return true;
    case P_INT: return v == V_INT;
    case P_FLOAT: return v == V_FLOAT;
    case P_STRING: return v == V_STRING;
    case P_FUNCTION: return v == V_SFUN || v == V_NFUN;
    case P_OBJECT: return v >= V_OBJECT;
    case P_RES: return v == V_RES;
    case P_OTHER: return v == V_OTHER;
    }
    return false;
}
static const string PRELUDE = "function sf(x) { return x; } var po = object(); po.n = 1; var ro = res(); var oo = hook(\"other\"); var cc = coroutine(sf, 1); var c; var r = -1; var o = object();\n";

// setup through the variadic interface
static enum NKValueType ptype(int p) { static const enum NKValueType T[] = {NK_VALUETYPE_NIL, NK_VALUETYPE_INT, NK_VALUETYPE_FLOAT, NK_VALUETYPE_STRING, NK_VALUETYPE_FUNCTIONID, NK_VALUETYPE_OBJECTID, NK_VALUETYPE_OBJECTID, NK_VALUETYPE_OBJECTID, NK_VALUETYPE_OBJECTID}; return T[p]; }
static NKVMExternalDataTypeID pid(Host &h, int p) { NKVMExternalDataTypeID t; t.id = p == P_RES ? h.tRes.id : p == P_OTHER ? h.tOther.id : p == P_BOGUS ? 77 : NK_INVALID_VALUE; return t; }
template<int D> struct Setup {
    template<class... A> static void next(Host &h, const char *name, NKVMFunctionCallback f, bool global, const vector<int> &sig, size_t at, A... a) {
        if(at == sig.size()) { nkxVmSetupExternalFunction(h.vm, h.cs, name, f, global, sig.size(), a...); return; }
        if(ptype(sig[at]) == NK_VALUETYPE_OBJECTID) Setup<D - 1>::next(h, name, f, global, sig, at + 1, a..., (int)NK_VALUETYPE_OBJECTID, pid(h, sig[at]));
        else Setup<D - 1>::next(h, name, f, global, sig, at + 1, a..., (int)ptype(sig[at]));
    }
};
template<> struct Setup<0> {
    template<class... A> static void next(Host &h, const char *name, NKVMFunctionCallback f, bool global, const vector<int> &sig, size_t, A... a) { nkxVmSetupExternalFunction(h.vm, h.cs, name, f, global, sig.size(), a...); }
};
static void setup(Host &h, const char *name, NKVMFunctionCallback f, bool global, const vector<int> *sig) {
    if(sig) Setup<4>::next(h, name, f, global, *sig, 0);
    else nkxVmSetupExternalFunction(h.vm, h.cs, name, f, global, NK_INVALID_VALUE);
}

// -- the native under test -----------------------------------------------------------------------------------------
struct Extra { int ret = 0; int errorAt = 0, entered = 0; std::function<void(Host &, NKVMFunctionCallbackData *)> probe; };
static Extra X;
static void record(Host &h, NKVMFunctionCallbackData *d, const char *name) {
    h.nativeCalls++;
    string s;
    for(nkuint32_t i = 0; i < d->argumentCount; i++) { NKValue v = d->arguments[i]; s += (i ? "," : "") + h.repr(&v, 1); }
    h.out += string(name) + "(" + s + ");";
    X.entered++;
}
static const int NRET = 10;
static const char *RR[] = {"i0", "i42", "f0.5", "'ret'", "nil", "fn", "{#0}", "i-2147483648", "''", "'arg'"};
static void t(NKVMFunctionCallbackData *d) {
    Host &h = *(Host *)nkxGetUserData(d->vm);
    record(h, d, "t");
    if(X.probe) X.probe(h, d);
    if(X.errorAt && X.entered == X.errorAt) { nkxValueSetInt(d->vm, &d->returnValue, 99); nkxAddError(d->vm, "refused by native"); return; }
    switch(X.ret) {
    case 1: nkxValueSetInt(d->vm, &d->returnValue, 42); break;
    case 2: nkxValueSetFloat(d->vm, &d->returnValue, 0.5f); break;
    case 3: nkxValueSetString(d->vm, &d->returnValue, "ret"); break;
    case 4: nkxValueSetNil(d->vm, &d->returnValue); break;
    case 5: { NKVMExternalFunctionID e = nkxVmRegisterExternalFunction(d->vm, "t", t); nkxValueSetFunction(d->vm, &d->returnValue, nkxVmGetOrCreateInternalFunctionForExternalFunction(d->vm, e)); break; }
    case 6: nkxCreateObject(d->vm, &d->returnValue); break;
    case 7: nkxValueSetInt(d->vm, &d->returnValue, (-2147483647 - 1)); break;
    case 8: nkxValueSetString(d->vm, &d->returnValue, ""); break;
    case 9: if(d->argumentCount) d->returnValue = d->arguments[0]; else nkxValueSetString(d->vm, &d->returnValue, "arg"); break;
    }
}
static void u(NKVMFunctionCallbackData *d) { record(*(Host *)nkxGetUserData(d->vm), d, "u"); }
static void hook(Host &h, NKVMFunctionCallbackData *d) {
    string what = d->argumentCount ? nkxValueToString(d->vm, &d->arguments[0]) : "";
    if(what == "other") { NKValue v; memset(&v, 0, sizeof v); nkxCreateObject(d->vm, &v); nkxVmObjectSetExternalType(d->vm, &v, h.tOther); d->returnValue = v; }
}
static bool begin(Host &h, const string &src, std::function<void(Host &)> natives, const char *file = "t.nks") {
    X = Extra();
    h.onHook = hook;
    h.create(); h.compiler(); h.natives(); natives(h);
    bool ok = h.compile(src, file);
    h.finalize();
    return ok;
}
static void finish(Case &c, Host &h) { h.destroy(); for(auto &p : h.problems) c.fail("%s", p.c_str()); X = Extra(); }

// -- call forms ----------------------------------------------------------------------------------------------------
static const int NFORM = 9;
static const char *FN[] = {"statement", "in a function", "called by the host", "coroutine", "in a coroutine", "field", "through a variable", "restored", "resumed by the host"};
static string form(int f, const string &callee, const string &args) {
    string cargs = args.empty() ? "" : ", " + args;
    switch(f) {
    case 0: case 7: return "r = " + callee + "(" + args + "); ";
    case 1: return "function w() { var l = 1; return " + callee + "(" + args + "); } r = w(); ";
    case 2: return "r = call(" + callee + cargs + "); ";
    case 3: return "c = coroutine(" + callee + cargs + "); r = resume(c); ";
    case 4: return "function w() { var l = 1; return " + callee + "(" + args + "); } c = coroutine(w); r = resume(c); ";
    case 5: return "o.m = " + callee + "; r = o.m(" + args + "); ";
    case 6: return "var f = " + callee + "; r = f(" + args + "); ";
    case 8: return "c = coroutine(" + callee + cargs + "); function w() { return resume(c); } r = call(w); ";
    }
    return "";
}
// Runs and compares: the native is entered with `want`, or not at all (want == null) and the script stops.
static void callCheck(Case &c, int f, const string &src, std::function<void(Host &)> natives, int ret, const string *want, const string &wantRet, const char *mustMention = nullptr) {
    string full = PRELUDE + "print(\"go\");\n" + src + "\nprint(\"ret\", r);";
    Host h;
    if(!begin(h, full, natives)) { c.fail("does not compile: %s", h.errors().c_str()); finish(c, h); return; }
    X.ret = ret;
    Host h2; Host *x = &h;
    if(f == 7) {
        for(int n = 0; n < 2000 && h.out.empty() && !h.hasErrors(); n++) nkxVmIterate(h.vm, 1);
        Stream s;
        if(!h.save(s)) { c.fail("save failed: %s", h.errors().c_str()); finish(c, h); return; }
        h2.onHook = hook;
        h2.create(); h2.natives(); natives(h2);
        h2.out = h.out;
        if(!h2.restore(s)) { c.fail("restore failed: %s", h2.errors().c_str()); finish(c, h2); finish(c, h); return; }
        x = &h2;
    }
    bool ok = nkxVmExecuteProgram(x->vm);
    string e = x->errors();
    string expect = "'go';" + (want ? *want + "'ret'," + wantRet + ";" : string(""));
    if(x->out != expect) c.fail("observed %s expected %s (errors: %s)", x->out.c_str(), expect.c_str(), e.c_str());
    if(ok != (want != nullptr) || ok != e.empty()) c.fail("matching call %s: returned %d with errors '%s'", want ? "refused" : "admitted", (int)ok, e.c_str());
    if(!want && e.compare(0, 6, "t.nks:")) c.fail("the error is not reported at a position: %s", e.c_str());
    if(mustMention && !want && e.find(mustMention) == string::npos) c.fail("error '%s' does not mention '%s'", e.c_str(), mustMention);
    c.trace(); c.trans(1 + X.entered); c.outcome(x->out + firstLine(e)); c.state(hashStr(x->out + firstLine(e)));
    if(f == 7) { h2.destroy(); for(auto &p : h2.problems) c.fail("%s", p.c_str()); }
    finish(c, h);
}
static vector<int> sigAt(uint64_t i, int n, int len) { vector<int> s; for(int k = 0; k < len; k++) { s.push_back(i % n); i /= n; } return s; }
static string names(const vector<int> &s, const char **n) { string r; for(int k : s) r += (r.empty() ? "" : ", ") + string(n[k]); return "(" + r + ")"; }
static void signature(Case &c, const vector<int> *sig, const vector<int> &args, int f, int ret) {
    c.descs(string(FN[f]) + ": t" + (sig ? names(*sig, PN) : "(...)") + " called with " + names(args, VS));
    string a, r; for(size_t k = 0; k < args.size(); k++) { a += (k ? ", " : "") + string(VS[args[k]]); r += (k ? "," : "") + string(VR[args[k]]); }
    bool match = true;
    if(sig) { match = sig->size() == args.size(); for(size_t k = 0; match && k < args.size(); k++) match = fits((*sig)[k], args[k]); }
    string want = "t(" + r + ");", wr = ret == 9 ? args.empty() ? "'arg'" : VR[args[0]] : RR[ret];
    callCheck(c, f, form(f, "t", a), [&](Host &h) { setup(h, "t", t, true, sig); }, ret, match ? &want : nullptr, wr);
    c.nontrivial(hashStr((sig ? names(*sig, PN) : "") + names(args, VS)) * 31 + f);
}

// -- argument counts ----------------------------------------------------------------------------------------------
static string ints(int n, int from = 1) { string s; for(int i = 0; i < n; i++) s += (i ? ", " : "") + std::to_string(from + i); return s; }
static string intsR(int n, int from = 1) { string s; for(int i = 0; i < n; i++) s += (i ? ",i" : "i") + std::to_string(from + i); return s; }
static void counts(Case &c, int declared, int passed, int f) { // native, all parameters unchecked
    c.desc("%s: native declared with %d parameters, %d passed", FN[f], declared, passed);
    string want = "t(" + intsR(passed) + ");";
    auto nat = [&](Host &h) {
        if(declared < 0) { setup(h, "t", t, true, nullptr); return; }
        const int N = NK_VALUETYPE_NIL;
        nkxVmSetupExternalFunction(h.vm, h.cs, "t", t, nktrue, declared, N, N, N, N, N, N, N, N, N, N, N, N, N, N, N, N);
    };
    callCheck(c, f, form(f, "t", ints(passed)), nat, 1, declared < 0 || declared == passed ? &want : nullptr, "i42");
    c.nontrivial((declared + 1) * 100000 + passed * 10 + f);
}
static void scriptCounts(Case &c, int declared, int passed, int f, int kind) { // script function
    static const char *KN[] = {"named", "anonymous", "with locals", "recursive"};
    c.desc("%s: %s script function of %d parameters, %d passed", FN[f], KN[kind], declared, passed);
    string params, show; for(int i = 0; i < declared; i++) { params += (i ? ", p" : "p") + std::to_string(i); show += (i ? ", p" : "p") + std::to_string(i); }
    string body = kind == 3 ? "if(r == -1) { r = -2; return g(" + show + "); } " : kind == 2 ? "var l1 = 100; { var l2 = 200; " : "";
    body += "t(" + show + ");" + (kind == 2 ? " } return l1 - 99;" : " return 1;");
    string def = kind == 1 ? "var g = function(" + params + ") { " + body + " }; " : "function g(" + params + ") { " + body + " } ";
    string want = "t(" + intsR(passed) + ");";
    callCheck(c, f, def + form(f, "g", ints(passed)), [&](Host &h) { setup(h, "t", t, true, nullptr); }, 1, declared == passed ? &want : nullptr, "i1");
    c.nontrivial(((declared * 20 + passed) * 10 + f) * 4 + kind);
}
// -- raw values ---------------------------------------------------------------------------------------------------
static vector<std::pair<string, string>> RAW; // script text, repr
static void raw(Case &c, int a, int b, int f) {
    c.descs(string(FN[f]) + ": t(" + RAW[a].first + ", " + RAW[b].first + ")");
    string want = "t(" + RAW[a].second + "," + RAW[b].second + ");";
    callCheck(c, f, form(f, "t", RAW[a].first + ", " + RAW[b].first), [&](Host &h) { setup(h, "t", t, true, nullptr); }, 9, &want, RAW[a].second);
    c.nontrivial((a * 100 + b) * 10 + f);
}
// -- errors raised by natives ---------------------------------------------------------------------------------------
static const vector<string> ERR = {
    "t(1); t(2); t(3);", "r = t(1) + t(2) + t(3);", "t(t(1), t(2), t(3));", "if(t(1) == t(2)) t(3); else t(4);", "var i; for(i = 0; i < 4; ++i) t(i);", "var n = 0; while(t(1) == n) { t(2); n = n + (o.q == nil); o.q = 1; }", "o[t(1)] = t(2); t(3);", "o.m = t; o.m(t(1)); o->m(t(2));",
    "function w(x) { t(x); if(x) w(x - 1); t(x); return x; } w(2);", "c = coroutine(function() { t(1); yield(t(2)); t(3); return t(4); }); resume(c); t(5); resume(c); t(6);", "call(t, 1); call(function() { t(2); return t(3); }); t(4);",
    "c = coroutine(t, 1); resume(c); c = coroutine(t, 2); resume(c); t(3);", "return_ = 1;", "var a = object(); a._exec = t; a(1); a._data = 5; a(2); t(3);", "function k(x, y) { return t(x); } k(t(1), k(t(2), t(3)));", "do { t(1); t(2); } while(t(3) != 0); t(4);", "{ var l = t(1); { var m = t(2); t(l, m); } } t(9);", "r = -t(1); r = !t(2); o[t(3)]; len(\"a\"); t(4);",
};
static void errors(Case &c, int k, int at) {
    string src = ERR[k] + " print(\"end\");";
    c.desc("native error at entry %d of: %s", at, ERR[k].c_str());
    string all; bool ended; int n;
    { Host h; if(!begin(h, PRELUDE + src, [](Host &h) { setup(h, "t", t, true, nullptr); })) { finish(c, h); return; } nkxVmExecuteProgram(h.vm); all = h.out; ended = !h.hasErrors(); n = X.entered; finish(c, h); }
    if(at > n) return;
    Host h;
    begin(h, PRELUDE + src, [](Host &h) { setup(h, "t", t, true, nullptr); });
    X.errorAt = at;
    bool ok = nkxVmExecuteProgram(h.vm);
    // the output up to and including the at-th entry
    size_t p = 0; for(int i = 0; i < at; i++) { p = all.find("t(", p); p = all.find(");", p) + 2; }
    string e = h.errors();
    if(h.out != all.substr(0, p)) c.fail("observed %s expected %s", h.out.c_str(), all.substr(0, p).c_str());
    if(ok || nkxGetErrorCount(h.vm) != 1 || e.find("refused by native") == string::npos || e.compare(0, 6, "t.nks:")) c.fail("result %d, %u errors: %s", (int)ok, nkxGetErrorCount(h.vm), e.c_str());
    int before = X.entered;
    nkxVmIterate(h.vm, 50); nkxVmExecuteProgram(h.vm);
    if(X.entered != before) c.fail("the native was entered after its error");
    (void)ended;
    finish(c, h);
    c.trace(); c.nontrivial(k * 100 + at); c.state(hashStr(all.substr(0, p)));
}
// -- helpers for natives --------------------------------------------------------------------------------------------
static bool checkArgs(NKVMFunctionCallbackData *d, const vector<int> &s) { // s: NKValueType numbers
    switch(s.size()) {
    case 0: return nkxFunctionCallbackCheckArguments(d, "t", 0);
    case 1: return nkxFunctionCallbackCheckArguments(d, "t", 1, s[0]);
    case 2: return nkxFunctionCallbackCheckArguments(d, "t", 2, s[0], s[1]);
    }
    return nkxFunctionCallbackCheckArguments(d, "t", 3, s[0], s[1], s[2]);
}
static int vtype(int v) { return v == V_NIL ? NK_VALUETYPE_NIL : v == V_INT ? NK_VALUETYPE_INT : v == V_FLOAT ? NK_VALUETYPE_FLOAT : v == V_STRING ? NK_VALUETYPE_STRING : v <= V_NFUN ? NK_VALUETYPE_FUNCTIONID : NK_VALUETYPE_OBJECTID; }
static void helper(Case &c, const vector<int> &sig, const vector<int> &args, int kind) {
    string a; for(size_t k = 0; k < args.size(); k++) a += (k ? ", " : "") + string(VS[args[k]]);
    string s; for(int k : sig) s += std::to_string(k) + " ";
    c.desc("%s [%s] with %s", kind == 0 ? "nkxFunctionCallbackCheckArguments" : "nkxFunctionCallbackCheckArgCount", s.c_str(), names(args, VS).c_str());
    Host h;
    begin(h, PRELUDE + "t(" + a + "); print(\"end\");", [](Host &h) { setup(h, "t", t, true, nullptr); });
    int got = -1; bool err = false;
    X.probe = [&](Host &h, NKVMFunctionCallbackData *d) { got = kind == 0 ? checkArgs(d, sig) : nkxFunctionCallbackCheckArgCount(d, sig.size(), "t"); err = nkxVmHasErrors(h.vm); };
    nkxVmExecuteProgram(h.vm);
    bool match = sig.size() == args.size();
    if(kind == 0) for(size_t k = 0; match && k < args.size(); k++) match = sig[k] == vtype(args[k]);
    if(got != (int)match || err == match) c.fail("returned %d, error %d; matching: %d", got, (int)err, (int)match);
    if((h.out.find("'end'") != string::npos) != match || h.hasErrors() == match) c.fail("the script went on: %s", h.out.c_str());
    finish(c, h);
    c.trace(); c.nontrivial(hashStr(s + names(args, VS)) + kind); c.outcome(match ? "match" : "mismatch");
}
static void dataArg(Case &c, const vector<int> &args, int arg, int type) {
    static const char *TN[] = {"Res", "Other", "no type", "unregistered"};
    string a; for(size_t k = 0; k < args.size(); k++) a += (k ? ", " : "") + string(VS[args[k]]);
    c.desc("nkxFunctionCallbackGetExternalDataArgument %d as %s of %s", arg, TN[type], names(args, VS).c_str());
    Host h; static int otherData;
    begin(h, PRELUDE + "t(" + a + "); print(\"end\");", [](Host &h) { setup(h, "t", t, true, nullptr); });
    void *got = nullptr; bool err = false; void *want = nullptr;
    bool match = arg < (int)args.size() && ((type == 0 && args[arg] == V_RES) || (type == 1 && args[arg] == V_OTHER));
    X.probe = [&](Host &h, NKVMFunctionCallbackData *d) {
        if(match && type == 1) nkxVmObjectSetExternalData(d->vm, &d->arguments[arg], &otherData);
        NKVMExternalDataTypeID id = type == 0 ? h.tRes : type == 1 ? h.tOther : pid(h, type == 2 ? P_OBJECT : P_BOGUS);
        got = nkxFunctionCallbackGetExternalDataArgument(d, "t", arg, id);
        err = nkxVmHasErrors(h.vm);
        want = !match ? nullptr : type == 1 ? (void *)&otherData : (void *)h.live[1];
    };
    nkxVmExecuteProgram(h.vm);
    if(got != want || err == match) c.fail("returned %s data, error %d; matching: %d", got == want ? "the right" : got ? "other" : "no", (int)err, (int)match);
    if((h.out.find("'end'") != string::npos) != match) c.fail("the script went on: %s", h.out.c_str());
    finish(c, h);
    c.trace(); c.nontrivial(hashStr(names(args, VS)) + arg * 5 + type);
}
// -- registrations -------------------------------------------------------------------------------------------------
static void again(Case &c, int s1, int s2, int v, int how) {
    static const char *HN[] = {"same name, same function", "another name", "another function of another name", "registered afterwards without parameters"};
    c.desc("%s: declared %s, then %s, called with %s", HN[how], PN[s1], PN[s2], VS[v]);
    vector<int> a{s1}, b{s2};
    string arg = VS[v], w1 = string("t(") + VR[v] + ");", w2 = string(how == 2 ? "u(" : "t(") + VR[v] + ");";
    // the first name keeps its own declaration unless it is the one declared again
    bool m1 = how == 0 ? fits(s2, v) : fits(s1, v), m2 = fits(s2, v);
    auto nat = [&](Host &h) {
        setup(h, "t", t, true, &a);
        if(how == 0) setup(h, "t", t, false, &b);
        if(how == 1) setup(h, "t2", t, true, &b);
        if(how == 2) setup(h, "t2", u, true, &b);
        if(how == 3) nkxVmRegisterExternalFunction(h.vm, "t", t);
    };
    callCheck(c, 0, form(0, "t", arg), nat, 1, m1 ? &w1 : nullptr, "i42", "");
    if(how == 1 || how == 2) callCheck(c, 0, form(0, "t2", arg), nat, 1, m2 ? &w2 : nullptr, how == 2 ? "i0" : "i42", "");
    c.nontrivial(((s1 * NPARAM + s2) * NVALUE + v) * 4 + how);
}

void define(Registry &r) {
    bool th = r.thorough();
    r.level = "model_checking";
    r.rule = "every declared signature against every argument tuple in every call form: the native is entered exactly once with exactly those values and its return value comes back, if and only if the independent matching rule admits the call; otherwise an error at a position, no entry and nothing afterwards; likewise script functions of all parameter counts, all argument counts, all pairs of special values, an error raised at every entry, and the argument-checking helpers";
    // signatures: up to 2 parameters, tuples up to 2 (3: thorough)
    int SN = 1 + 1 + NPARAM + NPARAM * NPARAM, maxA = th ? 3 : 2;
    int TN = 0; for(int k = 0; k <= maxA; k++) TN += ipow(NVALUE, k);
    auto sigOf = [](uint64_t i, vector<int> &s) { if(i == 0) return false; i--; if(i == 0) return true; i--; if(i < NPARAM) { s = {(int)i}; return true; } i -= NPARAM; s = sigAt(i, NPARAM, 2); return true; };
    auto tupOf = [](uint64_t i) { int len = 0; while(i >= ipow(NVALUE, len)) i -= ipow(NVALUE, len++); return sigAt(i, NVALUE, len); };
    for(int f = 0; f < NFORM; f++) r.add(string("signatures/") + FN[f], (uint64_t)SN * TN, [=](uint64_t i, Case &c) { Idx d(i); vector<int> s; bool has = sigOf(d.pick(SN), s); vector<int> a = tupOf(d.v); signature(c, has ? &s : nullptr, a, f, 1); if(i % 4999 == 0) c.sample(names(s, PN) + " <- " + names(a, VS)); });
    // three parameters: position matters, so at least the tuples with one wrong position
    int P3 = th ? NPARAM : 5, V3 = th ? NVALUE : 6;
    static const int PS[] = {P_ANY, P_RES, P_INT, P_OBJECT, P_OTHER, P_FLOAT, P_STRING, P_FUNCTION, P_BOGUS}, VSEL[] = {V_INT, V_RES, V_OTHER, V_OBJECT, V_NIL, V_STRING, V_FLOAT, V_SFUN, V_NFUN, V_COROUTINE};
    r.add("three", ipow(P3, 3) * ipow(V3, 3), [=](uint64_t i, Case &c) { Idx d(i); vector<int> s, a; for(int k = 0; k < 3; k++) { s.push_back(PS[d.pick(P3)]); a.push_back(VSEL[d.pick(V3)]); } signature(c, &s, a, 0, 9); });
    r.add("returns", NRET * (1 + NVALUE) * NFORM, [](uint64_t i, Case &c) { Idx d(i); int ret = d.pick(NRET), f = d.pick(NFORM); vector<int> a; if(d.v) a.push_back(d.v - 1); signature(c, nullptr, a, f, ret); });
    int NC = th ? 17 : 9;
    r.add("counts", (NC + 1) * (NC + 2) * NFORM, [=](uint64_t i, Case &c) { Idx d(i); int f = d.pick(NFORM), p = d.pick(NC + 2); counts(c, (int)d.v - 1, p, f); });
    r.add("many", 100 * NFORM, [](uint64_t i, Case &c) { counts(c, -1, i % 100, i / 100); });
    r.add("script", NC * (NC + 2) * NFORM * 4, [=](uint64_t i, Case &c) { Idx d(i); int f = d.pick(NFORM), k = d.pick(4), p = d.pick(NC + 2); scriptCounts(c, d.v, p, f, k); });
    RAW = {{"0", "i0"}, {"-1", "i-1"}, {"2147483647", "i2147483647"}, {"-2147483647 - 1", "i-2147483648"}, {"0.0", "f0"}, {"-0.0", "f-0"}, {"0.1", strf("f%.9g", 0.1f)}, {"1.0 / 3.0", strf("f%.9g", 1.0f / 3.0f)}, {"16777217.0", strf("f%.9g", 16777216.0f)}, {"3.0 * 100000000000000000000000000000000000000.0", strf("f%.9g", 3e38f)}, {"\"\"", "''"}, {"\"a\\n\\t\\\"\"", "'a\n\t\"'"}, {"\"\xc3\xa9\xff\"", "'\xc3\xa9\xff'"}, {"\"aa\" + \"b\" + 1", "'aab1'"}, {"nil", "nil"}, {"po", "{#1 n=i1}"}, {"ro", "Res1{#0}"}, {"sf", "fn"}, {"print", "fn"}, {"object()", "{#0}"}};
    r.add("values", RAW.size() * RAW.size() * NFORM, [](uint64_t i, Case &c) { Idx d(i); int f = d.pick(NFORM), a = d.pick(RAW.size()); raw(c, a, d.v, f); });
    r.add("errors", ERR.size() * 16, [](uint64_t i, Case &c) { errors(c, i % ERR.size(), 1 + i / ERR.size()); });
    int HS = 1 + 6 + 36, HT = 1 + NVALUE + NVALUE * NVALUE;
    r.add("helpers", HS * HT * 2, [=](uint64_t i, Case &c) { Idx d(i); int kind = d.pick(2); uint64_t k = d.pick(HS); vector<int> s; if(k > 6) s = sigAt(k - 7, 6, 2); else if(k) s = {(int)k - 1}; uint64_t v = d.v; int len = 0; while(v >= ipow(NVALUE, len)) v -= ipow(NVALUE, len++); helper(c, s, sigAt(v, NVALUE, len), kind); });
    r.add("data", (1 + NVALUE + NVALUE * NVALUE) * 3 * 4, [](uint64_t i, Case &c) { Idx d(i); int arg = d.pick(3), ty = d.pick(4); uint64_t v = d.v; int len = 0; while(v >= ipow(NVALUE, len)) v -= ipow(NVALUE, len++); dataArg(c, sigAt(v, NVALUE, len), arg, ty); });
    r.add("again", NPARAM * NPARAM * NVALUE * 4, [](uint64_t i, Case &c) { Idx d(i); int s1 = d.pick(NPARAM), s2 = d.pick(NPARAM), v = d.pick(NVALUE); again(c, s1, s2, v, d.v); });
    r.bounds = strf("%d signatures (undeclared; 0 to 2 parameters of %d types) x %d argument tuples (0 to %d of %d kinds) x %d call forms; %llu three-parameter signatures x %llu tuples; 0 to %d declared x 0 to %d passed arguments for natives and script functions, up to 99 for undeclared; %zu^2 special values; an error at each of the first 16 entries of %zu programs", SN, NPARAM, TN, maxA, NVALUE, NFORM, (unsigned long long)ipow(P3, 3), (unsigned long long)ipow(V3, 3), NC - 1, NC + 1, RAW.size(), ERR.size());
    r.assumptions = {"a mismatching call made by a coroutine started with the native itself may be reported when it is created or when it is resumed"};
}
