// uses: lang.cpp corpus.cpp
// C24: a global is one cell shared by host and script. All histories of declarations, writes, shadowings, errors and
// collections over several names, compared completely after every step through the compiler, the VM and a restored VM; all
// numbers of globals; every instruction boundary and every call context for reads and writes by the host.
#include "corpus.h"
#include "diff.h"
using namespace mc;
using std::string;
using std::vector;

static const int NN = 3, NK = 7;
static const char *NAME[] = {"a", "ab", "b"};
static const char *ABSENT[] = {"", "A", "abc", "a ", "_", "l", "x", "aa", "ba", "t.nks", "hostsub"};
// values of every kind: as script text and as the host sees them
static string script(int kind, int n) { switch(kind) { case 0: return std::to_string(n); case 1: return strf("%d.5", n); case 2: return strf("\"s%d\"", n); case 3: return "nil"; case 4: return strf("mk(%d)", n); case 5: return "sf"; default: return "str"; } }
static string shown(int kind, int n) { switch(kind) { case 0: return strf("i%d", n); case 1: return strf("f%.9g", n + 0.5); case 2: return strf("'s%d'", n); case 3: return "nil"; case 4: return strf("{#1 v=i%d}", n); default: return "fn"; } }
static NKValue value(Host &h, int kind, int n) {
    NKValue v; memset(&v, 0, sizeof v); nkxValueSetNil(h.vm, &v);
    switch(kind) {
    case 0: nkxValueSetInt(h.vm, &v, n); break;
    case 1: nkxValueSetFloat(h.vm, &v, n + 0.5f); break;
    case 2: nkxValueSetString(h.vm, &v, strf("s%d", n).c_str()); break;
    case 4: { nkxCreateObject(h.vm, &v); NKValue k; memset(&k, 0, sizeof k); nkxValueSetString(h.vm, &k, "v"); NKValue *f = nkxVmObjectFindOrAddEntry(h.vm, &v, &k, nkfalse); if(f) nkxValueSetInt(h.vm, f, n); break; }
    case 5: case 6: { NKValue *g = nkxVmFindGlobalVariable(h.vm, h.cs, kind == 5 ? "sf" : "str"); if(g) v = *g; break; }
    }
    return v;
}
static const string PRE = "function mk(n) { var o = object(); o.v = n; return o; } function sf(x) { return x; }";

// -- histories in an interactive session ----------------------------------------------------------------------------------
enum { HC, DV, DU, DF, HW, SW, SH, NF, PER };
enum { GC = PER * NN, SHRINK, FAIL, NOPS };
static string opName(int op) {
    static const char *W[] = {"host creates", "var = ", "var", "function", "host writes", "script writes", "shadowed by locals", "native named"};
    if(op >= GC) return op == GC ? "gc" : op == SHRINK ? "shrink" : "failing chunk";
    return string(W[op % PER]) + " " + NAME[op / PER];
}
struct Sess {
    Case &c; Host h; std::map<string, string> m; std::map<string, bool> finalised; string before; nkuint32_t at = 0;
    Sess(Case &c) : c(c) {}
    string chunk(const string &src) {
        at = nkxCompilerGetInstructionWriteIndex(h.cs);
        if(nkxCompilerCompileScript(h.cs, src.c_str(), "t.nks")) { nkxCompilerPartiallyFinalize(h.cs); while(!nkxVmProgramHasEnded(h.vm) && !h.hasErrors()) nkxVmIterate(h.vm, 100); for(auto &x : m) finalised[x.first] = true; }
        string e = h.errors();
        if(h.hasErrors()) nkxCompilerClearReplErrorState(h.cs, at);
        return e;
    }
    void observe(const char *what) {
        std::map<NKValue *, string> cells;
        auto look = [&](const string &n, bool viaVm) {
            NKValue *g = nkxVmFindGlobalVariable(h.vm, viaVm ? nullptr : h.cs, n.c_str());
            bool is = m.count(n);
            if(h.hasErrors()) { c.fail("%s: looking up %s raised an error: %s", what, n.c_str(), h.errors().c_str()); return; }
            if(!g) { if(is) c.fail("%s: %s is not found%s", what, n.c_str(), viaVm ? " by the VM" : ""); return; }
            if(!is) { c.fail("%s: %s is found but does not exist", what, n.c_str()); return; }
            NKValue v = *g; string r = h.repr(&v);
            if(r != m[n]) c.fail("%s: %s is %s, expected %s%s", what, n.c_str(), r.c_str(), m[n].c_str(), viaVm ? " (by the VM)" : "");
            if(cells.count(g) && cells[g] != n) c.fail("%s: %s and %s share a cell", what, n.c_str(), cells[g].c_str());
            cells[g] = n;
        };
        for(auto n : NAME) { look(n, false); if(finalised[n] || !m.count(n)) look(n, true); }
        for(auto n : ABSENT) { look(n, false); look(n, true); }
        if(cells.size() < m.size() - (m.count("sf") + m.count("mk") ? 0 : 0)) c.fail("%s: names share cells", what);
    }
};
static void finishS(Case &c, Host &h) { if(h.cs) h.finalize(); h.destroy(); for(auto &p : h.problems) c.fail("%s", p.c_str()); }
static void history(Case &c, const vector<int> &ops, int salt) {
    string d; for(int o : ops) d += (d.empty() ? "" : "; ") + opName(o); c.descs(d);
    Sess s(c); Host &h = s.h;
    h.create(); h.compiler(); h.natives();
    string e = s.chunk(PRE);
    if(!e.empty()) { c.fail("harness error: %s", e.c_str()); finishS(c, h); return; }
    int step = 0;
    for(int op : ops) {
        step++;
        int n = 10 * step + salt, kind = (op * 3 + step * 5 + salt) % NK;
        string nm = op < GC ? NAME[op / PER] : ""; bool is = s.m.count(nm);
        auto expectErr = [&](const string &e, bool want) { if(e.empty() == want) c.fail("step %d (%s): %s", step, opName(op).c_str(), want ? "no error" : e.c_str()); };
        if(op == GC) nkxVmGarbageCollect(h.vm);
        else if(op == SHRINK) nkxVmShrink(h.vm);
        else if(op == FAIL) expectErr(s.chunk("var never = 1; var x = ;"), true);
        else switch(op % PER) {
        case HC: {
            nkuint32_t at = nkxCompilerGetInstructionWriteIndex(h.cs);
            NKValue *g = nkxCompilerCreateGlobalVariable(h.cs, nm.c_str());
            if((g != nullptr) == is) c.fail("step %d: host creation of %s %s", step, nm.c_str(), is ? "a second time succeeded" : "failed");
            expectErr(h.errors(), is);
            if(h.hasErrors()) nkxCompilerClearReplErrorState(h.cs, at);
            if(g && !is) { NKValue v = *g; if(v.type != NK_VALUETYPE_INT && v.type != NK_VALUETYPE_NIL) c.fail("a fresh global holds %s", h.repr(&v).c_str()); s.m[nm] = shown(kind, n); NKValue w = value(h, kind, n); g = nkxVmFindGlobalVariable(h.vm, h.cs, nm.c_str()); if(g) *g = w; }
            break; }
        case DV: expectErr(s.chunk("var " + nm + " = " + script(kind, n) + ";"), is); if(!is) s.m[nm] = shown(kind, n); break;
        case DU: expectErr(s.chunk("var " + nm + "; " + nm + " = " + script(kind, n) + ";"), is); if(!is) s.m[nm] = shown(kind, n); break;
        case DF: expectErr(s.chunk("function " + nm + "(l) { var x = l; return x; }"), is); if(!is) s.m[nm] = "fn"; break;
        case HW: if(is) { NKValue v = value(h, kind, n); *nkxVmFindGlobalVariable(h.vm, h.cs, nm.c_str()) = v; s.m[nm] = shown(kind, n); } break;
        case SW: expectErr(s.chunk("function w" + std::to_string(step) + "() { " + nm + " = " + script(kind, n) + "; } w" + std::to_string(step) + "();"), !is); if(is) s.m[nm] = shown(kind, n); break;
        case SH: { // locals of the same name do not touch the cell and are not found
            h.out.clear();
            string all; for(auto q : NAME) all += strf("var %s = %d; ", q, n); string p = nm;
            expectErr(s.chunk("{ " + all + "var l = " + nm + "; print(l); } function v" + std::to_string(step) + "(" + nm + ") { { var l = 1; } " + nm + " = 5; print(" + nm + "); } v" + std::to_string(step) + "(3);"), false);
            if(h.out != strf("i%d;i5;", n)) c.fail("locals gave %s", h.out.c_str());
            break; }
        case NF: {
            nkuint32_t at = nkxCompilerGetInstructionWriteIndex(h.cs);
            auto nat = [](NKVMFunctionCallbackData *d) { nkxValueSetInt(d->vm, &d->returnValue, 1); };
            // a native registered without a global is not visible; one with a global is (again: an error)
            if((step + salt) % 2) { nkxVmSetupExternalFunction(h.vm, h.cs, nm.c_str(), nat, nkfalse, NK_INVALID_VALUE); expectErr(h.errors(), false); }
            else { nkxVmSetupExternalFunction(h.vm, h.cs, nm.c_str(), nat, nktrue, NK_INVALID_VALUE); if(!is) { expectErr(h.errors(), false); s.m[nm] = "fn"; } }
            if(h.hasErrors()) nkxCompilerClearReplErrorState(h.cs, at);
            break; }
        }
        c.trans();
        s.observe(strf("after step %d (%s)", step, opName(op).c_str()).c_str());
        // the script sees the same
        string src; vector<string> w;
        for(auto &x : s.m) { src += "print(" + x.first + "); "; w.push_back(x.second); }
        h.out.clear();
        if(!src.empty()) { e = s.chunk(src); string want; for(auto &x : w) want += x + ";"; if(!e.empty() || h.out != want) c.fail("after step %d the script sees %s, expected %s %s", step, h.out.c_str(), want.c_str(), e.c_str()); }
        if(c.failed()) break;
    }
    string k; for(auto &x : s.m) k += x.first + "=" + x.second + ";";
    if(!c.failed()) {
        s.chunk("");
        h.finalize();
        for(auto &x : s.m) s.finalised[x.first] = true;
        s.observe("after finalising");
        Stream st;
        if(!h.save(st)) c.fail("save failed: %s", h.errors().c_str());
        else {
            Sess t(c); t.m = s.m; t.finalised = s.finalised;
            t.h.create(); t.h.natives();
            for(auto n : NAME) nkxVmSetupExternalFunction(t.h.vm, nullptr, n, [](NKVMFunctionCallbackData *d) { nkxValueSetInt(d->vm, &d->returnValue, 1); }, nkfalse, NK_INVALID_VALUE);
            if(!t.h.restore(st)) c.fail("restore failed: %s", t.h.errors().c_str()); else t.observe("after restoring");
            finishS(c, t.h);
        }
    }
    finishS(c, h);
    c.trace(); c.state(hashStr(k)); c.nontrivial(hashStr(d) + salt);
}
// -- any number of globals ----------------------------------------------------------------------------------------------
static string many(int i) { return i % 4 == 0 ? strf("g%d", i) : i % 4 == 1 ? string(i / 4 + 1, 'y') : i % 4 == 2 ? strf("g%dg", i) : strf("G_%d", i); }
static void counts(Case &c, int n, int how) { // how: who creates them
    c.desc("%d globals created by %s", n, how == 0 ? "the host" : how == 1 ? "one script" : how == 2 ? "many chunks" : how == 3 ? "host and script in turns" : "functions and locals in between");
    Host h; h.create(); h.compiler(); h.natives();
    string src; vector<string> want(n);
    auto flush = [&] { if(src.empty()) return true; nkuint32_t at = nkxCompilerGetInstructionWriteIndex(h.cs); (void)at; if(!nkxCompilerCompileScript(h.cs, src.c_str(), "t.nks")) { c.fail("rejected: %s", h.errors().c_str()); return false; } nkxCompilerPartiallyFinalize(h.cs); while(!nkxVmProgramHasEnded(h.vm) && !h.hasErrors()) nkxVmIterate(h.vm, 1000); if(h.hasErrors()) c.fail("error: %s", h.errors().c_str()); src.clear(); return !h.hasErrors(); };
    bool ok = true;
    for(int i = 0; i < n && ok; i++) {
        string nm = many(i); want[i] = strf("i%d", 1000 + i);
        bool byHost = how == 0 || (how == 3 && i % 3 != 1);
        if(byHost) { if(how == 3) ok = flush(); NKValue *g = nkxCompilerCreateGlobalVariable(h.cs, nm.c_str()); if(!g) { c.fail("creation of %s failed: %s", nm.c_str(), h.errors().c_str()); break; } nkxValueSetInt(h.vm, g, 1000 + i); }
        else { src += "var " + nm + strf(" = %d;\n", 1000 + i); if(how == 4) { src += strf("function fn%d(a) { var %s = a; return %s; } fn%d(7); { var loc%d = 3; }\n", i, nm.c_str(), nm.c_str(), i, i); } if(how == 2) ok = flush(); }
    }
    src += "var last = 1;"; ok = ok && flush();
    auto check = [&](Host &h, const char *when) {
        std::set<NKValue *> cells;
        for(int i = 0; i < n && !c.failed(); i++) {
            NKValue *g = nkxVmFindGlobalVariable(h.vm, h.cs, many(i).c_str()), *g2 = nkxVmFindGlobalVariable(h.vm, nullptr, many(i).c_str());
            if(!g || !g2) { c.fail("%s is not found %s", many(i).c_str(), when); break; }
            if(g != g2) c.fail("%s: compiler and VM give different cells %s", many(i).c_str(), when);
            if(!cells.insert(g).second) c.fail("%s shares a cell %s", many(i).c_str(), when);
            NKValue v = *g; if(h.repr(&v) != want[i]) c.fail("%s is %s, expected %s %s", many(i).c_str(), h.repr(&v).c_str(), want[i].c_str(), when);
            c.trans();
        }
        string y(n / 4 + 3, 'y'); // longer than any
        for(string x : {y, string("g"), strf("g%d", n + 4), string("loc0"), string("G_")}) if(nkxVmFindGlobalVariable(h.vm, nullptr, x.c_str()) || nkxVmFindGlobalVariable(h.vm, h.cs, x.c_str())) { bool real = false; for(int i = 0; i < n; i++) real |= many(i) == x; if(!real) c.fail("%s is found", x.c_str()); }
        if(h.hasErrors()) c.fail("errors: %s", h.errors().c_str());
    };
    if(ok) {
        check(h, "after creation");
        for(int i = 0; i < n && !c.failed(); i++) { NKValue *g = nkxVmFindGlobalVariable(h.vm, h.cs, many(i).c_str()); nkxValueSetInt(h.vm, g, 5000 + i); want[i] = strf("i%d", 5000 + i); }
        check(h, "after host writes");
        src = "var bad = 0;"; for(int i = 0; i < n; i++) src += strf("\nif(%s != %d) { ++bad; }", many(i).c_str(), 5000 + i);
        for(int i = 0; i < n; i++) { src += strf("\n%s = \"w%d\";", many(i).c_str(), i); want[i] = strf("'w%d'", i); }
        if(flush()) { NKValue *b = nkxVmFindGlobalVariable(h.vm, h.cs, "bad"); if(!b || b->type != NK_VALUETYPE_INT || b->intData) c.fail("the script saw %d wrong values", b ? b->intData : -1); }
        nkxVmGarbageCollect(h.vm); nkxVmShrink(h.vm);
        check(h, "after script writes");
        h.finalize();
        check(h, "after finalising");
        Stream st;
        if(h.save(st)) { Host t; t.create(); t.natives(); if(t.restore(st)) check(t, "after restoring"); else c.fail("restore failed: %s", t.errors().c_str()); finishS(c, t); } else c.fail("save failed");
    }
    finishS(c, h);
    c.trace(); c.state(n * 5 + how); c.nontrivial(n * 5 + how);
}
// -- at once, in every context -------------------------------------------------------------------------------------------
static const vector<string> CTX = {
    "#", "{ var l = 1; # }", "function f(x) { var l = x; # return l; } f(1);", "function f(n) { if(n > 0) { return f(n - 1); } # return n; } f(3);", "function f(x) { yield(x); # yield(x); # return x; } var co = coroutine(f, 1); resume(co); resume(co); resume(co); #",
    "function f(x) { # return x; } call(f, 1);", "function f(x) { # return x; } call(call, f, 1);", "function f(x) { # } var ob = object(); ob._exec = f; ob._data = 2; ob();", "var i; for(i = 0; i < 3; ++i) { # }", "function f(x) { # } function g() { resume(coroutine(f, 1)); # call(f, 2); } call(g); #", "if(1) { # } else { print(0); } while(cell2 < 2) { cell2 = cell2 + 1; # }", "function f(x) { var cell2 = x; # return cell2; } var r = f(1) + f(2);",
};
// what happens in that context: the host reads what the script wrote, or writes and the script reads
static void atOnce(Case &c, int ctx, int act, int k1, int k2, int who) {
    static const char *A[] = {"cell = V1; hook(1); cell = V2; hook(2);", "hook(3); print(cell); hook(4); print(cell);", "cell = V1; hook(4); print(cell); cell = V1; hook(1);", "var t = object(); t.x = cell; hook(3); print(t.x, cell);", "cell = V2; cell = hook(5); hook(6);"};
    string body = A[act]; size_t p;
    while((p = body.find("V1")) != string::npos) body.replace(p, 2, script(k1, 1));
    while((p = body.find("V2")) != string::npos) body.replace(p, 2, script(k2, 2));
    string s = CTX[ctx]; int sites = 0;
    while((p = s.find('#')) != string::npos) { string b = body; size_t q; if((q = b.find("var t =")) != string::npos) { b = strf("{ %s }", b.c_str()); } s.replace(p, 1, b); sites++; }
    string decl = who == 0 ? "var cell = nil; " : "";
    c.descs(PRE + " " + decl + "var cell2 = 0; " + s);
    Host h; h.create(); h.compiler(); h.natives();
    if(who) { NKValue *g = nkxCompilerCreateGlobalVariable(h.cs, "cell"); if(!g) { c.fail("creation failed"); finishS(c, h); return; } nkxValueSetNil(h.vm, g); }
    int hooks = 0; string model = "nil"; string want;
    auto cell = [&](Host &h) -> NKValue * { NKValue *g = nkxVmFindGlobalVariable(h.vm, nullptr, "cell"); if(!g) c.fail("cell is not found inside a call"); return g; };
    h.onHook = [&](Host &h, NKVMFunctionCallbackData *d) {
        hooks++;
        int what = nkxValueToInt(d->vm, &d->arguments[0]);
        NKValue *g = cell(h); if(!g) return;
        for(auto n : {"l", "x", "t", "n", "i_", "cel", "cell3", "g_"}) if(nkxVmFindGlobalVariable(h.vm, nullptr, n)) c.fail("%s is found", n);
        NKValue v = *g; string r = h.repr(&v);
        if(what == 1 && r != shown(k1, 1)) c.fail("the host sees %s, the script wrote %s", r.c_str(), shown(k1, 1).c_str());
        if(what == 2 && r != shown(k2, 2)) c.fail("the host sees %s, the script wrote %s", r.c_str(), shown(k2, 2).c_str());
        if(what == 3 || what == 4) { int k = what == 3 ? k1 : k2; NKValue w = value(h, k, what); g = cell(h); if(g) *g = w; if(hooks % 2) nkxVmGarbageCollect(h.vm); }
        if(what == 5) { if(r != shown(k2, 2)) c.fail("the host sees %s, the script wrote %s", r.c_str(), shown(k2, 2).c_str()); NKValue w = value(h, k1, 3), ret = value(h, k1, 7); g = cell(h); if(g) *g = w; d->returnValue = ret; }
        if(what == 6 && r != shown(k1, 7)) c.fail("the host sees %s, the script assigned %s", r.c_str(), shown(k1, 7).c_str());
    };
    bool ok = h.compile(PRE + " " + decl + "var cell2 = 0; " + s); h.finalize();
    if(!ok) { c.fail("rejected: %s", h.errors().c_str()); finishS(c, h); return; }
    h.run();
    if(h.hasErrors()) c.fail("error: %s", h.errors().c_str());
    if(!hooks) c.fail("harness error: the host was never called");
    // every print shows the value written before it
    if(act == 1) { string one = shown(k1, 3) + ";" + shown(k2, 4) + ";", o; for(size_t n = 0; n < (size_t)hooks / 2; n++) o += one; if(h.out != o) c.fail("the script saw %s, expected %s", h.out.c_str(), o.c_str()); }
    if(act == 2) { string o; for(int n = 0; n < hooks / 2; n++) o += shown(k2, 4) + ";"; if(h.out != o) c.fail("the script saw %s, expected %s", h.out.c_str(), o.c_str()); }
    if(act == 3) { string o; for(int n = 0; n < hooks; n++) o += (n ? shown(k1, 3) : string("nil")) + "," + shown(k1, 3) + ";"; if(h.out != o) c.fail("the script saw %s, expected %s", h.out.c_str(), o.c_str()); }
    finishS(c, h);
    c.trace(); c.trans(hooks); c.state(hashStr(h.out) + ctx); c.nontrivial((((ctx * 8 + act) * 8 + k1) * 8 + k2) * 2 + who);
}
// -- host writes at every instruction boundary ------------------------------------------------------------------------------
static const char *WPROG = "var cell = 1; var log = object(); function f(x) { var l = cell; print(cell); return l + x; } function g(x) { print(cell); yield(x); print(cell); return cell; }\nvar co = coroutine(g, 1); print(cell); resume(co); { var cell3 = 2; print(cell); } f(1); resume(co); var i; for(i = 0; i < 3; ++i) { print(cell); } call(f, 2); print(cell); print(cell);";
static uint64_t wLen() { uint64_t n = 0; runPlain(WPROG, &n); return n; }
static void boundary(Case &c, uint64_t at, int kind, uint64_t second) {
    c.desc("the host writes %s after %llu instructions%s", shown(kind, 9).c_str(), (unsigned long long)at, second ? strf(" and again %llu later", (unsigned long long)second).c_str() : "");
    Host h;
    if(!h.load(WPROG)) { c.fail("%s", h.errors().c_str()); return; }
    uint64_t n = 0; string want = "i1"; vector<string> exp; size_t seen = 0; NKValue *first = nkxVmFindGlobalVariable(h.vm, nullptr, "cell");
    uint64_t wrote = 0; string old; bool assigned = false; // the script's own initialisation
    for(; n < 3000 && !nkxVmProgramHasEnded(h.vm) && !h.hasErrors(); n++) {
        if(n == at || (second && n == at + second)) { { NKValue q = *nkxVmFindGlobalVariable(h.vm, nullptr, "cell"); if(n < wrote + 6 && wrote) old += ";"; else old = ";"; old += h.repr(&q) + ";"; wrote = n; } NKValue v; memset(&v, 0, sizeof v); int k = n == at ? kind : 0, x = n == at ? 9 : 77; if(k == 4) { x = 9; } if(k >= 5) k = 0; if(k == 4) { NKValue o = value(h, 4, x); *nkxVmFindGlobalVariable(h.vm, nullptr, "cell") = o; } else { v = value(h, k, x); *nkxVmFindGlobalVariable(h.vm, nullptr, "cell") = v; } want = shown(k, x); }
        string before = h.out;
        NKValue b = *nkxVmFindGlobalVariable(h.vm, nullptr, "cell"); string rb = h.repr(&b);
        nkxVmIterate(h.vm, 1);
        NKValue *g = nkxVmFindGlobalVariable(h.vm, nullptr, "cell");
        if(g != first) { c.fail("the cell moved at instruction %llu", (unsigned long long)n); break; }
        NKValue a = *g; string ra = h.repr(&a);
        if(!assigned && ra == "i1" && rb != "i1") { assigned = true; want = "i1"; }
        else if(rb != ra) { c.fail("instruction %llu changed the cell from %s to %s", (unsigned long long)n, rb.c_str(), ra.c_str()); break; }
        if(h.out != before) { string o = h.out.substr(before.size()); seen++; bool pending = wrote && n < wrote + 6 && old.find(";" + o) != string::npos; /* read before the write, printed after it */ if(o != rb + ";" && !pending) { c.fail("the script printed %s when the cell held %s", o.c_str(), rb.c_str()); break; } }
    }
    if(h.hasErrors()) { string e = h.errors(); if(kind != 3 && kind < 4) c.fail("error: %s", e.c_str()); }
    else if(seen != 11) c.fail("harness error: %zu prints seen: %s", seen, h.out.c_str());
    finishS(c, h);
    c.trace(); c.trans(n); c.nontrivial((at * 8 + kind) * 512 + second); c.state(seen * 8 + kind);
}
// -- lookups in every program at every boundary --------------------------------------------------------------------------------
static vector<string> identifiers(const string &src) { std::set<string> s; string w; for(char ch : src + " ") { if(isalnum((unsigned char)ch) || ch == '_' || (unsigned char)ch >= 128) w += ch; else { if(!w.empty() && !isdigit(w[0])) { s.insert(w); for(size_t k = 1; k < w.size(); k++) s.insert(w.substr(0, k)); } w.clear(); } } return vector<string>(s.begin(), s.end()); }
static void lookups(Case &c, const char *name, const string &src, uint64_t block) {
    c.desc("%s: every identifier, boundaries from %llu", name, (unsigned long long)block * 64);
    lang::Result r = lang::run(src, lang::Options());
    if(!r.compiled) { c.note(0); return; }
    Host h; corpus::start(h, src);
    vector<string> ids = identifiers(src); static const char *NAT[] = {"print", "gc", "error", "res", "resref", "hold", "unhold", "held", "call", "str", "hook", "nfn"};
    std::set<string> nat(NAT, NAT + 12); std::map<string, NKValue *> cell;
    nkxVmIterate(h.vm, block * 64);
    for(int n = 0; n < 64; n++) {
        for(auto &i : ids) {
            bool is = r.globals.count(i) || nat.count(i);
            NKValue *g = nkxVmFindGlobalVariable(h.vm, nullptr, i.c_str());
            if((g != nullptr) != is) { c.fail("%s is %sfound", i.c_str(), g ? "" : "not "); break; }
            if(n && g != cell[i]) { c.fail("the cell of %s moved", i.c_str()); break; }
            cell[i] = g;
        }
        string e = h.errors();
        if(nkxVmProgramHasEnded(h.vm) || !e.empty() || c.failed()) break;
        nkxVmIterate(h.vm, 1); c.trans();
    }
    std::set<NKValue *> distinct; size_t k = 0; for(auto &x : cell) if(x.second) { distinct.insert(x.second); k++; }
    if(distinct.size() != k) c.fail("names share cells");
    h.destroy(); for(auto &p : h.problems) c.fail("%s", p.c_str());
    c.trace(); c.nontrivial(hashStr(src) + block); c.state(k);
}

void define(Registry &r) {
    bool th = r.thorough();
    r.level = "model_checking";
    r.rule = "after every operation every name (existing, absent, prefix, local) is found exactly if it exists, with the value last written by either side, in a cell of its own, by the compiler, the VM and a restored VM, without errors; in every context and at every instruction boundary writes of one side are what the other reads next";
    unsigned d = th ? 4 : 3;
    r.add("histories", seqCount(NOPS, d) * 2, [](uint64_t i, Case &c) { history(c, seqDecode(i / 2, NOPS), (i % 2) * 3); if(i % 5003 == 0) { string s; for(int o : seqDecode(i / 2, NOPS)) s += opName(o) + "; "; c.sample(s); } });
    if(!th) r.add("histories/4", ipow(NOPS, 4) / 7 + 1, [](uint64_t i, Case &c) { uint64_t v = i * 7; vector<int> h; for(int k = 0; k < 4; k++) { h.push_back(v % NOPS); v /= NOPS; } for(int o : h) if(o == FAIL || o == SHRINK) return; if(h[0] % PER >= HW && h[0] < GC && h[0] % PER <= SW) return; history(c, h, i % 5); });
    r.add("counts", (th ? 700 : 200) * 5, [](uint64_t i, Case &c) { Idx d(i); int how = d.pick(5); counts(c, d.v, how); }).cpuSeconds = 60;
    static const int BIG[] = {255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2049, 4097};
    r.add("counts/big", (th ? 11 : 7) * 5, [](uint64_t i, Case &c) { Idx d(i); int how = d.pick(5); counts(c, BIG[d.v], how); }).cpuSeconds = 200;
    r.add("at-once", CTX.size() * 5 * NK * NK * 2, [](uint64_t i, Case &c) { Idx d(i); int x = d.pick(CTX.size()), a = d.pick(5), k1 = d.pick(NK), k2 = d.pick(NK); atOnce(c, x, a, k1, k2, d.v); });
    uint64_t W = wLen();
    r.add("boundary", W * 5, [=](uint64_t i, Case &c) { Idx d(i); int k = d.pick(5); boundary(c, d.v, k, 0); });
    r.add("boundary/two", W * W, [=](uint64_t i, Case &c) { uint64_t a = i % W, b = i / W; if(b <= a) return; boundary(c, a, 1, b - a); });
    int skip = r.noteName("programs the reference rejects"); (void)skip;
    for(auto &p : corpus::all()) if(!(p.flags & corpus::NATREF)) { corpus::Run b = corpus::baseline(p.src); const char *name = p.name; string src = p.src; r.add(string("lookups/") + name, b.n / 64 + 1, [=](uint64_t i, Case &c) { lookups(c, name, src, i); }); }
    r.bounds = strf("all histories of up to %u of %d operations over 3 names (one a prefix of another)%s; 0-%d globals and up to %d by 5 creators; %zu contexts x 5 exchanges x %d x %d kinds of values x 2 creators; a write at each and at each pair of %llu boundaries; every identifier and prefix of every corpus program at every boundary", d, (int)NOPS, th ? "" : " and a seventh of those of four", th ? 699 : 199, th ? 4097 : 1023, CTX.size(), NK, NK, (unsigned long long)W);
    r.assumptions = {"a global created since the last compiled chunk is found through the compiler only, as documented"};
}
