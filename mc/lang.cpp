#include "lang.h"
#include "mc.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <math.h>
#include <ucontext.h>
#include <sys/mman.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define UNPOISON(p, n) ASAN_UNPOISON_MEMORY_REGION(p, n)
#else
#define UNPOISON(p, n) (void)0
#endif

namespace lang {
using mc::strf;

bool Val::operator<(const Val &b) const {
    if(t != b.t) return t < b.t;
    switch(t) {
    case INT: return i < b.i;
    case FLOAT: return f < b.f;
    case STR: return s < b.s;
    case FN: return fn < b.fn;
    case OBJ: return o < b.o;
    default: return false;
    }
}
std::string fmtFloat(float f) { char b[128]; snprintf(b, sizeof b, "%f", f); return b; }

// ------------------------------------------------------------------ lexer
enum TK { T_END, T_ID, T_INT, T_FLOAT, T_STR, T_KW, T_OP };
struct Tok { TK t; std::string s; int line; std::string file; };

static bool isId(unsigned char c, bool first) {
    return c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c >= 0x80 || (!first && c >= '0' && c <= '9');
}
static const char *kws[] = {"var", "function", "return", "if", "else", "while", "do", "for", "newobject", "nil", "break", nullptr};
static const char *fses[] = {"coroutine", "yield", "resume", "is_finished", "object", "len", nullptr};
static bool in(const char **l, const std::string &s) { for(; *l; l++) if(s == *l) return true; return false; }

static std::string unescape(const std::string &in) {
    std::string o;
    for(size_t i = 0; i < in.size(); i++) {
        if(in[i] == '\\' && i + 1 < in.size()) {
            i++;
            switch(in[i]) {
            case 'n': o += '\n'; break;
            case 'r': o += '\r'; break;
            case 't': o += '\t'; break;
            case '"': o += '"'; break;
            default: o += '\\'; o += in[i];
            }
        } else o += in[i];
    }
    return o;
}

static bool lex(const std::string &s, const std::string &file0, std::vector<Tok> &out, std::string &why, bool &lenient) {
    size_t i = 0;
    int line = 1;
    std::string file = file0;
    static const char *ops[] = {"===", "==", "!=", "<=", ">=", "&&", "||", "++", "--", "->", "(", ")", "[", "]", "{", "}",
                                "+", "-", "*", "/", "%", ".", ";", "=", ",", "<", ">", "!", nullptr};
    while(i < s.size()) {
        unsigned char c = s[i];
        if(c == '\n') { line++; i++; continue; }
        if(c == ' ' || c == '\t' || c == '\r') { i++; continue; }
        if(c == '/' && i + 1 < s.size() && s[i + 1] == '/') { while(i < s.size() && s[i] != '\n') i++; continue; }
        if(c == '#') {
            // directive: words up to the end of the line
            std::vector<std::string> w;
            size_t nl = std::min(s.find('\n', i), s.size());
            for(size_t k = i; k < nl; k++) if(s[k] == '\r' && k + 1 != nl) lenient = true; // a lone carriage return in a directive
            i++;
            while(i < s.size() && s[i] != '\n') {
                c = s[i];
                if(c == ' ' || c == '\t' || c == '\r') { i++; continue; }
                if(c == '/' && i + 1 < s.size() && s[i + 1] == '/') { while(i < s.size() && s[i] != '\n') i++; break; }
                std::string t;
                if(isId(c, true)) { while(i < s.size() && isId(s[i], false)) t += s[i++]; }
                else if(c >= '0' && c <= '9') { while(i < s.size() && s[i] >= '0' && s[i] <= '9') t += s[i++]; }
                else if(c == '"') {
                    i++;
                    bool closed = false;
                    while(i < s.size() && s[i] != '\n') {
                        if(s[i] == '\\' && i + 1 < s.size() && s[i + 1] != '\n') { t += s[i++]; t += s[i++]; continue; }
                        if(s[i] == '"') { i++; closed = true; break; }
                        t += s[i++];
                    }
                    if(!closed) { why = "unterminated string in directive"; return false; }
                    t = unescape(t);
                } else { why = "bad directive character"; return false; }
                w.push_back(t);
            }
            if(w.empty()) { if(i < s.size()) i++; continue; }
            if(w[0] == "line" && (w.size() == 2 || w.size() == 3)) {
                // the directive names the line it is on: the next line is one further
                line = atoi(w[1].c_str());
                if(w.size() == 3) file = w[2];
                if(i < s.size()) i++; // the line break that ends a directive is part of it
            } else if(w[0] == "file" && w.size() == 2) { file = w[1]; if(i < s.size()) i++; }
            else { why = "bad directive"; return false; }
            continue;
        }
        if(c == '"') {
            size_t j = i + 1; bool esc = false;
            while(j < s.size() && (esc || s[j] != '"')) {
                if(s[j] == '\n') { why = "newline in string"; return false; }
                esc = s[j] == '\\' ? !esc : false;
                j++;
            }
            if(j >= s.size()) { why = "unterminated string"; return false; }
            std::string t = unescape(s.substr(i + 1, j - i - 1));
            if(!out.empty() && out.back().t == T_STR) out.back().s += t;
            else out.push_back({T_STR, t, line, file});
            i = j + 1;
            continue;
        }
        if(c >= '0' && c <= '9') {
            std::string t;
            while(i < s.size() && ((s[i] >= '0' && s[i] <= '9') || s[i] == '.')) t += s[i++];
            out.push_back({t.find('.') == std::string::npos ? T_INT : T_FLOAT, t, line, file});
            continue;
        }
        if(isId(c, true)) {
            std::string t;
            while(i < s.size() && isId(s[i], false)) t += s[i++];
            out.push_back({in(kws, t) || in(fses, t) ? T_KW : T_ID, t, line, file});
            continue;
        }
        const char **o = ops;
        for(; *o; o++) if(s.compare(i, strlen(*o), *o) == 0) break;
        if(!*o) { why = strf("unknown character %d", c); return false; }
        out.push_back({T_OP, *o, line, file});
        i += strlen(*o);
    }
    return true;
}

// ------------------------------------------------------------------ parser
struct Parser {
    std::vector<Tok> t;
    size_t p = 0;
    bool bad = false, lenient = false;
    std::string why;
    int lastLine = 0;
    std::vector<std::shared_ptr<Fun>> *funs;
    Tok end{T_END, "", 0, ""};

    const Tok &cur() { return p < t.size() ? t[p] : end; }
    bool is(const char *op) { const Tok &c = cur(); return (c.t == T_OP || c.t == T_KW) && c.s == op; }
    void err(const std::string &w) { if(!bad) { bad = true; why = strf("line %d: ", cur().line) + w + " near '" + cur().s + "'"; } }
    bool eat(const char *op) { if(is(op)) { p++; return true; } err(std::string("expected ") + op); return false; }
    P mk(K k, const std::string &s = "") { P n = std::make_shared<Node>(); n->k = k; n->s = s; n->line = n->line2 = cur().line; n->file = cur().file; return n; }

    static int prec(const std::string &o) {
        if(o == "*" || o == "/" || o == "%") return 10;
        if(o == "+" || o == "-") return 9;
        if(o == "<" || o == ">" || o == "<=" || o == ">=") return 8;
        if(o == "==" || o == "!=" || o == "===") return 7;
        if(o == "&&") return 6;
        if(o == "||") return 5;
        if(o == "=") return 4;
        return -1;
    }
    // All operators associate to the left, assignment included.
    P expr(int minp = 0) {
        P l = unary();
        if(bad) return l;
        for(;;) {
            const Tok &c = cur();
            if(c.t != T_OP) break;
            int q = prec(c.s);
            if(q < 0 || q < minp) break;
            P n = mk(c.s == "=" ? E_ASSIGN : E_BIN, c.s);
            p++;
            P r = expr(q + 1);
            if(bad) return l;
            n->c = {l, r};
            l = n;
        }
        return l;
    }
    P unary() {
        if(is("-")) { P n = mk(E_NEG); p++; n->c.push_back(unary()); return n; }
        if(is("!")) { P n = mk(E_NOT); p++; n->c.push_back(unary()); return n; }
        if(is("++") || is("--")) { P n = mk(E_INCDEC, cur().s); n->inc = is("++"); p++; n->c.push_back(unary()); return n; }
        return postfix();
    }
    void args(P n) {
        eat("(");
        while(!bad && !is(")")) {
            n->c.push_back(expr());
            if(bad) return;
            if(is(",")) { p++; if(is(")")) lenient = true; }
            else if(!is(")")) { err("expected , or )"); return; }
        }
        if(!bad) eat(")");
    }
    P postfix() {
        P v;
        const Tok &c = cur();
        if(c.t == T_INT) { v = mk(E_INT, c.s); p++; }
        else if(c.t == T_FLOAT) { v = mk(E_FLOAT, c.s); p++; }
        else if(c.t == T_STR) { v = mk(E_STR, c.s); p++; }
        else if(c.t == T_ID) { v = mk(E_VAR, c.s); p++; }
        else if(is("nil")) { v = mk(E_NIL); p++; }
        else if(is("newobject")) { v = mk(E_NEWOBJ); p++; }
        else if(is("(")) { p++; v = expr(); if(bad) return v; eat(")"); }
        else if(is("function")) { v = func(false); }
        else if(c.t == T_KW && in(fses, c.s)) {
            v = mk(E_FSE, c.s); p++;
            if(!is("(")) { err("expected ( after " + v->s); return v; }
            args(v);
        } else { v = mk(E_NIL); err("expected a value"); return v; }
        while(!bad) {
            if(is("[")) { P n = mk(E_INDEX); p++; P i = expr(); if(bad) return v; eat("]"); n->c = {v, i}; v = n; }
            else if(is(".")) {
                P n = mk(E_INDEX); p++;
                if(cur().t != T_ID) { err("expected identifier after ."); return v; }
                P i = mk(E_STR, cur().s); p++;
                n->c = {v, i}; v = n;
            } else if(is("->")) {
                P n = mk(E_SELFCALL); p++;
                if(cur().t != T_ID) { err("expected identifier after ->"); return v; }
                n->s = cur().s; p++;
                n->c.push_back(v);
                if(!is("(")) { err("expected call after ->"); return v; }
                args(n); v = n;
            } else if(is("(")) { P n = mk(E_CALL); n->c.push_back(v); args(n); v = n; }
            else if(is("++") || is("--")) { P n = mk(E_INCDEC, cur().s); n->post = true; n->inc = is("++"); p++; n->c.push_back(v); v = n; }
            else break;
        }
        return v;
    }
    P func(bool named) {
        P n = mk(named ? S_FUNC : E_FUNC);
        eat("function");
        auto f = std::make_shared<Fun>();
        if(named) { f->name = cur().s; n->s = cur().s; p++; }
        if(!eat("(")) return n;
        while(!bad && !is(")")) {
            if(cur().t != T_ID) { err("expected parameter name"); return n; }
            f->params.push_back(cur().s); p++;
            if(is(",")) { p++; if(is(")")) lenient = true; }
            else if(!is(")")) { err("expected , or )"); return n; }
        }
        if(!eat(")")) return n;
        f->index = (int)funs->size();
        funs->push_back(f);
        n->fun = f.get();
        f->body = stmt();
        return n;
    }
    // marks the line range of an expression: from its first token to the token that terminates it
    // (file "*": it extends over more than one file)
    P rexpr() {
        int l = cur().line; std::string f = cur().file;
        P e = expr();
        e->line = l; e->line2 = cur().t == T_END ? l : cur().line;
        e->file = cur().t == T_END || cur().file == f ? f : "*";
        return e;
    }
    P stmt() {
        if(bad) return nullptr;
        if(cur().t == T_END) { P n = mk(S_BLOCK); err("unexpected end"); return n; }
        P n;
        if(is("var")) {
            n = mk(S_VAR); p++;
            if(cur().t != T_ID) { err("expected variable name"); return n; }
            n->s = cur().s; p++;
            if(is("=")) { p++; n->c.push_back(rexpr()); }
            if(!bad) eat(";");
        } else if(is("return")) {
            n = mk(S_RETURN); p++; n->c.push_back(rexpr()); if(!bad) eat(";");
        } else if(is("{")) {
            n = mk(S_BLOCK); p++;
            while(!bad && !is("}")) { if(cur().t == T_END) { err("unexpected end"); break; } n->c.push_back(stmt()); }
            if(!bad) eat("}");
        } else if(is("if")) {
            n = mk(S_IF); p++;
            if(!eat("(")) return n;
            n->c.push_back(rexpr()); if(bad || !eat(")")) return n;
            n->c.push_back(stmt());
            if(!bad && is("else")) { p++; n->c.push_back(stmt()); }
        } else if(is("while")) {
            n = mk(S_WHILE); p++;
            if(!eat("(")) return n;
            n->c.push_back(rexpr()); if(bad || !eat(")")) return n;
            n->c.push_back(stmt());
        } else if(is("do")) {
            n = mk(S_DO); p++;
            n->c.push_back(stmt());
            if(bad || !eat("while") || !eat("(")) return n;
            n->c.push_back(rexpr()); if(bad || !eat(")")) return n;
            eat(";");
        } else if(is("for")) {
            n = mk(S_FOR); p++;
            if(!eat("(")) return n;
            n->c.push_back(stmt()); if(bad) return n;
            n->c.push_back(rexpr()); if(bad || !eat(";")) return n;
            P inc = rexpr(); inc->discard = true; n->c.push_back(inc); if(bad || !eat(")")) return n;
            n->c.push_back(stmt());
        } else if(is("break")) {
            n = mk(S_BREAK); p++; eat(";");
        } else if(is("function") && p + 1 < t.size() && t[p + 1].t == T_ID) {
            n = func(true);
        } else {
            n = mk(S_EXPR); P e = rexpr(); e->discard = true; n->c.push_back(e); if(!bad) eat(";");
        }
        return n;
    }
};

bool recognise(const std::string &src, bool *lenient, std::string *why) {
    Parser ps;
    std::vector<std::shared_ptr<Fun>> funs;
    ps.funs = &funs;
    std::string w;
    if(!lex(src, "t", ps.t, w, ps.lenient)) { if(lenient) *lenient = ps.lenient; if(why) *why = w; return false; }
    while(ps.p < ps.t.size() && !ps.bad) ps.stmt();
    if(lenient) *lenient = ps.lenient;
    if(why) *why = ps.why;
    return !ps.bad;
}

// ------------------------------------------------------------------ static rules and evaluation
struct Scope { std::map<std::string, Val> v; Scope *up; };

struct Coro {
    ucontext_t ctx, back;
    char *stack = nullptr;
    ~Coro() { if(stack) pool().push_back(stack); }
    static const size_t STACK = 512 * 1024;
    static std::vector<char *> &pool() { static std::vector<char *> p; return p; }
    void getStack() {
        if(stack) return;
        if(pool().size()) { stack = pool().back(); pool().pop_back(); UNPOISON(stack, STACK); }
        else stack = (char *)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    }
    int state = 0; // 0 created, 1 suspended, 2 running, 3 finished
    Coro *resumer = nullptr;
    Val transfer;
    const Fun *f = nullptr;
    std::vector<Val> args;
    int depth = 0;
    int line1 = 0, line2 = 0;
};

enum Flow { NORMAL, BREAK, RETURN, STOP };

struct Machine {
    const Options &o;
    Result &r;
    std::vector<std::shared_ptr<Fun>> funs;
    std::vector<std::unique_ptr<Obj>> heap;
    std::vector<std::unique_ptr<Coro>> coros;
    std::map<std::string, std::unique_ptr<Fun>> natives;
    Scope global;
    bool stop = false, killing = false;
    int line1 = 0, line2 = 0;
    std::string file;
    Coro *curCo = nullptr;
    int depth = 0;
    Val retVal;
    int nat = 0, redirNative = 0;

    Machine(const Options &o, Result &r) : o(o), r(r) {}

    // ---- errors
    void fail(const std::string &w) {
        if(stop) return;
        stop = true; r.error = true; r.why = w; r.line1 = line1; r.line2 = line2; r.file = file;
    }
    void unspec(const std::string &w) { if(r.unspecified.empty()) r.unspecified = w; }
    bool tick() { if(++r.steps > o.fuel) { r.timeout = true; stop = true; } return !stop; }

    // ---- static rules
    struct SScope { std::set<std::string> names; SScope *up; bool loop; bool fn; };
    bool serr(const P &n, const std::string &w) { if(r.why.empty()) r.why = strf("line %d: ", n->line) + w; return false; }
    bool visible(SScope *s, const std::string &n) { for(; s; s = s->up) if(s->names.count(n)) return true; return false; }
    bool declare(SScope *s, const P &n, const std::string &name) {
        if(s->names.count(name)) return serr(n, "redeclared " + name);
        s->names.insert(name);
        return true;
    }
    static bool isLv(const P &n) { return n->k == E_VAR || n->k == E_INDEX; }
    static bool sideEffects(const P &n) {
        if(n->k == E_CALL || n->k == E_SELFCALL || n->k == E_FSE || n->k == E_ASSIGN || n->k == E_INCDEC || n->k == E_NEWOBJ || n->k == E_FUNC) return true;
        for(auto &c : n->c) if(sideEffects(c)) return true;
        return false;
    }
    static bool hasIncDec(const P &n) {
        if(n->k == E_INCDEC) return true;
        for(auto &c : n->c) if(hasIncDec(c)) return true;
        return false;
    }
    bool chkE(const P &n, SScope *s, SScope *glob) {
        switch(n->k) {
        case E_VAR: if(!visible(s, n->s)) return serr(n, "unknown variable " + n->s); return true;
        case E_ASSIGN: if(!isLv(n->c[0])) return serr(n, "not assignable"); break;
        case E_INCDEC:
            if(!isLv(n->c[0])) return serr(n, "not assignable");
            if(sideEffects(n->c[0])) unspec("increment of an lvalue with side effects");
            break;
        case E_FSE: {
            size_t a = n->c.size();
            bool ok = n->s == "coroutine" ? a >= 1 : n->s == "yield" ? a <= 1 : n->s == "resume" ? a >= 1 && a <= 2 :
                      n->s == "object" ? a == 0 : a == 1;
            if(n->s == "coroutine" && a == 0) unspec("coroutine() without a function");
            if(!ok) return serr(n, "argument count of " + n->s);
            break;
        }
        case E_FUNC: return chkF(n->fun, n, glob);
        default: break;
        }
        for(auto &c : n->c) if(!chkE(c, s, glob)) return false;
        return true;
    }
    bool chkF(Fun *f, const P &n, SScope *glob) {
        SScope fs{{}, glob, false, true};
        for(auto &p : f->params) if(!declare(&fs, n, p)) return false;
        if(n->k == S_FUNC && f->local && !fs.names.count(f->name)) { f->ownName = true; fs.names.insert(f->name); }
        return chkS(f->body, &fs, glob);
    }
    bool chkS(const P &n, SScope *s, SScope *glob) {
        switch(n->k) {
        case S_EXPR: return chkE(n->c[0], s, glob);
        case S_VAR:
            if(!n->c.empty() && !chkE(n->c[0], s, glob)) return false;
            return declare(s, n, n->s);
        case S_BLOCK: { SScope b{{}, s, false, false}; for(auto &c : n->c) if(!chkS(c, &b, glob)) return false; return true; }
        case S_IF: {
            if(!chkE(n->c[0], s, glob)) return false;
            for(size_t i = 1; i < n->c.size(); i++) { SScope b{{}, s, false, false}; if(!chkS(n->c[i], &b, glob)) return false; }
            return true;
        }
        case S_WHILE: { SScope l{{}, s, true, false}; if(!chkE(n->c[0], &l, glob)) return false; SScope b{{}, &l, false, false}; return chkS(n->c[1], &b, glob); }
        case S_DO: { SScope l{{}, s, true, false}; SScope b{{}, &l, false, false}; if(!chkS(n->c[0], &b, glob)) return false; return chkE(n->c[1], &l, glob); }
        case S_FOR: {
            SScope l{{}, s, true, false}, v{{}, &l, false, false};
            if(!chkS(n->c[0], &v, glob)) return false;
            if(!chkE(n->c[1], &v, glob)) return false;
            SScope b{{}, &v, false, false};
            if(!chkS(n->c[3], &b, glob)) return false;
            return chkE(n->c[2], &v, glob);
        }
        case S_BREAK: {
            for(SScope *q = s; q; q = q->up) { if(q->loop) return true; if(q->fn) break; }
            return serr(n, "break outside a loop");
        }
        case S_RETURN: {
            if(!chkE(n->c[0], s, glob)) return false;
            for(SScope *q = s; q; q = q->up) if(q->fn) return true;
            return serr(n, "return outside a function");
        }
        case S_FUNC:
            if(!declare(s, n, n->s)) return false;
            n->fun->local = s->up != nullptr; n->fun->name = n->s;
            return chkF(n->fun, n, glob);
        default: return false;
        }
    }

    // ---- conversions
    int32_t toInt(const Val &v) {
        switch(v.t) {
        case INT: return v.i;
        case FLOAT:
            if(!(v.f > -2147483904.0f && v.f < 2147483648.0f)) { unspec("float out of integer range"); return 0; }
            return (int32_t)v.f;
        case STR: return (int32_t)strtol(v.s.c_str(), nullptr, 10);
        case OBJ: return 1;
        case NIL: return 0;
        default: fail("function to integer"); return 0;
        }
    }
    float toFloat(const Val &v) {
        switch(v.t) {
        case INT: return (float)v.i;
        case FLOAT: return v.f;
        case STR: return (float)strtod(v.s.c_str(), nullptr);
        case NIL: return 0;
        default: fail("object or function to float"); return 0;
        }
    }
    std::string toStr(const Val &v) {
        switch(v.t) {
        case INT: return strf("%d", v.i);
        case FLOAT: if(isnan(v.f)) unspec("nan as text"); return fmtFloat(v.f);
        case STR: return v.s;
        case NIL: return "<nil:0>";
        default: unspec("reference as text"); return v.t == FN ? "<function:?>" : "<object:?>";
        }
    }
    int cmp(const Val &a, const Val &b, bool order) {
        if(a.t == NIL) return b.t == NIL ? 0 : 1;
        if(b.t == NIL) return -1;
        switch(a.t) {
        case INT: { int32_t x = toInt(b); return a.i < x ? -1 : a.i > x; }
        case FLOAT: {
            float x = toFloat(b);
            if(isnan(a.f) || isnan(x)) unspec("nan compared");
            return a.f > x ? 1 : a.f == x ? 0 : -1;
        }
        case STR: {
            std::string x = toStr(b);
            int c = strcmp(a.s.c_str(), x.c_str());
            if(order) for(char ch : a.s + x) if((signed char)ch < 0) unspec("order of non-ASCII strings");
            return c < 0 ? -1 : c > 0;
        }
        case FN: if(b.t == FN && a.fn == b.fn) return 0; if(order) unspec("order of functions"); return 1;
        default: if(b.t == OBJ && a.o == b.o) return 0; if(order) unspec("order of objects"); return 1;
        }
    }
    Val bin(const std::string &op, const Val &a, const Val &b) {
        if(op == "+" || op == "-" || op == "*" || op == "/" || op == "%") {
            if(a.t == INT) {
                int32_t x = toInt(b);
                if(stop) return Val();
                int64_t l = a.i, m = x;
                switch(op[0]) {
                case '+': return Val::I((int32_t)(uint32_t)(l + m));
                case '-': return Val::I((int32_t)(uint32_t)(l - m));
                case '*': return Val::I((int32_t)(uint32_t)(uint64_t)(l * m));
                default:
                    if(m == 0 || (m == -1 && a.i == INT32_MIN)) { fail("integer division"); return Val(); }
                    return Val::I((int32_t)(op[0] == '/' ? l / m : l % m));
                }
            }
            if(a.t == FLOAT && op != "%") {
                float x = toFloat(b);
                if(stop) return Val();
                volatile float q;
                switch(op[0]) {
                case '+': q = a.f + x; break;
                case '-': q = a.f - x; break;
                case '*': q = a.f * x; break;
                default: { volatile float n = a.f, d = x; double dn = n, dd = d; if(dd == 0) q = (dn == 0 || isnan(dn)) ? NAN : ((signbit(dn) != signbit(dd)) ? -INFINITY : INFINITY); else q = (float)(dn / dd); }
                }
                return Val::F(q);
            }
            if(a.t == STR && op == "+") return Val::S(a.s + toStr(b));
            fail("operator " + op + " on this type");
            return Val();
        }
        if(op == "&&" || op == "||") {
            // both operands are always evaluated
            int32_t y = toInt(b); if(stop) return Val();
            int32_t x = toInt(a); if(stop) return Val();
            return Val::I(op == "&&" ? (x && y) : (x || y));
        }
        if(op == "===") { if(a.t != b.t) return Val::I(0); return Val::I(cmp(a, b, false) == 0); }
        bool order = op != "==" && op != "!=";
        int c = cmp(a, b, order);
        if(stop) return Val();
        if(op == "==") return Val::I(c == 0);
        if(op == "!=") return Val::I(c != 0);
        if(op == "<") return Val::I(c < 0);
        if(op == ">") return Val::I(c > 0);
        if(op == "<=") return Val::I(c <= 0);
        return Val::I(c >= 0);
    }

    // ---- objects
    Val newObj() { heap.emplace_back(new Obj); Val v; v.t = OBJ; v.o = heap.back().get(); return v; }
    void badKey(const Val &k) { if(k.t == FLOAT && (isnan(k.f) || k.f == 0)) unspec("zero or nan float key"); }
    Val get(const Val &o, const Val &k) {
        if(o.t != OBJ) { fail("field of a non-object"); return Val(); }
        badKey(k);
        auto it = o.o->m.find(k);
        return it == o.o->m.end() ? Val::N() : it->second;
    }
    void set(const Val &o, const Val &k, const Val &v) {
        if(o.t != OBJ) { fail("field of a non-object"); return; }
        badKey(k);
        if(v.t == NIL) o.o->m.erase(k); else o.o->m[k] = v;
    }

    // ---- variables
    Val *find(Scope *s, const std::string &n) {
        for(; s; s = s->up) { auto it = s->v.find(n); if(it != s->v.end()) return &it->second; }
        return nullptr;
    }

    // ---- calls
    std::string repr(const Val &v, int d = 3) {
        switch(v.t) {
        case INT: return strf("i%d", v.i);
        case FLOAT: return isnan(v.f) ? "fnan" : strf("f%.9g", v.f);
        case STR: return "'" + v.s + "'";
        case FN: return "fn";
        case NIL: return "nil";
        default: {
            std::string q;
            if(v.o->co) q += "<coroutine>";
            q += strf("{#%zu", v.o->m.size());
            if(d > 0) {
                static const char *keys[] = {"a", "b", "c", "n", "v", "k", "x", "y", "next", "_data", nullptr};
                for(int i = 0; keys[i]; i++) { auto it = v.o->m.find(Val::S(keys[i])); if(it != v.o->m.end()) q += std::string(" ") + keys[i] + "=" + repr(it->second, d - 1); }
                for(int i = 0; i < 4; i++) { auto it = v.o->m.find(Val::I(i)); if(it != v.o->m.end()) q += strf(" %d=", i) + repr(it->second, d - 1); }
            }
            return q + "}";
        }
        }
    }
    Val native(const Fun *f, std::vector<Val> &a) {
        const std::string &n = f->nativeName;
        Val ret = Val::I(0);
        if(n == "print") {
            std::string s;
            for(size_t i = 0; i < a.size(); i++) { if(i) s += ","; s += repr(a[i]); }
            r.out += s + ";";
        } else if(n == "gc") {
        } else if(n == "error") {
            std::string s = a.size() ? toStr(a[0]) : "native error";
            fail("error()"); r.nativeMsg = s;
        } else if(n == "call") {
            if(a.empty()) return ret;
            if(++redirNative > 20) { redirNative--; return ret; }
            if(a[0].t != FN) { redirNative--; fail("the host calls functions only"); return ret; }
            nat++;
            std::vector<Val> b(a.begin() + 1, a.end());
            int l1 = line1, l2 = line2; std::string fl = file;
            Val q = call(a[0], b);
            line1 = l1; line2 = l2; file = fl;
            redirNative--; nat--;
            if(!stop) ret = q;
        } else if(n == "str") {
            if(a.size()) ret = Val::S(toStr(a[0]));
        }
        return ret;
    }
    // Follows callable objects; false if the target cannot be called.
    const Fun *target(Val f, std::vector<Val> &a) {
        int redir = 0;
        while(f.t == OBJ) {
            if(++redir > 10) { fail("too many redirections"); return nullptr; }
            auto ex = f.o->m.find(Val::S("_exec")), da = f.o->m.find(Val::S("_data"));
            if(da != f.o->m.end()) a.insert(a.begin(), da->second);
            f = ex == f.o->m.end() ? Val::N() : ex->second;
        }
        if(f.t != FN) { fail("call of something not callable"); return nullptr; }
        if(!f.fn->native && f.fn->params.size() != a.size()) { fail("argument count"); return nullptr; }
        return f.fn;
    }
    Val call(const Val &f, std::vector<Val> &a) {
        const Fun *t = target(f, a);
        if(stop) return Val();
        if(t->native) return native(t, a);
        return enter(t, a);
    }
    Val enter(const Fun *t, std::vector<Val> &a) {
        if(++depth > o.maxDepth) { r.timeout = true; stop = true; depth--; return Val(); }
        Scope s; s.up = &global;
        if(t->ownName) { Val v; v.t = FN; v.fn = t; s.v[t->name] = v; }
        for(size_t i = 0; i < a.size(); i++) s.v[t->params[i]] = a[i];
        int l1 = line1, l2 = line2; std::string fl = file;
        Flow w = exec(t->body, &s);
        depth--;
        line1 = l1; line2 = l2; file = fl;
        if(stop) return Val();
        return w == RETURN ? retVal : Val::I(0);
    }

    // ---- coroutines
    static void entry(unsigned lo, unsigned hi) {
        Machine *m = (Machine *)(((uintptr_t)hi << 32) | lo);
        Coro *c = m->curCo;
        m->depth = 0;
        Val v = c->f->native ? m->native(c->f, c->args) : m->enter(c->f, c->args);
        c->state = 3;
        c->transfer = v;
        swapcontext(&c->ctx, &c->back);
    }
    void sw(Coro *c) { // into c
        c->resumer = curCo; curCo = c;
        int l1 = line1, l2 = line2; std::string fl = file; int d = depth, nn = nat;
        depth = c->depth; nat = 0; // a suspended coroutine has no native call in progress
        swapcontext(&c->back, &c->ctx);
        depth = d; nat = nn;
        curCo = c->resumer; c->resumer = nullptr;
        if(!stop) { line1 = l1; line2 = l2; file = fl; }
    }
    Val fse(const P &n, std::vector<Val> &a) {
        if(n->s == "object") return newObj();
        if(n->s == "len") {
            if(a[0].t != OBJ) { fail("len of a non-object"); return Val(); }
            return Val::I((int32_t)a[0].o->m.size());
        }
        if(n->s == "coroutine") {
            Val v = newObj();
            std::vector<Val> args(a.begin() + 1, a.end());
            const Fun *t = target(a[0], args);
            if(stop) return Val();
            
            coros.emplace_back(new Coro);
            Coro *c = coros.back().get();
            c->f = t; c->args = args;
            v.o->co = c;
            return v;
        }
        if(n->s == "resume") {
            Val x = a.size() > 1 ? a[1] : Val::N();
            if(a[0].t != OBJ || !a[0].o->co) { fail("resume of a non-coroutine"); return Val(); }
            Coro *c = a[0].o->co;
            if(c->state == 3) return Val::N();
            if(c->state == 2) { fail("resume of an active coroutine"); return Val(); }
            if(c->state == 0) {
                c->getStack();
                getcontext(&c->ctx);
                c->ctx.uc_stack.ss_sp = c->stack; c->ctx.uc_stack.ss_size = Coro::STACK; c->ctx.uc_link = nullptr;
                makecontext(&c->ctx, (void (*)())entry, 2, (unsigned)(uintptr_t)this, (unsigned)((uintptr_t)this >> 32));
            } else c->transfer = x;
            c->state = 2;
            sw(c);
            return c->transfer;
        }
        if(n->s == "yield") {
            if(!curCo) { fail("yield outside a coroutine"); return Val(); }
            if(nat) { fail("yield across a native call"); return Val(); }
            Coro *c = curCo;
            c->transfer = a.size() ? a[0] : Val::N();
            c->state = 1; c->depth = depth;
            int l1 = line1, l2 = line2; std::string fl = file;
            swapcontext(&c->ctx, &c->back);
            if(killing) { stop = true; return Val(); }
            line1 = l1; line2 = l2; file = fl;
            return c->transfer;
        }
        if(n->s == "is_finished") {
            if(a[0].t != OBJ || !a[0].o->co) { fail("is_finished of a non-coroutine"); return Val(); }
            return Val::I(a[0].o->co->state == 3);
        }
        return Val();
    }
    void killCoros() {
        killing = true; stop = true;
        for(size_t i = 0; i < coros.size(); i++) {
            Coro *c = coros[i].get();
            if(c->state == 1 || (c->state == 2 && c->stack)) { c->state = 2; c->back = ucontext_t(); sw(c); }
        }
    }

    // ---- evaluation
    Val eval(const P &n, Scope *s) {
        if(stop || !tick()) return Val();
        switch(n->k) {
        case E_INT: {
            long long v = strtoll(n->s.c_str(), nullptr, 10);
            if(n->s.size() > 18) unspec("huge integer literal");
            return Val::I((int32_t)(uint32_t)(uint64_t)v);
        }
        case E_FLOAT: if(n->s.find('.') != n->s.rfind('.')) unspec("two dots in a literal"); return Val::F((float)strtod(n->s.c_str(), nullptr));
        case E_STR: return Val::S(n->s);
        case E_NIL: return Val::N();
        case E_NEWOBJ: return newObj();
        case E_FUNC: { Val v; v.t = FN; v.fn = n->fun; return v; }
        case E_VAR: { Val *v = find(s, n->s); if(!v) { fail("internal: no variable " + n->s); return Val(); } return *v; }
        case E_NEG: {
            Val v = eval(n->c[0], s); if(stop) return Val();
            if(v.t == INT) return Val::I((int32_t)(0u - (uint32_t)v.i));
            if(v.t == FLOAT) return Val::F(-v.f);
            fail("negation of this type"); return Val();
        }
        case E_NOT: { Val v = eval(n->c[0], s); if(stop) return Val(); int32_t x = toInt(v); if(stop) return Val(); return Val::I(!x); }
        case E_BIN: {
            Val a = eval(n->c[0], s); if(stop) return Val();
            Val b = eval(n->c[1], s); if(stop) return Val();
            return bin(n->s, a, b);
        }
        case E_ASSIGN: {
            Val v = eval(n->c[1], s); if(stop) return Val();
            return assign(n->c[0], v, s);
        }
        case E_INCDEC: {
            Val old = eval(n->c[0], s); if(stop) return Val();
            Val nw = bin(n->inc ? "+" : "-", old, Val::I(1)); if(stop) return Val();
            assign(n->c[0], nw, s); if(stop) return Val();
            if(!n->post || n->discard) return nw;
            if(old.t == STR) unspec("post-increment of a string");
            if(old.t == FLOAT) { Val back = bin(n->inc ? "-" : "+", nw, Val::I(1)); if(!back.same(old)) unspec("post-increment of a float that loses precision"); }
            return old;
        }
        case E_INDEX: {
            Val o = eval(n->c[0], s); if(stop) return Val();
            Val k = eval(n->c[1], s); if(stop) return Val();
            return get(o, k);
        }
        case E_CALL: {
            Val f = eval(n->c[0], s); if(stop) return Val();
            std::vector<Val> a;
            for(size_t i = 1; i < n->c.size(); i++) { a.push_back(eval(n->c[i], s)); if(stop) return Val(); }
            return call(f, a);
        }
        case E_SELFCALL: {
            Val ob = eval(n->c[0], s); if(stop) return Val();
            Val f = get(ob, Val::S(n->s)); if(stop) return Val();
            std::vector<Val> a{ob};
            for(size_t i = 1; i < n->c.size(); i++) { a.push_back(eval(n->c[i], s)); if(stop) return Val(); }
            return call(f, a);
        }
        case E_FSE: {
            std::vector<Val> a;
            for(auto &c : n->c) { a.push_back(eval(c, s)); if(stop) return Val(); }
            return fse(n, a);
        }
        default: fail("internal"); return Val();
        }
    }
    Val assign(const P &lv, const Val &v, Scope *s) {
        if(lv->k == E_VAR) { Val *p = find(s, lv->s); *p = v; return v; }
        Val o = eval(lv->c[0], s); if(stop) return Val();
        Val k = eval(lv->c[1], s); if(stop) return Val();
        set(o, k, v);
        return v;
    }
    Val top(const P &e, Scope *s) { line1 = e->line; line2 = e->line2; file = e->file; return eval(e, s); }
    bool cond(const P &e, Scope *s) { Val v = top(e, s); if(stop) return false; return toInt(v) != 0; }

    Flow exec(const P &n, Scope *s) {
        if(stop || !tick()) return STOP;
        switch(n->k) {
        case S_EXPR: top(n->c[0], s); return stop ? STOP : NORMAL;
        case S_VAR: {
            Val v = n->c.empty() ? Val::I(0) : top(n->c[0], s);
            if(stop) return STOP;
            s->v[n->s] = v;
            return NORMAL;
        }
        case S_BLOCK: { Scope b; b.up = s; for(auto &c : n->c) { Flow f = exec(c, &b); if(f != NORMAL) return f; } return NORMAL; }
        case S_IF: {
            bool t = cond(n->c[0], s); if(stop) return STOP;
            Scope b; b.up = s;
            if(t) return exec(n->c[1], &b);
            if(n->c.size() > 2) return exec(n->c[2], &b);
            return NORMAL;
        }
        case S_WHILE:
            for(;;) {
                bool t = cond(n->c[0], s); if(stop) return STOP;
                if(!t) return NORMAL;
                Scope b; b.up = s;
                Flow f = exec(n->c[1], &b);
                if(f == BREAK) return NORMAL;
                if(f != NORMAL) return f;
            }
        case S_DO:
            for(;;) {
                Scope b; b.up = s;
                Flow f = exec(n->c[0], &b);
                if(f == BREAK) return NORMAL;
                if(f != NORMAL) return f;
                bool t = cond(n->c[1], s); if(stop) return STOP;
                if(!t) return NORMAL;
            }
        case S_FOR: {
            Scope l; l.up = s;
            Flow f = exec(n->c[0], &l);
            if(f != NORMAL) return f;
            for(;;) {
                bool t = cond(n->c[1], &l); if(stop) return STOP;
                if(!t) return NORMAL;
                Scope b; b.up = &l;
                f = exec(n->c[3], &b);
                if(f == BREAK) return NORMAL;
                if(f != NORMAL) return f;
                top(n->c[2], &l); if(stop) return STOP;
            }
        }
        case S_BREAK: return BREAK;
        case S_RETURN: { Val v = top(n->c[0], s); if(stop) return STOP; retVal = v; return RETURN; }
        case S_FUNC: { Val v; v.t = FN; v.fn = n->fun; s->v[n->s] = v; return NORMAL; }
        default: return STOP;
        }
    }
};

Result run(const std::string &src, const Options &o) {
    Result r;
    Machine m(o, r);
    Parser ps;
    ps.funs = &m.funs;
    if(!lex(src, o.file, ps.t, r.why, ps.lenient)) { r.lenient = ps.lenient; return r; }
    std::vector<P> prog;
    while(ps.p < ps.t.size() && !ps.bad) prog.push_back(ps.stmt());
    r.lenient = ps.lenient;
    if(ps.bad) { r.why = ps.why; return r; }
    r.grammar = true;
    Machine::SScope gs{{}, nullptr, false, false};
    m.global.up = nullptr;
    for(auto &n : o.nativeNames) {
        gs.names.insert(n);
        auto f = std::unique_ptr<Fun>(new Fun);
        f->native = true; f->nativeName = n;
        Val v; v.t = FN; v.fn = f.get();
        m.global.v[n] = v;
        m.natives[n] = std::move(f);
    }
    for(auto &s : prog) if(!m.chkS(s, &gs, &gs)) return r;
    r.compiled = true;
    if(o.compileOnly) return r;
    // Globals exist from the start (value 0) once declared; the script can only name them after their declaration.
    for(auto &s : prog) if(s->k == S_VAR || s->k == S_FUNC) m.global.v[s->s] = Val::I(0);
    for(auto &s : prog) { if(m.exec(s, &m.global) != NORMAL) break; }
    for(auto &kv : m.global.v) r.globals[kv.first] = m.repr(kv.second);
    uint64_t st = r.steps; bool to = r.timeout; std::string un = r.unspecified;
    m.killCoros();
    r.steps = st; r.timeout = to; r.unspecified = un;
    return r;
}

} // namespace lang
