// Reference implementation of the scripting language, written from its documentation and independent of the
// library: lexer, recursive-descent parser (grammar recogniser) and direct evaluator over the syntax tree.
#pragma once
#include <stdint.h>
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <functional>
#include <set>

namespace lang {

enum VT { INT, FLOAT, STR, FN, OBJ, NIL };
struct Obj;
struct Fun;
struct Val {
    VT t = INT;
    int32_t i = 0;
    float f = 0;
    std::string s;
    Obj *o = nullptr;
    const Fun *fn = nullptr;
    static Val I(int32_t v) { Val r; r.i = v; return r; }
    static Val F(float v) { Val r; r.t = FLOAT; r.f = v; return r; }
    static Val S(const std::string &v) { Val r; r.t = STR; r.s = v; return r; }
    static Val N() { Val r; r.t = NIL; return r; }
    bool operator<(const Val &b) const; // strict: type and content
    bool same(const Val &b) const { return !(*this < b) && !(b < *this); }
};
struct Coro;
struct Obj {
    std::map<Val, Val> m;
    Coro *co = nullptr;
};

struct Node;
typedef std::shared_ptr<Node> P;
enum K {
    // expressions
    E_INT, E_FLOAT, E_STR, E_NIL, E_NEWOBJ, E_VAR, E_BIN, E_ASSIGN, E_NEG, E_NOT, E_INCDEC, E_INDEX, E_CALL, E_SELFCALL,
    E_FSE, E_FUNC,
    // statements
    S_EXPR, S_VAR, S_BLOCK, S_IF, S_WHILE, S_DO, S_FOR, S_BREAK, S_RETURN, S_FUNC,
};
struct Node {
    K k;
    std::string s;          // operator / name / literal text
    std::vector<P> c;
    bool post = false;      // E_INCDEC
    bool inc = false;
    bool discard = false;   // value not used
    std::vector<std::string> params;
    int line = 0, line2 = 0; // first and terminating line of the construct
    std::string file;
    // resolution
    int depth = -1, slot = -1;
    Fun *fun = nullptr;
};
struct Fun {
    std::string name;
    std::vector<std::string> params;
    P body;
    int index = 0;
    bool native = false;
    bool local = false, ownName = false; // declared inside another scope; visible in itself by name
    std::string nativeName;
};

struct Result {
    bool compiled = false;      // accepted by the reference grammar and static rules
    bool grammar = false;       // accepted by the context-free grammar
    bool lenient = false;       // uses a form whose acceptance is not specified (trailing commas)
    std::string out;            // observable output of print
    bool error = false;         // ended in a script error
    int line1 = 0, line2 = 0;   // admissible error line range
    std::string file;
    std::string nativeMsg;      // text given to error(), if that was the error
    bool timeout = false;       // ran out of fuel / recursion depth
    std::string unspecified;    // non-empty: hit behaviour the rules leave open
    uint64_t steps = 0;
    std::string why;            // first compile/run error (for messages)
    std::map<std::string, std::string> globals; // representation of every global at the end
    std::map<std::string, std::string> printed; // extra
};

struct Options {
    uint64_t fuel = 200000;
    int maxDepth = 600;
    std::set<std::string> nativeNames = {"print", "gc", "error", "call", "str"};
    std::string file = "t.nks";
    bool compileOnly = false;
};

Result run(const std::string &src, const Options &o = Options());
// Only the grammar: true if a well-formed token sequence.
bool recognise(const std::string &src, bool *lenient = nullptr, std::string *why = nullptr);
std::string fmtFloat(float f); // string conversion of floats

} // namespace lang
