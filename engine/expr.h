// Bit-vector expressions (width 1..64) over byte variables, hash-consed, and
// the decision procedure used by the executor (Z3 behind exact per-byte domains).
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <array>

typedef unsigned __int128 VarMask;
enum Kind : uint8_t {
    K_CONST, K_VAR, K_UNDEF,
    K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
    K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
    K_EQ, K_ULT, K_ULE, K_SLT, K_SLE,
    K_ITE, K_ZEXT, K_SEXT, K_EXTRACT, K_CONCAT
};
constexpr int MAXVARS = 128;

struct Dom {
    uint64_t b[4];
    bool empty() const { return !(b[0] | b[1] | b[2] | b[3]); }
    bool has(unsigned v) const { return (b[v >> 6] >> (v & 63)) & 1; }
    int first() const { for (int i = 0; i < 4; i++) if (b[i]) return i * 64 + __builtin_ctzll(b[i]); return -1; }
    int count() const { int n = 0; for (auto x : b) n += __builtin_popcountll(x); return n; }
    static Dom full() { return {{~0ull, ~0ull, ~0ull, ~0ull}}; }
    bool operator==(const Dom& o) const { return !memcmp(b, o.b, sizeof b); }
};

struct Expr {
    Kind k; uint8_t w; uint8_t undef;
    uint32_t id;
    uint64_t c;             // const value / var index / extract low bit
    Expr *x, *y, *z;
    VarMask vars;
    int32_t single;         // var index if exactly one var, else -1
    Dom* table;             // truth table, w==1 && single>=0, lazily made
    mutable uint64_t stamp; mutable uint64_t val;
    void* z3;
};

struct Val { uint64_t c = 0; Expr* e = nullptr; };

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sextw(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w)) >> (64 - w)); }

Expr* mkConst(uint64_t v, unsigned w);
Expr* mkVar(unsigned idx);
Expr* mkUndef();            // an indeterminate byte
Expr* mkBin(Kind k, Expr* a, Expr* b);
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkZext(Expr* a, unsigned w);
Expr* mkSext(Expr* a, unsigned w);
Expr* mkExtract(Expr* a, unsigned lo, unsigned w);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkNot(Expr* a);       // 1-bit
uint64_t foldBin(Kind k, uint64_t a, uint64_t b, unsigned w, bool& ok);
uint64_t evalExpr(const Expr* e, const uint8_t* model);
const Dom& truthTable(Expr* e);
std::string exprStr(const Expr* e, int depth = 6);
size_t exprCount();

// -------- path condition + solver --------
struct Path {
    std::vector<Dom> dom;          // per variable: exact unary constraints
    std::vector<uint8_t> model;    // a model of the whole path condition
    std::vector<Expr*> multi;      // constraints over two or more variables
    std::vector<const char*> names;
    std::vector<uint8_t> isconf;   // variable is a configuration choice
};
struct SolverStats { uint64_t queries, fast, z3, z3sat, z3unsat, z3unknown, cachehits, z3us, quickmodel, asserts_z3, audits; };
extern SolverStats* gStats;
// Is path && cond satisfiable? On yes, fills m with a model.  0 no, 1 yes, -1 unknown
int solveSat(Path& p, Expr* cond, std::vector<uint8_t>& m, bool forceZ3 = false);
// Adds cond; m is a model of path&&cond.
void addConstraint(Path& p, Expr* cond, const std::vector<uint8_t>& m);
void z3AfterFork();
