#include "expr.h"
#include <unordered_map>
#include <chrono>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <z3.h>

static std::vector<Expr*> gTab;   // open addressing
static size_t gN = 0, gMask = 0;
static uint32_t gNextId = 1;
static char* gArena = nullptr; static size_t gArenaLeft = 0;
size_t exprCount() { return gN; }

static void* aalloc(size_t n) {
    n = (n + 15) & ~size_t(15);
    if (gArenaLeft < n) { gArenaLeft = 1 << 20; gArena = (char*)malloc(gArenaLeft); }
    void* p = gArena; gArena += n; gArenaLeft -= n; return p;
}
static inline uint64_t mix(uint64_t h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 33; return h; }
static inline uint64_t hashE(Kind k, unsigned w, uint64_t c, Expr* x, Expr* y, Expr* z) {
    uint64_t h = mix(k * 131 + w + c * 0x9E3779B97F4A7C15ull);
    h = mix(h ^ (x ? x->id : 0)); h = mix(h ^ ((uint64_t)(y ? y->id : 0) << 20)); h = mix(h ^ ((uint64_t)(z ? z->id : 0) << 40));
    return h;
}
static Expr* cons(Kind k, unsigned w, uint64_t c, Expr* x, Expr* y, Expr* z) {
    if (gTab.empty()) { gTab.assign(1 << 16, nullptr); gMask = (1 << 16) - 1; }
    uint64_t h = hashE(k, w, c, x, y, z);
    size_t i = h & gMask;
    while (Expr* e = gTab[i]) {
        if (e->k == k && e->w == w && e->c == c && e->x == x && e->y == y && e->z == z) return e;
        i = (i + 1) & gMask;
    }
    Expr* e = (Expr*)aalloc(sizeof(Expr));
    memset((void*)e, 0, sizeof *e);
    e->k = k; e->w = w; e->c = c; e->x = x; e->y = y; e->z = z; e->id = gNextId++;
    e->vars = 0;
    if (k == K_VAR) e->vars = VarMask(1) << c;
    e->undef = k == K_UNDEF;
    for (Expr* s : {x, y, z}) if (s) { e->vars |= s->vars; e->undef |= s->undef; }
    e->single = -1;
    if (e->vars && !(e->vars & (e->vars - 1))) {
        uint64_t lo = (uint64_t)e->vars;
        e->single = lo ? __builtin_ctzll(lo) : 64 + __builtin_ctzll((uint64_t)(e->vars >> 64));
    }
    gTab[i] = e;
    if (++gN * 2 > gTab.size()) {
        std::vector<Expr*> old; old.swap(gTab);
        gTab.assign(old.size() * 2, nullptr); gMask = gTab.size() - 1;
        for (Expr* o : old) if (o) {
            size_t j = hashE(o->k, o->w, o->c, o->x, o->y, o->z) & gMask;
            while (gTab[j]) j = (j + 1) & gMask;
            gTab[j] = o;
        }
    }
    return e;
}
Expr* mkConst(uint64_t v, unsigned w) { return cons(K_CONST, w, v & maskw(w), 0, 0, 0); }
Expr* mkVar(unsigned i) { return cons(K_VAR, 8, i, 0, 0, 0); }
Expr* mkUndef() { return cons(K_UNDEF, 8, 0, 0, 0, 0); }

uint64_t foldBin(Kind k, uint64_t a, uint64_t b, unsigned w, bool& ok) {
    uint64_t m = maskw(w); a &= m; b &= m; ok = true;
    int64_t sa = sextw(a, w), sb = sextw(b, w);
    switch (k) {
    case K_ADD: return (a + b) & m;
    case K_SUB: return (a - b) & m;
    case K_MUL: return (a * b) & m;
    case K_UDIV: if (!b) { ok = false; return 0; } return a / b;
    case K_SDIV: if (!sb) { ok = false; return 0; } if (sb == -1) return (0 - a) & m; return (uint64_t)(sa / sb) & m;
    case K_UREM: if (!b) { ok = false; return 0; } return a % b;
    case K_SREM: if (!sb) { ok = false; return 0; } if (sb == -1) return 0; return (uint64_t)(sa % sb) & m;
    case K_AND: return a & b;
    case K_OR: return a | b;
    case K_XOR: return a ^ b;
    case K_SHL: return b >= w ? 0 : (a << b) & m;
    case K_LSHR: return b >= w ? 0 : a >> b;
    case K_ASHR: return (uint64_t)(sa >> (b >= w ? w - 1 : b)) & m;
    case K_EQ: return a == b;
    case K_ULT: return a < b;
    case K_ULE: return a <= b;
    case K_SLT: return sa < sb;
    case K_SLE: return sa <= sb;
    default: ok = false; return 0;
    }
}
static bool isCmp(Kind k) { return k >= K_EQ && k <= K_SLE; }
static bool isC(Expr* e) { return e->k == K_CONST; }
static bool isC(Expr* e, uint64_t v) { return e->k == K_CONST && e->c == v; }

Expr* mkNot(Expr* a) { return mkBin(K_XOR, a, mkConst(1, 1)); }

Expr* mkBin(Kind k, Expr* a, Expr* b) {
    unsigned w = a->w;
    if (isC(a) && isC(b)) { bool ok; uint64_t v = foldBin(k, a->c, b->c, w, ok); if (ok) return mkConst(v, isCmp(k) ? 1 : w); }
    // commutative: constant to the right
    if ((k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR || k == K_EQ) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
    switch (k) {
    case K_ADD:
        if (isC(b, 0)) return a;
        if (isC(b) && a->k == K_ADD && isC(a->y)) return mkBin(K_ADD, a->x, mkConst(a->y->c + b->c, w));
        break;
    case K_SUB:
        if (a == b) return mkConst(0, w);
        if (isC(b)) return mkBin(K_ADD, a, mkConst(0 - b->c, w));
        break;
    case K_MUL:
        if (isC(b, 0)) return b; if (isC(b, 1)) return a; break;
    case K_UDIV: case K_SDIV: if (isC(b, 1)) return a; break;
    case K_AND:
        if (a == b) return a;
        if (isC(b, 0)) return b;
        if (isC(b, maskw(w))) return a;
        if (w == 1) { if (a == mkNot(b)) return mkConst(0, 1); }
        if (isC(b) && a->k == K_AND && isC(a->y)) return mkBin(K_AND, a->x, mkConst(a->y->c & b->c, w));
        if (isC(b) && a->k == K_ZEXT) { unsigned sw = a->x->w; return mkZext(mkBin(K_AND, a->x, mkConst(b->c, sw)), w); }
        break;
    case K_OR:
        if (a == b) return a;
        if (isC(b, 0)) return a;
        if (isC(b, maskw(w))) return b;
        break;
    case K_XOR:
        if (a == b) return mkConst(0, w);
        if (isC(b, 0)) return a;
        if (isC(b) && a->k == K_XOR && isC(a->y)) return mkBin(K_XOR, a->x, mkConst(a->y->c ^ b->c, w));
        if (w == 1 && isC(b, 1)) {   // not
            if (a->k == K_ULT) return mkBin(K_ULE, a->y, a->x);
            if (a->k == K_ULE) return mkBin(K_ULT, a->y, a->x);
            if (a->k == K_SLT) return mkBin(K_SLE, a->y, a->x);
            if (a->k == K_SLE) return mkBin(K_SLT, a->y, a->x);
            if (a->k == K_ITE && (isC(a->y) || isC(a->z))) return mkIte(a->x, mkNot(a->y), mkNot(a->z));
        }
        break;
    case K_SHL: case K_LSHR: case K_ASHR:
        if (isC(b, 0)) return a;
        if (isC(b) && b->c < w) {
            unsigned s = b->c;
            if (k == K_LSHR) return mkZext(mkExtract(a, s, w - s), w);
            if (k == K_SHL) return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
        }
        break;
    case K_EQ:
        if (a == b) return mkConst(1, 1);
        if (w == 1) { if (isC(b, 1)) return a; if (isC(b, 0)) return mkNot(a); }
        if (isC(b)) {
            if (a->k == K_ZEXT) { if (b->c & ~maskw(a->x->w)) return mkConst(0, 1); return mkBin(K_EQ, a->x, mkConst(b->c, a->x->w)); }
            if (a->k == K_SEXT) { uint64_t t = b->c & maskw(a->x->w); if (((uint64_t)sextw(t, a->x->w) & maskw(w)) != b->c) return mkConst(0, 1); return mkBin(K_EQ, a->x, mkConst(t, a->x->w)); }
            if (a->k == K_ADD && isC(a->y)) return mkBin(K_EQ, a->x, mkConst(b->c - a->y->c, w));
            if (a->k == K_XOR && isC(a->y)) return mkBin(K_EQ, a->x, mkConst(b->c ^ a->y->c, w));
            if (a->k == K_CONCAT) { unsigned lw = a->y->w; return mkBin(K_AND, mkBin(K_EQ, a->x, mkConst(b->c >> lw, a->x->w)), mkBin(K_EQ, a->y, mkConst(b->c, lw))); }
        } else {
            if (a->k == K_ZEXT && b->k == K_ZEXT && a->x->w == b->x->w) return mkBin(K_EQ, a->x, b->x);
            if (a->k == K_SEXT && b->k == K_SEXT && a->x->w == b->x->w) return mkBin(K_EQ, a->x, b->x);
            if (a->k == K_CONCAT && b->k == K_CONCAT && a->y->w == b->y->w) return mkBin(K_AND, mkBin(K_EQ, a->x, b->x), mkBin(K_EQ, a->y, b->y));
        }
        break;
    case K_ULT:
        if (a == b) return mkConst(0, 1);
        if (isC(b, 0)) return mkConst(0, 1);
        if (isC(b, 1)) return mkBin(K_EQ, a, mkConst(0, w));
        if (isC(a) && a->c == maskw(w)) return mkConst(0, 1);
        if (isC(a, 0)) return mkNot(mkBin(K_EQ, b, a));
        goto zcmp;
    case K_ULE:
        if (a == b) return mkConst(1, 1);
        if (isC(a, 0)) return mkConst(1, 1);
        if (isC(b) && b->c == maskw(w)) return mkConst(1, 1);
        if (isC(b, 0)) return mkBin(K_EQ, a, b);
    zcmp:
        if (a->k == K_ZEXT && b->k == K_ZEXT && a->x->w == b->x->w) return mkBin(k, a->x, b->x);
        if (a->k == K_ZEXT && isC(b)) { unsigned sw = a->x->w; if (b->c > maskw(sw)) return mkConst(1, 1); return mkBin(k, a->x, mkConst(b->c, sw)); }
        if (b->k == K_ZEXT && isC(a)) { unsigned sw = b->x->w; if (a->c > maskw(sw)) return mkConst(0, 1); return mkBin(k, mkConst(a->c, sw), b->x); }
        break;
    case K_SLT: case K_SLE:
        if (a == b) return mkConst(k == K_SLE, 1);
        if (w > 1) {
            if (a->k == K_ZEXT && isC(b)) return sextw(b->c, w) < 0 ? mkConst(0, 1) : mkBin(k == K_SLT ? K_ULT : K_ULE, a, b);
            if (b->k == K_ZEXT && isC(a)) return sextw(a->c, w) < 0 ? mkConst(1, 1) : mkBin(k == K_SLT ? K_ULT : K_ULE, a, b);
            if (a->k == K_ZEXT && b->k == K_ZEXT) return mkBin(k == K_SLT ? K_ULT : K_ULE, a, b);
        }
        break;
    default: break;
    }
    // push comparisons and arithmetic with constants into ite with constant arms
    if (isC(b) && a->k == K_ITE && (isC(a->y) || isC(a->z))) {
        bool chain = isC(a->y) && (isC(a->z) || a->z->k == K_ITE);
        chain = chain || (isC(a->z) && a->y->k == K_ITE);
        if (isCmp(k) || (isC(a->y) && isC(a->z)) || chain)
            return mkIte(a->x, mkBin(k, a->y, b), mkBin(k, a->z, b));
    }
    if (isC(a) && b->k == K_ITE && (isC(b->y) || isC(b->z))) {
        if (isCmp(k) || (isC(b->y) && isC(b->z)))
            return mkIte(b->x, mkBin(k, a, b->y), mkBin(k, a, b->z));
    }
    return cons(k, isCmp(k) ? 1 : w, 0, a, b, 0);
}
Expr* mkIte(Expr* c, Expr* a, Expr* b) {
    if (isC(c)) return c->c ? a : b;
    if (a == b) return a;
    if (c->k == K_XOR && c->w == 1 && isC(c->y, 1)) return mkIte(c->x, b, a);
    if (a->w == 1) {
        if (isC(a, 1) && isC(b, 0)) return c;
        if (isC(a, 0) && isC(b, 1)) return mkNot(c);
        if (isC(b, 0)) return mkBin(K_AND, c, a);
        if (isC(a, 1)) return mkBin(K_OR, c, b);
        if (isC(a, 0)) return mkBin(K_AND, mkNot(c), b);
        if (isC(b, 1)) return mkBin(K_OR, mkNot(c), a);
    }
    if (a->k == K_ITE && a->x == c) a = a->y;
    if (b->k == K_ITE && b->x == c) b = b->z;
    if (a == b) return a;
    return cons(K_ITE, a->w, 0, c, a, b);
}
Expr* mkZext(Expr* a, unsigned w) {
    if (a->w == w) return a;
    if (isC(a)) return mkConst(a->c, w);
    if (a->k == K_ZEXT) return mkZext(a->x, w);
    if (a->k == K_ITE && isC(a->y) && isC(a->z)) return mkIte(a->x, mkZext(a->y, w), mkZext(a->z, w));
    return cons(K_ZEXT, w, 0, a, 0, 0);
}
Expr* mkSext(Expr* a, unsigned w) {
    if (a->w == w) return a;
    if (isC(a)) return mkConst((uint64_t)sextw(a->c, a->w), w);
    if (a->k == K_SEXT) return mkSext(a->x, w);
    if (a->k == K_ZEXT) return mkZext(a->x, w);
    if (a->k == K_ITE && isC(a->y) && isC(a->z)) return mkIte(a->x, mkSext(a->y, w), mkSext(a->z, w));
    if (a->w == 1) return mkIte(a, mkConst(~0ull, w), mkConst(0, w));
    return cons(K_SEXT, w, 0, a, 0, 0);
}
Expr* mkExtract(Expr* a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w) return a;
    if (isC(a)) return mkConst(a->c >> lo, w);
    if (a->k == K_EXTRACT) return mkExtract(a->x, lo + a->c, w);
    if (a->k == K_ZEXT) {
        unsigned sw = a->x->w;
        if (lo >= sw) return mkConst(0, w);
        if (lo + w <= sw) return mkExtract(a->x, lo, w);
        return mkZext(mkExtract(a->x, lo, sw - lo), w);
    }
    if (a->k == K_SEXT && lo + w <= a->x->w) return mkExtract(a->x, lo, w);
    if (a->k == K_SEXT && lo == 0 && w > a->x->w) return mkSext(a->x, w);
    if (a->k == K_CONCAT) {
        unsigned lw = a->y->w;
        if (lo >= lw) return mkExtract(a->x, lo - lw, w);
        if (lo + w <= lw) return mkExtract(a->y, lo, w);
        return mkConcat(mkExtract(a->x, 0, lo + w - lw), mkExtract(a->y, lo, lw - lo));
    }
    if (a->k == K_ITE && (isC(a->y) || isC(a->z))) return mkIte(a->x, mkExtract(a->y, lo, w), mkExtract(a->z, lo, w));
    if (lo == 0 && (a->k == K_ADD || a->k == K_AND || a->k == K_OR || a->k == K_XOR || a->k == K_SUB || a->k == K_MUL) && isC(a->y))
        return mkBin(a->k, mkExtract(a->x, 0, w), mkExtract(a->y, 0, w));
    if ((a->k == K_AND || a->k == K_OR || a->k == K_XOR))
        return mkBin(a->k, mkExtract(a->x, lo, w), mkExtract(a->y, lo, w));
    return cons(K_EXTRACT, w, lo, a, 0, 0);
}
Expr* mkConcat(Expr* hi, Expr* lo) {
    unsigned w = hi->w + lo->w;
    if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
    if (isC(hi, 0)) return mkZext(lo, w);
    if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->x == lo->x && hi->c == lo->c + lo->w) return mkExtract(lo->x, lo->c, w);
    if (hi->k == K_EXTRACT && hi->x == lo && hi->c == lo->w) return mkExtract(lo, 0, w);
    // ite(c,k1,k2) ++ ite(c,k3,k4)
    if (hi->k == K_ITE && lo->k == K_ITE && hi->x == lo->x) return mkIte(hi->x, mkConcat(hi->y, lo->y), mkConcat(hi->z, lo->z));
    if (hi->k == K_EXTRACT && lo->k == K_CONCAT && lo->x->k == K_EXTRACT && lo->x->x == hi->x && hi->c == lo->x->c + lo->x->w)
        return mkConcat(mkExtract(hi->x, lo->x->c, hi->w + lo->x->w), lo->y);
    if (lo->k == K_CONCAT && isC(hi) && isC(lo->x)) return mkConcat(mkConcat(hi, lo->x), lo->y);
    if (lo->k == K_ZEXT && isC(hi)) {  // const ++ zext(x): keep
    }
    if (isC(lo) && hi->k == K_ITE && isC(hi->y) && isC(hi->z)) return mkIte(hi->x, mkConcat(hi->y, lo), mkConcat(hi->z, lo));
    if (isC(hi) && lo->k == K_ITE && isC(lo->y) && isC(lo->z)) return mkIte(lo->x, mkConcat(hi, lo->y), mkConcat(hi, lo->z));
    return cons(K_CONCAT, w, 0, hi, lo, 0);
}
static uint64_t gStamp = 1;
static uint64_t evalRec(const Expr* e, const uint8_t* m) {
    if (e->k == K_CONST) return e->c;
    if (e->k == K_VAR) return m[e->c];
    if (e->k == K_UNDEF) return 0;
    if (e->stamp == gStamp) return e->val;
    uint64_t r = 0;
    switch (e->k) {
    case K_ITE: r = evalRec(e->x, m) ? evalRec(e->y, m) : evalRec(e->z, m); break;
    case K_ZEXT: r = evalRec(e->x, m); break;
    case K_SEXT: r = (uint64_t)sextw(evalRec(e->x, m), e->x->w) & maskw(e->w); break;
    case K_EXTRACT: r = (evalRec(e->x, m) >> e->c) & maskw(e->w); break;
    case K_CONCAT: r = (evalRec(e->x, m) << e->y->w) | evalRec(e->y, m); break;
    case K_AND: { uint64_t a = evalRec(e->x, m); r = a ? a & evalRec(e->y, m) : 0; break; }
    default: { bool ok; r = foldBin(e->k, evalRec(e->x, m), evalRec(e->y, m), e->x->w, ok);
            if (!ok) { // SMT-LIB semantics of division by zero
                uint64_t a = evalRec(e->x, m);
                if (e->k == K_UDIV) r = maskw(e->w);
                else if (e->k == K_SDIV) r = sextw(a, e->w) < 0 ? 1 : maskw(e->w);
                else r = a;
            } }
    }
    e->stamp = gStamp; e->val = r;
    return r;
}
uint64_t evalExpr(const Expr* e, const uint8_t* model) { ++gStamp; return evalRec(e, model); }

const Dom& truthTable(Expr* e) {
    if (e->table) return *e->table;
    Dom* d = (Dom*)aalloc(sizeof(Dom)); memset(d, 0, sizeof *d);
    uint8_t m[MAXVARS] = {0};
    for (int v = 0; v < 256; v++) { m[e->single] = v; if (evalExpr(e, m)) d->b[v >> 6] |= 1ull << (v & 63); }
    e->table = d;
    return *d;
}
std::string exprStr(const Expr* e, int depth) {
    static const char* n[] = {"const","var","undef","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","zext","sext","extract","concat"};
    char b[64];
    if (e->k == K_CONST) { snprintf(b, 64, "%llu:%d", (unsigned long long)e->c, e->w); return b; }
    if (e->k == K_VAR) { snprintf(b, 64, "v%llu", (unsigned long long)e->c); return b; }
    if (depth == 0) return "...";
    std::string s = std::string("(") + n[e->k];
    for (Expr* c : {e->x, e->y, e->z}) if (c) s += " " + exprStr(c, depth - 1);
    return s + ")";
}

// ---------------------------------------------------------------- solver
static SolverStats gLocalStats;
SolverStats* gStats = &gLocalStats;
static Z3_context gZ = nullptr; static Z3_solver gZS = nullptr;
static std::vector<Z3_ast> gVarAst;
static void z3err(Z3_context, Z3_error_code) {}
static void z3init() {
    Z3_config cfg = Z3_mk_config();
    gZ = Z3_mk_context(cfg);
    Z3_set_error_handler(gZ, z3err);
    gZS = Z3_mk_simple_solver(gZ);
    Z3_solver_inc_ref(gZ, gZS);
    Z3_params p = Z3_mk_params(gZ); Z3_params_inc_ref(gZ, p);
    Z3_params_set_uint(gZ, p, Z3_mk_string_symbol(gZ, "timeout"), 20000);
    Z3_solver_set_params(gZ, gZS, p); Z3_params_dec_ref(gZ, p);
    Z3_sort bv8 = Z3_mk_bv_sort(gZ, 8);
    for (int i = 0; i < MAXVARS; i++) gVarAst.push_back(Z3_mk_const(gZ, Z3_mk_int_symbol(gZ, i), bv8));
}
void z3AfterFork() {}
static Z3_ast toZ3(Expr* e) {
    if (e->z3) return (Z3_ast)e->z3;
    Z3_ast r = nullptr;
    auto B = [&](Z3_ast b) { // bool -> bv1
        Z3_sort s1 = Z3_mk_bv_sort(gZ, 1);
        return Z3_mk_ite(gZ, b, Z3_mk_unsigned_int64(gZ, 1, s1), Z3_mk_unsigned_int64(gZ, 0, s1));
    };
    auto isOne = [&](Z3_ast a) { return Z3_mk_eq(gZ, a, Z3_mk_unsigned_int64(gZ, 1, Z3_mk_bv_sort(gZ, 1))); };
    switch (e->k) {
    case K_CONST: r = Z3_mk_unsigned_int64(gZ, e->c, Z3_mk_bv_sort(gZ, e->w)); break;
    case K_VAR: r = gVarAst[e->c]; break;
    case K_UNDEF: r = Z3_mk_unsigned_int64(gZ, 0, Z3_mk_bv_sort(gZ, 8)); break;
    case K_ADD: r = Z3_mk_bvadd(gZ, toZ3(e->x), toZ3(e->y)); break;
    case K_SUB: r = Z3_mk_bvsub(gZ, toZ3(e->x), toZ3(e->y)); break;
    case K_MUL: r = Z3_mk_bvmul(gZ, toZ3(e->x), toZ3(e->y)); break;
    case K_UDIV: r = Z3_mk_bvudiv(gZ, toZ3(e->x), toZ3(e->y)); break;
    case K_SDIV: r = Z3_mk_bvsdiv(gZ, toZ3(e->x), toZ3(e->y)); break;
    case K_UREM: r = Z3_mk_bvurem(gZ, toZ3(e->x), toZ3(e->y)); break;
    case K_SREM: r = Z3_mk_bvsrem(gZ, toZ3(e->x), toZ3(e->y)); break;
    case K_AND: r = Z3_mk_bvand(gZ, toZ3(e->x), toZ3(e->y)); break;
    case K_OR: r = Z3_mk_bvor(gZ, toZ3(e->x), toZ3(e->y)); break;
    case K_XOR: r = Z3_mk_bvxor(gZ, toZ3(e->x), toZ3(e->y)); break;
    case K_SHL: r = Z3_mk_bvshl(gZ, toZ3(e->x), toZ3(e->y)); break;
    case K_LSHR: r = Z3_mk_bvlshr(gZ, toZ3(e->x), toZ3(e->y)); break;
    case K_ASHR: r = Z3_mk_bvashr(gZ, toZ3(e->x), toZ3(e->y)); break;
    case K_EQ: r = B(Z3_mk_eq(gZ, toZ3(e->x), toZ3(e->y))); break;
    case K_ULT: r = B(Z3_mk_bvult(gZ, toZ3(e->x), toZ3(e->y))); break;
    case K_ULE: r = B(Z3_mk_bvule(gZ, toZ3(e->x), toZ3(e->y))); break;
    case K_SLT: r = B(Z3_mk_bvslt(gZ, toZ3(e->x), toZ3(e->y))); break;
    case K_SLE: r = B(Z3_mk_bvsle(gZ, toZ3(e->x), toZ3(e->y))); break;
    case K_ITE: r = Z3_mk_ite(gZ, isOne(toZ3(e->x)), toZ3(e->y), toZ3(e->z)); break;
    case K_ZEXT: r = Z3_mk_zero_ext(gZ, e->w - e->x->w, toZ3(e->x)); break;
    case K_SEXT: r = Z3_mk_sign_ext(gZ, e->w - e->x->w, toZ3(e->x)); break;
    case K_EXTRACT: r = Z3_mk_extract(gZ, e->c + e->w - 1, e->c, toZ3(e->x)); break;
    case K_CONCAT: r = Z3_mk_concat(gZ, toZ3(e->x), toZ3(e->y)); break;
    }
    e->z3 = r;   // Z3_mk_context without reference counting keeps asts alive
    return r;
}
static Z3_ast domZ3(int v, const Dom& d) {
    struct H { size_t operator()(const std::pair<int, std::array<uint64_t, 4>>& k) const { uint64_t h = k.first; for (auto x : k.second) h = mix(h ^ x); return h; } };
    static std::unordered_map<std::pair<int, std::array<uint64_t, 4>>, Z3_ast, H> memo;
    std::pair<int, std::array<uint64_t, 4>> key{v, {d.b[0], d.b[1], d.b[2], d.b[3]}};
    auto it = memo.find(key); if (it != memo.end()) return it->second;
    std::vector<Z3_ast> ors;
    Z3_sort s = Z3_mk_bv_sort(gZ, 8);
    for (int i = 0; i < 256;) {
        if (!d.has(i)) { i++; continue; }
        int j = i; while (j + 1 < 256 && d.has(j + 1)) j++;
        Z3_ast lo = Z3_mk_unsigned_int64(gZ, i, s), hi = Z3_mk_unsigned_int64(gZ, j, s);
        if (i == j) ors.push_back(Z3_mk_eq(gZ, gVarAst[v], lo));
        else { Z3_ast t[2] = {Z3_mk_bvuge(gZ, gVarAst[v], lo), Z3_mk_bvule(gZ, gVarAst[v], hi)}; ors.push_back(Z3_mk_and(gZ, 2, t)); }
        i = j + 1;
    }
    Z3_ast r = ors.empty() ? Z3_mk_false(gZ) : ors.size() == 1 ? ors[0] : Z3_mk_or(gZ, ors.size(), ors.data());
    memo.emplace(key, r);
    return r;
}
struct CacheEnt { int r; std::vector<std::pair<uint8_t, uint8_t>> m; };
static std::unordered_map<uint64_t, CacheEnt> gCache1;   // key: 128-bit hash folded; second half stored
static std::unordered_map<uint64_t, uint64_t> gCacheChk;

static void closure(const Path& p, VarMask vs, std::vector<Expr*>& out, VarMask& all) {
    all = vs;
    bool ch = true;
    static std::vector<uint8_t> used; used.assign(p.multi.size(), 0);
    while (ch) {
        ch = false;
        for (size_t i = 0; i < p.multi.size(); i++)
            if (!used[i] && (p.multi[i]->vars & all)) { used[i] = 1; out.push_back(p.multi[i]); all |= p.multi[i]->vars; ch = true; }
    }
}
static bool holds(const std::vector<Expr*>& cs, const uint8_t* m) {
    ++gStamp;
    for (Expr* c : cs) if (!evalRec(c, m)) return false;
    return true;
}
// Infeasibility decided without Z3 prunes a branch: a sample of these verdicts
// (every one of the first 128 of a process, then one in 2048) is given to Z3 as well.
static int unsatAudited(Path& p, Expr* cond) {
    static uint64_t n = 0;
    if (++n > 128 && n % 2048) return 0;
    std::vector<uint8_t> t;
    if (solveSat(p, cond, t, true) == 1) { fprintf(stderr, "argosym: Z3 finds a model for a query decided as infeasible\n"); abort(); }
    gStats->audits++; gStats->queries--;
    return 0;
}
int solveSat(Path& p, Expr* cond, std::vector<uint8_t>& m, bool forceZ3) {
    gStats->queries++;
    m = p.model;
    if (cond->k == K_CONST) { gStats->fast++; return cond->c ? 1 : 0; }
    std::vector<Expr*> cs; VarMask all;
    closure(p, cond->vars, cs, all);
    if (!forceZ3) {
        if (evalExpr(cond, p.model.data())) { gStats->fast++; return 1; }
        if (cond->single >= 0) {
            int v = cond->single;
            const Dom& t = truthTable(cond);
            Dom d; for (int i = 0; i < 4; i++) d.b[i] = t.b[i] & p.dom[v].b[i];
            if (d.empty()) { gStats->fast++; return unsatAudited(p, cond); }
            if (cs.empty()) { m[v] = d.first(); gStats->fast++; return 1; }
            // keep the other variables: any value of v that satisfies everything?
            int tries = 0;
            for (int i = 0; i < 256 && tries < 64; i++) if (d.has(i)) { m[v] = i; tries++; if (holds(cs, m.data())) { gStats->quickmodel++; return 1; } }
            m = p.model;
        } else {
            // change one variable of the current model
            for (int v = 0; v < (int)p.dom.size(); v++) if (cond->vars >> v & 1) {
                uint8_t old = m[v]; int tries = 0;
                for (int i = 0; i < 256 && tries < 48; i++) if (p.dom[v].has(i)) {
                    m[v] = i; tries++;
                    if (evalExpr(cond, m.data()) && holds(cs, m.data())) { gStats->quickmodel++; return 1; }
                }
                m[v] = old;
            }
            m = p.model;
        }
    }
    // cache
    std::vector<uint32_t> ids; for (Expr* c : cs) ids.push_back(c->id);
    std::sort(ids.begin(), ids.end());
    uint64_t h1 = mix(cond->id + 0x1234567), h2 = mix(cond->id * 31ull + 77);
    for (uint32_t i : ids) { h1 = mix(h1 ^ i); h2 = mix(h2 + i * 0x9E3779B97F4A7C15ull); }
    for (int v = 0; v < (int)p.dom.size(); v++) if (all >> v & 1) for (int i = 0; i < 4; i++) {
        h1 = mix(h1 ^ p.dom[v].b[i] ^ ((uint64_t)v << 56)); h2 = mix(h2 + p.dom[v].b[i] * 3 + v); }
    if (!forceZ3) {
        auto it = gCache1.find(h1);
        if (it != gCache1.end() && gCacheChk[h1] == h2) {
            gStats->cachehits++;
            m = p.model;
            for (auto [v, x] : it->second.m) m[v] = x;
            return it->second.r ? it->second.r : unsatAudited(p, cond);
        }
    }
    if (!gZ) z3init();
    auto t0 = std::chrono::steady_clock::now();
    Z3_solver_push(gZ, gZS);
    Z3_sort s1 = Z3_mk_bv_sort(gZ, 1); Z3_ast one = Z3_mk_unsigned_int64(gZ, 1, s1);
    for (int v = 0; v < (int)p.dom.size(); v++) if (all >> v & 1) if (p.dom[v].count() != 256) Z3_solver_assert(gZ, gZS, domZ3(v, p.dom[v]));
    for (Expr* c : cs) Z3_solver_assert(gZ, gZS, Z3_mk_eq(gZ, toZ3(c), one));
    Z3_solver_assert(gZ, gZS, Z3_mk_eq(gZ, toZ3(cond), one));
    Z3_lbool r = Z3_solver_check(gZ, gZS);
    gStats->z3++;
    CacheEnt ce; ce.r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (r == Z3_L_TRUE) {
        gStats->z3sat++;
        Z3_model zm = Z3_solver_get_model(gZ, gZS);
        Z3_model_inc_ref(gZ, zm);
        m = p.model;
        for (int v = 0; v < (int)p.dom.size(); v++) if (all >> v & 1) {
            Z3_ast out; uint64_t x = 0;
            if (Z3_model_eval(gZ, zm, gVarAst[v], true, &out) && Z3_get_numeral_uint64(gZ, out, (uint64_t*)&x)) { m[v] = x; ce.m.push_back({(uint8_t)v, (uint8_t)x}); }
        }
        Z3_model_dec_ref(gZ, zm);
        // the model must satisfy what was asked: a self-check of the translation to Z3
        bool ok = evalExpr(cond, m.data()) && holds(cs, m.data());
        for (int v = 0; v < (int)p.dom.size(); v++) if ((all >> v & 1) && !p.dom[v].has(m[v])) ok = false;
        if (!ok) { fprintf(stderr, "argosym: solver model does not satisfy the query\n"); abort(); }
    } else if (r == Z3_L_FALSE) gStats->z3unsat++;
    else gStats->z3unknown++;
    Z3_solver_pop(gZ, gZS, 1);
    gStats->z3us += std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - t0).count();
    if (gCache1.size() > 2000000) { gCache1.clear(); gCacheChk.clear(); }
    int rr = ce.r; gCache1[h1] = std::move(ce); gCacheChk[h1] = h2;
    return rr;
}
static void addRec(Path& p, Expr* c) {
    if (c->k == K_CONST) return;
    if (c->k == K_AND && c->w == 1) { addRec(p, c->x); addRec(p, c->y); return; }
    if (c->k == K_XOR && isC(c->y, 1) && c->x->k == K_OR && c->x->w == 1) { addRec(p, mkNot(c->x->x)); addRec(p, mkNot(c->x->y)); return; }
    if (c->single >= 0) { const Dom& t = truthTable(c); for (int i = 0; i < 4; i++) p.dom[c->single].b[i] &= t.b[i]; return; }
    p.multi.push_back(c);
}
void addConstraint(Path& p, Expr* cond, const std::vector<uint8_t>& m) {
    p.model = m;
    size_t n0 = p.multi.size(); (void)n0;
    addRec(p, cond);
    // drop multi constraints that became implied by the domains of fixed variables
    if (p.multi.size() > 24) {
        std::vector<Expr*> keep;
        for (Expr* c : p.multi) {
            bool fixed = true;
            for (int v = 0; v < (int)p.dom.size() && fixed; v++) if ((c->vars >> v & 1) && p.dom[v].count() > 1) fixed = false;
            if (!fixed) keep.push_back(c);
        }
        p.multi.swap(keep);
    }
}
