// argosym: symbolic executor for the LLVM IR of the code under test.
#include "ir.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <errno.h>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <atomic>
#include <algorithm>
#include <functional>
#include <set>

// ------------------------------------------------------------------ shared
struct Shared {
    std::atomic<int> active;
    std::atomic<int> stop;
    std::atomic<uint64_t> paths, exits, assumed, cut, known, violations, hangs, forks, decisions, instrs, dropped, checks, checksSym, crashed, droppedDl;
    SolverStats st[1];
    std::atomic<uint64_t> q, fast, z3, z3sat, z3unsat, z3unknown, hits, us, quick, az3, audits, maxexpr, maxvars;
    char reach[64][64]; std::atomic<uint64_t> reachN[64]; std::atomic<int> nreach;
    std::atomic<uint64_t> seq;
    uint8_t fn[1];
};
static Shared* S;
static Module M;
static std::string gOut, gEntry;
static double gDeadline = 0, gTime = 0;
static uint64_t gMaxInstr = 20000000;
static int gProcs = 8;
static size_t gMemLimit = 3000;
static int gMaxViol = 6;
static std::map<std::string, int64_t> gParams;
static bool gVerbose = false;
static uint64_t gSeed = 1;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ------------------------------------------------------------------ memory
enum OKind : uint8_t { OK_HEAP, OK_STACK, OK_GLOBAL, OK_CONST, OK_FUNC };
struct MemObj {
    int rc; uint32_t size; OKind kind; uint8_t alloc; const char* name;
    Expr** sym;
    uint8_t* data() { return (uint8_t*)(this + 1); }
    uint8_t* fl() { return data() + size; }      // 0 uninitialised, 1 concrete, 2 symbolic
};
static MemObj* gFreed = (MemObj*)1;
static MemObj* newObj(uint32_t size, OKind k, bool init) {
    MemObj* o = (MemObj*)malloc(sizeof(MemObj) + 2 * (size_t)size + 16);
    o->rc = 1; o->size = size; o->kind = k; o->alloc = 0; o->name = nullptr; o->sym = nullptr;
    if (init) memset(o->data(), 0, size);
    else memset(o->data(), 0xCD, size);
    memset(o->fl(), init ? 1 : 0, size);
    return o;
}
static void unref(MemObj* o) { if (o && o != gFreed && --o->rc == 0) { free(o->sym); free(o); } }
struct Chunk { int rc; MemObj* o[64]; };
struct Mem {
    std::vector<Chunk*> ch; uint32_t next = 1;
    Mem() {}
    Mem(const Mem& r) : ch(r.ch), next(r.next) { for (Chunk* c : ch) if (c) c->rc++; }
    ~Mem() { for (Chunk* c : ch) drop(c); }
    static void drop(Chunk* c) { if (c && --c->rc == 0) { for (MemObj* o : c->o) unref(o); free(c); } }
    MemObj* get(uint32_t id) const { uint32_t k = id >> 6; if (k >= ch.size() || !ch[k]) return nullptr; return ch[k]->o[id & 63]; }
    Chunk* chunkW(uint32_t k) {
        if (k >= ch.size()) ch.resize(k + 1, nullptr);
        Chunk* c = ch[k];
        if (!c) { c = (Chunk*)calloc(1, sizeof(Chunk)); c->rc = 1; ch[k] = c; }
        else if (c->rc > 1) { Chunk* n = (Chunk*)malloc(sizeof(Chunk)); memcpy(n, c, sizeof *n); n->rc = 1; for (MemObj* o : n->o) if (o && o != gFreed) o->rc++; c->rc--; ch[k] = n; c = n; }
        return c;
    }
    void put(uint32_t id, MemObj* o) { Chunk* c = chunkW(id >> 6); unref(c->o[id & 63]); c->o[id & 63] = o; }
    MemObj* getW(uint32_t id) {
        Chunk* c = chunkW(id >> 6); MemObj*& o = c->o[id & 63];
        if (o->rc > 1) {
            MemObj* n = (MemObj*)malloc(sizeof(MemObj) + 2 * (size_t)o->size + 16);
            memcpy((void*)n, (void*)o, sizeof(MemObj) + 2 * (size_t)o->size); n->rc = 1;
            if (o->sym) { n->sym = (Expr**)malloc(sizeof(Expr*) * o->size); memcpy(n->sym, o->sym, sizeof(Expr*) * o->size); }
            o->rc--; o = n;
        }
        return o;
    }
    uint32_t add(MemObj* o) { uint32_t id = next++; put(id, o); return id; }
};

// ------------------------------------------------------------------ state
struct Frame {
    const Func* f; int pc; std::vector<Val> r; std::vector<uint32_t> allocas; bool endPath = false;
};
struct ExcInfo { uint64_t ti; int handlers; };
struct Obs { Val v; uint8_t w; };
struct State {
    Mem mem; std::vector<Frame> fr; Path p; uint64_t instrs = 0; int depth = 0;
    std::map<uint64_t, ExcInfo> exc; std::vector<uint64_t> caught;
    std::vector<Obs> obs; uint64_t errnoAddr = 0; bool exited = false; int exitCode = 0;
    std::vector<uint8_t> reached;
};
enum EndKind { E_DONE, E_ASSUME, E_VIOL, E_CUT, E_KNOWN, E_HANG, E_DROP };
struct PathEnd { EndKind k; };
struct Retry {};

static std::vector<State*> gPending;
static State* gBase = nullptr;
static uint64_t lPaths, lExits, lAssumed, lCut, lKnown, lForks, lDec, lInstr, lChecks, lChecksSym;
static FILE* gPathsF = nullptr; static uint64_t gStride = 1, gSampleCtr = 0;
static SolverStats gLast{};

static void flushStats() {
    SolverStats& s = *gStats; 
    S->paths += lPaths; S->exits += lExits; S->assumed += lAssumed; S->cut += lCut; S->known += lKnown; S->forks += lForks; S->decisions += lDec; S->instrs += lInstr; S->checks += lChecks; S->checksSym += lChecksSym;
    lPaths = lExits = lAssumed = lCut = lKnown = lForks = lDec = lInstr = lChecks = lChecksSym = 0;
    S->q += s.queries - gLast.queries; S->fast += s.fast - gLast.fast; S->z3 += s.z3 - gLast.z3; S->z3sat += s.z3sat - gLast.z3sat; S->z3unsat += s.z3unsat - gLast.z3unsat;
    S->z3unknown += s.z3unknown - gLast.z3unknown; S->hits += s.cachehits - gLast.cachehits; S->us += s.z3us - gLast.z3us; S->quick += s.quickmodel - gLast.quickmodel; S->az3 += s.asserts_z3 - gLast.asserts_z3; S->audits += s.audits - gLast.audits;
    gLast = s;
    uint64_t n = exprCount(); if (n > S->maxexpr) S->maxexpr = n;
}
static std::string jesc(const std::string& s) {
    std::string o; char b[8];
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
    return o;
}
static std::string modelJson(const State& s) {
    std::string o = "["; char b[160];
    for (size_t i = 0; i < s.p.model.size(); i++) { snprintf(b, sizeof b, "%s[\"%s\",%d]", i ? "," : "", s.p.names[i] ? s.p.names[i] : "", s.p.model[i]); o += b; }
    return o + "]";
}
static uint64_t obsHash(const State& s) {
    uint64_t h = 1469598103934665603ull;
    for (auto& o : s.obs) {
        uint64_t v = o.v.e ? evalExpr(o.v.e, s.p.model.data()) : o.v.c;
        for (int i = 0; i < o.w; i++) { h ^= (v >> (8 * i)) & 255; h *= 1099511628211ull; }
    }
    return h;
}
static std::string stackStr(const State& s) {
    std::string o; int n = 0;
    for (size_t i = s.fr.size(); i-- > 0 && n < 14; n++) { const Frame& f = s.fr[i]; const Inst& in = f.f->code[std::min<size_t>(f.pc, f.f->code.size() - 1)]; o += (n ? " < " : "") + f.f->name + ":" + std::to_string(in.line); }
    return o;
}
static void writeEvent(State& s, const char* file, const std::string& kind, const std::string& msg) {
    std::string path = gOut + "/" + file;
    FILE* f = fopen(path.c_str(), "a");
    if (!f) return;
    std::string line = "{\"kind\":\"" + kind + "\",\"msg\":\"" + jesc(msg) + "\",\"vars\":" + modelJson(s) + ",\"obs\":\"" + std::to_string(obsHash(s)) + "\",\"stack\":\"" + jesc(stackStr(s)) + "\"}\n";
    fwrite(line.data(), 1, line.size(), f);
    fclose(f);
}
static std::set<std::string> gSeenViol;
static void violation(State& s, const std::string& kind, const std::string& msg) {
    // a few counterexamples per distinct message are enough
    static std::map<std::string, int> cnt;
    if (cnt[kind + msg]++ < 3) {
        uint64_t n = S->violations.fetch_add(1);
        if (n < (uint64_t)gMaxViol * 20) writeEvent(s, "violations.jsonl", kind, msg);
        if (n + 1 >= (uint64_t)gMaxViol) S->stop = 1;
    }
}
[[noreturn]] static void fail(State& s, const std::string& kind, const std::string& msg) { violation(s, kind, msg); throw PathEnd{E_VIOL}; }
[[noreturn]] static void cut(State& s, const std::string& why) {
    static std::map<std::string, int> cnt;
    if (cnt[why]++ < 40) writeEvent(s, "cuts.jsonl", "cut", why);
    throw PathEnd{E_CUT};
}

static State* forkState(State& s) { State* n = new State(s); n->depth++; lForks++; return n; }
static int sat(State& s, Expr* c, std::vector<uint8_t>& m) {
    int r = solveSat(s.p, c, m);
    if (r < 0) cut(s, "solver returned unknown");
    return r;
}
static void pushState(State* n) { gPending.push_back(n); }
static void warnUndef(State& s) { static int n = 0; if (n++ < 3) writeEvent(s, "uninit.jsonl", "uninit", "decision depends on uninitialised memory"); }

// Decide a condition: both outcomes are explored when both are possible. The
// other outcome re-executes the current instruction from its start.
static bool decide(State& s, Expr* c) {
    if (c->k == K_CONST) return c->c;
    if (c->undef) { warnUndef(s); if (!c->vars) return evalExpr(c, s.p.model.data()); }
    lDec++;
    bool v = evalExpr(c, s.p.model.data());
    Expr* o = v ? mkNot(c) : c;
    std::vector<uint8_t> m;
    if (sat(s, o, m)) {
        State* n = forkState(s);
        addConstraint(n->p, o, m);
        pushState(n);
        addConstraint(s.p, v ? c : o == c ? mkNot(c) : c, s.p.model);
    }
    return v;
}
static uint64_t concretize(State& s, Val& v, unsigned w) {
    if (!v.e) return v.c;
    if (v.e->undef) { warnUndef(s); if (!v.e->vars) { v = Val{evalExpr(v.e, s.p.model.data()), nullptr}; return v.c; } }
    uint64_t x = evalExpr(v.e, s.p.model.data());
    Expr* eq = mkBin(K_EQ, v.e, mkConst(x, w));
    if (eq->k != K_CONST) {
        Expr* ne = mkNot(eq); std::vector<uint8_t> m;
        lDec++;
        if (sat(s, ne, m)) { State* n = forkState(s); addConstraint(n->p, ne, m); pushState(n); addConstraint(s.p, eq, s.p.model); }
    }
    v = Val{x, nullptr};
    return x;
}

// ------------------------------------------------------------------ memory access
struct Ptr { uint32_t id; uint64_t off; };
static std::string objName(MemObj* o) { static const char* k[] = {"heap", "stack", "global", "constant", "function"}; return std::string(k[o->kind]) + " object of " + std::to_string(o->size) + " bytes" + (o->name ? std::string(" ") + o->name : ""); }
static MemObj* check(State& s, uint64_t addr, uint64_t n, bool write, Ptr& p) {
    p.id = addr >> 32; p.off = (addr & 0xffffffffull) - BASEOFF;
    if (n == 0) return nullptr;
    if (p.id == 0) fail(s, "memory", std::string(write ? "write through" : "read through") + " null or invalid pointer");
    MemObj* o = s.mem.get(p.id);
    if (!o) fail(s, "memory", "access through invalid pointer");
    if (o == gFreed) fail(s, "memory", std::string(write ? "write to" : "read of") + " freed or out-of-scope memory");
    if (p.off > o->size || n > o->size - p.off) fail(s, "memory", std::string(write ? "write" : "read") + " out of bounds: offset " + std::to_string((int64_t)p.off) + " size " + std::to_string(n) + " in " + objName(o));
    if (write && o->kind == OK_CONST) fail(s, "memory", "write to constant object");
    if (o->kind == OK_FUNC) fail(s, "memory", "data access to a function");
    return o;
}
static inline Expr* byteExpr(MemObj* o, uint64_t i) {
    uint8_t f = o->fl()[i];
    if (f == 2) return o->sym[i];
    if (f == 1) return mkConst(o->data()[i], 8);
    return mkUndef();
}
static Val loadVal(State& s, uint64_t addr, unsigned w) {
    unsigned n = (w + 7) / 8; Ptr p;
    MemObj* o = check(s, addr, n, false, p);
    const uint8_t* fl = o->fl() + p.off; bool conc = true;
    for (unsigned i = 0; i < n; i++) if (fl[i] != 1) { conc = false; break; }
    if (conc) { uint64_t v = 0; memcpy(&v, o->data() + p.off, n); return Val{v & maskw(w), nullptr}; }
    Expr* e = byteExpr(o, p.off + n - 1);
    for (unsigned i = n - 1; i-- > 0;) e = mkConcat(e, byteExpr(o, p.off + i));
    if (w < n * 8) e = mkExtract(e, 0, w);
    if (e->k == K_CONST) return Val{e->c, nullptr};
    return Val{0, e};
}
static inline void putByte(MemObj* o, uint64_t i, Expr* e) {
    if (e->k == K_CONST) { o->data()[i] = e->c; o->fl()[i] = 1; }
    else if (e->k == K_UNDEF) o->fl()[i] = 0;
    else { if (!o->sym) o->sym = (Expr**)calloc(o->size ? o->size : 1, sizeof(Expr*)); o->sym[i] = e; o->fl()[i] = 2; }
}
static void storeVal(State& s, uint64_t addr, Val v, unsigned w) {
    unsigned n = (w + 7) / 8; Ptr p;
    check(s, addr, n, true, p);
    MemObj* o = s.mem.getW(p.id);
    if (!v.e) { memcpy(o->data() + p.off, &v.c, n); memset(o->fl() + p.off, 1, n); return; }
    Expr* e = v.e; if (e->w < n * 8) e = mkZext(e, n * 8);
    for (unsigned i = 0; i < n; i++) putByte(o, p.off + i, mkExtract(e, 8 * i, 8));
}
static void copyMem(State& s, uint64_t dst, uint64_t src, uint64_t n, bool overlapOk) {
    if (!n) return;
    Ptr ps, pd;
    MemObj* so = check(s, src, n, false, ps);
    check(s, dst, n, true, pd);
    if (!overlapOk && ps.id == pd.id && ps.off != pd.off && ps.off < pd.off + n && pd.off < ps.off + n) fail(s, "memory", "memcpy of overlapping ranges");
    MemObj* d = s.mem.getW(pd.id); so = s.mem.get(ps.id);
    bool sy = false; for (uint64_t i = 0; i < n; i++) if (so->fl()[ps.off + i] == 2) { sy = true; break; }
    if (sy) {
        if (!d->sym) d->sym = (Expr**)calloc(d->size ? d->size : 1, sizeof(Expr*));
        memmove(d->sym + pd.off, so->sym + ps.off, n * sizeof(Expr*));
    }
    memmove(d->data() + pd.off, so->data() + ps.off, n);
    memmove(d->fl() + pd.off, so->fl() + ps.off, n);
}
static uint64_t allocate(State& s, uint64_t n, OKind k, bool init = false, uint8_t al = 0) {
    if (n > (64u << 20)) cut(s, "allocation of " + std::to_string(n) + " bytes");
    MemObj* o = newObj(n, k, init); o->alloc = al;
    return objAddr(s.mem.add(o));
}
static std::string readCStr(State& s, uint64_t a) {
    std::string r;
    for (int i = 0; i < 4096; i++) { Val v = loadVal(s, a + i, 8); uint8_t c = v.e ? evalExpr(v.e, s.p.model.data()) : v.c; if (!c) break; r += c; }
    return r;
}

// ------------------------------------------------------------------ exceptions
static bool typeMatches(uint64_t thrown, uint64_t want, int64_t& off) {
    if (want == 0 || thrown == want) { return true; }
    auto a = M.types.find(thrown);
    if (a == M.types.end()) return false;
    auto b = M.types.find(want);
    if (b != M.types.end() && a->second.name == b->second.name) return true;
    for (auto& [base, o] : a->second.bases) { int64_t o2 = off + o; if (typeMatches(base, want, o2)) { off = o2; return true; } }
    return false;
}
static void jump(State& s, int edge) {
    Frame& f = s.fr.back(); const Edge& e = f.f->edges[edge];
    size_t n = e.copies.size();
    if (n == 1) { int src = e.copies[0].second; f.r[e.copies[0].first] = src >= 0 ? f.r[src] : Val{f.f->consts[~src], nullptr}; }
    else if (n) {
        Val tmp[64]; std::vector<Val> big; Val* t = tmp; if (n > 64) { big.resize(n); t = big.data(); }
        for (size_t i = 0; i < n; i++) { int src = e.copies[i].second; t[i] = src >= 0 ? f.r[src] : Val{f.f->consts[~src], nullptr}; }
        for (size_t i = 0; i < n; i++) f.r[e.copies[i].first] = t[i];
    }
    f.pc = e.pc;
}
static void popFrame(State& s) {
    for (uint32_t id : s.fr.back().allocas) s.mem.put(id, gFreed);
    s.fr.pop_back();
}
// Unwind from the instruction the top frame is at.
static void unwind(State& s, uint64_t obj) {
    uint64_t ti = s.exc[obj].ti;
    bool first = true;
    while (true) {
        if (s.fr.empty()) break;
        Frame& f = s.fr.back();
        if (f.endPath) break;
        const Inst& in = f.f->code[f.pc];
        if (in.op == O_CALL && !(first && false)) {
            const CallInfo& ci = f.f->calls[in.imm];
            if (ci.invoke) {
                int pc = f.f->edges[ci.unwind].pc;
                const Inst* lp = nullptr;
                for (int k = pc; k < (int)f.f->code.size() && k < pc + 4; k++) if (f.f->code[k].op == O_LANDINGPAD) { lp = &f.f->code[k]; break; }
                if (lp) {
                    const LPInfo& li = f.f->lps[lp->imm]; uint32_t sel = 0; bool take = li.cleanup;
                    for (uint64_t c : li.catches) { int64_t off = 0; if (typeMatches(ti, c, off)) { sel = c ? (uint32_t)(c >> 32) : 0x7fffffff; take = true; break; } }
                    if (!li.filters.empty()) { bool ok = false; for (auto& fl : li.filters) for (uint64_t c : fl) { int64_t off = 0; if (typeMatches(ti, c, off)) ok = true; } if (!ok && !sel) { sel = 0xffffffffu; take = true; } }
                    if (take) {
                        jump(s, ci.unwind);
                        Frame& g = s.fr.back();
                        g.r[lp->dst] = Val{obj, nullptr}; g.r[lp->dst + 1] = Val{sel, nullptr};
                        g.pc = (int)(lp - g.f->code.data()) + 1;
                        return;
                    }
                }
            }
        }
        first = false;
        popFrame(s);
    }
    std::string n = "?"; auto it = M.types.find(ti); if (it != M.types.end()) n = it->second.name;
    s.fr.clear();
    fail(s, "exception", "uncaught exception of type " + n);
}

// ------------------------------------------------------------------ external functions
typedef std::function<bool(State&, const CallInfo&, Val* a, int n, Val* ret)> Handler; // returns false when control was transferred
static std::map<std::string, int> gHandlerIdx; static std::vector<Handler> gHandlers;
static void H(std::initializer_list<const char*> names, Handler h) { for (auto n : names) { gHandlerIdx[n] = gHandlers.size(); } gHandlers.push_back(h); }
static Expr* toE(Val v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static Val fromE(Expr* e) { if (e->k == K_CONST) return Val{e->c, nullptr}; return Val{0, e}; }
static void pushCall(State& s, const Func* f, const Val* args, int n, bool endPath);

static Val memcmpV(State& s, uint64_t a, uint64_t b, uint64_t n, bool onlyEq) {
    Expr* r = nullptr;
    if (!n) return Val{0, nullptr};
    Ptr pa, pb;
    // stop at the first concrete difference
    MemObj* oa = check(s, a, 1, false, pa); MemObj* ob = check(s, b, 1, false, pb);
    uint64_t lim = n;
    std::vector<std::pair<Expr*, Expr*>> diff; int tail = 0;
    for (uint64_t i = 0; i < lim; i++) {
        if (pa.off + i >= oa->size) check(s, a + i, 1, false, pa);
        if (pb.off + i >= ob->size) check(s, b + i, 1, false, pb);
        uint8_t fa = oa->fl()[pa.off + i], fb = ob->fl()[pb.off + i];
        if (fa == 1 && fb == 1) {
            uint8_t x = oa->data()[pa.off + i], y = ob->data()[pb.off + i];
            if (x != y) { tail = x < y ? -1 : 1; break; }
        } else {
            Expr* x = byteExpr(oa, pa.off + i); Expr* y = byteExpr(ob, pb.off + i);
            Expr* eq = mkBin(K_EQ, x, y);
            if (eq->k == K_CONST && eq->c) continue;
            diff.push_back({x, y});
            if (eq->k == K_CONST && !eq->c) { break; }
        }
    }
    r = mkConst((uint32_t)tail, 32);
    for (size_t i = diff.size(); i-- > 0;) {
        Expr *x = diff[i].first, *y = diff[i].second;
        Expr* eq = mkBin(K_EQ, x, y);
        Expr* lt = onlyEq ? mkConst(1, 32) : mkIte(mkBin(K_ULT, x, y), mkConst(0xffffffffu, 32), mkConst(1, 32));
        r = mkIte(eq, r, lt);
    }
    return fromE(r);
}

static void endExit(State& s, int code) {
    s.exited = true; s.exitCode = code; lExits++;
    auto it = M.byName.find("sym_on_exit");
    if (it != M.byName.end() && M.funcs[it->second].defined) { Val a{(uint32_t)code, nullptr}; pushCall(s, &M.funcs[it->second], &a, 1, true); return; }
    throw PathEnd{E_DONE};
}
static void doCheck(State& s, Val c, uint64_t msgp) {
    lChecks++;
    if (!c.e) { if (!c.c) { std::string m = readCStr(s, msgp); fail(s, "check", m); } return; }
    lChecksSym++;
    Expr* e = c.e->w == 1 ? c.e : mkNot(mkBin(K_EQ, c.e, mkConst(0, c.e->w)));
    std::vector<uint8_t> m;
    Expr* ne = mkNot(e);
    int r = solveSat(s.p, ne, m, true); gStats->asserts_z3++;
    if (r < 0) cut(s, "solver returned unknown on a checked assertion");
    if (r) {
        std::vector<uint8_t> keep = s.p.model; s.p.model = m; violation(s, "check", readCStr(s, msgp)); s.p.model = keep;
        if (!sat(s, e, m)) throw PathEnd{E_VIOL};
        addConstraint(s.p, e, m);
    }
}
static void setupHandlers() {
    auto newH = [](State& s, const CallInfo&, Val* a, int, Val* r) { uint64_t n = concretize(s, a[0], 64); if (n > 0x7fffffffffffull) cut(s, "huge allocation"); *r = Val{allocate(s, n, OK_HEAP, false, 1), nullptr}; return true; };
    H({"_Znwm", "_ZnwmRKSt9nothrow_t", "_ZnwmSt11align_val_t"}, newH);
    H({"_Znam", "_ZnamRKSt9nothrow_t"}, [](State& s, const CallInfo&, Val* a, int, Val* r) { uint64_t n = concretize(s, a[0], 64); *r = Val{allocate(s, n, OK_HEAP, false, 2), nullptr}; return true; });
    H({"malloc"}, [](State& s, const CallInfo&, Val* a, int, Val* r) { uint64_t n = concretize(s, a[0], 64); *r = Val{allocate(s, n, OK_HEAP, false, 3), nullptr}; return true; });
    H({"calloc"}, [](State& s, const CallInfo&, Val* a, int, Val* r) { uint64_t n = concretize(s, a[0], 64) * concretize(s, a[1], 64); *r = Val{allocate(s, n, OK_HEAP, true, 3), nullptr}; return true; });
    auto freeK = [](State& s, uint64_t p, int kind) {
        if (!p) return;
        uint32_t id = p >> 32; MemObj* o = s.mem.get(id);
        if (!o) fail(s, "memory", "free of an invalid pointer");
        if (o == gFreed) fail(s, "memory", "double free");
        if (o->kind != OK_HEAP || (p & 0xffffffff) != BASEOFF) fail(s, "memory", "free of a pointer not returned by an allocation");
        if (o->alloc != kind && o->alloc) fail(s, "memory", "mismatched allocation and deallocation functions");
        s.mem.put(id, gFreed);
    };
    H({"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}, [=](State& s, const CallInfo&, Val* a, int, Val*) { freeK(s, concretize(s, a[0], 64), 1); return true; });
    H({"_ZdaPv", "_ZdaPvm"}, [=](State& s, const CallInfo&, Val* a, int, Val*) { freeK(s, concretize(s, a[0], 64), 2); return true; });
    H({"free"}, [=](State& s, const CallInfo&, Val* a, int, Val*) { freeK(s, concretize(s, a[0], 64), 3); return true; });
    H({"strlen"}, [](State& s, const CallInfo&, Val* a, int, Val* r) {
        uint64_t p = concretize(s, a[0], 64), i = 0;
        for (;; i++) { Val v = loadVal(s, p + i, 8); if (!v.e) { if (!v.c) break; } else if (decide(s, mkBin(K_EQ, v.e, mkConst(0, 8)))) break; }
        *r = Val{i, nullptr}; return true; });
    H({"memchr"}, [](State& s, const CallInfo&, Val* a, int, Val* r) {
        uint64_t p = concretize(s, a[0], 64), n = concretize(s, a[2], 64); Expr* c = mkExtract(toE(a[1], 32), 0, 8);
        for (uint64_t i = 0; i < n; i++) { Val v = loadVal(s, p + i, 8); if (decide(s, mkBin(K_EQ, toE(v, 8), c))) { *r = Val{p + i, nullptr}; return true; } }
        *r = Val{0, nullptr}; return true; });
    H({"memcmp"}, [](State& s, const CallInfo&, Val* a, int, Val* r) { uint64_t p = concretize(s, a[0], 64), q = concretize(s, a[1], 64), n = concretize(s, a[2], 64); *r = memcmpV(s, p, q, n, false); return true; });
    H({"bcmp"}, [](State& s, const CallInfo&, Val* a, int, Val* r) { uint64_t p = concretize(s, a[0], 64), q = concretize(s, a[1], 64), n = concretize(s, a[2], 64); *r = memcmpV(s, p, q, n, true); return true; });
    H({"memcpy", "__memcpy_chk"}, [](State& s, const CallInfo&, Val* a, int, Val* r) { uint64_t d = concretize(s, a[0], 64), q = concretize(s, a[1], 64), n = concretize(s, a[2], 64); copyMem(s, d, q, n, false); *r = Val{d, nullptr}; return true; });
    H({"memmove"}, [](State& s, const CallInfo&, Val* a, int, Val* r) { uint64_t d = concretize(s, a[0], 64), q = concretize(s, a[1], 64), n = concretize(s, a[2], 64); copyMem(s, d, q, n, true); *r = Val{d, nullptr}; return true; });
    H({"memset"}, [](State& s, const CallInfo&, Val* a, int, Val* r) { uint64_t d = concretize(s, a[0], 64), n = concretize(s, a[2], 64); for (uint64_t i = 0; i < n; i++) storeVal(s, d + i, fromE(mkExtract(toE(a[1], 32), 0, 8)), 8); *r = Val{d, nullptr}; return true; });
    H({"__errno_location"}, [](State& s, const CallInfo&, Val*, int, Val* r) { *r = Val{s.errnoAddr, nullptr}; return true; });
    H({"__cxa_atexit", "__cxa_thread_atexit", "pthread_mutex_lock", "pthread_mutex_unlock"}, [](State&, const CallInfo&, Val*, int, Val* r) { *r = Val{0, nullptr}; return true; });
    H({"__cxa_guard_acquire"}, [](State& s, const CallInfo&, Val* a, int, Val* r) { Val v = loadVal(s, a[0].c, 8); *r = Val{v.c ? 0u : 1u, nullptr}; return true; });
    H({"__cxa_guard_release"}, [](State& s, const CallInfo&, Val* a, int, Val*) { storeVal(s, a[0].c, Val{1, nullptr}, 8); return true; });
    H({"__cxa_guard_abort"}, [](State&, const CallInfo&, Val*, int, Val*) { return true; });
    // exceptions
    H({"__cxa_allocate_exception"}, [](State& s, const CallInfo&, Val* a, int, Val* r) { *r = Val{allocate(s, a[0].c, OK_HEAP, false, 0), nullptr}; return true; });
    H({"__cxa_free_exception"}, [](State& s, const CallInfo&, Val* a, int, Val*) { s.mem.put(a[0].c >> 32, gFreed); return true; });
    H({"__cxa_throw"}, [](State& s, const CallInfo&, Val* a, int, Val*) -> bool { s.exc[a[0].c] = ExcInfo{a[1].c, 0}; unwind(s, a[0].c); return false; });
    H({"__cxa_begin_catch"}, [](State& s, const CallInfo&, Val* a, int, Val* r) { s.exc[a[0].c].handlers++; s.caught.push_back(a[0].c); *r = a[0]; return true; });
    H({"__cxa_get_exception_ptr"}, [](State&, const CallInfo&, Val* a, int, Val* r) { *r = a[0]; return true; });
    H({"__cxa_end_catch"}, [](State& s, const CallInfo&, Val*, int, Val*) {
        if (s.caught.empty()) return true;
        uint64_t o = s.caught.back(); s.caught.pop_back();
        ExcInfo& e = s.exc[o];
        if (e.handlers < 0) { e.handlers++; }         // being rethrown
        else if (--e.handlers == 0) { s.exc.erase(o); s.mem.put(o >> 32, gFreed); }
        return true; });
    H({"__cxa_rethrow"}, [](State& s, const CallInfo&, Val*, int, Val*) -> bool {
        if (s.caught.empty()) fail(s, "exception", "rethrow without an exception");
        uint64_t o = s.caught.back(); s.exc[o].handlers = -s.exc[o].handlers; unwind(s, o); return false; });
    H({"_ZSt9terminatev", "__cxa_call_unexpected", "__cxa_pure_virtual", "abort", "__cxa_bad_cast", "__cxa_call_terminate"}, [](State& s, const CallInfo&, Val*, int, Val*) -> bool { fail(s, "abort", "program terminated (std::terminate or abort)"); });
    H({"__assert_fail"}, [](State& s, const CallInfo&, Val* a, int, Val*) -> bool { fail(s, "abort", "assertion failed: " + readCStr(s, a[0].c)); });
    H({"_ZSt21__glibcxx_assert_failPKciS0_S0_"}, [](State& s, const CallInfo&, Val* a, int, Val*) -> bool { fail(s, "abort", "library precondition failed: " + readCStr(s, a[3].c) + " in " + readCStr(s, a[2].c)); });
    H({"exit", "_exit", "_Exit", "quick_exit"}, [](State& s, const CallInfo&, Val* a, int, Val*) -> bool { int c = (int)concretize(s, a[0], 32); endExit(s, c); return false; });
    H({"__dynamic_cast"}, [](State& s, const CallInfo&, Val* a, int, Val* r) {
        uint64_t p = concretize(s, a[0], 64); Val vp = loadVal(s, p, 64); Val ti = loadVal(s, vp.c - 8, 64), top = loadVal(s, vp.c - 16, 64);
        int64_t off = 0; uint64_t full = p + top.c;
        *r = Val{typeMatches(ti.c, a[2].c, off) ? full + off : 0, nullptr}; return true; });
    // harness interface
    H({"sym_u8"}, [](State& s, const CallInfo&, Val* a, int, Val* r) {
        unsigned v = s.p.dom.size(); if (v >= MAXVARS) cut(s, "too many symbolic bytes");
        int lo = (int)a[1].c, hi = (int)a[2].c;
        if (lo == hi) { }
        Dom d{}; for (int i = lo; i <= hi && i < 256; i++) d.b[i >> 6] |= 1ull << (i & 63);
        s.p.dom.push_back(d);
        std::string nm = readCStr(s, a[0].c); static std::map<std::string, const char*> names; auto& x = names[nm]; if (!x) x = strdup(nm.c_str());
        s.p.names.push_back(x);
        // a seeded starting value inside the range
        uint64_t h = (gSeed * 0x9E3779B97F4A7C15ull + v * 0xBF58476D1CE4E5B9ull); h ^= h >> 29; h *= 0x94D049BB133111EBull; h ^= h >> 32;
        s.p.model.push_back(lo + h % (hi - lo + 1));
        if (v + 1 > S->maxvars) S->maxvars = v + 1;
        *r = fromE(lo == hi ? mkConst(lo, 8) : mkVar(v)); return true; });
    H({"sym_assume"}, [](State& s, const CallInfo&, Val* a, int, Val*) {
        if (!a[0].e) { if (!a[0].c) throw PathEnd{E_ASSUME}; return true; }
        Expr* e = mkNot(mkBin(K_EQ, a[0].e, mkConst(0, a[0].e->w))); std::vector<uint8_t> m;
        if (!sat(s, e, m)) throw PathEnd{E_ASSUME};
        addConstraint(s.p, e, m); return true; });
    H({"sym_check"}, [](State& s, const CallInfo&, Val* a, int, Val*) { doCheck(s, a[0], a[1].c); return true; });
    H({"sym_reach"}, [](State& s, const CallInfo&, Val* a, int, Val*) {
        std::string l = readCStr(s, a[0].c).substr(0, 63); int n = S->nreach;
        for (int i = 0; i < n; i++) if (l == S->reach[i]) { S->reachN[i]++; return true; }
        n = S->nreach.fetch_add(1); if (n < 64) { strcpy(S->reach[n], l.c_str()); S->reachN[n]++; } else S->nreach = 64;
        return true; });
    H({"sym_obs"}, [](State& s, const CallInfo&, Val* a, int, Val*) { s.obs.push_back(Obs{a[0], 8}); return true; });
    H({"sym_obs_bytes"}, [](State& s, const CallInfo&, Val* a, int, Val*) {
        uint64_t p = concretize(s, a[0], 64), n = concretize(s, a[1], 64); s.obs.push_back(Obs{Val{n, nullptr}, 8});
        for (uint64_t i = 0; i < n; i++) s.obs.push_back(Obs{loadVal(s, p + i, 8), 1}); return true; });
    H({"sym_fix"}, [](State& s, const CallInfo&, Val* a, int, Val* r) { *r = Val{concretize(s, a[0], 64), nullptr}; return true; });
    // strtod and strtof of a concrete text
    H({"sym_native_float"}, [](State& s, const CallInfo&, Val* a, int, Val* r) {
        std::string t = readCStr(s, a[0].c); char* e = nullptr; uint64_t b = 0; uint64_t k = a[1].c; errno = 0;
        if (k & 1) { float f = strtof(t.c_str(), &e); memcpy(&b, &f, 4); } else { double d = strtod(t.c_str(), &e); memcpy(&b, &d, 8); }
        *r = Val{(k >> 1) == 0 ? b : (k >> 1) == 1 ? (uint64_t)errno : (uint64_t)(e - t.c_str()), nullptr}; return true; });
    H({"sym_symbolic"}, [](State&, const CallInfo&, Val*, int, Val* r) { *r = Val{1, nullptr}; return true; });
    H({"sym_param"}, [](State& s, const CallInfo&, Val* a, int, Val* r) { auto it = gParams.find(readCStr(s, a[0].c)); *r = Val{(uint64_t)(it == gParams.end() ? (int64_t)a[1].c : it->second), nullptr}; return true; });
    H({"sym_known"}, [](State& s, const CallInfo&, Val* a, int, Val*) -> bool { static std::map<std::string, int> c; std::string id = readCStr(s, a[0].c); if (c[id]++ < 2) writeEvent(s, "known.jsonl", "known", id); throw PathEnd{E_KNOWN}; });
    H({"sym_end"}, [](State&, const CallInfo&, Val*, int, Val*) -> bool { throw PathEnd{E_DONE}; });
    H({"sym_debug"}, [](State& s, const CallInfo&, Val* a, int, Val*) { if (gVerbose) { uint64_t p = a[0].c; fprintf(stderr, "[debug] %s %s\n", readCStr(s, p).c_str(), a[1].e ? exprStr(a[1].e).c_str() : std::to_string(a[1].c).c_str()); } return true; });
}

static void pushCall(State& s, const Func* f, const Val* args, int n, bool endPath) {
    if (s.fr.size() > 400) fail(s, "hang", "call depth above 400");
    s.fr.emplace_back();
    Frame& nf = s.fr.back(); nf.f = f; nf.pc = 0; nf.r.resize(f->nregs); nf.endPath = endPath;
    for (int i = 0; i < n && i < f->nargs; i++) nf.r[i] = args[i];
    S->fn[f->id] = 1;
}

// ------------------------------------------------------------------ interpreter
#define RD(x) ((x) >= 0 ? R[x] : Val{C[~(x)], nullptr})
static void runPath(State& s) {
    uint64_t since = 0;
    for (;;) {
        Frame* f = &s.fr.back(); Val* R = f->r.data(); const uint64_t* C = f->f->consts.data(); const Inst* code = f->f->code.data();
    same:
        const Inst& in = code[f->pc];
        s.instrs++;
        if (++since >= 65536) {
            lInstr += since; since = 0;
            if (s.instrs > gMaxInstr) throw PathEnd{E_HANG};
            if (S->stop || (gDeadline && now() > gDeadline)) throw PathEnd{E_DROP};
        }
        switch (in.op) {
        case O_BIN: {
            Val a = RD(in.a), b = RD(in.b);
            if (!(a.e || b.e)) {
                bool ok; uint64_t v;
                switch (in.sub) {
                case K_ADD: v = (a.c + b.c) & maskw(in.w); break;
                case K_SUB: v = (a.c - b.c) & maskw(in.w); break;
                case K_AND: v = a.c & b.c; break;
                case K_OR: v = a.c | b.c; break;
                case K_XOR: v = a.c ^ b.c; break;
                default: v = foldBin((Kind)in.sub, a.c, b.c, in.w, ok); if (!ok) fail(s, "arith", "division by zero");
                }
                R[in.dst] = Val{v, nullptr};
            } else {
                if (in.sub >= K_UDIV && in.sub <= K_SREM && b.e) { if (decide(s, mkBin(K_EQ, b.e, mkConst(0, in.w)))) fail(s, "arith", "division by zero"); }
                R[in.dst] = fromE(mkBin((Kind)in.sub, toE(a, in.w), toE(b, in.w)));
            }
            f->pc++; goto same; }
        case O_ICMP: {
            Val a = RD(in.a), b = RD(in.b);
            if (!(a.e || b.e)) {
                bool v;
                switch (in.sub) { case K_EQ: v = a.c == b.c; break; case K_ULT: v = a.c < b.c; break; case K_ULE: v = a.c <= b.c; break;
                case K_SLT: v = sextw(a.c, in.w) < sextw(b.c, in.w); break; default: v = sextw(a.c, in.w) <= sextw(b.c, in.w); }
                R[in.dst] = Val{(uint64_t)(v ^ in.flag), nullptr};
            } else {
                Expr* e = mkBin((Kind)in.sub, toE(a, in.w), toE(b, in.w)); if (in.flag) e = mkNot(e);
                R[in.dst] = fromE(e);
            }
            f->pc++; goto same; }
        case O_ZEXT: { Val a = RD(in.a); R[in.dst] = a.e ? fromE(mkZext(a.e, in.w)) : a; f->pc++; goto same; }
        case O_SEXT: { Val a = RD(in.a); R[in.dst] = a.e ? fromE(mkSext(a.e, in.w)) : Val{(uint64_t)sextw(a.c, in.w2) & maskw(in.w), nullptr}; f->pc++; goto same; }
        case O_TRUNCI: { Val a = RD(in.a); R[in.dst] = a.e ? fromE(mkExtract(a.e, 0, in.w)) : Val{a.c & maskw(in.w), nullptr}; f->pc++; goto same; }
        case O_MOV: { R[in.dst] = RD(in.a); f->pc++; goto same; }
        case O_SELECT: {
            Val c = RD(in.a);
            if (!c.e) R[in.dst] = c.c ? RD(in.b) : RD(in.c);
            else {
                Val a = RD(in.b), b = RD(in.c);
                if (!a.e && !b.e && a.c == b.c) R[in.dst] = a;
                else if (in.flag || in.w == 64) { // pointers and sizes: follow both
                    bool v = decide(s, c.e); R[in.dst] = v ? a : b;
                }
                else R[in.dst] = fromE(mkIte(c.e, toE(a, in.w), toE(b, in.w)));
            }
            f->pc++; goto same; }
        case O_LOAD: {
            Val a = RD(in.a);
            if (a.e) { uint64_t x = concretize(s, a, 64); if (in.a >= 0) R[in.a] = a; a.c = x; }
            R[in.dst] = loadVal(s, a.c + in.imm, in.w);
            f->pc++; goto same; }
        case O_STORE: {
            Val a = RD(in.b);
            if (a.e) { concretize(s, a, 64); if (in.b >= 0) R[in.b] = a; }
            storeVal(s, a.c + in.imm, RD(in.a), in.w);
            f->pc++; goto same; }
        case O_ADDI: { Val a = RD(in.a); R[in.dst] = a.e ? fromE(mkBin(K_ADD, a.e, mkConst(in.imm, 64))) : Val{a.c + in.imm, nullptr}; f->pc++; goto same; }
        case O_IDX: {
            Val a = RD(in.a), b = RD(in.b);
            if (!(a.e || b.e)) R[in.dst] = Val{a.c + (uint64_t)sextw(b.c, in.w2) * in.imm, nullptr};
            else R[in.dst] = fromE(mkBin(K_ADD, toE(a, 64), mkBin(K_MUL, mkSext(toE(b, in.w2), 64), mkConst(in.imm, 64))));
            f->pc++; goto same; }
        case O_ALLOCA: {
            Val a = RD(in.a); uint64_t n = concretize(s, a, 64);
            uint64_t ad = allocate(s, n * in.imm, OK_STACK); f->allocas.push_back(ad >> 32);
            R[in.dst] = Val{ad, nullptr}; f->pc++; goto same; }
        case O_BR: jump(s, in.a); goto same;
        case O_CBR: {
            Val c = RD(in.a);
            if (!c.e) { jump(s, c.c ? in.b : in.c); goto same; }
            if (c.e->undef) { warnUndef(s); if (!c.e->vars) { jump(s, evalExpr(c.e, s.p.model.data()) ? in.b : in.c); goto same; } }
            lDec++;
            bool v = evalExpr(c.e, s.p.model.data());
            Expr* no = mkNot(c.e); Expr* mine = v ? c.e : no; Expr* other = v ? no : c.e;
            std::vector<uint8_t> m;
            if (sat(s, other, m)) {
                State* n = forkState(s);
                addConstraint(n->p, other, m);
                jump(*n, v ? in.c : in.b);
                pushState(n);
                addConstraint(s.p, mine, s.p.model);
            }
            jump(s, v ? in.b : in.c);
            goto same; }
        case O_SWITCH: {
            Val c = RD(in.a); const SwitchInfo& si = f->f->switches[in.imm];
            uint64_t x = c.e ? evalExpr(c.e, s.p.model.data()) : c.c; int tgt = si.def;
            for (auto& [v, e] : si.cases) if (v == x) { tgt = e; break; }
            if (c.e) {
                if (c.e->undef) warnUndef(s);
                Expr* any = mkConst(0, 1);
                if (tgt == si.def) { Expr* none = mkConst(1, 1); for (auto& [v, e] : si.cases) if (e != tgt) none = mkBin(K_AND, none, mkNot(mkBin(K_EQ, c.e, mkConst(v, in.w)))); any = none; }
                else for (auto& [v, e] : si.cases) if (e == tgt) any = mkBin(K_OR, any, mkBin(K_EQ, c.e, mkConst(v, in.w)));
                if (any->k != K_CONST) {
                    lDec++;
                    Expr* o = mkNot(any); std::vector<uint8_t> m;
                    if (sat(s, o, m)) { State* n = forkState(s); addConstraint(n->p, o, m); pushState(n); addConstraint(s.p, any, s.p.model); }
                }
            }
            jump(s, tgt); goto same; }
        case O_RET: {
            const CallInfo& ci = f->f->calls[in.imm]; Val tmp[32]; int n = ci.args.size(); std::vector<Val> big; Val* t = tmp; if (n > 32) { big.resize(n); t = big.data(); }
            for (int i = 0; i < n; i++) t[i] = RD(ci.args[i]);
            bool ep = f->endPath;
            popFrame(s);
            if (ep || s.fr.empty()) { lInstr += since; throw PathEnd{E_DONE}; }
            Frame& cf = s.fr.back(); const Inst& call = cf.f->code[cf.pc]; const CallInfo& cc = cf.f->calls[call.imm];
            for (int i = 0; i < n && i < cc.nret; i++) cf.r[call.dst + i] = t[i];
            if (cc.invoke) jump(s, cc.normal); else cf.pc++;
            break; }
        case O_UNREACHABLE: fail(s, "ub", "unreachable code reached");
        case O_TRAP: fail(s, "ub", "undefined behaviour trap " + std::to_string(in.imm));
        case O_RESUME: { Val a = RD(in.a); 
            // the frame does not handle it any more
            popFrame(s); unwind(s, a.c); break; }
        case O_LANDINGPAD: f->pc++; goto same;
        case O_CALL: {
            const CallInfo& ci = f->f->calls[in.imm]; int n = ci.args.size();
            Val tmp[48]; std::vector<Val> big; Val* a = tmp; if (n > 48) { big.resize(n); a = big.data(); }
            for (int i = 0; i < n; i++) a[i] = RD(ci.args[i]);
            int fn = ci.fn;
            if (fn < 0) {
                Val t = RD(ci.target); uint64_t ad = concretize(s, t, 64);
                auto it = M.byAddr.find(ad);
                if (it == M.byAddr.end()) fail(s, "memory", "call through an invalid function pointer");
                fn = it->second;
            }
            const Func& F = M.funcs[fn];
            if (F.defined) {
                for (int i = 0; i < n; i++) if (ci.byval[i]) { uint64_t p = allocate(s, ci.byval[i], OK_STACK); copyMem(s, p, a[i].c, ci.byval[i], true); a[i] = Val{p, nullptr}; }
                pushCall(s, &F, a, n, false);
                break;
            }
            if (F.ext < 0) cut(s, "unsupported external function " + F.name);
            Val ret[4];
            if (gHandlers[F.ext](s, ci, a, n, ret)) {
                Frame& g = s.fr.back();
                for (int i = 0; i < ci.nret && i < 4; i++) g.r[in.dst + i] = ret[i];
                if (ci.invoke) jump(s, ci.normal); else g.pc++;
            }
            break; }
        case O_MEMCPY: case O_MEMMOVE: {
            Val d = RD(in.a), q = RD(in.b), n = RD(in.c);
            uint64_t nn = concretize(s, n, in.w2 ? in.w2 : 64), dd = concretize(s, d, 64), qq = concretize(s, q, 64);
            copyMem(s, dd, qq, nn, in.op == O_MEMMOVE);
            f->pc++; goto same; }
        case O_MEMSET: {
            Val d = RD(in.a), v = RD(in.b), n = RD(in.c);
            uint64_t nn = concretize(s, n, 64), dd = concretize(s, d, 64);
            if (nn) {
                Ptr p; check(s, dd, nn, true, p); MemObj* o = s.mem.getW(p.id);
                if (!v.e) { memset(o->data() + p.off, v.c, nn); memset(o->fl() + p.off, 1, nn); }
                else for (uint64_t i = 0; i < nn; i++) putByte(o, p.off + i, v.e);
            }
            f->pc++; goto same; }
        case O_MINMAX: {
            Val a = RD(in.a), b = RD(in.b); Kind k = in.sub < 2 ? K_ULT : K_SLT; bool mx = in.sub & 1;
            if (!(a.e || b.e)) { bool lt = k == K_ULT ? a.c < b.c : sextw(a.c, in.w) < sextw(b.c, in.w); R[in.dst] = lt != mx ? a : b; }
            else { Expr *x = toE(a, in.w), *y = toE(b, in.w); Expr* lt = mkBin(k, x, y); R[in.dst] = fromE(mx ? mkIte(lt, y, x) : mkIte(lt, x, y)); }
            f->pc++; goto same; }
        case O_CTLZ: case O_CTTZ: case O_CTPOP: case O_BSWAP: case O_ABS: {
            Val a = RD(in.a);
            if (a.e && in.op == O_ABS) { Expr* z = mkConst(0, in.w); R[in.dst] = fromE(mkIte(mkBin(K_SLT, a.e, z), mkBin(K_SUB, z, a.e), a.e)); f->pc++; goto same; }
            if (a.e && in.op == O_CTPOP) { Expr* t = mkConst(0, in.w); for (int i = 0; i < in.w; i++) t = mkBin(K_ADD, t, mkZext(mkExtract(a.e, i, 1), in.w)); R[in.dst] = fromE(t); f->pc++; goto same; }
            uint64_t x = concretize(s, a, in.w), v = 0;
            switch (in.op) {
            case O_CTLZ: v = x ? __builtin_clzll(x) - (64 - in.w) : in.w; break;
            case O_CTTZ: v = x ? __builtin_ctzll(x) : in.w; break;
            case O_CTPOP: v = __builtin_popcountll(x); break;
            case O_BSWAP: v = __builtin_bswap64(x) >> (64 - in.w); break;
            default: { int64_t t = sextw(x, in.w); v = (uint64_t)(t < 0 ? -t : t) & maskw(in.w); } }
            R[in.dst] = Val{v, nullptr}; f->pc++; goto same; }
        case O_FSHL: case O_FSHR: {
            Val a = RD(in.a), b = RD(in.b), c = RD(in.c); uint64_t sh = concretize(s, c, in.w) % in.w;
            if (in.op == O_FSHR) sh = (in.w - sh) % in.w, sh = sh == 0 ? in.w : sh;
            Expr *x = toE(a, in.w), *y = toE(b, in.w); Expr* r = sh == 0 ? x : sh >= in.w ? y : mkBin(K_OR, mkBin(K_SHL, x, mkConst(sh, in.w)), mkBin(K_LSHR, y, mkConst(in.w - sh, in.w)));
            R[in.dst] = fromE(r); f->pc++; goto same; }
        case O_OVF: {
            Val a = RD(in.a), b = RD(in.b); unsigned w = in.w;
            if (!(a.e || b.e)) {
                bool o; uint64_t r; __int128 sa = sextw(a.c, w), sb = sextw(b.c, w); unsigned __int128 ua = a.c, ub = b.c;
                switch (in.sub) {
                case 0: r = ua + ub; o = (ua + ub) >> w != 0; break;
                case 1: r = a.c - b.c; o = a.c < b.c; break;
                case 2: r = ua * ub; o = (ua * ub) >> w != 0; break;
                default: { __int128 t = in.sub == 3 ? sa + sb : in.sub == 4 ? sa - sb : sa * sb; r = (uint64_t)t; o = t != (__int128)sextw(r & maskw(w), w); } }
                R[in.dst] = Val{r & maskw(w), nullptr}; R[in.dst + 1] = Val{o, nullptr};
            } else {
                Expr *x = toE(a, w), *y = toE(b, w), *r = nullptr, *o = nullptr, *z = mkConst(0, w);
                switch (in.sub) {
                case 0: r = mkBin(K_ADD, x, y); o = mkBin(K_ULT, r, x); break;
                case 1: r = mkBin(K_SUB, x, y); o = mkBin(K_ULT, x, y); break;
                case 3: r = mkBin(K_ADD, x, y); o = mkBin(K_AND, mkBin(K_EQ, mkBin(K_SLT, x, z), mkBin(K_SLT, y, z)), mkNot(mkBin(K_EQ, mkBin(K_SLT, r, z), mkBin(K_SLT, x, z)))); break;
                case 4: r = mkBin(K_SUB, x, y); o = mkBin(K_AND, mkNot(mkBin(K_EQ, mkBin(K_SLT, x, z), mkBin(K_SLT, y, z))), mkNot(mkBin(K_EQ, mkBin(K_SLT, r, z), mkBin(K_SLT, x, z)))); break;
                case 2: if (w <= 32) { Expr* t = mkBin(K_MUL, mkZext(x, 2 * w), mkZext(y, 2 * w)); r = mkExtract(t, 0, w); o = mkNot(mkBin(K_EQ, mkExtract(t, w, w), mkConst(0, w))); break; }
                    // 64 bit: overflow iff y != 0 and x > max / y
                    if (!b.e && b.c) { r = mkBin(K_MUL, x, y); o = mkBin(K_ULT, mkConst(~0ull / b.c, w), x); }
                    else if (!b.e) { r = z; o = mkConst(0, 1); }
                    else if (!a.e && a.c) { r = mkBin(K_MUL, x, y); o = mkBin(K_ULT, mkConst(~0ull / a.c, w), y); }
                    else if (!a.e) { r = z; o = mkConst(0, 1); }
                    else { concretize(s, b, w); if (in.b >= 0) R[in.b] = b; continue; }
                    break;
                default: if (w <= 32) { Expr* t = mkBin(K_MUL, mkSext(x, 2 * w), mkSext(y, 2 * w)); r = mkExtract(t, 0, w); o = mkNot(mkBin(K_EQ, t, mkSext(r, 2 * w))); break; }
                    cut(s, "64-bit signed multiply overflow on symbolic values");
                }
                R[in.dst] = fromE(r); R[in.dst + 1] = fromE(o);
            }
            f->pc++; goto same; }
        case O_SAT: {
            Val a = RD(in.a), b = RD(in.b); unsigned w = in.w; Expr *x = toE(a, w), *y = toE(b, w); Expr* r;
            if (in.sub == 0) { Expr* t = mkBin(K_ADD, x, y); r = mkIte(mkBin(K_ULT, t, x), mkConst(~0ull, w), t); }
            else if (in.sub == 1) r = mkIte(mkBin(K_ULT, x, y), mkConst(0, w), mkBin(K_SUB, x, y));
            else cut(s, "signed saturating arithmetic");
            R[in.dst] = fromE(r); f->pc++; goto same; }
        case O_FLOAT: {
            Val a = RD(in.a), b = RD(in.b); unsigned w = in.w;
            uint64_t x = concretize(s, a, in.w2 ? in.w2 : w), y = 0; if (in.b) y = concretize(s, b, w);
            auto tod = [](uint64_t v, unsigned ww) -> double { if (ww == 32) { float q; uint32_t u = v; memcpy(&q, &u, 4); return q; } double q; memcpy(&q, &v, 8); return q; };
            auto fromd = [](double d, unsigned ww) -> uint64_t { if (ww == 32) { float q = d; uint32_t u; memcpy(&u, &q, 4); return u; } uint64_t u; memcpy(&u, &d, 8); return u; };
            uint64_t r = 0;
            switch (in.sub) { // llvm::Instruction opcodes
            case 12: r = fromd(-tod(x, w), w); break;                       // FNeg
            case 14: r = w == 32 ? fromd((float)tod(x, w) + (float)tod(y, w), w) : fromd(tod(x, w) + tod(y, w), w); break;   // FAdd
            case 16: r = w == 32 ? fromd((float)tod(x, w) - (float)tod(y, w), w) : fromd(tod(x, w) - tod(y, w), w); break;   // FSub
            case 18: r = w == 32 ? fromd((float)tod(x, w) * (float)tod(y, w), w) : fromd(tod(x, w) * tod(y, w), w); break;   // FMul
            case 21: r = w == 32 ? fromd((float)tod(x, w) / (float)tod(y, w), w) : fromd(tod(x, w) / tod(y, w), w); break;   // FDiv
            case 41: r = (uint64_t)tod(x, in.w2) & maskw(w); break;          // FPToUI
            case 42: r = (uint64_t)(int64_t)tod(x, in.w2) & maskw(w); break; // FPToSI
            case 43: r = fromd((double)x, w); break;                        // UIToFP
            case 44: r = fromd((double)sextw(x, in.w2), w); break;          // SIToFP
            case 45: case 46: r = fromd(tod(x, in.w2), w); break;            // FPTrunc FPExt
            case 54: { double p = tod(x, w), q = tod(y, w); bool uno = std::isnan(p) || std::isnan(q); bool v = false;
                switch (in.imm) { case 0: v = false; break; case 1: v = !uno && p == q; break; case 2: v = !uno && p > q; break; case 3: v = !uno && p >= q; break; case 4: v = !uno && p < q; break; case 5: v = !uno && p <= q; break; case 6: v = !uno && p != q; break; case 7: v = !uno; break;
                case 8: v = uno; break; case 9: v = uno || p == q; break; case 10: v = uno || p > q; break; case 11: v = uno || p >= q; break; case 12: v = uno || p < q; break; case 13: v = uno || p <= q; break; case 14: v = uno || p != q; break; default: v = true; }
                r = v; break; }
            default: cut(s, "floating point operation " + std::to_string(in.sub));
            }
            R[in.dst] = Val{r, nullptr}; f->pc++; goto same; }
        case O_NOP: f->pc++; goto same;
        case O_UNSUPPORTED: cut(s, "unsupported instruction " + f->f->unsupported[in.imm]);
        default: cut(s, "unknown op " + std::to_string(in.op) + " pc " + std::to_string(f->pc) + " of " + std::to_string(f->f->code.size()) + " in " + f->f->name);
        }
    }
}

static void samplePath(State& s, const char* end) {
    if (gSampleCtr++ % gStride) return;
    if (gSampleCtr / gStride > 64) gStride *= 2;
    if (!gPathsF) { std::string p = gOut + "/paths." + std::to_string(getpid()); gPathsF = fopen(p.c_str(), "a"); }
    std::string v; for (auto x : s.p.model) v += (v.empty() ? "" : ",") + std::to_string((int)x);
    fprintf(gPathsF, "{\"end\":\"%s\",\"code\":%d,\"obs\":\"%llu\",\"nobs\":%zu,\"vars\":[%s],\"vj\":%s}\n", end, s.exited ? s.exitCode : -1, (unsigned long long)obsHash(s), s.obs.size(), v.c_str(), modelJson(s).c_str());
}
static size_t rssMB() { static int pg = sysconf(_SC_PAGESIZE); FILE* f = fopen("/proc/self/statm", "r"); long a = 0, b = 0, c = 0; if (f) { if (fscanf(f, "%ld %ld %ld", &a, &b, &c) != 3) b = 0; fclose(f); } return (size_t)(b - c > 0 ? b - c : b) * pg >> 20; }

static void trySplit() {
    while (gPending.size() >= 2) {
        int a = S->active.load();
        if (a >= gProcs) return;
        if (!S->active.compare_exchange_strong(a, a + 1)) continue;
        flushStats();
        if (gPathsF) { fflush(gPathsF); }
        pid_t pid = fork();
        if (pid < 0) { S->active--; return; }
        // alternate: the oldest states are the largest subtrees
        std::vector<State*> mine, other;
        for (size_t i = 0; i < gPending.size(); i++) (i & 1 ? mine : other).push_back(gPending[i]);
        if (pid == 0) {
            gPathsF = nullptr;
            for (State* s : mine) delete s;
            gPending = other;
            z3AfterFork();
            return;
        }
        for (State* s : other) delete s;
        gPending = mine;
    }
}
static void explore() {
    uint64_t it = 0;
    while (!gPending.empty()) {
        if (S->stop || (gDeadline && now() > gDeadline)) { (S->stop ? S->dropped : S->droppedDl) += gPending.size(); break; }
        if ((++it & 255) == 0) {
            flushStats();
            if (rssMB() > gMemLimit) { S->crashed++; S->dropped += gPending.size(); break; }
        }
        trySplit();
        State* s = gPending.back(); gPending.pop_back();
        try { runPath(*s); }
        catch (PathEnd& e) {
            switch (e.k) {
            case E_DONE: lPaths++; samplePath(*s, s->exited ? "exit" : "done"); break;
            case E_ASSUME: lAssumed++; break;
            case E_VIOL: lPaths++; break;
            case E_CUT: lCut++; break;
            case E_KNOWN: lKnown++; break;
            case E_HANG: S->hangs++; { static int n = 0; if (n++ < 3) writeEvent(*s, "hangs.jsonl", "hang", "more than " + std::to_string(gMaxInstr) + " instructions"); } break;
            case E_DROP: (S->stop ? S->dropped : S->droppedDl)++; break;
            }
        }
        delete s;
    }
    for (State* s : gPending) (void)s;
    flushStats();
    if (gPathsF) fclose(gPathsF);
}

int main(int argc, char** argv) {
    std::string bc;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto next = [&] { return std::string(argv[++i]); };
        if (a == "-e") gEntry = next();
        else if (a == "-o") gOut = next();
        else if (a == "-t") gTime = atof(next().c_str());
        else if (a == "-j") gProcs = atoi(next().c_str());
        else if (a == "-n") gMaxInstr = atoll(next().c_str());
        else if (a == "-m") gMemLimit = atoll(next().c_str());
        else if (a == "-V") gMaxViol = atoi(next().c_str());
        else if (a == "-s") gSeed = atoll(next().c_str());
        else if (a == "-v") gVerbose = true;
        else if (a == "-p") { std::string kv = next(); auto eq = kv.find('='); gParams[kv.substr(0, eq)] = atoll(kv.c_str() + eq + 1); }
        else bc = a;
    }
    double t0 = now();
    std::string err;
    if (!loadModule(bc, M, err)) { fprintf(stderr, "argosym: %s: %s\n", bc.c_str(), err.c_str()); return 3; }
    double t1 = now();
    S = (Shared*)mmap(nullptr, sizeof(Shared) + M.funcs.size() + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    setupHandlers();
    for (auto& f : M.funcs) if (!f.defined) { auto it = gHandlerIdx.find(f.name); if (it != gHandlerIdx.end()) f.ext = it->second; }
    auto it = M.byName.find(gEntry);
    if (it == M.byName.end() || !M.funcs[it->second].defined) { fprintf(stderr, "argosym: no entry %s\n", gEntry.c_str()); return 3; }
    State* st = new State();
    uint32_t maxid = 0;
    for (auto& g : M.globals) {
        uint32_t id = g.addr >> 32; maxid = std::max(maxid, id);
        MemObj* o = newObj(g.size, g.constant ? OK_CONST : OK_GLOBAL, true); o->name = strdup(g.name.c_str());
        memcpy(o->data(), g.init.data(), g.size);
        if (g.name == "__libc_single_threaded") o->data()[0] = 1;
        st->mem.put(id, o);
    }
    for (auto& f : M.funcs) { uint32_t id = f.addr >> 32; maxid = std::max(maxid, id); MemObj* o = newObj(1, OK_FUNC, true); o->name = f.name.c_str(); st->mem.put(id, o); }
    st->mem.next = maxid + 1;
    st->errnoAddr = allocate(*st, 4, OK_GLOBAL, true);
    gDeadline = gTime > 0 ? t0 + gTime : 0;
    S->active = 1;
    pid_t root = getpid();
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    // static initialisers, then the harness
    for (int c : M.ctors) { pushCall(*st, &M.funcs[c], nullptr, 0, true); try { runPath(*st); } catch (PathEnd& e) { if (e.k != E_DONE) { fprintf(stderr, "argosym: static initialiser failed\n"); return 3; } } }
    st->instrs = 0;
    pushCall(*st, &M.funcs[it->second], nullptr, 0, false);
    gPending.push_back(st);
    explore();
    S->active--;
    if (getpid() != root) _exit(0);
    int bad = 0, status;
    while (true) {
        pid_t w = waitpid(-1, &status, 0);
        if (w < 0) { if (errno == EINTR) continue; break; }
        if (!WIFEXITED(status) || WEXITSTATUS(status)) { bad++; S->active--; }
    }
    double t2 = now();
    std::string fns; int nf = 0;
    std::map<std::string, std::vector<std::string>> byFile;
    for (auto& f : M.funcs) if (S->fn[f.id]) { nf++; byFile[f.file].push_back(f.name); }
    FILE* o = fopen((gOut + "/summary.json").c_str(), "w");
    auto U = [](const std::atomic<uint64_t>& x) { return (unsigned long long)x.load(); };
    fprintf(o, "{\"entry\":\"%s\",\"paths\":%llu,\"exits\":%llu,\"assumed_away\":%llu,\"cut\":%llu,\"known\":%llu,\"violations\":%llu,\"hangs\":%llu,\"forks\":%llu,\"decisions\":%llu,\"instructions\":%llu,\"dropped\":%llu,\"dropped_deadline\":%llu,\"checks\":%llu,\"checks_symbolic\":%llu,\"worker_failures\":%d,\"mem_stops\":%llu,",
        gEntry.c_str(), U(S->paths), U(S->exits), U(S->assumed), U(S->cut), U(S->known), U(S->violations), U(S->hangs), U(S->forks), U(S->decisions), U(S->instrs), U(S->dropped), U(S->droppedDl), U(S->checks), U(S->checksSym), bad, U(S->crashed));
    fprintf(o, "\"queries\":%llu,\"decided_by_domain_or_model\":%llu,\"model_repair\":%llu,\"cache_hits\":%llu,\"z3\":%llu,\"z3_sat\":%llu,\"z3_unsat\":%llu,\"z3_unknown\":%llu,\"z3_seconds\":%.3f,\"assertion_z3\":%llu,\"infeasible_verdicts_confirmed_by_z3\":%llu,\"max_exprs\":%llu,\"symbolic_bytes\":%llu,\"load_s\":%.2f,\"wall_s\":%.2f,",
        U(S->q), U(S->fast), U(S->quick), U(S->hits), U(S->z3), U(S->z3sat), U(S->z3unsat), U(S->z3unknown), U(S->us) * 1e-6, U(S->az3), U(S->audits), U(S->maxexpr), U(S->maxvars), t1 - t0, t2 - t0);
    fprintf(o, "\"reach\":{");
    for (int i = 0; i < S->nreach && i < 64; i++) fprintf(o, "%s\"%s\":%llu", i ? "," : "", jesc(S->reach[i]).c_str(), U(S->reachN[i]));
    fprintf(o, "},\"functions\":{");
    bool first = true;
    for (auto& [file, v] : byFile) { fprintf(o, "%s\"%s\":[", first ? "" : ",", jesc(file).c_str()); first = false; for (size_t i = 0; i < v.size(); i++) fprintf(o, "%s\"%s\"", i ? "," : "", v[i].c_str()); fprintf(o, "]"); }
    fprintf(o, "}}\n");
    fclose(o);
    return 0;
}
