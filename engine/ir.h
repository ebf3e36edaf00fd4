// Compact register code made from LLVM IR (see irload.cpp).
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include "expr.h"

enum Op : uint16_t {
    O_BIN,        // sub = Kind (arithmetic), w
    O_ICMP,       // sub = Kind (comparison) ; flag neg
    O_ZEXT, O_SEXT, O_TRUNCI, O_MOV,
    O_SELECT, O_LOAD, O_STORE,
    O_ADDI,       // dst = a + imm
    O_IDX,        // dst = a + sext(b) * imm
    O_ALLOCA,     // dst = new object of a * imm bytes
    O_BR, O_CBR, O_SWITCH, O_RET, O_UNREACHABLE, O_CALL, O_RESUME, O_LANDINGPAD,
    O_MEMCPY, O_MEMMOVE, O_MEMSET,
    O_MINMAX,     // sub 0 umin 1 umax 2 smin 3 smax
    O_CTLZ, O_CTTZ, O_CTPOP, O_BSWAP, O_ABS, O_FSHL, O_FSHR,
    O_OVF,        // sub: 0 uadd 1 usub 2 umul 3 sadd 4 ssub 5 smul ; dst, dst+1
    O_SAT,        // sub: 0 uadd 1 usub 2 sadd 3 ssub
    O_FLOAT,      // sub: llvm opcode class, concrete only
    O_TRAP, O_UNSUPPORTED, O_NOP
};
struct Inst {
    uint16_t op; uint8_t sub; uint8_t w; uint8_t w2; uint8_t flag;
    int32_t dst, a, b, c;
    int64_t imm;
    uint32_t line;
};
struct Edge { int32_t pc; std::vector<std::pair<int32_t, int32_t>> copies; };
struct SwitchInfo { std::vector<std::pair<uint64_t, int>> cases; int def; };
struct CallInfo {
    int32_t fn = -1;              // direct callee
    int32_t target = 0;           // operand, when fn < 0
    std::vector<int32_t> args;
    std::vector<uint32_t> byval;
    int nret = 0;
    bool invoke = false;
    int normal = -1, unwind = -1; // edges
};
struct LPInfo { bool cleanup; std::vector<uint64_t> catches; /* address of type_info, 0 = catch all */ std::vector<std::vector<uint64_t>> filters; };
struct Func {
    std::string name;
    bool defined = false;
    bool vararg = false;
    uint64_t addr = 0;
    int nargs = 0, nregs = 0, nret = 0;
    std::vector<uint8_t> argw;    // per flattened argument
    std::vector<Inst> code;
    std::vector<Edge> edges;
    std::vector<SwitchInfo> switches;
    std::vector<CallInfo> calls;
    std::vector<LPInfo> lps;
    std::vector<uint64_t> consts; // operand ~i
    std::vector<std::string> unsupported;
    std::string file;
    int ext = -1;                 // handler index for external functions
    int id = 0;
};
struct Global { std::string name; uint64_t addr; uint64_t size; bool constant; bool external; std::vector<uint8_t> init; };
struct TypeInfo { std::string name; std::vector<std::pair<uint64_t, int64_t>> bases; };
struct Module {
    std::vector<Func> funcs;
    std::unordered_map<std::string, int> byName;
    std::unordered_map<uint64_t, int> byAddr;
    std::vector<Global> globals;
    std::vector<int> ctors;
    std::unordered_map<uint64_t, TypeInfo> types;
    std::vector<std::string> srcFiles;
};
constexpr uint64_t BASEOFF = 1u << 20;
inline uint64_t objAddr(uint32_t id) { return ((uint64_t)id << 32) | BASEOFF; }
bool loadModule(const std::string& path, Module& m, std::string& err);
