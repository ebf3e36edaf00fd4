// Interface between the harnesses and the symbolic executor (or, when a
// counterexample is replayed, the native runner in native.cpp).
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <string_view>
#include <vector>
#include <iosfwd>

extern "C" {
// A fresh arbitrary byte in [lo, hi].
uint8_t sym_u8(const char* name, int lo, int hi);
void sym_assume(int cond);
// The property: must hold for every value of the symbolic bytes on this path.
void sym_check(int cond, const char* msg);
// Reachability witness.
void sym_reach(const char* label);
// Observations compared between the symbolic run and the native replay.
void sym_obs(uint64_t v);
void sym_obs_bytes(const void* p, size_t n);
// Split the path so that v has one value on each part.
uint64_t sym_fix(uint64_t v);
int sym_symbolic();
int64_t sym_param(const char* name, int64_t def);
// This path shows a recorded finding (KNOWN_FINDINGS); it ends here.
void sym_known(const char* id);
void sym_end();
void sym_debug(const char* s, uint64_t v);
// Called, when defined by the harness, if the code under test calls exit().
void sym_on_exit(int code);
}
// Text streams that record what is written to them.
std::ostream* sym_stream(int k);
std::string sym_text(int k);
std::string sym_stdout();
std::string sym_stderr();
void sym_set_console_width(unsigned w);   // what the terminal reports, 0 = not a terminal

// ---- helpers
inline unsigned sym_pick(const char* name, unsigned n) { return n <= 1 ? 0 : (unsigned)sym_fix(sym_u8(name, 0, (int)n - 1)); }
inline bool sym_flag(const char* name) { return sym_pick(name, 2) != 0; }
inline char sym_char(const char* name) { return (char)sym_u8(name, 0, 255); }
// a string of exactly n arbitrary bytes other than NUL
inline std::string sym_string(const char* name, size_t n) { std::string s(n, ' '); for (size_t i = 0; i < n; i++) s[i] = (char)sym_u8(name, 1, 255); return s; }
inline std::string sym_string_upto(const char* name, unsigned lo, unsigned hi) { unsigned n = lo + sym_pick(name, hi - lo + 1); return sym_string(name, n); }
// one of the characters of alphabet
inline char sym_one_of(const char* name, const char* alphabet, unsigned n) {
    unsigned char i = sym_u8(name, 0, (int)n - 1); char c = alphabet[0];
    for (unsigned k = 1; k < n; k++) c = i == k ? alphabet[k] : c;
    return c;
}
inline void sym_obs_str(std::string_view s) { sym_obs_bytes(s.data(), s.size()); }
#define CHECK(c, msg) sym_check((c) ? 1 : 0, msg)
