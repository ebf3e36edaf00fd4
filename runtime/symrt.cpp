// Models of the parts of libstdc++/libc that live outside the headers. Linked
// with the code under test for symbolic execution only.
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <string>
#include <stdexcept>
#include <new>
#include <cstdarg>
#include <functional>
#include "sym.h"

extern "C" int* __errno_location() noexcept;

// ---- exception classes (mirrors of libstdc++'s out-of-line members)
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }

static const char* dupz(const char* s) { size_t n = __builtin_strlen(s); char* p = (char*)::operator new(n + 1); for (size_t i = 0; i <= n; i++) p[i] = s[i]; return p; }
static const char* dups(const std::string& s) { size_t n = s.size(); char* p = (char*)::operator new(n + 1); for (size_t i = 0; i < n; i++) p[i] = s[i]; p[n] = 0; return p; }
__cow_string::__cow_string() : _M_p(dupz("")) {}
__cow_string::__cow_string(const std::string& s) : _M_p(dups(s)) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(dups(std::string(s, n))) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(dupz(o._M_p)) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = dupz(o._M_p); return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(dupz(o._M_p)) {}
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { _M_p = dupz(o._M_p); return *this; }
#define ERRCLASS(C, B) \
    C::C(const string& s) : B(s) {} \
    C::C(const char* s) : B(s) {} \
    C::~C() noexcept {}
logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(std::string(s)) {}
logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(std::string(s)) {}
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
ERRCLASS(out_of_range, logic_error)
ERRCLASS(length_error, logic_error)
ERRCLASS(invalid_argument, logic_error)
ERRCLASS(domain_error, logic_error)
ERRCLASS(range_error, runtime_error)
ERRCLASS(overflow_error, runtime_error)
ERRCLASS(underflow_error, runtime_error)

void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }

template class basic_string<char>;
template class allocator<char>;
}

// ---- red-black tree (structure only: order and links, as the header code needs)
#include <bits/stl_tree.h>
namespace std {
typedef _Rb_tree_node_base N;
typedef _Rb_tree_node_base* P;
static P incr(P x) noexcept {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    P y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
    return x;
}
static P decr(P x) noexcept {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { P y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    P y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
P _Rb_tree_increment(P x) throw() { return incr(x); }
const N* _Rb_tree_increment(const N* x) throw() { return incr(const_cast<P>(x)); }
P _Rb_tree_decrement(P x) throw() { return decr(x); }
const N* _Rb_tree_decrement(const N* x) throw() { return decr(const_cast<P>(x)); }
// An unbalanced binary search tree satisfies every ordering guarantee; nodes
// are black so that decrement can recognise the header (red).
void _Rb_tree_insert_and_rebalance(const bool left, P x, P p, N& h) throw() {
    x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
static void replace(P u, P v, N& h) { if (h._M_parent == u) h._M_parent = v; else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v; else u->_M_parent->_M_right = v; if (v) v->_M_parent = u->_M_parent; }
P _Rb_tree_rebalance_for_erase(P const z, N& h) throw() {
    P nx = incr(z), pv = nullptr;
    if (z != h._M_left) pv = decr(z);
    if (h._M_left == z) h._M_left = nx;              // may become &h
    if (h._M_right == z) h._M_right = pv ? pv : &h;
    if (!z->_M_left) replace(z, z->_M_right, h);
    else if (!z->_M_right) replace(z, z->_M_left, h);
    else {
        P y = z->_M_right; while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z) { replace(y, y->_M_right, h); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
        replace(z, y, h); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
    }
    return z;
}
}
#include <bits/stl_list.h>
namespace std { namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
    if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base* t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
    auto adopt = [](_List_node_base& n, const _List_node_base& old, bool empty) { if (empty) n._M_next = n._M_prev = &n; else { n._M_next = old._M_next; n._M_prev = old._M_prev; n._M_next->_M_prev = n._M_prev->_M_next = &n; } };
    _List_node_base a = x, b = y; bool ea = x._M_next == &x, eb = y._M_next == &y;
    adopt(x, b, eb); adopt(y, a, ea);
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* p = this; do { _List_node_base* n = p->_M_next; p->_M_next = p->_M_prev; p->_M_prev = n; p = n; } while (p != this); }
}}
#include <utility>
#include <tuple>
#include <string_view>
#include <bits/hashtable_policy.h>
namespace std { size_t _Hash_bytes(const void* p, size_t n, size_t seed) { size_t h = seed; const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; i++) h = h * 31 + c[i]; return h; } }

namespace std { namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t b = n < 13 ? 13 : (n | 1); const_cast<size_t&>(_M_next_resize) = b; return b; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t have, size_t n, size_t ins) const {
    if (n + ins <= have) return {false, 0};
    return {true, _M_next_bkt(have * 2 > n + ins ? have * 2 : n + ins)};
}
}}

// ---- output streams: every stream is a recorder, told apart by address
struct Rec { void* os; std::string text; };
static Rec g_rec[64]; static int g_nrec = 0;
// The parts of a stream object that inline members look at: the offset of the
// virtual base, and width, flags, state and fill of the base.
static const long vt_fake[] = {8, 0, 0}, vt_oss[] = {112, 0, 0}, vt_ss[] = {128, 0, 0};
struct Stream { const void* vptr; char ios[504]; };
static Stream g_fake[4] __attribute__((aligned(16))) = {{vt_fake + 3, {}}, {vt_fake + 3, {}}, {vt_fake + 3, {}}, {vt_fake + 3, {}}};
extern "C" {
Stream sym_cout __asm__("_ZSt4cout") = {vt_fake + 3, {}};
Stream sym_cerr __asm__("_ZSt4cerr") = {vt_fake + 3, {}};
Stream sym_clog __asm__("_ZSt4clog") = {vt_fake + 3, {}};
}
static char* ios_of(void* os) { return (char*)os + (*(long**)os)[-3]; }
static long& ios_width(void* os) { return *(long*)(ios_of(os) + 16); }
static unsigned& ios_flags(void* os) { return *(unsigned*)(ios_of(os) + 24); }
static char& ios_fill(void* os) { return ios_of(os)[224]; }
static std::string& rec(void* os) {
    for (int i = 0; i < g_nrec; i++) if (g_rec[i].os == os) return g_rec[i].text;
    for (int i = 0; i < g_nrec; i++) if (!g_rec[i].os) { g_rec[i].os = os; return g_rec[i].text; }
    if (g_nrec == 64) __builtin_trap();
    g_rec[g_nrec].os = os; return g_rec[g_nrec++].text;
}
static void put(void* os, const char* s, size_t n) {
    std::string& r = rec(os); long w = ios_width(os);
    size_t pad = w > 0 && (size_t)w > n ? (size_t)w - n : 0;
    if (w) ios_width(os) = 0;
    char f = pad && ios_of(os)[225] ? ios_fill(os) : ' ';
    bool left = pad && (ios_flags(os) & 0x20);
    if (pad && !left) r.append(pad, f);
    r.append(s, n);
    if (pad && left) r.append(pad, f);
}
std::ostream* sym_stream(int k) { return (std::ostream*)(void*)&g_fake[k]; }
std::string sym_text(int k) { return rec(&g_fake[k]); }
std::string sym_stdout() { return rec(&sym_cout); }
std::string sym_stderr() { return rec(&sym_cerr); }
static void* put_num(void* os, long long v, bool neg_ok) {
    char b[32]; int n = 32; unsigned f = ios_flags(os); unsigned base = f & 8 ? 16 : f & 0x40 ? 8 : 10;
    bool neg = v < 0 && neg_ok && base == 10; unsigned long long u = neg ? 0ull - (unsigned long long)v : (unsigned long long)v;
    do { b[--n] = "0123456789abcdef"[u % base]; u /= base; } while (u); if (neg) b[--n] = '-';
    put(os, b + n, 32 - n); return os;
}
static void make_stream(void* o, bool both) {
    char* c = (char*)o; size_t n = both ? 392 : 376; for (size_t i = 0; i < n; i++) c[i] = 0;
    *(const void**)c = both ? vt_ss + 3 : vt_oss + 3; if (both) *(const void**)(c + 16) = vt_oss + 3;
    void* os = c + (both ? 16 : 0); ios_fill(os) = ' '; ios_of(os)[225] = 1; rec(os).clear();
}
static void drop_stream(void* os) { for (int i = 0; i < g_nrec; i++) if (g_rec[i].os == os) { g_rec[i].os = nullptr; g_rec[i].text.clear(); } }
extern "C" {
void* _ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc(void* os, const char* s) { put(os, s, __builtin_strlen(s)); return os; }
void* _ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c(void* os, char c) { put(os, &c, 1); return os; }
void* _ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_S3_(void* os, char c) { put(os, &c, 1); return os; }
void* _ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE(void* os, const std::string* s) { put(os, s->data(), s->size()); return os; }
void* _ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(void* os, const char* s, long n) { put(os, s, n); return os; }
void* _ZNSo5writeEPKcl(void* os, const char* s, long n) { rec(os).append(s, n); return os; }
void* _ZNSo3putEc(void* os, char c) { rec(os).push_back(c); return os; }
void* _ZNSo5flushEv(void* os) { return os; }
void* _ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_(void* os) { rec(os).push_back('\n'); return os; }
void* _ZSt5flushIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_(void* os) { return os; }
void* _ZNSolsEPFRSoS_E(void* os, void* (*f)(void*)) { return f(os); }
void* _ZNSolsEPFRSt8ios_baseS0_E(void* os, void* (*f)(void*)) { f(ios_of(os)); return os; }
void* _ZNSolsEb(void* os, bool v) { if (ios_flags(os) & 1) put(os, v ? "true" : "false", v ? 4 : 5); else put_num(os, v, false); return os; }
void* _ZNSolsEs(void* os, short v) { return put_num(os, v, true); }
void* _ZNSolsEt(void* os, unsigned short v) { return put_num(os, v, false); }
void* _ZNSolsEi(void* os, int v) { return put_num(os, v, true); }
void* _ZNSolsEj(void* os, unsigned v) { return put_num(os, v, false); }
void* _ZNSolsEl(void* os, long v) { return put_num(os, v, true); }
void* _ZNSolsEm(void* os, unsigned long v) { return put_num(os, (long long)v, false); }
void* _ZNSolsEx(void* os, long long v) { return put_num(os, v, true); }
void* _ZNSolsEy(void* os, unsigned long long v) { return put_num(os, (long long)v, false); }
void* _ZNSo9_M_insertIlEERSoT_(void* os, long v) { return put_num(os, v, true); }
void* _ZNSo9_M_insertImEERSoT_(void* os, unsigned long v) { return put_num(os, (long long)v, false); }
void* _ZNSo9_M_insertIxEERSoT_(void* os, long long v) { return put_num(os, v, true); }
void* _ZNSo9_M_insertIyEERSoT_(void* os, unsigned long long v) { return put_num(os, (long long)v, false); }
void* _ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St5_Setw(void* os, int n) { ios_width(os) = n; return os; }
void* _ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St8_SetfillIS3_E(void* os, char c) { ios_fill(os) = c; ios_of(os)[225] = 1; return os; }
long _ZNSo5tellpEv(void* os) { return (long)rec(os).size(); }
bool _ZNKSt9basic_iosIcSt11char_traitsIcEEntEv(const char*) { return false; }
void _ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate(char* ios, int st) { *(int*)(ios + 32) = st; }
#define OSS(name) _ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE##name
#define SS(name) _ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE##name
void OSS(C1Ev)(void* o) { make_stream(o, false); }
void OSS(C1ESt13_Ios_Openmode)(void* o, int) { make_stream(o, false); }
void OSS(C1EOS4_)(void* o, void* from) { make_stream(o, false); rec(o) = rec(from); rec(from).clear(); }
void OSS(D1Ev)(void* o) { drop_stream(o); }
void OSS(3strERKNS_12basic_stringIcS2_S3_EE)(void* o, const std::string* s) { rec(o) = *s; }
void OSS(3strEONS_12basic_stringIcS2_S3_EE)(void* o, std::string* s) { rec(o) = *s; }
void SS(C1Ev)(void* o) { make_stream(o, true); }
void SS(C1ESt13_Ios_Openmode)(void* o, int) { make_stream(o, true); }
void SS(D1Ev)(void* o) { drop_stream((char*)o + 16); }
void SS(3strERKNS_12basic_stringIcS2_S3_EE)(void* o, const std::string* s) { rec((char*)o + 16) = *s; }
void SS(3strEONS_12basic_stringIcS2_S3_EE)(void* o, std::string* s) { rec((char*)o + 16) = *s; }
void _ZNSt8ios_base4InitC1Ev(void*) {}
void _ZNSt8ios_base4InitD1Ev(void*) {}
void _ZSt21ios_base_library_initv() {}
}
std::string oss_str(void* o) __asm__("_ZNKSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv");
std::string oss_str(void* o) { return rec(o); }
std::string oss_str1(void* o) __asm__("_ZNKRSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv");
std::string oss_str1(void* o) { return rec(o); }
std::string oss_str2(void* o) __asm__("_ZNOSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv");
std::string oss_str2(void* o) { std::string s = rec(o); rec(o).clear(); return s; }
std::string ss_str(void* o) __asm__("_ZNKSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv");
std::string ss_str(void* o) { return rec((char*)o + 16); }
std::string ss_str1(void* o) __asm__("_ZNKRSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv");
std::string ss_str1(void* o) { return rec((char*)o + 16); }
std::string ss_str2(void* o) __asm__("_ZNOSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv");
std::string ss_str2(void* o) { std::string s = rec((char*)o + 16); rec((char*)o + 16).clear(); return s; }
std::string_view oss_view(void* o) __asm__("_ZNKSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE4viewEv");
std::string_view oss_view(void* o) { return rec(o); }

extern "C" {
// ---- C library
int isalnum(int c) { return (c >= '0' && c <= '9') | (c >= 'a' && c <= 'z') | (c >= 'A' && c <= 'Z'); }
int isalpha(int c) { return (c >= 'a' && c <= 'z') | (c >= 'A' && c <= 'Z'); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return (c == ' ') | (c >= 9 && c <= 13); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isxdigit(int c) { return (c >= '0' && c <= '9') | (c >= 'a' && c <= 'f') | (c >= 'A' && c <= 'F'); }
int ispunct(int c) { return c > 32 && c < 127 && !isalnum(c); }
int isprint(int c) { return c >= 32 && c < 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int iscntrl(int c) { return (c >= 0 && c < 32) | (c == 127); }
int isblank(int c) { return (c == ' ') | (c == '\t'); }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int strcmp(const char* a, const char* b) noexcept { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) noexcept { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) break; } return 0; }
char* strchr(const char* s, int c) noexcept { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }

static unsigned g_width = 0;
struct WS { unsigned short r, c, x, y; };
}
void sym_set_console_width(unsigned w) { g_width = w; }
extern "C" int sym_ioctl(int, unsigned long, WS* w) noexcept __asm__("ioctl");
extern "C" int sym_ioctl(int, unsigned long, WS* w) noexcept {
    if (!g_width) { *__errno_location() = 25; return -1; }
    w->r = 25; w->c = g_width; w->x = 0; w->y = 0; return 0;
}
// strtol family, per the C standard (glibc, "C" locale)
template <typename U>
static U sto(const char* s, char** end, int base, U maxpos, U maxneg, bool isSigned, bool bin) {
    const char* p = s; bool neg = false;
    if (base != 0 && (base < 2 || base > 36)) { *__errno_location() = 22; if (end) *end = (char*)s; return 0; }
    while (isspace((unsigned char)*p)) p++;
    if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
    auto dig = [](char c) -> int { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'z') return c - 'a' + 10; if (c >= 'A' && c <= 'Z') return c - 'A' + 10; return 99; };
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && dig(p[2]) < 16) { p += 2; base = 16; }
    else if (bin && (base == 0 || base == 2) && p[0] == '0' && (p[1] == 'b' || p[1] == 'B') && dig(p[2]) < 2) { p += 2; base = 2; }
    else if (base == 0) base = *p == '0' ? 8 : 10;
    const char* start = p; U v = 0; bool over = false; U lim = neg ? maxneg : maxpos;
    for (;; p++) {
        int d = dig(*p); if (d >= base) break;
        U t; if (__builtin_mul_overflow(v, (U)base, &t) || __builtin_add_overflow(t, (U)d, &t) || t > lim) { over = true; } else if (!over) v = t;
    }
    if (p == start) { if (end) *end = (char*)s; return 0; }
    if (end) *end = (char*)p;
    if (over) { *__errno_location() = 34; return isSigned ? (neg ? (U)0 - maxneg : maxpos) : maxpos; }
    return neg ? (U)0 - v : v;
}
extern "C" {
long __isoc23_strtol(const char* s, char** e, int b) noexcept { return (long)sto<unsigned long>(s, e, b, 0x7fffffffffffffffull, 0x8000000000000000ull, true, true); }
long long __isoc23_strtoll(const char* s, char** e, int b) noexcept { return (long long)sto<unsigned long>(s, e, b, 0x7fffffffffffffffull, 0x8000000000000000ull, true, true); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) noexcept { return sto<unsigned long>(s, e, b, ~0ull, ~0ull, false, true); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) noexcept { return sto<unsigned long>(s, e, b, ~0ull, ~0ull, false, true); }
long rt_strtol(const char* s, char** e, int b) asm("strtol");
long rt_strtol(const char* s, char** e, int b) { return (long)sto<unsigned long>(s, e, b, 0x7fffffffffffffffull, 0x8000000000000000ull, true, false); }
long long rt_strtoll(const char* s, char** e, int b) asm("strtoll");
long long rt_strtoll(const char* s, char** e, int b) { return (long long)sto<unsigned long>(s, e, b, 0x7fffffffffffffffull, 0x8000000000000000ull, true, false); }
unsigned long rt_strtoul(const char* s, char** e, int b) asm("strtoul");
unsigned long rt_strtoul(const char* s, char** e, int b) { return sto<unsigned long>(s, e, b, ~0ull, ~0ull, false, false); }
unsigned long long rt_strtoull(const char* s, char** e, int b) asm("strtoull");
unsigned long long rt_strtoull(const char* s, char** e, int b) { return sto<unsigned long>(s, e, b, ~0ull, ~0ull, false, false); }
}
// strtod and strtof: which text is a number is decided as the C standard says
// (glibc, "C" locale); its value, and whether it is in range, are those of the
// C library for every accepted text (the path splits).
static bool same_nocase(const char* p, const char* w) { for (; *w; p++, w++) if (tolower((unsigned char)*p) != *w) return false; return true; }
static const char* float_end(const char* s) {
    const char* p = s;
    while (isspace((unsigned char)*p)) p++;
    if (*p == '-' || *p == '+') p++;
    if (same_nocase(p, "inf")) { p += 3; if (same_nocase(p, "inity")) p += 5; return p; }
    if (same_nocase(p, "nan")) { p += 3; if (*p == '(') { const char* q = p + 1; while (isalnum((unsigned char)*q) || *q == '_') q++; if (*q == ')') p = q + 1; } return p; }
    bool hex = p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && (isxdigit((unsigned char)p[2]) || (p[2] == '.' && isxdigit((unsigned char)p[3])));
    if (hex) p += 2;
    bool any = false, dot = false;
    for (;; p++) {
        if (*p == '.' && !dot) { dot = true; continue; }
        if (!(hex ? isxdigit((unsigned char)*p) : isdigit((unsigned char)*p))) break;
        any = true;
    }
    if (!any) return s;
    if (*p == (hex ? 'p' : 'e') || *p == (hex ? 'P' : 'E')) {
        const char* q = p + 1;
        if (*q == '-' || *q == '+') q++;
        if (isdigit((unsigned char)*q)) { while (isdigit((unsigned char)*q)) q++; p = q; }
    }
    return p;
}
extern "C" {
uint64_t sym_native_float(const char* s, uint64_t what);
double rt_strtod(const char* s, char** e) asm("strtod");
float rt_strtof(const char* s, char** e) asm("strtof");
}
static uint64_t to_float(const char* s, char** e, bool isFloat) {
    const char* p = float_end(s);
    if (e) *e = (char*)p;
    if (p == s) return 0;
    char buf[64]; size_t n = (size_t)(p - s);
    sym_assume(n < sizeof buf);
    for (size_t i = 0; i < n; i++) buf[i] = (char)sym_fix((unsigned char)s[i]);
    buf[n] = 0;
    if (sym_native_float(buf, 4 + isFloat) != n) __builtin_trap();
    if (uint64_t err = sym_native_float(buf, 2 + isFloat)) *__errno_location() = (int)err;
    return sym_native_float(buf, isFloat);
}
extern "C" {
double rt_strtod(const char* s, char** e) { uint64_t b = to_float(s, e, false); double d; __builtin_memcpy(&d, &b, 8); return d; }
float rt_strtof(const char* s, char** e) { unsigned b = (unsigned)to_float(s, e, true); float f; __builtin_memcpy(&f, &b, 4); return f; }
}
