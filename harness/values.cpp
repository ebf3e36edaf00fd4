// Reading values: conversions, splitting, access by name and view (C15, C16, C17, C26).
#include "model.hpp"
#include <cerrno>
#include <cstdlib>
#include <cstring>
using namespace model;
static unsigned P(const char* n, int d) { return (unsigned)sym_param(n, d); }
typedef OptionOperation Op;

// The parsed result of "prog -n V1 -n V2 ...".
static ParsedArguments with_values(const std::vector<std::string>& vs)
{
    ArgumentParser p("prog");
    p.auto_exit(false).generate_help_option(false).stream(sym_stream(0)).text(TextId::ERROR_USAGE, "");
    p.add(Option({"-n"}).argument("N").operation(Op::APPEND));
    std::vector<std::string_view> line;
    for (auto& v : vs) { line.push_back("-n"); line.push_back(v); }
    return p.parse(line);
}
// f() or the fact that it threw ArgosException
template <typename F> static auto attempt(F f) -> std::optional<decltype(f())>
{
    try { return f(); }
    catch (ArgosException&) { return {}; }
}
static bool contains(const std::string& s, const std::string& t) { return s.find(t) != std::string::npos; }

// ------------------------------------------------------------------ C15
struct Number { bool valid = false, neg = false, over = false; uint64_t mag = 0; };

static int digit(char c)
{
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'z') return c - 'a' + 10;
    if (c >= 'A' && c <= 'Z') return c - 'A' + 10;
    return 99;
}
// The number written in s: [white space] [sign] [0x] digits, nothing else.
static Number number(const std::string& s, int base)
{
    Number n; size_t i = 0;
    while (i < s.size() && (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13))) i++;
    if (i < s.size() && (s[i] == '-' || s[i] == '+')) n.neg = s[i++] == '-';
    if ((base == 0 || base == 16) && i + 2 < s.size() && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X') && digit(s[i + 2]) < 16) { i += 2; base = 16; }
    else if (base == 0) base = i < s.size() && s[i] == '0' ? 8 : 10;
    if (i == s.size()) return n;
    for (; i < s.size(); i++)
    {
        int d = digit(s[i]);
        if (d >= base) return n;
        uint64_t t;
        if (n.over || __builtin_mul_overflow(n.mag, (uint64_t)base, &t) || __builtin_add_overflow(t, (uint64_t)d, &t)) n.over = true;
        else n.mag = t;
    }
    n.valid = true;
    return n;
}
// accepted by an accessor with the given range?
static bool fits_signed(const Number& n, uint64_t max) { return n.valid && !n.over && n.mag <= (n.neg ? max + 1 : max); }
static bool fits_unsigned(const Number& n, uint64_t max) { return n.valid && !n.over && (n.neg ? 0 - n.mag : n.mag) <= max; }
static uint64_t value_of(const Number& n) { return n.neg ? 0 - n.mag : n.mag; }

static constexpr uint64_t I32 = 0x7fffffffull, U32 = 0xffffffffull, I64 = 0x7fffffffffffffffull, U64 = ~0ull;

static void check_integer(const std::string& s, int base, unsigned which)
{
    auto n = number(s, base);
    auto r = with_values({s});
    auto v = r.value("-n");
    bool ok = false; std::optional<uint64_t> got;
    auto conv = [](auto x) -> std::optional<uint64_t> { if (!x) return {}; return (uint64_t)(int64_t)*x; };
    auto uconv = [](auto x) -> std::optional<uint64_t> { if (!x) return {}; return (uint64_t)*x; };
    switch (which)
    {
    case 0: ok = fits_signed(n, I32); got = conv(attempt([&] { return v.as_int(7, base); })); break;
    case 1: ok = fits_unsigned(n, U32); got = uconv(attempt([&] { return v.as_uint(7, base); })); break;
    case 2: ok = fits_signed(n, I64); got = conv(attempt([&] { return v.as_long(7, base); })); break;
    case 3: ok = fits_unsigned(n, U64); got = uconv(attempt([&] { return v.as_ulong(7, base); })); break;
    case 4: ok = fits_signed(n, I64); got = conv(attempt([&] { return v.as_llong(7, base); })); break;
    default: ok = fits_unsigned(n, U64); got = uconv(attempt([&] { return v.as_ullong(7, base); })); break;
    }
    if (ok)
    {
        CHECK(got.has_value(), "a number in range was rejected");
        CHECK(*got == value_of(n), "the converted number");
        CHECK(sym_text(0).empty(), "output without an error");
        sym_reach(n.neg ? "negative" : "accepted");
        sym_obs(*got);
    }
    else
    {
        CHECK(!got.has_value(), "not a number in range, but accepted");
        CHECK(!sym_text(0).empty(), "an error without a message");
        sym_reach(n.valid ? "out of range" : "rejected");
    }
}

// every short text, in several bases
extern "C" void h_c15_short()
{
    static const int bases[] = {10, 16, 8, 0, 36, 3};
    int base = bases[sym_pick("base", 6)];
    auto s = sym_string_upto("text", 0, P("len", 3));
    if (base == 0) for (size_t i = 1; i < s.size(); i++) sym_assume(!(s[i - 1] == '0' && (s[i] | 32) == 'b'));   // binary prefixes depend on the C library
    check_integer(s, base, sym_pick("type", 6));
}

// around the limits of every type
extern "C" void h_c15_limits()
{
    struct B { int base; const char* prefix; };
    static const B bs[] = {
        {10, "21474836"}, {10, "42949672"}, {10, "92233720368547758"}, {10, "184467440737095516"}, {10, "1844674407370955161"},
        {16, "7ffffff"}, {16, "0xffffffff"}, {16, "7ffffffffffffff"}, {16, "0Xfffffffffffffff"}, {8, "1777777777777777777"}, {0, "0x7fffffff"}, {36, "1Z141Z"}, {2, "11111111111111111111111111111"}};
    auto& b = bs[sym_pick("limit", sizeof bs / sizeof *bs)];
    static const char* const signs[] = {"", "-", "+", " -"};
    auto s = std::string(signs[sym_pick("sign", P("signs", 3))]) + b.prefix;
    unsigned n = sym_pick("digits", P("tail", 3) + 1);
    s += sym_string("tail", n);
    check_integer(s, b.base, sym_pick("type", 6));
}

// no value: the default
extern "C" void h_c15_default()
{
    uint64_t d = 0;
    for (int i = 0; i < 8; i++) d = d << 8 | sym_u8("default", 0, 255);
    auto r = with_values({});
    auto v = r.value("-n");
    CHECK(!v && !v.value(), "no value");
    CHECK(v.as_int((int)d) == (int)d, "as_int default");
    CHECK(v.as_uint((unsigned)d) == (unsigned)d, "as_uint default");
    CHECK(v.as_long((long)d, 16) == (long)d, "as_long default");
    CHECK(v.as_ulong(d, 8) == d, "as_ulong default");
    CHECK(v.as_llong((long long)d) == (long long)d, "as_llong default");
    CHECK(v.as_ullong(d, 0) == d, "as_ullong default");
    CHECK(v.as_bool(d & 1) == (bool)(d & 1), "as_bool default");
    auto vs = r.values("-n");
    CHECK(vs.as_ints({(int)d, 2}) == (std::vector<int>{(int)d, 2}), "as_ints default");
    CHECK(vs.as_uints({(unsigned)d}) == (std::vector<unsigned>{(unsigned)d}), "as_uints default");
    CHECK(vs.as_longs({(long)d, 3, 4}) == (std::vector<long>{(long)d, 3, 4}), "as_longs default");
    CHECK(vs.as_ulongs({d}) == (std::vector<unsigned long>{d}), "as_ulongs default");
    CHECK(vs.as_llongs({(long long)d}) == (std::vector<long long>{(long long)d}), "as_llongs default");
    CHECK(vs.as_ullongs({d, d}) == (std::vector<unsigned long long>{d, d}), "as_ullongs default");
    CHECK(vs.as_ints().empty(), "no default");
    CHECK(sym_text(0).empty(), "output without an error");
    sym_reach("end");
}

// a value is converted, never replaced by the default; lists in order
template <typename T, typename F> static void check_list(const std::vector<std::string>& ts, int base, F f, bool (*fits)(const Number&, uint64_t), uint64_t max)
{
    auto r = with_values(ts);
    auto got = attempt([&] { return f(r.values("-n"), base); });
    bool all = true;
    for (auto& t : ts) all = fits(number(t, base), max) && all;
    CHECK(got.has_value() == all, "a list is rejected exactly when one of its values is");
    if (!got) { CHECK(!sym_text(0).empty(), "an error without a message"); sym_reach("rejected"); return; }
    CHECK(got->size() == ts.size(), "size of the list");
    for (size_t i = 0; i < ts.size(); i++) CHECK((uint64_t)(*got)[i] == (uint64_t)(T)value_of(number(ts[i], base)), "element of the list");
    sym_reach("converted");
}
extern "C" void h_c15_lists()
{
    unsigned n = 1 + sym_pick("values", P("values", 3));
    static const char* const stems[] = {"", "2147483", "429496729", "922337203685477580", "1844674407370955161"};
    std::vector<std::string> ts;
    unsigned big = sym_pick("large", n), stem = sym_pick("stem", 5);
    for (unsigned i = 0; i < n; i++) ts.push_back((i == big ? stems[stem] : "") + sym_string_upto("text", i == big ? 0 : 1, P("len", 1)));
    static const int bases[] = {10, 16, 0};
    int base = bases[sym_pick("base", 3)];
    if (base == 0) { if (sym_flag("prefix")) ts[0] = (sym_flag("hexadecimal") ? "0x" : "0") + ts[0]; for (auto& s : ts) for (size_t i = 1; i < s.size(); i++) sym_assume(!(s[i - 1] == '0' && (s[i] | 32) == 'b')); }
    switch (sym_pick("type", 6))
    {
    case 0: check_list<int>(ts, base, [](auto v, int b) { return v.as_ints({5}, b); }, fits_signed, I32); break;
    case 1: check_list<unsigned>(ts, base, [](auto v, int b) { return v.as_uints({5}, b); }, fits_unsigned, U32); break;
    case 2: check_list<long>(ts, base, [](auto v, int b) { return v.as_longs({5}, b); }, fits_signed, I64); break;
    case 3: check_list<unsigned long>(ts, base, [](auto v, int b) { return v.as_ulongs({5}, b); }, fits_unsigned, U64); break;
    case 4: check_list<long long>(ts, base, [](auto v, int b) { return v.as_llongs({5}, b); }, fits_signed, I64); break;
    default: check_list<unsigned long long>(ts, base, [](auto v, int b) { return v.as_ullongs({5}, b); }, fits_unsigned, U64); break;
    }
}

// ------------------------------------------------------------------ C16
template <typename T> static uint64_t bits(T x) { uint64_t b = 0; memcpy(&b, &x, sizeof x); return b; }
// The C library's conversion, if it uses the whole text and reports no error.
template <typename T> static std::optional<uint64_t> c_value(const std::string& s)
{
    if (s.empty()) return {};
    char* e = nullptr; errno = 0;
    T v; if constexpr (sizeof(T) == 8) v = strtod(s.c_str(), &e); else v = strtof(s.c_str(), &e);
    if (e != s.c_str() + s.size() || errno) return {};
    return bits(v);
}
static std::string float_text(unsigned len)
{
    switch (sym_pick("form", 3))
    {
    case 0: return sym_string_upto("text", 0, len);
    case 1: { static const char* const stems[] = {"1e", "-2e3", "1e-", "0.5", "in", "na", "0x1", "3.5e-32", "9e3", "+.", "1.17549e-3", "1e3", "1e-4", "-1e-", "-9e3", "-3e3", "-1.17549e-3", "-4.9e-32", "0.00000000000000000000000000000000000000000000000001e", "123456789012345678901234567890123456789012345678901e"}; return stems[sym_pick("stem", 20)] + sym_string_upto("tail", 0, len); }
    default: { std::string s = sym_string("head", 1); s += "1."; s += sym_string_upto("tail", 1, len - 1); return s; }
    }
}
template <typename T, typename F> static void check_float(const std::string& s, F f)
{
    auto want = c_value<T>(s);
    auto r = with_values({s});
    auto v = r.value("-n");
    errno = sym_flag("errno") ? ERANGE : 0;               // left by something else
    auto got = attempt([&] { return f(v); });
    CHECK(got.has_value() == want.has_value(), want ? "a number was rejected" : "not a number, but accepted");
    if (want) { CHECK(bits(*got) == *want, "the converted number"); CHECK(sym_text(0).empty(), "output without an error"); sym_reach("accepted"); }
    else { CHECK(!sym_text(0).empty(), "an error without a message"); sym_reach("rejected"); }
}
extern "C" void h_c16_values()
{
    auto s = float_text(P("len", 3));
    if (sym_flag("double")) check_float<double>(s, [](auto& v) { return v.as_double(7.5); });
    else check_float<float>(s, [](auto& v) { return v.as_float(7.5f); });
}
template <typename T, typename F> static void check_floats(const std::vector<std::string>& ts, F f)
{
    std::vector<uint64_t> want; bool all = true;
    for (auto& t : ts) { auto c = c_value<T>(t); all = all && c; if (c) want.push_back(*c); }
    auto r = with_values(ts);
    auto got = attempt([&] { return f(r.values("-n")); });
    CHECK(got.has_value() == all, "a list is rejected exactly when one of its values is");
    if (!all) { CHECK(!sym_text(0).empty(), "an error without a message"); sym_reach("rejected"); return; }
    CHECK(got->size() == ts.size(), "size of the list");
    for (size_t i = 0; i < ts.size(); i++) CHECK(bits((*got)[i]) == want[i], "element of the list");
    sym_reach("converted");
}
extern "C" void h_c16_lists()
{
    unsigned n = 1 + sym_pick("values", P("values", 3));
    std::vector<std::string> ts;
    unsigned big = sym_pick("long", n);
    for (unsigned i = 0; i < n; i++) ts.push_back(i == big ? float_text(P("len", 2)) : sym_string_upto("text", 0, 1));
    if (sym_flag("double")) check_floats<double>(ts, [](auto v) { return v.as_doubles({1, 2}); });
    else check_floats<float>(ts, [](auto v) { return v.as_floats({1, 2}); });
}
extern "C" void h_c16_default()
{
    uint64_t d = 0;
    for (int i = 0; i < 8; i++) d = d << 8 | sym_u8("default", 0, 255);
    double x; memcpy(&x, &d, 8); float y; uint32_t w = (uint32_t)d; memcpy(&y, &w, 4);
    auto r = with_values({});
    CHECK(bits(r.value("-n").as_double(x)) == d, "as_double default");
    CHECK(bits(r.value("-n").as_float(y)) == w, "as_float default");
    auto l = r.values("-n").as_doubles({x, x});
    CHECK(l.size() == 2 && bits(l[0]) == d && bits(l[1]) == d, "as_doubles default");
    auto m = r.values("-n").as_floats({y});
    CHECK(m.size() == 1 && bits(m[0]) == w, "as_floats default");
    CHECK(r.values("-n").as_doubles().empty() && sym_text(0).empty(), "no default");
    sym_reach("end");
}

// ------------------------------------------------------------------ C17
// what split should give; nothing if there are too few parts
static std::optional<std::vector<std::string>> parts_of(const std::string& s, char sep, size_t lo, size_t hi)
{
    std::vector<std::string> out{""};
    for (size_t i = 0; i < s.size(); i++)
        if (s[i] == sep && (hi == 0 || out.size() < hi)) out.emplace_back();
        else out.back() += s[i];
    if (out.size() < lo) return {};
    return out;
}
static void check_parts(const ArgumentValues& got, const std::vector<std::string>& want)
{
    CHECK(got.size() == want.size(), "number of parts");
    CHECK(got.empty() == want.empty() && (bool)got == !want.empty(), "empty");
    auto raw = got.raw_values();
    auto str = got.as_strings();
    size_t i = 0;
    for (auto v : got)
    {
        CHECK(raw[i] == want[i] && str[i] == want[i] && v.value() && *v.value() == want[i] && got.value(i).as_string() == want[i], "part");
        auto a = v.argument();
        auto o = dynamic_cast<OptionView*>(a.get());
        CHECK(o && o->flags() == std::vector<std::string>{"-n"}, "origin of a part");
        i++;
    }
    CHECK(i == want.size(), "iteration over the parts");
}
extern "C" void h_c17_value()
{
    char sep = sym_char("separator");
    auto s = sym_string_upto("text", 0, P("len", 4));
    size_t lo = sym_pick("min", 4), hi = sym_pick("max", 5);
    bool n = lo == hi && sym_flag("split_n");
    auto want = parts_of(s, sep, lo, hi);
    auto r = with_values({s});
    std::optional<ArgumentValues> got;
    {
        auto r2 = r;
        r = ParsedArguments();
        auto v = r2.value("-n");
        r2 = ParsedArguments();                           // the value keeps what it needs
        got = attempt([&] { return n ? v.split_n(sep, lo) : v.split(sep, lo, hi); });
    }
    CHECK(got.has_value() == want.has_value(), want ? "split failed" : "too few parts were accepted");
    if (!want) { CHECK(!sym_text(0).empty(), "an error without a message"); sym_reach("too few"); return; }
    CHECK(sym_text(0).empty(), "output without an error");
    check_parts(*got, *want);
    if (got->size() == 1) sym_reach("one part"); else sym_reach("several parts");
    std::string j2; bool first = true;
    for (auto& p : got->raw_values()) { if (!first) j2 += sep; first = false; j2 += p; }
    CHECK(j2 == s, "joining the parts gives back the value");
    sym_obs(got->size());
}
extern "C" void h_c17_list()
{
    static const char* const alpha = ",x;";
    unsigned n = sym_pick("values", P("values", 3) + 1);
    std::vector<std::string> ts;
    for (unsigned i = 0; i < n; i++) { unsigned l = sym_pick("length", P("len", 3) + 1); std::string s; for (unsigned k = 0; k < l; k++) s += sym_one_of("text", alpha, 3); ts.push_back(s); }
    size_t lo = sym_pick("min", 3), hi = sym_pick("max", 4);
    std::vector<std::string> want; bool ok = true;
    for (auto& t : ts) { auto p = parts_of(t, ',', lo, hi); if (!p) { ok = false; break; } for (auto& x : *p) want.push_back(x); }
    auto r = with_values(ts);
    auto got = attempt([&] { return lo == hi ? r.values("-n").split_n(',', lo) : r.values("-n").split(',', lo, hi); });
    CHECK(got.has_value() == ok, ok ? "split failed" : "too few parts were accepted");
    if (!ok) { CHECK(!sym_text(0).empty(), "an error without a message"); sym_reach("too few"); return; }
    CHECK(sym_text(0).empty(), "output without an error");
    check_parts(*got, want);
    if (ts.empty())
    {
        auto none = r.value("-n").split(',', lo, hi);
        CHECK(none.empty() && none.size() == 0 && none.raw_values().empty(), "parts of a missing value");
        CHECK(none.as_ints({4}) == std::vector<int>{4}, "default of the parts of a missing value");
        sym_reach("missing");
    }
    else sym_reach("split");
}
// Sources of the parts of values that came from several options and arguments
extern "C" void h_c17_sources()
{
    ArgumentParser p("prog");
    p.auto_exit(false).generate_help_option(false).stream(sym_stream(0)).text(TextId::ERROR_USAGE, "");
    p.add(Option({"-a", "--aa"}).argument("X").alias("V").operation(OptionOperation::APPEND).id(10));
    p.add(Option({"-b"}).argument("X").alias("V").operation(OptionOperation::APPEND).id(11));
    p.add(Argument("c").count(0, 9).alias("V").id(12));
    unsigned n = 1 + sym_pick("values", P("values", 3));
    std::vector<std::string> line, want; std::vector<int> ids;
    size_t lo = sym_pick("min", 2), hi = sym_pick("max", 3);
    for (unsigned i = 0; i < n; i++)
    {
        unsigned kind = sym_pick("kind", 3), l = sym_pick("length", P("len", 3) + 1);
        std::string v = kind == 2 ? "x" : "";
        for (unsigned k = 0; k < l; k++) v += sym_one_of("text", ",x", 2);
        if (kind < 2) line.push_back(kind ? "-b" : "-a");
        line.push_back(v);
        auto parts = *parts_of(v, ',', 0, hi);
        for (auto& x : parts) { want.push_back(x); ids.push_back(10 + (int)kind); }
        sym_assume(parts_of(v, ',', lo, hi).has_value());
    }
    std::vector<std::string_view> t(line.begin(), line.end());
    auto r = p.parse(t);
    CHECK(r.result_code() == ParserResultCode::SUCCESS, "result code");
    auto check = [&](const ArgumentValues& got) {
        CHECK(got.size() == want.size(), "number of parts");
        size_t i = 0;
        for (auto v : got)
        {
            CHECK(v.as_string() == want[i], "part");
            auto a = v.argument();
            CHECK(a && a->id() == ids[i], "the source of a part");
            i++;
        }
        CHECK(i == want.size(), "number of parts");
    };
    check(r.values("V").split(',', lo, hi));
    check(r.values("V").split(',', lo, hi).split(';'));
    sym_reach("end");
}
// long lists
extern "C" void h_c17_long()
{
    unsigned n = sym_pick("parts", P("parts", 50));
    std::string s; unsigned at = sym_pick("at", 3), width = sym_pick("width", 3);
    for (unsigned i = 0; i < n; i++) { if (i) s += ','; s += i == (at == 0 ? 0 : at == 1 ? n / 2 : n - 1) ? sym_string("part", 1) : std::string(width * 9, (char)('a' + i % 26)); }
    static const unsigned counts[] = {0, 1, 9, 15, 16, 17, 31, 32, 33, 40, 49, 50};
    size_t lo = counts[sym_pick("min", 12)], hi = counts[sym_pick("max", 12)];
    sym_assume(hi == 0 || lo <= hi);
    auto want = parts_of(s, ',', lo, hi);
    auto r = with_values({s});
    auto got = attempt([&] { return r.value("-n").split(',', lo, hi); });
    CHECK(got.has_value() == want.has_value(), want ? "split failed" : "too few parts were accepted");
    if (!want) { sym_reach("too few"); return; }
    check_parts(*got, *want);
    sym_reach("split");
}
// parts are values: they can be converted
extern "C" void h_c17_convert()
{
    auto s = sym_string_upto("text", 0, P("len", 4));
    auto want = parts_of(s, ':', 0, 0);
    std::vector<int> ns; bool all = true;
    for (auto& p : *want) { auto n = number(p, 10); all = all && fits_signed(n, I32); ns.push_back((int)value_of(n)); }
    auto r = with_values({s});
    auto got = attempt([&] { return r.value("-n").split(':').as_ints(); });
    CHECK(got.has_value() == all, "the parts are converted like values");
    if (all) { CHECK(*got == ns, "converted parts"); sym_reach("converted"); } else sym_reach("rejected");
}

// ------------------------------------------------------------------ C26
static MOpt mo(std::vector<std::string> flags, std::string arg, Op op, std::string alias = {}, std::string initial = {})
{
    MOpt o; o.flags = std::move(flags); o.arg = std::move(arg); o.op = op; o.alias = std::move(alias); o.initial = std::move(initial);
    if (op == Op::APPEND && o.arg.empty()) o.constant = "c";
    return o;
}
static MArg ma(std::string name, unsigned lo, unsigned hi, std::string alias = {}) { MArg a; a.name = std::move(name); a.lo = lo; a.hi = hi; a.alias = std::move(alias); return a; }

static MCfg access_cfg()
{
    MCfg g;
    switch (sym_pick("table", P("tables", 4)))
    {
    case 0:     // own names only
        g.root.opts = {mo({"-a", "--all", "-b"}, "X", Op::APPEND), mo({"-c"}, "", Op::ASSIGN), mo({"-d", "-D"}, "Y", Op::ASSIGN)};
        g.root.args = {ma("F", 0, 2)};
        break;
    case 1:     // an alias of its own, shared by two options and an argument
        g.root.opts = {mo({"-a"}, "X", Op::APPEND, "all"), mo({"-b", "-B"}, "", Op::APPEND, "all"), mo({"-c"}, "", Op::ASSIGN)};
        g.root.args = {ma("F", 0, 1, "all"), ma("G", 0, 1)};
        break;
    case 2:     // alias to another option's flag and to an argument's name; an initial value
        g.root.opts = {mo({"-a", "-A"}, "X", Op::ASSIGN, "-c"), mo({"-c"}, "", Op::APPEND), mo({"-d"}, "Y", Op::APPEND, "F", "i")};
        g.root.args = {ma("F", 0, 1)};
        break;
    case 3:     // sub-command with the same names as its parent
        g.root.opts = {mo({"-a"}, "X", Op::APPEND, "F"), mo({"-c"}, "", Op::ASSIGN)};
        g.root.require = 0;
        { MCmd s; s.name = "s"; s.opts = {mo({"-a", "-b"}, "X", Op::APPEND), mo({"-d"}, "", Op::CLEAR, "F")}; s.args = {ma("F", 0, 2)}; g.root.cmds = {s}; }
        break;
    case 4:     // an argument with an alias of its own, options that refer to an argument with an alias
        g.root.opts = {mo({"-a"}, "X", Op::APPEND, "F"), mo({"-b", "--bb"}, "Y", Op::APPEND, "all"), mo({"-c"}, "", Op::CLEAR, "G"), mo({"-d"}, "", Op::ASSIGN, "--bb")};
        g.root.args = {ma("F", 0, 1, "all"), ma("G", 0, 1, "only")};
        break;
    case 5:     // items whose alias nothing else has, with every operation
        g.root.opts = {mo({"-a"}, "", Op::CLEAR, "clr"), mo({"-b"}, "X", Op::ASSIGN, "asg"), mo({"-c"}, "X", Op::APPEND, "app"), mo({"-d"}, "", Op::CLEAR, "asg")};
        g.root.args = {ma("F", 0, 1)};
        break;
    }
    return g;
}
static void check_view_matches(const IArgumentView* a, const MCmd& c, int src)
{
    if (auto ov = dynamic_cast<const OptionView*>(a)) CHECK(src >= (int)c.args.size() && opt_is(*ov, c.opts[(size_t)src - c.args.size()]), "origin of a value");
    else if (auto av = dynamic_cast<const ArgumentView*>(a)) CHECK(src >= 0 && src < (int)c.args.size() && av->name() == c.args[(size_t)src].name, "origin of a value");
    else CHECK(false, "origin of a value");
}
static unsigned gBeyond;
// every way of reading the values of one item agrees with what is wanted
static void check_access(const ParsedArguments& r, const ArgumentValues& vs, const std::vector<Item>& want, const MCmd& c)
{
    CHECK(vs.size() == want.size() && vs.empty() == want.empty() && (bool)vs == !want.empty(), "size");
    auto raw = vs.raw_values(); auto all = vs.values(); auto strs = vs.as_strings({"none", "none"});
    CHECK(raw.size() == want.size() && all.size() == want.size(), "size of the lists");
    if (want.empty()) CHECK((strs == std::vector<std::string>{"none", "none"}), "default list");
    else CHECK(strs.size() == want.size(), "size of as_strings");
    size_t i = 0;
    for (auto it = vs.begin(); it != vs.end(); ++it, ++i)
    {
        auto v = *it;
        CHECK(i < want.size() && (bool)v && v.value() && *v.value() == want[i].value, "iterated value");
        CHECK(raw[i] == want[i].value && strs[i] == want[i].value && all[i].as_string() == want[i].value, "listed value");
        CHECK(*vs[i].value() == want[i].value && *vs.value(i).value() == want[i].value && v.as_string("d") == want[i].value, "indexed value");
        CHECK(v.as_bool(false) == (want[i].value != "0" && want[i].value != "false") || want[i].value.empty(), "as_bool");
        check_view_matches(v.argument().get(), c, want[i].src);
        check_view_matches(vs[i].argument().get(), c, want[i].src);
        check_view_matches(all[i].argument().get(), c, want[i].src);
    }
    CHECK(i == want.size(), "iteration");
    auto b = vs.begin(), b2 = vs.begin();
    CHECK(b == b2 && !(b != b2) && (b == vs.end()) == want.empty() && (b != vs.end()) == !want.empty(), "comparison of iterators");
    if (!want.empty()) { auto old = b2++; CHECK(old == b && b2 != b && (b2 == vs.end()) == (want.size() == 1), "comparison of iterators"); }
    if (!want.empty()) CHECK(!attempt([&] { return vs.value(want.size() + gBeyond); }), "an index that is too great was accepted");
    (void)r;
}
static void check_single(const std::optional<ArgumentValue>& v, const std::vector<Item>& want, const MCmd& c)
{
    CHECK(v.has_value() == (want.size() <= 1), "value() throws exactly when there are several values");
    if (want.size() == 1)
    {
        CHECK((bool)*v && v->value() && *v->value() == want[0].value && v->as_string("d") == want[0].value, "single value");
        check_view_matches(v->argument().get(), c, want[0].src);
    }
    else if (want.empty())
        CHECK(!*v && !v->value() && v->as_string("d") == "d" && v->as_bool(true) && !v->as_bool(false), "missing value");
}
static void check_level_access(const Result& m, size_t li, const ParsedArguments& r)
{
    const Level& l = m.levels[li]; const MCmd& c = *l.cmd;
    auto args = r.all_arguments(); auto opts = r.all_options();
    CHECK(args.size() == c.args.size() && opts.size() == c.opts.size(), "all_arguments and all_options");
    for (size_t i = 0; i < c.args.size() + c.opts.size(); i++)
    {
        if (l.slot_of[i] < 0) continue;
        auto& want = l.slots[(size_t)l.slot_of[i]];
        const IArgumentView* view = i < c.args.size() ? (const IArgumentView*)args[i].get() : opts[i - c.args.size()].get();
        if (i < c.args.size()) CHECK(args[i]->name() == c.args[i].name, "all_arguments"); else CHECK(opt_is(*opts[i - c.args.size()], c.opts[i - c.args.size()]), "all_options");
        CHECK(r.has(*view) == !want.empty(), "has(view)");
        auto sources = r.values(*view).arguments();
        size_t k = 0;
        for (size_t j = 0; j < c.args.size() + c.opts.size(); j++)
            if (l.slot_of[j] == l.slot_of[i]) { CHECK(k < sources.size(), "arguments() lists everything that shares the values"); check_view_matches(sources[k++].get(), c, (int)j); }
        CHECK(k == sources.size(), "arguments() lists only what shares the values");
        check_access(r, r.values(*view), want, c);
        check_single(attempt([&] { return r.value(*view); }), want, c);
        for (auto& name : names_of(c, i))
        {
            CHECK(r.has(name) == !want.empty(), "has(name)");
            check_access(r, r.values(name), want, c);
            check_single(attempt([&] { return r.value(name); }), want, c);
        }
        if (want.size() > 1) sym_reach("several values");
    }
    auto view_of = [&](size_t i) { return i < c.args.size() ? (const IArgumentView*)args[i].get() : opts[i - c.args.size()].get(); };
    for (size_t i = 0; i < c.args.size() + c.opts.size(); i++)
    {
        auto v = view_of(i)->value_id();
        CHECK((v == 0) == (l.slot_of[i] < 0), "the value id is 0 only without values");
        for (size_t j = 0; j < i; j++)
        {
            CHECK(view_of(j)->argument_id() != view_of(i)->argument_id(), "argument ids are unique");
            if (v != 0) CHECK((view_of(j)->value_id() == v) == (l.slot_of[i] == l.slot_of[j]), "items have the same value id exactly when they share the values");
        }
    }
    auto defined = r.all_subcommands();
    CHECK(defined.size() == c.cmds.size(), "all_subcommands");
    for (size_t k = 0; k < defined.size(); k++) CHECK(defined[k]->name() == c.cmds[k].name, "all_subcommands");
    auto subs = r.subcommands();
    CHECK(subs.size() == l.subs.size(), "sub-commands");
    for (size_t k = 0; k < subs.size(); k++) check_level_access(m, l.subs[k], subs[k]);
}
// print() shows each value of the level once, under every name of the items it belongs to
static void check_printed(const Result& m, size_t li, const std::string& out, size_t& pos)
{
    const Level& l = m.levels[li]; const MCmd& c = *l.cmd;
    auto at = [&](const std::string& s) { if (out.size() - pos < s.size() || out.compare(pos, s.size(), s) != 0) return false; pos += s.size(); return true; };
    std::vector<std::string> labels(l.slots.size());
    for (size_t i = 0; i < c.args.size() + c.opts.size(); i++)
    {
        if (l.slot_of[i] < 0) continue;
        auto& s = labels[(size_t)l.slot_of[i]];
        if (i < c.args.size()) { if (!s.empty()) s += ", "; s += c.args[i].name; continue; }
        for (auto& f : c.opts[i - c.args.size()].flags) { if (!s.empty()) s += ", "; s += f; }
    }
    size_t lines = 0; for (auto& s : labels) lines += !s.empty();
    std::vector<bool> seen(labels.size());
    for (size_t k = 0; k < lines; k++)
    {
        bool found = false;
        for (size_t i = 0; i < labels.size() && !found; i++)
        {
            if (labels[i].empty() || seen[i] || !at(labels[i] + ":")) continue;
            found = seen[i] = true;
            for (auto& v : l.slots[i]) { CHECK(at(" \"") && at(v.value) && at("\""), "print shows every value"); }
            CHECK(at("\n"), "print shows only the values");
        }
        CHECK(found, "print lists every argument and option");
    }
    for (size_t k = 0; k < l.subs.size(); k++)
    {
        CHECK(at("\nSubcommand: " + m.levels[l.subs[k]].cmd->name + "\n"), "print lists the sub-commands");
        check_printed(m, l.subs[k], out, pos);
    }
}
extern "C" void h_c26_access()
{
    auto g = access_cfg();
    gBeyond = sym_pick("beyond", 2);
    unsigned n = sym_pick("tokens", P("tokens", 3) + 1);
    std::vector<std::string> t;
    for (unsigned i = 0; i < n; i++)
    {
        std::string s;
        if (sym_flag("option")) { s = "-"; s += sym_one_of("flag", "abcd", 4); if (sym_flag("attached")) s += sym_string("value", 1); }
        else s = sym_string_upto("value", 0, 1);
        t.push_back(s);
    }
    auto p = make_parser(g);
    ParsedArguments r;
    { auto q = p.parse(views(t)); r = q; }
    auto m = run(g, t);
    CHECK(r.result_code() == m.code, "result code");
    if (m.code != ParserResultCode::SUCCESS) { sym_reach("failure"); return; }
    check_level_access(m, 0, r);
    print(r, *sym_stream(3));
    auto shown = sym_text(3); size_t pos = 0;
    check_printed(m, 0, shown, pos);
    CHECK(pos == shown.size(), "print shows nothing else");
    print(r);
    CHECK(sym_stdout() == shown, "print writes to standard output");
    sym_reach("success");
    sym_obs((uint64_t)m.levels.size());
}
// any other name is unknown
extern "C" void h_c26_names()
{
    auto g = access_cfg();
    auto p = make_parser(g);
    auto r = p.parse(std::vector<std::string_view>{"-c"});
    auto name = sym_string_upto("name", 0, P("len", 3));
    bool known = false;
    for (size_t i = 0; i < g.root.args.size() + g.root.opts.size(); i++) known = known || mhas(names_of(g.root, i), name);
    CHECK(attempt([&] { return r.has(name); }).has_value() == known, "has: unknown names throw, known ones do not");
    CHECK(attempt([&] { return r.value(name); }).has_value() == known, "value: unknown names throw, known ones do not");
    CHECK(attempt([&] { return r.values(name); }).has_value() == known, "values: unknown names throw, known ones do not");
    sym_reach(known ? "known" : "unknown");
}
