// Command line parsing (C02 - C13) against the reference model.
#include "wide.hpp"
using namespace model;
static unsigned P(const char* n, int d) { return (unsigned)sym_param(n, d); }
typedef OptionOperation Op;
typedef OptionType Ty;

// any token of up to n bytes
static std::string tok(unsigned n) { return sym_string_upto("tok", 0, n); }
static Line any_line(unsigned lo, unsigned hi, unsigned len)
{
    unsigned n = lo + sym_pick("tokens", hi - lo + 1);
    Line t;
    for (unsigned i = 0; i < n; i++) t.push_back(tok(len));
    return t;
}

// ------------------------------------------------------------------ C02
static MCfg std_cfg()
{
    MCfg g;
    g.root.opts = {mo({"-p", "--pp"}), mo({"-q"}, "", Op::APPEND), mo({"-n", "--num"}, "N"), mo({"-l", "--list"}, "L", Op::APPEND), mo({"--eq="}, "E"), mo({"-z"}, "Z", Op::NONE)};
    g.root.args = {ma("FILE", 0, 2)};
    return g;
}

// every command line of free tokens
extern "C" void h_c02_lines()
{
    auto g = std_cfg();
    unsigned n = sym_pick("tokens", P("tokens", 2) + 1);
    Line t;
    for (unsigned i = 0; i < n; i++) t.push_back(any_token(P("len", 3), {}, {"--num", "--eq=", "--pp", "-pq", "-pn"}));
    check_line(g, t);
}

static void same(const ParsedArguments& a, const ParsedArguments& b, const MCmd& c)
{
    CHECK(a.result_code() == b.result_code(), "the spelling changes the result code");
    if (a.result_code() == ParserResultCode::FAILURE) { sym_reach("failure"); return; }
    sym_reach("no failure");
    CHECK(a.unprocessed_arguments() == b.unprocessed_arguments(), "the spelling changes the unprocessed arguments");
    for (auto& o : c.opts)
    {
        if (o.op == Op::NONE) continue;
        auto x = a.values(o.flags[0]).raw_values(), y = b.values(o.flags[0]).raw_values();
        CHECK(x.size() == y.size(), "the spelling changes the number of values");
        for (size_t i = 0; i < x.size(); i++) CHECK(x[i] == y[i], "the spelling changes a value");
    }
    auto x = a.values("FILE").raw_values(), y = b.values("FILE").raw_values();
    CHECK(x.size() == y.size(), "the spelling changes the number of arguments");
    for (size_t i = 0; i < x.size(); i++) CHECK(x[i] == y[i], "the spelling changes an argument");
}

// the same occurrences in two spellings
extern "C" void h_c02_spellings()
{
    auto g = std_cfg();
    unsigned n = 1 + sym_pick("items", P("items", 3));
    Line a, b;
    bool group = false;                        // b.back() may be extended
    auto shrt = [&](char f) {
        if (group && sym_flag("join")) { b.back() += f; sym_reach("joined"); }
        else b.push_back(std::string("-") + f);
        group = true;
    };
    for (unsigned i = 0; i < n; i++)
    {
        switch (sym_pick("item", 5))
        {
        case 0: a.push_back("-p"); shrt('p'); break;
        case 1: a.push_back("-q"); shrt('q'); break;
        case 2:
        case 3:
        {
            bool num = sym_flag("num");
            std::string v = sym_string_upto("val", 0, P("len", 3));
            a.push_back(num ? "--num" : "--list"); a.push_back(v);
            std::string l = num ? "--num" : "--list"; char s = num ? 'n' : 'l';
            switch (sym_pick("form", 3))
            {
            case 0: b.push_back(l + "=" + v); break;
            case 1: shrt(s); b.push_back(v); break;
            case 2: sym_assume(!v.empty()); shrt(s); b.back() += v; break;
            }
            group = false;
            break;
        }
        case 4:
        {
            std::string v = sym_string_upto("pos", 0, 2);
            sym_assume(v.size() < 2 || v[0] != '-');
            a.push_back(v); b.push_back(v); group = false;
            break;
        }
        }
    }
    auto pa = make_parser(g), pb = make_parser(g);
    auto ra = pa.parse(views(a)), rb = pb.parse(views(b));
    same(ra, rb, g.root);
    sym_obs((unsigned)ra.result_code());
}

// ------------------------------------------------------------------ C03
static void style_lines(OptionStyle st)
{
    MCfg g;
    g.style = st;
    std::string x(1, g.prefix());
    g.ign_opts = sym_flag("ign_opts");
    g.root.opts = {mo({x + "v"}), mo({x + "vn"}, "N"), mo({x + "list", x + "l"}, "L", Op::APPEND), mo({x + "eq="}, "E"), mo({x + x}, "", Op::NONE, Ty::LAST_OPTION), mo({x + "="}, "Q", Op::APPEND)};
    g.root.args = {ma("FILE", 0, 4)};
    unsigned n = sym_pick("tokens", P("tokens", 3) + 1);
    Line t;
    for (unsigned i = 0; i < n; i++) t.push_back(any_token(P("len", 3), {x + x}, {x + "list", x + "eq="}));
    check_line(g, t);
}
extern "C" void h_c03_slash() { style_lines(OptionStyle::SLASH); }
extern "C" void h_c03_dash() { style_lines(OptionStyle::DASH); }

// ------------------------------------------------------------------ C04
static void no_space(char c) { sym_assume((c != ' ') & (c != '\t') & (c != '\n') & (c != '\r')); }
static std::string sym_flagname(const char* n, size_t len, bool eq = false)
{
    std::string s = sym_string(n, len);
    for (char c : s) { no_space(c); if (!eq) sym_assume(c != '='); }
    return s;
}
static void distinct(const MCmd& c, bool ci)
{
    std::vector<std::string> f;
    for (auto& o : c.opts) for (auto& x : o.flags) f.push_back(x);
    for (size_t i = 0; i < f.size(); i++) for (size_t k = 0; k < i; k++) sym_assume(!flag_eq(f[i], f[k], ci));
}

// any flags, any token
extern "C" void h_c04_anyflags()
{
    MCfg g;
    g.root.opts = {mo({"-" + sym_flagname("f1", 1)}, sym_flag("arg1") ? "A" : "")};
    sym_assume(g.root.opts[0].flags[0] != "--");
    g.root.opts.push_back(mo({"--" + sym_flagname("f2", P("flen", 2))}, sym_flag("arg2") ? "B" : ""));
    g.root.opts.push_back(mo({"--" + sym_flagname("f3", 1 + sym_pick("f3len", P("flen", 2)))}, "", Op::APPEND));
    distinct(g.root, false);
    g.root.args = {ma("FILE", 0, 1)};
    Line t{sym_string_upto("tok", 0, P("len", 5))};
    if (sym_flag("second")) t.push_back("+x");
    check_line(g, t);
}

// flags that are prefixes of each other, in every style
extern "C" void h_c04_styles()
{
    MCfg g;
    g.style = (OptionStyle)sym_pick("style", 3);
    std::string x(1, g.prefix()), d = g.style == OptionStyle::STANDARD ? "--" : x;
    g.root.opts = {mo({x + "a", d + "aa"}), mo({d + "aab"}, "B"), mo({x + "b", d + "ab="}, "E"), mo({d + "aabc", x + "="}), mo({d + "=a="}, "X")};
    if (g.style == OptionStyle::STANDARD) g.root.opts[4].flags = {"--ba="};
    else { g.root.opts[3].flags.pop_back(); g.root.opts[4].flags = {x + "ba="}; }
    if (sym_flag("reversed")) { std::vector<MOpt> o(g.root.opts.rbegin(), g.root.opts.rend()); g.root.opts = o; }
    g.root.args = {ma("FILE", 0, 1)};
    Line t{any_token(P("len", 4), {}, {d + "aa", d + "ab", x + "a"})};
    if (sym_flag("second")) t.push_back(d + "aa");
    check_line(g, t);
}

// ------------------------------------------------------------------ C05
extern "C" void h_c05_flags()
{
    MCfg g;
    g.ci = sym_pick("ci", 4) != 0;             // mostly on
    g.style = sym_flag("dash") ? OptionStyle::DASH : OptionStyle::STANDARD;
    std::string d = g.style == OptionStyle::STANDARD ? "--" : "-";
    std::string d1 = d; unsigned n1 = P("flen", 2);
    if (sym_flag("short")) { d1 = "-"; n1 = 1; }          // one short flag, one of the other kind
    g.root.opts = {mo({d1 + sym_flagname("f1", n1)}), mo({d + sym_flagname("f2", P("flen", 2))}, sym_flag("arg") ? "N" : "")};
    if (P("third", 0)) g.root.opts.push_back(mo({d + sym_flagname("f3", 1)}, "N"));
    distinct(g.root, g.ci);
    Line t{d1 + sym_string("tok", 1 + sym_pick("toklen", P("len", 2)))};
    if (sym_flag("second")) t.push_back("+x");
    check_line(g, t);
}

extern "C" void h_c05_commands()
{
    MCfg g;
    g.ci = sym_pick("ci", 4) != 0;
    g.root.cmds.resize(2);
    g.root.cmds[0].name = sym_string("c1", P("clen", 2));
    g.root.cmds[1].name = sym_string("c2", P("clen", 2));
    g.root.cmds[0].args = {ma("A", 0, 1)};
    g.root.multi = sym_flag("multi");
    sym_assume(!flag_eq(g.root.cmds[0].name, g.root.cmds[1].name, g.ci));
    Line t{sym_string("tok", P("clen", 2))};
    sym_assume(t[0][0] != '-');
    if (g.root.multi) { t.push_back(sym_string("tok2", P("clen", 2))); sym_assume(t[1][0] != '-'); }
    check_line(g, t);
}

// many flags: the order in which they are defined and their neighbours do not matter
extern "C" void h_c05_set()
{
    MCfg g;
    g.ci = true;
    std::vector<std::string> f = {"--a_b", "--aBc", "--A[c", "--ab", "--\xc3\xa5", "--a`B", "--Z", "--[", "--_", "--z0", "-B", "-^", "-q"};
    unsigned rot = sym_pick("rotate", (unsigned)f.size());
    for (size_t i = 0; i < f.size(); i++) g.root.opts.push_back(mo({f[(i + rot) % f.size()]}));
    Line t{"-" + sym_string("tok", 1 + sym_pick("toklen", P("len", 4)))};
    check_line(g, t);
}

// ------------------------------------------------------------------ C06
extern "C" void h_c06_flags()
{
    MCfg g;
    g.abbrev = sym_pick("abbrev", 4) != 0;
    g.ci = sym_flag("ci");
    g.style = sym_flag("dash") ? OptionStyle::DASH : OptionStyle::STANDARD;
    std::string d = g.style == OptionStyle::STANDARD ? "--" : "-";
    g.root.opts = {mo({d + sym_flagname("f1", 1 + sym_pick("f1len", 2))}), mo({d + sym_flagname("f2", P("flen", 2))}, sym_flag("arg") ? "N" : "")};
    if (P("third", 0)) g.root.opts.push_back(mo({d + sym_flagname("f3", 2)}, "N"));
    distinct(g.root, g.ci);
    g.root.args = {ma("FILE", 0, 1)};
    Line t{"-" + sym_string("tok", 1 + sym_pick("toklen", P("len", 3)))};
    if (sym_flag("second")) t.push_back("-x");
    check_line(g, t);
}

extern "C" void h_c06_set()
{
    MCfg g;
    g.abbrev = true;
    g.ci = sym_flag("ci");
    g.style = (OptionStyle)sym_pick("style", 3);
    std::string x(1, g.prefix()), d = g.style == OptionStyle::STANDARD ? "--" : x;
    g.root.opts = {mo({x + "f", d + "file"}, "F"), mo({d + "fi"}), mo({d + "filter="}, "P"), mo({d + "list", d + "lisp"}), mo({d + "Lost"}), mo({d + "verb", d + "verbatim"}), mo({d + "Xy"})};
    unsigned rot = sym_pick("rotate", 7);
    std::vector<MOpt> o; for (unsigned i = 0; i < 7; i++) o.push_back(g.root.opts[(i + rot) % 7]);
    g.root.opts = o;
    g.root.args = {ma("ARG", 0, 2), ma("LAST", 0, 1)};
    Line t{any_token(P("len", 2), {}, {d, d + "fi", d + "li", d + "fil", d + "ver"})};
    // arguments are never taken for abbreviations, also when they are counted
    if (sym_flag("second")) t.push_back(sym_flag("short") ? "f" : "list");
    if (sym_flag("third")) t.push_back("-");
    check_line(g, t);
}

// ------------------------------------------------------------------ C07
extern "C" void h_c07_counts()
{
    MCfg g;
    g.ign_args = sym_flag("ign_args");
    unsigned k = sym_pick("definitions", P("defs", 3) + 1);
    const char* nm[] = {"A", "B", "C", "D"};
    for (unsigned i = 0; i < k; i++)
    {
        unsigned lo = sym_pick("lo", P("lo", 2) + 1), h = sym_pick("hi", P("extra", 2) + 2), hi = lo + h;
        if (h == P("extra", 2) + 1) { hi = 0xFFFFFFFFu; sym_reach("unlimited"); }
        if (hi == 0) hi = lo = 1;
        g.root.args.push_back(ma(nm[i], lo, hi));
    }
    unsigned n = sym_pick("values", P("values", 6) + 1);
    Line t;
    for (unsigned i = 0; i < n; i++) t.push_back(sym_string("v", 1));
    check_line(g, t);
}

// counts given by any sequence of setters
extern "C" void h_c07_setters()
{
    MCfg g;
    g.ign_args = sym_flag("ign_args");
    const char* nm[] = {"A", "BB"};
    unsigned k = 1 + sym_pick("definitions", 2), odd = sym_pick("plain", 2);
    for (unsigned i = 0; i < k; i++)
    {
        MArg a = ma(nm[i], 1, 1);
        unsigned n = i == odd ? sym_pick("one setter", 2) : sym_pick("setters", P("setters", 2) + 1);
        for (unsigned j = 0; j < n; j++)
        {
            MArg::Setter s{(int)sym_pick("setter", 4), 0, 0};
            if (s.kind < 2) s.a = sym_pick("value", 2);
            else if (s.kind == 2) s.a = 1 + sym_pick("count", 2);
            else { s.a = sym_pick("min", 3); s.b = s.a + sym_pick("extra", 2); if (s.b == 0) s.b = 1; }
            a.setters.push_back(s);
        }
        set_counts(a);
        g.root.args.push_back(a);
    }
    Line t(sym_pick("values", 6), "v");
    for (size_t i = 0; i < t.size(); i++) t[i] += (char)('0' + i);
    auto p = make_parser(g);
    auto it = p.make_iterator(views(Line{}));
    auto v = it.parsed_arguments().command().arguments();
    CHECK(v.size() == k, "the arguments");
    for (unsigned i = 0; i < k; i++)
    {
        CHECK(v[i].count().first == g.root.args[i].lo && v[i].count().second == g.root.args[i].hi, "the counts of the definition");
        CHECK(v[i].optional() == (g.root.args[i].lo == 0), "optional");
    }
    check_line(g, t);
}

// options anywhere between the arguments
extern "C" void h_c07_options()
{
    MCfg g;
    bool group = sym_flag("group");
    g.ign_args = group;
    g.ign_opts = !group;
    g.root.opts = {mo({"-v"}), mo({"-n", "--num"}, "N", Op::APPEND), mo({"--"}, "", Op::NONE, Ty::LAST_OPTION), mo({"-s"}, "", Op::ASSIGN, Ty::STOP), mo({"-e"}, "", Op::ASSIGN, Ty::LAST_ARGUMENT), mo({"-x"}, "X", Op::NONE)};
    switch (sym_pick("shape", 6))
    {
    case 0: g.root.args = {ma("A", 0, 1), ma("B", 1, 1)}; break;
    case 1: g.root.args = {ma("A", 1, 3), ma("B", 1, 2), ma("C", 0, 1)}; break;
    case 2: g.root.args = {ma("A", 1, 1), ma("B", 0, 2)}; break;
    case 3: g.root.args = {ma("A", 0, 0xFFFFFFFFu), ma("B", 2, 2)}; break;
    case 4: g.root.args = {ma("A", 0, 2), ma("B", 0, 2)}; break;
    case 5: g.root.args = {ma("A", 2, 2), ma("B", 1, 1)}; break;
    }
    Line t = any_line(0, P("tokens", 4) - (group ? 1 : 0), 2);
    if (group) t.insert(t.begin() + sym_pick("where", (unsigned)t.size() + 1), "-" + sym_string("group", 2));
    check_line(g, t);
}

// ------------------------------------------------------------------ C08
extern "C" void h_c08_history()
{
    MCfg g;
    auto with = [](MOpt o, const char* alias, const char* initial = "", const char* constant = "") { o.alias = alias; o.initial = initial; if (*constant) o.constant = constant; return o; };
    switch (sym_pick("table", 6))
    {
    case 0: // operations on one value through an option's own flag
        g.root.opts = {with(mo({"-a", "--all"}, "A", Op::ASSIGN), "", "ini"), with(mo({"-b"}, "B", Op::APPEND), "--all"), with(mo({"-c"}, "", Op::CLEAR), "-a"), with(mo({"-d"}, "", Op::ASSIGN), "-a", "", "con"),
                       with(mo({"-e"}, "", Op::APPEND), "--all", "ie", "app"), mo({"-f"}, "", Op::NONE), mo({"-g"}, "G", Op::NONE), mo({"-h"})};
        break;
    case 1: // through a common alias that is nobody's name
        g.root.opts = {with(mo({"-a"}, "A", Op::APPEND), "X"), with(mo({"-b"}, "B", Op::ASSIGN), "X", "ib"), with(mo({"-c"}, "", Op::CLEAR), "X"), with(mo({"-d"}, "", Op::ASSIGN), "Y"),
                       with(mo({"-e"}, "", Op::APPEND), "Y"), with(mo({"-f"}, "", Op::CLEAR), "Y"), mo({"-g"}, "G", Op::APPEND), mo({"-h"}, "", Op::CLEAR)};
        break;
    case 2: // alias defined before its target, and an argument's name
        g.root.opts = {with(mo({"-a"}, "A", Op::ASSIGN), "--late"), with(mo({"-b"}, "B", Op::APPEND), "FILE"), with(mo({"-c"}, "", Op::CLEAR), "FILE"), mo({"-d", "--late"}, "D", Op::APPEND),
                       with(mo({"-e"}, "", Op::ASSIGN), "-d"), with(mo({"-f"}, "", Op::CLEAR), "--late"), with(mo({"-g"}, "", Op::APPEND), "", "ig"), with(mo({"-h"}, "", Op::ASSIGN), "FILE", "", "h")};
        break;
    case 3: // the argument is the alias
        g.root.opts = {mo({"-a", "--aa"}, "A", Op::ASSIGN), mo({"-b"}, "B", Op::APPEND), with(mo({"-c"}, "", Op::CLEAR), "-b"), mo({"-d"}), with(mo({"-e"}, "", Op::CLEAR), "--aa"), with(mo({"-f"}, "", Op::ASSIGN), "", "if"),
                       mo({"-g"}, "", Op::NONE), with(mo({"-h"}, "H", Op::ASSIGN), "-d")};
        break;
    case 5: // the alias of an option that has several flags and an alias itself
        g.root.opts = {with(mo({"-a", "--aa", "--aaa"}, "A", Op::APPEND), "X"), with(mo({"-b"}, "B", Op::APPEND), "-a"), with(mo({"-c"}, "", Op::CLEAR), "--aa"), with(mo({"-d"}, "", Op::APPEND), "--aaa", "id"),
                       with(mo({"-e", "--ee"}, "E", Op::ASSIGN), "FILE"), with(mo({"-f"}, "", Op::CLEAR), "-e"), with(mo({"-g"}, "", Op::APPEND), "X"), with(mo({"-h"}, "", Op::ASSIGN), "--ee")};
        break;
    case 4: // nothing shared
        g.root.opts = {with(mo({"-a"}, "A"), "", "i"), mo({"-b"}, "B", Op::APPEND), mo({"-c"}), with(mo({"-d"}, "", Op::APPEND), "", "1"), mo({"-e"}), mo({"-f"}, "", Op::CLEAR), mo({"-g"}, "G", Op::CLEAR), with(mo({"-h"}, "H", Op::APPEND), "", "x")};
        break;
    }
    g.root.args = {ma("FILE", 0, 2)};
    unsigned n = sym_pick("occurrences", P("occ", 5) + 1);
    Line t;
    for (unsigned i = 0; i < n; i++)
    {
        unsigned k = sym_pick("which", 9);
        if (k == 8) { t.push_back(sym_string("v", 1)); continue; }
        auto& o = g.root.opts[k];
        t.push_back(o.flags[0]);
        if (!o.arg.empty()) t.push_back(sym_string_upto("a", 0, 1));
    }
    check_line(g, t);
}

// constants of every type
extern "C" void h_c08_constants()
{
    unsigned kind = sym_pick("kind", 6);
    bool append = sym_flag("append");
    Option o("-o");
    std::string want;
    static const long long big[] = {0, 1, -1, 9, 10, -10, 2147483647LL, -2147483648LL, 2147483648LL, -2147483649LL, 9223372036854775807LL, -9223372036854775807LL - 1};
    static const char* text[] = {"0", "1", "-1", "9", "10", "-10", "2147483647", "-2147483648", "2147483648", "-2147483649", "9223372036854775807", "-9223372036854775808"};
    switch (kind)
    {
    case 0: { want = sym_string_upto("text", 1, 3); for (char c : want) sym_assume(c != 0); o.constant(want.c_str()); break; }
    case 1: { want = sym_string_upto("text", 1, 3); o.constant(want); break; }
    case 2: { bool b = sym_flag("bool"); o.constant(b); want = b ? "1" : "0"; break; }
    case 3: { unsigned i = sym_pick("int", 8); o.constant((int)big[i]); want = text[i]; break; }
    case 4: { unsigned i = sym_pick("long", 12); o.constant(big[i]); want = text[i]; break; }
    default: { int v = (int)sym_u8("small", 0, 99); o.constant(v); if (v >= 10) want += (char)('0' + v / 10); want += (char)('0' + v % 10); break; }
    }
    o.operation(append ? Op::APPEND : Op::ASSIGN);
    ArgumentParser p("prog");
    p.auto_exit(false).stream(sym_stream(0)).generate_help_option(false);
    p.add(o);
    unsigned n = sym_pick("times", 3);
    auto r = p.parse(views(Line(n, "-o")));
    CHECK(r.result_code() == ParserResultCode::SUCCESS, "result code");
    auto v = r.values("-o").raw_values();
    CHECK(v.size() == (append || n < 2 ? n : 1), "number of values");
    for (auto x : v) CHECK(x == want, "the constant");
    CHECK(r.command().options().at(0).constant() == want, "the constant of the view");
    sym_reach("end");
}

// ------------------------------------------------------------------ C09
extern "C" void h_c09_flat()
{
    MCfg g;
    auto man = [](MOpt o, bool m, const char* alias = "") { o.mandatory = m; o.alias = alias; return o; };
    unsigned m = sym_pick("mandatory", 8);
    g.root.opts = {man(mo({"-a"}, "A"), m & 1), man(mo({"-b", "--bb"}, "B", Op::APPEND), m & 2), man(mo({"-c"}, "", Op::CLEAR), false, "-a"), man(mo({"-d"}), m & 4, sym_flag("alias") ? "--bb" : ""),
                   mo({"--"}, "", Op::NONE, Ty::LAST_OPTION), mo({"-e"}, "", Op::NONE, Ty::LAST_ARGUMENT)};
    if (sym_flag("initial")) g.root.opts[0].initial = "x";
    unsigned lo = sym_pick("lo", 3);
    g.root.args = {ma("F", lo, lo + 1)};
    Line t = any_line(0, P("tokens", 4), 2);
    check_line(g, t);
}


extern "C" void h_c09_tree()
{
    MCfg g;
    g.ign_args = false;
    auto man = [](MOpt o, bool m) { o.mandatory = m; return o; };
    unsigned m = sym_pick("mandatory", 8);
    g.root.require = (int)sym_pick("require", 3) - 1;
    g.root.multi = sym_flag("multi");
    g.root.opts = {man(mo({"-a"}), m & 1)};
    g.root.cmds = {sub("o"), sub("tt")};
    g.root.cmds[0].opts = {man(mo({"-b"}, "B"), m & 2), mo({"-e"}, "", Op::NONE, Ty::LAST_ARGUMENT), mo({"-C"}, "", Op::CLEAR)};
    g.root.cmds[0].opts[2].alias = "-b";
    g.root.cmds[0].args = {ma("F", 1, 2)};
    g.root.cmds[1].opts = {man(mo({"-c"}), m & 4)};
    g.root.cmds[1].require = (int)sym_pick("require2", 3) - 1;
    g.root.cmds[1].cmds = {sub("s")};
    Line t = any_line(0, P("tokens", 4), 2);
    check_line(g, t);
}

// ------------------------------------------------------------------ C10
extern "C" void h_c10_flat()
{
    MCfg g;
    g.ign_args = sym_flag("ignore");
    Ty ty = (Ty)sym_pick("type", 6);
    bool with_arg = sym_flag("with_arg");
    MOpt s = mo({"-s", "--stop"}, with_arg ? "S" : "", g.ign_args ? Op::NONE : Op::ASSIGN, ty);
    g.root.opts = {mo({"-v"}, "", Op::APPEND), mo({"-n", "--num"}, "N"), s};
    unsigned lo = sym_pick("lo", 2);
    if (lo) g.root.opts[1].mandatory = sym_flag("mandatory");
    g.root.args = {ma("A", 0, 1), ma("B", lo, 2)};
    Line t;
    unsigned where = sym_pick("where", P("before", 1) + 1);
    for (unsigned i = 0; i < where; i++) t.push_back(tok(2));
    switch (sym_pick("spelling", 5)) { case 0: t.push_back("-s"); break; case 1: t.push_back("--stop"); break; case 2: t.push_back("-" + sym_string("group", P("group", 2))); break; case 3: t.push_back("--stop=y"); break; case 4: t.push_back("-s" + sym_string("tail", 1)); break; }
    unsigned after = sym_pick("after", P("after", 1) + 1);
    for (unsigned i = 0; i < after; i++) t.push_back(tok(P("len", 2)));
    if (after || where) t.push_back("-v");
    check_line(g, t);
}
// free tokens around one stopping option, every style
extern "C" void h_c10_free()
{
    MCfg g;
    g.style = (OptionStyle)sym_pick("style", 3);
    std::string x(1, g.prefix()), d = g.style == OptionStyle::STANDARD ? "--" : x;
    Ty ty = (Ty)(1 + sym_pick("type", 5));
    g.root.opts = {mo({x + "v"}, "", Op::APPEND), mo({x + "n"}, "N"), mo({x + "s", d + "st"}, "", Op::ASSIGN, ty)};
    g.root.args = {ma("A", 0, 3)};
    Line t;
    if (sym_flag("before")) t.push_back(any_token(2, {}));
    switch (sym_pick("spelling", 3)) { case 0: t.push_back(x + "s"); break; case 1: t.push_back(d + "st"); break; case 2: t.push_back(x + sym_string("group", 2)); break; }
    if (sym_flag("after")) t.push_back(any_token(P("len", 3), {}));
    if (sym_flag("last")) t.push_back(sym_string("z", 1));
    check_line(g, t);
}

extern "C" void h_c10_tree()
{
    MCfg g;
    Ty ty = (Ty)(1 + sym_pick("type", 5)), ty2 = P("types2", 0) ? (Ty)(1 + sym_pick("type2", 5)) : ty;
    g.root.multi = sym_flag("multi");
    g.root.opts = {mo({"-s"}, "", Op::ASSIGN, ty), mo({"-v"})};
    g.root.cmds = {sub("o"), sub("tt")};
    g.root.cmds[0].opts = {mo({"-t"}, "", Op::ASSIGN, ty2), mo({"-v"}), mo({"-s"})};
    g.root.cmds[0].args = {ma("F", 0, 2)};
    g.root.cmds[1].args = {ma("G", 1, 1)};
    Line t = any_line(0, P("tokens", 4), 2);
    if (sym_flag("group")) t.insert(t.begin() + sym_pick("where", (unsigned)t.size() + 1), "-" + sym_string("group", P("group", 2)));
    check_line(g, t);
}

// ------------------------------------------------------------------ C11
static std::string seg(const Line& l) { std::string s; for (auto& x : l) { s += x; s += '\1'; } return s; }

static void check_filter(const MCfg& g, const Line& t, const Result& m)
{
    auto p = make_parser(g);
    std::vector<std::string> copy = t;
    std::vector<char*> argv; std::string name = "prog";
    argv.push_back(name.data());
    for (auto& s : copy) argv.push_back(s.data());
    argv.push_back(nullptr);
    int argc = (int)t.size() + 1; char** av = argv.data();
    auto r = p.parse(argc, av);
    Line un;                                  // of all levels, in the order the commands were entered
    for (auto& l : m.levels) for (auto& s : l.unprocessed) un.push_back(s);
    r.filter_parsed_arguments(argc, av);
    CHECK(argc >= 1 && (size_t)argc <= t.size() + 1, "argc after filter_parsed_arguments");
    CHECK(av[0] == name.data(), "program name after filter_parsed_arguments");
    // Every remaining string is one of the originals, in order.
    size_t k = 0;
    for (int i = 1; i < argc; i++)
    {
        while (k < t.size() && av[i] != copy[k].data()) k++;
        CHECK(k < t.size(), "filter_parsed_arguments leaves pointers of the original argv in order");
        k++;
    }
    if (m.split_off) return;                  // a part of a token can't be kept
    if (m.code == ParserResultCode::FAILURE && m.levels.size() > 2) return;
    CHECK((size_t)argc == un.size() + 1, "argc counts the unprocessed arguments");
    for (int i = 1; i < argc; i++) CHECK(un[(size_t)i - 1] == av[i], "argv holds the unprocessed arguments");
    sym_reach("filter");
}

// undefined arguments and options are ignored
extern "C" void h_c11_ignore()
{
    MCfg g;
    g.style = (OptionStyle)sym_pick("style", 3);
    std::string x(1, g.prefix()), d = g.style == OptionStyle::STANDARD ? "--" : x;
    switch (sym_pick("ignore", 3)) { case 0: g.ign_opts = true; break; case 1: g.ign_args = true; break; case 2: g.ign_args = g.ign_opts = true; break; }
    g.root.opts = {mo({x + "v"}, "", Op::APPEND), mo({x + "n", d + "nu"}, "N", Op::APPEND)};
    if (sym_flag("arg")) g.root.args = {ma("A", 0, 1)};
    auto t = any_line(1, P("tokens", 2), P("len", 3));
    if (sym_flag("last")) t.push_back(x + "v");
    auto m = check_line(g, t);
    if (sym_param("filter", 1) && m.code == ParserResultCode::SUCCESS) check_filter(g, t, m);
}

// what comes after a stopping option
extern "C" void h_c11_stop()
{
    MCfg g;
    g.style = (OptionStyle)sym_pick("style", 3);
    std::string x(1, g.prefix());
    g.ign_args = sym_flag("ign_args");
    g.root.opts = {mo({x + "v"}, "", Op::APPEND), mo({x + "s"}, "", Op::ASSIGN, sym_flag("stop") ? Ty::STOP : Ty::LAST_ARGUMENT), mo({x + "n"}, "N", Op::APPEND)};
    g.root.args = {ma("A", 0, 1)};
    auto t = any_line(0, 1, 3);
    switch (sym_pick("spelling", 2)) { case 0: t.push_back(x + "s"); break; case 1: t.push_back(x + "vs"); break; }
    auto u = any_line(0, P("after", 2), 1);
    for (auto& s : u) t.push_back(s);
    auto m = check_line(g, t);
    if (m.code != ParserResultCode::FAILURE) check_filter(g, t, m);
}

// the same token more than once, recognised in one place and not in another
extern "C" void h_c11_duplicates()
{
    MCfg g;
    g.ign_opts = g.ign_args = true;
    g.root.opts = {mo({"-n"}, "N", Op::APPEND), mo({"-l"}, "", Op::ASSIGN, Ty::LAST_OPTION), mo({"-s"}, "", Op::ASSIGN, Ty::STOP), mo({"-v"})};
    g.root.args = {ma("A", 0, 1)};
    unsigned n = 1 + sym_pick("tokens", P("tokens", 5));
    Line t;
    static const char* w[] = {"a", "-n", "-u", "-l", "-s", "-v", "b"};
    for (unsigned i = 0; i < n; i++) t.push_back(w[sym_pick("word", 7)]);
    auto m = check_line(g, t);
    check_filter(g, t, m);
}

// unprocessed arguments of sub-commands
extern "C" void h_c11_tree()
{
    MCfg g;
    g.ign_opts = g.ign_args = true;
    g.root.multi = sym_flag("multi");
    g.root.opts = {mo({"-v"}), mo({"-s"}, "", Op::ASSIGN, Ty::STOP)};
    g.root.cmds = {sub("a"), sub("b")};
    g.root.cmds[0].opts = {mo({"-v"}, "V"), mo({"-e"}, "", Op::ASSIGN, Ty::LAST_ARGUMENT), mo({"-s"}, "", Op::ASSIGN, Ty::STOP)};
    g.root.cmds[0].args = {ma("F", 0, 1)};
    g.root.cmds[1].cmds = {sub("c")};
    Line t;
    if (sym_flag("first")) t.push_back("-u");
    if (sym_flag("enter")) t.push_back("a");
    for (auto& s : any_line(0, P("tokens", 3), 2)) t.push_back(s);
    auto m = check_line(g, t);
    if (m.code != ParserResultCode::FAILURE) check_filter(g, t, m);
}

// ------------------------------------------------------------------ C12
static MOpt man(MOpt o) { o.mandatory = true; return o; }

extern "C" void h_c12_tree()
{
    MCfg g;
    g.ci = sym_flag("ci");
    g.root.require = (int)sym_pick("require", 3) - 1;
    g.root.opts = {mo({"-v"}, "", Op::APPEND), mo({"-n"}, "N")};
    g.root.cmds = {sub("a"), sub("bb"), sub("c")};
    auto& a = g.root.cmds[0];
    a.opts = {mo({"-v"}, "V"), mo({"-x"}, "", Op::APPEND)}; a.opts[0].initial = "ini";
    a.args = {ma("F", 0, 2)};
    auto& b = g.root.cmds[1];
    b.cmds = {sub("a"), sub("bb")}; b.opts = {mo({"-y"})};
    b.cmds[0].opts = {mo({"-z"}), mo({"-v"}, "", Op::APPEND)}; b.cmds[0].args = {ma("F", 1, 1)};
    b.cmds[1].cmds = {sub("a")};
    b.cmds[1].require = 0;
    b.cmds[1].cmds[0].args = {ma("G", 0, 1)};
    auto t = any_line(0, P("tokens", 3), 2);
    if (sym_flag("entered")) { Line u{"-v", "bb"}; for (auto& s : t) u.push_back(s); t = u; }
    check_line(g, t);
}

// any sub-command names
extern "C" void h_c12_names()
{
    MCfg g;
    g.root.cmds.resize(2);
    g.root.cmds[0].name = sym_string_upto("name", 1, P("name", 3));
    g.root.cmds[1].name = sym_string_upto("name", 1, P("name", 3));
    sym_assume(g.root.cmds[0].name != g.root.cmds[1].name);
    g.root.cmds[0].cmds = {sub("s")};
    g.root.cmds[0].require = 0;
    g.root.opts = {mo({"-v"})};
    g.root.cmds[1].opts = {mo({"-v"}, "", Op::APPEND)};
    g.root.cmds[1].args = {ma("F", 0, 1)};
    Line t{sym_string_upto("tok", 0, P("len", 3))};
    if (sym_flag("more")) t.push_back(sym_string_upto("tok", 1, 2));
    check_line(g, t);
}

// ------------------------------------------------------------------ C13
extern "C" void h_c13_sequence()
{
    MCfg g;
    g.root.multi = true;
    g.root.opts = {mo({"-v"})};
    g.root.cmds = {sub("a"), sub("b"), sub("c")};
    auto& a = g.root.cmds[0];
    unsigned lo = sym_pick("lo", 3), extra = sym_pick("extra", 3);
    a.opts = {mo({"-x"}, "X"), mo({"-e"}, "", Op::ASSIGN, Ty::LAST_ARGUMENT), mo({"-l"}, "", Op::ASSIGN, Ty::LAST_OPTION)};
    if (lo + extra) a.args = {ma("F", lo, lo + extra)};
    if (sym_flag("tail")) a.args.push_back(ma("G", 1, 1));
    auto& b = g.root.cmds[1];
    b.opts = {mo({"-x"}, "X", Op::APPEND)};
    if (sym_flag("mandatory")) b.opts[0].mandatory = true;
    auto& c = g.root.cmds[2];
    c.cmds = {sub("a"), sub("n")}; c.cmds[1].args = {ma("N", 0, 1)};
    c.require = sym_flag("require") ? 1 : 0;
    g.root.cmds.resize(1 + sym_pick("siblings", 3));
    Line t{"a"};
    for (auto& s : any_line(0, P("tokens", 3), 1)) t.push_back(s);
    if (sym_flag("option")) { static const char* w[] = {"-e", "-l", "-x", "-xa"}; t.insert(t.begin() + 1 + sym_pick("where", (unsigned)t.size()), w[sym_pick("what", 4)]); }
    check_line(g, t);
}

// nested commands return to the nearest parent that allows several sub-commands
extern "C" void h_c13_nested()
{
    MCfg g;
    g.root.multi = sym_flag("multi1");
    g.root.cmds = {sub("a"), sub("b")};
    auto& a = g.root.cmds[0];
    a.multi = sym_flag("multi2");
    a.cmds = {sub("c"), sub("b"), sub("d")};
    a.opts = {mo({"-m"})};
    if (sym_flag("mandatory")) a.opts[0].mandatory = true;
    a.cmds[0].args = {ma("F", 0, 1)};
    a.cmds[0].opts = {mo({"-e", "-f"}, "", Op::ASSIGN, Ty::LAST_ARGUMENT)};
    a.cmds[1].args = {ma("G", 1, 1)};
    a.cmds[2].cmds = {sub("c"), sub("b")};
    a.cmds[2].cmds[0].args = {ma("H", 0, 2)};
    a.cmds[2].cmds[0].opts = {mo({"-e"}, "", Op::ASSIGN, Ty::LAST_ARGUMENT)};
    g.root.cmds[1].opts = {mo({"-v"})};
    if (sym_flag("only child")) { a.cmds.resize(1); g.root.cmds.resize(1); }
    Line t{"a"};
    if (sym_flag("m")) t.push_back("-m");
    for (auto& s : any_line(0, P("tokens", 4), 1)) t.push_back(s);
    if (sym_flag("end")) t.insert(t.begin() + 1 + sym_pick("where", (unsigned)t.size()), "-e");
    check_line(g, t);
}
