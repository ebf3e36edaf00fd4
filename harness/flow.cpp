// Entry points, callbacks, stepping, errors and exits (C01, C14, C23, C25, C29).
#include "wide.hpp"
using namespace model;
static unsigned P(const char* n, int d) { return (unsigned)sym_param(n, d); }
typedef OptionOperation Op;
typedef OptionType Ty;

static Line any_line(unsigned lo, unsigned hi, unsigned len)
{
    unsigned n = lo + sym_pick("tokens", hi - lo + 1);
    Line t;
    for (unsigned i = 0; i < n; i++) t.push_back(sym_string_upto("tok", 0, len));
    return t;
}

// ------------------------------------------------------------------ C29
static MCfg small_cfg()
{
    MCfg g;
    switch (sym_pick("shape", 4))
    {
    case 0:
        g.root.opts = {mo({"-v"}), mo({"-n"}, "N"), mo({"-s"}, "", Op::ASSIGN, Ty::STOP), mo({"-z"}, "Z", Op::NONE)};
        g.root.args = {ma("A", 0, 1), ma("B", 1, 1)};
        break;
    case 1:
        g.ign_args = true; g.ign_opts = true; g.style = OptionStyle::DASH;
        g.root.opts = {mo({"-v"}), mo({"-n"}, "N", Op::APPEND), mo({"-l"}, "", Op::ASSIGN, Ty::LAST_OPTION)};
        g.root.args = {ma("A", 0, 1)};
        break;
    case 2:
        g.root.multi = true;
        g.root.opts = {mo({"-v"})};
        g.root.cmds = {sub("a"), sub("b")};
        g.root.cmds[0].opts = {mo({"-v"}, "V"), mo({"-e"}, "", Op::ASSIGN, Ty::LAST_ARGUMENT)};
        g.root.cmds[0].args = {ma("F", 0, 2)};
        g.root.cmds[1].cmds = {sub("a")};
        break;
    case 3:
        g.style = OptionStyle::SLASH;
        g.root.opts = {mo({"/v"}, "", Op::CLEAR), mo({"/n"}, "N"), mo({"/h"}, "", Op::NONE, Ty::LAST_ARGUMENT), mo({"/x"}, "", Op::APPEND)};
        g.root.opts[0].alias = "/n"; g.root.opts[1].initial = "i";
        if (sym_flag("mandatory")) g.root.opts[3].mandatory = true;
        g.root.args = {ma("A", 0, 2)};
        break;
    }
    return g;
}

static void check_step(const Step& s, const IArgumentView* a, std::string_view v)
{
    switch (s.kind)
    {
    case 'O':
    {
        auto o = dynamic_cast<const OptionView*>(a);
        CHECK(o && opt_is(*o, *(const MOpt*)s.what), "the step's option");
        CHECK(v == s.value, "the step's value");
        break;
    }
    case 'A':
    {
        auto x = dynamic_cast<const ArgumentView*>(a);
        CHECK(x && x->name() == ((const MArg*)s.what)->name, "the step's argument");
        CHECK(v == s.value, "the step's value");
        break;
    }
    case 'C':
    {
        auto c = dynamic_cast<const CommandView*>(a);
        CHECK(c && c->name() == ((const MCmd*)s.what)->name, "the step's sub-command");
        CHECK(v == s.value, "the step's value");
        break;
    }
    case 'U':
        CHECK(a == nullptr, "the step of an ignored argument has no definition");
        CHECK(v == s.value, "the ignored argument");
        break;
    }
}

static void values_match(const Result& m, size_t li, const ParsedArguments& r)
{
    const Level& l = m.levels[li];
    CHECK(r.name() == l.cmd->name || li == 0, "current command");
    for (size_t i = 0; i < l.slot_of.size(); i++)
    {
        if (l.slot_of[i] < 0) continue;
        auto& want = l.slots[(size_t)l.slot_of[i]];
        auto raw = r.values(names_of(*l.cmd, i)[0]).raw_values();
        CHECK(raw.size() == want.size(), "number of values after a step");
        for (size_t k = 0; k < raw.size(); k++) CHECK(raw[k] == want[k].value, "value after a step");
    }
}

static void check_steps(const MCfg& g, const Line& t)
{
    auto p = make_parser(g);
    auto m = run(g, t);
    if (m.ignored_group && sym_param("known_K1", 0)) m = run(g, t, true);
    auto it = p.make_iterator(views(t));
    std::unique_ptr<IArgumentView> a; std::string_view v;
    size_t n = 0;
    while (it.next(a, v))
    {
        CHECK(n < m.steps.size(), "an additional step");
        check_step(m.steps[n], a.get(), v);
        n++;
        Parser q(g, t, m.ignored_group && sym_param("known_K1", 0));
        auto part = q.run_until(n);
        if (m.steps[n - 1].kind != 'O' || m.steps[n - 1].what != m.stop)
            if (!part.ended) values_match(part, part.current, it.parsed_arguments());
    }
    CHECK(a == nullptr && v.empty(), "nothing is returned at the end");
    // a last-argument option in the wrong place is an error instead of a step
    CHECK(n == m.steps.size() || (m.code == ParserResultCode::FAILURE && n + 1 == m.steps.size()), "a missing step");
    auto r = it.parsed_arguments();
    CHECK(r.result_code() == m.code, "result code");
    bool threw = false, more = false;
    try { more = it.next(a, v); } catch (...) { threw = true; }
    CHECK(threw == (m.code == ParserResultCode::FAILURE), "next() throws exactly after an error");
    CHECK(!more, "next() after the end");
    if (m.code != ParserResultCode::FAILURE)
    {
        CHECK(!it.next(a, v), "next() after the end, again");
        if (m.levels.size() == 1) compare_level(m, 0, r);
    }
    reach(m);
    sym_obs(n);
}

extern "C" void h_c29_steps()
{
    auto g = small_cfg();
    auto t = any_line(0, P("tokens", 3), P("len", 2));
    check_steps(g, t);
}

// the wide definitions and their words
static MCfg words_cfg(Line& t)
{
    std::vector<std::string> words;
    unsigned styles = P("styles", 1), n = 0, s[3] = {};
    for (unsigned k = 0; k < 3; k++) if (styles >> k & 1) s[n++] = k;
    auto style = (OptionStyle)s[sym_pick("style", n)];
    bool tree = sym_flag("tree");
    auto g = tree ? wide_tree(style, words) : wide_flat(style, words);
    unsigned settings = P("settings", 0);
    lazy_settings(g, settings & 1, settings & 2);
    if (tree) switch (sym_pick("prefix", P("prefixes", 3)))
    {
    case 1: t = {"q", "s"}; break;
    case 2: t = {"q", "p", "1"}; break;
    case 3: t = {"q"}; break;
    case 4: t = {"p"}; break;
    }
    t = word_line(g, t, words, P("tokens", 2));
    return g;
}

extern "C" void h_c29_words()
{
    Line t;
    auto g = words_cfg(t);
    check_steps(g, t);
}

// a moved iterator
extern "C" void h_c29_move()
{
    auto g = small_cfg();
    auto t = any_line(1, P("tokens", 2), P("len", 2));
    auto p = make_parser(g);
    auto m = run(g, t);
    if (m.ignored_group && sym_param("known_K1", 0)) m = run(g, t, true);
    auto it = p.make_iterator(views(t));
    std::unique_ptr<IArgumentView> a; std::string_view v;
    size_t n = 0;
    bool on = sym_flag("first") ? it.next(a, v) : true;
    if (a || !v.empty()) n++;
    ArgumentIterator j(std::move(it));
    bool threw = false;
    try { (void)it.next(a, v); } catch (const ArgosException&) { threw = true; }
    CHECK(threw, "a moved-from iterator throws");
    threw = false;
    try { (void)it.parsed_arguments(); } catch (const ArgosException&) { threw = true; }
    CHECK(threw, "a moved-from iterator throws");
    size_t guard = 0;
    if (on) while (j.next(a, v)) { CHECK(++guard < 40, "stepping ends"); }
    CHECK(j.parsed_arguments().result_code() == m.code, "result code");
    if (m.code != ParserResultCode::FAILURE && m.levels.size() == 1) compare_level(m, 0, j.parsed_arguments());
    sym_reach("end");
}

// ------------------------------------------------------------------ C14
static void digest(std::string& s, const ParsedArguments& r, const MCmd& c)
{
    auto add = [&](std::string_view x) { s += x; s += '\0'; };
    add("code"); s += (char)('0' + (int)r.result_code());
    add(r.name());
    try { auto o = r.stop_option(); add("stop"); for (auto& f : o.flags()) add(f); } catch (const ArgosException&) {}
    for (auto& u : r.unprocessed_arguments()) { add("unprocessed"); add(u); }
    for (auto& a : c.args) { add(a.name); for (auto v : r.values(a.name).raw_values()) { add("="); add(v); } }
    for (auto& o : c.opts) if (o.op != Op::NONE) { add(o.flags[0]); for (auto v : r.values(o.flags[0]).raw_values()) { add("="); add(v); } }
    for (auto& x : r.subcommands())
        for (auto& d : c.cmds) if (d.name == x.name()) { add("{"); digest(s, x, d); add("}"); }
}

struct Outcome { std::string d, text; };

typedef std::string Str;
static Outcome finish(const ParsedArguments& r, const MCfg& g, int stream)
{
    Outcome o; digest(o.d, r, g.root); o.text = sym_text(stream); return o;
}

static ArgumentParser entry_parser(const MCfg& g, int stream, bool named)
{
    ArgumentParser p;
    p.auto_exit(false).stream(sym_stream(stream)).line_width(60).version("1.2");
    if (named) p.program_name("prog");
    p.option_style(g.style).ignore_undefined_arguments(g.ign_args).ignore_undefined_options(g.ign_opts)
        .allow_abbreviated_options(g.abbrev).case_insensitive(g.ci);
    if (sym_param("quiet", 1)) p.text(TextId::ERROR_USAGE, "").text(TextId::USAGE, "");
    fill(p, g.root);
    return p;
}

static ParsedArguments by_entry(ArgumentParser& p, unsigned how, const Line& t, const char* argv0)
{
    Line copy = t; std::string name = argv0;
    std::vector<char*> argv{name.data()};
    for (auto& s : copy) argv.push_back(s.data());
    argv.push_back(nullptr);
    int argc = (int)t.size() + 1;
    const ArgumentParser& c = p;
    std::unique_ptr<IArgumentView> a; std::string_view v;
    auto drain = [&](ArgumentIterator it) { size_t n = 0; auto top = it.parsed_arguments(); while (it.next(a, v)) CHECK(++n < 60, "stepping ends"); return top; };
    switch (how)
    {
    case 0: return p.parse(views(t));
    case 1: return c.parse(views(t));
    case 2: return p.parse(argc, argv.data());
    case 3: return c.parse(argc, argv.data());
    case 4: return drain(p.make_iterator(views(t)));
    case 5: return drain(c.make_iterator(views(t)));
    case 6: return drain(p.make_iterator(argc, argv.data()));
    default: return drain(c.make_iterator(argc, argv.data()));
    }
}

template <typename F> static bool throws(F f) { try { f(); } catch (const ArgosException&) { return true; } return false; }

static void check_entries(const MCfg& g, Line t, unsigned how, bool standard)
{
    if (standard && sym_flag("standard option")) t.push_back(sym_flag("help") ? (g.style == OptionStyle::SLASH ? "/?" : "-h") : g.style == OptionStyle::STANDARD ? "--version" : g.style == OptionStyle::DASH ? "-version" : "/VERSION");
    bool named = how < 2 || how == 4 || how == 5 || sym_flag("named");
    auto p = entry_parser(g, 0, true);
    auto r = by_entry(p, 0, t, "prog");
    auto x = finish(r, g, 0);
    auto q = entry_parser(g, 1, named);
    auto s = by_entry(q, how, t, named ? "zzz" : "/bin/prog");
    auto y = finish(s, g, 1);
    CHECK(x.d == y.d, "the entry points give the same result");
    CHECK(x.text == y.text, "the entry points write the same text");
    bool constant = how % 2 == 1;
    CHECK(throws([&] { (void)q.program_name(); }) == !constant, "only the consuming entry points use up the parser");
    CHECK(throws([&] { (void)q.parse(views(t)); }) == !constant, "a used parser throws");
    if (!constant)
    {
        char n[] = "x"; char* av[] = {n, nullptr};
        CHECK(throws([&] { (void)q.parse(1, av); }), "a used parser throws");
        CHECK(throws([&] { (void)q.make_iterator(1, av); }), "a used parser throws");
        CHECK(throws([&] { q.write_help_text(); }), "a used parser throws");
        CHECK(throws([&] { q.add(Argument("Q")); }), "a used parser throws");
    }
    switch (r.result_code()) { case ParserResultCode::SUCCESS: sym_reach("success"); break; case ParserResultCode::STOP: sym_reach("stop"); break; default: sym_reach("failure"); }
}

extern "C" void h_c14_entries()
{
    auto g = small_cfg();
    auto t = any_line(0, P("tokens", 2), P("len", 2));
    unsigned how = 1 + sym_pick("how", 7);
    check_entries(g, t, how, true);
}

extern "C" void h_c14_words()
{
    Line t;
    auto g = words_cfg(t);
    static const unsigned some[] = {3, 4, 7};
    unsigned how = some[sym_pick("how", 3)];
    check_entries(g, t, how, false);
}

// Every setting has the same effect in all of them.
struct WantExit { bool active = false; int code = 0; const Outcome* reference = nullptr; };
static WantExit* gExit = nullptr;
extern "C" void h_c14_settings()
{
    static const unsigned N = 18;
    unsigned one = sym_pick("setting", N), two = sym_pick("setting", N);
    sym_assume(one < two || one == 0);
    static const std::vector<Line> lines = {{}, {"--help"}, {"-x"}, {"--num", "1", "a"}, {"--nu=2", "b"}, {"-V", "a"}, {"sub", "z", "sub2"}, {"sub2", "-h"}, {"--version"}, {"a", "b", "c"}, {"sub", "-e"}, {"-v", "sub"}};
    Line t = lines[sym_pick("line", (unsigned)lines.size())];
    bool cmds = !t.empty() && (t[0].substr(0, 3) == "sub" || t.back() == "sub");
    bool exits = one == 1 || two == 1;
    Str calls[2];
    auto make = [&](int stream) {
        ArgumentParser p("prog");
        p.auto_exit(false).stream(sym_stream(stream)).line_width(70);
        for (unsigned k : {one, two})
            switch (k)
            {
            case 0: break;
            case 1: p.set_exit_codes(3, 4); if (stream == 1) p.auto_exit(true); break;
            case 2: p.line_width(24).add_word_splitting_rule("ab cdefghijklmnopqrstuv"); break;
            case 3: p.line_width(30); break;
            case 4: p.version("1.2"); break;
            case 5: p.allow_abbreviated_options(true); break;
            case 6: p.case_insensitive(true); break;
            case 7: p.ignore_undefined_options(true); break;
            case 8: p.ignore_undefined_arguments(true); break;
            case 9: p.generate_help_option(false); break;
            case 10: p.text(TextId::ERROR_USAGE, [] { return Str("Error usage."); }).text(TextId::INITIAL_TEXT, "First."); break;
            case 11: p.option_callback([&calls, stream](OptionCallbackArguments& a) { calls[stream] += a.view.flags()[0]; }); break;
            case 12: p.argument_callback([&calls, stream](ArgumentCallbackArguments& a) { calls[stream] += a.value; a.new_arguments.push_back("-v"); }); break;
            case 13: p.require_subcommand(false); break;
            case 14: p.allow_multiple_subcommands(true); break;
            case 15: p.current_section("CURRENT"); break;
            case 16: p.program_name("other"); break;
            case 17: { Command c("x"); c.text(TextId::USAGE_TITLE, "Usage:").add(Option("-y").help("Y.").initial_value("i").argument("Y").alias("y")); p.copy_from(c); break; }
            }
        p.about("aaaaaaaaaaaaaaaaaaaa abcdefghijklmnopqrstuv");
        p.add(Option("-v").help("Verbose.")).add(Option({"-n", "--num="}).argument("N").mandatory(sym_param("mandatory", 0)));
        if (cmds)
        {
            p.add(Command("sub").add(Argument("z").optional(true)).add(Option("-e").type(OptionType::EXIT))).add(Command("sub2").about("Second.").add(Argument("q").count(2).optional(true)));
        }
        else p.add(Argument("A").help("First.")).add(Argument("B").optional(true));
        return p;
    };
    MCfg g;
    g.root.opts = {mo({"-v"}), mo({"-n"}, "N")};
    if (one == 17 || two == 17) g.root.opts.push_back(mo({"-y"}, "Y"));
    if (cmds) { g.root.cmds = {sub("sub"), sub("sub2")}; g.root.cmds[0].args = {ma("z", 0, 1)}; g.root.cmds[1].args = {ma("q", 0, 2)}; }
    else g.root.args = {ma("A", 1, 1), ma("B", 0, 1)};
    auto p = make(0);
    auto r = by_entry(p, 0, t, "zzz");
    auto x = finish(r, g, 0);
    x.d += calls[0];
    auto q = make(1);
    bool again = sym_flag("again");
    unsigned how = again ? 1 + 2 * sym_pick("how", 4) : 1 + sym_pick("how", 7);
    if (again && exits) return;
    WantExit w; gExit = &w;
    if (again) { (void)by_entry(q, how, {"-v"}, "zzz"); calls[1].clear(); }
    size_t mark = sym_text(1).size();
    bool ends = exits && (r.result_code() == ParserResultCode::FAILURE || (r.result_code() == ParserResultCode::STOP && r.stop_option().type() != OptionType::STOP));
    w.code = r.result_code() == ParserResultCode::FAILURE ? 3 : 4; w.reference = &x; w.active = ends;
    auto s = by_entry(q, how, t, "zzz");
    w.active = false; gExit = nullptr;
    CHECK(!ends, "the process ends with every entry point");
    auto y = finish(s, g, 1);
    y.d += calls[1];
    CHECK(x.d == y.d, "the entry points give the same result");
    CHECK(x.text == y.text.substr(mark), "the entry points write the same text");
    sym_reach("end");
}

// The missing program name is the last part of argv[0].
extern "C" void h_c14_name()
{
    MCfg g; g.root.args = {ma("A", 0, 1)};
    Str path = sym_string_upto("path", 0, P("len", 4));
    for (char c : path) sym_assume((c > 32) & (c < 127));
    bool named = sym_flag("named");
    auto p = entry_parser(g, 0, named);
    unsigned how = 2 + 4 * sym_pick("iterate", 2) + sym_pick("const", 2);
    auto r = by_entry(p, how, {}, path.c_str());
    Str name = path;
    for (size_t i = 0; i < path.size(); i++) if (path[i] == '/' || path[i] == '\\') name = path.substr(i + 1);
    if (named) CHECK(r.name() == "prog", "a name that was given is kept");
    else if (!path.empty()) CHECK(r.name() == name, "the program name is the last part of the path");
    sym_reach("end");
}

// argc below 1: refused, or the same as no arguments; argv isn't touched
extern "C" void h_c14_no_argv()
{
    auto g = small_cfg();
    if (sym_flag("no arguments")) g.root.args.clear();
    if (sym_flag("no options")) g.root.opts.clear();
    auto p = entry_parser(g, 0, true), q = entry_parser(g, 1, true);
    auto r = by_entry(p, sym_flag("iterate") ? 4 : 0, {}, "prog");
    auto x = finish(r, g, 0);
    int argc = sym_flag("negative") ? -1 : 0;
    char* none[] = {nullptr};
    char** argv = sym_flag("null") ? nullptr : none;
    const ArgumentParser& c = q;
    try
    {
        std::unique_ptr<IArgumentView> a; std::string_view v;
        auto drain = [&](ArgumentIterator it) { size_t n = 0; auto top = it.parsed_arguments(); while (it.next(a, v)) CHECK(++n < 60, "stepping ends"); return top; };
        unsigned how = sym_pick("how", 4);
        auto s = how == 0 ? q.parse(argc, argv) : how == 1 ? c.parse(argc, argv) : how == 2 ? drain(q.make_iterator(argc, argv)) : drain(c.make_iterator(argc, argv));
        auto y = finish(s, g, 1);
        CHECK(x.d == y.d, "no argv is the same as no arguments");
        CHECK(x.text == y.text, "no argv writes the same text as no arguments");
        sym_reach("parsed");
    }
    catch (const ArgosException&) { sym_reach("refused"); CHECK(sym_text(1).empty(), "nothing is written"); }
}

// parsing again with the const forms
extern "C" void h_c14_repeat()
{
    auto g = small_cfg();
    auto t = any_line(1, P("tokens", 2), P("len", 2));
    Line other{"-v", "x"};
    unsigned a = 1 + 2 * sym_pick("first", 4), b = 1 + 2 * sym_pick("second", 4);
    auto p = entry_parser(g, 0, true);
    auto q = entry_parser(g, 1, true);
    (void)by_entry(p, a, other, "prog");
    if (sym_flag("help between")) p.write_help_text();
    size_t mark = sym_text(0).size();
    auto r1 = by_entry(p, b, t, "prog");
    auto r2 = by_entry(q, b, t, "prog");
    std::string d1, d2; digest(d1, r1, g.root); digest(d2, r2, g.root);
    CHECK(d1 == d2, "parsing again gives the same result");
    CHECK(sym_text(0).substr(mark) == sym_text(1), "parsing again writes the same text");
    (void)by_entry(p, a, other, "prog");
    std::string d3; digest(d3, r1, g.root);
    CHECK(d1 == d3, "a result isn't changed by parsing again");
    ArgumentParser moved(std::move(p));
    CHECK(throws([&] { (void)p.parse(views(t)); }), "a moved-from parser throws");
    auto r4 = by_entry(moved, 0, t, "prog");
    std::string d4; digest(d4, r4, g.root);
    CHECK(d1 == d4, "a moved parser gives the same result");
    sym_reach("end");
}

// ------------------------------------------------------------------ C25
static void check_calls(const MCfg& g, const Line& t)
{
    auto m = run(g, t);
    bool k1 = m.ignored_group && sym_param("known_K1", 0);
    if (k1) m = run(g, t, true);
    ArgumentParser p("prog");
    p.auto_exit(false).generate_help_option(false).stream(sym_stream(0)).text(TextId::ERROR_USAGE, "");
    p.option_style(g.style).ignore_undefined_arguments(g.ign_args).ignore_undefined_options(g.ign_opts)
        .allow_abbreviated_options(g.abbrev).case_insensitive(g.ci);
    size_t calls = 0;                         // two for every occurrence
    auto seen_opt = [&](OptionCallbackArguments& a, bool wide)
    {
        while (calls / 2 < m.steps.size()) { auto k = m.steps[calls / 2].kind; if (k == 'O' || k == 'A') break; calls += 2; }
        CHECK(calls / 2 < m.steps.size(), "an additional callback");
        CHECK((calls & 1) == (wide ? 1u : 0u), "its own callback first, then the parser's");
        auto& s = m.steps[calls / 2];
        CHECK(s.kind == 'O' && opt_is(a.view, *(const MOpt*)s.what), "the callback's option");
        CHECK(a.value == s.value, "the callback's value");
        auto& o = *(const MOpt*)s.what;
        if (o.op == Op::ASSIGN || o.op == Op::APPEND)
        {
            auto now = a.builder.values(a.view).raw_values();
            CHECK(!now.empty() && now.back() == (o.arg.empty() ? std::string_view(a.view.constant()) : std::string_view(s.value)), "the value is stored before the callback");
        }
        if (o.op == Op::CLEAR) CHECK(!a.builder.has(a.view), "the values are cleared before the callback");
        calls++;
    };
    auto seen_arg = [&](ArgumentCallbackArguments& a, bool wide)
    {
        while (calls / 2 < m.steps.size()) { auto k = m.steps[calls / 2].kind; if (k == 'O' || k == 'A') break; calls += 2; }
        CHECK(calls / 2 < m.steps.size(), "an additional callback");
        CHECK((calls & 1) == (wide ? 1u : 0u), "its own callback first, then the parser's");
        auto& s = m.steps[calls / 2];
        CHECK(s.kind == 'A' && a.view.name() == ((const MArg*)s.what)->name, "the callback's argument");
        CHECK(a.value == s.value, "the callback's value");
        auto now = a.builder.values(a.view.name()).raw_values();
        CHECK(!now.empty() && now.back() == s.value, "the value is stored before the callback");
        calls++;
    };
    std::function<Command(const MCmd&)> mk;
    auto fillcb = [&](auto& x, const MCmd& c)
    {
        for (auto& o : c.opts) { auto k = make_option(o); k.callback([&](OptionCallbackArguments& a) { seen_opt(a, false); }); x.add(k); }
        for (auto& o : c.args) { auto k = make_argument(o); k.callback([&](ArgumentCallbackArguments& a) { seen_arg(a, false); }); x.add(k); }
        for (auto& s : c.cmds) x.add(mk(s));
        x.allow_multiple_subcommands(c.multi);
        if (c.require >= 0) x.require_subcommand(c.require != 0);
    };
    mk = [&](const MCmd& c) { Command k(c.name); fillcb(k, c); return k; };
    fillcb(p, g.root);
    p.option_callback([&](OptionCallbackArguments& a) { seen_opt(a, true); });
    p.argument_callback([&](ArgumentCallbackArguments& a) { seen_arg(a, true); });
    auto r = p.parse(views(t));
    compare(m, r);
    while (calls / 2 < m.steps.size()) { auto k = m.steps[calls / 2].kind; if (k == 'O' || k == 'A') break; calls += 2; }
    CHECK(calls == 2 * m.steps.size(), "a missing callback");
    reach(m);
    if (calls > 2) sym_reach("several callbacks");
}

extern "C" void h_c25_calls()
{
    auto g = small_cfg();
    auto t = any_line(0, P("tokens", 3), P("len", 2));
    check_calls(g, t);
}

extern "C" void h_c25_words()
{
    Line t;
    auto g = words_cfg(t);
    check_calls(g, t);
}

// arguments inserted by callbacks, and changes made through the builder
extern "C" void h_c25_insert()
{
    MCfg g;
    g.style = (OptionStyle)sym_pick("style", 3);
    std::string x(1, g.prefix());
    Line ins;
    unsigned n = 1 + sym_pick("inserted", P("inserted", 2));
    for (unsigned i = 0; i < n; i++) { ins.push_back(sym_string_upto("ins", 0, 2)); sym_assume(ins[i].size() < 2 || ins[i][0] != g.prefix() || ins[i][1] != 'i'); }
    g.root.opts = {mo({x + "v"}, "", Op::APPEND), mo({x + "n"}, "N", Op::APPEND), mo({x + "i"}, sym_flag("with_arg") ? "I" : "", Op::NONE, (Ty)(sym_flag("special") ? 2 + sym_pick("type", 4) : 0))};
    g.root.opts[2].inserts = ins;
    g.root.opts[2].parser_wide = sym_flag("parser-wide");
    switch (sym_pick("arguments", 4))
    {
    case 0: g.root.args = {ma("A", 0, 2)}; break;
    case 1: g.root.args = {ma("A", 1, 1), ma("B", 0, 2)}; break;
    case 2: g.ign_args = true; g.root.args = {ma("A", 0, 1)}; break;
    case 3: g.root.args = {ma("A", 0, 1), ma("B", 1, 1)}; break;
    }
    Line t;
    if (sym_flag("before")) t.push_back("b");
    t.push_back(sym_flag("group") ? x + "i" + sym_string("rest", 1) : x + "i");
    sym_assume(t.back().size() < 3 || t.back()[2] != '-');
    if (sym_flag("after")) t.push_back(sym_string_upto("tok", 0, 2));
    check_line(g, t);
}

extern "C" void h_c25_argument_insert()
{
    MCfg g;
    Line ins{sym_string_upto("ins", 0, 2)};
    sym_assume(ins[0] != "-n");
    g.root.opts = {mo({"-v"}, "", Op::APPEND), mo({"-n"}, "N", Op::APPEND), mo({"-l"}, "", Op::NONE, Ty::LAST_OPTION)};
    g.root.args = {ma("A", 1, 1), ma("B", 0, 2)};
    g.root.args[0].inserts = ins;
    g.root.args[0].parser_wide = sym_flag("parser-wide");
    g.ign_args = sym_flag("ign_args");
    auto t = any_line(1, P("tokens", 2), 2);
    check_line(g, t);
}

// Every way of reading a value through the builder gives the same.
static std::string source_of(const ArgumentValue& v)
{
    auto a = v.argument();
    if (!a) return "none";
    if (auto o = dynamic_cast<const OptionView*>(a.get())) return o->flags()[0];
    if (auto x = dynamic_cast<const ArgumentView*>(a.get())) return x->name();
    return "?";
}

static void builder_agrees(const ParsedArgumentsBuilder& b, const std::string& name, const IArgumentView* view)
{
    auto all = b.values(name).raw_values();
    CHECK(b.has(name) == !all.empty(), "the builder's has and values agree");
    if (all.size() < 2)
    {
        auto v = b.value(name);
        CHECK(v.as_string("none") == (all.empty() ? "none" : std::string(all[0])), "the builder's value and values agree");
        if (!all.empty()) CHECK(source_of(v) == source_of(b.values(name).value(0)), "the origin of the builder's value");
    }
    if (!view) return;
    auto same = b.values(*view).raw_values();
    CHECK(b.has(*view) == !all.empty() && same.size() == all.size(), "the builder's values by name and view");
    for (size_t i = 0; i < all.size(); i++) CHECK(all[i] == same[i], "the builder's values by name and view");
    if (all.size() != 1) return;
    auto v = b.value(*view);
    CHECK(v.as_string() == all[0], "the builder's value by name and view");
    CHECK(source_of(v) == source_of(b.values(name).value(0)), "the origin of the builder's value");
}

extern "C" void h_c25_builder()
{
    MCfg g;
    g.root.opts = {mo({"-a"}, "A", Op::APPEND), mo({"-b"}, "B"), mo({"-c"}, "", Op::NONE), mo({"-d"}, "D", Op::APPEND), mo({"-e"}, "", Op::ASSIGN)};
    g.root.args = {ma("F", 0, 2)};
    g.root.opts[4].alias = "F";
    Line t;
    unsigned n = P("occ", 3);
    bool used[6] = {};
    for (unsigned i = 0; i < n; i++)
    {
        unsigned k = sym_pick("which", 6);
        used[k] = true;
        switch (k)
        {
        case 0: t.push_back("-a"); t.push_back(sym_string_upto("v", 0, 1)); break;
        case 1: t.push_back("-b"); t.push_back(sym_string("v", 1)); break;
        case 2: t.push_back("-c"); break;
        case 3: t.push_back("-d"); t.push_back(sym_string("v", 1)); break;
        case 4: t.push_back("-e"); break;
        case 5: t.push_back(sym_string("v", 1)); break;
        }
    }
    for (size_t i = 2; i < 5; i++) if (used[i]) { g.root.opts[i].effect = 1 + (int)sym_pick("effect", 3); g.root.opts[i].target = sym_pick("target", 3); }
    if (sym_flag("mandatory")) g.root.opts[0].mandatory = true;
    for (size_t i = 3; i < 5; i++) if (used[i]) g.root.opts[i].by_view = sym_flag("view");
    ArgumentParser p("prog");
    p.auto_exit(false).generate_help_option(false).stream(sym_stream(0)).text(TextId::ERROR_USAGE, "");
    for (auto& o : g.root.opts)
    {
        auto k = make_option(o);
        if (o.effect)
        {
            std::string name = o.target == 0 ? "F" : g.root.opts[o.target - 1].flags[0];
            int e = o.effect;
            bool by_view = o.by_view, none = o.op == Op::NONE;
            if (by_view) name = o.flags[0];
            std::string own = o.flags[0];
            k.callback([=](OptionCallbackArguments& a)
            {
                auto& b = a.builder;
                const char* x = "by callback";
                if (by_view) { if (e == 1) b.append(a.view, x); else if (e == 2) b.assign(a.view, x); else b.clear(a.view); }
                else if (e == 1) b.append(name, x);
                else if (e == 2) b.assign(name, x);
                else b.clear(name);
                CHECK(b.has(name) == (e != 3), "the builder's changes are visible");
                builder_agrees(b, name, nullptr);
                if (!none) builder_agrees(b, own, &a.view);
            });
        }
        p.add(k);
    }
    p.add(make_argument(g.root.args[0]));
    auto m = run(g, t);
    auto r = p.parse(views(t));
    compare(m, r);
    reach(m);
}

// ------------------------------------------------------------------ C23
struct Expect
{
    bool active = false, custom_stream = false, auto_exit = false, help = false, version = false, custom_usage = false;
    int error_code = 0, normal_code = 0;
    Fault fault = Fault::NONE;
    bool no_usage = false;                                // an empty usage text
    std::string full_name, culprit, usage, help_text;
};
static Expect* gExpect;

static bool has_sub(const std::string& s, const std::string& x) { return s.find(x) != std::string::npos; }

static void check_output()
{
    auto& e = *gExpect;
    std::string a = sym_text(0), out = sym_stdout(), err = sym_stderr();
    if (e.fault == Fault::NONE && !e.help && !e.version)
    {
        CHECK(a.empty() && out.empty() && err.empty(), "nothing is written without errors and help requests");
        sym_reach("silent");
        return;
    }
    bool to_err = e.fault != Fault::NONE;
    const std::string& t = e.custom_stream ? a : to_err ? err : out;
    CHECK(e.custom_stream || a.empty(), "the other stream is unused");
    CHECK(out.empty() || (!e.custom_stream && !to_err), "standard output is unused");
    CHECK(err.empty() || (!e.custom_stream && to_err), "standard error is unused");
    if (e.help) { CHECK(t == e.help_text, "a help request writes the help text of the current command"); sym_reach("help"); return; }
    if (e.version) { CHECK(t == "prog 1.2\n", "a version request writes the program name and the version"); sym_reach("version"); return; }
    size_t nl = t.find('\n');
    CHECK(nl != std::string::npos, "the error message is a line");
    std::string line = t.substr(0, nl), rest = t.substr(nl + 1);
    CHECK(line.substr(0, e.full_name.size() + 2) == e.full_name + ": ", "the error message starts with the full name of the command at fault");
    CHECK(line.size() > e.full_name.size() + 2, "there is an error message");
    CHECK(has_sub(line.substr(e.full_name.size() + 1), e.culprit), "the error message names the token or item");
    CHECK(rest == e.usage, "the error message is followed by the usage of the command at fault");
    sym_reach(e.custom_usage ? "custom usage" : "usage");
}

extern "C" void sym_on_exit(int code)
{
    if (gExit)
    {
        CHECK(gExit->active, "exit only with auto_exit and after an error, a help or an exit request");
        CHECK(code == gExit->code, "exit code");
        CHECK(gExit->reference->text == sym_text(1), "the entry points write the same text");
        sym_reach("exit");
        return;
    }
    if (!gExpect || !gExpect->active) return;
    auto& e = *gExpect;
    CHECK(e.auto_exit, "exit only with auto_exit");
    CHECK(e.fault != Fault::NONE || e.help, "exit only after an error or a help or exit request");
    CHECK(code == (e.fault != Fault::NONE ? e.error_code : e.normal_code), "exit code");
    check_output();
    sym_reach("exit");
}

static ArgumentParser out_parser(const MCfg& g, const Expect& e, bool quiet = false)
{
    ArgumentParser p("prog");
    p.auto_exit(e.auto_exit).line_width(2000).version("1.2").set_exit_codes(e.error_code, e.normal_code).generate_help_option(false);
    if (e.custom_stream) p.stream(sym_stream(0));
    p.option_style(g.style).ignore_undefined_arguments(g.ign_args).ignore_undefined_options(g.ign_opts);
    if (e.custom_usage) p.text(TextId::ERROR_USAGE, e.usage.empty() && e.no_usage ? "" : "Usage text.");
    if (quiet) p.text(TextId::ERROR_USAGE, "").text(TextId::USAGE, "");
    fill(p, g.root);
    return p;
}

extern "C" void h_c23_parse()
{
    MCfg g;
    Expect e; gExpect = &e;
    switch (sym_pick("shape", 3))
    {
    case 0:
        g.root.opts = {mo({"-v"}), mo({"-n", "--num"}, "N", sym_flag("append") ? Op::APPEND : Op::ASSIGN), mo({"-h"}, "", Op::ASSIGN, Ty::HELP), mo({"-s"}, "", Op::ASSIGN, Ty::STOP), mo({"--version"}, "", Op::ASSIGN, Ty::STOP)};
        g.root.args = {ma("A", 0, 1), ma("B", 1, 1)};
        if (sym_flag("mandatory")) g.root.opts[1].mandatory = true;
        break;
    case 1:
        g.style = OptionStyle::SLASH;
        g.root.opts = {mo({"/v"}), mo({"/e"}, "", Op::ASSIGN, Ty::EXIT), mo({"/l"}, "", Op::ASSIGN, Ty::LAST_OPTION)};
        g.root.args = {ma("A", 1, 2)};
        break;
    case 2:
        g.root.multi = sym_flag("multi");
        g.root.opts = {mo({"-v"}), mo({"-h"}, "", Op::ASSIGN, Ty::HELP)};
        g.root.cmds = {sub("a"), sub("b")};
        g.root.cmds[0].opts = {mo({"-v"}, "V"), mo({"-h"}, "", Op::ASSIGN, Ty::HELP)};
        g.root.cmds[0].args = {ma("F", 1, 2)};
        g.root.cmds[1].cmds = {sub("c")};
        g.root.cmds[1].opts = {mo({"-m"})}; g.root.cmds[1].opts[0].mandatory = true;
        g.root.cmds[1].cmds[0].opts = {mo({"-q"}, "", Op::ASSIGN, Ty::EXIT)};
        break;
    }
    e.auto_exit = sym_flag("auto_exit");
    e.custom_stream = sym_flag("stream");
    e.error_code = 3; e.normal_code = 4;
    e.custom_usage = !e.auto_exit;
    Line t = any_line(0, P("tokens", 2), P("len", 2));
    for (auto& s : t) for (char c : s) sym_assume((c > 32) & (c < 127));
    if (sym_flag("enter")) t.insert(t.begin(), g.root.cmds.empty() ? "--version" : "b");
    auto m = run(g, t);
    e.fault = m.fault; e.culprit = m.culprit;
    std::vector<const MCmd*> path;
    if (m.at) { for (auto c : m.at_path) e.full_name += (e.full_name.empty() ? "prog" : " " + c->name); path = m.at_path; }
    if (m.stop && (m.stop->type == Ty::HELP || m.stop->type == Ty::EXIT)) e.help = true;
    // the usage and the help text come from write_subcommand_help_text
    bool exit_only = m.stop && m.stop->type == Ty::EXIT;
    if (!m.at && m.stop)
    {
        // the innermost command when the option was found
        for (const MCmd* c = m.help_for; c;)
        {
            if (c == &g.root) path = {c};
            else { for (auto& x : g.root.cmds) { if (&x == c) path = {&g.root, c}; for (auto& y : x.cmds) if (&y == c) path = {&g.root, &x, c}; } }
            break;
        }
    }
    std::vector<std::string> names;
    for (size_t i = 1; i < path.size(); i++) names.push_back(path[i]->name);
    if ((m.at || m.help_for) && !exit_only)
    {
        auto h = out_parser(g, e);
        h.stream(sym_stream(1));
        h.write_subcommand_help_text(names);
        e.help_text = sym_text(1);
        // the usage ends with an empty line or the text
        size_t k = e.help_text.find("\n\n");
        e.usage = k == std::string::npos ? e.help_text : e.help_text.substr(0, k + 1);
        if (e.custom_usage && path.size() == 1) e.usage = "Usage text.\n";
        if (path.size() != 1) e.custom_usage = false;
    }
    e.active = true;
    auto p = out_parser(g, e);
    if (exit_only) { e.help_text.clear(); }
    auto r = p.parse(views(t));
    CHECK(!e.auto_exit || (m.code != ParserResultCode::FAILURE && !e.help), "auto_exit ends the process after an error, a help or an exit request");
    CHECK(r.result_code() == m.code, "result code");
    if (exit_only) e.help = false;
    check_output();
    reach(m);
    gExpect = nullptr;
}

// exit and help requests and versions generated by the parser
extern "C" void h_c23_standard()
{
    Expect e; gExpect = &e;
    e.auto_exit = sym_flag("auto_exit");
    e.custom_stream = sym_flag("stream");
    e.error_code = (int)sym_pick("error", 3); e.normal_code = (int)sym_pick("normal", 3) + 5;
    OptionStyle st = (OptionStyle)sym_pick("style", 3);
    bool in_sub = sym_flag("sub");
    auto mk = [&](bool text) {
        ArgumentParser p("prog");
        p.auto_exit(e.auto_exit).version("1.2").set_exit_codes(e.error_code, e.normal_code).option_style(st).line_width(70);
        if (text) p.stream(sym_stream(1)); else if (e.custom_stream) p.stream(sym_stream(0));
        if (in_sub) { Command c("sub"); c.about("About sub."); p.add(c); } else p.add(Argument("FILE").optional(true));
        return p;
    };
    static const char* help[] = {"-h", "/?", "-h"};
    static const char* version[] = {"--version", "/VERSION", "-version"};
    bool ask_help = sym_flag("help");
    Line t;
    if (in_sub && ask_help) t.push_back("sub");
    if (ask_help && st == OptionStyle::STANDARD && sym_flag("long")) t.push_back("--help");
    else t.push_back(ask_help ? help[(int)st] : version[(int)st]);
    t.push_back(sym_string_upto("after", 0, 2));
    (ask_help ? e.help : e.version) = true;
    { auto h = mk(true); if (in_sub && ask_help) h.write_subcommand_help_text({"sub"}); else h.write_help_text(); e.help_text = sym_text(1); }
    CHECK(has_sub(e.help_text, in_sub && ask_help ? "prog sub" : "prog"), "the help text holds the full name");
    e.active = true;
    auto p = mk(false);
    auto r = p.parse(views(t));
    CHECK(!(e.auto_exit && ask_help), "a help request ends the process");
    CHECK(r.result_code() == ParserResultCode::STOP, "result code");
    auto un = (in_sub && ask_help ? r.subcommands().at(0) : r).unprocessed_arguments();
    CHECK(un.size() == 1 && un[0] == t.back(), "what follows is unprocessed");
    check_output();
    gExpect = nullptr;
}

// errors reported by the client
extern "C" void h_c23_client()
{
    Expect e; gExpect = &e;
    e.auto_exit = sym_flag("auto_exit");
    e.custom_stream = sym_flag("stream");
    e.custom_usage = true;
    e.error_code = 7;
    MCfg g;
    unsigned nf = 1 + sym_pick("flags", 4);
    std::vector<std::string> flags{"-n", "--num", "--number", "-N"}; flags.resize(nf);
    std::string label; for (auto& f : flags) label += (label.empty() ? "" : ", ") + f;
    g.root.opts = {mo(flags, "N", sym_flag("append") ? Op::APPEND : Op::ASSIGN)};
    g.root.args = {ma("FILE", 1, 1)};
    std::string v = sym_string_upto("v", 1, P("len", 3));
    for (char c : v) sym_assume((c > 32) & (c < 127));
    e.no_usage = sym_flag("empty usage");
    e.full_name = "prog"; e.usage = e.no_usage ? "" : "Usage text.\n";
    unsigned where = sym_pick("where", 7);
    bool from_callback = where == 3 || where == 6;
    auto p = out_parser(g, e);
    if (from_callback) p.option_callback([where](OptionCallbackArguments& a) { if (where == 3) a.builder.error("Bad thing.", a.view); else a.builder.error("Bad thing."); });
    Line t{"-n", v, "f"};
    bool threw = false;
    e.fault = Fault::UNKNOWN_OPTION;
    if (from_callback)
    {
        e.active = true; e.culprit = where == 3 ? label + ": Bad thing." : " Bad thing.";
        try { (void)p.parse(views(t)); } catch (const ArgosException&) { threw = true; }
    }
    else
    {
        auto r = p.parse(views(t));
        CHECK(r.result_code() == ParserResultCode::SUCCESS, "result code");
        e.active = true;
        try
        {
            switch (where)
            {
            case 0: e.culprit = label + ": Invalid value: " + v; r.value("-n").error(); break;
            case 1: e.culprit = "FILE: Bad file."; r.value("FILE").error("Bad file."); break;
            case 2: e.culprit = "Bad line."; r.error("Bad line."); break;
            case 4: e.culprit = "Bad list."; r.values("-n").error("Bad list."); break;
            case 5: e.culprit = "FILE: Invalid value: f"; (void)r.value("FILE").as_int(); break;
            }
        }
        catch (const ArgosException&) { threw = true; }
    }
    CHECK(threw && !e.auto_exit, "an error throws exactly when auto_exit is off");
    check_output();
    gExpect = nullptr;
}

// ------------------------------------------------------------------ C01
static ArgumentParser everything(OptionStyle st, unsigned width)
{
    ArgumentParser p("prog");
    std::string x(1, st == OptionStyle::SLASH ? '/' : '-'), d = st == OptionStyle::STANDARD ? "--" : x;
    p.auto_exit(false).stream(sym_stream(0)).line_width(width).option_style(st).version("2");
    p.add(Option().flags({x + "v", d + "verb"}).operation(OptionOperation::APPEND).constant("1"));
    p.add(Option().flags({x + "n", d + "num="}).argument("N").help("A number."));
    p.add(Option().flags({x + "c"}).operation(OptionOperation::CLEAR).alias(x + "n"));
    p.add(Option().flags({d + "last"}).type(OptionType::LAST_ARGUMENT));
    p.add(Option().flags({x + "l"}).type(OptionType::LAST_OPTION));
    p.add(Option().flags({x + "e"}).type(OptionType::EXIT).argument("E"));
    return p;
}

extern "C" void h_c01_lines()
{
    OptionStyle st = (OptionStyle)sym_pick("style", 3);
    auto p = everything(st, 40);
    p.text(TextId::USAGE, "").text(TextId::ERROR_USAGE, "");
    unsigned mode = sym_pick("mode", 6);
    p.allow_abbreviated_options(mode & 1).case_insensitive(mode & 1);
    if (mode & 2) p.ignore_undefined_options(true).ignore_undefined_arguments(true);
    if (mode & 4)
    {
        Command a("a"), b("b");
        a.add(Argument("F").count(0, 2)).add(Option({"-x"}).argument("X"));
        b.add(Command("c"));
        if (st != OptionStyle::STANDARD) a = Command("a").add(Argument("F").count(0, 2));
        p.add(a).add(b).allow_multiple_subcommands(true);
    }
    else
        p.add(Argument("A").optional(true)).add(Argument("B").count(1, 2));
    auto t = any_line(0, P("tokens", 2), P("len", 3));
    auto r = p.parse(views(t));
    auto ok = [](const ParsedArguments& x) { return x.result_code() == ParserResultCode::SUCCESS || x.result_code() == ParserResultCode::STOP || x.result_code() == ParserResultCode::FAILURE; };
    CHECK(ok(r), "result code");
    size_t depth = 0;
    for (auto s = r.subcommands(); !s.empty(); s = s.back().subcommands()) { for (auto& q : s) CHECK(ok(q), "result code of a sub-command"); CHECK(++depth < 5, "depth"); }
    switch (r.result_code()) { case ParserResultCode::SUCCESS: sym_reach("success"); break; case ParserResultCode::STOP: sym_reach("stop"); break; default: sym_reach("failure"); }
    sym_obs((unsigned)r.result_code());
}

// error messages that quote any bytes, at any line width
extern "C" void h_c01_messages()
{
    static const unsigned widths[] = {3, 5, 8, 20, 0};
    auto p = everything(OptionStyle::STANDARD, widths[sym_pick("width", 5)]);
    sym_set_console_width(sym_pick("console", 2) ? 12 : 0);
    p.text(TextId::ERROR_USAGE, "");
    Line t{sym_flag("option") ? "--" + sym_string_upto("tail", 0, P("len", 4)) : sym_string_upto("tok", 0, P("len", 4))};
    auto r = p.parse(views(t));
    CHECK(r.result_code() != ParserResultCode::NONE, "result code");
    sym_obs_str(sym_text(0));
    if (r.result_code() == ParserResultCode::FAILURE) sym_reach("failure");
}

// the complete help text and usage at any line width
extern "C" void h_c01_help()
{
    unsigned w = sym_u8("width", 3, P("maxwidth", 90));
    auto p = everything((OptionStyle)sym_pick("style", 3), (unsigned)sym_fix(w));
    p.about("About " + sym_string_upto("about", 0, P("len", 2)));
    p.text(TextId::FINAL_TEXT, "Final-text ends.");
    if (sym_flag("sub")) p.add(Command("sub").help("A command.").add(Argument("X")));
    else p.add(Argument("FILE").count(0, 3).help("Files."));
    p.write_help_text();
    CHECK(!sym_text(0).empty(), "there is a help text");
    sym_obs_str(sym_text(0));
    sym_reach("end");
}
