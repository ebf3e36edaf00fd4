// Definitions and the help text made from them (C22, C24, C27).
#include "model.hpp"
using namespace model;
typedef std::string Str;
typedef std::vector<Str> Line;
static unsigned P(const char* n, int d) { return (unsigned)sym_param(n, d); }

// ------------------------------------------------------------------ C22
// What a help text must consist of: words, some of which start a line. A
// heading is not indented more than what follows it.
struct Word { Str text; bool first = false; };
struct Page
{
    std::vector<Word> words;
    void line(const Str& s) { words_of(s, true); }
    void more(const Str& s) { words_of(s, false); }
    void words_of(const Str& s, bool first)
    {
        Str w;
        for (size_t i = 0; i <= s.size(); i++)
        {
            if (i < s.size() && s[i] != ' ') { w += s[i]; continue; }
            if (!w.empty()) { words.push_back({w, first}); first = false; }
            w.clear();
        }
    }
};
static void check_page(const Page& want, const Str& got, size_t skip_lines = 0)
{
    size_t i = 0, n = 0;
    while (skip_lines && i < got.size()) if (got[i++] == '\n') skip_lines--;
    bool first = true;
    while (i < got.size())
    {
        if (got[i] == '\n') { first = true; i++; continue; }
        if (got[i] == ' ') { i++; continue; }
        size_t b = i;
        while (i < got.size() && got[i] != ' ' && got[i] != '\n') i++;
        if (n >= want.words.size()) { CHECK(false, "more text than expected"); return; }
        CHECK(std::string_view(got).substr(b, i - b) == want.words[n].text, "the expected text");
        if (want.words[n].first) CHECK(first, "starts a new line");
        first = false; n++;
    }
    CHECK(n == want.words.size(), "all of the text");
}

struct Def                                               // an argument, a command or an option
{
    enum Kind { ARG, CMD, OPT } kind = ARG;
    Str name;                                            // argument and command
    unsigned lo = 1, hi = 1;
    std::vector<Str> flags; Str arg; OptionType type = OptionType::NORMAL; bool mandatory = false;
    Visibility vis = Visibility::NORMAL;
    Str section, help;
    bool in_usage() const { return ((unsigned)vis & 1) != 0; }
    bool in_list() const { return ((unsigned)vis & 2) != 0; }
    bool stop() const { return kind == OPT && (type == OptionType::HELP || type == OptionType::STOP || type == OptionType::EXIT); }
};
static Str angled(const Str& s) { return s[0] == '<' ? s : "<" + s + ">"; }
static Str argument_text(const Def& d)
{
    if (d.name[0] == '<' || d.name[0] == '[') return d.name;
    Str s;
    for (unsigned i = 0; i < d.lo; i++) s += " <" + d.name + ">";
    if (d.hi > d.lo) s += " [<" + d.name + ">]";
    if (d.hi > d.lo + 1) s += "...";
    return s;
}
static Str flag_text(const Def& d, const Str& f) { return d.arg.empty() ? f : f + (f.back() == '=' ? "" : " ") + angled(d.arg); }
static Str list_name(const Def& d)
{
    if (d.kind == Def::ARG) return argument_text(d);
    if (d.kind == Def::CMD) return d.name;
    Str s;
    for (auto& f : d.flags) s += (s.empty() ? "" : ", ") + flag_text(d, f);
    return s;
}
static Str usage_name(const Def& d)
{
    if (d.kind != Def::OPT) return list_name(d);
    if (d.stop())
    {
        for (auto& f : d.flags) if (f.size() > 2) return flag_text(d, f);
        return flag_text(d, d.flags[0]);
    }
    Str s = flag_text(d, d.flags[0]);
    return d.mandatory ? s : "[" + s + "]";
}
struct Txt { bool set = false; Str text; bool empty() const { return text.empty(); } };
struct Help
{
    Str full_name = "prog";
    std::vector<Def> defs;                               // in definition order
    bool require = true;                                 // a sub-command
    Txt initial, usage_title, usage, about, help, arguments, commands, options, final;
};
static void expect_usage(Page& p, const Help& h)
{
    if (h.usage.set && h.usage.empty()) return;
    p.line(h.usage_title.set ? h.usage_title.text : "USAGE");
    if (h.usage.set) { p.line(h.usage.text); return; }
    for (auto& d : h.defs) if (d.stop() && d.in_usage()) p.line(h.full_name + " " + usage_name(d));
    p.line(h.full_name);
    for (auto& d : h.defs) if (d.kind == Def::OPT && !d.stop() && d.in_usage()) p.more(usage_name(d));
    for (auto& d : h.defs) if (d.kind == Def::ARG && d.in_usage()) p.more(usage_name(d));
    Str c; bool any = false;
    for (auto& d : h.defs) if (d.kind == Def::CMD) { any = true; if (d.in_usage()) c += (c.empty() ? "" : "|") + d.name; }
    if (any) p.more(h.require ? c : "[" + c + "]");
}
static Page expect_page(const Help& h)
{
    Page p;
    p.line(h.initial.text);
    expect_usage(p, h);
    p.line(h.about.empty() ? h.help.text : h.about.text);
    std::vector<Str> titles; std::vector<std::vector<const Def*>> lists;
    static const Def::Kind order[] = {Def::ARG, Def::CMD, Def::OPT};
    for (auto k : order)
        for (auto& d : h.defs)
        {
            if (d.kind != k || !d.in_list()) continue;
            Str s = d.section;
            if (s.empty())
            {
                const Txt& t = k == Def::ARG ? h.arguments : k == Def::CMD ? h.commands : h.options;
                s = t.set ? t.text : k == Def::ARG ? "ARGUMENTS" : k == Def::CMD ? "COMMANDS" : "OPTIONS";
            }
            size_t i = 0;
            while (i < titles.size() && titles[i] != s) i++;
            if (i == titles.size()) { titles.push_back(s); lists.emplace_back(); }
            lists[i].push_back(&d);
        }
    for (size_t i = 0; i < titles.size(); i++)
    {
        p.line(titles[i]);
        for (auto d : lists[i]) { p.line(list_name(*d)); p.more(d->help); }
    }
    p.line(h.final.text);
    return p;
}
template <typename T> static void add_def(T& p, const Def& d)
{
    if (d.kind == Def::ARG) { Argument a(d.name); a.count(d.lo, d.hi).visibility(d.vis).section(d.section).help(d.help); p.add(a); }
    else if (d.kind == Def::CMD) { Command c(d.name); c.visibility(d.vis).section(d.section).help(d.help); p.add(c); }
    else { Option o; o.flags(d.flags).argument(d.arg).type(d.type).mandatory(d.mandatory).visibility(d.vis).section(d.section).help(d.help); p.add(o); }
}
static ArgumentParser wide_parser(unsigned width = 200)
{
    ArgumentParser p("prog");
    p.auto_exit(false).stream(sym_stream(0)).line_width(width).generate_help_option(false);
    return p;
}
static void write_and_check(const ArgumentParser& p, const Help& h, const std::vector<Str>& path = {})
{
    if (path.empty() && sym_flag("plain")) p.write_help_text(); else p.write_subcommand_help_text(path);
    check_page(expect_page(h), sym_text(0));
    sym_reach("end");
}
static Def opt(std::vector<Str> f, Str arg = {}, OptionType t = OptionType::NORMAL) { Def d; d.kind = Def::OPT; d.flags = f; d.arg = arg; d.type = t; return d; }
static Def arg(Str n, unsigned lo = 1, unsigned hi = 1) { Def d; d.name = n; d.lo = lo; d.hi = hi; return d; }
static Def cmd(Str n) { Def d; d.kind = Def::CMD; d.name = n; return d; }

// Any two items of any kind among fixed ones, with any visibility, section
// and help text.
extern "C" void h_c22_items()
{
    Help h;
    bool cmds = sym_flag("commands");
    unsigned n = P("items", 2);
    for (unsigned i = 0; i < n; i++)
    {
        Def d;
        bool o = sym_flag("option");
        Str id(1, (char)('a' + i));
        if (o) d = sym_flag("stop") ? opt({"-" + id, "--" + id}, "", OptionType::STOP) : opt({"-" + id}, "V");
        else d = cmds ? cmd(id + "cmd") : arg(id);
        d.vis = (Visibility)sym_pick("vis", 4);
        static const char* sections[] = {"", "SEC ONE", "OPTIONS"};
        d.section = sections[sym_pick("section", 3)];
        if (sym_flag("help")) d.help = "Help of " + id;
        h.defs.push_back(d);
    }
    bool fixed = sym_flag("fixed");
    if (fixed) { h.defs.push_back(opt({"--fixed"})); h.defs.push_back(cmds ? cmd("last") : arg("last")); }
    h.require = false;
    for (auto& d : h.defs) if (d.kind == Def::CMD) h.require = true;
    auto p = wide_parser();
    for (auto& d : h.defs) add_def(p, d);
    write_and_check(p, h);
}

// Section names and titles of any characters: equal ones are merged.
extern "C" void h_c22_sections()
{
    Help h;
    unsigned len = P("len", 1);
    auto word = [&](const char* n, unsigned lo) { Str s = sym_string_upto(n, lo, len); for (char c : s) sym_assume((c > 32) & (c < 127)); return s; };
    bool cmds = sym_flag("commands");
    h.defs = {opt({"-a"}), cmds ? cmd("b") : arg("b"), opt({"-c"}), cmds ? cmd("d") : arg("d")};
    h.defs[3].help = "Help";
    bool current = sym_flag("current_section");          // set by current_section
    for (size_t i = 0; i < 3; i++) h.defs[i].section = word("section", 0);
    auto p = wide_parser();
    auto set = [&](auto& p)
    {
        if (sym_flag("titles"))
        {
            Txt& t = cmds ? h.commands : h.arguments;
            t = {true, word("title", 1)}; p.text(cmds ? TextId::SUBCOMMANDS_TITLE : TextId::ARGUMENTS_TITLE, t.text);
            if (unsigned k = sym_pick("options title", 5)) { h.options = {true, k == 1 ? word("title", 1) : Str(k == 2 ? "COMMANDS" : k == 3 ? "ARGUMENTS" : "")}; p.text(TextId::OPTIONS_TITLE, h.options.text); }
        }
        for (auto& d : h.defs)
        {
            if (!current) { add_def(p, d); continue; }
            p.current_section(d.section);
            Def x = d; x.section.clear();
            add_def(p, x);
        }
    };
    if (!sym_flag("sub"))
    {
        set(p);
        if (current) CHECK(p.current_section() == h.defs.back().section, "current_section");
        write_and_check(p, h);
        return;
    }
    Command c("sub");
    if (sym_flag("own section")) { p.current_section("ZZ"); c.section("YY"); }   // says nothing about the contents
    set(c);
    p.add(c);
    h.full_name = "prog sub";
    write_and_check(p, h, {"sub"});
}

// The usage line.
extern "C" void h_c22_usage()
{
    Help h;
    static const std::vector<Str> flags[] = {{"-o"}, {"-o", "--option"}, {"--option", "-o"}, {"--option"}, {"-o", "--opt=", "--oo="}};
    static const char* args[] = {"", "VAL", "<val>"};
    unsigned f = sym_pick("flags", 5);
    Def o = opt(flags[f], args[f == 4 ? 1 + sym_pick("arg", 2) : sym_pick("arg", 3)], (OptionType)sym_pick("type", 6));
    o.mandatory = sym_flag("mandatory");
    bool initial = sym_flag("initial");
    static const char* names[] = {"FILE", "<file>", "[file [...]]"};
    Def a = arg(names[sym_pick("name", 3)]);
    a.lo = sym_pick("lo", 3); a.hi = a.lo + sym_pick("extra", 4); sym_assume(a.hi > 0);
    h.defs = {opt({"-x"}), o, opt({"-v", "--version"}, "", OptionType::EXIT), a, arg("LAST")};
    auto p = wide_parser();
    for (size_t i = 0; i < h.defs.size(); i++)
        if (i == 1 && initial) { Option x; x.flags(o.flags); if (!o.arg.empty()) x.argument(o.arg); p.add(x.type(o.type).mandatory(o.mandatory).initial_value("INIT")); }
        else add_def(p, h.defs[i]);
    write_and_check(p, h);
}

// The commands in the usage.
extern "C" void h_c22_commands()
{
    Help h;
    static const char* names[] = {"one", "two", "three"};
    unsigned n = 1 + sym_pick("commands", 3);
    bool any = false;
    for (unsigned i = 0; i < n; i++) { Def c = cmd(names[i]); c.vis = (Visibility)sym_pick("vis", 4); any = any || c.in_usage(); h.defs.push_back(c); }
    sym_assume(any);
    h.defs.push_back(opt({"-x"}));
    unsigned req = sym_pick("require", 3);
    bool nested = sym_flag("nested"), multi = sym_flag("multi");
    h.require = req != 1;
    auto p = wide_parser();
    auto set = [&](auto& x) { for (auto& d : h.defs) add_def(x, d); if (req) x.require_subcommand(req == 2); x.allow_multiple_subcommands(multi); };
    if (!nested) { set(p); write_and_check(p, h); return; }
    Command c("sub"), e("empty");
    set(c);
    e.about("Nothing here.");
    p.add(c).add(e);
    if (sym_flag("other")) { Help x; x.full_name = "prog empty"; x.about = {true, "Nothing here."}; write_and_check(p, x, {"empty"}); return; }
    h.full_name = "prog sub";
    write_and_check(p, h, {"sub"});
}

// Every combination of custom texts, for the parser, a command and a
// command's command; in help texts and in errors.
static Txt pick_text(const char* what, const Str& text)
{
    Txt t;
    unsigned k = sym_pick(what, 3);
    t.set = k > 0;
    if (k == 2) t.text = text;
    return t;
}
extern "C" void h_c22_texts()
{
    Help h;
    bool listing = sym_flag("list");
    bool error = sym_flag("error"), by_function = sym_flag("function");
    unsigned level = sym_pick("level", 3);
    Txt error_usage;
    if (error) error_usage = pick_text("error_usage", "Error usage.");
    else
    {
        h.initial = pick_text("initial", "Initial text.");
        h.about = pick_text("about", "About text.");
        h.help = pick_text("help", "Help text.");
        h.final = pick_text("final", "Final text.");
    }
    if (error || !h.final.set)
    {
        h.usage_title = pick_text("usage_title", "Synopsis:");
        h.usage = pick_text("usage", "prog something");
    }
    if (listing) h.defs = {opt({"-x"}), arg("FILE")};
    static const char* full[] = {"prog", "prog one", "prog one two"};
    h.full_name = full[level];
    auto set = [&](auto& x) {
        auto put = [&](TextId id, const Txt& t) {
            if (!t.set) return;
            if (by_function) { Str s = t.text; x.text(id, [s] { return s; }); }
            else if (id == TextId::ABOUT) x.about(t.text);
            else x.text(id, t.text);
        };
        put(TextId::INITIAL_TEXT, h.initial); put(TextId::ABOUT, h.about); put(TextId::HELP, h.help); put(TextId::FINAL_TEXT, h.final);
        put(TextId::USAGE_TITLE, h.usage_title); put(TextId::USAGE, h.usage); put(TextId::ERROR_USAGE, error_usage);
        for (auto& d : h.defs) add_def(x, d);
    };
    auto p = wide_parser();
    std::vector<Str> path;
    if (level == 0) set(p);
    else
    {
        Command one("one"), two("two");
        set(level == 1 ? one : two);
        if (level == 2) one.add(two);
        p.add(one);
        path.push_back("one");
        if (level == 2) path.push_back("two");
    }
    if (!error) { write_and_check(p, h, path); return; }
    path.push_back("-z");
    (void)p.parse(views(path));
    Page u;
    if (!error_usage.set) expect_usage(u, h); else u.line(error_usage.text);
    Str out = sym_text(0);
    CHECK(out.substr(0, h.full_name.size() + 2) == h.full_name + ": ", "the message names the command");
    check_page(u, out, 1);
    sym_reach("end");
}

// Help and version options are generated unless the client's flags are in the way.
extern "C" void h_c22_generated()
{
    Help h;
    OptionStyle st = (OptionStyle)sym_pick("style", 3);
    bool ci = sym_flag("ci"), gen = sym_flag("generate"), version = sym_flag("version"), own_help = sym_flag("own help"), section = sym_flag("section");
    bool in_sub = sym_flag("sub");
    static const std::vector<Str> candidates[] = {
        {"", "-h", "--help", "-H", "--HELP", "--version", "--Version", "--help="},
        {"", "/?", "/VERSION", "/version", "/h"},
        {"", "-h", "-help", "-H", "-HELP", "-version", "-VERSION"}};
    std::vector<Str> used;
    unsigned first = sym_pick("flag", (unsigned)candidates[(int)st].size()), second = sym_pick("flag", (unsigned)candidates[(int)st].size());
    if (first) used.push_back(candidates[(int)st][first]);
    if (second && second < first) used.push_back(candidates[(int)st][second]);
    else sym_assume(second == 0);
    if (used.size() == 2) sym_assume(!flag_eq(used[0], used[1], ci));
    for (auto& f : used) h.defs.push_back(opt({f}, f.back() == '=' ? "V" : ""));
    if (own_help) h.defs.push_back(opt({st == OptionStyle::SLASH ? "/i" : "-i"}, "", OptionType::HELP));
    auto taken = [&](const Str& f) { for (auto& u : used) if (flag_eq(u, f, ci)) return true; return false; };
    auto p = wide_parser();
    p.option_style(st).case_insensitive(ci).generate_help_option(gen);
    if (version) p.version("9.9");
    Command c("sub");
    if (section) { if (in_sub) c.current_section("SEC"); else p.current_section("SEC"); for (auto& d : h.defs) d.section = "SEC"; }
    for (auto& d : h.defs) { Def x = d; x.section.clear(); if (in_sub) add_def(c, x); else add_def(p, x); }
    if (version && !in_sub)
    {
        static const char* vf[] = {"--version", "/VERSION", "-version"};
        if (!taken(vf[(int)st])) { Def v = opt({vf[(int)st]}, "", OptionType::STOP); v.help = "Display the program version."; if (section) v.section = "SEC"; h.defs.push_back(v); }
    }
    if (gen && !own_help)
    {
        std::vector<Str> f;
        if (st == OptionStyle::STANDARD) { if (!taken("-h")) f.push_back("-h"); if (!taken("--help")) f.push_back("--help"); }
        else if (st == OptionStyle::SLASH) { if (!taken("/?")) f.push_back("/?"); }
        else if (!taken("-h")) f.push_back("-h");
        else if (!taken("-help")) f.push_back("-help");
        if (!f.empty()) { Def o = opt(f, "", OptionType::HELP); o.help = "Display this help text."; if (section) o.section = "SEC"; h.defs.push_back(o); sym_reach("help option"); }
        else sym_reach("no help option");
    }
    std::vector<Str> path;
    if (in_sub) { p.add(c); h.full_name = "prog sub"; path.push_back("sub"); }
    write_and_check(p, h, path);
}

// ------------------------------------------------------------------ C24
static bool space(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
static bool valid_flag(OptionStyle st, const Str& f, bool has_arg)
{
    if (f.size() < 2 || f[0] != (st == OptionStyle::SLASH ? '/' : '-')) return false;
    for (char c : f) if (space(c)) return false;
    if (f.size() == 2) return true;
    if (st == OptionStyle::STANDARD && f[1] != '-') return false;
    for (size_t i = 0; i < f.size(); i++) if (f[i] == '=' && (i + 1 < f.size() || !has_arg)) return false;
    return true;
}
static bool clash(const std::vector<Str>& flags, bool ci)
{
    for (size_t i = 0; i < flags.size(); i++) for (size_t k = 0; k < i; k++) if (flag_eq(flags[i], flags[k], ci)) return true;
    return false;
}
// Adds what `add` adds at any level of the command tree and tells whether
// the definition was rejected by any way of using it.
template <typename F> static bool rejected(unsigned level, F&& add, OptionStyle st = OptionStyle::STANDARD, bool ci = false, bool gen = true, bool version = false)
{
    try
    {
        ArgumentParser p("prog");
        p.auto_exit(false).stream(sym_stream(0)).option_style(st).case_insensitive(ci).generate_help_option(gen).text(TextId::ERROR_USAGE, "");
        if (version) p.version("1");
        if (level == 0) add(p);
        else
        {
            Command a("one"), b("two");
            add(level == 1 ? a : b);
            if (level == 2) a.add(b);
            p.add(a);
            if (sym_flag("sibling")) p.add(Command("other"));
        }
        const auto& c = p;
        switch (sym_pick("use", 5))
        {
        case 0: (void)p.parse(std::vector<std::string_view>{}); break;
        case 1: (void)c.parse(std::vector<std::string_view>{"other"}); break;
        case 2: c.write_help_text(); break;
        case 3: (void)p.make_iterator(std::vector<std::string_view>{}); break;
        default: { char n[] = "prog"; char* v[] = {n, nullptr}; (void)p.parse(1, v); }
        }
    }
    catch (const ArgosException&) { sym_reach("rejected"); return true; }
    sym_reach("accepted");
    return false;
}
static Str any_flag(const char* n, unsigned lo, unsigned hi)
{
    Str s = sym_string_upto(n, lo, hi);
    for (char c : s) sym_assume((c != '\v') & (c != '\f'));
    return s;
}
// Any flags of one option.
extern "C" void h_c24_flags()
{
    OptionStyle st = (OptionStyle)sym_pick("style", 3);
    bool ci = sym_flag("ci"), has_arg = sym_flag("arg"), gen = sym_flag("generate"), second = sym_flag("second");
    unsigned level = sym_pick("level", 3);
    std::vector<Str> flags{any_flag("flag", 0, P("len", 4))};
    if (second) { flags[0] = st == OptionStyle::SLASH ? "/a" : "-a"; flags.push_back(any_flag("flag", 0, P("len2", 3))); if (sym_flag("swap")) std::swap(flags[0], flags[1]); }
    bool ok = !clash(flags, ci);
    for (auto& f : flags) ok = ok && valid_flag(st, f, has_arg);
    bool r = rejected(level, [&](auto& x) { Option o; o.flags(flags); if (has_arg) o.argument("A"); x.add(o); }, st, ci, gen);
    CHECK(r == !ok, "exactly the malformed flags are rejected");
    sym_obs(r);
}
// Flags of several options.
extern "C" void h_c24_conflicts()
{
    OptionStyle st = (OptionStyle)sym_pick("style", 3);
    bool ci = sym_flag("ci");
    unsigned level = sym_pick("level", 3), len = P("len", 2);
    Str pre = st == OptionStyle::SLASH ? "/" : st == OptionStyle::DASH ? "-" : sym_flag("long") ? "--" : "-";
    auto flag = [&] {
        Str b = sym_string_upto("flag", 1, pre == "-" && st == OptionStyle::STANDARD ? 1 : len);
        for (char c : b) sym_assume((c > 32) & (c != '=') & (c < 127));
        if (b.size() == 1 && pre.size() == 2) return pre + b;
        return pre + b;
    };
    std::vector<Str> f{flag(), flag(), "", ""};
    f[2] = st == OptionStyle::SLASH ? "/mN" : st == OptionStyle::DASH ? "-mN" : "--mN";
    f[3] = st == OptionStyle::SLASH ? "/z" : "-z";
    unsigned split = sym_pick("split", 3);
    bool r = rejected(level, [&](auto& x) {
        Option a, b;
        if (split == 0) { a.flags({f[0], f[2]}); b.flags({f[3], f[1]}); }
        else if (split == 1) { a.flags({f[0], f[1], f[2]}); b.flags({f[3]}); }
        else { a.flags({f[2], f[3]}); b.flags({f[1], f[0]}); }
        x.add(a).add(b);
    }, st, ci, false);
    CHECK(r == clash(f, ci), "exactly conflicting flags are rejected");
    sym_obs(r);
}
// Any combination of the settings of an option.
extern "C" void h_c24_settings()
{
    OptionOperation op = (OptionOperation)sym_pick("op", 4);
    OptionType type = (OptionType)sym_pick("type", 6);
    bool arg = sym_flag("arg"), con = sym_flag("const"), alias = sym_flag("alias"), init = sym_flag("initial"), mandatory = sym_flag("mandatory");
    unsigned level = sym_pick("level", 3);
    bool bad = (arg && con)
        || (op == OptionOperation::NONE && (con || alias))
        || (op == OptionOperation::APPEND && !arg && !con)
        || (op == OptionOperation::CLEAR && mandatory);
    bool r = rejected(level, [&](auto& x) {
        Option o("-o");
        o.operation(op).type(type).mandatory(mandatory);
        if (arg) o.argument("A");
        if (con) { switch (sym_pick("kind", 3)) { case 0: o.constant("text"); break; case 1: o.constant(0); break; default: o.constant(false); } }
        if (alias) o.alias("other");
        if (init) o.initial_value("i");
        x.add(Option("-p")).add(o);
    });
    CHECK(r == bad, "exactly contradictory settings are rejected");
    sym_obs(r);
}
// What may be added to a command, in any order.
extern "C" void h_c24_tree()
{
    unsigned level = sym_pick("level", 3), n = P("steps", 3);
    unsigned args = 0, cmds = 0; bool bad = false, required = false;
    bool r = rejected(level, [&](auto& x) {
        for (unsigned i = 0; i < n; i++)
            switch (sym_pick("what", 10))
            {
            case 0: break;
            case 1: args++; bad = bad || cmds; x.add(Argument(Str(1, (char)('a' + i)))); break;
            case 2: cmds++; bad = bad || args; x.add(Command(Str(1, (char)('a' + i)))); break;
            case 3: bad = true; x.add(Argument("")); break;
            case 4: bad = true; x.add(Command("")); break;
            case 5: bad = true; x.add(Option()); break;
            case 6: { bad = true; Argument a("a"); Argument b(std::move(a)); x.add(a); break; }
            case 7: { bad = true; Command a("a"), b(std::move(a)); x.add(a); break; }
            case 8:
            {
                unsigned k = sym_pick("copied", 3);
                Command s;
                if (k == 0) { s.add(Argument(Str(1, (char)('p' + i)))); args++; }
                if (k == 1) { s.add(Command(Str(1, (char)('p' + i)))); cmds++; }
                bad = bad || (args && cmds);
                x.copy_from(s);
                break;
            }
            default: x.require_subcommand(required = sym_flag("required"));
            }
        bad = bad || (required && !cmds);
    });
    CHECK(r == bad, "exactly contradictory commands are rejected");
    sym_obs(r);
}
// The numbers of an argument.
extern "C" void h_c24_counts()
{
    unsigned lo = sym_u8("lo", 0, 255), hi = sym_u8("hi", 0, 255), n = sym_u8("n", 0, 255);
    if (sym_flag("large")) { lo += 0xFFFFFF00u; hi += 0xFFFFFF00u; }
    bool single = sym_flag("single"), r = false;
    Argument a("a");
    try { if (single) a.count(n); else a.count(lo, hi); } catch (const ArgosException&) { r = true; }
    CHECK(r == (single ? n == 0 : hi == 0 || lo > hi), "exactly impossible numbers are rejected");
    sym_reach(r ? "rejected" : "accepted");
    if (r || single) return;
    // the counts are as defined
    ArgumentParser p("prog");
    p.auto_exit(false).stream(sym_stream(0)).add(a);
    auto x = p.make_iterator(std::vector<std::string_view>{}).parsed_arguments().command().arguments().at(0).count();
    CHECK(x.first == lo && x.second == hi, "the numbers are those given");
}
// The option style can be changed until an option has been added.
extern "C" void h_c24_style()
{
    OptionStyle s1 = (OptionStyle)sym_pick("style", 3), s2 = (OptionStyle)sym_pick("style", 3);
    bool added = sym_flag("added"), r = false;
    ArgumentParser p("prog");
    p.option_style(s1);
    p.add(Argument("a"));
    if (added) p.add(Option(s1 == OptionStyle::SLASH ? "/o" : "-o"));
    try { p.option_style(s2); } catch (const ArgosException&) { r = true; }
    CHECK(r == (added && s1 != s2), "the style can not be changed after options have been added");
    CHECK(p.option_style() == (r ? s1 : s2), "the style");
    sym_reach(r ? "rejected" : "accepted");
}
// No flag of the client's conflicts with the help and version options, and
// the client's flag is the one that is used.
extern "C" void h_c24_generated()
{
    OptionStyle st = (OptionStyle)sym_pick("style", 3);
    bool ci = sym_flag("ci"), abbrev = sym_flag("abbrev"), sub = sym_flag("sub"), version = sym_flag("version"), takes = sym_flag("arg");
    static const char* words[3][5] = {{"-h", "--help", "--version", "--help=", "--hel"}, {"/?", "/VERSION", "/version=", "/V", "/h"}, {"-h", "-help", "-version", "-version=", "-v"}};
    Str f = words[(int)st][sym_pick("word", 5)];
    size_t fixed = st == OptionStyle::STANDARD && f.size() > 2 ? 2 : 1;
    for (size_t i = fixed; i < f.size(); i++)
    {
        char c = (char)sym_u8("c", 33, 126);
        // any other letter at one place, or either case everywhere
        if (f[i] >= 'a' && f[i] <= 'z') sym_assume((c == f[i]) | (c == f[i] - 32));
        else if (f[i] >= 'A' && f[i] <= 'Z') sym_assume((c == f[i]) | (c == f[i] + 32));
        else sym_assume(c == f[i]);
        f[i] = c;
    }
    unsigned odd = sym_pick("odd", (unsigned)f.size() - (unsigned)fixed + 1);
    if (odd) { char c = (char)sym_u8("other", 33, 126); sym_assume(c != '='); f[fixed + odd - 1] = c; }
    sym_assume(valid_flag(st, f, takes));
    bool called = false;
    ArgumentParser p("prog");
    p.auto_exit(false).stream(sym_stream(0)).option_style(st).case_insensitive(ci).allow_abbreviated_options(abbrev);
    if (version) p.version("1");
    Option o(f);
    if (takes) o.argument("A");
    o.callback([&called](OptionCallbackArguments&) { called = true; });
    Line t;
    bool r = false;
    try
    {
        if (sub) { Command c("sub"); c.add(o); p.add(c); t.push_back("sub"); } else p.add(o);
        t.push_back(f);
        if (takes && f.back() != '=') t.push_back("value");
        auto res = p.parse(views(t));
        r = true;
        CHECK(res.result_code() == ParserResultCode::SUCCESS, "the client's flag is accepted");
    }
    catch (const ArgosException&) {}
    CHECK(r, "a valid flag is not rejected");
    CHECK(called, "the client's option is the one that is used");
    CHECK(sym_text(0).empty(), "no help or version is written");
    sym_reach("end");
}

// ------------------------------------------------------------------ C27
static void put(Str& s, const Str& x) { s += x; s += '|'; }
static void put(Str& s, long v) { for (int k = 0; k < 32; k += 8) s += (char)(v >> k); }   // doesn't depend on the value
static void describe(Str& s, const IArgumentView& v)
{
    put(s, v.help()); put(s, v.section()); put(s, v.alias()); put(s, (long)v.visibility()); put(s, (long)v.id());
}
static void describe_command(Str& s, const CommandView& c, bool name)
{
    if (name) { put(s, c.name()); describe(s, c); put(s, (long)c.require_subcommand()); }
    for (auto& a : c.arguments()) { s += "A:"; put(s, a.name()); describe(s, a); put(s, (long)a.count().first); put(s, (long)a.count().second); put(s, (long)a.optional()); }
    for (auto& o : c.options())
    {
        s += "O:"; for (auto& f : o.flags()) put(s, f);
        describe(s, o); put(s, o.argument()); put(s, o.constant()); put(s, o.initial_value()); put(s, (long)o.operation()); put(s, (long)o.type()); put(s, (long)o.optional());
    }
    for (auto& x : c.subcommands()) { s += "C:"; describe_command(s, x, true); }
}
static Str* gCalls = nullptr;
// Everything that can be seen of a parser: its definitions, its help texts and what it makes of some lines.
static Str look(ArgumentParser& p, const std::vector<std::vector<Str>>& paths, const std::vector<Line>& lines)
{
    Str s, before = sym_text(1);
    p.stream(sym_stream(1));
    for (auto& path : paths)
        try { p.write_subcommand_help_text(path); } catch (const ArgosException&) { s += "no such command|"; }
    const auto& c = p;
    Str calls; gCalls = &calls;
    for (auto& l : lines)
    {
        auto r = c.parse(views(l));
        if (&l == &lines[0]) describe_command(s, r.command(), false);
        put(s, (long)r.result_code());
        auto level = [&](auto& self, const ParsedArguments& x) -> void {
            for (auto& a : x.command().arguments()) for (auto v : x.values(a.name()).raw_values()) put(s, Str(v));
            for (auto& o : x.command().options()) if (o.operation() != OptionOperation::NONE) for (auto v : x.values(o.flags()[0]).raw_values()) put(s, Str(v));
            for (auto& y : x.subcommands()) self(self, y);
        };
        level(level, r);
        s += '\n';
    }
    gCalls = nullptr;
    return s + "calls " + calls + sym_text(1).substr(before.size());
}
static Option make_opt(unsigned v)
{
    Option o;
    if (v == 0) return o;
    o.flags({"-o", "--opt"}).help("Opt help").section("OSEC").visibility(Visibility::TEXT).id(7).argument("VAL").alias("other").initial_value("init")
        .operation(OptionOperation::APPEND).callback([](OptionCallbackArguments& a) { if (gCalls) *gCalls += "opt " + Str(a.value) + ";"; });
    if (v == 2) o.flags({"-o"}).help([] { return Str("Dynamic"); }).argument("").constant("cc").operation(OptionOperation::ASSIGN).mandatory(true).type(OptionType::LAST_OPTION);
    if (v == 3) o.flags({"-o", "-t"}).argument("").alias("").operation(OptionOperation::NONE).type(OptionType::STOP);
    return o;
}
static void change(Option& o, unsigned k)
{
    switch (k)
    {
    case 0: o.flags({"-q"}); break;
    case 1: o.flag("-q"); break;
    case 2: o.help("Changed"); break;
    case 3: o.section("CHANGED"); break;
    case 4: o.visibility(Visibility::USAGE); break;
    case 5: o.id(9); break;
    case 6: o.argument("CHANGED"); break;
    case 7: o.alias("changed"); break;
    case 8: o.initial_value("changed"); break;
    case 9: o.constant("changed"); break;
    case 10: o.operation(OptionOperation::CLEAR); break;
    case 11: o.type(OptionType::HELP); break;
    case 12: o.mandatory(true); o.optional(false); break;
    case 13: o.callback([](OptionCallbackArguments&) { if (gCalls) *gCalls += "changed;"; }); break;
    default: o.help([] { return Str("Changed too"); });
    }
}
static const unsigned OPT_CHANGES = 15;
static Argument make_arg(unsigned v)
{
    Argument a("ARG");
    if (v == 0) return a;
    a.help("Arg help").section("ASEC").visibility(Visibility::TEXT).id(7).alias("other").count(1, 3)
        .callback([](ArgumentCallbackArguments& x) { if (gCalls) *gCalls += "arg " + Str(x.value) + ";"; });
    if (v == 2) a.help([] { return Str("Dynamic"); }).optional(true).alias("");
    return a;
}
static void change(Argument& a, unsigned k)
{
    switch (k)
    {
    case 0: a.name("CHANGED"); break;
    case 1: a.help("Changed"); break;
    case 2: a.section("CHANGED"); break;
    case 3: a.visibility(Visibility::USAGE); break;
    case 4: a.id(9); break;
    case 5: a.alias("changed"); break;
    case 6: a.count(2); break;
    case 7: a.count(0, 9); break;
    case 8: a.optional(true); break;
    case 9: a.callback([](ArgumentCallbackArguments&) { if (gCalls) *gCalls += "changed;"; }); break;
    default: a.help([] { return Str("Changed too"); });
    }
}
static const unsigned ARG_CHANGES = 11;
static Command make_cmd(unsigned v)
{
    Command c("cmd");
    if (v == 0) return c;
    c.help("Cmd help").about("Cmd about").section("CSEC").visibility(Visibility::TEXT).id(7).text(TextId::INITIAL_TEXT, "First").text(TextId::FINAL_TEXT, [] { return Str("Last"); });
    c.add(make_opt(1));
    c.current_section("CURRENT");
    if (v == 1) { c.add(make_arg(1)); return c; }
    Command s("inner");
    s.help("Inner help").add(make_arg(2)).add(Option("-i"));
    c.add(s).allow_multiple_subcommands(true).require_subcommand(false);
    return c;
}
static void change(Command& c, unsigned k)
{
    switch (k)
    {
    case 0: c.name("changed"); break;
    case 1: c.help("Changed"); break;
    case 2: c.about("Changed about"); break;
    case 3: c.section("CHANGED"); break;
    case 4: c.visibility(Visibility::USAGE); break;
    case 5: c.id(9); break;
    case 6: c.text(TextId::INITIAL_TEXT, "Changed first"); break;
    case 7: c.text(TextId::FINAL_TEXT, [] { return Str("Changed last"); }); break;
    case 8: c.add(Option("-q")); break;
    case 9: try { c.add(Argument("CHANGED")); } catch (const ArgosException&) {} break;
    case 10: try { c.add(Command("changed")); } catch (const ArgosException&) {} break;
    case 11: c.allow_multiple_subcommands(false); break;
    case 12: try { c.require_subcommand(false); } catch (const ArgosException&) {} break;
    case 13: { Command s; s.add(Option("-q")).text(TextId::USAGE, "Changed usage"); c.copy_from(s); break; }
    default: c.current_section("CHANGED"); c.add(Option("-q"));
    }
}
static const unsigned CMD_CHANGES = 15;

static const std::vector<Line> LINES = {{}, {"-o", "x", "a"}, {"a", "b", "-o", "c"}, {"cmd", "-o", "x", "a", "b"}, {"cmd", "inner", "a", "cmd", "inner", "-i"}};
static const std::vector<std::vector<Str>> PATHS = {{}, {"cmd"}, {"cmd", "inner"}};
// The definition added to a parser of its own, with an item after it that gets the current section.
static Str look_at(const Option& o) { ArgumentParser p("prog"); p.auto_exit(false).line_width(120).generate_help_option(false).stream(sym_stream(1)); p.add(Argument("A").count(0, 2)); p.add(Option(o)); return look(p, PATHS, LINES); }
static Str look_at(const Argument& a) { ArgumentParser p("prog"); p.auto_exit(false).line_width(120).generate_help_option(false).stream(sym_stream(1)); p.add(Option("-o")); p.add(Argument(a)); return look(p, PATHS, LINES); }
static Str look_at(const Command& c)
{
    ArgumentParser p("prog");
    p.auto_exit(false).line_width(120).generate_help_option(false).stream(sym_stream(1)).require_subcommand(false);
    Command x(c); x.add(Option("-z"));
    p.add(x).add(Option("-o"));
    return look(p, PATHS, LINES);
}
// the definition itself, not a copy
static Str look_at(Option&& o) { ArgumentParser p("prog"); p.auto_exit(false).line_width(120).generate_help_option(false).stream(sym_stream(1)); p.add(Argument("A").count(0, 2)); p.add(std::move(o)); return look(p, PATHS, LINES); }
static Str look_at(Argument&& a) { ArgumentParser p("prog"); p.auto_exit(false).line_width(120).generate_help_option(false).stream(sym_stream(1)); p.add(Option("-o")); p.add(std::move(a)); return look(p, PATHS, LINES); }
static Str look_at(Command&& c)
{
    ArgumentParser p("prog");
    p.auto_exit(false).line_width(120).generate_help_option(false).stream(sym_stream(1)).require_subcommand(false);
    c.add(Option("-z"));
    p.add(std::move(c)).add(Option("-o"));
    return look(p, PATHS, LINES);
}
template <typename T> static Str first_hand(T t) { try { return look_at(std::move(t)); } catch (const ArgosException&) { return "rejected"; } }
template <typename T> static Str safely(const T& t) { try { return look_at(t); } catch (const ArgosException&) { return "rejected"; } }
template <typename T> static bool unusable(T& t) { try { change(t, 5); } catch (const ArgosException&) { return true; } return false; }

template <typename T, typename F> static void check_copies(F&& make, unsigned kinds, unsigned changes)
{
    unsigned kind = sym_pick("kind", kinds), how = sym_pick("how", 7), k = sym_pick("change", changes);
    bool change_copy = sym_flag("change copy");
    T a = make(kind);
    const Str want = first_hand<T>(make(kind));
    T c = make((kind + 1) % kinds);
    std::unique_ptr<T> n;
    T* copy = &c;
    bool moved = false;
    switch (how)
    {
    case 0: n = std::make_unique<T>(a); copy = n.get(); break;
    case 1: c = a; break;
    case 2: n = std::make_unique<T>(std::move(a)); copy = n.get(); moved = true; break;
    case 3: c = std::move(a); moved = true; break;
    case 4: { T t(a); c = t; change(t, (k + 1) % changes); break; }
    case 5: { T& r = a; a = r; c = a; break; }
    default: { T gone(std::move(c)); CHECK(unusable(c), "a moved definition can not be used"); c = a; break; }      // assigning makes it usable again
    }
    if (moved)
    {
        CHECK(unusable(a), "a moved definition can not be used");
        CHECK(safely(*copy) == want, "moving keeps every property");
        T d(a); CHECK(unusable(d), "the copy of a moved definition can not be used");
        sym_reach("moved");
        return;
    }
    T& changed = change_copy ? *copy : a;
    T& kept = change_copy ? a : *copy;
    change(changed, k);
    CHECK(safely(kept) == want, "a copy is complete and independent");
    // adding one of them leaves the other
    ArgumentParser p("prog");
    try { p.add(changed); } catch (const ArgosException&) { return; }
    CHECK(unusable(changed), "an added definition can not be used");
    CHECK(safely(kept) == want, "a copy is complete and independent");
    sym_reach("copied");
}
extern "C" void h_c27_option() { check_copies<Option>(make_opt, 4, OPT_CHANGES); }
extern "C" void h_c27_argument() { check_copies<Argument>(make_arg, 3, ARG_CHANGES); }
extern "C" void h_c27_command() { check_copies<Command>(make_cmd, 3, CMD_CHANGES); }

// The definitions are seen as they were given.
extern "C" void h_c27_views()
{
    unsigned len = P("len", 2);
    Str help = sym_string_upto("help", 0, len), section = sym_string_upto("section", 0, len), alias = sym_string_upto("alias", 0, 1);
    auto vis = (Visibility)sym_pick("vis", 4);
    int id = (int)sym_u8("id", 0, 255) - 128;
    auto check = [&](const IArgumentView& v, bool cmd) {
        CHECK(v.help() == help, "help text"); CHECK(v.section() == section, "section"); CHECK(v.visibility() == vis, "visibility"); CHECK(v.id() == id, "id");
        if (!cmd) CHECK(v.alias() == alias, "alias");
    };
    ArgumentParser p("prog");
    p.auto_exit(false).generate_help_option(false).stream(sym_stream(0));
    unsigned kind = sym_pick("kind", 3);
    bool bymove = sym_flag("move"), function = sym_flag("function");
    auto add = [&](auto& x) { if (bymove) p.add(std::move(x)); else p.add(x); };
    if (kind == 0) { Argument a("a"); if (function) a.help([help] { return help; }); else a.help(help); a.section(section).alias(alias).visibility(vis).id(id).optional(true); add(a); }
    else if (kind == 1) { Option o("-a"); if (function) o.help([help] { return help; }); else o.help(help); o.section(section).alias(alias).visibility(vis).id(id); add(o); }
    else { Command c("a"); if (function) c.text(TextId::HELP, [help] { return help; }); else c.help(help); c.about("Other"); c.section(section).visibility(vis).id(id); add(c); p.require_subcommand(false); }
    static const char* tokens[] = {"a", "-a", "a"};
    auto it = p.make_iterator(std::vector<std::string_view>{tokens[kind]});
    std::unique_ptr<IArgumentView> v; std::string_view value;
    CHECK(it.next(v, value), "the item is found");
    CHECK(v != nullptr, "the item is found");
    check(*v, kind == 2);
    auto r = it.parsed_arguments();
    if (kind == 2) { check(r.command(), true); CHECK(r.command().name() == "a", "name"); }
    else { auto c = r.command(); if (kind == 0) { auto a = c.arguments(); check(a.at(0), false); } else { auto o = c.options(); check(o.at(0), false); } }
    sym_reach("end");
}

// The settings of a command survive copies, moves and being added.
extern "C" void h_c27_settings()
{
    unsigned require = sym_pick("require", 3), multi = sym_pick("multi", 3), how = sym_pick("how", 5);
    bool deep = sym_flag("deep");
    auto make = [&] {
        Command c("cmd"), x("x"), y("y");
        x.id(3); y.id(4);
        c.id(5).add(x).add(y);
        if (require) c.require_subcommand(require == 2);
        if (multi) c.allow_multiple_subcommands(multi == 2);
        return c;
    };
    ArgumentParser p("prog");
    p.auto_exit(false).generate_help_option(false).stream(sym_stream(0));
    auto add = [&](auto& p) {
        Command c = make();
        switch (how)
        {
        case 0: p.add(c); break;
        case 1: p.add(std::move(c)); break;
        case 2: { Command d(c); p.add(d); break; }
        case 3: { Command d("other"); d.require_subcommand(require == 1).allow_multiple_subcommands(multi == 1); d = c; p.add(std::move(d)); break; }
        case 4: { Command d("other"), e(std::move(c)); d = std::move(e); p.add(d); break; }
        }
    };
    Line t;
    if (deep) { Command o("outer"); add(o); Command o2(o); p.add(o2); t.push_back("outer"); } else add(p);
    t.push_back("cmd");
    unsigned n = sym_pick("sub-commands", 3);
    for (unsigned i = 0; i < n; i++) t.push_back(i ? "y" : "x");
    auto r = p.parse(views(t));
    bool ok = n == 0 ? require == 1 : n == 1 || multi == 2;
    CHECK(r.result_code() == (ok ? ParserResultCode::SUCCESS : ParserResultCode::FAILURE), "the settings of the command are in use");
    auto all = deep ? r.subcommands().at(0).all_subcommands() : r.all_subcommands();
    CHECK(all.size() == 1 && all[0]->id() == 5 && all[0]->name() == "cmd", "the id of the command");
    auto c = (deep ? r.subcommands().at(0) : r).subcommands().at(0);
    auto in = c.all_subcommands();
    CHECK(in.size() == 2 && in[0]->id() == 3 && in[1]->id() == 4, "the ids of the sub-commands");
    sym_reach(ok ? "success" : "failure");
}

// The views of a command list exactly what was added to it, in order.
extern "C" void h_c27_inventory()
{
    bool nested = sym_flag("nested"), move = sym_flag("move");
    unsigned no = sym_pick("options", 4), na = sym_pick("arguments", 3), nc = sym_pick("commands", 4);
    sym_assume(na == 0 || nc == 0);
    Str want;
    auto set = [&](auto& p) {
        auto add = [&](auto& x) { if (move) p.add(std::move(x)); else p.add(x); };
        for (unsigned i = 0; i < no; i++)
        {
            Str f = "-"; f += (char)('a' + i);
            std::vector<Str> flags{f};
            for (unsigned k = 0; k < i; k++) { flags.push_back("--" + Str(k + 1, (char)('a' + i))); if (k) flags.back() += '='; }
            Option o; o.flags(flags);
            auto type = (OptionType)sym_u8("type", 0, 5); auto vis = (Visibility)sym_u8("visibility", 0, 3);
            bool mandatory = sym_u8("mandatory", 0, 1) != 0;
            int id = sym_u8("id", 0, 200);
            o.type(type).visibility(vis).id(id).mandatory(mandatory).alias("alias" + f).section("S" + f);
            bool arg = i == 2 || i == 1;
            if (arg) o.argument("ARG" + f); else o.constant("CON" + f);
            if (i != 1) o.operation(OptionOperation::APPEND).initial_value("INIT");
            if (i == 1) o.help("Help " + f); else o.help([f] { return "Help " + f; });
            want += "O:"; for (auto& x : flags) put(want, x);
            put(want, "Help " + f); put(want, "S" + f); put(want, "alias" + f); put(want, (long)vis); put(want, (long)id);
            put(want, arg ? "ARG" + f : ""); put(want, arg ? "" : "CON" + f); put(want, i != 1 ? "INIT" : "");
            put(want, (long)(i == 1 ? OptionOperation::ASSIGN : OptionOperation::APPEND)); put(want, (long)type); put(want, (long)!mandatory);
            add(o);
        }
        Str options = want; want.clear();
        for (unsigned i = 0; i < na; i++)
        {
            Str n = "Arg"; n += (char)('0' + i);
            unsigned lo = sym_u8("lo", 0, 9), hi = lo + 1 + sym_u8("extra", 0, 9);
            int id = sym_u8("id", 0, 200);
            auto vis = (Visibility)sym_u8("visibility", 0, 3);
            Argument a(n); a.count(lo, hi).id(id).visibility(vis).help("About " + n);
            if (i) a.alias("alias" + n).section("Sec");
            want += "A:"; put(want, n); put(want, "About " + n); put(want, Str(i ? "Sec" : "")); put(want, i ? "alias" + n : ""); put(want, (long)vis); put(want, (long)id);
            put(want, (long)lo); put(want, (long)hi); put(want, (long)(lo == 0));
            add(a);
        }
        want += options;
        for (unsigned i = 0; i < nc; i++)
        {
            Str n = "cmd"; n += (char)('0' + i);
            int id = sym_u8("id", 0, 200);
            auto vis = (Visibility)sym_u8("visibility", 0, 3);
            Command c(n); c.help("Help " + n).id(id).visibility(vis).section("Sec " + n);
            bool inner = i == 1;
            if (inner) { Option o("-i"); o.help("Inner"); c.add(o); Argument a("ia"); c.add(a); }
            if (i == 2) { Command cc("deep"); c.add(cc); }
            if (i == 0) c.require_subcommand(false);
            want += "C:"; put(want, n); put(want, "Help " + n); put(want, "Sec " + n); put(want, n); put(want, (long)vis); put(want, (long)id); put(want, (long)(i == 2));
            if (inner)
            {
                want += "A:ia||||"; put(want, (long)Visibility::NORMAL); put(want, 0L); put(want, 1L); put(want, 1L); put(want, 0L);
                want += "O:-i|Inner|||"; put(want, (long)Visibility::NORMAL); put(want, 0L); want += "|1||"; put(want, (long)OptionOperation::ASSIGN); put(want, (long)OptionType::NORMAL); put(want, 1L);
            }
            if (i == 2) { want += "C:deep|||deep|"; put(want, (long)Visibility::NORMAL); put(want, 0L); put(want, 0L); }
            add(c);
        }
    };
    ArgumentParser p("prog");
    p.auto_exit(false).generate_help_option(false).stream(sym_stream(0)).text(TextId::ERROR_USAGE, "");
    if (nested)
    {
        Command c("outer"); set(c); p.add(c);
        auto it = p.make_iterator(std::vector<std::string_view>{"outer"});
        std::unique_ptr<IArgumentView> v; std::string_view value;
        it.next(v, value);                                 // (false where something mandatory is missing)
        auto inner = it.parsed_arguments();                // (those of the command the iterator is in)
        sym_reach("nested");
        Str got; describe_command(got, inner.command(), false);
        CHECK(got == want, "the views list what was added");
    }
    else
    {
        set(p);
        auto it = p.make_iterator(std::vector<std::string_view>{});
        auto r = it.parsed_arguments();
        Str got; describe_command(got, r.command(), false);
        CHECK(got == want, "the views list what was added");
        CHECK(r.all_options().size() == no && r.all_arguments().size() == na && r.all_subcommands().size() == nc, "and so does the result");
    }
    sym_reach("end");
}

// copy_from adds copies of everything to whatever is there.
extern "C" void h_c27_copy_from()
{
    unsigned kind = sym_pick("kind", 3), k = sym_pick("change", CMD_CHANGES);
    bool to_parser = sym_flag("to parser"), own = sym_flag("own"), copy_changed = sym_flag("change copy");
    auto target = [&](auto& x) { if (own) x.add(Option("-x").help("Own option")); };
    auto make = [&] { Command c = make_cmd(kind); if (kind == 0) c.add(Option("-y")); return c; };
    Command source = make();
    const Str before = safely(source);
    auto put_all = [&](auto& x) {                          // what copy_from must amount to
        target(x);
        if (kind) { x.text(TextId::HELP, "Cmd help").text(TextId::ABOUT, "Cmd about").text(TextId::INITIAL_TEXT, "First").text(TextId::FINAL_TEXT, "Last"); x.add(make_opt(1)); }
        else x.add(Option("-y"));
        if (kind == 1) { Argument a = make_arg(1); x.add(a); }
        if (kind == 2) { Command s("inner"); s.help("Inner help").section("CURRENT").add(make_arg(2)).add(Option("-i")); x.add(s).allow_multiple_subcommands(true); }
    };
    static const std::vector<Line> lines = {{}, {"-o", "x", "a"}, {"-o", "x", "inner", "a", "inner", "-i"}, {"cmd", "-o", "x", "a", "b", "-y"}, {"cmd", "inner", "a", "inner", "-i"}};
    static const std::vector<std::vector<Str>> paths = {{}, {"inner"}, {"cmd"}, {"cmd", "inner"}};
    auto parser = [&] { ArgumentParser p("prog"); p.auto_exit(false).line_width(120).generate_help_option(false).stream(sym_stream(1)); return p; };
    auto p = parser(), q = parser();
    if (to_parser)
    {
        target(p);
        p.copy_from(source);
        put_all(q);
        change(source, k);
    }
    else
    {
        Command c("cmd"), d("cmd");
        target(c);
        c.copy_from(source);
        if (copy_changed)
        {
            Command e(c);
            change(c, k);
            CHECK(safely(source) == before, "copy_from leaves the source alone");
            c = e;
        }
        else change(source, k);
        put_all(d);
        p.add(c); q.add(d);
    }
    auto x = look(p, paths, lines), y = look(q, paths, lines);
    CHECK(x == y, "copy_from adds a copy of everything");
    // a text that is there already
    Command e("e"), s; e.text(TextId::USAGE, "U"); s.text(TextId::USAGE, "V");
    bool threw = false;
    try { e.copy_from(s); } catch (const ArgosException&) { threw = true; }
    CHECK(threw, "copying a text that is there already is an error");
    Command gone(std::move(s));
    threw = false;
    try { e.copy_from(s); } catch (const ArgosException&) { threw = true; }
    CHECK(threw, "copying from a moved command is an error");
    sym_reach("end");
}

// A moved parser keeps everything; the one it was moved from is unusable.
extern "C" void h_c27_parser()
{
    auto make = [&] { ArgumentParser p("prog"); p.auto_exit(false).line_width(120).version("1.0").stream(sym_stream(1)).add(make_opt(1)).add(make_arg(1)); p.about("About"); return p; };
    auto a = make(), b = make();
    ArgumentParser c("other");
    std::unique_ptr<ArgumentParser> n;
    ArgumentParser* m = &c;
    switch (sym_pick("how", 3))
    {
    case 0: n = std::make_unique<ArgumentParser>(std::move(a)); m = n.get(); break;
    case 1: c = std::move(a); break;
    default: c = a.move();
    }
    CHECK(look(*m, PATHS, LINES) == look(b, PATHS, LINES), "moving keeps everything");
    auto throws = [&](auto f) { try { f(); } catch (const ArgosException&) { return true; } return false; };
    bool t = false;
    std::vector<std::string_view> none;
    char name[] = "prog"; char* argv[] = {name, nullptr};
    const auto& ca = a;
    switch (sym_pick("use", 14))
    {
    case 0: t = throws([&] { a.add(Option("-p")); }); break;
    case 1: t = throws([&] { a.add(Argument("p")); }); break;
    case 2: t = throws([&] { a.add(Command("p")); }); break;
    case 3: t = throws([&] { (void)a.parse(none); }); break;
    case 4: t = throws([&] { (void)ca.parse(none); }); break;
    case 5: t = throws([&] { a.write_help_text(); }); break;
    case 6: t = throws([&] { a.about("x"); }); break;
    case 7: t = throws([&] { a.text(TextId::USAGE, "x"); }); break;
    case 8: t = throws([&] { a.copy_from(Command("p")); }); break;
    case 9: t = throws([&] { (void)a.make_iterator(none); }); break;
    case 10: t = throws([&] { a.line_width(3); }); break;
    case 11: t = throws([&] { (void)a.parse(1, argv); }); break;
    case 12: t = throws([&] { (void)ca.make_iterator(1, argv); }); break;
    default: t = throws([&] { (void)a.option_style(); });
    }
    CHECK(t, "a moved parser can not be used");
    sym_reach("end");
}
// every use of a definition that has been added or moved from throws
template <typename T, typename F> static bool use_throws(T& t, F f) { try { f(t); } catch (const ArgosException&) { return true; } return false; }
template <typename T> static T moved_from(T t, unsigned how)
{
    T x(std::move(t));
    switch (how)
    {
    case 0: { T y(std::move(x)); break; }
    case 1: { T y; y = std::move(x); break; }
    case 2: { ArgumentParser p("p"); p.add(x); break; }
    case 3: { ArgumentParser p("p"); p.add(std::move(x)); break; }
    default: { Command c("c"); c.add(x); }
    }
    if (sym_flag("copied")) { T z(x); return z; }
    if (sym_flag("assigned")) { T z; z = x; return z; }
    return x;
}
#define USES(T) static void (*const T##_uses[])(T&)
USES(Option) = {
    [](Option& o) { o.help("x"); }, [](Option& o) { o.help([] { return std::string("x"); }); }, [](Option& o) { o.section("x"); }, [](Option& o) { o.alias("x"); },
    [](Option& o) { o.callback(nullptr); }, [](Option& o) { o.visibility(Visibility::TEXT); }, [](Option& o) { o.id(3); }, [](Option& o) { o.operation(OptionOperation::NONE); },
    [](Option& o) { o.flag("-x"); }, [](Option& o) { o.flags({"-x"}); }, [](Option& o) { o.argument("x"); }, [](Option& o) { o.initial_value("x"); }, [](Option& o) { o.constant("x"); },
    [](Option& o) { o.constant(std::string("x")); }, [](Option& o) { o.constant(true); }, [](Option& o) { o.constant(3); }, [](Option& o) { o.constant(3LL); }, [](Option& o) { o.type(OptionType::STOP); },
    [](Option& o) { o.optional(true); }, [](Option& o) { o.mandatory(true); },
    [](Option& o) { ArgumentParser("p").add(o); }, [](Option& o) { Command("p").add(o); }, [](Option& o) { ArgumentParser("p").add(std::move(o)); }};
USES(Argument) = {
    [](Argument& o) { o.help("x"); }, [](Argument& o) { o.help([] { return std::string("x"); }); }, [](Argument& o) { o.section("x"); }, [](Argument& o) { o.alias("x"); },
    [](Argument& o) { o.callback(nullptr); }, [](Argument& o) { o.visibility(Visibility::TEXT); }, [](Argument& o) { o.id(3); }, [](Argument& o) { o.name("x"); },
    [](Argument& o) { o.optional(true); }, [](Argument& o) { o.mandatory(true); }, [](Argument& o) { o.count(2); }, [](Argument& o) { o.count(1, 2); },
    [](Argument& o) { ArgumentParser("p").add(o); }, [](Argument& o) { Command("p").add(o); }, [](Argument& o) { ArgumentParser("p").add(std::move(o)); }};
USES(Command) = {
    [](Command& o) { o.add(Argument("x")); }, [](Command& o) { o.add(Option("-x")); }, [](Command& o) { o.add(Command("x")); }, [](Command& o) { o.name("x"); }, [](Command& o) { o.help("x"); },
    [](Command& o) { o.about("x"); }, [](Command& o) { o.section("x"); }, [](Command& o) { o.current_section("x"); }, [](Command& o) { o.text(TextId::USAGE, "x"); },
    [](Command& o) { o.text(TextId::USAGE, [] { return std::string("x"); }); }, [](Command& o) { o.visibility(Visibility::TEXT); }, [](Command& o) { o.id(3); },
    [](Command& o) { o.allow_multiple_subcommands(true); }, [](Command& o) { o.require_subcommand(false); },
    [](Command& o) { Command c("c"); o.copy_from(c); }, [](Command& o) { Command c("c"); c.copy_from(o); }, [](Command& o) { ArgumentParser("p").copy_from(o); },
    [](Command& o) { ArgumentParser("p").add(o); }, [](Command& o) { Command("p").add(o); }, [](Command& o) { ArgumentParser("p").add(std::move(o)); }};
USES(ArgumentParser) = {
    [](ArgumentParser& a) { a.allow_abbreviated_options(true); }, [](ArgumentParser& a) { a.auto_exit(false); }, [](ArgumentParser& a) { a.case_insensitive(true); },
    [](ArgumentParser& a) { a.generate_help_option(false); }, [](ArgumentParser& a) { a.option_style(OptionStyle::DASH); }, [](ArgumentParser& a) { a.require_subcommand(false); },
    [](ArgumentParser& a) { a.allow_multiple_subcommands(true); }, [](ArgumentParser& a) { a.ignore_undefined_arguments(true); }, [](ArgumentParser& a) { a.ignore_undefined_options(true); },
    [](ArgumentParser& a) { a.argument_callback(nullptr); }, [](ArgumentParser& a) { a.option_callback(nullptr); }, [](ArgumentParser& a) { a.stream(nullptr); },
    [](ArgumentParser& a) { a.program_name("x"); }, [](ArgumentParser& a) { a.about("x"); }, [](ArgumentParser& a) { a.version("x"); }, [](ArgumentParser& a) { a.current_section("x"); },
    [](ArgumentParser& a) { a.section("x"); }, [](ArgumentParser& a) { a.text(TextId::USAGE, "x"); }, [](ArgumentParser& a) { a.text(TextId::USAGE, [] { return std::string("x"); }); },
    [](ArgumentParser& a) { a.line_width(50); }, [](ArgumentParser& a) { a.add_word_splitting_rule("x y"); }, [](ArgumentParser& a) { a.set_exit_codes(1, 2); },
    [](ArgumentParser& a) { a.write_subcommand_help_text({}); }, [](ArgumentParser& a) { (void)a.allow_abbreviated_options(); }, [](ArgumentParser& a) { (void)a.auto_exit(); },
    [](ArgumentParser& a) { (void)a.case_insensitive(); }, [](ArgumentParser& a) { (void)a.generate_help_option(); }, [](ArgumentParser& a) { (void)a.require_subcommand(); },
    [](ArgumentParser& a) { (void)a.allow_multiple_subcommands(); }, [](ArgumentParser& a) { (void)a.ignore_undefined_arguments(); }, [](ArgumentParser& a) { (void)a.ignore_undefined_options(); },
    [](ArgumentParser& a) { (void)a.argument_callback(); }, [](ArgumentParser& a) { (void)a.option_callback(); }, [](ArgumentParser& a) { (void)a.stream(); },
    [](ArgumentParser& a) { (void)a.program_name(); }, [](ArgumentParser& a) { (void)a.current_section(); },
    [](ArgumentParser& a) { char n[] = "p"; char* v[] = {n, nullptr}; (void)a.make_iterator(1, v); }, [](ArgumentParser& a) { (void)((const ArgumentParser&)a).make_iterator({}); },
    [](ArgumentParser& a) { char n[] = "p"; char* v[] = {n, nullptr}; (void)((const ArgumentParser&)a).parse(1, v); }};
extern "C" void h_c27_moved()
{
    bool t = false;
#define TRY(T) t = use_throws(x, T##_uses[sym_pick("use", sizeof(T##_uses) / sizeof(T##_uses[0]))])
    switch (sym_pick("kind", 4))
    {
    case 0: { auto x = moved_from(Option("-o"), sym_pick("how", 5)); TRY(Option); break; }
    case 1: { auto x = moved_from(Argument("a"), sym_pick("how", 5)); TRY(Argument); break; }
    case 2: { auto x = moved_from(Command("c"), sym_pick("how", 5)); TRY(Command); break; }
    default:
        {
            ArgumentParser x("p");
            std::vector<std::string_view> none;
            switch (sym_pick("how", 4))
            {
            case 0: { ArgumentParser y(std::move(x)); break; }
            case 1: { ArgumentParser y; y = std::move(x); break; }
            case 2: x.parse(none); break;
            default: x.make_iterator(none);
            }
            TRY(ArgumentParser);
        }
    }
    CHECK(t, "using what has been added or moved from throws");
    sym_reach("end");
}
