// Whole command lines against the reference model: results, messages, help
// texts and exit codes for definitions with symbolic settings.
#include "wide.hpp"
using namespace model;
static unsigned P(const char* n, int d) { return (unsigned)sym_param(n, d); }

namespace
{
struct Want
{
    bool active = false, auto_exit = false;
    const MCfg* g = nullptr;
    Result m;
};
Want* want;

ArgumentParser wide_parser(const MCfg& g, int stream)
{
    ArgumentParser p("prog");
    p.generate_help_option(false).stream(sym_stream(stream)).line_width(2000).set_exit_codes(7, 9).text(TextId::ERROR_USAGE, "");
    p.option_style(g.style).allow_abbreviated_options(g.abbrev).case_insensitive(g.ci)
        .ignore_undefined_arguments(g.ign_args).ignore_undefined_options(g.ign_opts);
    fill(p, g.root);
    return p;
}

bool find_path(const MCmd& c, const MCmd* to, std::vector<std::string>& path)
{
    if (&c == to) return true;
    for (auto& s : c.cmds) { path.push_back(s.name); if (find_path(s, to, path)) return true; path.pop_back(); }
    return false;
}

void check_output()
{
    auto& m = want->m;
    std::string t = sym_text(0);
    CHECK(sym_stdout().empty() && sym_stderr().empty(), "the configured stream is used");
    if (m.help_for)
    {
        std::vector<std::string> path;
        find_path(want->g->root, m.help_for, path);
        auto h = wide_parser(*want->g, 1);
        h.write_subcommand_help_text(path);
        CHECK(t == sym_text(1), "HELP writes the help text of the current command");
        sym_reach("help");
        return;
    }
    if (m.code != ParserResultCode::FAILURE) { CHECK(t.empty(), "output without an error or a help request"); return; }
    std::string name;
    for (auto c : m.at_path) name += name.empty() ? "prog" : " " + c->name;
    std::string line = t.substr(0, t.find('\n'));
    CHECK(line.size() > name.size() + 2 && line.substr(0, name.size() + 2) == name + ": ", "the error message starts with the full name of the command at fault");
    CHECK(line.find(m.culprit, name.size() + 2) != std::string::npos, "the error message names the token or item");
}

void check_wide(const MCfg& g, const Line& t, bool autox)
{
    Want w; want = &w;
    w.g = &g; w.auto_exit = autox;
    auto p = wide_parser(g, 0);
    p.auto_exit(autox);
    w.m = run(g, t);
    bool k1 = w.m.ignored_group && sym_param("known_K1", 0);
    if (k1) w.m = run(g, t, true);
    w.active = true;
    auto r = p.parse(views(t));
    w.active = false;
    auto& m = w.m;
    if (m.code == ParserResultCode::FAILURE || (m.stop && (m.stop->type == OptionType::HELP || m.stop->type == OptionType::EXIT)))
        CHECK(!autox, "auto_exit ends the process after an error, a help or an exit request");
    compare(m, r);
    check_output();
    reach(m);
    sym_obs((unsigned)m.code);
    if (k1) sym_known("K1");
}

// Words that enter commands before the line starts.
Line prefix_of(unsigned k)
{
    switch (k) { case 1: return {"q"}; case 2: return {"q", "s"}; case 3: return {"p"}; case 4: return {"q", "p", "1"}; default: return {}; }
}

OptionStyle some_style(unsigned mask)
{
    unsigned n = 0, s[3] = {};
    for (unsigned k = 0; k < 3; k++) if (mask >> k & 1) s[n++] = k;
    return (OptionStyle)s[sym_pick("style", n)];
}
}

extern "C" void sym_on_exit(int code)
{
    if (!want || !want->active) return;
    auto& m = want->m;
    want->active = false;
    CHECK(want->auto_exit, "exit only with auto_exit");
    bool failed = m.code == ParserResultCode::FAILURE;
    CHECK(failed || (m.stop && (m.stop->type == OptionType::HELP || m.stop->type == OptionType::EXIT)), "exit only after an error, a help or an exit request");
    CHECK(code == (failed ? 7 : 9), "exit code");
    check_output();
    sym_reach("exit");
    reach(m);
}

extern "C" void h_wide_tree()
{
    std::vector<std::string> words;
    auto g = wide_tree(some_style(P("styles", 7)), words);
    unsigned settings = P("settings", 0);
    lazy_settings(g, settings & 1, settings & 2);
    bool autox = P("exit", 0) && lazy_flag("auto_exit");
    Line t = prefix_of(sym_pick("prefix", P("prefixes", 1)));
    t = word_line(g, t, words, P("tokens", 3));
    check_wide(g, t, autox);
}

extern "C" void h_wide_flat()
{
    std::vector<std::string> words;
    auto g = wide_flat(some_style(P("styles", 7)), words);
    unsigned settings = P("settings", 3);
    lazy_settings(g, settings & 1, settings & 2);
    bool autox = P("exit", 0) && lazy_flag("auto_exit");
    auto t = word_line(g, {}, words, P("tokens", 2));
    check_wide(g, t, autox);
}

// ------------------------------------------------------------------ size
// Long lines: a word many times, another many times, and a third.
extern "C" void h_long_line()
{
    MCfg g;
    g.style = some_style(P("styles", 7));
    unsigned settings = P("settings", 0);
    lazy_settings(g, settings & 1, settings & 2);
    std::string x(1, g.prefix()), d = g.style == OptionStyle::STANDARD ? "--" : x;
    auto& r = g.root;
    r.opts = {mo({x + "a", d + "append"}, "A", OptionOperation::APPEND), mo({x + "l", d + "last="}, "L"), mo({x + "v"}, "", OptionOperation::APPEND),
              mo({x + "c"}, "", OptionOperation::CLEAR), mo({x + "s", d + "stop"}, "", OptionOperation::ASSIGN, lazy_type("type")), mo({x + "n"}, "", OptionOperation::NONE)};
    r.opts[3].alias = x + "a";
    bool few = sym_flag("few");
    r.args = {ma("F", 0, 2), ma("G", 1, few ? 9 : 60)};
    if (sym_flag("last")) r.args.push_back(ma("H", 2, 2));
    std::vector<std::string> words = {x + "a", d + "append", d + "last=vw", "1", x + "v", x + "c", x + "s", d + "last", x + "u"};
    if (g.style == OptionStyle::STANDARD) { words.push_back("-vvnvv"); words.push_back("-vna1"); words.push_back("--"); words.push_back("-vs"); }
    else words.push_back(x + "a=" + x + "b");
    unsigned n = sym_flag("many") ? 17 : few ? 5 : 9;
    auto word = [&] { return words[sym_pick("word", (unsigned)words.size())]; };
    Line t(n, word());
    if (sym_flag("second")) t.insert(t.end(), few ? 1 : 18, word());
    t.push_back(word());
    check_wide(g, t, false);
}

// Many options: any two digits at the end of a flag, whole or abbreviated.
extern "C" void h_long_options()
{
    MCfg g;
    g.style = some_style(P("styles", 7));
    lazy_settings(g, true, true);
    std::string x(1, g.prefix()), d = g.style == OptionStyle::STANDARD ? "--" : x;
    static const unsigned sizes[] = {9, 17, 40};
    unsigned n = sizes[sym_pick("options", 3)], step = 1 + 2 * sym_pick("step", 2);
    for (unsigned i = 0; i < n; i++)
    {
        unsigned k = i * step % 100;                       // defined in and out of order
        std::string f = d + "opt" + (char)('0' + k / 10) + (char)('0' + k % 10);
        MOpt o = mo({f}, k % 4 == 1 ? "V" : "");
        if (k % 8 == 5) o.flags[0] += '=';
        if (k % 5 == 3) o.flags.push_back(d + "alias" + (char)('A' + k % 26) + (char)('a' + k / 26));
        g.root.opts.push_back(o);
    }
    g.root.args = {ma("F", 0, 1)};
    std::string tok = d + (sym_flag("alias") ? "alias" : "opt");
    unsigned len = sym_pick("len", 4);
    for (unsigned i = 0; i < len && i < 2; i++) tok += (char)sym_u8("digit", i ? '0' : '/', i ? 'z' : ':');
    if (len == 3) tok += "=1";
    Line t{tok};
    if (sym_flag("value")) t.push_back("1");
    check_wide(g, t, false);
}

// Long flags, values, names and arguments around the sizes where strings change.
extern "C" void h_long_strings()
{
    MCfg g;
    g.style = some_style(P("styles", 7));
    lazy_settings(g, true, true);
    static const unsigned sizes[] = {14, 15, 16, 17, 40};
    unsigned n = sizes[sym_pick("size", 5)], m = sizes[sym_pick("value size", 5)];
    std::string x(1, g.prefix()), d = g.style == OptionStyle::STANDARD ? "--" : x, body(n - d.size() - 1, 'b');
    auto& r = g.root;
    r.opts = {mo({d + body + "x"}, "V", OptionOperation::APPEND), mo({d + body + "y="}, "W"), mo({x + "v", d + "q" + body + "z"}, "", OptionOperation::APPEND)};
    r.cmds = {sub("")}; r.cmds[0].name = "c" + body; r.cmds[0].args = {ma("F", 0, 2)};
    r.require = 0;
    unsigned what = sym_pick("what", 5);
    std::string v(m, 'w');
    char& c = v[sym_pick("place", 3) * (m - 1) / 2];
    c = sym_char("char");
    sym_assume((c > 32) | (c < 0));                          // the messages would be wrapped
    auto cut = [&](std::string s) { if (sym_flag("shorter")) s.pop_back(); s.back() = sym_char("last"); sym_assume(((s.back() > 32) | (s.back() < 0)) & (s.back() != '=')); return s; };
    Line t;
    switch (what)
    {
    case 0: t = {cut(d + body + "x"), v}; break;
    case 1: t = {cut(d + body + "y") + "=" + v}; break;
    case 2: t = {cut(d + "q" + body + "z")}; break;
    case 3: t = {cut("c" + body), v}; break;
    default: t = {v, "c" + body}; break;
    }
    check_wide(g, t, false);
}

// Commands nested deeply, and many of them.
extern "C" void h_long_tree()
{
    MCfg g;
    std::vector<std::string> words;
    unsigned depth = 1 + sym_pick("depth", P("depth", 6));
    bool multi = sym_flag("multi");
    MCmd c = sub("leaf"); c.args = {ma("F", 0, 2)}; c.opts = {mo({"-a"}, "A", OptionOperation::APPEND)};
    for (unsigned i = 0; i < depth; i++)
    {
        MCmd up = sub("c"); up.multi = multi;
        up.opts = {mo({"-a"}, "", OptionOperation::APPEND), mo({"-m"})};
        up.opts[1].mandatory = lazy_flag("mandatory");
        up.cmds = {sub("d"), c};
        up.cmds[0].args = {ma("G", 1, 2)};
        c = up;
    }
    g.root = c; g.root.name = "";
    Line t(depth - 1, "c");
    static const char* last[] = {"leaf", "d", "c", "-a", "-m", "1", "-u"};
    unsigned at = sym_pick("at", depth), k = sym_pick("insert", 7);
    if (k < 6) t.insert(t.begin() + at, last[k]);
    for (unsigned i = 0; i < P("tokens", 2); i++) { unsigned w = sym_pick("word", 8); if (w == 7) break; t.push_back(last[w]); }
    check_wide(g, t, false);
}

extern "C" void h_long_commands()
{
    MCfg g;
    lazy_settings(g, false, true);
    static const unsigned sizes[] = {9, 17, 30};
    unsigned n = sizes[sym_pick("commands", 3)];
    g.root.multi = sym_flag("multi");
    for (unsigned i = 0; i < n; i++)
    {
        MCmd c = sub("cmd"); c.name += (char)('A' + i % 7); c.name += (char)('a' + i / 7 + (i % 7 == 6 ? 20 : 0));
        if (i % 3) c.args = {ma("F", i % 3 - 1, 2)};
        g.root.cmds.push_back(c);
    }
    Line t;
    unsigned k = sym_pick("before", 8);
    for (unsigned i = 0; i < k; i++) t.push_back(g.root.cmds[(i * 3) % n].name);
    std::string tok = "cmd";
    tok += (char)sym_u8("letter", '@', 'i'); tok += (char)sym_u8("letter", 'A', 'z');
    t.push_back(tok);
    if (sym_flag("more")) t.push_back("1");
    check_wide(g, t, false);
}
