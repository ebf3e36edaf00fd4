// The library and the single-file distribution do the same (C28).
#include "sym.h"
#include "c28_setup.hpp"
typedef std::string Str;
typedef std::vector<Str> Line;
#define DECLARE namespace CASE { Str parse(const CaseSetup&, const Line&, int); Str help(const CaseSetup&, const Line&, const Line&, int); Str value(const Str&, int, char, int); Str define(const Line&, int, int, int); }
#define CASE case_lib
DECLARE
#undef CASE
#define CASE case_single
DECLARE
static unsigned P(const char* n, int d) { return (unsigned)sym_param(n, d); }

static CaseSetup any_setup(unsigned flags)
{
    CaseSetup c;
    c.style = sym_pick("style", 3);
    c.shape = sym_pick("shape", 3);
    c.flags = flags ? sym_pick("flags", flags) : 0;
    return c;
}
// any line
extern "C" void h_c28_lines()
{
    auto c = any_setup(0);
    static const unsigned modes[] = {0, 1 + 2, 4 + 8, 16 + 32, 1 + 4 + 16, 2 + 8 + 32};
    c.flags = modes[sym_pick("mode", 6)];
    c.by_steps = sym_flag("steps");
    Line t;
    unsigned n = sym_pick("tokens", P("tokens", 2) + 1);
    for (unsigned i = 0; i < n; i++) t.push_back(sym_string_upto("tok", 0, P("len", 2)));
    auto a = case_lib::parse(c, t, 0), b = case_single::parse(c, t, 1);
    CHECK(a == b, "both do the same with a command line");
    sym_reach("end");
    sym_obs_str(a);
}
// lines of known words
extern "C" void h_c28_words()
{
    auto c = any_setup(0);
    c.flags = sym_pick("flags", 4) + 16 + 32 + (sym_flag("ignore") ? 12 : 0);
    bool exits = sym_flag("auto exit");
    static const char* words[3][14] = {
        {"-v", "-n", "-vn3", "--num=4", "--ver", "--num", "one", "two", "-r", "-l", "-xlv", "-s", "--HELP", "--version"},
        {"/v", "/n", "/vn3", "/num=4", "/ver", "/num", "one", "two", "/r", "/l", "/x", "/s", "/?", "/VERSION"},
        {"-v", "-n", "-vn3", "-num=4", "-ver", "-num", "one", "two", "-r", "-l", "-x", "-s", "-h", "-VERSION"}};
    Line t;
    unsigned n = sym_pick("tokens", P("words", 3) + 1);
    for (unsigned i = 0; i < n; i++) t.push_back(words[c.style][sym_pick("word", 14)]);
    auto a = case_lib::parse(c, t, 0);
    if (exits)
    {
        extern Str* gExpected;
        c.auto_exit = true;
        gExpected = &a;
        auto b = case_single::parse(c, t, 1);
        CHECK(a == b, "both do the same with a command line");
        gExpected = nullptr;
        sym_reach("returned");
        return;
    }
    auto b = case_single::parse(c, t, 1);
    CHECK(a == b, "both do the same with a command line");
    sym_reach("end");
}
Str* gExpected = nullptr;
extern "C" void sym_on_exit(int code)
{
    CHECK(gExpected != nullptr, "exit");
    CHECK(code == 3 || code == 4, "exit code");
    Str text = sym_text(1);
    CHECK(text == sym_text(0), "both write the same before the exit");
    sym_reach("exited");
}
extern "C" void h_c28_help()
{
    auto c = any_setup(0);
    c.flags = sym_pick("generated", 4) * 16;
    c.width = 3 + sym_pick("width", P("widths", 40));
    static const char alphabet[] = "a -\n";
    c.text = "Information ";
    unsigned n = P("chars", 2);
    for (unsigned i = 0; i < n; i++) c.text += sym_one_of("char", alphabet, 4);
    c.text += "of characterization";
    Line path, rules;
    if (c.shape == 1 && sym_flag("sub")) path.push_back(sym_flag("second") ? "two" : "one");
    if (sym_flag("rules")) rules = {"in for ma tion", "char ac ter i za tion"};
    auto a = case_lib::help(c, path, rules, 0), b = case_single::help(c, path, rules, 1);
    CHECK(a == b, "both write the same help text");
    sym_reach("end");
}
extern "C" void h_c28_labels()
{
    static const unsigned char widths[] = {4, 12, 20, 30, 33, 36, 40, 48, 60, 72, 79, 80, 81, 100, 120, 200};
    auto c = any_setup(0);
    c.width = widths[sym_pick("width", 16)];
    c.label = 2 + sym_pick("label", P("labels", 45));
    c.text = sym_flag("long") ? "Information about this and that and some more information" : "Info";
    auto a = case_lib::help(c, {}, {}, 0), b = case_single::help(c, {}, {}, 1);
    CHECK(a == b, "both write the same help text");
    sym_reach("end");
}
extern "C" void h_c28_values()
{
    int how = (int)sym_pick("how", 9);
    Str v = sym_string_upto("v", 0, P("len", 3));
    auto a = case_lib::value(v, how, ',', 0), b = case_single::value(v, how, ',', 1);
    CHECK(a == b, "both read the same value");
    sym_reach("end");
}
extern "C" void h_c28_definitions()
{
    int style = (int)sym_pick("style", 3), settings = (int)sym_pick("settings", 64);
    Line f{sym_string_upto("flag", 1, P("len", 3))};
    if (sym_flag("second")) f.push_back(style == 1 ? "/B" : "-B");
    auto a = case_lib::define(f, style, settings, 0), b = case_single::define(f, style, settings, 1);
    CHECK(a == b, "both accept the same definitions");
    sym_reach("end");
}
