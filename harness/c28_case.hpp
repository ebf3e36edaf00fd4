// Everything a client can see of one build of Argos, written down as a
// string; compiled once for the library and once for the single-file
// distribution (C28). ARGOS_NS is the namespace of the build, CASE_NS that of
// this code.
#include "sym.h"
#include <memory>
#include <ostream>
namespace CASE_NS
{
namespace A = ARGOS_NS;
typedef std::string Str;
typedef std::vector<Str> Line;
static void put(Str& s, std::string_view x) { s += x; s += '|'; }
static void num(Str& s, long v) { s += std::to_string(v); s += '|'; }
// without the place in the source it comes from
static Str message(const std::exception& e)
{
    Str m = e.what();
    auto n = m.find(": ");
    return n != Str::npos && n > 0 && m[n - 1] >= '0' && m[n - 1] <= '9' ? m.substr(n + 2) : m;
}
static void view(Str& s, const A::IArgumentView* v)
{
    if (!v) { s += "none|"; return; }
    put(s, v->help()); put(s, v->section()); put(s, v->alias()); num(s, (long)v->visibility()); num(s, v->id()); num(s, (long)v->argument_id()); num(s, (long)v->value_id());
}
static void dump(Str& s, const A::ParsedArguments& r)
{
    num(s, (long)r.result_code());
    if (r.result_code() == A::ParserResultCode::STOP) view(s, std::make_unique<A::OptionView>(r.stop_option()).get());
    put(s, r.name());
    auto values = [&](const Str& n) {
        num(s, r.has(n));
        auto v = r.values(n);
        num(s, (long)v.size());
        for (auto x : v) { put(s, x.as_string()); view(s, x.argument().get()); }
    };
    for (auto& a : r.all_arguments()) { view(s, a.get()); values(a->name()); }
    for (auto& o : r.all_options()) { view(s, o.get()); if (o->operation() != A::OptionOperation::NONE) values(o->flags()[0]); }
    for (auto& u : r.unprocessed_arguments()) put(s, u);
    for (auto& c : r.subcommands()) { s += "C:"; dump(s, c); }
}
static A::ArgumentParser parser(const CaseSetup& c, int stream, Str& calls)
{
    A::ArgumentParser p("prog");
    p.auto_exit(c.auto_exit).stream(sym_stream(stream)).option_style((A::OptionStyle)c.style).allow_abbreviated_options(c.flags & 1).case_insensitive(c.flags & 2)
        .ignore_undefined_options(c.flags & 4).ignore_undefined_arguments(c.flags & 8).generate_help_option(c.flags & 16).line_width(c.width).set_exit_codes(3, 4);
    if (c.flags & 32) p.version("1.2");
    Str pre = c.style == 1 ? "/" : "-", lng = c.style == 1 ? "/" : c.style == 2 ? "-" : "--";
    auto common = [&](auto& x) {
        x.add(A::Option({pre + "v", lng + "verbose"}).help("Verbose output."));
        x.add(A::Option({pre + "n", lng + "num="}).argument("N").operation(A::OptionOperation::APPEND).alias("numbers").section("SPECIAL").help(c.text));
    };
    if (c.label) p.add(A::Option(lng + Str(c.label, 'o')).help("x")).add(A::Option(pre + "q").argument(Str(c.label / 2, 'Q')));
    switch (c.shape)
    {
    case 0:
        common(p);
        p.add(A::Argument("A").optional(true).help("First.")).add(A::Argument("B").count(1, 2).id(5));
        p.add(A::Option(pre + "s").type(A::OptionType::STOP)).add(A::Option(pre + "c").operation(A::OptionOperation::CLEAR).alias("numbers"));
        break;
    case 1:
    {
        A::Command one("one"), two("two");
        common(one);
        one.add(A::Argument("F").optional(true)).help("The first.");
        two.add(A::Option(pre + "r").mandatory(true)).add(A::Option(pre + "l").type(A::OptionType::LAST_ARGUMENT)).about(c.text);
        p.add(one).add(two).allow_multiple_subcommands(c.flags & 1);
        p.add(A::Option(pre + "h").type(A::OptionType::HELP).help("Help."));
        break;
    }
    default:
        common(p);
        p.add(A::Option(pre + "l").type(A::OptionType::LAST_OPTION)).add(A::Option(pre + "x").operation(A::OptionOperation::NONE).callback([](A::OptionCallbackArguments& a) { a.new_arguments.push_back("new"); }));
        p.add(A::Argument("A").count(0, 2).callback([&calls](A::ArgumentCallbackArguments& a) { put(calls, a.value); if (a.value.size() == 2) a.builder.error("Two.", a.view); }));
        p.argument_callback([&calls](A::ArgumentCallbackArguments& a) { put(calls, a.view.name()); }).option_callback([&calls](A::OptionCallbackArguments& a) { put(calls, a.view.flags()[0]); });
        p.text(A::TextId::USAGE_TITLE, "Synopsis").text(A::TextId::FINAL_TEXT, [&c] { return c.text; });
    }
    return p;
}
// a line is parsed
Str parse(const CaseSetup& c, const Line& t, int stream)
{
    Str s, calls;
    try
    {
        auto p = parser(c, stream, calls);
        std::vector<std::string_view> v(t.begin(), t.end());
        if (c.by_steps)
        {
            auto it = p.make_iterator(v);
            std::unique_ptr<A::IArgumentView> a; std::string_view x;
            while (it.next(a, x)) { view(s, a.get()); put(s, x); }
            dump(s, it.parsed_arguments());
        }
        else dump(s, p.parse(v));
    }
    catch (const A::ArgosException& e) { put(s, message(e)); }
    return s + calls + (stream == 0 ? sym_text(0) : sym_text(1));
}
// a help text is written
Str help(const CaseSetup& c, const Line& path, const Line& rules, int stream)
{
    Str s, calls;
    try
    {
        auto p = parser(c, stream, calls);
        for (auto& r : rules) p.add_word_splitting_rule(r);
        p.about(c.text);
        p.write_subcommand_help_text(path);
    }
    catch (const A::ArgosException& e) { put(s, message(e)); }
    return s + sym_text(stream);
}
// a value is read
Str value(const Str& text, int how, char sep, int stream)
{
    Str s;
    try
    {
        A::ArgumentParser p("prog");
        p.auto_exit(false).stream(sym_stream(stream)).add(A::Argument("V").count(1, 3));
        auto r = p.parse(std::vector<std::string_view>{text, "7", "8"});
        auto v = r.value("V");
        switch (how)
        {
        case 0: num(s, v.as_int(-5)); break;
        case 1: num(s, (long)v.as_uint(5)); break;
        case 2: num(s, v.as_long(-5, 0)); break;
        case 3: num(s, (long)v.as_ullong(5, 16)); break;
        case 4: num(s, v.as_bool(true)); break;
        case 5: for (auto x : v.split(sep, 0, 3).as_strings()) put(s, x); break;
        case 6: for (auto x : v.split(sep).as_ints({})) num(s, x); break;
        case 7: for (auto x : r.values("V").as_llongs({})) num(s, (long)x); break;
        default: for (auto x : r.values("V").split(sep, 1, 2).as_strings({})) put(s, x);
        }
        num(s, (long)r.result_code());
    }
    catch (const A::ArgosException& e) { put(s, message(e)); }
    return s + sym_text(stream);
}
// an option is defined
Str define(const Line& flags, int style, int settings, int stream)
{
    Str s;
    try
    {
        A::ArgumentParser p("prog");
        p.auto_exit(false).stream(sym_stream(stream)).option_style((A::OptionStyle)style).case_insensitive(settings & 1);
        A::Option o;
        o.flags(flags).operation((A::OptionOperation)(settings >> 4));
        if (settings & 2) o.argument("A");
        if (settings & 4) o.constant("c");
        if (settings & 8) o.mandatory(true);
        p.add(o).add(A::Option(style == 1 ? "/a" : "-a"));
        dump(s, p.parse(std::vector<std::string_view>{}));
    }
    catch (const A::ArgosException& e) { put(s, message(e)); }
    return s + sym_text(stream);
}
}
