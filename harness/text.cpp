// Formatting of help and error texts (C18, C19, C20, C21).
#include "sym.h"
#include <Argos/Argos.hpp>
#include "Argos/TextFormatter.hpp"
#include "Argos/WordSplitter.hpp"
#include <optional>
using namespace argos;
typedef std::string Str;
static unsigned P(const char* n, int d) { return (unsigned)sym_param(n, d); }

// ---------------------------------------------------------------- helpers
// one character of valid UTF-8 with the given number of bytes
static Str utf8(unsigned bytes)
{
    Str s;
    switch (bytes)
    {
    case 1: s += (char)sym_u8("letter", 'a', 'z'); break;
    case 2: s += (char)sym_u8("lead", 0xC2, 0xDF); s += (char)sym_u8("cont", 0x80, 0xBF); break;
    case 3: s += (char)sym_u8("lead", 0xE1, 0xEC); s += (char)sym_u8("cont", 0x80, 0xBF); s += (char)sym_u8("cont", 0x80, 0xBF); break;
    default: s += (char)sym_u8("lead", 0xF1, 0xF3); for (int i = 0; i < 3; i++) s += (char)sym_u8("cont", 0x80, 0xBF);
    }
    return s;
}
// number of code points if s is UTF-8 (as the library understands it: lead and continuation bytes match)
static std::optional<size_t> code_points(std::string_view s)
{
    size_t n = 0;
    for (size_t i = 0; i < s.size(); n++)
    {
        unsigned char c = (unsigned char)s[i];
        size_t len = c < 0x80 ? 1 : c < 0xC0 ? 0 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : c < 0xF8 ? 4 : 0;
        if (len == 0 || i + len > s.size()) return {};
        for (size_t k = 1; k < len; k++) if (((unsigned char)s[i + k] & 0xC0) != 0x80) return {};
        i += len;
    }
    return n;
}
static size_t width_of(std::string_view s) { auto n = code_points(s); return n ? *n : s.size(); }
// words are measured one by one
static size_t line_width_of(std::string_view l)
{
    size_t n = 0, b = 0;
    for (size_t i = 0; i <= l.size(); i++)
        if (i == l.size() || l[i] == ' ') { n += width_of(l.substr(b, i - b)) + (i < l.size()); b = i + 1; }
    return n;
}
static std::vector<Str> lines_of(const Str& s)
{
    std::vector<Str> l{""};
    for (char c : s) if (c == '\n') l.emplace_back(); else l.back() += c;
    return l;
}
static bool is_space(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
// every letter or multi-byte character becomes an x
static Str shape(const Str& s)
{
    Str r;
    for (char c : s)
        if (((unsigned char)c & 0xC0) == 0x80) continue;
        else r += (c >= 'a' && c <= 'z') || (c & 0x80) ? 'x' : c;
    return r;
}
// a byte of the alphabet; the path does not split here
static Str alpha(const char* set, unsigned n) { Str s; for (unsigned i = 0; i < n; i++) s += sym_one_of("char", set, (unsigned)__builtin_strlen(set)); return s; }

struct Setup { unsigned width = 20, indent = 0; };
static void start(TextFormatter& f, const Setup& s) { if (s.indent) f.push_indentation(s.indent); }
static Str format(const Str& text, const Setup& s, const std::vector<Str>& rules = {}, int stream = 0)
{
    TextFormatter f(sym_stream(stream), s.width);
    for (auto& r : rules) f.word_splitter().add_word(r);
    start(f, s);
    f.write_words(text);
    f.newline();
    return sym_text(stream);
}

// ------------------------------------------------------------------ C18
// Letters of any number of bytes are laid out like ASCII letters.
extern "C" void h_c18_layout()
{
    unsigned n = 1 + sym_pick("chars", P("chars", 6));
    Str t, a;
    for (unsigned i = 0; i < n; i++)
    {
        unsigned k = sym_pick("bytes", 6);
        if (k == 0) { t += ' '; a += ' '; }
        else if (k == 5) { t += '\n'; a += '\n'; }
        else { t += utf8(k); a += 'x'; }
    }
    Setup s{3 + sym_pick("width", P("widths", 4)), sym_pick("indent", 2)};
    std::vector<Str> rt, ra;
    auto o1 = format(t, s, rt, 0), o2 = format(a, s, ra, 1);
    CHECK(shape(o1) == o2, "multi-byte text is laid out like ASCII text");
    sym_reach("end");
    for (size_t i = 1; i < o1.size(); i++) if (o1[i] == '\n' && o1[i - 1] == '-') sym_reach("hyphenated");
    sym_obs_str(o1);
}
// A word with a splitting rule
extern "C" void h_c18_rule()
{
    unsigned n = 3 + sym_pick("chars", P("chars", 3));
    Str rt, ra, wt, wa;
    for (unsigned i = 0; i < n; i++)
    {
        if (i && sym_flag("split")) { rt += ' '; ra += ' '; }
        Str c = utf8(1 + sym_pick("bytes", 4)), x(1, (char)('a' + i));
        rt += c; ra += x; wt += c; wa += x;
    }
    Setup s{3 + sym_pick("width", 4), 0};
    auto o1 = format(wt + " " + wt, s, {rt}, 0), o2 = format(wa + " " + wa, s, {ra}, 1);
    CHECK(shape(o1) == shape(o2), "multi-byte words are split like ASCII words");
    sym_reach("end");
}
// Any valid text: no character is broken
extern "C" void h_c18_unbroken()
{
    unsigned n = 1 + sym_pick("chars", P("chars", 4));
    Str t;
    for (unsigned i = 0; i < n; i++)
    {
        unsigned k = sym_pick("bytes", 4);
        if (k == 0) t += (char)sym_u8("ascii", 1, 127); else t += utf8(k + 1);
    }
    Setup s{3 + sym_pick("width", 3), 0};
    auto o = format(t, s);
    for (auto& l : lines_of(o)) CHECK(code_points(l).has_value(), "a character was broken");
    sym_reach("end");
    sym_obs_str(o);
}
// Any bytes: the width of a word
extern "C" void h_c18_width()
{
    auto w = sym_string_upto("word", 1, P("len", 4));
    for (char c : w) sym_assume(!is_space(c));
    // encodings that only some decoders reject
    for (size_t i = 0; i < w.size(); i++)
    {
        unsigned char c = (unsigned char)w[i], d = i + 1 < w.size() ? (unsigned char)w[i + 1] : 0x80;
        sym_assume(!(c == 0xC0 || c == 0xC1 || (c == 0xE0 && d < 0xA0) || (c == 0xED && d >= 0xA0) || (c == 0xF0 && d < 0x90) || (c == 0xF4 && d >= 0x90) || (c > 0xF4 && c < 0xF8)));
    }
    TextFormatter f(sym_stream(0), 20);
    f.write_words(w);
    unsigned width = f.current_line_width();
    f.newline();
    auto cp = code_points(w);
    CHECK(width == (cp ? *cp : w.size()), "width of a word");
    CHECK(sym_text(0) == w + "\n", "text of a word");
    sym_reach(cp ? "valid" : "invalid");
}
// The columns of the help text
extern "C" void h_c18_help()
{
    Str a, b;
    unsigned n = 1 + sym_pick("chars", P("chars", 3));
    for (unsigned i = 0; i < n; i++) { a += utf8(1 + sym_pick("bytes", 4)); b += 'x'; }
    unsigned width = 16 + sym_pick("width", P("widths", 24));
    bool both = sym_flag("in help text");
    for (int k = 0; k < 2; k++)
    {
        auto& s = k ? b : a;
        ArgumentParser p("prog");
        p.auto_exit(false).stream(sym_stream(k)).line_width(width).generate_help_option(false).text(TextId::USAGE, "");
        p.add(Argument(s).help("Text."));
        p.add(Option({"-f"}).argument(s).help(both ? s + " text." : Str("Longer text.")));
        p.add(Option({"-o"}).help("Text."));
        p.write_help_text();
    }
    CHECK(shape(sym_text(0)) == shape(sym_text(1)), "the help text is laid out in code points");
    sym_reach("end");
}

// Long words and long texts
extern "C" void h_c18_long()
{
    static const char* const chars[] = {"x", "\xC3\xA6", "\xE2\x82\xAC", "\xF0\x9F\x98\x80"};
    unsigned fill = sym_pick("bytes", 4), n = 1 + sym_pick("chars", P("chars", 44)), at = sym_pick("at", 5);
    bool words = sym_flag("words"), rule = !words && sym_flag("rule");
    unsigned pos = at == 0 ? 0 : at == 1 ? n / 3 : at == 2 ? n / 2 : at == 3 ? n - 1 : n;  // (n: none)
    Str t, a, rt, ra;
    for (unsigned i = 0; i < n; i++)
    {
        Str c = i == pos ? utf8(1 + sym_pick("special", 4)) : Str(chars[fill]);
        if (words && i % 6 == 5) { t += ' '; a += ' '; }
        if (i && i % 5 == 0) { rt += ' '; ra += ' '; }
        t += c; a += 'x'; rt += c; ra += 'x';
    }
    static const unsigned char widths[] = {3, 4, 5, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 40, 6, 10, 11, 12, 13, 14, 18, 19, 20, 21, 22, 26, 27, 28, 29, 30, 34, 35, 36, 37, 38, 39, 41, 42};
    Setup s{widths[sym_pick("width", P("widths", 40))], 0};
    std::vector<Str> r1, r2;
    if (rule) { r1.push_back(rt); r2.push_back(ra); }
    auto o1 = format(t, s, r1, 0), o2 = format(a, s, r2, 1);
    CHECK(shape(o1) == o2, "multi-byte text is laid out like ASCII text");
    for (auto& l : lines_of(o1)) CHECK(code_points(l).has_value(), "a character was broken");
    sym_reach("end");
}

// ------------------------------------------------------------------ C19
// Every line fits, or is one piece on an indentation that leaves no room.
static void check_widths(const Str& out, unsigned width, bool usage = false)
{
    for (auto& l : lines_of(out))
    {
        if (l.size() <= width || line_width_of(l) <= width) continue;
        size_t i = 0;
        while (i < l.size() && l[i] == ' ') i++;
        CHECK(i + 2 >= width, "a line is too long");
        CHECK(i < width, "a line is indented beyond its width");
        if (!usage) for (size_t k = i; k < l.size(); k++) CHECK(l[k] != ' ', "a line that is too long holds several words");
        sym_reach("unavoidable");
    }
}
// the base indentation, alignments and line breaks
extern "C" void h_c19_text()
{
    Str t = alpha("ab \t\n", 1 + sym_pick("chars", P("chars", 6)));
    Setup s{3 + sym_pick("width", P("widths", 8)), 0};
    s.indent = sym_pick("indent", s.width + 1);
    auto o = format(t, s);
    check_widths(o, s.width);
    sym_reach("end");
    sym_obs_str(o);
}
extern "C" void h_c19_markers()
{
    Str t = alpha("a1.- \n", 1 + sym_pick("chars", P("chars", 6)));
    Setup s{3 + sym_pick("width", P("widths", 5)), sym_pick("indent", 3)};
    auto o = format(t, s);
    check_widths(o, s.width);
    sym_reach("end");
    sym_obs_str(o);
}
// any bytes
extern "C" void h_c19_bytes()
{
    Str t = sym_string_upto("text", 1, P("len", 4));
    Setup s{3 + sym_pick("width", P("widths", 2)), sym_pick("indent", 2)};
    auto o = format(t, s);
    check_widths(o, s.width);
    sym_reach("end");
}
// long words between other words, with and without splitting rules
extern "C" void h_c19_long_words()
{
    static const char* const words[] = {"hyphenation", "a1234567890b", "x-y-z_0/abcdefgh", "\xC3\xA5\xC3\xA6\xC3\xB8\xE2\x82\xAC\xF0\x9F\x98\x80\xC3\xA5\xC3\xA6\xC3\xB8", "(concatenate),", "Well-being.", "aa"};
    unsigned n = 1 + sym_pick("words", P("words", 3));
    Str t;
    for (unsigned i = 0; i < n; i++)
    {
        if (i) t += alpha(" \t\n-", 1);
        t += words[sym_pick("word", 7)];
    }
    Setup s{3 + sym_pick("width", P("widths", 20)), sym_pick("indent", 2) * 2};
    std::vector<Str> rules;
    if (sym_flag("rules")) rules = {"hy phen ation", "con cat e nate", "well- be ing"};
    auto o = format(t, s, rules);
    check_widths(o, s.width);
    sym_reach("end");
    sym_obs_str(o);
}
// whole help texts and error messages
static ArgumentParser rich_parser(unsigned width, bool texts)
{
    ArgumentParser p("program" + Str(sym_pick("longer", P("longer", 2)) * 12, 'm'));
    p.auto_exit(false).stream(sym_stream(0)).line_width(width).generate_help_option(sym_flag("help option"));
    p.add_word_splitting_rule("cat e go ries").add_word_splitting_rule("in for ma tion");
    if (texts) p.about("Information about categories " + alpha("a \t\n", P("chars", 3)) + " and so on.");
    p.add(Option({"-l", "--long-option-name"}).argument("VALUE").help("Sets the value" + (texts ? ": " + alpha("a \n", 2) : Str())));
    p.add(Option({"-s"}).help("Short."));
    if (sym_flag("commands"))
    {
        p.add(Command("categories").help("Lists the categories."));
        p.add(Command("x"));
    }
    else
    {
        p.add(Argument("FILE").count(1, 3).help("The files with information."));
        p.add(Argument("<OTHER-THING>").optional(true));
    }
    return p;
}
extern "C" void h_c19_help()
{
    unsigned width = 3 + sym_pick("width", P("widths", 60));
    auto p = rich_parser(width, true);
    p.write_help_text();
    check_widths(sym_text(0), width, true);
    sym_reach("end");
}
// labels and help texts of every length
extern "C" void h_c19_columns()
{
    unsigned width = 3 + sym_pick("width", P("widths", 70)), label = sym_pick("label", P("labels", 40)), help = sym_pick("words", P("words", 14));
    unsigned kind = sym_pick("kind", 4);
    Str name(label, 'n'), text;
    unsigned at = sym_pick("line break", 5) * 3;          // (0: none)
    for (unsigned i = 0; i < help; i++) { if (i) text += i == at ? '\n' : ' '; text += i % 3 ? "xyz" : "a"; }
    ArgumentParser p("prog");
    p.auto_exit(false).stream(sym_stream(0)).line_width(width).generate_help_option(false).text(TextId::USAGE, "");
    if (kind == 0) p.add(Argument("A" + name).help(text));
    else if (kind == 1) p.add(Option("--o" + name).help(text));
    else if (kind == 2) p.add(Command("c" + name).help(text));
    else p.add(Option({"-o"}).argument("A" + name).help(text));
    p.add(Option("-p").help("a b c"));
    p.write_help_text();
    check_widths(sym_text(0), width, false);
    // the columns never take so much room that the texts don't fit
    if (width >= P("enough", 11)) for (auto& l : lines_of(sym_text(0))) CHECK(l.size() <= width, "a line is too long because of the columns");
    sym_reach("end");
}
extern "C" void h_c19_errors()
{
    unsigned width = 3 + sym_pick("width", P("widths", 40));
    auto p = rich_parser(width, false);
    Str t = alpha("a -.\t\n", P("chars", 4));
    auto r = p.parse(std::vector<std::string_view>{"--unknown-" + t});
    CHECK(r.result_code() == ParserResultCode::FAILURE, "the option is unknown");
    check_widths(sym_text(0), width, true);
    sym_reach("end");
}
// no line width: the width of the console
extern "C" void h_c19_console()
{
    unsigned console = sym_pick("console", P("console", 120));
    bool error = sym_flag("error");
    sym_set_console_width(console);
    auto p = rich_parser(0, false);
    p.about("Information about categories and so on, long enough to be broken into several lines on any console.");
    if (error) (void)p.parse(std::vector<std::string_view>{"--unknown-option-with-a-long-name-that-has-to-be-broken-" + Str(80, 'x')});
    else p.write_help_text();
    unsigned width = console ? console : 80;              // 80 if it is not a console
    if (console && console < 32) width = 32;              // the least width that is used
    check_widths(sym_text(0), width, true);
    bool used = false;
    for (auto& l : lines_of(sym_text(0))) used = used || l.size() + 12 >= width;
    CHECK(used || width > 90, "the width of the console is used");
    sym_reach("end");
}

// ------------------------------------------------------------------ C20
// The end of the word in the output: the word itself, or pieces of it on
// several lines, with or without a hyphen before the line break.
static size_t match_word(const Str& w, size_t i, const Str& out, size_t o)
{
    if (i == w.size()) return o == out.size() || is_space(out[o]) ? o : Str::npos;
    if (o < out.size() && out[o] == w[i])
        if (auto e = match_word(w, i + 1, out, o + 1); e != Str::npos) return e;
    if (i == 0) return Str::npos;
    if (o < out.size() && out[o] == '-') o++;
    if (o >= out.size() || out[o] != '\n') return Str::npos;
    o++;
    while (o < out.size() && out[o] == ' ') o++;
    if (o >= out.size() || out[o] != w[i]) return Str::npos;
    return match_word(w, i + 1, out, o + 1);
}
// The output is the text with white space, line breaks and hyphens added.
static void check_content(const Str& t, const Str& out)
{
    // words and the line breaks before each of them
    struct W { Str s; size_t breaks; };
    std::vector<W> in;
    size_t breaks = 0;
    for (size_t i = 0; i < t.size();)
    {
        if (is_space(t[i]))
        {
            if (t[i] == '\r' && i + 1 < t.size() && t[i + 1] == '\n') i++;
            if (t[i] == '\n' || t[i] == '\r') breaks++;
            i++;
        }
        else
        {
            size_t k = i; while (k < t.size() && !is_space(t[k])) k++;
            in.push_back({t.substr(i, k - i), breaks}); breaks = 0; i = k;
        }
    }
    size_t o = 0;
    bool first = true;
    for (auto& w : in)
    {
        // white space before the word
        size_t nl = 0, ws = 0;
        while (o < out.size() && (out[o] == ' ' || out[o] == '\n')) { nl += out[o] == '\n'; ws++; o++; }
        CHECK(first || ws > 0, "words were joined");
        if (w.breaks) CHECK(nl == w.breaks, "line breaks are kept");
        else CHECK(nl <= 1, "superfluous line breaks");
        first = false;
        // the word, possibly in several pieces
        auto end = match_word(w.s, 0, out, o);
        CHECK(end != Str::npos, "a word is missing, incomplete or changed");
        o = end;
    }
    size_t nl = 0;
    while (o < out.size()) { CHECK(out[o] == ' ' || out[o] == '\n', "superfluous text"); nl += out[o] == '\n'; o++; }
    CHECK(nl == breaks + 1, "line breaks at the end are kept");
}
extern "C" void h_c20_content()
{
    static const char* const sets[] = {"ab \t\n", "a1,. \n", "aA\xC3\xA6 \r\n", "1.*- \n"};
    unsigned set = sym_pick("set", 4);
    Str t = alpha(sets[set], 1 + sym_pick("chars", P("chars", 5)));
    Setup s{3 + sym_pick("width", P("widths", 4)), sym_pick("indent", 3)};
    auto o = format(t, s);
    check_content(t, o);
    sym_reach("end");
    sym_obs_str(o);
}
extern "C" void h_c20_bytes()
{
    Str t = sym_string_upto("text", 1, P("len", 4));
    Setup s{3 + sym_pick("width", P("widths", 2)), sym_pick("indent", 2)};
    auto o = format(t, s);
    check_content(t, o);
    sym_reach("end");
}
extern "C" void h_c20_words()
{
    static const char* const words[] = {"hyphenation", "a1234567890b", "x:y:z_0/abcdefgh", "\xC3\xA5\xC3\xA6\xC3\xB8\xE2\x82\xAC\xF0\x9F\x98\x80\xC3\xA5\xC3\xA6\xC3\xB8", "(concatenate),", "b", "aa"};
    unsigned n = 1 + sym_pick("words", P("words", 3));
    Str t;
    for (unsigned i = 0; i < n; i++) { if (i) t += alpha(" \t\n\r", 1); t += words[sym_pick("word", 7)]; }
    Setup s{3 + sym_pick("width", P("widths", 20)), sym_pick("indent", 2) * 2};
    std::vector<Str> rules;
    if (sym_flag("rules")) rules = {"hy phen ation", "con cat e nate"};
    auto o = format(t, s, rules);
    check_content(t, o);
    sym_reach("end");
    sym_obs_str(o);
}
// Texts do not influence each other.
extern "C" void h_c20_consecutive()
{
    static const char* const sets[] = {"a \n", "a \t", "1. \n", "- a\n"};
    const char* set = sets[sym_pick("set", 4)];
    Str a = alpha(set, sym_pick("chars", P("chars", 4) + 1)), b = alpha(set, sym_pick("chars", P("chars", 4) + 1));
    Setup s{4 + sym_pick("width", P("widths", 4)), sym_pick("indent", 3)};
    Str both;
    {
        TextFormatter f(sym_stream(0), s.width);
        start(f, s);
        f.write_words(a); f.newline();
        f.write_words(b); f.newline();
        f.write_words("xy"); f.newline();
        if (s.indent) { f.pop_indentation(); f.write_words("z"); f.newline(); }
        both = sym_text(0);
    }
    auto o1 = format(a, s, {}, 1), o2 = format(b, s, {}, 2);
    Str want = o1 + o2 + Str(s.indent, ' ') + "xy\n" + (s.indent ? "z\n" : "");
    CHECK(both == want, "a text is laid out as if it was alone");
    sym_reach("end");
    sym_obs_str(both);
}
// So are the lines of one text.
extern "C" void h_c20_lines()
{
    static const char* const sets[] = {"a ", "a \t", "1. ", "- a"};
    const char* set = sets[sym_pick("set", 4)];
    Str a = alpha(set, sym_pick("chars", P("chars", 4) + 1)), b = alpha(set, sym_pick("chars", P("chars", 4) + 1));
    static const char* const breaks[] = {"\n", "\r\n", "\r", "\n\n"};
    unsigned br = sym_pick("break", 4);
    Setup s{4 + sym_pick("width", P("widths", 4)), sym_pick("indent", 3)};
    auto both = format(a + breaks[br] + b, s, {}, 0), o1 = format(a, s, {}, 1), o2 = format(b, s, {}, 2);
    CHECK(both == o1 + (br == 3 ? "\n" : "") + o2, "a line of a text is laid out as if it was alone");
    sym_reach("end");
    sym_obs_str(both);
}
// Long texts are complete.
extern "C" void h_c20_long()
{
    unsigned n = 1 + sym_pick("words", P("words", 30)), len = 1 + sym_pick("length", P("lengths", 14));
    Setup s{3 + sym_pick("width", P("widths", 60)), sym_pick("indent", 2) * 2};
    Str t;
    unsigned at = sym_pick("at", 3), kind = sym_pick("odd", 4);
    for (unsigned i = 0; i < n; i++)
    {
        if (i) t += ' ';
        bool odd = i == (at == 0 ? 0 : at == 1 ? n / 2 : n - 1);
        if (odd && kind == 1) t += Str("-\n ") ;
        if (odd && kind == 2) t += Str(40, 'w') + "\n";
        if (odd && kind == 3) t += "\t";
        for (unsigned k = 0; k < len; k++) t += (char)('a' + (i + k) % 26);
    }
    auto o = format(t, s);
    check_content(t, o);
    check_widths(o, s.width);
    sym_reach("end");
}
// many texts
extern "C" void h_c20_many()
{
    Str a = alpha("a \t\n-1.", 1 + sym_pick("chars", P("chars", 3)));
    Setup s{6, 2};
    auto one = format(a, s, {}, 1);
    TextFormatter f(sym_stream(0), s.width);
    start(f, s);
    Str want;
    for (int i = 0; i < 6; i++) { f.write_words(a); f.newline(); want += one; }
    CHECK(sym_text(0) == want, "a text is laid out in the same way every time");
    f.pop_indentation();
    sym_reach("end");
}
// the texts of a help text do not influence each other
extern "C" void h_c20_help()
{
    Str a = alpha("a \t\n-", P("chars", 3));
    Str out[2];
    for (int k = 0; k < 2; k++)
    {
        ArgumentParser p("prog");
        p.auto_exit(false).stream(sym_stream(k)).line_width(24).generate_help_option(false);
        p.text(TextId::INITIAL_TEXT, "Initial" + (k ? a : Str()));
        p.about("About");
        p.add(Argument("A").help("Help A" + (k ? a : Str())));
        p.add(Option({"-o"}).help("Help o"));
        p.write_help_text();
        out[k] = sym_text(k);
    }
    // what follows the last text with a is the same in both
    auto tail = [](const Str& s) { auto p = s.find("OPTIONS"); return p == Str::npos ? Str("none") : s.substr(p); };
    auto t0 = tail(out[0]), t1 = tail(out[1]);
    auto words = [](const Str& s) { std::vector<Str> w{""}; for (char c : s) if (is_space(c)) { if (!w.back().empty()) w.emplace_back(); } else w.back() += c; return w; };
    CHECK(t0 != "none" && words(t0) == words(t1), "the texts that follow are complete");
    for (auto& l : lines_of(t1)) CHECK(l.empty() || l[0] != ' ' || l.compare(0, 2, "  ") == 0, "indentation of the texts that follow");
    CHECK(t1.compare(0, 12, "OPTIONS\n  -o") == 0, "layout of the texts that follow");
    auto usage = [](const Str& s) { auto b = s.find("USAGE"), e = s.find("ARGUMENTS"); return b == Str::npos || e == Str::npos ? Str("none") : s.substr(b, e - b); };
    CHECK(usage(out[0]) == usage(out[1]), "usage and about do not depend on the text before them");
    sym_reach("end");
}

// ------------------------------------------------------------------ C21
static bool punct(char c) { for (const char* p = ".,;:!?()[]{}<>\"'`"; *p; p++) if (c == *p) return true; return false; }
static char low(char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }

struct Rule { Str text, word; std::vector<size_t> points; };
// letters and hyphens with split points between them
static Rule any_rule(unsigned lo, unsigned hi)
{
    Rule r;
    unsigned n = lo + sym_pick("letters", hi - lo + 1);
    for (unsigned i = 0; i < n; i++)
    {
        if (i && sym_flag("split")) { r.text += ' '; r.points.push_back(r.word.size()); }
        char c = i && i + 1 < n ? sym_one_of("letter", "a-b", 3) : 'c';
        r.text += c; r.word += c;
    }
    return r;
}
extern "C" void h_c21_rule()
{
    Rule r = any_rule(2, P("letters", 6));
    Str w;
    for (char c : r.word) w += c == '-' ? c : sym_flag("upper") ? (char)(c - 32) : c;
    unsigned np = sym_pick("punctuation", 3);
    for (unsigned i = 0; i < np; i++) w += sym_one_of("trailing", ".),'", 4);
    WordSplitter s;
    Str rule = r.text;                                    // (whatever its case)
    if (sym_flag("upper rule")) for (auto& c : rule) if (c >= 'a') c = (char)(c - 32);
    s.add_word(rule);
    // the word starts a line, or an earlier part of it has been written
    size_t from = 0;
    if (!r.points.empty() && sym_flag("continued")) from = r.points[sym_pick("from", (unsigned)r.points.size())];
    unsigned room = sym_pick("room", P("letters", 6) + 3);
    sym_assume(room < w.size() - from);                   // it does not fit as it is
    bool must = sym_flag("must split");
    auto [a, sep, b] = s.split(w, from, room, must);
    Str rest = w.substr(from);
    // the last point that fits; single characters are never split off
    std::optional<size_t> best;
    for (auto p : r.points)
        if (p > from + 1 && p - from + (r.word[p - 1] == '-' ? 0 : 1) <= room) best = p;
    if (!best && np && must && r.word.size() - from <= room && r.word.size() > from + 1) best = r.word.size();
    if (best)
    {
        CHECK(a == rest.substr(0, *best - from), "the word is split at the last point that fits");
        bool hyphen = *best != r.word.size() && r.word[*best - 1] != '-';
        CHECK(sep == (hyphen ? '-' : '\0'), "a hyphen is added unless there is one");
        CHECK(b == rest.substr(*best - from), "the parts make up the word");
        sym_reach("split");
    }
    else if (!must)
    {
        CHECK(a.empty() && sep == 0, "the word is not split elsewhere");
        sym_reach("not split");
    }
    else
    {
        CHECK(a.empty() || Str(a) + Str(b) == rest, "the parts make up the word");
        CHECK(a.size() + (sep ? 1 : 0) <= room, "the first part fits");
        CHECK(a.empty() == (room <= 2), "a word that has to be split is split");
        sym_reach("forced");
    }
}
// words without a rule
extern "C" void h_c21_default()
{
    Str w = sym_string_upto("word", 1, P("len", 5));
    unsigned room = sym_pick("room", P("len", 5) + 2);
    bool must = sym_flag("must split");
    WordSplitter s;
    s.add_word("ab cd");
    auto key = w; while (!key.empty() && punct(key.back())) key.pop_back();
    for (auto& c : key) c = low(c);
    sym_assume(key != "abcd");
    auto [a, sep, b] = s.split(w, 0, room, must);
    if (!must) { CHECK(a.empty() && sep == 0, "a word that can go to the next line is not split"); sym_reach("whole"); return; }
    if (a.empty()) { CHECK(room <= 2, "a word that has to be split is split"); sym_reach("no room"); return; }
    CHECK(Str(a) + Str(b) == w, "the parts make up the word");
    CHECK(sep == 0 || sep == '-', "the separator");
    CHECK(b.empty() || width_of(a) + (sep ? 1 : 0) <= room, "the first part fits");
    if (b.empty()) CHECK(sep == 0, "no hyphen after a whole word");
    sym_reach("split");
}
// rules are used exactly for the words they match
extern "C" void h_c21_match()
{
    WordSplitter s;
    s.add_word("ab cd");
    s.add_word("xy zxy");
    Str w = sym_string_upto("word", 4, P("len", 6));
    auto key = w; while (!key.empty() && punct(key.back())) key.pop_back();
    for (auto& c : key) c = low(c);
    auto [a, sep, b] = s.split(w, 0, 3, false);
    if (key == "abcd" || key == "xyzxy")
    {
        CHECK(a == w.substr(0, 2) && sep == '-' && b == w.substr(2), "a word that matches a rule is split by it");
        sym_reach("rule");
    }
    else { CHECK(a.empty() && sep == 0, "a word without a rule is not split"); sym_reach("no rule"); }
}
// many rules, given one by one or together, or as settings of a parser
extern "C" void h_c21_many()
{
    unsigned n = 1 + sym_pick("rules", P("rules", 40)), how = sym_pick("how", 3), at = sym_pick("word", 3), tail = sym_pick("tail", 2);
    std::vector<Str> rules;
    Str fill(tail * 20, 'z');
    for (unsigned i = 0; i < n; i++) { Str r = "w"; r += (char)('a' + i % 26); r += (char)('a' + i / 26); r += " yy y" + fill; rules.push_back(r); }
    unsigned i = at == 0 ? 0 : at == 1 ? n / 2 : n - 1;
    Str w; for (char c : rules[i]) if (c != ' ') w += c;
    if (how < 2)
    {
        WordSplitter s;
        if (how) s.add_words(rules); else for (auto& r : rules) s.add_word(r);
        for (size_t room = 3; room < w.size(); room++)
        {
            auto [a, sep, b] = s.split(w, 0, room, false);
            size_t want = room < 4 ? 0 : room < 6 ? 3 : 5;
            CHECK(a == w.substr(0, want) && (sep == '-') == (want != 0) && (want == 0 || b == w.substr(want)), "every rule is used");
        }
    }
    else
    {
        ArgumentParser p("prog");
        p.auto_exit(false).stream(sym_stream(0)).line_width(12).generate_help_option(false).text(TextId::USAGE, "");
        for (auto& r : rules) p.add_word_splitting_rule(r);
        p.text(TextId::INITIAL_TEXT, "ooooooo " + w);
        p.write_help_text();
        auto out = sym_text(0);
        CHECK(out.find("ooooooo " + w.substr(0, 3) + "-\n") == 0, "every rule is used");
    }
    sym_reach("end");
}
// malformed rules
extern "C" void h_c21_malformed()
{
    Str r = alpha("ab -", 1 + sym_pick("chars", P("chars", 5)));
    sym_assume(r.back() != ' ');
    bool bad = r[0] == ' ';
    for (size_t i = 1; i < r.size(); i++) if (r[i] == ' ' && r[i - 1] == ' ') bad = true;
    WordSplitter s;
    bool threw = false;
    try { s.add_word(r); } catch (ArgosException&) { threw = true; }
    CHECK(threw == bad, "malformed rules are rejected, others are not");
    sym_reach(bad ? "rejected" : "accepted");
}
// C19: words with splitting rules
extern "C" void h_c19_rules()
{
    Rule r = any_rule(2, P("letters", 6));
    unsigned before = sym_pick("before", 5), twice = sym_pick("twice", 2);
    Setup s{3 + sym_pick("width", P("widths", 8)), sym_pick("indent", 3)};
    Str t = before ? Str(before, 'o') + " " : Str();
    t += r.word;
    if (sym_flag("period")) t += ".";
    if (twice) t += " " + r.word;
    auto o = format(t, s, {r.text});
    check_widths(o, s.width);
    sym_reach("end");
    sym_obs_str(o);
}
// in a text: where a word with a rule breaks
extern "C" void h_c21_text()
{
    Rule r = any_rule(2, P("letters", 5));
    for (char c : r.word) sym_assume(c != '-');
    unsigned before = sym_pick("before", 5);              // what is on the line already
    unsigned width = 3 + sym_pick("width", P("widths", 5));
    sym_assume(before < width);
    Str t = (before ? Str(before, 'o') + " " : Str()) + r.word + (sym_flag("period") ? "." : "");
    Str word = t.substr(before ? before + 1 : 0);
    TextFormatter f(sym_stream(0), width);
    f.word_splitter().add_word(r.text);
    f.write_words(t);
    f.newline();
    Str out = sym_text(0);
    auto ls = lines_of(out);
    CHECK(ls.back().empty(), "ends with a line break");
    ls.pop_back();
    // expected layout
    std::vector<Str> want;
    Str line = Str(before, 'o');
    size_t from = 0;
    bool judged = true;
    while (from < word.size())
    {
        size_t used = line.size() + (line.empty() || from ? 0 : 1);
        size_t room = width > used ? width - used : 0;
        if (from && !line.empty()) { judged = false; break; }
        if (word.size() - from <= room) { line += (line.empty() ? "" : " ") + word.substr(from); from = word.size(); break; }
        std::optional<size_t> best;
        for (auto p : r.points) if (p > from + 1 && p - from + 1 <= room) best = p;
        if (!best && line.empty()) { judged = false; break; }   // has to be split by the default rule
        if (best) { line += (line.empty() ? "" : " ") + word.substr(from, *best - from) + "-"; from = *best; }
        want.push_back(line); line.clear();
    }
    if (!judged) { sym_reach("default rule"); return; }
    want.push_back(line);
    CHECK(ls == want, "words are split at the points of their rule, as late as possible");
    sym_reach(want.size() > 1 ? "split" : "one line");
    sym_obs_str(out);
}
