// Broad parser definitions whose settings are symbolic: they are decided by
// the code (and the model) only when they are looked at, so a path covers
// every setting that makes no difference to it.
#pragma once
#include "model.hpp"

namespace model
{
typedef std::vector<std::string> Line;

inline bool lazy_flag(const char* n) { return sym_u8(n, 0, 1) != 0; }
inline unsigned lazy_pick(const char* n, int k) { return sym_u8(n, 0, k - 1); }
inline OptionType lazy_type(const char* n) { return (OptionType)lazy_pick(n, 6); }

inline MOpt mo(std::vector<std::string> flags, std::string arg = {}, OptionOperation op = OptionOperation::ASSIGN, OptionType type = OptionType::NORMAL)
{
    MOpt o; o.flags = std::move(flags); o.arg = std::move(arg); o.op = op; o.type = type;
    if (op == OptionOperation::APPEND && o.arg.empty()) o.constant = "c";
    return o;
}
inline MArg ma(std::string name, unsigned lo, unsigned hi) { MArg a; a.name = std::move(name); a.lo = lo; a.hi = hi; return a; }
inline MCmd sub(const char* name) { MCmd c; c.name = name; return c; }

// A line of up to n of the words. Once the words so far make the parse end,
// at most one more is added.
inline Line word_line(const MCfg& g, Line t, const std::vector<std::string>& words, unsigned n)
{
    for (unsigned i = 0; i < n; i++)
    {
        unsigned k = sym_pick("word", (unsigned)words.size() + 1);
        if (k == words.size()) return t;
        t.push_back(words[k]);
        if (i + 1 < n && !run(g, t).all_read)
        {
            if (sym_flag("one more")) t.push_back(words[sym_pick("word", (unsigned)words.size())]);
            return t;
        }
    }
    return t;
}

inline void lazy_settings(MCfg& g, bool ignore, bool match)
{
    if (ignore) { g.ign_args = lazy_flag("ign_args"); g.ign_opts = lazy_flag("ign_opts"); }
    if (match) { g.ci = lazy_flag("ci"); g.abbrev = lazy_flag("abbrev"); }
}

// Commands within commands; what: bits select the symbolic parts.
inline MCfg wide_tree(OptionStyle style, std::vector<std::string>& words)
{
    MCfg g;
    g.style = style;
    std::string x(1, g.prefix());
    auto& r = g.root;
    r.multi = lazy_flag("multi");
    r.require = lazy_flag("require");
    r.opts = {mo({x + "a"}, "A", OptionOperation::APPEND), mo({x + "m"}), mo({x + "t"}, "", OptionOperation::ASSIGN, lazy_type("type"))};
    r.opts[1].mandatory = lazy_flag("mandatory");
    r.cmds = {sub("p"), sub("q"), sub("r")};
    auto& p = r.cmds[0];
    unsigned lo = lazy_pick("lo", 2), extra = lazy_pick("extra", 2);
    p.args = {ma("F", lo, lo + (unsigned)(lo == 0) + extra), ma("G", 0, 2)};
    p.opts = {mo({x + "a"}), mo({x + "m"}, "M"), mo({x + "t", style == OptionStyle::STANDARD ? "--tt" : x + "tt"}, "", OptionOperation::NONE, lazy_type("type"))};
    p.opts[0].initial = "i"; p.opts[1].mandatory = lazy_flag("mandatory");
    auto& q = r.cmds[1];
    q.multi = lazy_flag("multi");
    q.require = lazy_flag("require");
    q.opts = {mo({x + "m"}), mo({x + "t"}, "", OptionOperation::ASSIGN, lazy_type("type")), mo({x + "a"}, "", OptionOperation::NONE)};
    q.opts[0].mandatory = lazy_flag("mandatory");
    q.cmds = {sub("p"), sub("s")};
    auto& qp = q.cmds[0];
    unsigned lo2 = lazy_pick("lo", 2);
    qp.args = {ma("H", lo2, lo2 + 1)};
    qp.opts = {mo({x + "a"}, "", OptionOperation::APPEND), mo({x + "t"}, "", OptionOperation::NONE, lazy_type("type"))};
    auto& s = q.cmds[1];
    s.opts = {mo({x + "m"}, "M", OptionOperation::APPEND)};
    s.opts[0].mandatory = lazy_flag("mandatory");
    s.cmds = {sub("q")};
    s.cmds[0].opts = {mo({x + "t"}, "", OptionOperation::ASSIGN, lazy_type("type"))};
    auto& rr = r.cmds[2];
    rr.args = {ma("K", 2, 2)};
    rr.opts = {mo({x + "a"}, "A", OptionOperation::NONE), mo({x + "m"}, "", OptionOperation::CLEAR)};
    words = {"p", "q", "s", "1", x + "a", x + "m", x + "t", "r"};
    if (style == OptionStyle::STANDARD) { words.push_back("-at"); words.push_back("-mt"); words.push_back("-ta"); }
    else { words.push_back(x + "a=q"); words.push_back(x + "tt"); words.push_back(x); }
    words.push_back(x + "u");
    return g;
}

// One command with options of every kind.
inline MCfg wide_flat(OptionStyle style, std::vector<std::string>& words)
{
    MCfg g;
    g.style = style;
    std::string x(1, g.prefix()), d = style == OptionStyle::STANDARD ? "--" : x;
    auto& r = g.root;
    bool with_arg = sym_flag("with_arg");
    r.opts = {mo({x + "a", d + "all"}, "A"), mo({x + "b", d + "dbe="}, "B", OptionOperation::APPEND), mo({x + "t", d + "stop"}, with_arg ? "T" : "", OptionOperation::ASSIGN, lazy_type("type")),
              mo({x + "c"}, "", OptionOperation::CLEAR), mo({x + "m", d + "dbm"}), mo({x + "v"}, "", OptionOperation::APPEND), mo({d + "stx"}, "", OptionOperation::NONE)};
    r.opts[3].alias = x + "a"; r.opts[0].initial = sym_flag("initial") ? "i" : "";
    r.opts[0].mandatory = lazy_flag("mandatory"); r.opts[1].mandatory = lazy_flag("mandatory");
    r.opts[4].alias = x + "b";
    unsigned lo = lazy_pick("lo", 3), extra = lazy_pick("extra", 3);
    r.args = {ma("F", lo, lo + (unsigned)(lo == 0) + extra)};
    if (with_arg) r.args.push_back(ma("G", 1, 1));
    words = {x + "a", x + "b", x + "t", x + "c", x + "m", x + "v", d + "al", d + "all=" + x + "v", d + "dbe=", d + "db", d + "Stop", d + "st", x + "u", "1", x};
    if (style == OptionStyle::STANDARD) { words.push_back("-vt"); words.push_back("-va1"); words.push_back("-tvm"); words.push_back("--stop=1"); words.push_back("-uv"); }
    else { words.push_back(x + "vt"); words.push_back(x + "T=1"); words.push_back(x + "b=1=2"); words.push_back(x + x); }
    return g;
}
}
