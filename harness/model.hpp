// Reference model of the command line language, written from the
// documentation and the properties, not from the implementation: tokens are
// lexed into items (option occurrence, unknown option, plain token), the items
// up to the end of the current command's part form a segment whose plain
// tokens are distributed by their number, and the effects are replayed in
// order on value slots.
#pragma once
#include "sym.h"
#ifndef ARGOS_INCLUDED
#include <Argos/Argos.hpp>
#endif

namespace model
{
using namespace argos;

struct MOpt
{
    std::vector<std::string> flags;
    std::string arg;                                  // argument name
    OptionOperation op = OptionOperation::ASSIGN;
    std::string constant, alias, initial;
    bool mandatory = false;
    OptionType type = OptionType::NORMAL;
    std::vector<std::string> inserts;                 // by its callback
    bool parser_wide = false;                         // by the parser's callback instead
    int effect = 0;                                   // of its callback: 1 append, 2 assign, 3 clear
    size_t target = 0;                                // the item it changes
    bool by_view = false;                             // it changes its own values through its view
    std::string stored() const { return constant.empty() ? std::string("1") : constant; }
};

struct MArg
{
    std::string name;
    unsigned lo = 1, hi = 1;
    std::string alias;
    std::vector<std::string> inserts;
    bool parser_wide = false;
    struct Setter { int kind; unsigned a, b; };       // 0 optional, 1 mandatory, 2 count(a), 3 count(a, b)
    std::vector<Setter> setters;                      // in place of count(lo, hi), see set_counts
};

struct MCmd
{
    std::string name;
    std::vector<MOpt> opts;
    std::vector<MArg> args;
    std::vector<MCmd> cmds;
    int require = -1;                                 // -1 not set
    bool multi = false;
    bool needs_subcommand() const { return require < 0 ? !cmds.empty() : require != 0; }
    unsigned lo() const { unsigned n = 0; for (auto& a : args) n += a.lo; return n; }
    unsigned long hi() const { unsigned long n = 0; for (auto& a : args) n += a.hi; return n; }
};

struct MCfg
{
    OptionStyle style = OptionStyle::STANDARD;
    bool abbrev = false, ci = false, ign_args = false, ign_opts = false;
    MCmd root;
    char prefix() const { return style == OptionStyle::SLASH ? '/' : '-'; }
};

// ---------------------------------------------------------------- values
enum class Fault { NONE, UNKNOWN_OPTION, NO_VALUE, TOO_MANY, TOO_FEW, MISSING_OPTION, UNKNOWN_COMMAND, NO_COMMAND };

struct Item { std::string value; int src; };          // src: arguments first, then options

struct Level
{
    const MCmd* cmd = nullptr;
    std::vector<std::vector<Item>> slots;             // one per argument and option, see slot_of
    std::vector<int> slot_of;                         // -1: stores nothing
    std::vector<std::string> unprocessed;
    std::vector<size_t> subs;
    size_t npos = 0;
};

struct Step { char kind; const void* what; std::string value; };   // O A C U

struct Result
{
    ParserResultCode code = ParserResultCode::NONE;
    Fault fault = Fault::NONE;
    std::string culprit;                              // token or item at fault
    const MCmd* at = nullptr;                         // the command at fault
    std::vector<const MCmd*> at_path;
    std::vector<Level> levels;
    const MOpt* stop = nullptr;
    const MCmd* help_for = nullptr;
    std::vector<Step> steps;
    size_t current = 0; bool ended = false;           // run_until
    bool ignored_group = false;
    bool split_off = false;                           // the rest of a group was left over
    bool all_read = true;                             // the parse did not end before the line
};

inline bool mhas(const std::vector<std::string>& v, const std::string& s) { for (auto& x : v) if (x == s) return true; return false; }

inline std::vector<std::string> names_of(const MCmd& c, size_t i)
{
    std::vector<std::string> n;
    if (i < c.args.size()) { n.push_back(c.args[i].name); if (!c.args[i].alias.empty()) n.push_back(c.args[i].alias); }
    else { auto& o = c.opts[i - c.args.size()]; n = o.flags; if (!o.alias.empty()) n.push_back(o.alias); }
    return n;
}

inline void init_level(Level& l, const MCmd* c)
{
    l.cmd = c;
    size_t n = c->args.size() + c->opts.size();
    l.slots.resize(n);
    for (size_t i = 0; i < n; i++) l.slot_of.push_back(i >= c->args.size() && c->opts[i - c->args.size()].op == OptionOperation::NONE ? -1 : (int)i);
    // items that share a name (own or alias) share their values
    for (size_t i = 0; i < n; i++)
        for (size_t k = 0; k < i; k++)
        {
            if (l.slot_of[i] < 0 || l.slot_of[k] < 0 || l.slot_of[i] == l.slot_of[k]) continue;
            auto a = names_of(*c, i), b = names_of(*c, k);
            bool shared = false;
            for (auto& x : a) shared = shared || mhas(b, x);
            if (!shared) continue;
            int from = l.slot_of[i], to = l.slot_of[k];
            for (auto& s : l.slot_of) if (s == from) s = to;
        }
    for (size_t i = 0; i < c->opts.size(); i++)
        if (!c->opts[i].initial.empty() && c->opts[i].op != OptionOperation::NONE)
            l.slots[(size_t)l.slot_of[c->args.size() + i]].push_back({c->opts[i].initial, (int)(c->args.size() + i)});
}

// ---------------------------------------------------------------- flags
inline char fold(char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }

inline bool flag_eq(std::string_view a, std::string_view b, bool ci)
{
    if (a.size() != b.size()) return false;
    if (!ci) return a == b;
    for (size_t i = 0; i < a.size(); i++) if (fold(a[i]) != fold(b[i])) return false;
    return true;
}

// The option that `flag` names, or null.
inline const MOpt* resolve_flag(const MCfg& g, const MCmd& c, std::string_view flag)
{
    for (auto& o : c.opts) for (auto& f : o.flags) if (flag_eq(f, flag, g.ci)) return &o;
    if (!g.abbrev) return nullptr;
    const MOpt* r = nullptr; unsigned n = 0;
    for (auto& o : c.opts) for (auto& f : o.flags)
        if (f.size() > flag.size() && flag_eq(std::string_view(f).substr(0, flag.size()), flag, g.ci)) { r = &o; n++; }
    return n == 1 ? r : nullptr;
}

inline const MCmd* resolve_command(const MCfg& g, const MCmd& c, std::string_view name)
{
    for (auto& s : c.cmds) if (flag_eq(s.name, name, g.ci)) return &s;
    return nullptr;
}

// ---------------------------------------------------------------- lexing
struct Cursor
{
    std::vector<std::string> t;
    size_t i = 0;
    std::string group;                                // flags of the current group not yet looked at
};

struct Lexeme
{
    enum Kind { END, OPTION, UNKNOWN, PLAIN } kind = END;
    const MOpt* opt = nullptr;
    std::string flag, token;                          // token: the whole command line token
    std::string value; bool has_value = false, first = true;
};

// k1: the recorded finding K1 (see KNOWN_FINDINGS.txt): the flags after an
// unknown first flag of a group are processed although the token is ignored.
inline Lexeme lex(const MCfg& g, const MCmd& c, Cursor& u, bool only_args, bool k1)
{
    Lexeme x;
    bool attached = false; std::string att;
    if (!u.group.empty())
    {
        x.first = false;
        x.token = u.t[u.i - 1];
        x.flag = std::string("-") + u.group[0];
        u.group.erase(0, 1);
        if (k1) x.first = x.flag[1] == x.token[1];    // part of K1
        x.opt = resolve_flag(g, c, x.flag);
        if (x.opt && !x.opt->arg.empty() && !u.group.empty()) { attached = true; att = u.group; u.group.clear(); }
    }
    else
    {
        if (u.i >= u.t.size()) return x;
        x.token = u.t[u.i++];
        if (only_args || x.token.size() < 2 || x.token[0] != g.prefix()) { x.kind = Lexeme::PLAIN; return x; }
        if (g.style == OptionStyle::STANDARD && x.token[1] != '-')
        {
            x.flag = x.token.substr(0, 2);
            x.opt = resolve_flag(g, c, x.flag);
            std::string rest = x.token.substr(2);
            if (!x.opt) { if (k1) u.group = rest; }
            else if (!x.opt->arg.empty() && !rest.empty()) { attached = true; att = rest; }
            else u.group = rest;
        }
        else
        {
            size_t eq = x.token.size() > 2 ? x.token.find('=', 1) : std::string::npos;
            if (eq == std::string::npos) { x.flag = x.token; x.opt = resolve_flag(g, c, x.flag); }
            else
            {
                x.flag = x.token.substr(0, eq + 1);
                x.opt = resolve_flag(g, c, x.flag);
                if (!x.opt && x.flag.size() > 2)
                {
                    x.opt = resolve_flag(g, c, std::string_view(x.flag).substr(0, eq));
                    if (x.opt && x.opt->arg.empty()) x.opt = nullptr;
                }
                attached = true; att = x.token.substr(eq + 1);
            }
        }
    }
    if (!x.opt) { x.kind = Lexeme::UNKNOWN; return x; }
    x.kind = Lexeme::OPTION;
    if (!x.opt->arg.empty())
    {
        if (attached) { x.value = att; x.has_value = true; }
        else if (u.i < u.t.size()) { x.value = u.t[u.i++]; x.has_value = true; }
    }
    return x;
}

// what is left of the line, as tokens
inline std::vector<std::string> rest_of(const Cursor& u)
{
    std::vector<std::string> r;
    if (!u.group.empty()) r.push_back("-" + u.group);
    for (size_t k = u.i; k < u.t.size(); k++) r.push_back(u.t[k]);
    return r;
}

inline void insert_tokens(Cursor& u, const std::vector<std::string>& n)
{
    if (n.empty()) return;
    auto r = rest_of(u);
    u.t.assign(n.begin(), n.end());
    for (auto& s : r) u.t.push_back(s);
    u.i = 0; u.group.clear();
}

// the rest of a group becomes a token of its own
inline void split_group(Cursor& u)
{
    auto r = rest_of(u);
    u.t = r; u.i = 0; u.group.clear();
}

inline bool stops(OptionType t) { return t == OptionType::HELP || t == OptionType::STOP || t == OptionType::EXIT || t == OptionType::LAST_ARGUMENT; }

// ---------------------------------------------------------------- parsing
class Parser
{
public:
    Parser(const MCfg& g, const std::vector<std::string>& tokens, bool k1 = false) : g(g), k1(k1) { u.t = tokens; }

    Result run()
    {
        enter(&g.root, -1);
        while (!done) step();
        r.all_read = u.i >= u.t.size() && u.group.empty() && r.fault != Fault::UNKNOWN_COMMAND && r.fault != Fault::UNKNOWN_OPTION && r.fault != Fault::TOO_MANY;
        return std::move(r);
    }

    // The state after n steps, or at the end.
    Result run_until(size_t n)
    {
        enter(&g.root, -1);
        while (!done && r.steps.size() < n) step();
        r.current = stack.back();
        r.ended = done;
        return std::move(r);
    }

private:
    const MCfg& g;
    bool k1;
    Cursor u;
    Result r;
    std::vector<size_t> stack;                        // open levels
    bool done = false, only_args = false, split_token = false;
    size_t seg_n = 0, seg_given = 0;                  // plain tokens of this part of the line

    Level& cur() { return r.levels[stack.back()]; }

    void enter(const MCmd* c, int parent)
    {
        r.levels.emplace_back();
        init_level(r.levels.back(), c);
        if (parent >= 0) r.levels[(size_t)parent].subs.push_back(r.levels.size() - 1);
        stack.push_back(r.levels.size() - 1);
        only_args = false;
        seg_given = 0;
        seg_n = look_ahead();
    }

    const MCmd* multi_parent(size_t& at) const
    {
        for (size_t k = stack.size() - 1; k-- > 0;)
            if (r.levels[stack[k]].cmd->multi) { at = k; return r.levels[stack[k]].cmd; }
        return nullptr;
    }

    const MCmd* sibling(const std::string& token, size_t given, size_t& at)
    {
        if (given < cur().cmd->lo()) return nullptr;
        auto p = multi_parent(at);
        return p ? resolve_command(g, *p, token) : nullptr;
    }

    // The number of plain tokens in the rest of this command's part of the line.
    size_t look_ahead()
    {
        const MCmd& c = *cur().cmd;
        if (c.args.empty()) return 0;
        Cursor k = u; bool oa = only_args; size_t n = seg_given, at = 0;
        for (;;)
        {
            auto x = lex(g, c, k, oa, k1);
            if (x.kind == Lexeme::END) return n;
            if (x.kind == Lexeme::UNKNOWN) continue;
            if (x.kind == Lexeme::PLAIN) { if (sibling(x.token, n, at)) return n; ++n; continue; }
            if (stops(x.opt->type)) return n;
            if (x.opt->type == OptionType::LAST_OPTION) { oa = true; if (!k.group.empty()) split_group(k); }
        }
    }

    const MArg* definition(size_t index)
    {
        const MCmd& c = *cur().cmd;
        size_t lo = c.lo(), n = seg_n < lo ? lo : seg_n, surplus = n - lo, upto = 0;
        for (auto& a : c.args)
        {
            size_t extra = surplus < a.hi - a.lo ? surplus : a.hi - a.lo;
            surplus -= extra;
            upto += a.lo + extra;
            if (index < upto) return &a;
        }
        return nullptr;
    }

    void fail(Fault f, const std::string& culprit, size_t level)
    {
        r.code = ParserResultCode::FAILURE;
        r.fault = f;
        r.culprit = culprit;
        r.at = r.levels[stack[level]].cmd;
        for (size_t k = 0; k <= level; k++) r.at_path.push_back(r.levels[stack[k]].cmd);
        leave_rest();
        done = true;
    }
    void fail(Fault f, const std::string& culprit) { fail(f, culprit, stack.size() - 1); }

    void leave_rest() { if (!u.group.empty() || split_token) r.split_off = true; for (auto& s : rest_of(u)) cur().unprocessed.push_back(s); }

    bool mandatory_ok(size_t first)
    {
        for (size_t k = stack.size(); k-- > first;)
        {
            auto& l = r.levels[stack[k]];
            for (size_t i = 0; i < l.cmd->opts.size(); i++)
            {
                if (!l.cmd->opts[i].mandatory) continue;
                int s = l.slot_of[l.cmd->args.size() + i];
                if (s < 0 || l.slots[(size_t)s].empty()) { fail(Fault::MISSING_OPTION, l.cmd->opts[i].flags[0], k); return false; }
            }
        }
        return true;
    }

    bool complete()
    {
        if (!mandatory_ok(0)) return false;
        if (cur().cmd->needs_subcommand() && cur().subs.empty()) { fail(Fault::NO_COMMAND, ""); return false; }
        if (seg_given < cur().cmd->lo()) { fail(Fault::TOO_FEW, std::to_string(seg_given)); return false; }
        return true;
    }

    void to_parent(size_t at)
    {
        stack.resize(at + 1);
        only_args = true;
        if (!u.group.empty()) split_group(u);
        seg_given = seg_n = 0;
    }

    void store(size_t item, const std::string& v, bool replace)
    {
        int s = cur().slot_of[item];
        if (s < 0) return;
        auto& slot = cur().slots[(size_t)s];
        if (replace) slot.clear();
        slot.push_back({v, (int)item});
    }

    void step()
    {
        const MCmd& c = *cur().cmd;
        auto x = lex(g, c, u, only_args, k1);
        switch (x.kind)
        {
        case Lexeme::END:
            if (complete()) { r.code = ParserResultCode::SUCCESS; done = true; }
            return;
        case Lexeme::UNKNOWN:
            if (!g.ign_opts || !x.first) return fail(Fault::UNKNOWN_OPTION, x.token);
            cur().unprocessed.push_back(x.token);
            if (g.style == OptionStyle::STANDARD && x.token[1] != '-' && x.token.size() > 2) r.ignored_group = true;
            r.steps.push_back({'U', nullptr, x.token});
            return;
        case Lexeme::PLAIN:
            return plain(c, x.token);
        case Lexeme::OPTION:
            return option(c, x);
        }
    }

    void plain(const MCmd& c, const std::string& token)
    {
        if (!c.cmds.empty())
        {
            auto s = resolve_command(g, c, token);
            if (!s) return fail(Fault::UNKNOWN_COMMAND, token);
            r.steps.push_back({'C', s, token});
            return enter(s, (int)stack.back());
        }
        size_t at = 0;
        if (auto s = sibling(token, seg_given, at))
        {
            if (!mandatory_ok(at + 1)) return;
            to_parent(at);
            r.steps.push_back({'C', s, token});
            return enter(s, (int)stack.back());
        }
        if (auto a = definition(seg_given))
        {
            ++seg_given;
            store((size_t)(a - c.args.data()), token, false);
            r.steps.push_back({'A', a, token});
            if (!a->inserts.empty()) { insert_tokens(u, a->inserts); seg_n = look_ahead(); }
            return;
        }
        if (!g.ign_args) return fail(Fault::TOO_MANY, token);
        if (split_token) r.split_off = true;
        cur().unprocessed.push_back(token);
        r.steps.push_back({'U', nullptr, token});
    }

    void option(const MCmd& c, const Lexeme& x)
    {
        const MOpt& o = *x.opt;
        size_t item = c.args.size() + (size_t)(&o - c.opts.data());
        if (!o.arg.empty() && !x.has_value) return fail(Fault::NO_VALUE, x.flag);
        const std::string v = o.arg.empty() ? o.stored() : x.value;
        switch (o.op)
        {
        case OptionOperation::ASSIGN: store(item, v, true); break;
        case OptionOperation::APPEND: store(item, v, false); break;
        case OptionOperation::CLEAR: cur().slots[(size_t)cur().slot_of[item]].clear(); break;
        case OptionOperation::NONE: break;
        }
        r.steps.push_back({'O', &o, o.arg.empty() ? std::string() : x.value});
        if (o.type == OptionType::LAST_OPTION)
        {
            only_args = true;
            if (!u.group.empty()) { split_group(u); split_token = true; }
        }
        if (o.effect)
        {
            auto& slot = cur().slots[(size_t)cur().slot_of[o.by_view ? item : o.target]];
            if (o.effect != 1) slot.clear();
            if (o.effect != 3) slot.push_back({"by callback", o.by_view ? (int)item : -1});
        }
        if (!o.inserts.empty()) { insert_tokens(u, o.inserts); seg_n = look_ahead(); }
        size_t at = 0;
        switch (o.type)
        {
        case OptionType::HELP: r.help_for = &c; [[fallthrough]];
        case OptionType::EXIT:
        case OptionType::STOP:
            r.stop = &o; r.code = ParserResultCode::STOP; leave_rest(); done = true;
            break;
        case OptionType::LAST_ARGUMENT:
            if (!complete()) return;
            if (multi_parent(at)) { to_parent(at); return; }
            r.code = ParserResultCode::SUCCESS; leave_rest(); done = true;
            break;
        default: break;
        }
    }
};

inline Result run(const MCfg& g, const std::vector<std::string>& tokens, bool k1 = false) { Parser p(g, tokens, k1); return p.run(); }

// ---------------------------------------------------------------- the real parser
template <typename T> void fill(T& p, const MCmd& c);

inline Option make_option(const MOpt& m)
{
    bool odd = m.flags[0].size() % 2;                 // a deterministic mix of the equivalent setters
    Option o = m.flags.size() == 2 && odd ? Option(m.flags[0], m.flags[1]) : m.flags.size() == 1 && odd ? Option(m.flags[0]) : Option();
    if (m.flags.size() == 1 && !odd) o.flag(m.flags[0]); else if (m.flags.size() > 2 || !odd) o.flags(m.flags);
    o.operation(m.op).type(m.type);
    if (!m.arg.empty()) o.argument(m.arg);
    if (!m.constant.empty()) o.constant(m.constant);
    if (!m.alias.empty()) o.alias(m.alias);
    if (!m.initial.empty()) o.initial_value(m.initial);
    if (odd) o.mandatory(m.mandatory); else o.optional(!m.mandatory);
    if (!m.inserts.empty() && !m.parser_wide) { auto v = m.inserts; o.callback([v](OptionCallbackArguments& a) { for (auto& s : v) a.new_arguments.push_back(s); }); }
    return o;
}

// What a sequence of setters makes of the counts.
inline void set_counts(MArg& m)
{
    m.lo = m.hi = 1;
    for (auto& s : m.setters)
        switch (s.kind)
        {
        case 0: case 1: if ((s.kind == 0) == (s.a != 0)) m.lo = 0; else if (m.lo == 0) m.lo = 1; break;
        case 2: m.lo = m.hi = s.a; break;
        default: m.lo = s.a; m.hi = s.b; break;
        }
}

inline Argument make_argument(const MArg& m)
{
    Argument a = m.name.size() % 2 ? Argument(m.name) : Argument();
    if (m.name.size() % 2 == 0) a.name(m.name);
    for (auto& s : m.setters)
        switch (s.kind)
        {
        case 0: a.optional(s.a != 0); break;
        case 1: a.mandatory(s.a != 0); break;
        case 2: a.count(s.a); break;
        default: a.count(s.a, s.b); break;
        }
    if (!m.setters.empty()) {}
    else if (m.lo == m.hi && m.lo % 2) a.count(m.lo);
    else a.count(m.lo, m.hi);
    if (!m.alias.empty()) a.alias(m.alias);
    if (!m.inserts.empty() && !m.parser_wide) { auto v = m.inserts; a.callback([v](ArgumentCallbackArguments& x) { for (auto& s : v) x.new_arguments.push_back(s); }); }
    return a;
}

inline Command make_command(const MCmd& m)
{
    Command c(m.name);
    fill(c, m);
    return c;
}

template <typename T> void fill(T& p, const MCmd& c)
{
    for (auto& o : c.opts) p.add(make_option(o));
    for (auto& a : c.args) p.add(make_argument(a));
    for (auto& s : c.cmds) p.add(make_command(s));
    if (c.require >= 0) p.require_subcommand(c.require != 0);
    p.allow_multiple_subcommands(c.multi);
}

inline ArgumentParser make_parser(const MCfg& g, bool quiet = true)
{
    ArgumentParser p("prog");
    p.auto_exit(false).generate_help_option(false).stream(sym_stream(0));
    p.option_style(g.style).allow_abbreviated_options(g.abbrev).case_insensitive(g.ci)
        .ignore_undefined_arguments(g.ign_args).ignore_undefined_options(g.ign_opts);
    if (quiet) p.text(TextId::ERROR_USAGE, "");
    fill(p, g.root);
    for (auto& o : g.root.opts)
        if (o.parser_wide) p.option_callback([&g](OptionCallbackArguments& a) { for (auto& x : g.root.opts) if (x.parser_wide && a.view.flags() == x.flags) for (auto& s : x.inserts) a.new_arguments.push_back(s); });
    for (auto& o : g.root.args)
        if (o.parser_wide) p.argument_callback([&g](ArgumentCallbackArguments& a) { for (auto& x : g.root.args) if (x.parser_wide && a.view.name() == x.name) for (auto& s : x.inserts) a.new_arguments.push_back(s); });
    return p;
}

inline bool opt_is(const OptionView& v, const MOpt& o) { return v.flags() == o.flags; }

// ---------------------------------------------------------------- comparison
inline void compare_level(const Result& m, size_t li, const ParsedArguments& r)
{
    const Level& l = m.levels[li];
    const MCmd& c = *l.cmd;
    CHECK(r.result_code() == m.code, "result code");
    if (m.code == ParserResultCode::STOP)
        CHECK(opt_is(r.stop_option(), *m.stop), "stop option");
    auto subs = r.subcommands();
    CHECK(subs.size() == l.subs.size(), "number of sub-commands entered");
    const auto& un = r.unprocessed_arguments();
    CHECK(un.size() == l.unprocessed.size(), "number of unprocessed arguments");
    for (size_t k = 0; k < un.size(); k++) CHECK(un[k] == l.unprocessed[k], "unprocessed argument");
    for (size_t i = 0; i < c.args.size() + c.opts.size(); i++)
    {
        if (l.slot_of[i] < 0) continue;
        auto& want = l.slots[(size_t)l.slot_of[i]];
        for (auto& name : names_of(c, i))
        {
            CHECK(r.has(name) == !want.empty(), "has");
            auto got = r.values(name);
            CHECK(got.size() == want.size(), "number of values");
            auto raw = got.raw_values();
            for (size_t k = 0; k < raw.size(); k++)
            {
                CHECK(raw[k] == want[k].value, "value");
                auto arg = got.value(k).argument();
                if (want[k].src < 0) { CHECK(arg == nullptr, "origin of a value set by a callback"); continue; }
                size_t src = (size_t)want[k].src;
                CHECK(arg != nullptr, "origin of a value");
                if (auto ov = dynamic_cast<const OptionView*>(arg.get()))
                    CHECK(src >= c.args.size() && opt_is(*ov, c.opts[src - c.args.size()]), "origin of a value");
                else if (auto av = dynamic_cast<const ArgumentView*>(arg.get()))
                    CHECK(src < c.args.size() && av->name() == c.args[src].name, "origin of a value");
                else
                    CHECK(false, "origin of a value");
            }
        }
    }
    for (size_t k = 0; k < subs.size(); k++)
    {
        CHECK(subs[k].name() == m.levels[l.subs[k]].cmd->name, "name of the sub-command entered");
        compare_level(m, l.subs[k], subs[k]);
    }
}

inline void codes_only(const Result& m, size_t li, const ParsedArguments& r)
{
    CHECK(r.result_code() == m.code, "result code");
    for (auto& s : r.subcommands()) codes_only(m, li, s);
}

inline void compare(const Result& m, const ParsedArguments& r)
{
    if (m.code == ParserResultCode::FAILURE) codes_only(m, 0, r);
    else compare_level(m, 0, r);
}

inline void reach(const Result& m)
{
    switch (m.code)
    {
    case ParserResultCode::SUCCESS: sym_reach("success"); break;
    case ParserResultCode::STOP: sym_reach("stop"); break;
    default: break;
    }
    switch (m.fault)
    {
    case Fault::UNKNOWN_OPTION: sym_reach("unknown option"); break;
    case Fault::NO_VALUE: sym_reach("no value"); break;
    case Fault::TOO_MANY: sym_reach("too many"); break;
    case Fault::TOO_FEW: sym_reach("too few"); break;
    case Fault::MISSING_OPTION: sym_reach("missing option"); break;
    case Fault::UNKNOWN_COMMAND: sym_reach("unknown command"); break;
    case Fault::NO_COMMAND: sym_reach("no command"); break;
    default: break;
    }
    for (auto& l : m.levels) if (!l.unprocessed.empty()) { sym_reach("unprocessed"); break; }
    if (m.levels.size() > 1) sym_reach("sub-command");
    if (m.levels.size() > 2) sym_reach("two sub-commands");
}

inline std::vector<std::string_view> views(const std::vector<std::string>& t) { return {t.begin(), t.end()}; }

// Parses the line with the real parser and with the model and compares.
inline Result check_line(const MCfg& g, const std::vector<std::string>& tokens)
{
    auto p = make_parser(g);
    auto r = p.parse(views(tokens));
    auto m = run(g, tokens);
    bool k1 = m.ignored_group && sym_param("known_K1", 0);
    if (k1) m = run(g, tokens, true);
    compare(m, r);
    if (m.code != ParserResultCode::FAILURE && !m.help_for) CHECK(sym_text(0).empty(), "output without an error or a help request");
    if (m.code == ParserResultCode::FAILURE) CHECK(!sym_text(0).empty(), "an error without a message");
    reach(m);
    sym_obs((unsigned)m.code);
    if (k1) sym_known("K1");
    return m;
}

// ---------------------------------------------------------------- command line tokens
// Any token of up to n bytes, or one of the given words, or a given stem followed by up to n bytes.
inline std::string any_token(unsigned n, const std::vector<std::string>& words, const std::vector<std::string>& stems = {})
{
    unsigned k = sym_pick("kind", 1 + (unsigned)words.size() + (unsigned)stems.size());
    if (k == 0) return sym_string_upto("tok", 0, n);
    if (k <= words.size()) return words[k - 1];
    return stems[k - 1 - words.size()] + sym_string_upto("tail", 0, n);
}
}
