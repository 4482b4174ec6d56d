// S06: C++ contexts, builders and systems over random histories, beside a model of our own.
#include "gmatlib.h"
#include "geqslib.h"
#include "common.hpp"
#include <memory>

extern "C" int c_equations(double value);

using ngineer::ConstrainedSystem;
using ngineer::ContextHashMap;
using ngineer::SystemBuilder;
using ngineer::SystemBuilderConstraintStatus;

struct Context { std::unique_ptr<ContextHashMap> c; std::map<std::string, double> consts; bool functions; };

struct Line { std::string text; std::map<std::string, double> k; double rhs; };

struct Build
{
    std::unique_ptr<SystemBuilder> b;
    std::map<std::string, double> consts;
    std::map<std::string, double> truth; // a point that satisfies every equation
    std::vector<std::string> names;
    std::vector<std::string> vars;
    std::vector<Line> lines;
};

struct Solvable
{
    std::unique_ptr<ConstrainedSystem> s;
    std::vector<std::string> vars;
    std::vector<Line> lines;
    bool used;
};

// A linear equation in the given unknowns that holds at the truth, with a dominant coefficient for the last of them.
static Line equation(Rng &g, const std::map<std::string, double> &truth, const std::vector<std::string> &in, const std::map<std::string, double> &consts, const std::string &dominant)
{
    Line l;
    double sum = 0.0;
    for (auto &n : in)
    {
        double k = n == dominant ? g.range(5, 9) * 4 : g.range(1, 5) * (g.chance(50) ? 1 : -1);
        l.k[n] = k;
        l.text += (l.text.empty() ? "" : " + ") + ("(" + std::to_string(int(k)) + ")*" + n);
        sum += k * truth.at(n);
    }
    if (!consts.empty() && g.chance(40))
    {
        auto it = consts.begin();
        std::advance(it, g.below(unsigned(consts.size())));
        l.text += " + " + it->first;
        l.text += " = " + text(sum + it->second);
    }
    else l.text += " = " + text(sum);
    l.rhs = sum;
    return l;
}

static const char *MALFORMED[] = {"x + = 1", "x", "x = 1 = 2", "(x = 1", "x) = 2", "3 4 = x", "= 1", "x = ", "x () = 1", "2x = 1"};

template <class F> static bool attempt(Report &r, bool possible, const std::string &what, F f)
{
    std::string message;
    bool threw = false;
    try { f(); }
    catch (const std::runtime_error &e) { threw = true; message = e.what(); }
    r.check(threw != possible, (possible ? "refused:" : "accepted:") + what, what + (possible ? " fails: " + message : std::string(" does not fail")));
    if (threw) { r.check(!message.empty(), "message:" + what, what + " fails without a message"); r.count("refused"); }
    r.count(what);
    return !threw;
}

static void solve(Rng &g, Report &r, Solvable &s)
{
    double margin = g.chance(50) ? 1e-6 : 1e-3;
    unsigned limit = g.chance(10) ? 0 : 100;
    bool sane = margin > 0.0 && limit > 0 && !s.used;
    if (g.chance(5)) { margin = -1.0; sane = false; }
    r.step(sane ? "solve" : s.used ? "solve again" : "solve with unusable settings");
    std::string out;
    std::string what = s.used ? "solve again" : sane ? "solve" : "solve with unusable settings";
    bool good = attempt(r, sane, what, [&] { out = s.s->solve_system(margin, limit); });
    s.used = true;
    if (!good) return;
    std::map<std::string, double> got;
    std::stringstream lines(out);
    std::string line;
    while (std::getline(lines, line))
    {
        size_t at = line.find('=');
        r.check(at != std::string::npos, "solution", "the solution has the line '" + line + "'");
        got[line.substr(0, at)] = atof(line.c_str() + at + 1);
    }
    r.check(got.size() == s.vars.size(), "solution", "the solution has " + std::to_string(got.size()) + " values for " + std::to_string(s.vars.size()) + " unknowns: " + out);
    double error = 0.0;
    for (auto &l : s.lines)
    {
        double sum = -l.rhs;
        for (auto &k : l.k)
        {
            r.check(got.count(k.first) == 1, "solution", "the solution has no value for " + k.first);
            sum += k.second * got[k.first];
        }
        error += sum * sum;
    }
    r.check(std::sqrt(error) <= margin * 1.01 + 1e-9, "solution", "the equations are off by " + text(std::sqrt(error)) + " at " + out);
    r.count("solutions judged");
}

static void one(Rng &g, Report &r, bool thorough)
{
    std::vector<Context> contexts;
    std::vector<Build> builders;
    std::vector<Solvable> systems;
    const unsigned steps = thorough ? 60 : 30;
    int serial = 0;
    for (unsigned s = 0; s < steps; s++)
    {
        unsigned what = g.below(12);
        if (contexts.empty()) what = 0;
        switch (what)
        {
        case 0: {
            r.step("context");
            Context c;
            c.functions = g.chance(70);
            if (c.functions)
            {
                c.c.reset(new ContextHashMap());
                c.consts["pi"] = 3.14159265358979323846;
                c.consts["e"] = 2.71828182845904523536;
            }
            else c.c.reset(new ContextHashMap(ContextHashMap::newEmpty()));
            contexts.push_back(std::move(c));
            r.count("contexts");
            break;
        }
        case 1: {
            Context &c = g.pick(contexts);
            std::string n = "k" + std::to_string(g.below(4));
            double v = g.chance(40) ? g.range(-4000000, 4000000) / 7.0 : g.range(-40, 40) / 4.0;
            r.step("const " + n);
            c.c->add_const(n, v);
            c.consts[n] = v;
            r.count("constants");
            break;
        }
        case 2: case 3: {
            Context &c = g.pick(contexts);
            if (g.chance(20))
            {
                const char *bad = MALFORMED[g.below(sizeof MALFORMED / sizeof *MALFORMED)];
                r.step(std::string("builder of ") + bad);
                attempt(r, false, "builder of malformed text", [&] { SystemBuilder b(bad, *c.c); });
                break;
            }
            Build b;
            b.consts = c.consts;
            unsigned n = 1 + g.below(4);
            static const char *FREE[] = {"e", "sin", "pi", "log"};
            const unsigned shift = g.below(4);
            for (unsigned k = 0; k < n; k++)
            {
                // What an empty context does not know is free for unknowns
                b.names.push_back(!c.functions && g.chance(25) ? FREE[(k + shift) % 4] : "v" + std::to_string(serial) + "_" + std::to_string(k));
                b.truth[b.names.back()] = g.range(-20, 20) / 2.0;
            }
            serial++;
            unsigned first = 1 + g.below(n);
            b.vars.assign(b.names.begin(), b.names.begin() + first);
            b.lines.push_back(equation(g, b.truth, b.vars, b.consts, b.vars[0]));
            r.step("builder of " + b.lines[0].text);
            if (attempt(r, true, "builder", [&] { b.b.reset(new SystemBuilder(b.lines[0].text, *c.c)); })) builders.push_back(std::move(b));
            break;
        }
        case 4: case 5: case 6: case 7: {
            if (builders.empty()) break;
            Build &b = g.pick(builders);
            if (!b.b) break;
            bool full = b.lines.size() == b.vars.size();
            if (!full && g.chance(15))
            {
                const char *bad = MALFORMED[g.below(sizeof MALFORMED / sizeof *MALFORMED)];
                r.step(std::string("constrain with ") + bad);
                auto got = b.b->try_constrain_with(bad);
                r.check(int(got) == -1, "status", std::string("constraining with ") + bad + " is answered with " + std::to_string(int(got)));
                r.count("malformed");
            }
            else
            {
                std::vector<std::string> in = b.vars;
                unsigned fresh = 0;
                while (in.size() < b.names.size() && g.chance(55)) { in.push_back(b.names[in.size()]); fresh++; }
                std::string dominant = b.lines.size() < in.size() ? in[b.lines.size()] : in[0];
                Line l = equation(g, b.truth, in, b.consts, dominant);
                int want = full ? 2 : fresh > 1 ? 0 : 1;
                r.step("constrain with " + l.text);
                auto got = b.b->try_constrain_with(l.text);
                r.check(int(got) == want, "status", "constraining with " + l.text + " is answered with " + std::to_string(int(got)) + ", not " + std::to_string(want));
                if (want == 1) { b.vars = in; b.lines.push_back(l); }
                r.count(want == 2 ? "over-constrained" : want == 1 ? "constrained" : "not constrained");
                r.seen(std::to_string(b.vars.size()) + "/" + std::to_string(b.lines.size()) + "/" + std::to_string(want) + "/" + std::to_string(builders.size()) + "/" + std::to_string(systems.size()));
            }
            bool is = int(b.b->is_fully_constrained()) == 1;
            r.check(is == (b.lines.size() == b.vars.size()), "constrained", "the builder says that it is " + std::string(is ? "" : "not ") + "constrained, with " + std::to_string(b.lines.size()) + " equations and " + std::to_string(b.vars.size()) + " unknowns");
            break;
        }
        case 8: {
            if (builders.empty()) break;
            unsigned at = g.below(unsigned(builders.size()));
            Build &b = builders[at];
            bool full = b.lines.size() == b.vars.size();
            r.step(full ? "build" : "build too early");
            Solvable v;
            v.vars = b.vars;
            v.lines = b.lines;
            v.used = false;
            if (attempt(r, full, full ? "build" : "build too early", [&] { v.s.reset(new ConstrainedSystem(b.b->build_system())); }))
            {
                systems.push_back(std::move(v));
                builders.erase(builders.begin() + at);
            }
            break;
        }
        case 9: {
            if (systems.empty()) break;
            Solvable &v = g.pick(systems);
            std::string n = g.chance(70) ? v.vars[g.below(unsigned(v.vars.size()))] : "unheard";
            bool known = n != "unheard" && !v.used;
            r.step("specify " + n);
            int got = v.s->specify_variable(n, g.range(-10, 10) + 0.5, -1e6, 1e6);
            r.check((got == 1) == known, "specify", "specifying " + n + " is answered with " + std::to_string(got));
            r.count("specified");
            break;
        }
        case 10: {
            if (systems.empty()) break;
            solve(g, r, g.pick(systems));
            break;
        }
        case 11: {
            switch (g.below(4))
            {
            case 0: if (!contexts.empty()) { r.step("drop context"); contexts.erase(contexts.begin() + g.below(unsigned(contexts.size()))); } break;
            case 1: if (!builders.empty()) { r.step("drop builder"); builders.erase(builders.begin() + g.below(unsigned(builders.size()))); } break;
            case 2: if (!systems.empty()) { r.step("drop system"); r.count(systems[0].used ? "dropped used system" : "dropped system"); systems.erase(systems.begin()); } break;
            default: {
                r.step("C");
                int fault = c_equations(g.range(-30, 30) / 4.0);
                r.check(fault == 0, "c-" + std::to_string(fault), "call " + std::to_string(fault) + " through the C header misbehaves");
                r.count("C calls");
                if (!systems.empty() && systems.back().s)
                {
                    ConstrainedSystem moved(std::move(*systems.back().s));
                    systems.back().s.reset(new ConstrainedSystem(std::move(moved)));
                    r.count("moved");
                }
            }
            }
            break;
        }
        }
    }
    r.step("end");
}

int main(int argc, char **argv)
{
    bool thorough[1] = {false};
    return run_cases(argc, argv, [&](Rng &g, Report &r) { one(g, r, thorough[0]); }, thorough);
}
