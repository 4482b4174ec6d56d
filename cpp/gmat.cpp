// M05: C++ matrices over random histories, beside a model of our own.
#include "gmatlib.h"
#include "common.hpp"
#include <algorithm>
#include <memory>

extern "C" int c_matrices(unsigned rows, unsigned cols);

using ngineer::Matrix;

struct Model
{
    unsigned rows, cols;
    std::vector<double> v;
    double &at(unsigned i, unsigned j) { return v[i * cols + j]; }
    double at(unsigned i, unsigned j) const { return v[i * cols + j]; }
    static Model zero(unsigned r, unsigned c) { return Model{r, c, std::vector<double>(r * c, 0.0)}; }
};

struct Pair { Matrix m; Model w; };

static double by_value(Matrix m, std::pair<unsigned, unsigned> at)
{
    // Changes its own copy only
    m.inplace_scale(3.0);
    return m[at];
}

static std::string shape(const Model &w) { return std::to_string(w.rows) + "x" + std::to_string(w.cols); }

static void agree(Report &r, const Matrix &m, const Model &w, const char *what, bool outside = false)
{
    for (unsigned i = 0; i < w.rows; i++)
        for (unsigned j = 0; j < w.cols; j++)
        {
            double got = m[{i, j}], want = w.at(i, j);
            bool good = std::abs(got - want) <= 1e-9 * (1.0 + std::abs(want));
            if (!good)
                r.check(false, "contents:" + std::string(what), what + std::string(": element (") + std::to_string(i) + ", " + std::to_string(j) + ") of " + shape(w) + " is " + text(got) + ", not " + text(want));
        }
    r.evaluations += 2;
    if (m.is_square() != (w.rows == w.cols))
        r.check(false, "shape:" + std::string(what), what + std::string(": is_square() is wrong for ") + shape(w));
    // Nothing lies outside
    if (outside && !(m[{w.rows, 0}] < -1e300 && m[{0, w.cols}] < -1e300))
        r.check(false, "shape:" + std::string(what), what + std::string(": there are elements outside ") + shape(w));
}

// What must be refused throws an error that says more than one word, what must succeed does not throw.
template <class F> static bool attempt(Report &r, bool possible, const std::string &what, F f)
{
    std::string message;
    bool threw = false;
    try { f(); }
    catch (const std::runtime_error &e) { threw = true; message = e.what(); }
    r.check(threw != possible, (possible ? "refused:" : "accepted:") + what, what + (possible ? " fails: " + message : std::string(" does not fail")));
    if (threw)
    {
        r.check(message.find(' ') != std::string::npos && message.size() > 10, "message:" + what, what + " fails with the message '" + message + "'");
        r.count("refused");
    }
    r.count(what);
    return !threw;
}

static void one(Rng &g, Report &r, bool thorough)
{
    std::vector<Pair> live;
    const unsigned steps = thorough ? 60 : 25;
    auto fresh = [&](unsigned rows, unsigned cols) {
        Pair p{Matrix(rows, cols), Model::zero(rows, cols)};
        for (unsigned i = 0; i < rows; i++)
            for (unsigned j = 0; j < cols; j++)
            {
                double x = g.chance(15) ? 0.0 : g.chance(50) ? g.range(-9, 9) : g.range(-1000000, 1000000) / 4096.0;
                r.check(p.m.set({i, j}, x), "refused:set", "set fails inside the matrix");
                p.w.at(i, j) = x;
            }
        return p;
    };
    live.push_back(fresh(1 + g.below(4), 1 + g.below(4)));
    for (unsigned s = 0; s < steps; s++)
    {
        if (live.size() > 6) { size_t k = g.below(unsigned(live.size())); r.step("drop"); live.erase(live.begin() + long(k)); }
        Pair &a = g.pick(live);
        Pair &b = g.pick(live);
        unsigned i = g.below(a.w.rows + (g.chance(20) ? 2 : 0)), j = g.below(a.w.rows + (g.chance(20) ? 2 : 0));
        double x = g.range(-8, 8) / 2.0;
        switch (g.below(18))
        {
        case 0: {
            r.step("new");
            unsigned n = 1 + g.below(6), m = g.chance(40) ? n : 1 + g.below(6);
            live.push_back(fresh(n, m));
            break;
        }
        case 1: {
            unsigned n = 1 + g.below(6);
            r.step("Identity " + std::to_string(n));
            Model w = Model::zero(n, n);
            for (unsigned k = 0; k < n; k++) w.at(k, k) = 1.0;
            live.push_back(Pair{Matrix::Identity(n), w});
            r.count("Identity");
            break;
        }
        case 2: { r.step("copy"); Pair c = a; live.push_back(c); r.count("copy"); break; }
        case 3: {
            r.step(&a == &b ? "assign to itself" : "assign");
            Matrix &back = (a.m = b.m);
            r.check(&back == &a.m, "contents:assign", "an assignment does not give the assigned matrix");
            a.w = b.w;
            r.count("assign");
            break;
        }
        case 4: {
            r.step("row scale");
            if (attempt(r, i < a.w.rows, "inplace_row_scale", [&] { a.m.inplace_row_scale(i, x); }))
                for (unsigned k = 0; k < a.w.cols; k++) a.w.at(i, k) *= x;
            break;
        }
        case 5:
            r.step("scale");
            if (attempt(r, true, "inplace_scale", [&] { a.m.inplace_scale(x); }))
                for (double &v : a.w.v) v *= x;
            break;
        case 6:
            r.step("row add");
            if (attempt(r, i < a.w.rows && j < a.w.rows, "inplace_row_add", [&] { a.m.inplace_row_add(i, j); }))
                for (unsigned k = 0; k < a.w.cols; k++) a.w.at(i, k) += a.w.at(j, k);
            break;
        case 7:
            r.step("scaled row add");
            if (attempt(r, i < a.w.rows && j < a.w.rows, "inplace_scaled_row_add", [&] { a.m.inplace_scaled_row_add(i, j, x); }))
                for (unsigned k = 0; k < a.w.cols; k++) a.w.at(i, k) += a.w.at(j, k) * x;
            break;
        case 8: {
            r.step("multiply " + shape(a.w) + " by " + shape(b.w));
            std::unique_ptr<Matrix> p;
            if (attempt(r, a.w.cols == b.w.rows, "multiply", [&] { p.reset(new Matrix(a.m * b.m)); }))
            {
                Model w = Model::zero(a.w.rows, b.w.cols);
                for (unsigned k = 0; k < w.rows; k++)
                    for (unsigned l = 0; l < w.cols; l++)
                        for (unsigned q = 0; q < a.w.cols; q++) w.at(k, l) += a.w.at(k, q) * b.w.at(q, l);
                bool tame = std::all_of(w.v.begin(), w.v.end(), [](double v) { return std::abs(v) < 1e12; });
                if (tame) { agree(r, *p, w, "multiply"); Pair n{*p, w}; live.push_back(n); }
            }
            break;
        }
        case 9: {
            r.step("augment " + shape(a.w) + " with " + shape(b.w));
            std::unique_ptr<Matrix> p;
            if (attempt(r, a.w.rows == b.w.rows, "augment", [&] { p.reset(new Matrix(a.m | b.m)); }) && a.w.cols + b.w.cols <= 12)
            {
                Model w = Model::zero(a.w.rows, a.w.cols + b.w.cols);
                for (unsigned k = 0; k < w.rows; k++)
                    for (unsigned l = 0; l < w.cols; l++) w.at(k, l) = l < a.w.cols ? a.w.at(k, l) : b.w.at(k, l - a.w.cols);
                Pair n{*p, w};
                live.push_back(n);
            }
            break;
        }
        case 10: {
            unsigned r1 = g.below(a.w.rows), r2 = g.below(a.w.rows), c1 = g.below(a.w.cols), c2 = g.below(a.w.cols);
            if (g.chance(80)) { if (r1 > r2) std::swap(r1, r2); if (c1 > c2) std::swap(c1, c2); }
            if (g.chance(15)) (g.chance(50) ? r2 : c2) += 7;
            if (g.chance(5)) (g.chance(50) ? r1 : c1) += 7;
            r.step("subset");
            std::unique_ptr<Matrix> p;
            if (attempt(r, r1 <= r2 && c1 <= c2 && r2 < a.w.rows && c2 < a.w.cols, "subset", [&] { p.reset(new Matrix(a.m.subset(r1, c1, r2, c2))); }))
            {
                Model w = Model::zero(r2 - r1 + 1, c2 - c1 + 1);
                for (unsigned k = 0; k < w.rows; k++)
                    for (unsigned l = 0; l < w.cols; l++) w.at(k, l) = a.w.at(r1 + k, c1 + l);
                Pair n{*p, w};
                live.push_back(n);
            }
            break;
        }
        case 11: {
            r.step("trace");
            double t = a.m.trace(), want = 0.0;
            if (a.w.rows == a.w.cols)
            {
                for (unsigned k = 0; k < a.w.rows; k++) want += a.w.at(k, k);
                r.check(std::abs(t - want) <= 1e-9 * (1.0 + std::abs(want)), "trace", "the trace is " + text(t) + ", not " + text(want));
            }
            else r.check(std::isnan(t), "trace", "a matrix that is not square has a trace of " + text(t));
            r.count("trace");
            break;
        }
        case 12: {
            r.step("transpose");
            Model w = Model::zero(a.w.cols, a.w.rows);
            for (unsigned k = 0; k < w.rows; k++)
                for (unsigned l = 0; l < w.cols; l++) w.at(k, l) = a.w.at(l, k);
            Pair n{a.m.transpose(), w};
            live.push_back(n);
            r.count("transpose");
            break;
        }
        case 13: {
            unsigned n = 1 + g.below(6);
            Pair p = fresh(n, n);
            bool singular = g.chance(30);
            if (singular)
            {
                unsigned z = g.below(n);
                bool row = g.chance(50);
                for (unsigned k = 0; k < n; k++)
                {
                    auto at = row ? std::make_pair(z, k) : std::make_pair(k, z);
                    p.m.set(at, 0.0);
                    p.w.at(at.first, at.second) = 0.0;
                }
            }
            else
                for (unsigned k = 0; k < n; k++)
                {
                    double big = g.chance(50) ? 4096.0 : -4096.0;
                    p.m.set({k, (k + 1) % n}, big);
                    p.w.at(k, (k + 1) % n) = big;
                }
            r.step(singular ? "invert singular " + std::to_string(n) : "invert " + std::to_string(n));
            Model w = p.w;
            if (attempt(r, !singular, "invert", [&] { p.m.inplace_invert(); }))
            {
                for (unsigned k = 0; k < n; k++)
                    for (unsigned l = 0; l < n; l++)
                    {
                        double sum = 0.0;
                        for (unsigned q = 0; q < n; q++) sum += w.at(k, q) * p.m[{q, l}];
                        r.check(std::abs(sum - (k == l)) < 1e-8, "invert", "a matrix times its inverse has " + text(sum) + " at (" + std::to_string(k) + ", " + std::to_string(l) + ")");
                    }
            }
            else agree(r, p.m, w, "failed inversion");
            if (a.w.rows != a.w.cols) { attempt(r, false, "invert not square", [&] { a.m.inplace_invert(); }); }
            break;
        }
        case 14: {
            unsigned c = g.below(a.w.cols + 2);
            r.step("set");
            bool inside = i < a.w.rows && c < a.w.cols;
            bool done = a.m.set({i, c}, x);
            r.check(done == inside, "set", std::string("set ") + (done ? "succeeds outside" : "fails inside") + " the matrix");
            if (inside) a.w.at(i, c) = x;
            r.count(inside ? "set inside" : "set outside");
            break;
        }
        case 15: {
            r.step("print");
            auto printed = [&](const Matrix &m, const Model &w) {
                std::stringstream got, want;
                got << m;
                want << '[';
                for (unsigned k = 0; k < w.rows; k++)
                    for (unsigned l = 0; l < w.cols; l++)
                        want << w.at(k, l) << (l + 1 < w.cols ? "," : k + 1 < w.rows ? ";" : "]");
                r.check(got.str() == want.str() || want.str().find("-0") != std::string::npos || got.str().find("-0") != std::string::npos, "print", "prints " + got.str() + ", not " + want.str());
                r.count("print");
            };
            printed(a.m, a.w);
            if (g.chance(30))
            {
                // Long rows, long columns, both
                unsigned kind = g.below(3);
                unsigned n = kind == 1 ? 1 + g.below(4) : 5 + g.below(36), m = kind == 0 ? 1 + g.below(4) : 5 + g.below(36);
                r.step("print " + std::to_string(n) + " x " + std::to_string(m));
                Pair p = fresh(n, m);
                printed(p.m, p.w);
                r.count("print large");
            }
            break;
        }
        case 16: {
            r.step("call by value");
            double got = by_value(a.m, {0, 0});
            r.check(std::abs(got - 3.0 * a.w.at(0, 0)) <= 1e-9 * (1.0 + std::abs(got)), "contents:call", "a copy that is scaled by 3 holds " + text(got));
            std::vector<Matrix> several(2, a.m);
            several.push_back(b.m);
            std::swap(several[0], several[2]);
            several[1].inplace_scale(0.0);
            agree(r, several[0], b.w, "swap");
            agree(r, several[2], a.w, "swap");
            r.count("containers");
            break;
        }
        case 17: {
            if (g.chance(20))
            {
                r.step("too large");
                attempt(r, false, "too large", [&] { Matrix m(0xFFFFFFFFu, 0xFFFFFFFFu); });
            }
            unsigned n = 1 + g.below(6), m = 1 + g.below(6);
            r.step("C " + std::to_string(n) + " x " + std::to_string(m));
            int fault = c_matrices(n, m);
            r.check(fault == 0, "c-" + std::to_string(fault), "call " + std::to_string(fault) + " through the C header misbehaves for " + std::to_string(n) + " x " + std::to_string(m));
            r.count("C calls");
            break;
        }
        }
        std::string sig;
        for (Pair &p : live)
        {
            // values that grew beyond what doubles hold exactly are set back
            for (double &v : p.w.v)
                if (!(std::abs(v) < 1e13)) { unsigned at = unsigned(&v - p.w.v.data()); v = 1.0; p.m.set({at / p.w.cols, at % p.w.cols}, 1.0); }
            agree(r, p.m, p.w, "history", &p == &live.back() && s % 4 == 0);
            sig += shape(p.w) + " ";
        }
        r.seen(sig + std::to_string(s % 7));
    }
    r.step("end");
}

int main(int argc, char **argv)
{
    bool thorough[1] = {false};
    return run_cases(argc, argv, [&](Rng &g, Report &r) { one(g, r, thorough[0]); }, thorough);
}
