// M05: polynomials and splines are consistent with calculus and their data
#include "common.h"
#include "PROPOSAL/math/Function.h"
#include "PROPOSAL/math/Spline.h"
#include <algorithm>
#include <cstdlib>
#include <memory>
#include <nlohmann/json.hpp>
#include <unistd.h>

const char* pbt::property_id = "M05";
typedef long double ld;

static std::vector<double> gen_coeff(Ctx& c, int maxdeg)
{
    int n = int(c.i(1, maxdeg + 1));
    std::vector<double> a;
    double s = c.logu(1e-2, 1e2);
    for (int k = 0; k < n; ++k)
        a.push_back(c.flag(1, 6) ? 0. : c.flag(1, 4) ? double(c.i(-5, 5)) : c.plain(-1, 1) * s);
    return a;
}
static ld horner(std::vector<double> const& a, ld x)
{
    ld s = 0, p = 1;
    for (double k : a) {
        s += k * p;
        p *= x;
    }
    return s;
}
static ld scale(std::vector<double> const& a, ld x)
{
    ld s = 0, p = 1;
    for (double k : a) {
        s += fabsl(k * p);
        p *= fabsl(x);
    }
    return s;
}
static std::string show(std::vector<double> const& a)
{
    std::string s;
    for (double x : a)
        s += strf("%s%.17g", s.empty() ? "" : ", ", x);
    return "[" + s + "]";
}

LAW(polynomial, 450000, 3000, "degree of at least two")
{
    auto a = gen_coeff(c, 7);
    double x = c.plain(-1, 1) * c.logu(1e-3, 1e2), k = c.plain(-3, 3);
    c.note("p=%s x=%.17g constant=%.17g", show(a).c_str(), x, k);
    if (a.size() > 2)
        c.nontrivial();
    Polynom p(a);
    ld v = horner(a, x), sc = scale(a, x);
    c.close(p.evaluate(x), v, 0, 1e-14 * sc, "value");
    c.close(p.GetFunction()(x), v, 0, 1e-14 * sc, "value of the function object");
    c.check(p.GetCoefficient() == a, "coefficients");
    // derivative and antiderivative
    std::vector<double> d, s { k };
    for (size_t i = 1; i < a.size(); ++i)
        d.push_back(a[i] * double(i));
    for (size_t i = 0; i < a.size(); ++i)
        s.push_back(a[i] / double(i + 1));
    c.close(p.GetDerivative().evaluate(x), horner(d, x), 0, 1e-14 * scale(d, x) + 1e-300, "derivative");
    auto P = p.GetAntiderivative(k);
    c.close(P.evaluate(x), horner(s, x), 0, 1e-14 * scale(s, x), "antiderivative");
    c.check(P.evaluate(0) == k, "constant of integration");
    c.close(P.GetDerivative().evaluate(x), v, 0, 1e-13 * sc, "derivative of the antiderivative");
    c.check(p.GetCoefficient() == a, "the polynomial changed when it was differentiated");
}

LAW(shift, 450000, 3000, "degree of at least two and a shift that is not tiny")
{
    auto a = gen_coeff(c, 6);
    double h = c.flag(1, 8) ? c.plain(-1, 1) * 1e-8 : c.plain(-1, 1) * c.logu(1e-3, 1e2);
    double x = c.plain(-1, 1) * c.logu(1e-2, 1e2);
    c.note("p=%s shift=%.17g x=%.17g", show(a).c_str(), h, x);
    if (a.size() > 2 && std::abs(h) > 1e-3)
        c.nontrivial();
    Polynom p(a), q(p);
    q.shift(h);
    std::vector<double> d;
    for (size_t i = 1; i < a.size(); ++i)
        d.push_back(a[i] * double(i));
    // shifts below the geometry precision (1e-9) may be ignored
    double tol = 1e-12 * scale(a, std::abs(x) + std::abs(h)) + (std::abs(h) <= 1e-9 ? 1.1e-9 * scale(d, std::abs(x) + std::abs(h)) : 0);
    c.close(q.evaluate(x), horner(a, (ld)x + h), 0, tol, "shifted value");
    c.check(p.GetCoefficient() == a, "the original was shifted with its copy");
    c.check(q.GetCoefficient().size() == a.size(), "degree changed");
    q.shift(-h);
    c.close(q.evaluate(x), horner(a, x), 0, 1e-12 * scale(a, std::abs(x) + 2 * std::abs(h)) + 2 * tol, "shifted there and back");
}

LAW(polynomial_identity, 180000, 3000, "copies used after the original is gone")
{
    auto a = gen_coeff(c, 6);
    auto b = a;
    int mode = int(c.i(0, 3));
    if (mode == 1)
        b[c.draw(b.size() - 1)] += 0.5;
    if (mode == 2)
        b.push_back(c.plain(0.1, 1));
    if (mode == 3 && b.size() > 1)
        b.pop_back();
    double x = c.plain(-3, 3);
    c.note("p=%s other=%s x=%.17g", show(a).c_str(), show(b).c_str(), x);
    c.nontrivial();
    auto p = std::make_unique<Polynom>(a);
    double v = p->evaluate(x);
    Polynom q(*p), r(std::vector<double> { 1., 2. });
    r = *p;
    std::unique_ptr<Polynom> s(p->clone());
    auto f = q.GetFunction();
    nlohmann::json j;
    j["coefficients"] = a;
    Polynom t(j), o(b);
    c.check(q == *p && r == *p && *s == *p && t == *p, "a copy differs");
    c.check((o == *p) == (a == b) && (o != *p) == (a != b), "comparison of different polynomials");
    p.reset();
    c.check(q.evaluate(x) == v && r.evaluate(x) == v && s->evaluate(x) == v && t.evaluate(x) == v && f(x) == v, "copies evaluate differently");
    q.shift(1.);
    c.check(r.evaluate(x) == v && s->evaluate(x) == v, "copies are not independent");
    nlohmann::json bad = c.flag() ? nlohmann::json::object() : nlohmann::json { { "coefficients", 3 } };
    THROWS(c, Polynom(bad), "polynomial without coefficients");
}

struct Data {
    std::vector<double> x, y;
};
static Data gen_data(Ctx& c, int maxn = 10)
{
    Data d;
    int n = int(c.i(2, maxn));
    double t = c.flag(1, 3) ? 0. : c.plain(-1, 1) * c.logu(1e-1, 1e2), s = c.logu(1e-2, 10), v = c.logu(1e-3, 1e3);
    for (int k = 0; k < n; ++k) {
        d.x.push_back(t);
        d.y.push_back(c.flag(1, 6) ? 0. : c.plain(-1, 1) * v);
        t += s * c.plain(0.2, 2);
    }
    return d;
}
static Spline* make(bool cubic, Data const& d)
{
    return cubic ? static_cast<Spline*>(new Cubic_Spline(d.x, d.y)) : new Linear_Spline(d.x, d.y);
}

// independent natural spline: second derivatives from the tridiagonal system
static std::vector<double> second_derivs(Data const& d)
{
    int n = int(d.x.size());
    std::vector<ld> a(n, 0), b(n, 1), cc(n, 0), r(n, 0);
    for (int i = 1; i + 1 < n; ++i) {
        ld h0 = d.x[i] - d.x[i - 1], h1 = d.x[i + 1] - d.x[i];
        a[i] = h0 / 6;
        b[i] = (h0 + h1) / 3;
        cc[i] = h1 / 6;
        r[i] = (d.y[i + 1] - d.y[i]) / h1 - (d.y[i] - d.y[i - 1]) / h0;
    }
    for (int i = 1; i < n; ++i) {
        ld f = a[i] / b[i - 1];
        b[i] -= f * cc[i - 1];
        r[i] -= f * r[i - 1];
    }
    std::vector<double> m(n);
    ld prev = 0;
    for (int i = n - 1; i >= 0; --i) {
        prev = (r[i] - cc[i] * prev) / b[i];
        m[i] = double(prev);
    }
    return m;
}
static double reference(bool cubic, Data const& d, std::vector<double> const& m, double x)
{
    size_t i = std::upper_bound(d.x.begin(), d.x.end(), x) - d.x.begin();
    i = std::min(std::max(i, size_t(1)), d.x.size() - 1) - 1;
    ld h = (ld)d.x[i + 1] - d.x[i], A = (d.x[i + 1] - (ld)x) / h, B = 1 - A;
    ld v = A * d.y[i] + B * d.y[i + 1];
    if (cubic)
        v += ((A * A * A - A) * m[i] + (B * B * B - B) * m[i + 1]) * h * h / 6;
    return double(v);
}
// size of the terms that cancel when a piece is written in powers of x
static double piece_scale(Spline& s, double x)
{
    double mx = 0;
    for (auto p : s.GetFunctions())
        mx = std::max(mx, double(scale(p.GetCoefficient(), x)));
    return mx;
}

LAW(spline_values, 180000, 1500, "at least four knots")
{
    auto d = gen_data(c);
    bool cubic = c.flag();
    std::unique_ptr<Spline> s(make(cubic, d));
    double w = d.x.back() - d.x.front();
    double t = c.unit();
    double x = d.x.front() + w * t;
    double xo = c.flag() ? d.x.front() - w * c.plain(0, 0.3) : d.x.back() + w * c.plain(0, 0.3);
    c.note("%s x=%s y=%s at %.17g", cubic ? "cubic" : "linear", show(d.x).c_str(), show(d.y).c_str(), x);
    if (d.x.size() > 3)
        c.nontrivial();
    auto m = second_derivs(d);
    double xm = std::max(std::abs(d.x.front()), std::abs(d.x.back())) + w;
    // shifts below 1e-9 are ignored by the polynomials
    double sl = 0;
    for (size_t i = 0; i + 1 < d.x.size(); ++i)
        sl = std::max(sl, std::abs(d.y[i + 1] - d.y[i]) / (d.x[i + 1] - d.x[i]));
    double tol = 1e-12 * piece_scale(*s, xm) + 3e-9 * sl * (cubic ? 1 : 0) * (d.x.front() != 0 && std::abs(d.x.front()) < 1e-8);
    c.require(tol < 1e-2 * (1e-6 + sl * w));
    for (size_t i = 0; i < d.x.size(); ++i)
        c.close(s->evaluate(d.x[i]), d.y[i], 0, tol, "value at knot %zu", i);
    c.close(s->evaluate(x), reference(cubic, d, m, x), 0, tol, "value between the knots");
    c.close(s->evaluate(xo), reference(cubic, d, m, xo), 0, tol * 10, "continuation outside the domain");
    c.check(s->GetNumberIntervalls() == d.x.size() - 1, "number of intervals");
    c.check(s->GetDomain() == std::make_pair(d.x.front(), d.x.back()), "domain");
    c.check(s->GetSubintervalls() == d.x, "knots");
    // continuity across a knot, for cubic splines also of the slope
    if (d.x.size() > 2) {
        auto f = s->GetFunctions();
        size_t i = c.draw(f.size() - 2);
        double k = d.x[i + 1];
        c.close(f[i].evaluate(k), f[i + 1].evaluate(k), 0, tol, "jump at a knot");
        if (cubic) {
            double h = std::min(d.x[i + 1] - d.x[i], d.x[i + 2] - d.x[i + 1]);
            auto l = f[i].GetDerivative(), r = f[i + 1].GetDerivative();
            c.close(l.evaluate(k), r.evaluate(k), 0, 4 * tol / h + 4 * tol / xm, "kink at a knot");
            c.close(l.GetDerivative().evaluate(k), r.GetDerivative().evaluate(k), 0, 20 * tol / (h * h), "curvature jump at a knot");
        }
    }
    // derivative
    std::unique_ptr<Spline> ds(s->clone());
    ds->Derivative();
    size_t i = std::min(size_t(std::upper_bound(d.x.begin(), d.x.end(), x) - d.x.begin()), d.x.size() - 1) - 1;
    if (std::find(d.x.begin(), d.x.end(), x) == d.x.end()) {
        ld h = (ld)d.x[i + 1] - d.x[i], A = (d.x[i + 1] - (ld)x) / h, B = 1 - A;
        ld v = ((ld)d.y[i + 1] - d.y[i]) / h;
        if (cubic)
            v += ((1 - 3 * A * A) * m[i] + (3 * B * B - 1) * m[i + 1]) * h / 6;
        c.close(ds->evaluate(x), v, 0, 5 * tol / double(h) + 5 * tol / xm, "derivative");
    }
    c.check(s->evaluate(d.x[0]) == s->clone()->evaluate(d.x[0]), "clone");
}

LAW(spline_integral, 120000, 1500, "interval crossing at least one knot")
{
    auto d = gen_data(c);
    bool cubic = c.flag();
    std::unique_ptr<Spline> s(make(cubic, d));
    double w = d.x.back() - d.x.front();
    double a = d.x.front() + w * c.unit(), b = d.x.front() + w * c.unit(), k = c.plain(-2, 2);
    if (a > b)
        std::swap(a, b);
    c.note("%s x=%s y=%s from %.17g to %.17g constant %.17g", cubic ? "cubic" : "linear", show(d.x).c_str(), show(d.y).c_str(), a, b, k);
    std::vector<double> knots { a };
    for (double t : d.x)
        if (t > a && t < b)
            knots.push_back(t);
    knots.push_back(b);
    if (knots.size() > 2)
        c.nontrivial();
    auto m = second_derivs(d);
    ld sum = 0;
    double sl = 0;
    for (size_t i = 0; i + 1 < knots.size(); ++i) {
        // three point Gauss rule is exact for cubics
        double mid = 0.5 * (knots[i] + knots[i + 1]), h = 0.5 * (knots[i + 1] - knots[i]);
        double g = std::sqrt(0.6) * h;
        auto f = [&](double x) { return (ld)reference(cubic, d, m, x); };
        sum += h * (5 * f(mid - g) + 8 * f(mid) + 5 * f(mid + g)) / 9;
    }
    for (size_t i = 0; i + 1 < d.x.size(); ++i)
        sl = std::max(sl, std::abs(d.y[i + 1] - d.y[i]) / (d.x[i + 1] - d.x[i]));
    double xm = std::max(std::abs(d.x.front()), std::abs(d.x.back())) + w;
    double tol = (2e-12 * piece_scale(*s, xm) + 3e-9 * sl * (d.x.front() != 0 && std::abs(d.x.front()) < 1e-8)) * xm;
    std::unique_ptr<Spline> S(s->clone());
    S->Antiderivative(k);
    c.close(S->evaluate(b) - S->evaluate(a), sum, 0, tol + 1e-13 * std::abs(k), "integral");
    c.close(S->evaluate(d.x.front()), k, 0, tol + 1e-13 * std::abs(k), "value at the left end of the domain");
    // and back
    S->Derivative();
    double x = d.x.front() + w * c.unit();
    c.close(S->evaluate(x), s->evaluate(x), 0, tol / xm, "derivative of the antiderivative");
}

LAW(spline_identity, 24000, 400, "saved and reloaded")
{
    auto d = gen_data(c, 7);
    bool cubic = c.flag(), binary = c.flag();
    std::unique_ptr<Spline> s(make(cubic, d));
    if (c.flag(1, 4))
        s->Antiderivative(c.plain(-1, 1));
    bool anti = s->GetFunctions()[0].GetCoefficient().size() == (cubic ? 5 : 3);
    double w = d.x.back() - d.x.front();
    std::vector<double> at, v;
    for (int k = 0; k < 4; ++k) {
        at.push_back(d.x.front() + w * c.plain(-0.1, 1.1));
        v.push_back(s->evaluate(at.back()));
    }
    c.note("%s%s %s x=%s y=%s", cubic ? "cubic" : "linear", anti ? " integrated" : "", binary ? "binary" : "text", show(d.x).c_str(), show(d.y).c_str());
    c.nontrivial();
    auto same = [&](Spline& t, const char* what) {
        c.check(t == *s && !(t != *s), "%s compares unequal", what);
        for (size_t k = 0; k < at.size(); ++k)
            c.check(t.evaluate(at[k]) == v[k], "%s evaluates to %.17g instead of %.17g at %.17g", what, t.evaluate(at[k]), v[k], at[k]);
    };
    auto orig = s->clone();
    same(*orig, "clone");
    char dir[] = "/tmp/pbtM05XXXXXX";
    c.require(mkdtemp(dir) != nullptr);
    std::string path = std::string(dir) + "/spline", file = path + (binary ? ".bin" : ".txt");
    s->save(path, binary);
    std::unique_ptr<Spline> l;
    if (cubic)
        l.reset(new Cubic_Spline(path, binary));
    else
        l.reset(new Linear_Spline(path, binary));
    unlink(file.c_str());
    rmdir(dir);
    same(*l, "reloaded spline");
    c.check(l->GetDomain() == s->GetDomain() && l->GetNumberIntervalls() == s->GetNumberIntervalls(), "domain of the reloaded spline");
    std::unique_ptr<Spline> p;
    if (cubic)
        p.reset(new Cubic_Spline(s->GetFunctions(), s->GetSubintervalls()));
    else
        p.reset(new Linear_Spline(s->GetFunctions(), s->GetSubintervalls()));
    same(*p, "spline from polynomials");
    if (!anti) {
        nlohmann::json j;
        j["x"] = d.x;
        j["y"] = d.y;
        std::unique_ptr<Spline> q;
        if (cubic)
            q.reset(new Cubic_Spline(j));
        else
            q.reset(new Linear_Spline(j));
        same(*q, "spline from json");
        auto bad = j;
        int mode = int(c.i(0, 4));
        if (mode == 0)
            bad.erase("x");
        else if (mode == 1)
            bad.erase("y");
        else if (mode == 2)
            bad["x"] = 1.5;
        else if (mode == 3)
            bad["y"] = "abc";
        else
            bad["x"].push_back(1e9);
        THROWS(c, Cubic_Spline(bad), "invalid json for a cubic spline");
        THROWS(c, Linear_Spline(bad), "invalid json for a linear spline");
        // a different value is a different spline
        auto e = d;
        e.y[c.draw(e.y.size() - 1)] += 1;
        std::unique_ptr<Spline> o(make(cubic, e));
        c.check(*o != *s, "splines through different points compare equal");
    }
    orig->Derivative();
    c.check(s->evaluate(at[0]) == v[0], "changing a copy changed the original");
    delete orig;
}
