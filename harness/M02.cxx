// M02: inverting an integral recovers the requested fraction
#include "integrands.h"
#include "PROPOSAL/math/Integral.h"
#include <algorithm>

const char* pbt::property_id = "M02";

namespace {
struct Pos { // positive integrand over the strategy's variable
    Problem q;
    double total, umax; // |integral|, largest |f dx/du| over the range
    bool flat;
};
double uvar(Problem const& q, double x)
{
    if (q.method == 4)
        return std::log(x);
    if (q.p > 0)
        return std::pow(x, -1 / q.p);
    if (q.p < 0)
        return -std::pow(-x, 1 / q.p);
    return x;
}
double xvar(Problem const& q, double u)
{
    if (q.method == 4)
        return std::exp(u);
    if (q.p > 0)
        return std::pow(u, -q.p);
    if (q.p < 0)
        return -std::pow(-u, q.p);
    return u;
}
Pos gen(Ctx& c)
{
    Pos r;
    r.q = gen_problem(c, { 3, 4 });
    auto& q = r.q;
    double ua = uvar(q, q.a), ub = uvar(q, q.b);
    double mn = INFINITY, mx = 0, sg = 0;
    for (int k = 0; k <= 100; ++k) {
        double u = ua + (ub - ua) * k / 100.;
        double x = xvar(q, u);
        double h = 1e-6 * (ub - ua);
        double u2 = u + h;
        double J = (xvar(q, u2) - xvar(q, u - h)) / (2 * h);
        double v = q.fn.f(x) * J;
        if (k == 0)
            sg = v > 0 ? 1 : -1;
        mn = std::min(mn, v * sg);
        mx = std::max(mx, v * sg);
    }
    c.require(mn > 0 && mx < 1e5 * mn); // one sign
    r.umax = mx;
    r.total = std::abs(q.exact());
    return r;
}
// precision of the inversion: 1e-6 in the integration variable, and the
// precision of the quadrature
double tol(Pos const& p, double prec)
{
    return p.total * (100 * prec + 3e-6) + 3 * prec * p.umax + 1e-12 * (std::abs(p.q.fn.F(p.q.a)) + std::abs(p.q.fn.F(p.q.b)));
}
}

LAW(fraction, 500000, 3000, "fraction strictly between zero and one")
{
    auto p = gen(c);
    auto& q = p.q;
    double prec = std::pow(10., -c.plain(4, 9)), r = c.prob();
    bool absolute = c.flag(1, 3) && q.exact() > 0;
    if (c.flag(1, 20))
        r = c.flag() ? 0 : 1;
    c.note("%s; fraction %.17g %s precision %.3g", q.text().c_str(), r, absolute ? "given as absolute value" : "", prec);
    if (r > 0 && r < 1)
        c.nontrivial();
    c.label(strf("method %d%s", q.method, absolute ? " absolute" : ""));
    Integral I(5, 40, prec);
    double arg = absolute ? -r * p.total : r;
    double v = I.IntegrateWithRandomRatio(q.a, q.b, q.fn.f, q.method, arg, q.p);
    double t = tol(p, prec);
    c.close(v, q.exact(), 0, t, "integral");
    double x = I.GetUpperLimit();
    double lo = std::min(q.a, q.b), hi = std::max(q.a, q.b), s = 1e-12 * std::max(std::abs(lo), std::abs(hi));
    c.check(x >= lo - s && x <= hi + s, "limit %.17g outside [%.17g,%.17g]", x, lo, hi);
    double got = std::abs(q.fn.F(x) - q.fn.F(q.a));
    c.close(got, r * p.total, 0, t, "integral up to the returned limit %.17g", x);
    if (r == 0 && !absolute)
        c.close(x, q.a, 1e-12, 0, "limit of fraction 0");
    if (r == 1 && !absolute)
        c.close(x, q.b, 1e-12, 0, "limit of fraction 1");
}

LAW(absolute_out_of_range, 10000, 1000, "absolute value larger than the whole integral")
{
    auto p = gen(c);
    auto& q = p.q;
    c.require(q.exact() > 0);
    double f = 1.001 + c.logu(1e-3, 10);
    c.note("%s; %.6g times the integral", q.text().c_str(), f);
    c.nontrivial();
    Integral I(5, 40, 1e-6);
    I.IntegrateWithRandomRatio(q.a, q.b, q.fn.f, q.method, -f * p.total, q.p);
    c.close(I.GetUpperLimit(), q.b, 1e-6, 0, "limit is not the end of the interval");
    Integral J(5, 40, 1e-6);
    J.IntegrateWithRandomRatio(q.a, q.b, q.fn.f, q.method, f, q.p);
    c.close(J.GetUpperLimit(), q.b, 1e-6, 0, "limit for a ratio above one is not the end of the interval");
}

LAW(monotone_and_history, 60000, 500, "at least two different fractions on one object after other use")
{
    auto p = gen(c);
    auto& q = p.q;
    Integral I(5, 40, 1e-6);
    if (c.flag()) { // earlier use
        auto o = gen_problem(c, { 1, 2, 3, 4, 5 });
        I.Integrate(o.a, o.b, o.fn.f, o.method, o.p);
    }
    if (c.flag()) {
        auto o = gen(c);
        I.IntegrateWithRandomRatio(o.q.a, o.q.b, o.q.fn.f, o.q.method, c.prob(), o.q.p);
        if (c.flag())
            I.GetUpperLimit();
    }
    int n = int(c.i(2, 6));
    std::vector<std::pair<double, double>> rx;
    for (int k = 0; k < n; ++k) {
        double r = c.prob();
        I.IntegrateWithRandomRatio(q.a, q.b, q.fn.f, q.method, r, q.p);
        double x = I.GetUpperLimit();
        Integral f(5, 40, 1e-6);
        f.IntegrateWithRandomRatio(q.a, q.b, q.fn.f, q.method, r, q.p);
        c.close(x, f.GetUpperLimit(), 1e-9, 0, "limit for %.17g differs from that of a fresh object", r);
        rx.push_back({ r, x });
    }
    c.note("%s; %d fractions %.6g %.6g", q.text().c_str(), n, rx[0].first, rx[1].first);
    if (rx[0].first != rx[1].first)
        c.nontrivial();
    std::sort(rx.begin(), rx.end());
    double dir = q.b > q.a ? 1 : -1, t = tol(p, 1e-6);
    for (int k = 1; k < n; ++k) {
        // order may only be violated within the accuracy of the inversion
        if ((rx[k].second - rx[k - 1].second) * dir < 0) {
            double d = std::abs(q.fn.F(rx[k].second) - q.fn.F(rx[k - 1].second));
            c.check(d <= 2 * t, "limits not monotone: fraction %.17g -> %.17g, %.17g -> %.17g", rx[k - 1].first, rx[k - 1].second, rx[k].first, rx[k].second);
        }
    }
}
