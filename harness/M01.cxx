// M01: numerical integration returns the true integral
#include "integrands.h"
#include "PROPOSAL/math/Integral.h"
#include <memory>

const char* pbt::property_id = "M01";

static double tol(Problem const& q, double prec)
{
    return (q.fn.hard ? 100 * prec + 1e-5 : 20 * prec + 1e-9) * q.absint + 1e-13 * (std::abs(q.fn.F(q.a)) + std::abs(q.fn.F(q.b)));
}

LAW(value, 300000, 4000, "limits differ; any strategy")
{
    auto q = gen_problem(c, { 1, 2, 3, 4, 5 });
    double prec = std::pow(10., -c.plain(4, 9));
    int romb = int(c.i(4, 7)), steps = int(c.i(1, 40));
    bool def = c.flag(1, 4);
    c.note("%s; %s", q.text().c_str(), def ? "default object" : strf("romberg %d maxsteps %d precision %.3g", romb, steps, prec).c_str());
    c.nontrivial();
    c.label(strf("method %d", q.method));
    Integral I(romb, steps, prec), D;
    if (def)
        prec = 1e-6;
    Integral& J = def ? D : I;
    double t = tol(q, prec);
    double v = J.Integrate(q.a, q.b, q.fn.f, q.method, q.p);
    c.close(v, q.exact(), 0, t, "integral");
    // swapped limits
    c.close(J.Integrate(q.b, q.a, q.fn.f, q.method, q.p), -v, 0, t * 0.01, "swapped limits");
    // additivity
    double m = q.a + (q.b - q.a) * c.plain(0.1, 0.9);
    c.close(J.Integrate(q.a, m, q.fn.f, q.method, q.p) + J.Integrate(m, q.b, q.fn.f, q.method, q.p), v, 0, 2 * t, "sum of two parts");
    c.check(J.Integrate(q.a, q.a, q.fn.f, q.method, q.p) == 0, "integral between equal limits is not zero");
    // linearity
    double k = c.plain(-3, 3);
    c.close(J.Integrate(q.a, q.b, [&](double x) { return k * q.fn.f(x); }, q.method, q.p), k * v, 0, std::abs(k) * t, "scaled integrand");
}

LAW(log_domain, 4000, 1000, "a limit that is not positive")
{
    int m = int(c.i(4, 5));
    double a = c.pick({ 0., -1., 1., 2. }) * c.plain(0.5, 2), b = c.pick({ 0., -1., 1., 3. }) * c.plain(0.5, 2);
    c.require(a <= 0 || b <= 0);
    c.nontrivial();
    double p = c.pick({ 0., 1., 2., -1. });
    c.note("method %d from %.17g to %.17g power %g", m, a, b, p);
    Integral I;
    c.check(I.Integrate(a, b, [](double x) { return 1 + x * x; }, m, p) == 0, "not zero");
}

LAW(singular_ends, 400, 10, "integrand diverges at one end (quadrature falls back)")
{
    double e = c.plain(0.4, 0.75);
    double lo = 0, w = c.logu(0.1, 10);
    int kind = int(c.draw(2));
    bool right = c.flag();
    std::function<double(double)> f, g;
    double ex;
    if (kind == 0) {
        f = [=](double u) { return std::pow(u / w, -e); };
        ex = w / (1 - e);
    } else if (kind == 1) {
        f = [=](double u) { return -std::log(u / w) + 0.1; };
        ex = w * 1.1;
    } else {
        f = [=](double u) { return std::sqrt(u / w); };
        ex = w / 1.5;
    }
    bool rev = c.flag(1, 4);
    // distance from the singular end, exact when the end is at zero
    if (right && lo == 0)
        g = [=](double x) { return f(-x); };
    else if (right)
        g = [=](double x) { return f(lo + w - x); };
    else
        g = [=](double x) { return f(x - lo); };
    double a = right && lo == 0 ? -w : lo, b = right && lo == 0 ? 0. : lo + w;
    c.note("kind %d exponent %.6g [%.17g,%.17g] right %d reversed %d", kind, e, a, b, int(right), int(rev));
    c.nontrivial();
    Integral I(5, 40, 1e-10); // Romberg does not get there
    double v = rev ? -I.Integrate(b, a, g, 2) : I.Integrate(a, b, g, 2);
    c.close(v, ex, 0, 1e-5 * ex, "integral of a function with singular end");
}

LAW(kinks, 1600, 40, "kink inside the interval")
{
    double a = c.plain(-2, 2), w = c.logu(0.1, 10), b = a + w;
    double x0 = a + w * c.plain(0.05, 0.95), h = c.plain(0.2, 3);
    int m = int(c.i(1, 2));
    c.note("method %d |x-%.17g|/%.6g+%.6g on [%.17g,%.17g]", m, x0, w, h, a, b);
    c.nontrivial();
    Integral I(5, 40, 1e-6);
    double ex = 0.5 * ((x0 - a) * (x0 - a) + (b - x0) * (b - x0)) / w + h * w;
    c.close(I.Integrate(a, b, [=](double x) { return std::abs(x - x0) / w + h; }, m), ex, 0, 3e-3 * ex, "integral of a function with a kink");
}

LAW(reuse_and_copies, 30000, 500, "history with a copy or assignment and a later integration")
{
    int n = int(c.i(2, 8));
    std::vector<std::unique_ptr<Integral>> o;
    std::vector<double> pr { 1e-6 };
    o.emplace_back(new Integral(5, 40, 1e-6));
    std::string log;
    bool copied = false;
    for (int k = 0; k < n; ++k) {
        size_t i = c.draw(o.size() - 1);
        switch (c.draw(6)) {
        case 0: {
            o.emplace_back(new Integral(*o[i]));
            pr.push_back(pr[i]);
            copied = true;
            log += strf("copy %zu; ", i);
            c.check(*o.back() == *o[i] && !(*o.back() != *o[i]), "copy compares unequal after %s", log.c_str());
            break;
        }
        case 1: {
            double p = std::pow(10., -double(c.i(3, 8)));
            o.emplace_back(new Integral(int(c.i(4, 6)), int(c.i(12, 40)), p));
            pr.push_back(p);
            log += strf("new %g; ", p);
            break;
        }
        case 2: {
            size_t j = c.draw(o.size() - 1);
            *o[i] = *o[j];
            pr[i] = pr[j];
            copied |= i != j;
            log += strf("%zu = %zu; ", i, j);
            c.check(*o[i] == *o[j], "assigned object compares unequal after %s", log.c_str());
            break;
        }
        case 3: {
            if (o.size() > 1) {
                o.erase(o.begin() + i);
                pr.erase(pr.begin() + i);
                log += strf("delete %zu; ", i);
            }
            break;
        }
        case 4: {
            auto q = gen_problem(c, { 3, 4 });
            double r = c.prob();
            log += strf("random ratio %.3g on %zu; ", r, i);
            double v = o[i]->IntegrateWithRandomRatio(q.a, q.b, q.fn.f, q.method, r, q.p);
            if (copied)
                c.nontrivial();
            c.note("%s%s", log.c_str(), q.text().c_str());
            c.close(v, q.exact(), 0, tol(q, pr[i]), "integral with random ratio");
            double x = o[i]->GetUpperLimit();
            Integral copy(*o[i]), fresh(o[i]->GetRomberg(), o[i]->GetMaxStepsUpperLimit(), pr[i]);
            fresh.IntegrateWithRandomRatio(q.a, q.b, q.fn.f, q.method, r, q.p);
            c.close(fresh.GetUpperLimit(), x, 1e-9, 0, "upper limit differs from that of a fresh object");
            break;
        }
        default: {
            auto q = gen_problem(c, { 1, 2, 3, 4, 5 });
            log += strf("integrate %zu; ", i);
            double v = o[i]->Integrate(q.a, q.b, q.fn.f, q.method, q.p);
            if (copied)
                c.nontrivial();
            c.note("%s%s", log.c_str(), q.text().c_str());
            c.close(v, q.exact(), 0, tol(q, pr[i]), "integral after the history");
            Integral fresh(o[i]->GetRomberg(), o[i]->GetMaxStepsUpperLimit(), pr[i]);
            c.close(v, fresh.Integrate(q.a, q.b, q.fn.f, q.method, q.p), 0, 1e-9 * q.absint, "differs from a fresh object");
        }
        }
    }
}

LAW(copy_outlives_original, 3000, 200, "upper limit requested from a copy after the original is gone")
{
    auto q = gen_problem(c, { 3, 4 });
    double r = c.prob();
    bool assign = c.flag();
    c.note("%s; ratio %.6g; assignment %d", q.text().c_str(), r, int(assign));
    c.nontrivial();
    auto a = std::make_unique<Integral>(5, 40, 1e-6);
    a->IntegrateWithRandomRatio(q.a, q.b, q.fn.f, q.method, r, q.p);
    std::unique_ptr<Integral> b;
    if (assign) {
        b = std::make_unique<Integral>();
        *b = *a;
    } else
        b = std::make_unique<Integral>(*a);
    double x;
    if (c.flag()) {
        x = a->GetUpperLimit();
    } else {
        Integral f(5, 40, 1e-6);
        f.IntegrateWithRandomRatio(q.a, q.b, q.fn.f, q.method, r, q.p);
        x = f.GetUpperLimit();
    }
    a.reset();
    c.close(b->GetUpperLimit(), x, 1e-9, 0, "upper limit from the copy");
}
