// integrands with known antiderivative, for M01 and M02
#pragma once
#include "common.h"

struct Fn {
    std::function<double(double)> f, F; // integrand and antiderivative
    std::string text;
    double A = 1; // overall factor (sign)
    bool hard = false; // error estimates of the Romberg scheme are less reliable
};

// domain [a,b] is needed to keep the variation of the integrand limited
static Fn gen_fn(Ctx& c, double a, double b, bool power_ok)
{
    double w = b - a;
    double A = c.flag(1, 6) ? -1 : 1;
    A *= c.flag(1, 3) ? std::pow(10., c.plain(-20, 20)) : 1.;
    Fn r;
    switch (c.draw(power_ok ? 4 : 3)) {
    case 0: {
        double k = c.plain(-6, 6) / w;
        if (std::abs(k * w) < 1e-2)
            k = 1e-2 / w;
        r.f = [=](double x) { return A * std::exp(k * (x - a)); };
        r.F = [=](double x) { return A * std::exp(k * (x - a)) / k; };
        r.text = strf("%.4g*exp(%.6g*(x-%.6g))", A, k, a);
        break;
    }
    case 1: {
        int n = int(c.i(0, 5));
        std::array<double, 6> q {};
        for (int i = 0; i <= n; ++i)
            q[i] = c.plain(-3, 3);
        q[0] += 4;
        r.f = [=](double x) { double u = (x - a) / w, s = 0; for (int i = n; i >= 0; --i) s = s * u + q[i]; return A * s; };
        r.F = [=](double x) { double u = (x - a) / w, s = 0; for (int i = n; i >= 0; --i) s = s * u + q[i] / (i + 1); return A * s * u * w; };
        r.hard = true;
        r.text = strf("%.4g*polynomial of degree %d in (x-a)/(b-a), q=(%.3g,%.3g,%.3g,%.3g,%.3g,%.3g)", A, n, q[0], q[1], q[2], q[3], q[4], q[5]);
        break;
    }
    case 2: {
        double k = c.plain(0.1, 4) / w, p = c.plain(0, 6.28);
        r.f = [=](double x) { return A * (1.5 + std::cos(k * (x - a) + p)); };
        r.F = [=](double x) { return A * (1.5 * (x - a) + std::sin(k * (x - a) + p) / k); };
        r.hard = true;
        r.text = strf("%.4g*(1.5+cos(%.6g*(x-a)+%.4g))", A, k, p);
        break;
    }
    case 3: {
        double x0 = a + w * c.plain(-0.5, 1.5), g = w * c.plain(1, 4);
        r.f = [=](double x) { return A / (1 + (x - x0) * (x - x0) / g / g); };
        r.F = [=](double x) { return A * g * std::atan((x - x0) / g); };
        r.hard = true;
        r.text = strf("%.4g/(1+((x-%.6g)/%.6g)^2)", A, x0, g);
        break;
    }
    default: {
        double n = c.pick({ 1., 2., 3., 0.5, 1.5, -1., 2.5 });
        double A2 = A * std::pow(std::abs(a), n);
        // |x| keeps it usable for negative limits
        r.f = [=](double x) { return A2 * std::pow(std::abs(x), -n); };
        r.F = [=](double x) {
            double y = std::abs(x), s = x < 0 ? -1 : 1;
            return n == 1 ? s * A2 * std::log(y) : s * A2 * std::pow(y, 1 - n) / (1 - n);
        };
        r.text = strf("%.4g*|x|^-%.2g", A2, n);
    }
    }
    r.A = A;
    return r;
}

struct Problem {
    int method = 1;
    double p = 0, a = 0, b = 1;
    Fn fn;
    double absint = 0; // integral of |f|
    double exact() const { return fn.F(b) - fn.F(a); }
    std::string text() const { return strf("method %d power %g from %.17g to %.17g of ", method, p, a, b) + fn.text; }
};

static Problem gen_problem(Ctx& c, std::initializer_list<int> methods)
{
    Problem q;
    q.method = c.pick(methods);
    double s = std::pow(10., c.flag() ? 0. : c.plain(-6, 8));
    switch (q.method) {
    case 1:
    case 2: {
        double lo = s * c.plain(-1, 1), w = s * c.logu(1e-3, 10);
        q.a = lo;
        q.b = lo + w;
        break;
    }
    case 3: {
        int k = int(c.draw(2));
        q.p = k == 0 ? 0. : k == 1 ? c.pick({ 1., 2., 0.5, 3. }) : -c.pick({ 1., 2., 0.5, 3. });
        q.a = s * c.plain(0.1, 1);
        q.b = q.a * (1 + c.logu(1e-2, q.p == 0 ? 5 : std::pow(6., std::abs(q.p)) - 1));
        if (k == 2) {
            std::swap(q.a, q.b);
            q.a *= -1;
            q.b *= -1;
        }
        break;
    }
    case 4: {
        q.a = s * c.plain(0.1, 1);
        q.b = q.a * (1 + c.logu(1e-2, 100));
        break;
    }
    default: {
        q.p = c.pick({ 1., 2., 0., -1., -2. });
        if (q.p >= 0) { // limits above one
            q.a = std::exp(c.logu(0.3, 5));
            q.b = std::exp(std::min(std::log(q.a) * (1 + c.logu(1e-2, 3)), std::log(q.a) + 3));
        } else {
            q.b = std::exp(-c.logu(0.3, 3));
            q.a = std::exp(std::max(std::log(q.b) * (1 + c.logu(1e-2, 3)), std::log(q.b) - 3));
        }
    }
    }
    // the variation of the integrand is limited either in x over a short range
    // or in the variable the strategy integrates over
    std::function<double(double)> u = [](double x) { return x; }, du = [](double) { return 1.; };
    double p = q.p;
    if (q.method == 4 || (q.method == 5 && p == 0)) {
        u = [](double x) { return std::log(x); };
        du = [](double x) { return 1 / x; };
    } else if (q.method == 3 && p > 0) {
        u = [=](double x) { return std::pow(x, -1 / p); };
        du = [=](double x) { return -1 / p * std::pow(x, -1 / p - 1); };
    } else if (q.method == 3 && p < 0) {
        u = [=](double x) { return -std::pow(-x, 1 / p); };
        du = [=](double x) { return 1 / p * std::pow(-x, 1 / p - 1); };
    } else if (q.method == 5 && p > 0) {
        u = [=](double x) { return std::pow(std::log(x), -1 / p); };
        du = [=](double x) { return -1 / p * std::pow(std::log(x), -1 / p - 1) / x; };
    } else if (q.method == 5 && p < 0) {
        u = [=](double x) { return -std::pow(-std::log(x), 1 / p); };
        du = [=](double x) { return 1 / p * std::pow(-std::log(x), 1 / p - 1) / x; };
    }
    if (q.method < 3 || c.flag(1, 3)) {
        if (q.method >= 3) // short range
            q.b = q.a + (q.b - q.a) * std::min(1., 0.5 * std::abs(q.a) / (q.b - q.a));
        if (q.method == 5 && q.p >= 0)
            q.b = std::min(q.b, std::pow(q.a, 1.3));
        if (q.method == 5 && q.p < 0)
            q.b = std::min(q.b, std::pow(q.a, 0.8));
        q.fn = gen_fn(c, q.a, q.b, q.method >= 3 && q.b * q.a > 0);
        q.fn.hard |= q.method >= 3;
    } else {
        double ua = u(q.a), ub = u(q.b);
        auto g = gen_fn(c, std::min(ua, ub), std::max(ua, ub), false);
        q.fn = g;
        q.fn.f = [=](double x) { return g.f(u(x)) * du(x); };
        q.fn.F = [=](double x) { return g.F(u(x)); };
        q.fn.text = "du/dx times " + g.text + " with x replaced by the integration variable u";
    }
    q.absint = quad([&](double x) { return std::abs(q.fn.f(x)); }, q.a, q.b, 1e-6);
    if (c.flag(1, 4))
        std::swap(q.a, q.b);
    return q;
}
