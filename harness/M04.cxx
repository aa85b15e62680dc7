// M04: root finders, quantiles and samplers invert what they claim to invert
#include "common.h"
#include "PROPOSAL/math/MathMethods.h"
#include "PROPOSAL/math/Cartesian3D.h"
#include <fstream>
#include <unistd.h>

const char* pbt::property_id = "M04";

typedef long double ld;
static ld Phi(ld x) { return 0.5L * erfcl(-x / sqrtl(2.0L)); }
static ld phi(ld x) { return expl(-0.5L * x * x) / sqrtl(2.0L * 3.14159265358979323846264338327950288L); }

// strictly monotone or sign changing function with one known root r
struct Fn {
    std::string name;
    std::function<double(double)> f, df;
    double minslope, maxslope; // of |f'| on the bracket
};

static Fn gen_fn(Ctx& c, double r, double lo, double hi)
{
    double w = hi - lo, a = c.logu(1e-3, 1e3) * (c.flag() ? 1 : -1);
    double mx = std::max(r - lo, hi - r);
    switch (c.i(0, 5)) {
    case 0:
        return { "linear", [=](double x) { return a * (x - r); }, [=](double) { return a; }, std::abs(a), std::abs(a) };
    case 1: {
        double k = c.plain(0.1, 4) / w;
        return { "expm1", [=](double x) { return a * std::expm1(k * (x - r)); },
            [=](double x) { return a * k * std::exp(k * (x - r)); }, std::abs(a) * k * std::exp(-k * mx), std::abs(a) * k * std::exp(k * mx) };
    }
    case 2: {
        double k = c.plain(0.1, 6) / w;
        return { "tanh", [=](double x) { return a * std::tanh(k * (x - r)); },
            [=](double x) { double t = std::cosh(k * (x - r)); return a * k / (t * t); }, std::abs(a) * k / std::pow(std::cosh(k * mx), 2), std::abs(a) * k };
    }
    case 3: {
        double b = c.plain(0.1, 10) / (w * w);
        return { "cubic", [=](double x) { double d = x - r; return a * d * (1 + b * d * d); },
            [=](double x) { double d = x - r; return a * (1 + 3 * b * d * d); }, std::abs(a), std::abs(a) * (1 + 3 * b * mx * mx) };
    }
    case 4: {
        double k = c.plain(1, 20) / w, e = c.plain(0.1, 0.9);
        return { "wiggle", [=](double x) { double d = x - r; return a * (d + e / k * std::sin(k * d)); },
            [=](double x) { double d = x - r; return a * (1 + e * std::cos(k * d)); }, std::abs(a) * (1 - e), std::abs(a) * (1 + e) };
    }
    default: {
        double k = c.plain(0.3, 30) / w;
        return { "atan", [=](double x) { return a * std::atan(k * (x - r)); },
            [=](double x) { double t = k * (x - r); return a * k / (1 + t * t); }, std::abs(a) * k / (1 + k * k * mx * mx), std::abs(a) * k };
    }
    }
}

LAW(newton, 180000, 2000, "non-linear function whose root is inside the bracket")
{
    double w = c.logu(1e-2, 1e6), m = c.flag(1, 3) ? 0. : c.plain(-1, 1) * w * 3;
    double lo = m, hi = m + w;
    double r = lo + w * c.plain(1e-3, 1 - 1e-3);
    auto F = gen_fn(c, r, lo, hi);
    double x0 = c.flag(1, 4) ? (c.flag() ? lo : hi) : lo + w * c.unit();
    double xacc = c.flag() ? 1e-6 : w * std::pow(10., -c.plain(4, 10));
    bool swap = c.flag(1, 5);
    c.note("%s root=%.17g bracket [%.17g,%.17g]%s start=%.17g xacc=%.3g", F.name.c_str(), r, lo, hi, swap ? " reversed" : "", x0, xacc);
    if (F.name != "linear")
        c.nontrivial();
    long calls = 0;
    double x = NewtonRaphson([&](double y) { calls++; return F.f(y); }, F.df, swap ? hi : lo, swap ? lo : hi, x0, 200, xacc);
    double eps = 4e-16 * (std::abs(lo) + std::abs(hi));
    // the documented criterion: the last step was shorter than xacc. For a
    // function of bounded slope variation this bounds the error.
    double cond = F.maxslope / F.minslope;
    c.check(x >= lo - xacc - eps && x <= hi + xacc + eps, "result %.17g outside the bracket", x);
    c.close(x, r, 0, xacc * (2 + 2 * cond) + 10 * eps, "result against the root");
    c.check(calls < 250, "%ld evaluations", calls);
}

LAW(newton_accuracy, 120000, 2000, "non-linear function")
{
    // within the convergence criterion the function changes its sign
    double w = c.logu(0.1, 1e3);
    double lo = -w * c.plain(0, 2), hi = lo + w, r = lo + w * c.plain(0.01, 0.99);
    auto F = gen_fn(c, r, lo, hi);
    double x0 = lo + w * c.unit();
    c.note("%s root=%.17g bracket [%.17g,%.17g] start=%.17g", F.name.c_str(), r, lo, hi, x0);
    if (F.name != "linear")
        c.nontrivial();
    double x = NewtonRaphson(F.f, F.df, lo, hi, x0);
    // a Newton step below 1e-6 leaves an error of second order only, a
    // bisection step leaves at most the step itself
    c.check(std::abs(x - r) <= 1.01e-6 + 4e-15 * w || F.f(x - 1e-5) * F.f(x + 1e-5) <= 0, "no sign change around %.17g", x);
    c.close(x, r, 0, 2e-6 * std::max(1., std::min(10., F.maxslope / F.minslope)), "default accuracy");
}

LAW(not_bracketed, 60000, 2000, "bracket without a root or with a root on its end")
{
    double w = c.logu(1e-2, 1e4), lo = c.plain(-1, 1) * w, hi = lo + w;
    int mode = int(c.i(0, 2));
    double r = mode == 0 ? hi + w * c.plain(0.01, 1) : mode == 1 ? lo : hi;
    double a = c.logu(1e-2, 1e2) * (c.flag() ? 1 : -1);
    c.note("mode %d a=%.17g lo=%.17g hi=%.17g root %.17g", mode, a, lo, hi, r);
    c.nontrivial();
    auto f = [=](double x) { return a * (x - r); };
    auto df = [=](double) { return a; };
    if (mode == 0) {
        THROWS(c, NewtonRaphson(f, df, lo, hi, 0.5 * (lo + hi)), "Newton-Raphson without a root in the bracket");
        THROWS(c, Bisection(f, lo, hi, 1e-6, 200), "bisection without a root in the bracket");
    } else {
        double x = NewtonRaphson(f, df, lo, hi, 0.5 * (lo + hi));
        c.check(x == r, "root on the end: got %.17g", x);
        auto b = Bisection(f, lo, hi, 1e-6 * w, 200);
        c.check(b.first <= r && r <= b.second && b.second - b.first <= 1e-6 * w + 1e-15 * std::abs(r), "bisection [%.17g,%.17g]", b.first, b.second);
    }
}

LAW(bisection, 180000, 2000, "root in the interior, more than five halvings")
{
    double w = c.logu(1e-2, 1e6), m = c.flag(1, 3) ? 0. : c.plain(-1, 1) * w * 3;
    double lo = m, hi = m + w;
    double r = lo + w * c.plain(1e-3, 1 - 1e-3);
    auto F = gen_fn(c, r, lo, hi);
    bool swap = c.flag(1, 3);
    double xacc = w * std::pow(10., -c.plain(1, 9));
    c.note("%s root=%.17g [%.17g,%.17g] swap=%d xacc=%.17g", F.name.c_str(), r, lo, hi, int(swap), xacc);
    if (xacc < w / 32)
        c.nontrivial();
    auto b = Bisection(F.f, swap ? hi : lo, swap ? lo : hi, xacc, 100);
    double eps = 1e-15 * (std::abs(lo) + std::abs(hi));
    c.check(b.first <= b.second, "ends in the wrong order");
    c.check(b.second - b.first < xacc + eps, "width %.17g", b.second - b.first);
    c.check(b.first >= lo && b.second <= hi, "[%.17g,%.17g] leaves the bracket", b.first, b.second);
    c.check(b.first <= r + eps && r <= b.second + eps, "[%.17g,%.17g] does not contain the root", b.first, b.second);
    // limited number of iterations: still a bracket
    int k = int(c.i(0, 8));
    auto d = Bisection(F.f, lo, hi, 1e-300, k);
    c.close(d.second - d.first, w * std::pow(0.5, k + 1), 1e-9, eps, "width after %d iterations", k);
    c.check(d.first <= r + eps && r <= d.second + eps, "limited bisection [%.17g,%.17g] does not contain the root", d.first, d.second);
}

static double gen_p(Ctx& c)
{
    double p;
    switch (c.i(0, 5)) {
    case 0:
        p = std::pow(10., -c.plain(0.3, 15));
        break;
    case 1:
        p = 1 - std::pow(10., -c.plain(0.3, 15));
        break;
    case 2:
        p = (c.flag() ? 0.02425 : 1 - 0.02425) + c.plain(-1, 1) * std::pow(10., -c.plain(3, 16));
        break;
    case 3:
        p = double(c.i(1, (1 << 20) - 1)) / double(1 << 20);
        break;
    default:
        p = c.plain(0, 1);
    }
    c.require(p > 0 && p < 1);
    return p;
}

LAW(normal_quantile, 1200000, 4000, "probability outside the central region")
{
    double p = gen_p(c), q = gen_p(c);
    c.note("p=%.17g q=%.17g", p, q);
    if (p < 0.02425 || p > 1 - 0.02425)
        c.nontrivial();
    double x = normalppf(p), y = normalppf(q);
    c.check(std::isfinite(x), "not finite");
    // p is a double: its neighbours map to x +- ulp(p)/phi
    ld tol = 4e-16L * fmaxl(p, 1e-30L) / phi(x) + 1e-13L * (1 + fabsl(x));
    ld err = (Phi(x) - (ld)p) / phi(x);
    c.check(fabsl(err) <= tol, "quantile %.17g of %.17g is off by %.3Lg (allowed %.3Lg)", x, p, err, tol);
    if (q > p)
        c.check(y >= x - 2 * double(tol) || y > x, "not monotone: ppf(%.17g)=%.17g, ppf(%.17g)=%.17g", p, x, q, y);
    if (std::ldexp(p, 20) == std::floor(std::ldexp(p, 20)))
        c.close(normalppf(1 - p), -x, 1e-12, 1e-13 + 4e-16 / (double)phi(x), "symmetry");
}

LAW(exponential, 900000, 4000, "probability not within 1% of the median")
{
    double p = gen_p(c), l = c.logu(1e-8, 1e8);
    if (c.flag(1, 10))
        p = 0;
    c.note("p=%.17g lambda=%.17g", p, l);
    if (std::abs(p - 0.5) > 0.01)
        c.nontrivial();
    double x = SampleFromExponential(p, l);
    c.check(x >= 0, "negative %.17g", x);
    ld e = -log1pl(-(ld)p) / l;
    c.check(fabsl(x - e) <= 1e-14L * fabsl(e), "%.17g instead of %.17Lg", x, e);
}

LAW(gaussian, 900000, 4000, "truncation cuts between 1% and 99% of the distribution")
{
    double mean = c.flag(1, 4) ? 0. : c.plain(-1, 1) * c.logu(1e-3, 1e6);
    double sigma = c.logu(1e-3, 1e3) * (mean == 0 ? 1 : std::max(1., std::abs(mean) * 0.1));
    double a, b;
    switch (c.i(0, 3)) {
    case 0:
        a = mean - sigma * c.plain(0, 4);
        b = mean + sigma * c.plain(0, 4);
        break;
    case 1:
        a = mean - sigma * c.plain(0, 3);
        b = INF;
        break;
    case 2:
        a = -INF;
        b = mean + sigma * c.plain(-1.5, 3);
        break;
    default: // continuous randomisation like: [low, E_i]
        a = mean - sigma * c.plain(0, 40);
        b = mean + sigma * c.plain(0, 3);
    }
    c.require(b - a > 1e-3 * sigma);
    double u = gen_p(c), v = c.plain(0, 1);
    c.note("mean=%.17g sigma=%.17g [%.17g,%.17g] rnd=%.17g", mean, sigma, a, b, u);
    ld za = ((ld)a - mean) / sigma, zb = ((ld)b - mean) / sigma;
    ld pa = Phi(za), pb = Phi(zb), cut = 1 - (pb - pa);
    if (cut > 0.01 && cut < 0.99)
        c.nontrivial();
    c.require(pb - pa > 1e-4);
    double x = SampleFromGaussian(mean, sigma, u, a, b);
    ld z = ((ld)x - mean) / sigma;
    // the truncated probability is rounded to double: 2e-16 in p
    ld tol = (4e-16L / fmaxl(phi(z), 1e-300L) + 1e-12L * (1 + fabsl(z))) + 1e-15L * fabsl((ld)mean) / sigma;
    c.check(z >= za - tol && z <= zb + tol, "%.17g outside [%.17g,%.17g]", x, a, b);
    ld p = (Phi(z) - pa) / (pb - pa);
    c.check(fabsl(p - u) <= 1e-11L + 4 * tol * phi(z) / (pb - pa), "cumulative %.17Lg for random number %.17g", p, u);
    double y = SampleFromGaussian(mean, sigma, v, a, b);
    if (v > u)
        c.check(y >= x - double(tol) * sigma, "not monotone");
    else
        c.check(y <= x + double(tol) * sigma, "not monotone");
    c.check(mean < a || mean > b || SampleFromGaussian(mean, 0., u, a, b) == mean, "zero width must return the mean");
}

// ---- dilogarithm ---------------------------------------------------------
static ld li2_series(ld x)
{
    ld s = 0, t = 1;
    for (int k = 1; k < 400; ++k) {
        t *= x;
        s += t / ((ld)k * k);
        if (fabsl(t) < 1e-25L)
            break;
    }
    return s;
}
static const ld PIL = 3.14159265358979323846264338327950288L;
static ld li2(ld x) // real part, by independent identities
{
    if (x == 1)
        return PIL * PIL / 6;
    if (fabsl(x) <= 0.5L)
        return li2_series(x);
    if (x < -0.5L && x >= -1)
        return -li2_series(x / (x - 1)) - 0.5L * powl(log1pl(-x), 2);
    if (x > 0.5L && x < 1)
        return PIL * PIL / 6 - logl(x) * log1pl(-x) - li2_series(1 - x);
    if (x < -1) // inversion
        return -PIL * PIL / 6 - 0.5L * powl(logl(-x), 2) - li2(1 / x);
    return PIL * PIL / 3 - 0.5L * powl(logl(x), 2) - li2(1 / x); // x > 1
}

LAW(dilogarithm, 600000, 4000, "argument outside [-1/2, 1/2]")
{
    double x;
    switch (c.i(0, 4)) {
    case 0:
        x = c.plain(-1, 1);
        break;
    case 1:
        x = c.logu(1e-12, 1e12) * (c.flag() ? 1 : -1);
        break;
    case 2:
        x = c.pick({ -1., 0., 1., 2., 0.5, -0.5 }) + c.plain(-1, 1) * std::pow(10., -c.plain(1, 16));
        break;
    case 3:
        x = double(c.i(-64, 64)) / 16.;
        break;
    default:
        x = c.plain(-20, 20);
    }
    c.note("x=%.17g", x);
    if (std::abs(x) > 0.5)
        c.nontrivial();
    ld e = li2(x);
    double d = dilog(x);
    // the real part vanishes near x = 12.6: absolute tolerance there
    c.check(fabsl(d - e) <= 2e-14L * fabsl(e) + (std::abs(x) > 1 ? 2e-14L : 0.L), "dilog=%.17g expected %.17Lg", d, e);
    if (std::abs(x) < 1) // duplication
        c.close(dilog(x) + dilog(-x), 0.5 * dilog(x * x), 1e-12, 1e-15, "duplication");
}

LAW(welford, 60000, 1000, "at least three values")
{
    long n = c.i(1, 40);
    double off = c.plain(-1, 1) * c.logu(1e-2, 1e4), sc = c.logu(1e-2, 1e2);
    std::vector<double> v;
    double mean = 0, cov = 0;
    for (unsigned int k = 1; k <= n; ++k) {
        double x = off + sc * c.plain(-1, 1);
        v.push_back(x);
        auto p = welfords_online_algorithm(x, k, mean, cov);
        mean = p.first;
        cov = p.second;
    }
    c.note("%ld values around %.4g scale %.4g", n, off, sc);
    if (n > 2)
        c.nontrivial();
    ld m = 0, s = 0;
    for (double x : v)
        m += x;
    m /= n;
    for (double x : v)
        s += (x - m) * (x - m);
    s /= n;
    c.close(mean, m, 1e-12, 1e-12 * (std::abs(off) + sc), "mean");
    c.close(cov, s, 1e-9, 1e-11 * (std::abs(off) + sc) * sc, "population variance");
}

LAW(spline_coefficients, 60000, 1000, "at least four knots")
{
    int n = int(c.i(2, 12));
    std::vector<double> x, y;
    double t = c.plain(-5, 5);
    for (int k = 0; k < n; ++k) {
        x.push_back(t);
        y.push_back(c.plain(-3, 3));
        t += c.logu(0.05, 5);
    }
    c.note("%d knots from %.6g to %.6g", n, x[0], x.back());
    if (n > 3)
        c.nontrivial();
    auto s = CalculateSpline(x, y);
    c.check(s.size() == size_t(n - 1), "%zu pieces for %d points", s.size(), n);
    double vmax = 0;
    for (int k = 0; k + 1 < n; ++k) {
        auto p = s[k].GetSpline();
        c.check(p.first == x[k], "knot");
        double h = x[k + 1] - x[k];
        auto& q = p.second;
        double sc = std::abs(q[0]) + std::abs(q[1]) * h + std::abs(q[2]) * h * h + std::abs(q[3]) * h * h * h;
        vmax = std::max(vmax, sc);
        c.close(q[0], y[k], 0, 1e-12, "left value");
        c.close(q[0] + h * (q[1] + h * (q[2] + h * q[3])), y[k + 1], 0, 1e-11 * sc, "right value");
        double d1 = q[1] + h * (2 * q[2] + 3 * h * q[3]), d2 = 2 * q[2] + 6 * h * q[3];
        if (k + 2 < n) {
            auto r = s[k + 1].GetSpline().second;
            c.close(d1, r[1], 0, 1e-10 * sc / h, "slope");
            c.close(d2, 2 * r[2], 0, 1e-10 * sc / h / h, "curvature");
        } else
            c.close(d2, 0, 0, 1e-10 * sc / h / h, "curvature at the end");
        if (k == 0)
            c.close(q[2], 0, 0, 1e-10 * sc / h / h, "curvature at the start");
    }
    // the same numbers read from a file
    char name[] = "/tmp/pbtM04XXXXXX";
    int fd = mkstemp(name);
    c.require(fd >= 0);
    close(fd);
    {
        std::ofstream o(name);
        o.precision(17);
        o << "{\"x\":[";
        for (int k = 0; k < n; ++k)
            o << (k ? "," : "") << x[k];
        o << "],\"y\":[";
        for (int k = 0; k < n; ++k)
            o << (k ? "," : "") << y[k];
        o << "]}";
    }
    auto r = ParseSplineCoordinates(name);
    unlink(name);
    c.check(r.first == x && r.second == y, "coordinates read from a file differ");
}
