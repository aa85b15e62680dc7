// D01: grammage and distance in a varying density are inverse to each other
#include <algorithm>
#include "dens.h"
#include "PROPOSAL/medium/Medium.h"
#include "PROPOSAL/medium/MediumFactory.h"

const char* pbt::property_id = "D01";
using namespace dens;

static const char* oblique = "grammage along a path that is not parallel to the radial direction: the depth is continued linearly from the start of the step";

struct Case {
    Spec s;
    Cartesian3D p, d;
    double L; // generated densities are positive on the path up to 1.5 L
    bool straight; // the depth is a linear function of the path length
    ld D, k;
    std::shared_ptr<Density_distr> q;
    double tol(double l) const // absolute uncertainty of grammages over l
    {
        // the antiderivatives are evaluated in powers of the depth
        ld m = std::max(fabsl(D), fabsl(D + k * 1.5L * L)), sum = 0, pt = 0;
        if (s.kind == 2) {
            ld pw = m;
            for (double x : s.a) {
                pt += fabsl(x) * pw / m;
                sum += fabsl(x) * pw;
                pw *= m;
            }
            sum *= s.rho;
            pt *= s.rho;
        } else if (s.kind >= 3) {
            double w = 1e300;
            for (size_t i = 0; i + 1 < s.x.size(); ++i)
                w = std::min(w, s.x[i + 1] - s.x[i]);
            m = std::max(m, std::max(fabsl(s.x.front()), fabsl(s.x.back())));
            ld r = 1 + m / w;
            pt = s.rho * 6 * (s.kind == 3 ? r : r * r * r);
            sum = pt * m;
        } else
            sum = 0;
        ld rho = std::max(s.f(D), s.f(D + k * l));
        ld e = k == 0 ? 0 : std::min(2e-15L * sum / fabsl(k), rho * l);
        // the position is rounded: the depth carries an error
        ld dd = 4e-16L * (p.magnitude() + s.fp0.magnitude() + fabsl(m)) * (s.radial ? 1 : std::max(1., s.faxis.magnitude()));
        ld grad = fabsl(s.f(D + dd * 1e3L) - s.f(D)) / 1e3L + fabsl(s.f(D + k * l + dd * 1e3L) - s.f(D + k * l)) / 1e3L;
        return double(e + 2e-15L * pt * l + grad * l + 1e-11L * rho * l);
    }
};

static Case gen(Ctx& c)
{
    Case x;
    x.s.kind = int(c.i(0, 4));
    double sc = c.logu(1, 1e6);
    x.s.radial = c.flag();
    x.s.fp0 = c.flag() ? Cartesian3D(0, 0, 0) : gen_pos(c, sc);
    x.s.faxis = gen_dir(c);
    if (c.flag(1, 4))
        x.s.faxis = c.plain(0.2, 3) * x.s.faxis;
    x.L = sc * c.logu(1e-3, 3);
    x.d = gen_dir(c);
    x.straight = true;
    if (x.s.radial) {
        double r = sc * c.plain(0.1, 2);
        auto e = gen_dir(c);
        x.p = x.s.fp0 + r * e;
        if (c.flag()) {
            bool in = c.flag();
            Cartesian3D o = x.p - x.s.fp0;
            o.normalize();
            x.d = in ? -1. * o : o;
            if (in) // do not pass the centre
                x.L = std::min(x.L, 0.6 * r);
        } else
            x.straight = x.s.kind == 0;
    } else
        x.p = gen_pos(c, sc);
    x.D = x.s.depth(x.p);
    x.k = x.s.slope(x.p, x.d);
    if (x.s.kind == 0)
        x.k = 0;
    double e = double(x.D + 1.5L * x.k * x.L);
    x.s = gen_spec(c, std::min(double(x.D), e), std::max(double(x.D), e), x.s);
    // positive along the (linearised) path
    for (int i = 0; i <= 40; ++i)
        c.require(x.s.f(x.D + x.k * x.L * 1.5L * i / 40) > 0.02 * x.s.rho * (x.s.kind == 1 ? 0. : 1.));
    c.require(x.s.f(x.D) > 0);
    x.q = x.s.make();
    c.note("%s start %s along %s length %.17g; depth %.10Lg slope %.10Lg", x.s.show().c_str(), str(x.p).c_str(), str(x.d).c_str(), x.L, x.D, x.k);
    return x;
}

LAW(integral, 150000, 3000, "density varies by more than 1% along the path")
{
    auto x = gen(c);
    double l = x.L * (c.flag(1, 4) ? 1. : c.plain(0.001, 1));
    double tol = x.tol(l);
    ld e = x.s.grammage(x.D, x.k, l);
    c.require(tol < 1e-3 * e);
    ld r0 = x.s.f(x.D), r1 = x.s.f(x.D + x.k * l);
    if (fabsl(r0 - r1) > 0.01L * r0)
        c.nontrivial();
    double g = x.q->Calculate(x.p, x.d, l);
    c.close(x.q->Evaluate(x.p), r0, 1e-9, tol / l, "density at the start");
    c.check(g > 0, "grammage %.17g is not positive", g);
    c.close(g, e, 0, tol, "grammage over %.17g", l);
    c.check(x.q->Calculate(x.p, x.d, 0.) == 0, "grammage of a zero step %.17g", x.q->Calculate(x.p, x.d, 0.));
    if (x.straight) {
        // additive over sub-steps
        double f = c.plain(0.05, 0.95) * l;
        double a = x.q->Calculate(x.p, x.d, f), b = x.q->Calculate(x.p + f * x.d, x.d, l - f);
        c.close(a + b, g, 0, 3 * tol + 1e-9 * g, "sum over two sub-steps");
        // density at the end of the step
        c.close(x.q->Evaluate(x.p + l * x.d), r1, 1e-8, 2 * tol / l, "density at the end");
    }
    // grammage grows with the distance
    c.check(x.q->Calculate(x.p, x.d, 1.2 * l) > g - tol, "grammage does not grow with the distance");
    if (!x.straight) {
        // true integral of the density along the path
        auto rho = [&](double t) { return double(x.s.f(x.s.depth(x.p + t * x.d))); };
        double t = quad(rho, 0, l, 1e-8);
        if (std::abs(t - g) > 1e-6 * std::abs(t) + 3 * tol)
            c.finding("D01-radial-oblique", oblique);
    }
}

LAW(inverse, 120000, 3000, "density varies by more than 1% along the path")
{
    auto x = gen(c);
    double l = x.L * c.plain(0.001, 1), border = c.flag(1, 3) ? l * 1.0001 : c.flag() ? x.L * 1.5 : l * c.plain(1.01, 1.4);
    border = std::min(std::max(border, l), 1.5 * x.L);
    double tol = x.tol(1.5 * x.L);
    ld e = x.s.grammage(x.D, x.k, l);
    c.require(tol < 1e-4 * e);
    ld r0 = x.s.f(x.D), r1 = x.s.f(x.D + x.k * l);
    if (fabsl(r0 - r1) > 0.01L * r0)
        c.nontrivial();
    double g = double(e);
    double rmin = double(std::min(r0, r1));
    for (int i = 0; i <= 10; ++i)
        rmin = std::min(rmin, double(x.s.f(x.D + x.k * 1.5L * x.L * i / 10)));
    // the distance may carry an error of 1e-6 cm for the numerical inversions
    double dt = tol / rmin * 2 + (x.s.kind >= 2 ? 2.1e-6 : 1e-12 * l) + 1e-11 * l;
    c.note("grammage %.17g over %.17g, border %.17g", g, l, border);
    if (border < l + 2 * dt)
        border = l + 2 * dt;
    double r = x.q->Correct(x.p, x.d, g, border);
    if (!x.straight && x.s.kind >= 2 && std::abs(r - l) > dt) // Newton steps with the derivative of the true path
        c.finding("D01-radial-oblique", oblique);
    c.close(r, l, 0, dt, "distance for the grammage");
    double back = x.q->Calculate(x.p, x.d, r);
    c.close(back, g, 0, 3 * tol + dt * double(std::max(r0, r1)) * 2, "grammage at the returned distance");
    // monotone
    double l2 = l * c.plain(0.1, 0.9);
    double r2 = x.q->Correct(x.p, x.d, double(x.s.grammage(x.D, x.k, l2)), border);
    c.check(r2 <= r + dt, "less grammage needs more distance: %.17g and %.17g", r2, r);
    if (c.flag(1, 4))
        c.check(std::abs(x.q->Correct(x.p, x.d, 0., border)) <= dt, "no grammage needs the distance %.17g", x.q->Correct(x.p, x.d, 0., border));
}

LAW(refused, 80000, 3000, "the density on the remaining path cannot supply the grammage")
{
    auto x = gen(c);
    double border = x.L * c.plain(0.2, 1);
    ld total = x.s.grammage(x.D, x.k, border);
    double tol = x.tol(border);
    c.require(tol < 1e-4 * total);
    double g = double(total) * (c.flag() ? c.plain(1.001, 1.5) : c.logu(2, 1e3)) + 4 * tol;
    c.require(x.straight || x.s.kind < 2);
    if (x.s.kind >= 2)
        g += 1e-5 * double(x.s.f(x.D + x.k * border));
    bool infinite = false;
    if (x.s.kind == 1 && x.k / x.s.sigma < 0) {
        // all there is on the infinite path
        ld all = -x.s.f(x.D) * x.s.sigma / x.k;
        infinite = g > all * 1.000001L;
        c.require(infinite || g < all * 0.99L);
    }
    c.note("border %.17g supplies %.17Lg, asked for %.17g", border, total, g);
    if (infinite || x.s.kind >= 2)
        c.nontrivial();
    bool thrown = false;
    double r = 0;
    try {
        r = x.q->Correct(x.p, x.d, g, border);
    } catch (DensityException const& e) {
        thrown = true;
    }
    if (infinite)
        c.check(thrown, "distance %.17g for a grammage that does not exist on the whole path", r);
    else if (!thrown) {
        // densities known in closed form may answer with a distance beyond the border
        c.check(r > border, "distance %.17g within the border %.17g", r, border);
        double rho = double(std::max(x.s.f(x.D), x.s.f(x.D + x.k * r)));
        c.close(x.q->Calculate(x.p, x.d, r), g, 1e-8, 10 * x.tol(r) + 3e-6 * rho, "grammage at the distance beyond the border");
    }
}

LAW(medium_density, 3000, 500, "inhomogeneous density")
{
    auto x = gen(c);
    auto names = std::vector<std::string> { "ice", "water", "air", "standardrock", "iron", "uranium" };
    auto med = CreateMedium(c.pick(names));
    auto s = x.s;
    s.rho = med->GetMassDensity();
    auto a = s.make();
    std::shared_ptr<Density_distr> b;
    auto A = s.axis();
    double f = 1;
    switch (s.kind) {
    case 0:
        f = c.plain(0.1, 2);
        b = std::make_shared<Density_homogeneous>(*med, f);
        a = std::make_shared<Density_homogeneous>(s.rho * f);
        break;
    case 1:
        b = std::make_shared<Density_exponential>(*A, s.sigma, s.d0, *med);
        break;
    case 2:
        b = std::make_shared<Density_polynomial>(*A, Polynom(s.a), *med);
        break;
    case 3:
        b = std::make_shared<Density_splines>(*A, Linear_Spline(s.x, s.y), *med);
        break;
    default:
        b = std::make_shared<Density_splines>(*A, Cubic_Spline(s.x, s.y), *med);
    }
    if (s.kind > 0)
        c.nontrivial();
    c.check(*a == *b, "density built from a medium differs from one built from its mass density");
    c.check(a->Evaluate(x.p) == b->Evaluate(x.p), "values differ");
    c.check(a->Calculate(x.p, x.d, x.L) == b->Calculate(x.p, x.d, x.L), "grammages differ");
}
