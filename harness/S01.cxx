// S01: multiple scattering
#include "fake.h"
#include "xs.h"
#include "PROPOSAL/propagation_utility/DisplacementBuilder.h"
#include "PROPOSAL/scattering/Scattering.h"
#include "PROPOSAL/scattering/ScatteringFactory.h"
#include "PROPOSAL/scattering/ScatteringMultiplier.h"
#include "PROPOSAL/scattering/multiple_scattering/Highland.h"
#include "PROPOSAL/scattering/multiple_scattering/HighlandIntegral.h"
#include "PROPOSAL/scattering/multiple_scattering/Moliere.h"
#include "PROPOSAL/scattering/multiple_scattering/ScatteringFactory.h"
#include <nlohmann/json.hpp>
#include <new>
const char* pbt::property_id = "S01";
using multiple_scattering::ScatteringOffset;
using Param = multiple_scattering::Parametrization;

// quantile of the standard normal distribution, by bisection
static double ppf(double p)
{
    if (p > 0.5)
        return -ppf(1 - p);
    double a = -40, b = 0;
    for (int i = 0; i < 200 && b - a > 1e-15; ++i) {
        double m = (a + b) / 2;
        (0.5 * std::erfc(-m / std::sqrt(2.)) < p ? a : b) = m;
    }
    return (a + b) / 2;
}
static double gen_rnd(Ctx& c)
{
    switch (c.i(0, 7)) {
    case 0: return 0.5;
    case 1: return c.logu(1e-12, 1e-2);
    case 2: return 1 - c.logu(1e-12, 1e-2);
    default: return c.plain(1e-3, 1 - 1e-3);
    }
}
static std::array<double, 4> gen_rnds(Ctx& c)
{
    std::array<double, 4> r;
    for (auto& x : r)
        x = gen_rnd(c);
    return r;
}
static std::string str4(std::array<double, 4> const& r) { return strf("(%.17g, %.17g, %.17g, %.17g)", r[0], r[1], r[2], r[3]); }
static std::string str4(ScatteringOffset const& o) { return strf("sx %.12g sy %.12g tx %.12g ty %.12g", o.sx, o.sy, o.tx, o.ty); }
// the angles of a step of known width
static void check_offsets(Ctx& c, Param& s, double x, double Ei, double Ef, double theta0, double rtol)
{
    auto r = gen_rnds(c);
    c.note(" random numbers %s", str4(r).c_str());
    auto o = s.CalculateRandomAngle(x, Ei, Ef, r);
    double g[4];
    for (int i = 0; i < 4; ++i)
        g[i] = ppf(r[i]) * theta0;
    double a = 1e-12 * theta0;
    c.close(o.tx, g[1], rtol, a, "tx");
    c.close(o.ty, g[3], rtol, a, "ty");
    double q = std::sqrt(3.);
    c.close(o.sx, 0.5 * (g[0] / q + g[1]), 0, rtol * (std::fabs(g[0]) + std::fabs(g[1])) + a, "sx");
    c.close(o.sy, 0.5 * (g[2] / q + g[3]), 0, rtol * (std::fabs(g[2]) + std::fabs(g[3])) + a, "sy");
    c.close(s.CalculateScatteringAngle(x, Ei, Ef, r[0]), g[0], rtol, a, "scattering angle");
    c.close(s.CalculateScatteringAngle2D(x, Ei, Ef, r[0], r[2]), std::hypot(g[0], g[2]), rtol, a, "angle in space");
}
// odd under reflection, zero for the median
static void check_symmetry(Ctx& c, Param& s, double x, double Ei, double Ef, double rtol = 1e-7)
{
    auto r = gen_rnds(c);
    for (auto& q : r)
        q = std::min(std::max(q, 1e-6), 1 - 1e-6);
    auto o = s.CalculateRandomAngle(x, Ei, Ef, r);
    auto m = r;
    for (auto& q : m)
        q = 1 - q;
    auto p = s.CalculateRandomAngle(x, Ei, Ef, m);
    double scale = std::max({ std::fabs(o.sx), std::fabs(o.sy), std::fabs(o.tx), std::fabs(o.ty) });
    double t = rtol * scale;
    c.check(std::fabs(o.sx + p.sx) <= t && std::fabs(o.sy + p.sy) <= t && std::fabs(o.tx + p.tx) <= t && std::fabs(o.ty + p.ty) <= t, "%s gives %s, reflected %s", str4(r).c_str(), str4(o).c_str(), str4(p).c_str());
    auto z = s.CalculateRandomAngle(x, Ei, Ef, { 0.5, 0.5, 0.5, 0.5 });
    c.check(std::fabs(z.sx) <= t + 1e-15 && std::fabs(z.sy) <= t + 1e-15 && std::fabs(z.tx) <= t + 1e-15 && std::fabs(z.ty) <= t + 1e-15, "median numbers give %s", str4(z).c_str());
    // x and y are alike
    auto w = s.CalculateRandomAngle(x, Ei, Ef, { r[2], r[3], r[0], r[1] });
    c.check(w.sx == o.sy && w.tx == o.ty && w.sy == o.sx && w.ty == o.tx, "exchanged numbers give %s instead of %s", str4(w).c_str(), str4(o).c_str());
}
static double gen_step(Ctx& c, Medium const& m) { return c.flag(1, 20) ? 0 : m.GetRadiationLength() * c.logu(1e-12, 1e3); }

LAW(highland, 96000, 1000, "the angle is positive")
{
    auto p = xs::gen_particle(c, false);
    auto m = xs::gen_medium(c);
    double Ei = xs::gen_energy(c, p.mass, 1e12), Ef = c.u(p.mass, Ei), x = gen_step(c, m);
    c.note("%s in %s E %.17g to %.17g grammage %.17g", p.name.c_str(), xs::text(m).c_str(), Ei, Ef, x);
    auto s = c.flag() ? make_multiple_scattering(MultipleScatteringType::Highland, p, m) : make_multiple_scattering(c.pick<std::string>({ "Highland", "highland", "HIGHLAND" }), p, m);
    auto copy = s->clone();
    double P2 = (Ei - p.mass) * (Ei + p.mass), t = x / m.GetRadiationLength();
    double f = t > 0 ? std::max(1 + 0.088 * std::log10(t), 0.) : 0;
    double theta0 = 13.6 * std::fabs(p.charge) * Ei / P2 * std::sqrt(t) * f;
    if (f > 0 && f < 1e-3)
        c.discard();
    check_offsets(c, c.flag() ? *s : *copy, x, Ei, Ef, theta0, 1e-6);
    check_symmetry(c, *s, x, Ei, Ef);
    if (theta0 > 0)
        c.nontrivial();
}
LAW(highland_integral, 48000, 500, "the angle is positive")
{
    auto p = xs::gen_particle(c, false);
    auto m = xs::gen_medium(c);
    double lower = p.mass * (1 + c.logu(1e-2, 1e2));
    auto set = fake::gen_set(c, lower);
    lower = set->lower;
    double Ei = c.flag(1, 10) ? lower : c.logu(lower, 1e10), Ef = c.flag(1, 3) ? std::max(lower, Ei * (1 - c.logu(1e-6, 1e-1))) : c.u(lower, Ei), x = gen_step(c, m);
    if (Ei - Ef < 1e-7 * Ei)
        Ef = Ei;
    auto d = std::shared_ptr<Displacement>(make_displacement(set->list, false));
    if (c.flag(3, 4))
        x = d->SolveTrackIntegral(Ei, Ef);
    c.note("%s in %s %s E %.17g to %.17g grammage %.17g", p.name.c_str(), xs::text(m).c_str(), set->text().c_str(), Ei, Ef, x);
    auto s = c.flag() ? make_highland_integral(p, m, d) : c.flag() ? make_highland_integral(p, m, set->list) : make_multiple_scattering("highlandintegral", p, m, set->list, false);
    double I = Ei > Ef ? quad_log([&](double E) { double b = E / ((E - p.mass) * (E + p.mass)); return b * b / set->dedx(E); }, Ef, Ei, 1e-8) : 0;
    double X0 = m.GetRadiationLength(), f = x > 0 ? std::max(1 + 0.038 * std::log(x / X0), 0.) : 0;
    if (f > 0 && f < 1e-3)
        c.discard();
    double theta0 = std::min(1., 13.6 * std::fabs(p.charge) * std::sqrt(I / X0) * f);
    check_offsets(c, *s, x, Ei, Ef, theta0, 3e-3);
    check_symmetry(c, *s, x, Ei, Ef);
    if (theta0 > 0)
        c.nontrivial();
}
LAW(copies, 16000, 200, "always")
{
    // a copy works without its original
    auto p = xs::gen_particle(c, false);
    auto m = xs::gen_medium(c);
    double lower = p.mass * 1.5;
    auto set = fake::gen_set(c, lower);
    lower = set->lower;
    double Ei = c.logu(lower * 1.01, 1e8), Ef = c.u(lower, Ei);
    auto d = std::shared_ptr<Displacement>(make_displacement(set->list, false));
    double x = d->SolveTrackIntegral(Ei, Ef);
    int kind = (int)c.i(0, 2);
    auto r = gen_rnds(c);
    c.note("kind %d %s in %s E %.17g to %.17g grammage %.17g %s", kind, p.name.c_str(), xs::text(m).c_str(), Ei, Ef, x, str4(r).c_str());
    using namespace multiple_scattering;
    alignas(16) static char place[4096];
    std::memset(place, 0x5a, sizeof place);
    Param* s;
    if (kind == 0)
        s = new (place) HighlandIntegral(p, m, d, std::false_type {});
    else if (kind == 1)
        s = new (place) Highland(p, m);
    else
        s = new (place) Moliere(p, m);
    auto o = s->CalculateRandomAngle(x, Ei, Ef, r);
    auto copy = s->clone();
    s->~Param();
    std::memset(place, 0x5a, sizeof place);
    auto q = copy->CalculateRandomAngle(x, Ei, Ef, r);
    c.check(o.sx == q.sx && o.sy == q.sy && o.tx == q.tx && o.ty == q.ty, "%s, the copy gives %s", str4(o).c_str(), str4(q).c_str());
    c.nontrivial();
}
// ---- Moliere -------------------------------------------------------------
// integrals of the published distribution functions, see Bethe 1953
static double moliere_F(int n, double phi)
{
    if (phi == 0)
        return 0;
    auto f = [&](double y) {
        if (y == 0)
            return 0.;
        double u = y * y / 4, l = u * std::log(u);
        return std::sin(phi * y) / y * std::exp(-u) * (n == 1 ? l : l * l / 2);
    };
    return quad(f, 0, 14, 1e-9, 1e-10, 40 + (int)(phi * 14)) / M_PI;
}
struct Mol {
    double chi2 = 0;
    std::vector<double> B, w;
    bool valid = true;
    double sure = INF; // smallest margin of B to the limit of the model
    Mol(ParticleDef const& p, Medium const& m, double E, double x)
    {
        double P2 = (E - p.mass) * (E + p.mass), beta2 = P2 / (E * E);
        double A = 0, zz = 0, za = 0, mass = 0;
        for (auto& c : m.GetComponents())
            mass += c.GetAtomInMolecule() * c.GetAtomicNum();
        for (auto& c : m.GetComponents()) {
            double q = c.GetAtomInMolecule() * c.GetAtomicNum() / mass, Z = c.GetNucCharge();
            A += q * c.GetAtomicNum();
            za += q * Z * (p.mass == ME ? Z + 1 : Z);
            w.push_back(q * Z * Z);
            zz += q * Z * Z;
        }
        for (auto& q : w)
            q /= zz;
        const double alpha = 0.0072973525664, hbarc = 1.973269804e-11, na = 6.022140857e23;
        chi2 = 4 * M_PI * na * alpha * alpha * hbarc * hbarc * x / (beta2 * P2) * za / A;
        for (auto& c : m.GetComponents()) {
            double Z = c.GetNucCharge();
            double chi0 = ME * alpha * std::cbrt(Z * 128 / (9 * M_PI * M_PI));
            double chia2 = chi0 * chi0 / P2 * (1.13 + 3.76 * alpha * alpha * Z * Z / beta2);
            // B - ln B = ln(chi_c^2/chi_a^2) + 1 - 2 gamma
            double b = std::log(chi2 / chia2) + 1 - 2 * 0.5772156649015328;
            if (!(b > 1)) {
                valid = false;
                sure = std::min(sure, 1.);
                continue;
            }
            double B = b + 1;
            for (int i = 0; i < 200; ++i)
                B = b + std::log(B);
            this->B.push_back(B);
            sure = std::min(sure, std::fabs(B - 4.5));
            if (B < 4.5)
                valid = false;
        }
    }
    // cumulative distribution of a projected angle
    double cdf(double theta) const
    {
        double y = 0;
        for (size_t i = 0; i < B.size(); ++i) {
            double phi = std::fabs(theta) / std::sqrt(chi2 * B[i]);
            y += w[i] * (0.5 * std::erf(phi) + (moliere_F(1, phi) / B[i] + moliere_F(2, phi) / (B[i] * B[i])) );
        }
        return 0.5 + (theta < 0 ? -y : y);
    }
};
static std::pair<double, double> gen_moliere(Ctx& c, ParticleDef const& p, Medium const& m)
{
    double E = std::max(xs::gen_energy(c, p.mass * 1.001, 1e10), p.mass * 1.001);
    return { E, m.GetRadiationLength() * c.logu(1e-7, 1e2) };
}
LAW(moliere, 5600, 50, "the model applies and the angle is not zero")
{
    auto p = xs::gen_particle(c, false);
    auto m = xs::gen_medium(c);
    auto q = gen_moliere(c, p, m);
    double E = q.first, x = q.second;
    bool table = c.flag(1, 4);
    double r = c.flag(1, 8) ? c.logu(1e-4, 1e-2) : c.flag(1, 8) ? 1 - c.logu(1e-4, 1e-2) : c.plain(0.01, 0.99);
    c.note("%s %s in %s E %.17g grammage %.17g rnd %.17g", table ? "tables" : "exact", p.name.c_str(), xs::text(m).c_str(), E, x, r);
    auto s = make_multiple_scattering(table ? MultipleScatteringType::MoliereInterpol : MultipleScatteringType::Moliere, p, m);
    Mol ref(p, m, E, x);
    double t = s->CalculateScatteringAngle(x, E, E, r);
    if (ref.sure < 1e-3)
        c.discard();
    if (!ref.valid) {
        c.check(t == 0, "angle %.17g where the model does not apply", t);
        return;
    }
    c.check(std::isfinite(t), "angle %.17g", t);
    double cdf = ref.cdf(t);
    c.check(std::fabs(cdf - r) < 4e-4 + 2e-2 * std::min(r, 1 - r), "angle %.12g has the cumulative probability %.9g instead of %.9g", t, cdf, r);
    // monotone
    double r2 = c.plain(0.001, 0.999), t2 = s->CalculateScatteringAngle(x, E, E, r2);
    if (std::fabs(r2 - r) > 1e-6)
        c.check((r2 > r) == (t2 > t), "%.17g gives %.17g, %.17g gives %.17g", r, t, r2, t2);
    if (r != 0.5)
        c.nontrivial();
}
LAW(moliere_offsets, 24000, 250, "the angles are not zero")
{
    auto p = xs::gen_particle(c, false);
    auto m = xs::gen_medium(c);
    auto q = gen_moliere(c, p, m);
    double E = q.first, x = q.second;
    bool table = c.flag(1, 8);
    c.note("%s %s in %s E %.17g grammage %.17g", table ? "tables" : "exact", p.name.c_str(), xs::text(m).c_str(), E, x);
    auto s = make_multiple_scattering(table ? "MoliereInterpol" : "Moliere", p, m);
    auto r = gen_rnds(c);
    for (auto& u : r)
        u = std::min(std::max(u, 1e-3), 1 - 1e-3);
    // results do not depend on what was calculated before
    for (int i = (int)c.i(0, 3); i > 0; --i) {
        auto o = gen_moliere(c, p, m);
        s->CalculateRandomAngle(o.second, o.first, o.first, gen_rnds(c));
    }
    auto o = s->CalculateRandomAngle(x, E, c.u(p.mass, E), r);
    auto fresh = make_multiple_scattering(table ? "MoliereInterpol" : "Moliere", p, m);
    double a[4];
    for (int i = 0; i < 4; ++i)
        a[i] = fresh->CalculateScatteringAngle(x, E, E, r[i]);
    double k = std::sqrt(3.);
    double t = 1e-12 * (std::fabs(a[0]) + std::fabs(a[1]) + std::fabs(a[2]) + std::fabs(a[3]));
    c.close(o.tx, a[1], 0, t, "tx");
    c.close(o.ty, a[3], 0, t, "ty");
    c.close(o.sx, 0.5 * (a[0] / k + a[1]), 0, t, "sx");
    c.close(o.sy, 0.5 * (a[2] / k + a[3]), 0, t, "sy");
    c.close(s->CalculateScatteringAngle2D(x, E, E, r[0], r[3]), std::hypot(a[0], a[3]), 1e-12, 0, "angle in space");
    check_symmetry(c, *s, x, E, E, 1e-3); // solved numerically
    if (o.tx != 0 && o.ty != 0)
        c.nontrivial();
}
LAW(moliere_tail, 24000, 250, "always")
{
    // numbers close to zero and one
    auto p = xs::gen_particle(c, false);
    auto m = xs::gen_medium(c);
    auto q = gen_moliere(c, p, m);
    double E = q.first, x = q.second, u = c.logu(1e-9, 1e-3);
    c.note("%s in %s E %.17g grammage %.17g rnd %.17g", p.name.c_str(), xs::text(m).c_str(), E, x, u);
    auto s = make_multiple_scattering("Moliere", p, m);
    double lo = s->CalculateScatteringAngle(x, E, E, u), hi = s->CalculateScatteringAngle(x, E, E, 1 - u), in = s->CalculateScatteringAngle(x, E, E, 1 - 2 * u);
    c.check(std::isfinite(lo) && std::isfinite(hi), "angles %.17g and %.17g", lo, hi);
    if (hi != 0) {
        c.check(lo < 0 && hi > 0, "angles %.17g and %.17g", lo, hi);
        c.check(hi > in, "%.17g gives %.17g, %.17g gives %.17g", 1 - u, hi, 1 - 2 * u, in);
        // single scattering: the tail falls with the square of the angle
        c.check(hi / in > 1.005 && hi / in < 3, "angles %.17g and %.17g for half the probability", in, hi);
    }
    c.nontrivial();
}
// ---- directions ------------------------------------------------------------
LAW(rotation, 320000, 4000, "the direction is not along an axis")
{
    auto dir = gen_dir(c);
    ScatteringOffset o;
    int kind = (int)c.i(0, 3);
    double scale = kind == 0 ? c.logu(1e-12, 1e-3) : kind == 1 ? 0.7 : kind == 2 ? 2 : 0.3;
    o.sx = scale * c.u(-1, 1);
    o.sy = scale * c.u(-1, 1);
    o.tx = scale * c.u(-1, 1);
    o.ty = scale * c.u(-1, 1);
    c.note("%s with %s", str(dir).c_str(), str4(o).c_str());
    bool sph = c.flag(1, 4);
    Spherical3D ds(dir);
    auto r = sph ? multiple_scattering::ScatterInitialDirection(ds, o) : multiple_scattering::ScatterInitialDirection(dir, o);
    auto one = [&](char const* what, Cartesian3D const& v, double x, double y) {
        c.close(v.magnitude(), 1, 2e-8, 0, "length of the %s direction", what);
        double s2 = x * x + y * y;
        // offsets beyond the unit circle point sideways
        double n = s2 > 1 ? std::sqrt(s2) : 1;
        // the zenith angle next to the poles is accurate to 1e-8
        c.close(v * dir, std::sqrt(std::max(0., 1 - s2)), 2e-8, 2e-8, "cosine of the %s angle", what);
        // along the directions of growing zenith and azimuth
        double th = Spherical3D(dir).GetZenith(), ph = Spherical3D(dir).GetAzimuth();
        Cartesian3D ex(std::cos(th) * std::cos(ph), std::cos(th) * std::sin(ph), -std::sin(th)), ey(-std::sin(ph), std::cos(ph), 0);
        c.close(v * ex, x / n, 2e-8, 2e-8, "%s direction, first offset", what);
        c.close(v * ey, y / n, 2e-8, 2e-8, "%s direction, second offset", what);
    };
    one("mean", r.first, o.sx, o.sy);
    one("final", r.second, o.tx, o.ty);
    if (std::fabs(dir.GetX()) < 0.999 && std::fabs(dir.GetY()) < 0.999 && std::fabs(dir.GetZ()) < 0.999)
        c.nontrivial();
}
// ---- multipliers, construction -----------------------------------------------
LAW(multiplier, 48000, 500, "the angles are not zero")
{
    auto p = xs::gen_particle(c, false);
    auto m = xs::gen_medium(c);
    double E = xs::gen_energy(c, p.mass * 1.01, 1e9), x = m.GetRadiationLength() * c.logu(1e-4, 10), k = c.flag(1, 6) ? 0 : c.logu(1e-3, 1e3);
    auto name = c.pick<std::string>({ "Highland", "Moliere" });
    auto r = gen_rnds(c);
    for (auto& u : r)
        u = std::min(std::max(u, 1e-3), 1 - 1e-3);
    c.note("%s times %.17g %s in %s E %.17g grammage %.17g %s", name.c_str(), k, p.name.c_str(), xs::text(m).c_str(), E, x, str4(r).c_str());
    using list = std::vector<std::unique_ptr<stochastic_deflection::Parametrization>>;
    std::unique_ptr<Scattering> a = std::make_unique<Scattering>(make_multiple_scattering(name, p, m), list());
    std::unique_ptr<Scattering> b;
    if (c.flag()) {
        b = std::make_unique<ScatteringMultiplier>(make_multiple_scattering(name, p, m), list(), k, std::vector<std::pair<InteractionType, double>> { { InteractionType::Brems, 3. } });
    } else {
        nlohmann::json j;
        j["multiple_scattering"] = name;
        j["multiple_scattering_multiplier"] = k;
        if (c.flag())
            j["stochastic_deflection_multiplier"] = { { "brems", 7. } };
        b = make_scattering(j, p, m, fake::List(), false);
    }
    c.check(a->MultipleScatteringRandomNumbers() == 4 && b->MultipleScatteringRandomNumbers() == 4, "random numbers");
    auto o = a->CalculateMultipleScattering(x, E, E, r), q = b->CalculateMultipleScattering(x, E, E, r);
    c.close(q.sx, k * o.sx, 1e-12, 0, "sx");
    c.close(q.sy, k * o.sy, 1e-12, 0, "sy");
    c.close(q.tx, k * o.tx, 1e-12, 0, "tx");
    c.close(q.ty, k * o.ty, 1e-12, 0, "ty");
    if (o.tx != 0)
        c.nontrivial();
    // none
    auto none = c.flag() ? make_scattering(nlohmann::json::object(), p, m, fake::List(), false) : std::make_unique<Scattering>(nullptr, nullptr);
    auto z = none->CalculateMultipleScattering(x, E, E, r);
    c.check(none->MultipleScatteringRandomNumbers() == 0 && z.sx == 0 && z.sy == 0 && z.tx == 0 && z.ty == 0, "scattering without a model");
}
LAW(names, 3200, 100, "always")
{
    auto p = xs::gen_particle(c, false);
    auto m = xs::gen_medium(c), n = xs::gen_medium(c);
    auto bad = c.pick<std::string>({ "", "Molier", "highlands", "highland ", "moliere_interpol", "none" });
    THROWS(c, make_multiple_scattering(bad, p, m), bad.c_str());
    c.check(make_multiple_scattering("NoScattering", p, m) == nullptr, "NoScattering");
    auto h = make_multiple_scattering("highland", p, m), h2 = make_multiple_scattering("highland", p, m), o = make_multiple_scattering("moliere", p, m), o2 = make_multiple_scattering("moliere", p, m);
    c.check(*h == *h2 && *o == *o2 && *h == *h->clone() && *o == *o->clone(), "equal models compare different");
    c.check(!(*h == *o) && !(*o == *h), "different models compare equal");
    if (m.GetRadiationLength() != n.GetRadiationLength())
        c.check(!(*h == *make_multiple_scattering("highland", p, n)), "different media compare equal");
    c.nontrivial();
}
