// X04: parametrizations against independently written reference formulas
#include "refs.h"
#include "PROPOSAL/crosssection/parametrization/Bremsstrahlung.h"
#include "PROPOSAL/crosssection/parametrization/EpairProduction.h"
#include "PROPOSAL/crosssection/parametrization/Ionization.h"
#include "PROPOSAL/crosssection/parametrization/MupairProduction.h"
#include "PROPOSAL/crosssection/parametrization/ParamTables.h"
#include "PROPOSAL/crosssection/parametrization/PhotoMuPairProduction.h"
#include "PROPOSAL/crosssection/parametrization/PhotoPairProduction.h"
#include "PROPOSAL/crosssection/parametrization/PhotoQ2Integration.h"
#include "PROPOSAL/crosssection/parametrization/PhotoRealPhotonAssumption.h"
#include "PROPOSAL/crosssection/parametrization/Photoeffect.h"
#include "PROPOSAL/crosssection/parametrization/Photoproduction.h"
#include "PROPOSAL/crosssection/parametrization/WeakInteraction.h"
using namespace xs;
namespace cs = PROPOSAL::crosssection;
const char* pbt::property_id = "X04";

static double gen_v(Ctx& c, double lo, double hi)
{
    if (!(lo < hi))
        c.discard();
    double a = std::max(lo, 1e-9 * hi), f;
    switch (c.i(0, 3)) {
    case 0: return c.logu(a, hi);
    case 1: f = hi - (hi - lo) * std::pow(10, -c.plain(0, 7)); return f > lo ? f : hi; // towards the upper end
    default: f = lo + (hi - lo) * c.plain(1e-9, 1); return f;
    }
}
static Spec spec(char const* f, std::string const& n, bool hard = false, int shadow = 0)
{
    Spec s;
    s.family = f, s.name = n, s.hard = hard, s.shadow = shadow;
    return s;
}
static ParticleDef charged(Ctx& c) { return gen_particle(c, false); }
static ParticleDef electron(bool plus) { return plus ? ParticleDef(EPlusDef()) : ParticleDef(EMinusDef()); }
static void same(Ctx& c, char const* what, double got, ref::Val want, double rtol = 1e-9, double noise = 1e-11)
{
    if (!std::isfinite((double)want.v) || !std::isfinite((double)want.scale))
        c.discard();
    double tol = rtol * std::fabs((double)want.v) + noise * (double)want.scale;
    c.check(std::fabs(got - (double)want.v) <= tol, "%s: %.12g instead of %.12Lg (terms of size %.3Lg)", what, got, want.v, want.scale);
    if (want.v > 1e-6L * want.scale)
        c.nontrivial();
}
static double molar(Component const& k) { return PROPOSAL::NA / k.GetAtomicNum(); }

// ------------------------------------------------------------------ bremsstrahlung
static const std::vector<std::string> brems_names { "PetrukhinShestakov", "KelnerKokoulinPetrukhin", "CompleteScreening", "AndreevBezrukovBugaev", "SandrockSoedingreksoRhode" };
LAW(bremsstrahlung, 600000, 2500, "the reference differential cross section is positive")
{
    bool es = c.flag(1, 6);
    auto p = es ? electron(c.flag()) : charged(c);
    auto m = gen_medium(c);
    auto x = make(spec("brems", es ? "ElectronScreening" : c.pick(brems_names)), p, m, nullptr);
    size_t t = c.i(0, x.comp.size() - 1);
    double E = gen_energy(c, es ? 50.001 : p.mass, 1e14);
    auto l = x.limits(t, E);
    double v = gen_v(c, l.v_min, l.v_max);
    auto& k = x.comp[t];
    double Z = k.GetNucCharge(), A = k.GetAtomicNum();
    double top = (double)ref::electron_vmax(p.mass, E);
    if (std::fabs(v - top) < 1e-6 * v + 1e-15 * E / PROPOSAL::ME || !(v < 1) || std::fabs(v - 0.02) < 1e-9 || std::fabs(v - 0.1) < 1e-9 || std::fabs(v - 0.9) < 1e-9)
        c.discard();
    c.note("%s m %g z %g Z %g A %g E %.12g v %.12g", x.spec.name.c_str(), p.mass, p.charge, Z, A, E, v);
    auto r = ref::times(ref::brems(x.spec.name, p.mass, p.charge, Z, A, E, v), molar(k));
    // 1 - v is known to this accuracy only
    same(c, "dsigma/dv", x.dsigma(t, E, v), r, 1e-9, 3e-10 + 1e-15 / (1 - v));
}
LAW(electron_screening_low, 60000, 250, "the cross section below 50 MeV is positive")
{
    // below 50 MeV the table changes the normalisation, the Coulomb correction is absent
    auto p = electron(c.flag());
    auto m = gen_medium(c);
    auto x = make(spec("brems", "ElectronScreening"), p, m, nullptr);
    size_t t = c.i(0, x.comp.size() - 1);
    auto& k = x.comp[t];
    double Z = k.GetNucCharge(), E = std::min(gen_energy(c, p.mass * 1.001, 49.99), 49.99);
    auto l = x.limits(t, E);
    double v = gen_v(c, l.v_min, l.v_max), w = gen_v(c, l.v_min, l.v_max);
    auto shape = [&](double u) {
        double d = p.mass * p.mass * u / (2 * E * (1 - u)), s = 272 * d / PROPOSAL::ME / std::cbrt(Z), a, b;
        if (s <= 1)
            a = 20.867 - 3.242 * s + 0.625 * s * s, b = 20.029 - 1.93 * s - 0.086 * s * s;
        else
            a = b = 21.12 - 4.184 * std::log(s + 0.952);
        double lz = 4. / 3 * std::log(Z);
        return ((2 - 2 * u + u * u) * (a - lz) - 2. / 3 * (1 - u) * (b - lz)) / u;
    };
    c.note("Z %g E %.12g v %.12g w %.12g", Z, E, v, w);
    double f = x.dsigma(t, E, v), g = x.dsigma(t, E, w), rf = std::max(shape(v), 0.), rg = std::max(shape(w), 0.);
    c.check(std::fabs(f * rg - g * rf) <= 1e-8 * (std::fabs(f * rg) + std::fabs(g * rf)) + 1e-10 * (f / v + g / w) * 20, "ratio of dsigma/dv at %.12g and %.12g is %.12g instead of %.12g", v, w, f / g, rf / rg);
    ref::R L, Lp, fc = ref::coulomb(Z);
    ref::tsai_radlogs(Z, L, Lp);
    if (rf > 1e-3 / v) {
        double full = PROPOSAL::ALPHA * PROPOSAL::RE * PROPOSAL::RE * Z * (Z + double(Lp / (L - fc))) * molar(k) * rf;
        double a = f / full;
        c.nontrivial();
        // the empirical correction of EGS4, a table in the kinetic energy for some elements
        auto& es = PROPOSAL::A_energies;
        auto& lz = PROPOSAL::A_logZ;
        double T = E - p.mass, lo = 1e9, hi = 0;
        size_t i = std::upper_bound(es.begin(), es.end(), T) - es.begin(), j = std::upper_bound(lz.begin(), lz.end(), std::log(Z)) - lz.begin();
        for (size_t a1 = i ? i - 1 : 0; a1 <= std::min(i, es.size() - 1); ++a1)
            for (size_t b1 = j ? j - 1 : 0; b1 <= std::min(j, lz.size() - 1); ++b1) {
                double q = PROPOSAL::A_correction.size() == lz.size() ? PROPOSAL::A_correction[b1][a1] : PROPOSAL::A_correction[a1][b1];
                lo = std::min(lo, q), hi = std::max(hi, q);
            }
        bool inside = T >= es.front() && T <= es.back() && std::log(Z) >= lz.front() && std::log(Z) <= lz.back();
        if (inside)
            c.check(a >= lo - 1e-6 * hi && a <= hi * (1 + 1e-6), "the empirical correction %.9g is outside of its table values %.9g to %.9g at Z %g T %.9g", a, lo, hi, Z, T);
    }
}
static double brems_elpm(Xs const& bare)
{
    double sum = 0;
    for (size_t t = 0; t < bare.targets(); ++t) {
        auto l = bare.limits(t, 1e14);
        auto f = [&](double v) { return v * bare.dsigma(t, 1e14, v); };
        sum += (f(1e-9) * 1e-9 + quad_log(f, 1e-9, 0.1, 1e-8) + quad(f, 0.1, l.v_max, 1e-8)) / bare.weight(t);
    }
    sum *= bare.m.GetMassDensity();
    double a = PROPOSAL::ALPHA * bare.p.mass;
    return 2 * a * a / (PROPOSAL::PI * PROPOSAL::ME * PROPOSAL::RE * sum);
}
LAW(bremsstrahlung_lpm, 18000, 75, "the suppression is stronger than one percent")
{
    auto m = gen_medium(c);
    bool es = c.flag(1, 6);
    auto p = es ? electron(c.flag()) : c.flag() ? electron(c.flag()) : charged(c);
    auto s = spec("brems", es ? "ElectronScreening" : c.pick(brems_names));
    auto bare = make(s, p, m, nullptr);
    s.lpm = true;
    s.density_correction = c.flag() ? 1 : c.logu(1e-3, 10);
    auto x = make(s, p, m, nullptr);
    size_t t = c.i(0, x.comp.size() - 1);
    auto& k = x.comp[t];
    double el = brems_elpm(bare), dc = s.density_correction, Z = k.GetNucCharge();
    for (int i = 0; i < 20; ++i) {
        double E = gen_energy(c, es ? 50.001 : p.mass * 1.01, 1e14);
        auto l = x.limits(t, E);
        if (!(l.v_min < l.v_max))
            continue;
        double v = gen_v(c, l.v_min, l.v_max);
        c.note("%s m %g z %g Z %g in %s E %.12g v %.12g", s.text().c_str(), p.mass, p.charge, Z, text(m).c_str(), E, v);
        double b = bare.dsigma(t, E, v);
        if (!(b > 0))
            continue;
        double s1 = PROPOSAL::ME * std::cbrt(Z) / (p.mass * (double)ref::log_constant(Z));
        double nuc = p.mass / PROPOSAL::MMU * 1.54 * std::pow(k.GetAtomicNum(), 0.27);
        s1 = s1 * s1 * (1 + nuc * nuc) * std::sqrt(2.);
        double sp = std::sqrt(el * v / (dc * E * (1 - v))) / 8;
        double g = PROPOSAL::RE * PROPOSAL::ME / (PROPOSAL::ALPHA * p.mass * v);
        double Gamma = 1 + 4 * PROPOSAL::PI * m.GetSumCharge() * m.GetMolDensity() * dc * PROPOSAL::RE * g * g;
        double xi = (double)ref::lpm_xi(sp, s1), sm = sp / std::sqrt(xi) * Gamma;
        ref::R phi, G;
        ref::migdal(sm, phi, G);
        double want = xi / 3 * (v * v * (double)G / (Gamma * Gamma) + 2 * (1 + (1 - v) * (1 - v)) * (double)phi / Gamma) / (4. / 3 * (1 - v) + v * v);
        if (std::fabs(sm - 1.54954) < 1e-3 || std::fabs(sm - 0.71039) < 1e-3 || std::fabs(sm - 0.904912) < 1e-3 || std::fabs(sp / s1 - 1) < 1e-3)
            continue; // small steps between the approximations
        c.close(x.dsigma(t, E, v) / b, want, 2e-4, 1e-12, "LPM factor");
        if (want < 0.99)
            c.nontrivial();
    }
}

// ------------------------------------------------------------------ ionization
LAW(ionization, 400000, 2000, "the reference differential cross section is positive")
{
    auto m = gen_medium(c);
    int kind = (int)c.i(0, 2);
    auto p = kind == 0 ? charged(c) : electron(kind == 2);
    auto x = make(spec("ioniz", kind == 0 ? "BetheBlochRossi" : kind == 1 ? "BergerSeltzerMoller" : "BergerSeltzerBhabha"), p, m, nullptr);
    double E = gen_energy(c, p.mass * 1.0001, 1e14);
    auto l = x.limits(0, E);
    double v = gen_v(c, l.v_min, l.v_max);
    c.note("%s m %g z %g %s E %.12g v %.12g", x.spec.name.c_str(), p.mass, p.charge, text(m).c_str(), E, v);
    if (kind == 0 && v >= l.v_max * (1 - 1e-9))
        c.discard();
    double T = E - p.mass, gap = std::fabs(1 - v / l.v_max);
    auto r = kind == 0 ? ref::rossi(p.mass, p.charge, m, E, v) : kind == 1 ? ref::moller(m, E, v) : ref::bhabha(m, E, v);
    // E - m and v_max - v are differences
    same(c, "dsigma/dv", x.dsigma(0, E, v), r, kind == 0 ? 1e-6 : 1e-9, 1e-11 + 1e-14 * E / T + (kind == 0 ? 1e-15 / gap * (1 + E / T) : 0));
}
LAW(ionization_loss, 120000, 500, "the continuous loss is positive")
{
    auto m = gen_medium(c);
    int kind = (int)c.i(0, 2);
    auto p = kind == 0 ? charged(c) : electron(kind == 2);
    double E = gen_energy(c, p.mass * 1.001, 1e14);
    auto cut = gen_cut(c, E, 1e-6, true, false);
    auto x = make(spec("ioniz", kind == 0 ? "BetheBlochRossi" : kind == 1 ? "BergerSeltzerMoller" : "BergerSeltzerBhabha"), p, m, cut);
    auto l = x.limits(0, E);
    double v = std::min(std::max(std::min(cut->GetEcut() / E, cut->GetVcut()), l.v_min), l.v_max);
    c.note("%s m %g z %g %s E %.12g %s v %.12g", x.spec.name.c_str(), p.mass, p.charge, text(m).c_str(), E, text(cut).c_str(), v);
    double got = x.build(cut, false)->CalculatedEdx(E), want, scale;
    if (kind == 0) {
        if (v <= l.v_min) {
            c.check(got == 0, "no transfer is allowed but the loss is %.12g", got);
            return;
        }
        auto f = [&](double u) { return u * double(ref::rossi(p.mass, p.charge, m, E, u, false).v * (ref::rossi(p.mass, p.charge, m, E, u, false).v > 0)) * [&] {
            double b = std::log((1 - u / (double)ref::rossi_vmax(p.mass, E)) / (1 - u)), a = std::log1p(2 * u * E / PROPOSAL::ME), cc = std::log(2 * E * (1 - u) * PROPOSAL::ME / (p.mass * p.mass * u));
            return PROPOSAL::ALPHA / (2 * PROPOSAL::PI) * (a * (2 * b + cc) - b * b);
        }(); };
        double base = (double)ref::rossi_loss(p.mass, p.charge, m, E, v);
        double hi = std::min(v, l.v_max * (1 - 1e-12));
        double rad = E * quad_log(f, l.v_min, hi, 1e-7, 0, 200);
        want = base + rad, scale = base + std::fabs(rad);
        c.close(got, want, 2e-4, 3e-4 * scale, "dE/dx");
    } else {
        double D = std::min(v, l.v_max) * E / PROPOSAL::ME, tau = (E - PROPOSAL::ME) / PROPOSAL::ME;
        if (kind == 1)
            D = std::min(D, tau / 2);
        double b = (double)ref::berger_seltzer(kind == 1, m, E, D), f = (double)ref::berger_seltzer_factor(m, E);
        if (!std::isfinite(b))
            c.discard();
        want = f * std::max(b, 0.);
        c.close(got, want, 1e-9, 1e-12 * f * (100 + E / (E - p.mass)), "dE/dx");
    }
    if (want > 0)
        c.nontrivial();
}

// ------------------------------------------------------------------ photons
LAW(compton, 160000, 1000, "always")
{
    auto m = gen_medium(c);
    GammaDef p;
    auto x = make(spec("compton", "KleinNishina"), p, m, nullptr);
    size_t t = c.i(0, x.comp.size() - 1);
    double E = c.logu(1e-3, 1e14);
    auto l = x.limits(t, E);
    double v = gen_v(c, l.v_min, l.v_max), k = E / PROPOSAL::ME;
    c.note("Z %g E %.12g v %.12g", x.comp[t].GetNucCharge(), E, v);
    auto r = ref::times(ref::klein_nishina(x.comp[t].GetNucCharge(), E, v), molar(x.comp[t]));
    same(c, "dsigma/dv", x.dsigma(t, E, v), r, 1e-9, 1e-13 * (1 + 1 / (k * k)));
}
LAW(photon_pairs, 240000, 1000, "the reference differential cross section is positive")
{
    auto m = gen_medium(c);
    GammaDef p;
    int kind = (int)c.i(0, 2);
    auto x = make(kind == 0 ? spec("photopair", "Tsai") : kind == 1 ? spec("photopair", "KochMotz") : spec("photomupair", "BurkhardtKelnerKokoulin"), p, m, nullptr);
    size_t t = c.i(0, x.comp.size() - 1);
    auto& k = x.comp[t];
    double Z = k.GetNucCharge(), A = k.GetAtomicNum();
    double E = kind == 2 ? gen_energy(c, 2 * PROPOSAL::MMU * std::exp(0.5) * 1.000001, 1e14) : kind == 1 ? gen_energy(c, 50.0001, 1e14) : gen_energy(c, 2 * PROPOSAL::ME * 1.00001, 1e14);
    auto l = x.limits(t, E);
    double v = gen_v(c, l.v_min, l.v_max);
    if (c.flag())
        v = 1 - v;
    if (kind == 0 && !(v * E > PROPOSAL::ME * (1 + 1e-9)))
        c.discard();
    c.note("%s Z %g A %g E %.12g x %.12g", x.spec.name.c_str(), Z, A, E, v);
    auto r = ref::times(kind == 0 ? ref::tsai(Z, E, v) : kind == 1 ? ref::clamp(ref::kochmotz(Z, E, v, true)) : ref::photomupair(Z, A, E, v), molar(k));
    double got = x.dsigma(t, E, v);
    double gap = kind == 0 ? v * E / PROPOSAL::ME - 1 : 1;
    same(c, "dsigma/dx", got, r, 1e-9, 1e-11 + 1e-15 / gap + 1e-15 / std::min(v, 1 - v));
    if (kind) { // equal roles of both outgoing leptons
        double w = x.dsigma(t, E, 1 - v);
        c.check(std::fabs(w - got) <= 1e-7 * (w + got) + 1e-14 / std::min(v, 1 - v) * (double)r.scale, "dsigma/dx at x and 1-x: %.12g and %.12g", got, w);
    }
}
LAW(photopair_low, 8000, 40, "the cross section in the middle is positive")
{
    // below 50 MeV: shape without Coulomb correction, total cross section from tables
    auto m = gen_medium(c);
    GammaDef p;
    auto x = make(spec("photopair", "KochMotz"), p, m, nullptr);
    size_t t = c.i(0, x.comp.size() - 1);
    auto& k = x.comp[t];
    double Z = k.GetNucCharge(), E = c.logu(1.3, 49.9);
    auto l = x.limits(t, E);
    auto shape = [&](double v) { return (double)ref::kochmotz(Z, E, v, false).v; };
    double total = quad(shape, l.v_min, l.v_max, 1e-9);
    auto &es = PROPOSAL::photopair_KM_energies, &zs = PROPOSAL::photopair_KM_Z;
    size_t i = std::upper_bound(es.begin(), es.end(), E) - es.begin(), j = std::upper_bound(zs.begin(), zs.end(), Z) - zs.begin();
    c.note("Z %g E %.12g", Z, E);
    if (!i || i >= es.size() || !j || j > zs.size())
        c.discard();
    if (j == zs.size())
        --j;
    auto tab = [&](size_t a, size_t b) { return PROPOSAL::photopair_KM_cross.size() == zs.size() ? PROPOSAL::photopair_KM_cross[b][a] : PROPOSAL::photopair_KM_cross[a][b]; };
    double fe = (E - es[i - 1]) / (es[i] - es[i - 1]), fz = (Z - zs[j - 1]) / (zs[j] - zs[j - 1]);
    double want = ((1 - fe) * ((1 - fz) * tab(i - 1, j - 1) + fz * tab(i - 1, j)) + fe * ((1 - fz) * tab(i, j - 1) + fz * tab(i, j))) * 1e-24;
    if (!(total > 0.05 * shape(0.5) * (l.v_max - l.v_min)))
        c.discard(); // the shape is negative in parts
    for (int n = 0; n < 3; ++n) {
        double v = gen_v(c, l.v_min, l.v_max);
        double r = shape(v) / total * want * molar(k);
        c.note("v %.12g", v);
        c.close(x.dsigma(t, E, v), r, 3e-4, 1e-5 * std::fabs(shape(0.5) / total * want * molar(k)), "dsigma/dx");
        if (r > 0)
            c.nontrivial();
    }
}
LAW(photopair_lpm, 6000, 30, "the suppression is stronger than one percent")
{
    auto m = gen_medium(c);
    GammaDef p;
    auto s = spec("photopair", c.flag() ? "Tsai" : "KochMotz");
    auto bare = make(s, p, m, nullptr);
    s.lpm = true;
    s.density_correction = c.flag() ? 1 : c.logu(1e-3, 10);
    auto x = make(s, p, m, nullptr);
    double sum = 0;
    for (size_t t = 0; t < bare.targets(); ++t) {
        auto f = [&](double u) { return bare.dsigma(t, 1e14, u); };
        double lo = bare.limits(t, 1e14).v_min * 1.0001;
        sum += (quad_log(f, lo, 0.1, 1e-8) + quad(f, 0.1, 0.9, 1e-8) + quad([&](double u) { return f(1 - u); }, 1e-7, 0.1, 1e-8)) / bare.weight(t);
    }
    double a = PROPOSAL::ALPHA * PROPOSAL::ME, dc = s.density_correction;
    double el = 2 * a * a / (PROPOSAL::PI * PROPOSAL::ME * PROPOSAL::RE * 9 / 7 * sum * m.GetMassDensity());
    size_t t = c.i(0, x.comp.size() - 1);
    double Z = x.comp[t].GetNucCharge();
    for (int i = 0; i < 20; ++i) {
        double E = gen_energy(c, 50.01, 1e14), v = gen_v(c, x.limits(t, E).v_min, x.limits(t, E).v_max);
        if (v <= PROPOSAL::ME / E * 1.001)
            continue;
        c.note("%s Z %g in %s E %.12g x %.12g", s.text().c_str(), Z, text(m).c_str(), E, v);
        double b = bare.dsigma(t, E, v);
        if (!(b > 0))
            continue;
        double s1 = std::sqrt(2.) * std::pow(std::cbrt(Z) / (double)ref::log_constant(Z), 2);
        double sp = std::sqrt(el / (dc * E * v * (1 - v))) / 8, g = PROPOSAL::RE / (PROPOSAL::ALPHA * v);
        double Gamma = 1 + 4 * PROPOSAL::PI * m.GetSumCharge() * m.GetMolDensity() * dc * PROPOSAL::RE * g * g;
        double xi = (double)ref::lpm_xi(sp, s1), sm = sp / std::sqrt(xi) * Gamma;
        ref::R phi, G;
        ref::migdal(sm, phi, G);
        double want = xi / 3 * ((double)G / (Gamma * Gamma) + 2 * (v * v + (1 - v) * (1 - v)) * (double)phi / Gamma) / (1 - 4. / 3 * v * (1 - v));
        if (std::fabs(sm - 1.54954) < 1e-3 || std::fabs(sm - 0.71039) < 1e-3 || std::fabs(sm - 0.904912) < 1e-3 || std::fabs(sp / s1 - 1) < 1e-3)
            continue;
        c.close(x.dsigma(t, E, v) / b, want, 2e-4, 1e-12, "LPM factor");
        if (want < 0.99)
            c.nontrivial();
    }
}

// ------------------------------------------------------------------ pairs
struct Pair {
    ref::R m, z, Z, A, E, v;
    int kind; // 0 KKP 1 SSR 2 electrons 3 muons
};
static ref::Epair pair_ref(Pair const& q, ref::R rho)
{
    using namespace ref;
    switch (q.kind) {
    case 0: return epair_kkp(q.m, q.z, q.Z, q.E, q.v, rho);
    case 1: return epair_ssr(q.m, q.z, q.Z, q.A, q.E, q.v, rho);
    case 2: return pair_2000(me, q.z, q.Z, q.E, q.v, rho, me, re, log_constant(q.Z), 1);
    default: return pair_2000(q.m, q.z, q.Z, q.E, q.v, rho, mmu, re * me / mmu, 183, 0.65L * std::pow(q.A, -0.27L) * mmu / me);
    }
}
static double pair_rmax(Pair const& q)
{
    double E = (double)q.E, v = (double)q.v, m = (double)q.m;
    if (q.kind == 3)
        return 1 - 2 * PROPOSAL::MMU / (v * E);
    double a = 1 - 4 * PROPOSAL::ME / (E * v), b = 1 - 6 * m * m / (E * E * (1 - v));
    return a > 0 && b > 0 ? std::sqrt(a) * b : 0;
}
static std::shared_ptr<cs::EpairProductionRhoIntegral> epair_param(int kind, bool lpm, ParticleDef const& p, Medium const& m, double dc)
{
    if (kind == 0)
        return lpm ? std::make_shared<cs::EpairKelnerKokoulinPetrukhin>(true, p, m, dc) : std::make_shared<cs::EpairKelnerKokoulinPetrukhin>(false);
    if (kind == 1)
        return lpm ? std::make_shared<cs::EpairSandrockSoedingreksoRhode>(true, p, m, dc) : std::make_shared<cs::EpairSandrockSoedingreksoRhode>(false);
    return lpm ? std::make_shared<cs::EpairForElectronPositron>(true, p, m, dc) : std::make_shared<cs::EpairForElectronPositron>(false);
}
static Pair gen_pair(Ctx& c, ParticleDef const& p, Component const& k, int kind, double E, crosssection::KinematicLimits const& l)
{
    return { p.mass, p.charge, k.GetNucCharge(), k.GetAtomicNum(), E, gen_v(c, l.v_min, l.v_max), kind };
}
// the library's variable of integration: 1 - rho for electron pairs
LAW(pair_integrand, 320000, 2000, "the reference integrand is positive")
{
    int kind = (int)c.i(0, 3);
    auto m = gen_medium(c);
    auto gen = charged(c);
    auto p = kind == 2 ? electron(c.flag()) : std::abs(gen.particle_type) == 11 ? ParticleDef(MuMinusDef()) : gen;
    cs::MupairKelnerKokoulinPetrukhin mu;
    auto e = kind < 3 ? epair_param(kind, false, p, m, 1) : nullptr;
    auto k = m.GetComponents()[c.i(0, m.GetComponents().size() - 1)];
    double E = gen_energy(c, (kind == 3 ? mu.GetLowerEnergyLim(p) : e->GetLowerEnergyLim(p)) * 1.01, 1e14);
    auto l = kind == 3 ? mu.GetKinematicLimits(p, k, E) : e->GetKinematicLimits(p, k, E);
    auto q = gen_pair(c, p, k, kind, E, l);
    double v = (double)q.v, rm = pair_rmax(q);
    if (!(rm > 0) || !(v < 1 - 1e-9))
        c.discard();
    double rho = rm * c.plain(0, 1);
    if (c.flag(1, 4))
        rho = rm * (1 - std::pow(10, -c.plain(0, 4)));
    double o = 1 - rho; // exactly this argument
    if (kind < 3)
        rho = 1 - o;
    if (!(o > 1e-8))
        c.discard();
    c.note("kind %d m %g z %g Z %g A %g E %.12g v %.12g rho %.12g", kind, p.mass, p.charge, k.GetNucCharge(), k.GetAtomicNum(), E, v, rho);
    auto r = pair_ref(q, rho);
    if (r.edge)
        c.discard();
    double got = kind == 3 ? mu.FunctionToIntegral(p, k, E, v, rho) : e->FunctionToIntegral(p, k, E, v, o);
    same(c, "d2sigma/dv drho", got, { r.val, r.scale }, 1e-8 + (kind == 2 ? 1e-16 * E / PROPOSAL::ME : 0), 2e-10 + 1e-14 / o + 1e-14 / (1 - v));
}
LAW(pair_integral, 12000, 50, "the reference cross section is positive")
{
    int kind = (int)c.i(0, 3);
    auto m = gen_medium(c);
    auto p = kind == 2 ? electron(c.flag()) : c.flag(2, 3) ? ParticleDef(MuMinusDef()) : ParticleDef(TauPlusDef());
    cs::MupairKelnerKokoulinPetrukhin mu;
    auto e = kind < 3 ? epair_param(kind, false, p, m, 1) : nullptr;
    auto k = m.GetComponents()[c.i(0, m.GetComponents().size() - 1)];
    double E = gen_energy(c, (kind == 3 ? mu.GetLowerEnergyLim(p) : e->GetLowerEnergyLim(p)) * 1.01, 1e12);
    auto l = kind == 3 ? mu.GetKinematicLimits(p, k, E) : e->GetKinematicLimits(p, k, E);
    auto q = gen_pair(c, p, k, kind, E, l);
    double v = (double)q.v, rm = pair_rmax(q);
    if (!(rm > 0) || !(v < 1 - 1e-6))
        c.discard();
    c.note("kind %d m %g z %g Z %g A %g E %.12g v %.12g rmax %.12g", kind, p.mass, p.charge, k.GetNucCharge(), k.GetAtomicNum(), E, v, rm);
    auto f = [&](double o) { auto r = pair_ref(q, 1 - ref::R(o)); return std::isfinite((double)r.val) ? (double)r.val : 0.; };
    double lo = 1 - rm;
    double want = molar(k) * quad_log(f, std::max(lo, 1e-13), 1, 1e-7, 0, 200);
    double got = kind == 3 ? mu.DifferentialCrossSection(p, k, E, v) : e->DifferentialCrossSection(p, k, E, v);
    // rounding of the terms where they cancel
    auto mid = pair_ref(q, ref::R(rm) / 2);
    double noise = molar(k) * (double)mid.scale * 1e-9 * rm;
    if (!(want > 1e3 * noise))
        c.discard();
    c.close(got, want, 4e-3, noise, "dsigma/dv");
    if (want > 0)
        c.nontrivial();
}
LAW(epair_lpm, 120000, 1000, "the suppression is stronger than one percent")
{
    int kind = (int)c.i(0, 2);
    auto m = gen_medium(c);
    auto p = kind == 2 ? electron(c.flag()) : c.flag(2, 3) ? ParticleDef(MuMinusDef()) : ParticleDef(TauPlusDef());
    double dc = c.flag() ? 1 : c.logu(1e-3, 10);
    auto bare = epair_param(kind, false, p, m, 1), e = epair_param(kind, true, p, m, dc);
    auto k = m.GetComponents()[c.i(0, m.GetComponents().size() - 1)];
    double sum = 0;
    for (auto& q : m.GetComponents())
        sum += q.GetNucCharge() * q.GetNucCharge() * std::log(3.25 * (double)ref::log_constant(q.GetNucCharge()) / std::cbrt(q.GetNucCharge()));
    double el = std::pow(p.mass, 4) * PROPOSAL::ALPHA / (std::pow(PROPOSAL::ME * PROPOSAL::RE, 3) * 2 * PROPOSAL::PI * m.GetMolDensity() * p.charge * p.charge * sum);
    double E = gen_energy(c, 1e4, 1e16);
    auto l = e->GetKinematicLimits(p, k, E);
    auto q = gen_pair(c, p, k, kind, E, l);
    double v = (double)q.v, rm = pair_rmax(q);
    if (!(rm > 0) || !(v < 1 - 1e-6))
        c.discard();
    double o = 1 - rm * c.plain(0, 1), rho = 1 - o;
    c.note("kind %d m %g z %g Z %g %s E %.12g v %.12g rho %.12g dc %g", kind, p.mass, p.charge, k.GetNucCharge(), text(m).c_str(), E, v, rho, dc);
    auto r = pair_ref(q, rho);
    double b = bare->FunctionToIntegral(p, k, E, v, o);
    if (r.edge || !(b > 1e-9 * (double)r.scale) || !(r.xi < 1e4))
        c.discard();
    double s = std::sqrt(el / (dc * E * v * (1 - rho) * (1 + rho))) / 4;
    double want = 6 * s * (r.xi + 1) > 1e10 ? 1 : (double)ref::ternovskii(s, ref::R(rho) * rho, r.beta, r.xi);
    // the Ternovskii functions are differences for weak suppression
    if (s * (1 + r.xi) > 1e5)
        c.discard();
    double xi = (double)r.xi;
    c.close(e->FunctionToIntegral(p, k, E, v, o) / b, std::max(want, 0.), 1e-6, 1e-12 * (1 + s * s) * (1 + xi * xi) * (1 + 1 / xi) + 1e-13 * s * s * s * xi * xi, "LPM factor");
    if (want < 0.99)
        c.nontrivial();
}

// ------------------------------------------------------------------ photonuclear
static const std::vector<std::string> q2_names { "AbramowiczLevinLevyMaor91", "AbramowiczLevinLevyMaor97", "ButkevichMikheyev", "RenoSarcevicSu", "AbtFT", "BlockDurandHa" };
LAW(photonuclear_q2, 320000, 2000, "the reference integrand is positive")
{
    auto m = gen_medium(c);
    auto p = charged(c);
    auto name = c.pick(q2_names);
    int sh = (int)c.i(0, 1);
    auto x = make(spec("photonuclear", name, false, sh), p, m, nullptr);
    size_t t = c.i(0, x.comp.size() - 1);
    auto& k = x.comp[t];
    double E = gen_energy(c, p.mass * 1.2 + 200, 1e14);
    auto l = x.limits(t, E);
    double v = gen_v(c, l.v_min, l.v_max);
    double M = k.GetAverageNucleonWeight(), lo = p.mass * p.mass * v * v / (1 - v), hi = 2 * M * E * (v - l.v_min);
    if (!(lo < hi) || !(v < 1 - 1e-9))
        c.discard();
    lo = std::max(lo, hi * 1e-18);
    double Q2 = c.flag() ? c.logu(lo, hi) : lo + (hi - lo) * c.plain(0, 1), bx = Q2 / (2 * M * v * E);
    for (double b : { 0.0014, 0.04, 0.3, 1. })
        if (std::fabs(bx - b) < 1e-6 * b)
            c.discard();
    c.note("%s m %g Z %g A %g E %.12g v %.12g Q2 %.12g x %.12g", x.spec.text().c_str(), p.mass, k.GetNucCharge(), k.GetAtomicNum(), E, v, Q2, bx);
    auto param = std::dynamic_pointer_cast<cs::PhotoQ2Integral>(x.pc);
    double want = (double)ref::q2_integrand(name, sh, k, p.mass, E, v, Q2);
    double got = param->FunctionToQ2Integral(p, k, E, v, Q2);
    if (!std::isfinite(want))
        c.discard();
    // 1-x, and t close to zero, are differences
    double tol = 1e-9 + 1e-13 / (1 - bx);
    if (name != "ButkevichMikheyev" && name != "BlockDurandHa")
        tol += 1e-8;
    double base = 4 * PROPOSAL::PI * std::pow(PROPOSAL::ME * PROPOSAL::RE / Q2, 2) / v * k.GetAtomicNum() * 1e-12;
    // where both shadowing formulas meet
    if (sh && k.GetNucCharge() != 1 && bx <= 0.3) {
        double d = (double)ref::q2_integrand(name, sh, k, p.mass, E * (1 + 1e-9), v, Q2);
        if (std::fabs(d - want) > 1e-6 * std::fabs(want))
            c.discard();
    }
    c.close(got, want, tol, base * (1 + p.mass * p.mass / Q2 * v * v), "d2sigma/dv dQ2");
    if (want > 0)
        c.nontrivial();
}
LAW(photonuclear_q2_integral, 5000, 25, "the cross section is positive")
{
    auto m = gen_medium(c);
    auto p = c.flag() ? ParticleDef(MuMinusDef()) : c.flag() ? ParticleDef(TauMinusDef()) : heavy(139.57018, c.pick({ 1., 2. }));
    auto name = c.pick(q2_names);
    int sh = (int)c.i(0, 1);
    auto x = make(spec("photonuclear", name, false, sh), p, m, nullptr);
    size_t t = c.i(0, x.comp.size() - 1);
    auto& k = x.comp[t];
    double E = gen_energy(c, p.mass * 5 + 1000, 1e10);
    auto l = x.limits(t, E);
    double v = c.logu(l.v_min * 1.2, 0.9);
    double M = k.GetAverageNucleonWeight(), lo = p.mass * p.mass * v * v / (1 - v), hi = 2 * M * E * (v - l.v_min);
    c.note("%s m %g Z %g A %g E %.12g v %.12g Q2 %.12g to %.12g", x.spec.text().c_str(), p.mass, k.GetNucCharge(), k.GetAtomicNum(), E, v, lo, hi);
    if (p.mass < PROPOSAL::MPI)
        lo -= std::pow(p.mass, 4) / (E * E * 2 * (1 - v));
    double got = x.dsigma(t, E, v);
    if (!(lo < hi)) {
        c.check(got == 0, "no Q2 is possible, dsigma/dv is %.12g", got);
        return;
    }
    auto f = [&](double Q2) { return (double)ref::q2_integrand(name, sh, k, p.mass, E, v, Q2); };
    double want = std::max(molar(k) * p.charge * p.charge * quad_log(f, lo, hi, 1e-6, 0, 200), 0.);
    c.close(got, want, 2e-2, 0, "dsigma/dv");
    c.nontrivial();
}
static double rhode_sigma(double E, Component const& k) // the table is not a formula
{
    return cs::PhotoproductionRhode().PhotonNucleonCrossSection(E, k);
}
LAW(photonuclear_real, 320000, 2000, "the reference cross section is positive")
{
    auto m = gen_medium(c);
    auto p = charged(c);
    auto name = c.pick<std::string>({ "Zeus", "BezrukovBugaev", "Kokoulin", "Rhode" });
    bool hard = c.flag(1, 3) && !p.hard_component_table.empty();
    auto x = make(spec("photonuclear", name, hard), p, m, nullptr);
    size_t t = c.i(0, x.comp.size() - 1);
    auto& k = x.comp[t];
    double Z = k.GetNucCharge(), A = k.GetAtomicNum();
    double E = hard ? 1000 * std::pow(10., c.i(3, 9)) * 1.0000000001 : gen_energy(c, p.mass * 1.001 + 200, 1e14);
    auto l = x.limits(t, E);
    double v = gen_v(c, l.v_min, l.v_max);
    double nu = v * E, thr = (double)ref::pion_threshold(Z, A);
    for (double b : { thr, 17e3, 200e3 })
        if (std::fabs(nu / b - 1) < 1e-9)
            c.discard();
    if (!(v < 1 - 1e-12) || (hard && v < 1.1e-7))
        c.discard();
    double s = nu < thr ? 0 : name == "Rhode" && nu <= 200e3 ? rhode_sigma(nu, k) : (double)ref::sigma_gn(name, nu, (double)ref::nucleon(Z, A));
    c.note("%s m %g z %g Z %g A %g E %.12g v %.12g", x.spec.text().c_str(), p.mass, p.charge, Z, A, E, v);
    auto r = ref::real_photon(p.mass, p.charge, Z, A, v, s);
    double extra = 0, size = 0;
    if (hard) {
        int n = (int)std::lround(std::log10(E)) - 6;
        double lv = std::log10(v), w = 1;
        for (auto& row : p.hard_component_table)
            extra += row.at(n) * w, size += std::fabs(row.at(n) * w), w *= lv;
        extra *= A * 1e-30 * p.charge * p.charge / v, size *= A * 1e-30 * p.charge * p.charge / v;
    }
    double got = x.dsigma(t, E, v);
    r = ref::times(r, molar(k));
    double want = (double)r.v + extra * molar(k);
    c.close(got, want, hard ? 1e-6 : 1e-8, (1e-11 + 1e-14 / (1 - v)) * (double)r.scale + (hard ? 1e-6 * size * molar(k) : 0), "dsigma/dv");
    if (want > 0)
        c.nontrivial();
}
LAW(shadowing, 120000, 1000, "the element is not hydrogen")
{
    auto m = gen_medium(c);
    auto k = m.GetComponents()[c.i(0, m.GetComponents().size() - 1)];
    double x = c.flag() ? c.logu(1e-10, 0.999) : c.plain(1e-6, 0.999), nu = c.logu(150, 1e14), Z = k.GetNucCharge(), A = k.GetAtomicNum();
    c.note("Z %g A %g x %.12g nu %.12g", Z, A, x, nu);
    cs::ShadowDuttaRenoSarcevicSeckel d;
    cs::ShadowButkevichMikheyev b;
    for (double e : { 0.0014, 0.04, 0.3 })
        if (std::fabs(x - e) < 1e-9)
            c.discard();
    c.close(d.CalculateShadowEffect(k, x, nu), (double)ref::shadow_dutta(Z, A, x), 1e-11, 0, "shadowing by Dutta et al.");
    double lo = (double)ref::shadow_butkevich(Z, A, k.GetWoodSaxon(), x * (1 - 1e-9), nu), hi = (double)ref::shadow_butkevich(Z, A, k.GetWoodSaxon(), x * (1 + 1e-9), nu);
    double got = b.CalculateShadowEffect(k, x, nu);
    double noise = 1e-7 * (1 + 1 / (1 - x));
    c.check(std::min(std::fabs(got - lo), std::fabs(got - hi)) <= noise * (std::fabs(hi) + 1), "shadowing by Butkevich and Mikheyev: %.12g instead of %.12g or %.12g", got, lo, hi);
    if (Z != 1)
        c.nontrivial();
}

// ------------------------------------------------------------------ direct rates
LAW(direct_rates, 320000, 2000, "the rate is positive")
{
    auto m = gen_medium(c);
    int kind = (int)c.i(0, 3);
    static const std::vector<std::string> names { "Zeus", "BezrukovBugaev", "Caldwell", "Kokoulin", "Rhode", "Heck", "HeckC7Shadowing" };
    auto p = kind == 0 ? ParticleDef(EPlusDef()) : ParticleDef(GammaDef());
    auto s = kind == 0 ? spec("annihilation", "Heitler") : kind == 1 ? spec("photoeffect", "Sauter") : spec("photoproduction", c.pick(names));
    auto x = make(s, p, m, nullptr);
    auto cr = x.build(nullptr, false);
    double E = kind == 0 ? gen_energy(c, p.mass * 1.001, 1e14) : kind == 1 ? c.logu(1e-5, 1e14) : c.flag() ? c.logu(120, 3e3) : c.logu(100, 1e14);
    double total = 0;
    bool pos = false;
    std::vector<double> each;
    for (size_t t = 0; t < x.comp.size(); ++t) {
        auto& k = x.comp[t];
        double Z = k.GetNucCharge(), A = k.GetAtomicNum(), want;
        if (kind == 0)
            want = (double)ref::annihilation(Z, p.mass, E);
        else if (kind == 1) {
            double I = std::pow(Z * PROPOSAL::ALPHA, 2) * PROPOSAL::ME / 2;
            if (std::fabs(E / I - 1) < 1e-6)
                c.discard();
            want = E < I ? 0 : (double)ref::photoeffect(Z, E);
        } else {
            double thr = (double)ref::pion_threshold(Z, A), M = (double)ref::nucleon(Z, A);
            for (double b : { thr, 17e3, 200e3, 152., 322., 532., (19.39 * 19.39 * 1e6 - M * M) / (2 * M) })
                if (std::fabs(E / b - 1) < 1e-9)
                    c.discard();
            double sg = E < thr ? 0 : s.name == "Rhode" && E <= 200e3 ? rhode_sigma(E, k) : (double)ref::sigma_gn(s.name, E, M);
            if (s.name == "HeckC7Shadowing")
                want = sg * std::pow(A, 0.91);
            else
                want = A * sg * (Z == 1 || sg == 0 ? 1 : 0.75 * (double)ref::shadow_bb(A, sg) + 0.25);
            want *= 1e-30;
        }
        want *= molar(k) / x.weight(t);
        c.note("%s Z %g A %g E %.12g", s.text().c_str(), Z, A, E);
        each.push_back(want);
        total += want;
        pos |= want > 0;
        // close to the ionisation energy the velocity is the difference of energies
        double tol = 1e-8;
        if (kind == 1) {
            double I = std::pow(Z * PROPOSAL::ALPHA, 2) * PROPOSAL::ME / 2, T = E - I;
            if (T > 0)
                tol += 1e-13 * PROPOSAL::ME / T * (1 + Z * PROPOSAL::ALPHA * std::sqrt(PROPOSAL::ME / T)) + 1e-11 * std::pow(PROPOSAL::ME / T, 1.5);
        }
        if (tol < 0.01)
            c.close(cr->CalculatedNdx(E, k.GetHash()), want, tol, 0, "rate");
    }
    if (kind != 1)
        c.close(cr->CalculatedNdx(E), total, 1e-8, 0, "total rate");
    if (pos)
        c.nontrivial();
}
LAW(rhode_table, 60000, 1000, "the photon is inside the table")
{
    // measured values: Rhode's table is reproduced at its points and not left between
    static const double nu[] = { 0.20893, 0.301995, 0.436516, 0.630957, 0.912011, 1.31826, 1.90546, 2.75423, 3.98107, 5.7544, 8.31764, 12.0226, 17.378, 25.1189, 36.3078, 52.4807, 75.8577, 109.648, 158.489 };
    static const double s[] = { 159.74, 508.103, 215.77, 236.403, 201.919, 151.381, 145.407, 132.096, 128.546, 125.046, 121.863, 119.16, 117.022, 115.496, 114.607, 114.368, 114.786, 115.864, 117.606 };
    auto m = gen_medium(c);
    auto k = m.GetComponents()[0];
    size_t i = c.i(0, 18);
    double got = rhode_sigma(nu[i] * 1000, k);
    c.note("nu %g", nu[i]);
    c.close(got, s[i], 1e-6, 0, "cross section at a point of the table");
    if (i >= 6 && i + 1 < 19) {
        double f = nu[i] + (nu[i + 1] - nu[i]) * c.plain(0, 1), g = rhode_sigma(f * 1000, k);
        c.check(g > 0.95 * std::min(s[i], s[i + 1]) && g < 1.05 * std::max(s[i], s[i + 1]), "cross section at %.9g GeV: %.9g", f, g);
        c.nontrivial();
    }
}
LAW(weak, 60000, 1000, "the reference cross section is positive")
{
    // combination of the proton and neutron tables at the points of the tables
    auto m = gen_medium(c);
    auto p = charged(c);
    auto x = make(spec("weak", "CooperSarkarMertsch"), p, m, nullptr);
    auto& k = x.comp[c.i(0, x.comp.size() - 1)];
    bool minus = p.charge < 0;
    auto& es = PROPOSAL::energies;
    size_t i = c.i(0, es.size() - 1);
    auto &yp = minus ? PROPOSAL::y_nubar_p : PROPOSAL::y_nu_p, &yn = minus ? PROPOSAL::y_nubar_n : PROPOSAL::y_nu_n;
    auto &sp = minus ? PROPOSAL::sigma_nubar_p : PROPOSAL::sigma_nu_p, &sn = minus ? PROPOSAL::sigma_nubar_n : PROPOSAL::sigma_nu_n;
    size_t j = c.i(1, yp[i].size() - 2);
    double y = yp[i][j];
    auto r = std::upper_bound(yn[i].begin(), yn[i].end(), y);
    if (r == yn[i].begin() || r == yn[i].end())
        c.discard();
    size_t n = r - yn[i].begin();
    double f = (y - yn[i][n - 1]) / (yn[i][n] - yn[i][n - 1]), sig = sn[i][n - 1] + f * (sn[i][n] - sn[i][n - 1]);
    double spread = std::fabs(sn[i][n] - sn[i][n - 1]);
    double Z = k.GetNucCharge(), A = k.GetAtomicNum(), E = std::pow(10., es[i]);
    c.note("%s charge %g Z %g A %g log10 E %g y %.9g", p.name.c_str(), p.charge, Z, A, es[i], y);
    double want = molar(k) * 1e-36 * (Z * sp[i][j] + (A - Z) * sig) / A, slack = molar(k) * 1e-36 * (A - Z) / A * spread;
    c.close(x.pc->DifferentialCrossSection(p, k, E, y), want, 2e-3, slack * 0.6, "dsigma/dy");
    if (want > 0)
        c.nontrivial();
}

// ------------------------------------------------------------------ the published tables
// The tables sample smooth functions: an entry which disagrees with the curve
// through its neighbours, while the entries beside it agree, is a wrong one.
static double off_the_curve(std::vector<double> const& x, std::vector<double> const& y, long i, long lo, long hi)
{
    std::vector<long> js;
    long a = std::max(lo, std::min(i - 2, hi - 5));
    for (long j = a; j < std::min(a + 5, hi); ++j)
        if (j != i)
            js.push_back(j);
    double s = 0;
    for (long j : js) {
        double w = 1;
        for (long k : js)
            if (k != j)
                w *= (x[i] - x[k]) / (x[j] - x[k]);
        s += w * y[j];
    }
    return std::fabs(y[i] - s);
}
LAW(tables, 400000, 5000, "the entry is not beside a kink of the function")
{
    int kind = c.i(0, 5);
    auto column = [](std::vector<std::vector<double>> const& t, size_t j) {
        std::vector<double> r;
        for (auto& v : t)
            r.push_back(std::log(v.at(j)));
        return r;
    };
    if (kind < 4) { // neutrino-like deep inelastic scattering: energy, inelasticity
        using namespace PROPOSAL;
        auto& s = kind == 0 ? sigma_nu_p : kind == 1 ? sigma_nubar_p : kind == 2 ? sigma_nu_n : sigma_nubar_n;
        auto& y = kind == 0 ? y_nu_p : kind == 1 ? y_nubar_p : kind == 2 ? y_nu_n : y_nubar_n;
        long n = energies.size(), m = s[0].size(), i = c.i(0, n - 1), j = c.i(0, m - 1);
        c.note("weak table %d, log E %g, entry %ld: y %.9g sigma %.9g", kind, energies[i], j, y[i][j], s[i][j]);
        c.check(off_the_curve(energies, column(y, j), i, 0, n) < 1e-4, "the inelasticity is not on the curve of its neighbours");
        auto at = [&](long a, long b) { return off_the_curve(energies, column(s, b), a, 0, n); };
        double r = at(i, j), beside = 0;
        if (r > 1e-3) { // the threshold of heavy quarks crosses the table
            for (long b : { j - 1, j + 1 })
                for (long a = i - 3; b >= 0 && b < m && a <= i + 3; ++a)
                    if (a >= 0 && a < n)
                        beside = std::max(beside, at(a, b));
            if ((i > 104 && j > 30 && j < 42) || beside > r / 4)
                return;
        }
        c.check(r < 1e-3, "the cross section differs by %.3g from the curve of its neighbours", r);
    } else if (kind == 4) { // correction of the electron screening
        using namespace PROPOSAL;
        long i = c.i(0, A_energies.size() - 1), j = c.i(0, A_logZ.size() - 1), step = 75; // another model above 50 MeV
        std::vector<double> x, v;
        for (size_t k = 0; k < A_energies.size(); ++k) {
            x.push_back(std::log(A_energies[k]));
            v.push_back(std::log(A_correction[j][k]));
        }
        c.note("correction %.9g at T %g for log Z %g", A_correction[j][i], A_energies[i], A_logZ[j]);
        bool end = i == 0 || i == step - 1 || i == step || i + 1 == long(x.size());
        double r = i < step ? off_the_curve(x, v, i, 0, step) : off_the_curve(x, v, i, step, x.size());
        c.check(r < (end ? 2e-2 : 2.5e-3), "the correction differs by %.3g from the curve of its neighbours", r);
    } else { // pair production of low energy photons
        using namespace PROPOSAL;
        long i = c.i(0, photopair_KM_Z.size() - 1), j = c.i(1, photopair_KM_energies.size() - 1);
        std::vector<double> x;
        for (auto z : photopair_KM_Z)
            x.push_back(std::log(z));
        c.note("cross section %.9g at E %g for Z %g", photopair_KM_cross[i][j], photopair_KM_energies[j], photopair_KM_Z[i]);
        double r = off_the_curve(x, column(photopair_KM_cross, j), i, 0, x.size());
        c.check(r < (i < 2 ? 0.3 : i > 97 ? 0.06 : 1.5e-2), "the cross section differs by %.3g from the curve of its neighbours", r);
    }
    c.nontrivial();
}
