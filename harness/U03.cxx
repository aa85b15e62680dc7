// U03: elapsed time, decay energy and continuous randomisation
#include "fake.h"
#include "xs.h"
#include "PROPOSAL/propagation_utility/ContRandBuilder.h"
#include "PROPOSAL/propagation_utility/DecayBuilder.h"
#include "PROPOSAL/propagation_utility/DisplacementBuilder.h"
#include "PROPOSAL/propagation_utility/PropagationUtility.h"
#include "PROPOSAL/propagation_utility/InteractionBuilder.h"
#include "PROPOSAL/propagation_utility/TimeBuilder.h"
const char* pbt::property_id = "U03";

static const double C = 2.99792458e10; // cm/s
struct Setup {
    std::shared_ptr<fake::Set> s;
    std::shared_ptr<Displacement> d;
    double mass, lower;
    double p(double E) const { return std::sqrt((E - mass) * (E + mass)); }
};
// lower is where the energy loss integrals end, it may be the rest mass
static Setup setup(Ctx& c, bool de2dx = false)
{
    Setup u;
    u.mass = c.flag(1, 10) ? 0 : c.logu(0.1, 2e3);
    double lower = u.mass == 0 ? c.logu(1e-2, 1e3) : c.flag(1, 3) ? u.mass : u.mass * (1 + c.logu(1e-3, 1e2));
    u.s = fake::gen_set(c, lower);
    u.lower = u.s->lower;
    if (u.lower < u.mass)
        u.mass = u.lower;
    u.d = std::shared_ptr<Displacement>(make_displacement(u.s->list, false));
    return u;
}
static ParticleDef particle(double mass, double lifetime)
{
    static int id = 3000000;
    return ParticleDef::Builder().SetName("probe").SetMass(mass).SetLow(mass).SetLifetime(lifetime).SetCharge(-1).SetParticleType(id++).build();
}
static double gen_E(Ctx& c, Setup const& u, double top = 1e10)
{
    double E = c.flag(1, 10) ? u.lower : c.logu(u.lower, top);
    return E - u.lower > 1e-7 * u.lower ? E : u.lower;
}
static double gen_density(Ctx& c) { return c.flag(1, 3) ? 1 : c.logu(1e-8, 1e2); }
static double gen_rnd(Ctx& c)
{
    switch (c.i(0, 6)) {
    case 0: return std::nextafter(1., 0.);
    case 1: return c.logu(1e-300, 1e-3);
    case 2: return 1 - c.logu(1e-15, 1e-2);
    default: return c.prob();
    }
}
// integral over the energies, the substitution removes the root at the rest mass
static double energy_integral(Setup const& u, std::function<double(double)> f, double lo, double hi)
{
    if (!(hi > lo))
        return 0;
    double m = u.mass;
    if (m == 0)
        return quad_log(f, lo, hi, 1e-9);
    auto x = [&](double E) { return std::asinh(std::sqrt((E - m) / (2 * m))); }; // E = m cosh(2x)
    return quad([&](double t) { double sh = std::sinh(t), E = m * (1 + 2 * sh * sh); return f(E) * 2 * m * std::sinh(2 * t); }, x(lo), x(hi), 1e-9);
}

LAW(time_exact, 30000, 1000, "the energies differ")
{
    auto u = setup(c);
    double rho = gen_density(c);
    double Ei = gen_E(c, u), Ef = c.flag(1, 8) ? Ei : c.flag(1, 3) ? u.lower : c.u(u.lower, Ei);
    if (Ei - Ef < 1e-7 * Ei)
        Ef = Ei;
    c.note("%s mass %.17g from %.17g to %.17g density %.6g", u.s->text().c_str(), u.mass, Ei, Ef, rho);
    auto t = make_time(u.d, particle(u.mass, -1), false);
    double T = t->TimeElapsed(Ei, Ef, c.logu(1e-3, 1e5), rho);
    // E / p dE is integrated exactly: the root vanishes
    double m = u.mass;
    auto f = [&](double E) { return E / (u.p(E) * C * u.s->dedx(E) * rho); };
    double want = m == 0 ? quad_log([&](double E) { return 1 / (C * u.s->dedx(E) * rho); }, Ef, Ei, 1e-9)
                         : energy_integral(u, [&](double E) { double p = u.p(E); return p > 0 ? E / (p * C * u.s->dedx(E) * rho) : 0.; }, Ef, Ei);
    if (!(Ei > Ef))
        want = 0;
    // at rest the integrand is infinite
    double rtol = Ef < m * 1.1 ? 0.1 : 1e-3;
    c.close(T, want, rtol, 1e-300, "time");
    c.check(Ei > Ef ? T > 0 : T == 0, "time %.17g", T);
    double X = u.d->SolveTrackIntegral(Ei, Ef);
    c.check(T >= X / (rho * C) * (1 - 2e-3), "%.17g s for %.17g g/cm^2 is faster than light", T, X);
    double E = c.logu(u.lower * 1.0001, 1e10);
    if (E > m)
        c.close(static_cast<ExactTimeBuilder*>(t.get())->FunctionToIntegral(E), -f(E) * rho, 1e-9, 0, "integrand");
    double Em = c.u(Ef, Ei);
    if (Ei - Em > 1e-8 * Ei && Em - Ef > 1e-8 * Ei) // closer energies count as equal
        c.close(t->TimeElapsed(Ei, Em, 1, rho) + t->TimeElapsed(Em, Ef, 1, rho), T, 3 * rtol, 1e-6 * want, "sum of two steps");
    // any density
    c.close(t->TimeElapsed(Ei, Ef, 1, 2 * rho) * 2, T, 1e-12, 0, "time in twice the density");
    if (Ei > Ef)
        c.nontrivial();
}
LAW(time_approximate, 12000, 1000, "always")
{
    ApproximateTimeBuilder t;
    double X = c.flag(1, 8) ? 0 : c.logu(1e-6, 1e12), rho = gen_density(c);
    c.note("%.17g g/cm^2 density %.17g", X, rho);
    c.close(t.TimeElapsed(c.logu(1, 1e12), c.logu(1e-2, 1), X, rho), X / (rho * C), 1e-12, 0, "time");
    c.nontrivial();
}
LAW(decay_energy, 30000, 1000, "the decay happens before the lower limit")
{
    auto u = setup(c);
    if (u.mass == 0)
        c.discard();
    double rho = gen_density(c), tau = c.logu(1e-13, 1e-4);
    double Ei = gen_E(c, u), rnd = gen_rnd(c);
    // most decays within the range
    double m = u.mass;
    auto f = [&](double E) { double p = u.p(E); return p > 0 ? m / (p * C * u.s->dedx(E)) : 0.; };
    auto integral = [&](double hi, double lo) { return energy_integral(u, f, lo, hi); };
    double all = integral(Ei, u.lower);
    if (c.flag(3, 4) && all > 0)
        tau = all / rho * c.logu(1e-2, 1e2);
    c.note("%s mass %.17g lifetime %.17g from %.17g rnd %.17g density %.6g", u.s->text().c_str(), m, tau, Ei, rnd, rho);
    if (!(rnd > 0))
        c.discard();
    auto d = make_decay(u.d, particle(m, tau), false);
    double E = d->EnergyDecay(Ei, rnd, rho);
    c.check(E >= u.lower * (1 - 1e-9) && E <= Ei * (1 + 1e-9), "energy %.17g outside [%.17g, %.17g]", E, u.lower, Ei);
    double want = -std::log(rnd) * rho * tau; // the integral until the decay
    // at rest the integrand is infinite
    double rtol = u.lower < m * 1.1 ? 0.1 : 2e-3;
    if (want > all * (1 + rtol))
        c.check(E == u.lower, "no decay before the lower limit, but the energy is %.17g instead of %.17g", E, u.lower);
    else if (want < all * (1 - rtol)) {
        E = std::min(std::max(E, u.lower), Ei);
        double tol = rtol * all + f(std::max(E, m * 1.0001)) * E * 3e-5 * (1 + std::fabs(std::log(E)));
        c.check(std::fabs(integral(Ei, E) - want) <= tol, "the integral to %.17g is %.12g instead of %.12g (of %.12g)", E, integral(Ei, E), want, all);
        c.nontrivial();
    }
    double e = c.logu(m * 1.0001, 1e10);
    c.close(d->FunctionToIntegral(e), -f(e), 1e-9, 0, "integrand");
    // monotone
    double r2 = gen_rnd(c);
    if (r2 > 0) {
        double E2 = d->EnergyDecay(Ei, r2, rho);
        double hi = std::max(E, E2), slope = f(hi) * hi;
        if (slope > 1e-2 * all) {
            double tol = (2 * rtol * all / slope + 6e-5 * (1 + std::fabs(std::log(hi)))) * hi;
            c.check((rnd <= r2) ? E <= E2 + tol : E2 <= E + tol, "%.17g gives %.17g, %.17g gives %.17g", rnd, E, r2, E2);
        }
    }
}
LAW(decay_stable, 12000, 1000, "always")
{
    auto u = setup(c);
    double Ei = gen_E(c, u), rnd = gen_rnd(c), rho = gen_density(c);
    c.note("%s mass %.17g from %.17g rnd %.17g density %.6g", u.s->text().c_str(), u.mass, Ei, rnd, rho);
    if (!(rnd > 0))
        c.discard();
    auto d = make_decay(u.d, particle(u.mass, -1), false);
    double E = d->EnergyDecay(Ei, rnd, rho);
    c.check(E == u.lower, "a stable particle decays at %.17g", E);
    c.nontrivial();
}
static bool randomizes(fake::Set const& s)
{
    for (auto& m : s.models)
        if (m.s > 0)
            return true;
    return false;
}
LAW(randomize, 60000, 2000, "the variance is positive")
{
    auto u = setup(c);
    double Ei = gen_E(c, u), Ef = c.flag(1, 10) ? Ei : c.flag(1, 4) ? u.lower : c.flag(1, 3) ? std::max(u.lower, Ei * (1 - c.logu(1e-6, 1e-1))) : c.u(u.lower, Ei);
    if (Ei - Ef < 1e-7 * Ei)
        Ef = Ei;
    double low = c.flag(1, 3) ? c.u(0, Ef) : c.flag(1, 2) ? u.lower : 0;
    c.note("%s mass %.17g from %.17g to %.17g at least %.17g", u.s->text().c_str(), u.mass, Ei, Ef, low);
    auto r = make_contrand(u.d, u.s->list, false);
    auto f = [&](double E) { return u.s->de2dx(E) / u.s->dedx(E); };
    double var = Ei > Ef ? quad_log(f, Ef, Ei, 1e-9) : 0;
    double V = r->Variance(Ei, Ef);
    c.close(V, var, 1e-3, 1e-300, "variance");
    double E = c.logu(u.lower, 1e10);
    c.close(r->FunctionToIntegral(E), -f(E), 1e-9, 0, "integrand");
    double min = std::max(u.lower, low), sigma = std::sqrt(V);
    double rnd = c.flag(1, 50) ? 0 : gen_rnd(c), r2 = gen_rnd(c);
    double e = r->EnergyRandomize(Ei, Ef, rnd, low), e2 = r->EnergyRandomize(Ei, Ef, r2, low);
    c.check(e >= min * (1 - 1e-15) && e <= Ei, "energy %.17g outside [%.17g, %.17g]", e, min, Ei);
    if (!(V > 0)) {
        c.check(e == Ef, "energy %.17g without any variance", e);
        return;
    }
    c.nontrivial();
    c.check(rnd <= r2 ? e <= e2 + 1e-9 * sigma : e2 <= e + 1e-9 * sigma, "%.17g gives %.17g, %.17g gives %.17g", rnd, e, r2, e2);
    // cumulative distribution of the truncated Gaussian around the mean
    auto Phi = [&](double x) { return 0.5 * std::erfc(-(x - Ef) / (sigma * std::sqrt(2.))); };
    double a = Phi(min), b = Phi(Ei);
    if (e > min && e < Ei && b - a > 1e-6 && sigma > 1e-8 * Ef)
        c.check(std::fabs((Phi(e) - a) / (b - a) - rnd) < 1e-6, "cumulative probability %.12g for %.12g", (Phi(e) - a) / (b - a), rnd);
}
LAW(randomize_without, 600, 50, "always")
{
    // nothing to randomise without continuous randomisation
    auto s = fake::gen_set(c, 1);
    auto cut = std::make_shared<EnergyCutSettings>(500., 0.05, false);
    bool any = c.flag();
    size_t at = c.i(0, s->list.size() - 1);
    fake::List list;
    for (size_t i = 0; i < s->models.size(); ++i) {
        auto x = std::make_shared<fake::Cross>(s->models[i], cut);
        x->cut = any && i == at ? std::make_shared<EnergyCutSettings>(500., 0.05, true) : c.flag() ? cut : nullptr;
        list.push_back(x);
    }
    if (any)
        make_contrand(list, false);
    else
        THROWS(c, make_contrand(list, false), "no continuous randomisation");
    c.nontrivial();
}
LAW(real, 120, 5, "the energies differ")
{
    // with real cross sections
    auto p = xs::gen_particle(c, false);
    auto m = xs::gen_medium(c);
    bool e = std::abs(p.particle_type) == 11;
    double low = std::max(p.mass * 1.2, e ? 51. : 0.);
    double Ei = xs::gen_energy(c, low, 1e9), Ef = c.u(low, Ei), rho = gen_density(c);
    auto cut = std::make_shared<EnergyCutSettings>(500., 0.05, true);
    fake::List list;
    for (auto& q : xs::specs_for(p))
        if (q.name == (e ? (p.charge < 0 ? "BergerSeltzerMoller" : "BergerSeltzerBhabha") : "BetheBlochRossi")) {
            auto x = xs::make(q, p, m, cut);
            list.push_back(xs::CrossPtr(x.build(cut, false)));
        }
    if (list.empty() || Ef > Ei * (1 - 1e-6))
        c.discard();
    c.note("%s in %s from %.17g to %.17g density %.6g", p.name.c_str(), xs::text(m).c_str(), Ei, Ef, rho);
    auto d = std::shared_ptr<Displacement>(make_displacement(list, false));
    auto dedx = [&](double E) { return list[0]->CalculatedEdx(E); };
    auto mom = [&](double E) { return std::sqrt((E - p.mass) * (E + p.mass)); };
    double T = make_time(d, p, false)->TimeElapsed(Ei, Ef, 1, rho);
    c.close(T, quad_log([&](double E) { return E / (mom(E) * C * dedx(E) * rho); }, Ef, Ei, 1e-7), 2e-3, 1e-300, "time");
    double V = make_contrand(d, list, false)->Variance(Ei, Ef);
    c.close(V, quad_log([&](double E) { return list[0]->CalculatedE2dx(E) / dedx(E); }, Ef, Ei, 1e-7), 2e-3, 1e-300, "variance");
    if (p.lifetime > 0) {
        auto D = make_decay(d, p, false);
        double f = c.u(0.01, 1), r = std::exp(-quad_log([&](double E) { return p.mass / (mom(E) * C * dedx(E)); }, Ef + (Ei - Ef) * (1 - f), Ei, 1e-7) / (rho * p.lifetime));
        if (r > 1e-300 && r < 1 - 1e-6)
            c.close(D->EnergyDecay(Ei, r, rho), Ef + (Ei - Ef) * (1 - f), 1e-2, 0, "decay energy");
    }
    c.nontrivial();
}
