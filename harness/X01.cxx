// X01: kinematic limits and differential cross sections are physical
#include "xs.h"
using namespace xs;
const char* pbt::property_id = "X01";

static double gen_v(Ctx& c, double lo, double hi)
{
    switch (c.i(0, 6)) {
    case 0: return lo;
    case 1: return hi;
    case 2: return std::min(hi, lo + (hi - lo) * c.logu(1e-15, 1e-3));
    case 3: return std::max(lo, hi - (hi - lo) * c.logu(1e-15, 1e-3));
    case 4: return lo + (hi - lo) * c.unit();
    default: return lo > 0 ? std::min(hi, std::max(lo, lo * std::pow(hi / lo, c.unit()))) : hi * c.logu(1e-12, 1);
    }
}

LAW(limits_and_values, 360000, 500, "the kinematic interval is not empty and the value is positive")
{
    auto p = gen_particle(c);
    auto m = gen_medium(c);
    auto s = gen_spec(c, p);
    c.require(!s.direct());
    auto x = make(s, p, m, std::make_shared<EnergyCutSettings>(c.logu(1e-2, 1e4), 1, false));
    double E = gen_energy(c, x.threshold());
    c.require(E >= x.threshold());
    size_t t = size_t(c.i(0, long(x.targets()) - 1));
    c.note("%s %s q=%g m=%g in %s target %zu E=%.17g", s.text().c_str(), p.name.c_str(), p.charge, p.mass, text(m).c_str(), t, E);
    auto l = x.limits(t, E);
    c.note("limits %.17g %.17g", l.v_min, l.v_max);
    c.check(std::isfinite(l.v_min) && std::isfinite(l.v_max) && 0 <= l.v_min && l.v_min <= l.v_max && (l.v_max <= 1 || l.v_min == l.v_max),
        "%s: limits [%.17g, %.17g] for %s E=%.17g", s.text().c_str(), l.v_min, l.v_max, p.name.c_str(), E);
    if (l.v_min >= l.v_max)
        return;
    if (p.mass > 0 && s.family != "weak") // the scattered particle keeps its mass
        c.check(l.v_max <= (1 - p.mass / E) * (1 + 1e-12) + 1e-15, "%s: v_max %.17g leaves less than the mass of %s at E=%.17g", s.text().c_str(), l.v_max, p.name.c_str(), E);
    double v = gen_v(c, l.v_min, l.v_max);
    // Tsai's formula is a density in the electron momentum: the conversion to
    // the energy is singular at the ends, where the momentum is zero
    if (s.name == "Tsai")
        v = std::min(std::max(v, l.v_min * (1 + 1e-14)), l.v_max * (1 - 1e-14));
    c.require(v >= l.v_min && v <= l.v_max);
    c.note("v=%.17g", v);
    if (v == 0)
        return;
    double d = x.dsigma(t, E, v);
    c.label(s.family + "." + s.name);
    if (std::isfinite(d) && d < 0) {
        if (s.family == "photonuclear" && s.real_photon() && p.mass > MPI && std::pow(p.mass * v, 2) / (1 - v) > 0.3e6)
            c.finding("X01-real-photon-heavy", "real photon photonuclear formula is negative for particles heavier than the pion at t = (m v)^2 / (1 - v) > 0.3 GeV^2");
        if (s.hard && E > 1e5 && (v < 1e-6 || v * E < 400))
            c.finding("X01-hard-component", "the fitted hard photonuclear component makes the cross section negative next to the lower kinematic limit");
        if (s.name == "KochMotz" && E > 1.5 && E <= 5)
            c.finding("X01-koch-motz-low", "Koch-Motz pair production changes its sign inside the kinematic limits for photons of 1.5 to 5 MeV");
    }
    c.check(std::isfinite(d) && d >= 0, "%s: value %.17g at v=%.17g of [%.17g, %.17g], %s E=%.17g", s.text().c_str(), d, v, l.v_min, l.v_max, p.name.c_str(), E);
    if (d > 0)
        c.nontrivial();
}

// the direct parametrizations have rates only
LAW(direct_rates, 24000, 200, "the rate is positive")
{
    bool photon = c.flag(3, 4);
    ParticleDef p = photon ? ParticleDef(GammaDef()) : ParticleDef(EPlusDef());
    auto m = gen_medium(c);
    std::vector<Spec> all;
    for (auto& s : specs_for(p))
        if (s.direct())
            all.push_back(s);
    auto s = all[size_t(c.i(0, long(all.size()) - 1))];
    auto x = make(s, p, m, nullptr);
    double th = x.threshold();
    double E = c.flag(1, 6) ? th * c.unit() : gen_energy(c, th);
    size_t t = size_t(c.i(0, long(x.targets()) - 1));
    c.note("%s %s in %s target %zu E=%.17g threshold %.17g", s.text().c_str(), p.name.c_str(), text(m).c_str(), t, E, th);
    double r = x.pd->CalculatedNdx(E, x.hash(t), p, m, nullptr);
    c.check(std::isfinite(r) && r >= 0, "%s: rate %.17g at E=%.17g on target %zu", s.text().c_str(), r, E, t);
    if (E < th)
        c.check(r == 0, "%s: rate %.17g at E=%.17g below the threshold %.17g", s.text().c_str(), r, E, th);
    auto all_rates = x.pd->CalculatedNdx_PerTarget(E, p, m, nullptr);
    double sum = 0;
    for (auto& q : all_rates) {
        c.check(std::isfinite(q.second) && q.second >= 0, "%s: rate %.17g at E=%.17g", s.text().c_str(), q.second, E);
        sum += q.second;
        if (s.family != "annihilation" && q.first == x.hash(t))
            c.close(q.second, r, 1e-12, 0, "%s: rate per target and rate of the target", s.text().c_str());
    }
    c.close(x.pd->CalculatedNdx(E, p, m, nullptr), sum, 1e-12, 0, "%s: total rate and sum of the targets at E=%.17g", s.text().c_str(), E);
    // alone in a medium
    Component k("alone", x.comp[t].GetNucCharge(), x.comp[t].GetAtomicNum(), 1.);
    Medium one("Alone" + k.GetName() + strf("%g_%g", k.GetNucCharge(), k.GetAtomicNum()), m.GetI(), m.GetC(), m.GetA(), m.GetM(), m.GetX0(), m.GetX1(), m.GetD0(), m.GetMassDensity(), { k });
    double r1 = x.pd->CalculatedNdx(E, k.GetHash(), p, one, nullptr);
    c.close(r * x.weight(t), r1, 1e-12, 0, "%s: rate of Z=%g at E=%.17g depends on the medium it is part of", s.text().c_str(), k.GetNucCharge(), E);
    c.label(s.family + "." + s.name);
    if (r > 0)
        c.nontrivial();
}

LAW(target_alone, 36000, 200, "the value is positive")
{
    auto p = gen_particle(c);
    auto m = gen_medium(c);
    auto s = gen_spec(c, p);
    s.lpm = false; // depends on the density of scattering centres
    c.require(!s.direct() && s.family != "ioniz");
    auto x = make(s, p, m, nullptr);
    double E = gen_energy(c, x.threshold());
    c.require(E >= x.threshold());
    size_t t = size_t(c.i(0, long(x.targets()) - 1));
    auto l = x.limits(t, E);
    c.require(l.v_min < l.v_max);
    double v = l.v_min + (l.v_max - l.v_min) * c.u(0, 1);
    c.require(v > l.v_min && v < l.v_max);
    c.note("%s %s in %s target %zu E=%.17g v=%.17g", s.text().c_str(), p.name.c_str(), text(m).c_str(), t, E, v);
    Component k("other", x.comp[t].GetNucCharge(), x.comp[t].GetAtomicNum(), x.comp[t].GetAtomInMolecule() * c.logu(0.1, 30));
    auto l2 = x.pc->GetKinematicLimits(p, k, E);
    c.check(l2.v_min == l.v_min && l2.v_max == l.v_max, "%s: limits depend on the number of atoms in the molecule", s.text().c_str());
    double d = x.dsigma(t, E, v), e = x.pc->DifferentialCrossSection(p, k, E, v);
    c.close(d, e, 1e-12, 0, "%s: value for Z=%g A=%g depends on the number of atoms in the molecule (%g and %g)", s.text().c_str(), k.GetNucCharge(), k.GetAtomicNum(), x.comp[t].GetAtomInMolecule(), k.GetAtomInMolecule());
    c.label(s.family + "." + s.name);
    if (d > 0)
        c.nontrivial();
}

LAW(below_threshold, 18000, 100, "the energy is positive and the interaction is possible at higher energy")
{
    auto p = gen_particle(c);
    auto m = gen_medium(c);
    auto s = gen_spec(c, p);
    c.require(s.family != "weak" && s.family != "compton"); // nominal limits only
    auto cut = s.only_stochastic() ? nullptr : gen_cut(c, 1e4, 1e-2, true, false);
    auto x = make(s, p, m, cut);
    double th = x.threshold();
    double E = c.flag(1, 4) ? th : c.flag() ? th * c.unit() : th * (1 - c.logu(1e-12, 0.5));
    c.require(E > 0 && (E < th || !s.direct()));
    c.note("%s %s in %s %s E=%.17g threshold %.17g", s.text().c_str(), p.name.c_str(), text(m).c_str(), text(cut).c_str(), E, th);
    auto k = x.build(cut, false);
    c.close(k->GetLowerEnergyLim(), th, 1e-12, 0, "%s: lower energy limit", s.text().c_str());
    for (int what = 0; what < 3; ++what) {
        double r = what == 0 ? k->CalculatedNdx(E) : what == 1 ? k->CalculatedEdx(E) : k->CalculatedE2dx(E);
        c.check(r == 0, "%s: %s is %.17g at E=%.17g, the threshold is %.17g, %s", s.text().c_str(), what == 0 ? "dNdx" : what == 1 ? "dEdx" : "dE2dx", r, E, th, text(cut).c_str());
    }
    c.label(s.family);
    c.nontrivial();
}
LAW(hard_component, 120000, 2500, "the cross section next to the limit is positive")
{
    // the fit of the hard photonuclear component, next to where it sets in
    Spec s;
    s.family = "photonuclear", s.hard = true;
    s.name = c.pick<std::string>({ "Zeus", "BezrukovBugaev", "Kokoulin", "Rhode" });
    auto m = gen_medium(c);
    auto p = c.flag() ? ParticleDef(MuMinusDef()) : c.flag() ? ParticleDef(TauMinusDef()) : ParticleDef(MuPlusDef());
    auto x = make(s, p, m, nullptr);
    size_t t = c.i(0, x.comp.size() - 1);
    double E = c.logu(1e5, 1e14);
    auto l = x.limits(t, E);
    double v = std::max(l.v_min, 1e-7) * (1 + (c.flag() ? c.logu(1e-14, 1e-2) : c.logu(1e-3, 10)));
    if (!(v < l.v_max))
        c.discard();
    c.note("%s %s E=%.17g v=%.17g", s.text().c_str(), p.name.c_str(), E, v);
    double d = x.dsigma(t, E, v);
    if (std::isfinite(d) && d < 0 && (v < 1e-6 || v * E < 400))
        c.finding("X01-hard-component", "the fitted hard photonuclear component makes the cross section negative next to the lower kinematic limit");
    c.check(std::isfinite(d) && d >= 0, "%s: value %.17g at v=%.17g of [%.17g, %.17g], %s E=%.17g", s.text().c_str(), d, v, l.v_min, l.v_max, p.name.c_str(), E);
    if (d > 0)
        c.nontrivial();
}
