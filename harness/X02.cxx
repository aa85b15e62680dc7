// X02: interaction rates and sampled losses follow the differential cross section
#include "xs.h"
using namespace xs;
const char* pbt::property_id = "X02";


struct Lim {
    double lo, hi;
};
// the range of stochastic losses, from the definition of the cut
static Lim stochastic(Xs const& x, Cut const& cut, size_t t, double E)
{
    auto l = x.limits(t, E);
    if (!cut)
        return { l.v_min, l.v_max };
    double v = std::min(cut->GetEcut() / E, cut->GetVcut());
    return { std::min(std::max(v, l.v_min), l.v_max), l.v_max };
}
static bool slow(Spec const& s) { return s.family == "epair" || s.family == "mupair" || (s.family == "photonuclear" && !s.real_photon()); }
static double reference(Xs const& x, size_t t, double E, double a, double b)
{
    auto f = [&](double v) { return x.dsigma(t, E, v); };
    if (!(a < b))
        return 0;
    double tol = slow(x.spec) ? 1e-3 : 1e-4;
    int n = slow(x.spec) ? 12 : 60;
    // the end of the spectrum may be a steep edge
    if (a > 0 && b / a > 3) {
        double m = b - 0.3 * (b - a) * (b > 0.5 ? std::min(1., 2 * (1 - b) + 1e-3) : 1);
        m = std::max(m, a * 2);
        if (m < b)
            return quad_log(f, a, m, tol, 0, n) + quad(f, m, b, tol, 0, n);
    }
    return a > 0 ? quad_log(f, a, b, tol, 0, n) : quad(f, a, b, tol, 0, n);
}
static double tolerance(Spec const& s) { return slow(s) ? 4e-2 : s.family == "photomupair" ? 3e-2 : 1.5e-2; }
static Spec gen(Ctx& c, ParticleDef const& p)
{
    auto s = gen_spec(c, p);
    c.require(!s.direct());
    // every value of these is an integral: not so often
    if (s.family == "epair")
        s.lpm = s.lpm && c.flag(1, 8);
    // cut off where the formula gets negative: nearly empty spectra with a kink
    c.require(!((s.family == "brems" || s.family == "photonuclear") && p.mass > 5e3));
    s.hard = false; // partly negative at very high energies, see X01
    if (slow(s))
        c.require(c.flag(1, 4) && std::abs(p.particle_type) < 3000000);
    return s;
}

LAW(rates, 24000, 25, "the rate is positive")
{
    auto p = gen_particle(c);
    auto m = gen_medium(c);
    auto s = gen(c, p);
    double thr = make(s, p, m, nullptr).threshold();
    double E = gen_energy(c, thr);
    auto cut = s.only_stochastic() ? nullptr : gen_cut(c, E, 1e-2, true, false);
    auto x = make(s, p, m, cut);
    c.note("%s %s q=%g in %s %s E=%.17g", s.text().c_str(), p.name.c_str(), p.charge, text(m).c_str(), text(cut).c_str(), E);
    auto k = x.build(cut, false);
    double sum = 0;
    size_t one = size_t(c.i(0, long(x.targets()) - 1));
    for (size_t t = 0; t < x.targets(); ++t) {
        auto l = stochastic(x, cut, t, E);
        double got = k->CalculatedNdx(E, x.hash(t));
        sum += got;
        if (t != one)
            continue;
        double ref = reference(x, t, E, l.lo, l.hi) / x.weight(t);
        if (l.hi - l.lo > 1e-5 * l.hi)
            // (the differential cross section of muon pairs has a step at low energies)
            c.close(got, ref, s.family == "photomupair" && E < 3e3 ? 5e-2 : 1.5e-2, 0, "%s: rate on target %zu and the integral of the differential cross section from %.17g to %.17g", s.text().c_str(), t, l.lo, l.hi);
    }
    double tot = k->CalculatedNdx(E);
    c.close(tot, sum, 1e-12, 0, "%s: rate and sum over the targets", s.text().c_str());
    c.label(s.family);
    if (tot > 0)
        c.nontrivial();
}

LAW(losses, 24000, 25, "the rate is positive")
{
    auto p = gen_particle(c);
    auto m = gen_medium(c);
    auto s = gen(c, p);
    double thr = make(s, p, m, nullptr).threshold();
    double E = gen_energy(c, thr);
    // the inner integral has digital noise where the virtuality is bounded on both sides
    c.require(!(s.family == "photonuclear" && slow(s) && E < 5 * p.mass));
    auto cut = s.only_stochastic() ? nullptr : gen_cut(c, E, 1e-2, false, false);
    auto x = make(s, p, m, cut);
    size_t t = size_t(c.i(0, long(x.targets()) - 1));
    c.note("%s %s q=%g in %s %s target %zu E=%.17g", s.text().c_str(), p.name.c_str(), p.charge, text(m).c_str(), text(cut).c_str(), t, E);
    auto k = x.build(cut, false);
    double tot = k->CalculatedNdx(E, x.hash(t));
    if (!(tot > 0))
        return;
    auto l = stochastic(x, cut, t, E);
    double f1 = c.prob(), f2 = c.prob();
    if (f2 < f1)
        std::swap(f1, f2);
    c.note("fractions %.17g %.17g", f1, f2);
    c.label(s.family);
    c.nontrivial();
    double v1 = k->CalculateStochasticLoss(x.hash(t), E, f1 * tot);
    double v2 = k->CalculateStochasticLoss(x.hash(t), E, f2 * tot);
    if (s.only_stochastic()) { // the initial particle disappears
        c.check(v1 == 1 && v2 == 1, "%s with losses %.17g and %.17g", s.text().c_str(), v1, v2);
        v1 = v2 = 0;
    } else
    for (int i = 0; i < 2; ++i) {
        double v = i ? v2 : v1, f = i ? f2 : f1;
        c.check(v >= l.lo * (1 - 1e-9) - 1e-13 && v <= l.hi * (1 + 1e-9), "%s: loss %.17g for the fraction %g of the rate is not in [%.17g, %.17g]", s.text().c_str(), v, f, l.lo, l.hi);
        if (l.hi - l.lo < 1e-5 * l.hi)
            continue; // the digits of the limits are not enough
        double q = k->CalculateCumulativeCrosssection(E, x.hash(t), v) / tot;
        c.close(q, f, 0, tolerance(s), "%s: fraction of the rate below the loss %.17g sampled for a fraction", s.text().c_str(), v);
        double ref = reference(x, t, E, l.lo, v) / x.weight(t) / tot;
        c.close(ref, f, 0, tolerance(s), "%s: fraction of the integrated cross section below the loss %.17g sampled for a fraction", s.text().c_str(), v);
    }
    // the cumulative function itself
    double va = l.lo + (l.hi - l.lo) * c.plain(1e-4, 0.9999);
    if (c.flag() && l.lo > 0)
        va = l.lo * std::pow(l.hi / l.lo, c.plain(1e-4, 0.9999));
    double q = k->CalculateCumulativeCrosssection(E, x.hash(t), va);
    double ref = reference(x, t, E, l.lo, va) / x.weight(t);
    if (l.hi - l.lo > 1e-5 * l.hi) {
        c.close(q / tot, ref / tot, 0, tolerance(s), "%s: cumulative cross section up to %.17g and its integral", s.text().c_str(), va);
        c.check(k->CalculateCumulativeCrosssection(E, x.hash(t), l.lo) == 0, "%s: cumulative cross section at the lower limit", s.text().c_str());
    }
    if (!slow(s) || f2 - f1 > tolerance(s)) // where the cumulative function has digital noise, nearby fractions have no order
        c.check(v1 <= v2 * (1 + (slow(s) ? 2e-3 : 1e-6)), "%s: loss %.17g at %g and %.17g at %g of the rate", s.text().c_str(), v1, f1, v2, f2);
}

LAW(nothing_below_the_cut, 8000, 100, "the continuous interaction exists above the threshold")
{
    auto p = gen_particle(c);
    auto m = gen_medium(c);
    auto s = gen_spec(c, p);
    s.lpm = false;
    c.require(!s.only_stochastic());
    double thr = make(s, p, m, nullptr).threshold();
    double E = gen_energy(c, thr);
    Cut cut = std::make_shared<EnergyCutSettings>(INF, 1., c.flag());
    bool over = c.flag(); // or a cut above every possible loss
    if (over)
        cut = std::make_shared<EnergyCutSettings>(E * (1 + c.logu(1e-6, 10)), 1., c.flag());
    auto x = make(s, p, m, cut);
    c.note("%s %s in %s %s E=%.17g", s.text().c_str(), p.name.c_str(), text(m).c_str(), text(cut).c_str(), E);
    auto k = x.build(cut, false);
    c.check(k->CalculatedNdx(E) == 0, "%s: rate %.17g although every loss is continuous", s.text().c_str(), k->CalculatedNdx(E));
    size_t t = size_t(c.i(0, long(x.targets()) - 1));
    if (!over)
        THROWS(c, k->CalculateStochasticLoss(x.hash(t), E, 0.), "stochastic loss without stochastic interaction");
    for (auto& q : k->CalculatedNdx_PerTarget(E))
        c.check(q.second == 0, "%s: rate on a target although every loss is continuous", s.text().c_str());
    c.label(s.family);
    c.nontrivial();
}

// the cross sections without distribution of losses
LAW(direct_losses, 6000, 100, "the rate is positive")
{
    ParticleDef p = c.flag(3, 4) ? ParticleDef(GammaDef()) : ParticleDef(EPlusDef());
    auto m = gen_medium(c);
    std::vector<Spec> all;
    for (auto& s : specs_for(p))
        if (s.direct())
            all.push_back(s);
    auto s = all[size_t(c.i(0, long(all.size()) - 1))];
    auto x = make(s, p, m, nullptr);
    double E = gen_energy(c, x.threshold());
    c.note("%s in %s E=%.17g", s.text().c_str(), text(m).c_str(), E);
    auto k = x.build(nullptr, false);
    double sum = 0;
    for (size_t t = 0; t < x.targets(); ++t) {
        double r = k->CalculatedNdx(E, x.hash(t));
        c.close(r, x.pd->CalculatedNdx(E, x.hash(t), p, m, nullptr), 1e-12, 0, "%s: rate on target %zu", s.text().c_str(), t);
        sum += r;
        c.check(k->CalculateStochasticLoss(x.hash(t), E, r * c.unit()) == 1, "%s: not everything is lost", s.text().c_str());
    }
    c.close(k->CalculatedNdx(E), sum, 1e-12, 0, "%s: rate and sum over the targets", s.text().c_str());
    auto per = k->CalculatedNdx_PerTarget(E);
    c.check(per.size() == x.targets(), "%s: %zu rates for %zu targets", s.text().c_str(), per.size(), x.targets());
    for (auto& q : per)
        c.close(q.second, k->CalculatedNdx(E, q.first), 1e-12, 0, "%s: rates per target", s.text().c_str());
    c.check(k->CalculatedEdx(E) == 0 && k->CalculatedE2dx(E) == 0, "%s: continuous loss", s.text().c_str());
    c.label(s.family + "." + s.name);
    if (sum > 0)
        c.nontrivial();
}
