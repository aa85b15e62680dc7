// X03: continuous plus stochastic energy loss does not depend on the cut
#include "xs.h"
using namespace xs;
const char* pbt::property_id = "X03";

static bool slow(Spec const& s) { return s.family == "epair" || s.family == "mupair" || (s.family == "photonuclear" && !s.real_photon()); }
static double vcut(Cut const& cut, crosssection::KinematicLimits const& l, double E)
{
    double v = std::min(cut->GetEcut() / E, cut->GetVcut());
    return std::min(std::max(v, l.v_min), l.v_max);
}
// integral of v^k dsigma/dv over [a, b]
static double moment(Xs const& x, size_t t, double E, double a, double b, int k)
{
    auto f = [&](double v) { return std::pow(v, k) * x.dsigma(t, E, v); };
    if (!(a < b))
        return 0;
    double tol = slow(x.spec) ? 1e-3 : 1e-5;
    int n = slow(x.spec) ? 12 : 60;
    if (a <= 0) {
        double s = std::min(b, 1e-6) * 1e-3; // the part below is flat
        return f(s) * s / k + quad_log(f, s, b * 0.5, tol, 0, n) + quad(f, b * 0.5, b, tol, 0, n);
    }
    if (b / a > 3) {
        double m = b - 0.3 * (b - a) * (b > 0.5 ? std::min(1., 2 * (1 - b) + 1e-3) : 1);
        m = std::max(m, a * 2);
        if (m < b)
            return quad_log(f, a, m, tol, 0, n) + quad(f, m, b, tol, 0, n);
    }
    return quad_log(f, a, b, tol, 0, n);
}
static double all_targets(Xs const& x, double E, Cut const& lo, Cut const& hi, int k)
{
    double sum = 0;
    for (size_t t = 0; t < x.targets(); ++t) {
        auto l = x.limits(t, E);
        sum += moment(x, t, E, lo ? vcut(lo, l, E) : l.v_min, vcut(hi, l, E), k) / x.weight(t);
    }
    return sum * std::pow(E, k);
}
// the formula gets negative, and is cut off, below the upper limit
static bool cut_off(Xs const& x, double E, Cut const& cut)
{
    for (size_t t = 0; t < x.targets(); ++t) {
        auto l = x.limits(t, E);
        double v = vcut(cut, l, E);
        if (!(x.dsigma(t, E, l.v_min + 0.99 * (v - l.v_min)) > 0))
            return true;
    }
    return false;
}
static Spec gen(Ctx& c, ParticleDef const& p, bool slow_ones = true)
{
    for (int i = 0; i < 12; ++i) {
        auto s = gen_spec(c, p);
        s.hard = false;
        if (s.only_stochastic())
            continue;
        // spectra cut off where the formula gets negative
        if ((s.family == "brems" || s.family == "photonuclear") && p.mass > 5e3)
            continue;
        // negative values, see X01
        if (s.real_photon() && p.mass > 140)
            continue;
        if (s.family == "epair")
            s.lpm = false; // takes minutes
        if (slow(s) && !(slow_ones && c.flag(1, 4) && std::abs(p.particle_type) < 3000000))
            continue;
        return s;
    }
    c.discard();
}
static double gen_E(Ctx& c, Spec const& s, ParticleDef const& p, Medium const& m)
{
    double E = gen_energy(c, make(s, p, m, nullptr).threshold());
    c.require(!(s.family == "photonuclear" && slow(s) && E < 5 * p.mass));
    return E;
}

LAW(cut_independence, 4000, 25, "the loss rates between the two cuts differ")
{
    auto p = gen_particle(c);
    auto m = gen_medium(c);
    auto s = gen(c, p);
    double E = gen_E(c, s, p, m);
    Cut a = gen_cut(c, E, 1e-2, true, false), b = gen_cut(c, E, 1e-2, true, false);
    c.note("%s %s q=%g in %s %s and %s E=%.17g", s.text().c_str(), p.name.c_str(), p.charge, text(m).c_str(), text(a).c_str(), text(b).c_str(), E);
    double va = std::min(a->GetEcut() / E, a->GetVcut()), vb = std::min(b->GetEcut() / E, b->GetVcut());
    if (vb < va)
        std::swap(a, b), std::swap(va, vb);
    auto xa = make(s, p, m, a), xb = make(s, p, m, b);
    c.require(!cut_off(xb, E, b));
    c.require(!(s.family == "compton" && va < 1e-11)); // digits of 1 - v
    auto ka = xa.build(a, false), kb = xb.build(b, false);
    double la = ka->CalculatedEdx(E), lb = kb->CalculatedEdx(E);
    c.check(std::isfinite(la) && std::isfinite(lb) && la >= 0 && lb >= 0, "%s: loss rates %.17g %.17g", s.text().c_str(), la, lb);
    c.check(la <= lb * (1 + 1e-2), "%s: loss rate %.17g with the lower cut and %.17g with the higher", s.text().c_str(), la, lb);
    double tol = slow(s) ? 4e-2 : 1e-2;
    if (s.family == "ioniz") {
        // only differences: the continuous loss includes the excitation of atoms
        if (la > 0 && lb > 0 && va < vb)
            c.close(lb - la, all_targets(xa, E, a, b, 1), tol, 2e-4 * lb, "%s: difference of the continuous losses and energy lost between the two cuts", s.text().c_str());
    } else {
        bool empty = true; // intervals too narrow for the digits of their limits
        for (size_t t = 0; t < xa.targets(); ++t) {
            auto l = xa.limits(t, E);
            if (l.v_max > l.v_min * (1 + 1e-5))
                empty = false;
        }
        if (!empty) {
            double fa = all_targets(xa, E, nullptr, a, 1);
            c.close(la, fa, tol, 1e-4 * lb, "%s: continuous loss and energy lost below the lower cut %.17g", s.text().c_str(), va);
            c.close(lb, fa + all_targets(xa, E, a, b, 1), tol, 0, "%s: continuous loss and energy lost below the cut %.17g", s.text().c_str(), vb);
        }
    }
    c.label(s.family);
    if (lb > la)
        c.nontrivial();
}

LAW(square, 4000, 25, "the squared losses with the two cuts differ")
{
    auto p = gen_particle(c);
    auto m = gen_medium(c);
    auto s = gen(c, p);
    double E = gen_E(c, s, p, m);
    Cut a = gen_cut(c, E, 1e-2, true, false), b = gen_cut(c, E, 1e-2, true, false);
    a = std::make_shared<EnergyCutSettings>(a->GetEcut(), a->GetVcut(), true);
    b = std::make_shared<EnergyCutSettings>(b->GetEcut(), b->GetVcut(), true);
    c.note("%s %s q=%g in %s %s and %s E=%.17g", s.text().c_str(), p.name.c_str(), p.charge, text(m).c_str(), text(a).c_str(), text(b).c_str(), E);
    double va = std::min(a->GetEcut() / E, a->GetVcut()), vb = std::min(b->GetEcut() / E, b->GetVcut());
    if (vb < va)
        std::swap(a, b), std::swap(va, vb);
    auto xa = make(s, p, m, a), xb = make(s, p, m, b);
    c.require(!cut_off(xb, E, b));
    c.require(!(s.family == "compton" && va < 1e-11)); // digits of 1 - v
    auto ka = xa.build(a, false), kb = xb.build(b, false);
    double la = ka->CalculatedE2dx(E), lb = kb->CalculatedE2dx(E);
    c.check(std::isfinite(la) && std::isfinite(lb) && la >= 0 && lb >= 0, "%s: squared losses %.17g %.17g", s.text().c_str(), la, lb);
    c.check(la <= lb * (1 + 1e-2), "%s: squared loss %.17g with the lower cut and %.17g with the higher", s.text().c_str(), la, lb);
    bool empty = true;
    for (size_t t = 0; t < xa.targets(); ++t) {
        auto l = xa.limits(t, E);
        if (l.v_max > l.v_min * (1 + 1e-5))
            empty = false;
    }
    if (!empty) {
        double tol = slow(s) ? 4e-2 : 1e-2;
        double fa = all_targets(xa, E, nullptr, a, 2);
        c.close(la, fa, tol, 1e-4 * lb, "%s: squared loss and integral below the lower cut %.17g", s.text().c_str(), va);
        c.close(lb, fa + all_targets(xa, E, a, b, 2), tol, 0, "%s: squared loss and integral below the cut %.17g", s.text().c_str(), vb);
    }
    c.label(s.family);
    if (lb > la)
        c.nontrivial();
}

// the loss in a compound is that in its elements
LAW(additive, 3000, 50, "more than one target and a positive loss")
{
    auto p = gen_particle(c);
    auto m = gen_medium(c);
    auto s = gen(c, p);
    s.lpm = false;
    c.require(s.family != "ioniz");
    double E = gen_E(c, s, p, m);
    Cut cut = gen_cut(c, E, 1e-2, true, false);
    cut = std::make_shared<EnergyCutSettings>(cut->GetEcut(), cut->GetVcut(), true);
    c.note("%s %s q=%g in %s %s E=%.17g", s.text().c_str(), p.name.c_str(), p.charge, text(m).c_str(), text(cut).c_str(), E);
    auto k = make(s, p, m, cut).build(cut, false);
    double d1 = 0, d2 = 0, n = 0;
    double nucleons = 0;
    auto rnd = m.GetComponents();
    for (auto& q : rnd)
        nucleons += q.GetAtomInMolecule() * q.GetAtomicNum();
    for (auto& q : rnd) {
        double f = q.GetAtomInMolecule() * q.GetAtomicNum() / nucleons;
        Medium one(strf("only %s %.17g", q.GetName().c_str(), q.GetAtomicNum()), m.GetI(), m.GetC(), m.GetA(), m.GetM(), m.GetX0(), m.GetX1(), m.GetD0(), m.GetMassDensity() * 2, { Component(q.GetName(), q.GetNucCharge(), q.GetAtomicNum(), 1. + double(c.i(0, 3))) });
        auto j = make(s, p, one, cut).build(cut, false);
        d1 += f * j->CalculatedEdx(E);
        d2 += f * j->CalculatedE2dx(E);
        n += f * j->CalculatedNdx(E);
    }
    c.close(k->CalculatedEdx(E), d1, 1e-10, 0, "%s: loss and sum of the losses in the elements", s.text().c_str());
    c.close(k->CalculatedE2dx(E), d2, 1e-10, 0, "%s: squared loss and sum over the elements", s.text().c_str());
    c.close(k->CalculatedNdx(E), n, 1e-10, 0, "%s: rate and sum over the elements", s.text().c_str());
    c.label(s.family);
    if (rnd.size() > 1 && d1 > 0)
        c.nontrivial();
}

LAW(settings, 4000, 100, "the energy is above the threshold")
{
    auto p = gen_particle(c);
    auto m = gen_medium(c);
    auto s = c.flag(1, 3) ? gen_spec(c, p) : gen(c, p);
    s.lpm = false;
    if (slow(s))
        c.require(c.flag(1, 4) && std::abs(p.particle_type) < 3000000);
    double thr = make(s, p, m, nullptr).threshold();
    bool below = c.flag(1, 4) && thr > 0;
    double E = below ? (c.flag(1, 3) ? thr : std::max(p.mass, thr * c.plain(0.5, 1))) : gen_energy(c, thr);
    Cut cut = gen_cut(c, E, 1e-2, true, false);
    c.note("%s %s q=%g in %s %s E=%.17g", s.text().c_str(), p.name.c_str(), p.charge, text(m).c_str(), text(cut).c_str(), E);
    auto x = make(s, p, m, cut);
    // everything is stochastic without cut
    if (s.family != "brems" && s.family != "ioniz") {
        auto k = x.build(nullptr, false);
        c.check(k->CalculatedEdx(E) == 0 && k->CalculatedE2dx(E) == 0, "%s: continuous loss %g %g without cut", s.text().c_str(), k->CalculatedEdx(E), k->CalculatedE2dx(E));
    }
    if (s.only_stochastic())
        return;
    auto cont = std::make_shared<EnergyCutSettings>(cut->GetEcut(), cut->GetVcut(), true);
    auto fix = std::make_shared<EnergyCutSettings>(cut->GetEcut(), cut->GetVcut(), false);
    auto kc = x.build(cont, false), kf = x.build(fix, false);
    c.check(kf->CalculatedE2dx(E) == 0, "%s: randomization %g although it is switched off", s.text().c_str(), kf->CalculatedE2dx(E));
    c.check(kf->CalculatedEdx(E) == kc->CalculatedEdx(E), "%s: loss depends on the randomization", s.text().c_str());
    if (E <= thr && s.family != "compton") {
        c.check(kc->CalculatedEdx(E) == 0, "%s: loss %g below the threshold", s.text().c_str(), kc->CalculatedEdx(E));
        c.check(kc->CalculatedE2dx(E) == 0, "%s: squared loss %g below the threshold", s.text().c_str(), kc->CalculatedE2dx(E));
    }
    // the squared loss is at most the largest possible loss times the mean loss
    double d1 = kc->CalculatedEdx(E), d2 = kc->CalculatedE2dx(E), vm = 0;
    for (size_t t = 0; t < x.targets(); ++t)
        vm = std::max(vm, vcut(cont, x.limits(t, E), E));
    if (s.family != "ioniz" && !(s.family == "photonuclear" && (p.mass > (s.real_photon() ? 140 : 5e3) || (slow(s) && E < 5 * p.mass))))
        c.check(d2 <= d1 * vm * E * 1.02, "%s: squared loss %.17g, mean loss %.17g and largest loss %.17g", s.text().c_str(), d2, d1, vm * E);
    c.label(s.family);
    if (!below)
        c.nontrivial();
}
