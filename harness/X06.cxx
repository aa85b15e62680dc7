// X06: interpolated quantities agree with the exact ones
#include "fake.h"
#include "xs.h"
#include "PROPOSAL/crosssection/CrossSectionDE2DX/AxisBuilderDE2DX.h"
#include "PROPOSAL/crosssection/CrossSectionDEDX/AxisBuilderDEDX.h"
#include "PROPOSAL/crosssection/CrossSectionDNDX/AxisBuilderDNDX.h"
#include "PROPOSAL/crosssection/CrossSectionDNDX/CrossSectionDNDXInterpolant.h"
#include "PROPOSAL/propagation_utility/ContRandBuilder.h"
#include "PROPOSAL/propagation_utility/DecayBuilder.h"
#include "PROPOSAL/propagation_utility/DisplacementBuilder.h"
#include "PROPOSAL/propagation_utility/InteractionBuilder.h"
#include "PROPOSAL/propagation_utility/PropagationUtilityInterpolant.h"
#include "PROPOSAL/propagation_utility/TimeBuilder.h"
const char* pbt::property_id = "X06";

// ---- where a table starts ------------------------------------------------
LAW(axis, 20000, 2000, "the function vanishes below a threshold inside the range")
{
    double low = c.logu(1e-3, 1e3), up = low * c.logu(1e2, 1e15);
    size_t nodes = c.i(3, 600);
    double step = std::pow(up / low, 1. / (nodes - 1));
    int kind = (int)c.i(0, 2);
    int where = (int)c.i(0, 4);
    double from = where == 0 ? 0 : where == 1 ? low : where == 2 ? up * 2 : c.logu(low, up / step);
    c.note("kind %d [%.17g, %.17g] %zu nodes, positive above %.17g", kind, low, up, nodes, from);
    auto f = [&](double E) { return E > from ? 1 + E : 0.; };
    double start = 0;
    bool thrown = false;
    try {
        if (kind == 0) {
            auto l = AxisBuilderDNDX::energy_limits { low, up, nodes };
            l = AxisBuilderDNDX::refine_definition_range(l, f);
            c.check(l.up == up && l.nodes == nodes, "upper limit or number of nodes changed");
            auto ax = AxisBuilderDNDX::Create(l);
            start = ax->GetLow();
            c.close(ax->GetHigh(), up, 1e-12, 0, "upper limit");
        } else if (kind == 1) {
            AxisBuilderDEDX b(low, up, nodes);
            b.refine_definition_range(f);
            auto ax = b.Create();
            start = ax->GetLow();
            c.close(ax->GetHigh(), up, 1e-12, 0, "upper limit");
        } else {
            AxisBuilderDE2DX b(low, up, nodes);
            b.refine_definition_range(f);
            auto ax = b.Create();
            start = ax->GetLow();
            c.close(ax->GetHigh(), up, 1e-12, 0, "upper limit");
        }
    } catch (std::exception&) {
        thrown = true;
    }
    if (where == 2) {
        c.check(thrown, "a table starting at %.17g without any positive value", start);
        return;
    }
    c.check(!thrown, "no table although there are positive values");
    double first = std::max(from, low);
    c.check(start >= low * (1 - 1e-12) && f(start) > 0 | start == low, "the table starts at %.17g, where the function is %.17g", start, f(start));
    c.check(start <= first * step * (1 + 1e-12), "the table starts at %.17g instead of %.17g (node spacing %.6g)", start, first, step);
    if (from > low)
        c.nontrivial();
}
// ---- loss axis -------------------------------------------------------------
LAW(loss_axis, 40000, 4000, "always")
{
    double vcut = c.flag(1, 4) ? c.logu(1e-12, 0.5) : c.u(1e-6, 0.99), vmax = c.flag(1, 4) ? 1 - c.logu(1e-9, 0.5) : c.u(vcut, 0.999999);
    if (!(vmax > vcut * (1 + 1e-9)) || vmax >= 1)
        c.discard();
    int kind = (int)c.i(0, 2);
    c.note("kind %d cut %.17g max %.17g", kind, vcut, vmax);
    auto to = [&](double x) { return kind == 2 ? transform_loss_log(vcut, vmax, x) : transform_relative_loss(vcut, vmax, x, kind ? 1.5 : 1); };
    auto back = [&](double v) { return kind == 2 ? retransform_loss_log(vcut, vmax, v) : retransform_relative_loss(vcut, vmax, v, kind ? 1.5 : 1); };
    // relative to the width, both in v and in 1 - v
    double width = vmax - vcut, eps = 4e-16 * (kind == 2 ? 1 : vmax) / width;
    c.close(to(0), vcut, 1e-14, 1e-14, "loss at the lower end");
    c.close(to(1), vmax, 1e-14, 1e-14, "loss at the upper end");
    c.check(std::fabs(back(vcut)) < 1e-9 + 1e3 * eps, "lower end %.17g", back(vcut));
    c.check(std::fabs(back(vmax) - 1) < 1e-9 + 1e3 * eps, "upper end %.17g", back(vmax));
    double x = c.u(0, 1), y = c.u(0, 1);
    double v = to(x), w = to(y);
    c.check(v >= vcut * (1 - 1e-12) - 1e-14 && v <= vmax * (1 + 1e-12) + 1e-14, "loss %.17g outside [%.17g, %.17g]", v, vcut, vmax);
    c.check(x < y ? v <= w * (1 + 1e-12) + 1e-14 : w <= v * (1 + 1e-12) + 1e-14, "not monotone");
    // back and forth, away from where the power of the axis is not smooth
    double again = to(back(v));
    c.close(again, v, 1e-9, kind == 2 ? 1e-12 : 0, "loss after back and forth");
    c.nontrivial();
}
// ---- propagation integrals ---------------------------------------------------
static ParticleDef probe(double mass, double lifetime)
{
    static int id = 3000000;
    return ParticleDef::Builder().SetName("probe").SetMass(mass).SetLow(mass).SetLifetime(lifetime).SetCharge(-1).SetParticleType(id++).build();
}
static double gen_E(Ctx& c, double lower, double top = 1e13)
{
    switch (c.i(0, 7)) {
    case 0: return lower;
    case 1: return lower * (1 + c.logu(1e-7, 1));
    default: return std::max(lower, c.logu(lower, top));
    }
}
LAW(utility, 160, 10, "the energies differ by more than the step that is taken linearly")
{
    double lower = c.logu(1e-1, 1e4), mass = lower / (1 + c.logu(0.3, 1e2)); // the tables do not resolve the time at rest
    auto s = fake::gen_set(c, lower);
    lower = s->lower;
    double tau = c.logu(1e-12, 1e-5);
    auto p = probe(mass, tau);
    auto exact = std::shared_ptr<Displacement>(make_displacement(s->list, false));
    auto table = std::shared_ptr<Displacement>(make_displacement(s->list, true));
    auto ti = make_time(exact, p, false), tt = make_time(exact, p, true);
    bool rated = false, cont = false;
    for (auto& m : s->models) {
        cont |= m.s > 0;
        for (auto& r : m.rate)
            rated |= r.first > 0;
    }
    auto ii = make_interaction(exact, s->list, false), it = make_interaction(exact, s->list, true);
    auto im = rated ? make_interaction(exact, s->list, false, true) : nullptr;
    auto di = make_decay(exact, p, false), dt = make_decay(exact, p, true);
    auto ci = make_contrand(exact, s->list, false), ct = make_contrand(exact, s->list, true);
    c.note("%s mass %.6g lifetime %.6g", s->text().c_str(), mass, tau);
    c.check(table->GetLowerLim() == exact->GetLowerLim(), "lower limit");
    for (int k = 0; k < 20; ++k) {
        double Ei = gen_E(c, lower), Ef = c.flag(1, 6) ? Ei : c.flag(1, 5) ? lower : c.flag(1, 3) ? std::max(lower, Ei * (1 - c.logu(1e-9, 1e-2))) : c.u(lower, Ei);
        Ef = std::min(Ef, Ei);
        c.note(" from %.17g to %.17g", Ei, Ef);
        // a difference of two table values, or the slope for nearby energies;
        // the integral from the end of the table limits the accuracy
        bool near = Ei - Ef < 1e-5 * Ei;
        auto same = [&](char const* what, double got, double want, double whole) {
            if (Ei - Ef < 0.9e-6 * Ei)
                c.close(got, want, 1e-3, 1e-9 * std::fabs(whole) + (Ei - Ef <= 4e-9 * Ei ? 1e300 : 0), "%s of nearby energies", what);
            else {
                // the integral is steep at the end of the table
                if (Ei < 2 * lower)
                    return;
                c.close(got, want, Ef < 3 * lower ? 0.1 : 1e-2, (Ef < 3 * lower ? 5e-2 : 3e-4) * std::fabs(whole), "%s", what);
            }
        };
        double X = exact->SolveTrackIntegral(Ei, Ef), all = exact->SolveTrackIntegral(Ei, lower);
        same("grammage", table->SolveTrackIntegral(Ei, Ef), X, all);
        c.check(Ei > Ef || table->SolveTrackIntegral(Ei, Ef) == 0, "grammage between equal energies");
        same("time", tt->TimeElapsed(Ei, Ef, 1, 1), ti->TimeElapsed(Ei, Ef, 1, 1), ti->TimeElapsed(Ei, lower, 1, 1));
        same("interaction integral", it->EnergyIntegral(Ei, Ef), ii->EnergyIntegral(Ei, Ef), ii->EnergyIntegral(Ei, lower));
        if (cont)
            same("variance", ct->Variance(Ei, Ef), ci->Variance(Ei, Ef), ci->Variance(Ei, lower));
        if (im && s->dndx(Ei) > 0)
            c.close(im->MeanFreePath(Ei), ii->MeanFreePath(Ei), 1e-4, 0, "mean free path");
        // inversions recover the argument
        double f = c.u(0, 1);
        double back = table->UpperLimitTrackIntegral(Ei, f * table->SolveTrackIntegral(Ei, lower));
        c.check(back >= lower * (1 - 1e-9) && back <= Ei * (1 + 1e-9), "energy %.17g outside [%.17g, %.17g]", back, lower, Ei);
        if (back < Ei * (1 - 1e-4) && back > lower && Ei > 2 * lower)
            c.close(table->SolveTrackIntegral(Ei, back), f * table->SolveTrackIntegral(Ei, lower), 1e-3, 1e-3 * all, "grammage of the energy left");
        double rnd = c.u(1e-9, 1);
        if (rnd < 1) {
            double a = it->EnergyInteraction(Ei, rnd), b = ii->EnergyInteraction(Ei, rnd);
            c.check(a >= lower * (1 - 1e-9) && a <= Ei * (1 + 1e-9), "interaction at %.17g outside [%.17g, %.17g]", a, lower, Ei);
            double total = ii->EnergyIntegral(Ei, lower), want = -std::log(rnd);
            bool end = Ei < 3 * lower; // the first nodes of the table
            if (want < total * 0.99 && !end)
                c.check(std::fabs(ii->EnergyIntegral(Ei, std::min(a, Ei)) - want) <= 2e-3 * total + 1e-3 * want + 1e-3 * s->dndx(Ei) / s->dedx(Ei) * Ei, "interaction at %.17g instead of %.17g", a, b);
            else if (want > total * 1.01 && !end)
                c.check(a == lower, "interaction at %.17g beyond the lower limit", a);
            a = dt->EnergyDecay(Ei, rnd, 1);
            c.check(a >= lower * (1 - 1e-9) && a <= Ei * (1 + 1e-9), "decay at %.17g outside [%.17g, %.17g]", a, lower, Ei);
            b = di->EnergyDecay(Ei, rnd, 1);
            auto D = [&](double hi, double lo) { return hi > lo ? quad_log([&](double E) { return -di->FunctionToIntegral(E); }, lo, hi, 1e-6) : 0.; };
            double td = D(Ei, lower), wd = want * tau;
            if (wd < td * 0.99 && !end)
                c.check(std::fabs(D(Ei, a) - wd) <= 2e-3 * td + 1e-2 * wd, "decay at %.17g instead of %.17g (%.6g of %.6g)", a, b, wd, td);
            else if (wd > td * 1.01 && !end)
                c.check(a == lower, "decay at %.17g beyond the lower limit", a);
            double u = table->GetLowerLim();
            double e = ct->EnergyRandomize(Ei, Ef, rnd, 0);
            c.check(e >= u && e <= Ei, "randomised energy %.17g", e);
        }
        if (!near)
            c.nontrivial();
    }
}
// ---- cross sections -----------------------------------------------------------
static bool quick_tables(xs::Spec const& s)
{
    if (s.lpm || s.direct() || s.family == "weak" || s.family == "epair" || s.family == "mupair" || s.family == "photomupair")
        return false;
    if (s.family == "photonuclear")
        return s.real_photon() && s.name != "Rhode" && !s.hard;
    if (s.family == "brems" && s.name == "KochMotz")
        return false; // negative at low energies, see X01
    return s.family == "brems" || s.family == "ioniz" || s.family == "compton" || s.family == "photopair";
}
LAW(cross, 24, 1, "a rate and a loss were compared")
{
    auto p = xs::gen_particle(c);
    if (std::abs(p.particle_type) >= 3000000 || p.mass > 2000)
        c.discard();
    auto m = xs::gen_medium(c);
    std::vector<xs::Spec> specs;
    for (auto& q : xs::specs_for(p))
        if (quick_tables(q))
            specs.push_back(q);
    // the cross section is negative for heavy particles, see X01
    if (p.mass > 1000)
        specs.erase(std::remove_if(specs.begin(), specs.end(), [](xs::Spec const& q) { return q.real_photon(); }), specs.end());
    if (specs.empty())
        c.discard();
    auto s = specs[c.i(0, specs.size() - 1)];
    auto cut = s.only_stochastic() ? nullptr : std::make_shared<EnergyCutSettings>(c.flag() ? INF : c.logu(1, 1e4), c.flag(1, 4) ? 1. : c.logu(1e-4, 1), true);
    if (cut && std::isinf(cut->GetEcut()) && cut->GetVcut() == 1)
        c.discard();
    auto x = xs::make(s, p, m, cut);
    auto a = xs::CrossPtr(x.build(cut, false));
    c.note("%s %s in %s %s", p.name.c_str(), s.text().c_str(), xs::text(m).c_str(), cut ? xs::text(cut).c_str() : "");
    auto b = xs::CrossPtr(x.build(cut, true));
    c.check(b->GetInteractionType() == a->GetInteractionType() && b->GetParametrizationName() == a->GetParametrizationName(), "type or name");
    double start = a->GetLowerEnergyLim(), tstart = b->GetLowerEnergyLim();
    c.check(tstart >= start * (1 - 1e-9), "the table starts at %.17g below the threshold %.17g", tstart, start);
    double nodes = std::log(1e14 / std::max(start, 1e-3)) / 99; // coarsest spacing
    bool some = false;
    for (int k = 0; k < 24; ++k) {
        double E = c.flag(1, 5) ? start * (1 + c.logu(1e-4, 10)) : c.logu(std::max(start, 1e-2), 1e13);

        if (s.name == "KochMotz" && E > 10 && E < 250)
            continue; // the correction of this model jumps at 50 MeV
        c.note(" E %.17g", E);
        // near the threshold the spline does not resolve the rise
        auto steep = [&](std::function<double(double)> f) {
            double v = f(E), lo = f(E * std::exp(-3 * nodes)), hi = f(E * std::exp(3 * nodes));
            return !(lo > 0.05 * v && lo < 20 * v && hi > 0.05 * v && hi < 20 * v);
        };
        double kink = cut ? cut->GetEcut() / cut->GetVcut() : INF;
        auto smooth = [&](char const* what, std::function<double(double)> f, double got, double rtol, double width) {
            if (std::fabs(std::log(E / kink)) < width || E < 10 * start) // from the absolute to the relative cut; rise at the threshold
                rtol *= 6;
            double want = f(E);
            c.check(got >= 0, "%s is negative: %.17g", what, got);
            c.check(want > 0 || got == 0 || f(E * std::exp(nodes)) > 0, "%s %.17g below its start", what, got);
            if (want > 0 && !steep(f)) {
                c.close(got, want, rtol, 0, "%s at %.17g", what, E);
                some = true;
            }
        };
        auto dedx = [&](double e) { return a->CalculatedEdx(e); };
        auto de2dx = [&](double e) { return a->CalculatedE2dx(e); };
        auto dndx = [&](double e) { return a->CalculatedNdx(e); };
        smooth("dEdx", dedx, b->CalculatedEdx(E), 5e-3, 0.5);
        smooth("dE2dx", de2dx, b->CalculatedE2dx(E), 1e-2, 1.2);
        smooth("dNdx", dndx, b->CalculatedNdx(E), 2e-2, 2.);
        double sum = 0;
        for (auto& t : b->CalculatedNdx_PerTarget(E)) {
            sum += t.second;
            c.close(b->CalculatedNdx(E, t.first), t.second, 1e-12, 0, "rate of a target");
        }
        c.close(sum, b->CalculatedNdx(E), 1e-9, 0, "sum of the rates");
        if (steep(dndx))
            continue;
        for (auto& t : b->CalculatedNdx_PerTarget(E)) {
            double exact = a->CalculatedNdx(E, t.first);
            if (!(exact > 0) || !(t.second > 0))
                continue;
            size_t n = 0;
            while (n + 1 < x.targets() && x.hash(n) != t.first)
                ++n;
            auto l = x.limits(n, E);
            double lo = cut ? cut->GetCut(l, E) : l.v_min;
            double u = c.u(1e-3, 1 - 1e-9);
            c.note(" rate %.17g of %.17g, exact %.17g, losses from %.17g to %.17g", u * t.second, t.second, exact, lo, l.v_max);
            double v = b->CalculateStochasticLoss(t.first, E, u * t.second);
            if (s.only_stochastic()) {
                c.check(v >= 0 && v <= 1, "loss %.17g", v);
                continue;
            }
            c.check(v >= lo * (1 - 1e-6) && v <= l.v_max * (1 + 1e-6), "sampled loss %.17g outside [%.17g, %.17g]", v, lo, l.v_max);
            // the sampled loss recovers the rate
            double back = b->CalculateCumulativeCrosssection(E, t.first, v), want = a->CalculateCumulativeCrosssection(E, t.first, v);
            c.close(back, u * t.second, 1e-3, 1e-3 * t.second, "cumulative rate at the sampled loss %.17g", v);
            c.close(back, want, 0, (E < 10 * start || std::fabs(std::log(E / kink)) < 2 ? 0.3 : 5e-2) * exact, "cumulative rate at %.17g", v);
        }
    }
    if (some)
        c.nontrivial();
    c.label(s.text());
}
