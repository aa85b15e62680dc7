// U01: grammage and energy loss are inverse and additive
#include "fake.h"
#include "xs.h"
#include "PROPOSAL/propagation_utility/DisplacementBuilder.h"
#include "PROPOSAL/propagation_utility/PropagationUtilityIntegral.h"
const char* pbt::property_id = "U01";

// relative distance of energies that the integration takes as equal
static const double equal = 4e-9;
static double gen_E(Ctx& c, double lower)
{
    switch (c.i(0, 5)) {
    case 0: return lower;
    case 1: return lower * (1 + c.logu(equal, 1));
    default: {
        double E = c.logu(lower, 1e12);
        return E - lower > equal * lower ? E : lower;
    }
    }
}
// closed form of the grammage for dE/dx = a + b E
static double grammage(double a, double b, double Ei, double Ef)
{
    if (b == 0)
        return (Ei - Ef) / a;
    return std::log1p(b * (Ei - Ef) / (a + b * Ef)) / b;
}
static double remaining(double a, double b, double Ei, double X)
{
    if (b == 0)
        return Ei - a * X;
    return (a + b * Ei) / b * std::exp(-b * X) - a / b;
}
LAW(linear_loss, 24000, 1000, "the energies differ")
{
    double lower = c.logu(1e-3, 1e4);
    auto s = fake::gen_set(c, lower);
    lower = s->lower;
    double Ei = gen_E(c, lower), Ef = c.flag(1, 8) ? Ei : c.flag(1, 4) ? lower : c.flag(1, 4) ? std::max(lower, Ei * (1 - c.logu(1e-12, 1))) : c.u(lower, Ei);
    c.note("%s from %.17g to %.17g", s->text().c_str(), Ei, Ef);
    auto d = make_displacement(s->list, false);
    c.check(d->GetLowerLim() == lower, "lower limit %.17g instead of %.17g", d->GetLowerLim(), lower);
    double a = s->a(), b = s->b();
    double X = d->SolveTrackIntegral(Ei, Ef), want = grammage(a, b, Ei, Ef);
    double tiny = equal * Ei / s->dedx(Ei);
    c.close(X, want, 2e-4, tiny, "grammage");
    c.check(Ei == Ef ? X == 0 : Ei - Ef > equal * Ei ? X > 0 : X >= 0, "grammage %.17g", X);
    double E = c.logu(lower, 1e12);
    c.close(d->FunctionToIntegral(E) * s->dedx(E), -1, 1e-12, 0, "integrand times loss rate");
    if (Ei - Ef > equal * Ei)
        c.nontrivial();
    // additive
    double Em = c.u(Ef, Ei);
    double X1 = d->SolveTrackIntegral(Ei, Em), X2 = d->SolveTrackIntegral(Em, Ef);
    c.close(X1 + X2, X, 4e-4, 3 * tiny, "sum of two steps");
}
LAW(inverse, 24000, 1000, "the grammage is positive and within the range")
{
    double lower = c.logu(1e-3, 1e4);
    auto s = fake::gen_set(c, lower);
    lower = s->lower;
    double Ei = gen_E(c, lower), a = s->a(), b = s->b();
    auto d = make_displacement(s->list, false);
    double range = d->SolveTrackIntegral(Ei, lower), exact = grammage(a, b, Ei, lower);
    double f = c.flag(1, 8) ? 0 : c.flag(1, 4) ? c.logu(1e-9, 1) : c.flag(1, 4) ? 1 - c.logu(1e-3, 1) : c.u(0, 1);
    double X = range * f * (1 - 1e-3);
    c.note("%s from %.17g grammage %.17g of %.17g", s->text().c_str(), Ei, X, range);
    double E = d->UpperLimitTrackIntegral(Ei, X);
    // the position is searched to a fraction of the logarithm of the energy
    auto found = [](double e) { return 3e-5 * (1 + std::fabs(std::log(e))) * e; };
    double tol = 4e-4 * std::fabs(exact) * s->dedx(Ei) + 2 * found(Ei);
    c.check(E >= lower * (1 - 1e-9) && E <= Ei * (1 + 1e-9), "energy %.17g outside [%.17g, %.17g]", E, lower, Ei);
    double want = remaining(a, b, Ei, X);
    c.check(std::fabs(grammage(a, b, Ei, E) - X) <= 4e-4 * exact + found(E) / s->dedx(E), "the energy %.17g is left, %.17g expected", E, want);
    double again = d->SolveTrackIntegral(Ei, std::min(E, Ei));
    c.close(again, X, 4e-4, 4e-4 * exact + found(E) / s->dedx(E), "grammage of the energy left");
    // decreases with the grammage
    double Y = range * (1 - 1e-3) * c.u(0, 1);
    double EY = d->UpperLimitTrackIntegral(Ei, Y);
    if (Y > X)
        c.check(EY <= E + tol, "grammage %.17g leaves %.17g, %.17g leaves %.17g", X, E, Y, EY);
    if (X > 0 && Ei > lower)
        c.nontrivial();
}
LAW(beyond_range, 6000, 500, "always")
{
    double lower = c.logu(1e-3, 1e4);
    auto s = fake::gen_set(c, lower);
    lower = s->lower;
    double Ei = c.flag(1, 5) ? lower : gen_E(c, lower);
    auto d = make_displacement(s->list, false);
    double X = grammage(s->a(), s->b(), Ei, lower) * (1 + c.logu(1e-3, 1e6)) + 1e-12;
    c.note("%s from %.17g grammage %.17g", s->text().c_str(), Ei, X);
    bool thrown = false;
    double E = 0;
    try {
        E = d->UpperLimitTrackIntegral(Ei, X);
    } catch (std::logic_error&) {
        thrown = true;
    }
    c.check(thrown, "beyond the range, the energy left is %.17g", E);
    c.nontrivial();
}
LAW(thresholds, 8000, 500, "an interaction sets in between the energies")
{
    // interactions set in at different energies
    double lower = c.logu(1, 1e4);
    auto s = fake::gen_set(c, lower, true);
    lower = s->lower;
    bool first = false;
    for (auto& m : s->models)
        first |= m.from == 0;
    c.require(first);
    double Ei = c.logu(lower, lower * 1e5), Ef = c.u(lower, Ei);
    c.note("%s from %.17g to %.17g", s->text().c_str(), Ei, Ef);
    auto d = make_displacement(s->list, false);
    std::vector<double> at { Ef, Ei };
    for (auto& m : s->models)
        if (m.from > Ef && m.from < Ei)
            at.push_back(m.from);
    std::sort(at.begin(), at.end());
    double want = 0;
    for (size_t i = 0; i + 1 < at.size(); ++i) {
        double a = 0, b = 0;
        for (auto& m : s->models)
            if (m.from <= at[i])
                a += m.a, b += m.b;
        want += grammage(a, b, at[i + 1], at[i]);
    }
    c.close(d->SolveTrackIntegral(Ei, Ef), want, at.size() > 2 ? 0.2 : 2e-4, equal * Ei / s->dedx(Ei), "grammage");
    if (at.size() > 2)
        c.nontrivial();
}
LAW(real, 120, 6, "the grammage is positive")
{
    auto p = xs::gen_particle(c, false);
    auto m = xs::gen_medium(c);
    bool e = std::abs(p.particle_type) == 11;
    double Ei = xs::gen_energy(c, std::max(p.mass * 1.5, e ? 55. : 0.), 1e10);
    auto cut = c.flag() ? std::make_shared<EnergyCutSettings>(500., c.flag() ? 0.05 : 1., false) : std::make_shared<EnergyCutSettings>(INF, c.logu(1e-2, 1), false);
    std::vector<xs::Spec> specs;
    for (auto& q : xs::specs_for(p))
        if (q.family == "ioniz" || (q.family == "brems" && q.name == (e ? "ElectronScreening" : "KelnerKokoulinPetrukhin")))
            specs.push_back(q);
    fake::List list;
    std::string t;
    for (auto& q : specs) {
        auto x = xs::make(q, p, m, cut);
        list.push_back(xs::CrossPtr(x.build(cut, false)));
        t += q.text() + " ";
    }
    auto d = make_displacement(list, false);
    c.check(d->GetLowerLim() <= p.mass * (1 + 1e-6), "lower limit");
    double low = std::max(p.mass * 1.2, e ? 51. : 0.);
    double Ef = c.u(low, std::max(low, Ei));
    c.note("%s%s in %s %s from %.17g to %.17g", p.name.c_str(), t.c_str(), xs::text(m).c_str(), xs::text(cut).c_str(), Ei, Ef);
    if (Ef > Ei)
        c.discard();
    auto f = [&](double E) { double x = 0; for (auto& l : list) x += l->CalculatedEdx(E); return x > 0 ? 1 / x : 0.; };
    double want = quad_log(f, Ef, Ei, 1e-6, 0, 60);
    double X = d->SolveTrackIntegral(Ei, Ef);
    double rate = 0;
    for (auto& l : list)
        rate += l->CalculatedEdx(Ei);
    if (!(rate > 0))
        c.discard();
    c.close(X, want, 2e-3, equal * Ei / rate, "grammage");
    if (X > 0 && Ei - Ef > 1e-6 * Ei) {
        c.nontrivial();
        double E = d->UpperLimitTrackIntegral(Ei, X * (1 - 1e-4));
        if (std::fabs(E / Ef - 1) > 5e-3)
            c.close(d->SolveTrackIntegral(Ei, E), X, 1e-3, 0, "grammage to the energy left");
    }
}
LAW(empty, 40, 20, "always")
{
    fake::List none;
    THROWS(c, make_displacement(none, c.flag()), "no cross sections");
    c.nontrivial();
}
