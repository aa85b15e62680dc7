// S02: deflections in stochastic interactions
#include "fake.h"
#include "xs.h"
#include "PROPOSAL/propagation_utility/PropagationUtility.h"
#include "PROPOSAL/propagation_utility/DisplacementBuilder.h"
#include "PROPOSAL/propagation_utility/InteractionBuilder.h"
#include "PROPOSAL/propagation_utility/TimeBuilder.h"
#include "PROPOSAL/scattering/Scattering.h"
#include "PROPOSAL/scattering/ScatteringFactory.h"
#include "PROPOSAL/scattering/ScatteringMultiplier.h"
#include <nlohmann/json.hpp>
const char* pbt::property_id = "S02";
using Param = stochastic_deflection::Parametrization;
using Ptr = std::unique_ptr<Param>;

struct Model {
    const char* name;
    InteractionType type;
    size_t rnds;
    const char* family;
    const char* cross; // parametrization with the kinematics
    bool rising; // angle grows with the first random number
};
static const std::vector<Model> models = {
    { "BremsTsaiApproximation", InteractionType::Brems, 2, "brems", "KelnerKokoulinPetrukhin", true },
    { "BremsGinneken", InteractionType::Brems, 2, "brems", "KelnerKokoulinPetrukhin", true },
    { "EpairGinneken", InteractionType::Epair, 2, "epair", "KelnerKokoulinPetrukhin", true },
    { "PhotoGinneken", InteractionType::Photonuclear, 2, "photonuclear", "AbramowiczLevinLevyMaor97", true },
    { "PhotoBorogPetrukhin", InteractionType::Photonuclear, 2, "photonuclear", "AbramowiczLevinLevyMaor97", false },
    { "IonizNaive", InteractionType::Ioniz, 1, "ioniz", "BetheBlochRossi", false },
};
static std::string random_case(Ctx& c, std::string s)
{
    int k = (int)c.i(0, 2);
    for (auto& x : s)
        x = k == 0 ? x : k == 1 ? std::tolower(x) : std::toupper(x);
    return s;
}
struct Case {
    Model m;
    ParticleDef p;
    Medium med;
    Component comp;
    Ptr d;
    double Ei = 0, Ef = 0;
};
// an interaction that can happen
static Case gen_case(Ctx& c, int which)
{
    auto m = models[which < 0 ? c.i(0, models.size() - 1) : which];
    auto any = xs::gen_particle(c, false);
    ParticleDef p = any.mass < 1 ? ParticleDef(MuMinusDef()) : any;
    auto med = xs::gen_medium(c);
    xs::Spec s;
    s.family = m.family;
    s.name = m.cross;
    auto specs = xs::specs_for(p);
    auto it = std::find_if(specs.begin(), specs.end(), [&](xs::Spec const& q) { return q.family == m.family && q.name == m.cross; });
    if (it == specs.end())
        it = std::find_if(specs.begin(), specs.end(), [&](xs::Spec const& q) { return q.family == m.family; });
    if (it == specs.end())
        c.discard();
    auto x = xs::make(*it, p, med, std::make_shared<EnergyCutSettings>(1e-3, 1., false));
    double E = c.flag(1, 4) ? x.threshold() * (1 + c.logu(1e-3, 10)) : xs::gen_energy(c, x.threshold(), 1e13);
    size_t t = c.i(0, x.targets() - 1);
    auto l = x.limits(t, E);
    double lo = std::max(l.v_min, 1e-12);
    if (!(l.v_max > lo * (1 + 1e-6)))
        c.discard();
    double v = c.flag(1, 8) ? lo : c.flag(1, 8) ? l.v_max : c.flag() ? c.logu(lo, l.v_max) : c.flag(1, 4) ? l.v_max - c.logu(1e-9, 1) * (l.v_max - lo) : c.u(lo, l.v_max);
    v = std::min(std::max(v, lo), l.v_max);
    Case k { m, p, med, x.comp[x.pm ? c.i(0, x.comp.size() - 1) : t], make_stochastic_deflection(random_case(c, m.name), p, med), E, E * (1 - v) };
    // not reached by the kinematics of muons, and rounding otherwise
    if (!(k.Ef > p.mass * (1 + 1e-6)) || k.Ef - p.mass < 1e-12 * k.Ei)
        c.discard();
    if (m.type == InteractionType::Photonuclear && p.mass > 2000)
        c.discard();
    c.note("%s mass %.17g Z %g E %.17g to %.17g", m.name, p.mass, k.comp.GetNucCharge(), k.Ei, k.Ef);
    return k;
}
static double gen_rnd(Ctx& c)
{
    switch (c.i(0, 6)) {
    case 0: return c.logu(1e-12, 1e-2);
    case 1: return 1 - c.logu(1e-12, 1e-2);
    case 2: return 0;
    default: return c.plain(1e-3, 1 - 1e-3);
    }
}
static UnitSphericalVector angles(Ctx& c, Case const& k, double r, double phi)
{
    std::vector<double> rnd { r, phi };
    if (k.m.rnds == 1)
        rnd = { phi };
    c.note(" random numbers %.17g %.17g", r, phi);
    return k.d->CalculateStochasticDeflection(k.Ei, k.Ef, rnd, k.comp.GetHash());
}

LAW(range, 480000, 4000, "the particle is deflected")
{
    auto k = gen_case(c, -1);
    c.check(k.d->RequiredRandomNumbers() == k.m.rnds && k.d->GetInteractionType() == k.m.type, "number of random numbers or type");
    double r = gen_rnd(c), r2 = gen_rnd(c), phi = c.u(0, 1);
    auto a = angles(c, k, r, phi);
    c.check(std::isfinite(a.zenith) && a.zenith >= 0, "polar angle %.17g", a.zenith);
    c.close(a.azimuth, 2 * PI * phi, 1e-15, 0, "azimuth");
    auto b = angles(c, k, r2, c.plain(0, 1));
    c.check(std::isfinite(b.zenith) && b.zenith >= 0, "polar angle %.17g", b.zenith);
    double t = 1e-9 * std::max(a.zenith, b.zenith) + 1e-12;
    if (k.m.rnds == 1)
        c.check(a.zenith == b.zenith, "the polar angle depends on the azimuth");
    else if ((r > r2) == k.m.rising)
        c.check(a.zenith >= b.zenith - t, "%.17g gives %.17g, %.17g gives %.17g", r, a.zenith, r2, b.zenith);
    else
        c.check(a.zenith <= b.zenith + t, "%.17g gives %.17g, %.17g gives %.17g", r, a.zenith, r2, b.zenith);
    // a copy, and the model inside of a list, give the same
    auto copy = k.d->clone();
    auto rnd = k.m.rnds == 1 ? std::vector<double> { phi } : std::vector<double> { r, phi };
    auto q = copy->CalculateStochasticDeflection(k.Ei, k.Ef, rnd, k.comp.GetHash());
    c.check(q.zenith == a.zenith && q.azimuth == a.azimuth, "the copy gives (%.17g, %.17g) instead of (%.17g, %.17g)", q.zenith, q.azimuth, a.zenith, a.azimuth);
    if (a.zenith > 0)
        c.nontrivial();
    c.label(k.m.name);
}
LAW(tsai, 160000, 2000, "the particle is deflected")
{
    auto k = gen_case(c, 0);
    double r = gen_rnd(c);
    auto a = angles(c, k, r, 0.5);
    double loss = k.Ei - k.Ef, most = std::min(1., loss / k.Ef);
    c.check(a.zenith <= most * (1 + 1e-9), "polar angle %.17g larger than %.17g", a.zenith, most);
    // angle of the photon in units of m/E, distributed as r / (1 + r^2)^2
    double u = a.zenith * k.Ef / loss * k.Ei / k.p.mass, w = most * k.Ef / loss * k.Ei / k.p.mass;
    double cdf = (1 - 1 / (1 + u * u)) / (1 - 1 / (1 + w * w));
    if (u * u > 1e-6)
        c.close(cdf, r, 1e-6, 1e-9, "cumulative probability of the angle %.17g", a.zenith);
    if (a.zenith > 0)
        c.nontrivial();
}
// root mean square angles of Van Ginneken, energies in GeV
static double rms_brems(double E, double nu, double Z)
{
    if (nu <= 0.5) {
        double a = 0.092 / std::cbrt(E) * std::sqrt(nu), b = 0.052 / (E * std::sqrt(std::sqrt(Z))), d = 0.22 * std::pow(E, -0.92) * nu;
        return std::max(std::min(a, b), d);
    }
    double k4 = 0.26 * std::pow(E, -0.91), n = 0.81 * std::sqrt(E) / (std::sqrt(E) + 1.8);
    double th = k4 * std::pow(nu, 1 + n) * std::pow(1 - nu, -n);
    if (th < 0.2)
        return th;
    // continued with an inverse root where 0.2 is reached
    double a = 0.5, b = 1;
    auto f = [&](double x) { return k4 * std::pow(x, 1 + n) * std::pow(1 - x, -n) - 0.2; };
    double g = 0.5;
    if (f(0.5) < 0) {
        for (int i = 0; i < 100; ++i) {
            double m = (a + b) / 2;
            (f(m) < 0 ? a : b) = m;
        }
        g = a;
    }
    double k5 = k4 * std::pow(g, 1 + n) * std::pow(1 - g, 0.5 - n);
    return k5 / std::sqrt(1 - nu);
}
static double rms_epair(double E, double nu)
{
    double m = std::min(8.9e-4 * std::sqrt(std::sqrt(nu)) * (1 + 1.5e-5 * E) + 0.032 * nu / (nu + 1), 0.1);
    double q = (nu - 2 * 0.5109989461e-3 / E) / nu;
    return (2.3 + std::log(E)) / (E * (1 - nu)) * q * q * m;
}
static double rms_photo(double E, double nu) { return 0.39 / (E * (1 - nu)) * std::pow(std::sqrt(E) * nu * (1 - nu), 0.17) * (1 - 0.135 / (E * nu)); }
LAW(ginneken, 320000, 3000, "the particle is deflected")
{
    auto k = gen_case(c, (int)c.i(1, 3));
    double E = k.Ei / 1e3, nu = (k.Ei - k.Ef) / (k.Ei - k.p.mass);
    double r = gen_rnd(c);
    double rms = k.m.type == InteractionType::Brems ? rms_brems(E, nu, k.comp.GetNucCharge()) : k.m.type == InteractionType::Epair ? rms_epair(E, nu) : rms_photo(E, nu);
    auto a = angles(c, k, r, 0.25);
    // the square of the angle is distributed exponentially
    double want = std::fabs(rms) * std::sqrt(-std::log1p(-r));
    // cancellation in the energies and at the smallest losses
    double rtol = 1e-6 + 4e-15 / nu + 4e-15 / (1 - nu) + (k.m.type == InteractionType::Brems ? 1e-3 * (nu > 0.5) : 0);
    double edge = k.m.type == InteractionType::Epair ? 1 - 2 * ME / k.Ei / nu : k.m.type == InteractionType::Photonuclear ? 1 - 0.135 / (E * nu) : 1;
    if (std::fabs(edge) < 1e-6 || std::fabs(nu - 0.5) < 1e-12)
        c.discard();
    c.close(a.zenith, want, rtol + 1e-14 / std::fabs(edge), 0, "polar angle for the root mean square %.17g", rms);
    if (a.zenith > 0)
        c.nontrivial();
    c.label(k.m.name);
}
LAW(ionization, 320000, 4000, "the angle is larger than 1e-7")
{
    auto k = gen_case(c, 5);
    auto a = angles(c, k, 0, c.plain(0, 1));
    // momentum of the electron at rest before and the angle of the muon
    long double Ei = k.Ei, Ef = k.Ef, M = k.p.mass, m = ME, T = Ei - Ef;
    long double pi = sqrtl((Ei - M) * (Ei + M)), pf = sqrtl((Ef - M) * (Ef + M)), pe2 = T * (T + 2 * m);
    // pe^2 = pi^2 + pf^2 - 2 pi pf cos = (pi - pf)^2 + 4 pi pf sin^2(angle/2)
    long double dp = T * (Ei + Ef) / (pi + pf), s2 = (pe2 - dp * dp) / (4 * pi * pf);
    double want = s2 > 0 ? 2 * std::asin(std::sqrt(std::min(1., (double)s2))) : 0;
    c.check(std::isfinite(a.zenith) && a.zenith >= 0, "polar angle %.17g", a.zenith);
    // half angle squared from a cosine that is rounded
    double sq = std::pow(std::sin(a.zenith / 2), 2);
    double err = 1e-15 * (double)((Ei * Ef) / (pi * pf)) + 1e-12 * std::fabs((double)s2) + 1e-15 * (double)(pe2 / (pi * pf));
    c.check(std::fabs(sq - std::max(0., (double)s2)) <= err, "polar angle %.17g instead of %.17g", a.zenith, want);
    if (want > 1e-7)
        c.nontrivial();
}
LAW(borog, 240000, 3000, "the particle is deflected")
{
    auto k = gen_case(c, 4);
    double r = gen_rnd(c);
    auto a = angles(c, k, r, 0.75);
    double e = k.Ei - k.Ef, M2 = k.p.mass * k.p.mass;
    // squared momentum transfer distributed as 1 / (t (1 + t/t1)), from the largest to the smallest
    double tmin = M2 * e * e / (k.Ei * k.Ef), tmax = 2 * MP * e, t1 = std::min(e * e, 4e5);
    double sq = std::pow(std::sin(a.zenith / 2), 2), t = tmin + sq * (4 * (k.Ei * k.Ef - M2) - 2 * tmin);
    auto G = [&](double x) { return std::log(x / (x + t1)); };
    double want = (G(tmax) - G(t)) / (G(tmax) - G(tmin));
    double round = 1e-13 * (1 + k.Ei / k.Ef) ;
    if (a.zenith < PI * (1 - 1e-6)) // larger transfers than the angle allows
        c.close(want, r, 1e-7, 1e-8 + round, "cumulative probability of the angle %.17g", a.zenith);
    else
        c.check(want >= r - 1e-8 - round || t <= tmax, "angle of %.17g", a.zenith);
    if (a.zenith > 0)
        c.nontrivial();
}
// ---- lists and multipliers ---------------------------------------------------
static const std::map<std::string, InteractionType> type_names = { { "Brems", InteractionType::Brems }, { "Epair", InteractionType::Epair }, { "Ioniz", InteractionType::Ioniz }, { "Photonuclear", InteractionType::Photonuclear }, { "MuPair", InteractionType::MuPair }, { "WeakInt", InteractionType::WeakInt }, { "Decay", InteractionType::Decay } };
LAW(multiplier, 120000, 1500, "a scaled interaction was used")
{
    auto k = gen_case(c, -1);
    // a random choice of one model per interaction
    std::map<InteractionType, Model> used;
    std::vector<Ptr> list;
    nlohmann::json j = nlohmann::json::object();
    j["stochastic_deflection"] = nlohmann::json::array();
    for (auto& m : models)
        if (!used.count(m.type) && c.flag()) {
            if (m.type == k.m.type && m.name != std::string(k.m.name))
                continue;
            used.emplace(m.type, m);
            list.push_back(make_stochastic_deflection(m.name, k.p, k.med));
            j["stochastic_deflection"].push_back(random_case(c, m.name));
        }
    std::vector<std::pair<InteractionType, double>> factors;
    nlohmann::json f = nlohmann::json::object();
    std::map<InteractionType, double> fm;
    for (auto& t : type_names)
        if (c.flag(1, 3)) {
            double x = c.flag(1, 4) ? 0 : c.logu(1e-3, 1e3);
            if (fm.count(t.second))
                continue;
            fm[t.second] = x;
            factors.push_back({ t.second, x });
            f[random_case(c, t.first)] = x;
        }
    if (!f.empty())
        j["stochastic_deflection_multiplier"] = f;
    c.note(" %s", j.dump().c_str());
    std::unique_ptr<Scattering> s;
    int kind = (int)c.i(0, 2);
    if (kind == 0)
        s = make_scattering(j, k.p, k.med, fake::List(), false);
    else if (kind == 1)
        s = std::make_unique<ScatteringMultiplier>(nullptr, std::move(list), 1., factors);
    else {
        s = std::make_unique<ScatteringMultiplier>(nullptr, list, 2., factors); // copies the list
        list.clear();
    }
    double r = gen_rnd(c), phi = c.plain(0, 1);
    auto rnd = k.m.rnds == 1 ? std::vector<double> { phi } : std::vector<double> { r, phi };
    for (auto& t : type_names) {
        auto it = used.find(t.second);
        c.check(s->StochasticDeflectionRandomNumbers(t.second) == (it == used.end() ? 0 : it->second.rnds), "random numbers of %s", t.first.c_str());
        if (it == used.end()) {
            auto z = s->CalculateStochasticDeflection(t.second, k.Ei, k.Ef, std::vector<double>(), k.comp.GetHash());
            c.check(z.zenith == 0 && z.azimuth == 0, "deflection in %s without a model", t.first.c_str());
        }
    }
    if (used.count(k.m.type)) {
        auto plain = k.d->CalculateStochasticDeflection(k.Ei, k.Ef, rnd, k.comp.GetHash());
        double x = fm.count(k.m.type) ? fm[k.m.type] : 1;
        auto a = s->CalculateStochasticDeflection(k.m.type, k.Ei, k.Ef, rnd, k.comp.GetHash());
        c.close(a.zenith, x * plain.zenith, 1e-14, 0, "polar angle times %.17g", x);
        c.check(a.azimuth == plain.azimuth, "azimuth");
        if (x != 1 && plain.zenith > 0)
            c.nontrivial();
    }
}
LAW(names, 4800, 100, "always")
{
    auto p = xs::gen_particle(c, false);
    auto m = xs::gen_medium(c);
    auto bad = c.pick<std::string>({ "", "Brems", "tsai", "ionizNaive ", "defaultfoo", "default", "default brems", "BremsTsai", "naive" });
    THROWS(c, make_stochastic_deflection(bad, p, m), bad.c_str());
    nlohmann::json j;
    j["stochastic_deflection"] = { bad };
    THROWS(c, make_scattering(j, p, m, fake::List(), false), bad.c_str());
    j["stochastic_deflection"] = { "IonizNaive" };
    j["stochastic_deflection_multiplier"] = { { c.pick<std::string>({ "bremss", "ionisation", "default", "x" }), 2. } };
    THROWS(c, make_scattering(j, p, m, fake::List(), false), "unknown interaction");
    // defaults
    auto t = c.pick({ InteractionType::Brems, InteractionType::Epair, InteractionType::Ioniz, InteractionType::Photonuclear });
    auto d = make_default_stochastic_deflection(t, p, m);
    c.check(d && d->GetInteractionType() == t, "default model is for another interaction");
    std::string n;
    for (auto& q : type_names)
        if (q.second == t)
            n = q.first;
    nlohmann::json k;
    k["stochastic_deflection"] = { random_case(c, "default" + n) };
    auto s = make_scattering(k, p, m, fake::List(), false);
    c.check(s->StochasticDeflectionRandomNumbers(t) == d->RequiredRandomNumbers(), "default model from a configuration");
    for (auto o : { InteractionType::MuPair, InteractionType::WeakInt, InteractionType::Decay, InteractionType::Compton })
        THROWS(c, make_default_stochastic_deflection(o, p, m), "no default model");
    c.nontrivial();
}
LAW(direction, 120000, 1500, "the direction changes")
{
    auto k = gen_case(c, -1);
    PropagationUtility::Collection col;
    fake::Model fm;
    fm.a = 1;
    fm.b = 0;
    fm.lower = k.p.mass;
    fake::Set set;
    set.models = { fm };
    auto list = fake::List { std::make_shared<fake::Cross>(fm) };
    col.displacement_calc = std::shared_ptr<Displacement>(make_displacement(list, false));
    col.interaction_calc = std::shared_ptr<Interaction>(make_interaction(col.displacement_calc, list, false));
    col.time_calc = std::shared_ptr<Time>(make_time(col.displacement_calc, k.p, false));
    bool any = c.flag(7, 8);
    std::vector<Ptr> l;
    l.push_back(k.d->clone());
    if (any)
        col.scattering = std::make_shared<Scattering>(nullptr, std::move(l));
    PropagationUtility u(col);
    auto dir = gen_dir(c);
    double r = gen_rnd(c), phi = c.plain(0, 1);
    auto rnd = k.m.rnds == 1 ? std::vector<double> { phi } : std::vector<double> { r, phi };
    size_t n = 0;
    auto type = c.flag(1, 6) ? InteractionType::Decay : k.m.type;
    auto out = u.DirectionDeflect(type, k.Ei, k.Ef, dir, [&] { return n < rnd.size() ? rnd[n++] : (++n, 0.5); }, k.comp.GetHash());
    c.note(" direction %s", str(dir).c_str());
    c.check(n == (any && type == k.m.type ? k.m.rnds : 0), "%zu random numbers used", n);
    c.close(out.magnitude(), 1, 2e-8, 0, "length");
    if (n == 0) {
        c.check(out == dir, "the direction changes without a deflection");
        return;
    }
    auto a = k.d->CalculateStochasticDeflection(k.Ei, k.Ef, rnd, k.comp.GetHash());
    double tol = 4e-8;
    c.close(out * dir, std::cos(a.zenith), 0, tol, "cosine of the angle");
    double th = Spherical3D(dir).GetZenith(), ph = Spherical3D(dir).GetAzimuth();
    Cartesian3D ex(std::cos(th) * std::cos(ph), std::cos(th) * std::sin(ph), -std::sin(th)), ey(-std::sin(ph), std::cos(ph), 0);
    double s = std::fabs(std::sin(a.zenith));
    c.close(out * ex, s * std::cos(a.azimuth), 0, tol, "first transverse component");
    c.close(out * ey, s * std::sin(a.azimuth), 0, tol, "second transverse component");
    if (s > 1e-7)
        c.nontrivial();
}
