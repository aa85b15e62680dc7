// S03: secondaries of stochastic interactions
#include "xs.h"
#include <random>
#include "PROPOSAL/DefaultFactory.h"
#include "PROPOSAL/crosssection/parametrization/EpairProduction.h"
#include "PROPOSAL/crosssection/parametrization/MupairProduction.h"
#include "PROPOSAL/crosssection/parametrization/PhotoPairProduction.h"
#include "PROPOSAL/crosssection/parametrization/PhotoMuPairProduction.h"
#include "PROPOSAL/crosssection/parametrization/WeakInteraction.h"
#include "PROPOSAL/math/RandomGenerator.h"
#include "PROPOSAL/secondaries/SecondariesCalculator.h"
#include "PROPOSAL/secondaries/parametrization/annihilation/HeitlerAnnihilation.h"
#include "PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsEGS4Approximation.h"
#include "PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsKochMotz.h"
#include "PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsNoDeflection.h"
#include "PROPOSAL/secondaries/parametrization/compton/NaivCompton.h"
#include "PROPOSAL/secondaries/parametrization/epairproduction/KelnerKokoulinPetrukhinEpairProduction.h"
#include "PROPOSAL/secondaries/parametrization/ionization/NaivIonization.h"
#include "PROPOSAL/secondaries/parametrization/mupairproduction/KelnerKokoulinPetrukhinMupairProduction.h"
#include "PROPOSAL/secondaries/parametrization/photoeffect/PhotoeffectNoDeflection.h"
#include "PROPOSAL/secondaries/parametrization/photomupairproduction/PhotoMuPairProductionBurkhardtKelnerKokoulin.h"
#include "PROPOSAL/secondaries/parametrization/photonuclear/Photonuclear.h"
#include "PROPOSAL/secondaries/parametrization/photopairproduction/PhotoPairProductionKochMotz.h"
#include "PROPOSAL/secondaries/parametrization/photopairproduction/PhotoPairProductionTsai.h"
#include "PROPOSAL/secondaries/parametrization/photoproduction/Photoproduction.h"
#include "PROPOSAL/secondaries/parametrization/weakinteraction/WeakCooperSarkarMertsch.h"
const char* pbt::property_id = "S03";
using Ptr = std::unique_ptr<secondaries::Parametrization>;
using States = std::vector<ParticleState>;
static const int gamma_ = (int)ParticleType::Gamma, eminus = (int)ParticleType::EMinus, eplus = (int)ParticleType::EPlus, muminus = (int)ParticleType::MuMinus, muplus = (int)ParticleType::MuPlus, hadron = (int)ParticleType::Hadron;

static double mass_of(int type, ParticleDef const& p)
{
    return type == p.particle_type ? p.mass : type == eminus || type == eplus ? PROPOSAL::ME : type == muminus || type == muplus ? PROPOSAL::MMU : 0;
}
struct Case {
    std::string name;
    std::shared_ptr<xs::Xs> x;
    ParticleDef p;
    Medium med;
    Component comp;
    Ptr s;
    double E = 0, loss = 0;
    Cartesian3D pos, dir;
    double time = 0;
    StochasticLoss get() const { return StochasticLoss((int)s->GetInteractionType(), loss, pos, dir, time, 7., E, comp.GetHash()); }
};
struct Kind {
    const char* name;
    const char* family;
    const char* cross;
    int rnds;
    std::function<Ptr(ParticleDef const&, Medium const&)> make;
};
template <class T> static std::function<Ptr(ParticleDef const&, Medium const&)> maker()
{
    return [](ParticleDef const& p, Medium const& m) { return Ptr(new T(p, m)); };
}
static const std::vector<Kind> kinds = {
    { "EGS4", "brems", "", 1, maker<secondaries::BremsEGS4Approximation>() },
    { "KochMotz", "brems", "", 2, maker<secondaries::BremsKochMotz>() },
    { "NoDeflection", "brems", "", 0, maker<secondaries::BremsNoDeflection>() },
    { "EpairKKP", "epair", "KelnerKokoulinPetrukhin", 3, maker<secondaries::KelnerKokoulinPetrukhinEpairProduction>() },
    { "EpairElectron", "epair", "ForElectronPositron", 3, maker<secondaries::ForElectronPositronEpairProduction>() },
    { "Mupair", "mupair", "KelnerKokoulinPetrukhin", 3, maker<secondaries::KelnerKokoulinPetrukhinMupairProduction>() },
    { "Ionization", "ioniz", "", 1, maker<secondaries::NaivIonization>() },
    { "Photonuclear", "photonuclear", "", 0, maker<secondaries::Photonuclear>() },
    { "Annihilation", "annihilation", "Heitler", 2, maker<secondaries::HeitlerAnnihilation>() },
    { "Compton", "compton", "", 1, maker<secondaries::NaivCompton>() },
    { "Photoproduction", "photoproduction", "", 0, maker<secondaries::Photoproduction>() },
    { "Photoeffect", "photoeffect", "", 0, maker<secondaries::PhotoeffectNoDeflection>() },
};
static double gen_rnd(Ctx& c)
{
    switch (c.i(0, 7)) {
    case 0: return c.logu(1e-12, 1e-2);
    case 1: return 1 - c.logu(1e-12, 1e-2);
    case 2: return 0;
    default: return c.plain(1e-3, 1 - 1e-3);
    }
}
static double one_loss(Ctx& c, double lo, double hi)
{
    double v = c.flag(1, 8) ? lo : c.flag(1, 8) ? hi : c.flag() ? c.logu(std::max(lo, 1e-15), hi) : c.flag(1, 4) ? hi - c.logu(1e-9, 1) * (hi - lo) : c.u(lo, hi);
    return std::min(std::max(v, lo), hi);
}
static void gen_place(Ctx& c, Case& k)
{
    k.pos = gen_pos(c, 1e5);
    k.dir = gen_dir(c);
    k.time = c.flag(1, 4) ? 0 : c.logu(1e-12, 1);
}
static Case gen_case(Ctx& c, int which)
{
    auto& d = kinds[which < 0 ? c.i(0, kinds.size() - 1) : which];
    std::string f = d.family;
    bool photon = f == "compton" || f == "photoproduction" || f == "photoeffect";
    bool electron = f == "annihilation" || !strcmp(d.name, "KochMotz") || !strcmp(d.name, "EpairElectron");
    ParticleDef p = photon ? ParticleDef(GammaDef()) : f == "annihilation" ? ParticleDef(EPlusDef()) : electron ? (c.flag() ? ParticleDef(EMinusDef()) : ParticleDef(EPlusDef())) : xs::gen_particle(c, false);
    auto med = xs::gen_medium(c);
    std::vector<xs::Spec> specs;
    for (auto& q : xs::specs_for(p))
        if (q.family == f && (!*d.cross || q.name == d.cross || f == "annihilation"))
            specs.push_back(q);
    if (specs.empty())
        c.discard();
    auto s = specs[c.i(0, specs.size() - 1)];
    auto x = std::make_shared<xs::Xs>(xs::make(s, p, med, std::make_shared<EnergyCutSettings>(1e-3, 1., false)));
    double E = c.flag(1, 4) ? x->threshold() * (1 + c.logu(1e-3, 10)) : xs::gen_energy(c, x->threshold(), 1e13);
    size_t t = c.i(0, std::max<size_t>(x->targets(), 1) - 1);
    double v = 1;
    if (!s.direct()) {
        auto l = x->limits(t, E);
        if (!(l.v_max > l.v_min * (1 + 1e-6)))
            c.discard();
        v = one_loss(c, l.v_min, l.v_max);
    }
    if (s.direct() || x->pm)
        t = c.i(0, x->comp.size() - 1);
    Case k { d.name, x, p, med, x->comp[t], d.make(p, med), E, v * E };
    if (s.direct() && !(x->pd->CalculatedNdx(E, k.comp.GetHash(), p, med, nullptr) > 0))
        c.discard();
    gen_place(c, k);
    c.check((int)k.s->RequiredRandomNumbers() == d.rnds, "%s needs %zu random numbers", d.name, k.s->RequiredRandomNumbers());
    c.note("%s %s mass %.17g Z %g E %.17g loss %.17g", d.name, s.text().c_str(), p.mass, k.comp.GetNucCharge(), E, k.loss);
    return k;
}
static States run(Ctx& c, Case const& k, std::vector<double> rnd, bool quiet = false)
{
    if (!quiet)
        for (auto r : rnd)
            c.note(" %.17g", r);
    return k.s->CalculateSecondaries(k.get(), k.comp, rnd);
}
static bool same(States const& a, States const& b)
{
    if (a.size() != b.size())
        return false;
    for (size_t i = 0; i < a.size(); ++i)
        if (a[i].type != b[i].type || a[i].energy != b[i].energy || !(a[i].direction == b[i].direction))
            return false;
    return true;
}
// what holds for all processes
static void common(Ctx& c, Case const& k, States const& s, std::vector<int> types, double available)
{
    c.check(s.size() == types.size(), "%zu secondaries", s.size());
    double sum = 0, E = std::max(k.E, available);
    for (size_t i = 0; i < s.size(); ++i) {
        c.check(s[i].type == types[i], "secondary %zu has type %d instead of %d", i, s[i].type, types[i]);
        c.check(s[i].position == k.pos && s[i].time == k.time, "secondary %zu starts at %s, time %.17g", i, str(s[i].position).c_str(), s[i].time);
        c.close(s[i].direction.magnitude(), 1, 4e-8, 0, "length of direction %zu", i);
        double m = mass_of(types[i], k.p);
        c.check(std::isfinite(s[i].energy) && s[i].energy >= m * (1 - 1e-9) - 1e-14 * E, "secondary %zu of mass %.17g has the energy %.17g", i, m, s[i].energy);
        sum += s[i].energy;
    }
    c.close(sum, available, 1e-12, 0, "sum of the energies");
}
static std::vector<int> types_of(Case const& k)
{
    auto f = k.x->spec.family;
    int p = k.p.particle_type;
    if (f == "brems") return { p, gamma_ };
    if (f == "epair") return { p, eminus, eplus };
    if (f == "mupair") return { p, muminus, muplus };
    if (f == "ioniz") return { p, eminus };
    if (f == "photonuclear") return { p, hadron };
    if (f == "annihilation") return { gamma_, gamma_ };
    if (f == "compton") return { gamma_, eminus };
    if (f == "photoproduction") return { hadron };
    return { eminus };
}
static double available(Case const& k)
{
    auto f = k.x->spec.family;
    if (f == "ioniz" || f == "annihilation" || f == "compton")
        return k.E + PROPOSAL::ME;
    if (f == "photoeffect")
        return k.E + PROPOSAL::ME - std::pow(k.comp.GetNucCharge() * PROPOSAL::ALPHA, 2) * PROPOSAL::ME / 2;
    return k.E;
}
LAW(common, 32000, 2000, "an energy was shared")
{
    auto k = gen_case(c, -1);
    std::vector<double> rnd;
    for (size_t i = 0; i < k.s->RequiredRandomNumbers(); ++i)
        rnd.push_back(gen_rnd(c));
    auto s = run(c, k, rnd);
    common(c, k, s, types_of(k), available(k));
    // nothing else matters
    RandomGenerator::Get().SetSeed((int)c.i(0, 1000));
    for (auto& r : rnd)
        if (c.flag(1, 3)) {
            auto other = rnd;
            (&other[0])[&r - &rnd[0]] = gen_rnd(c);
            run(c, k, other, true);
        }
    c.check(same(s, run(c, k, rnd, true)), "the same random numbers give other secondaries");
    auto f = k.x->spec.family;
    if (f == "epair" || f == "mupair" || f == "photonuclear" || f == "photoproduction" || f == "photoeffect" || k.name == "NoDeflection")
        for (auto& q : s)
            c.check(q.direction == k.dir, "the direction changes");
    if (f != "annihilation" && f != "compton" && f != "photoeffect" && f != "photoproduction")
        c.close(s[0].energy, k.E - k.loss, 1e-15, 1e-15 * k.E, "energy of the particle");
    if (f == "compton")
        c.close(s[0].energy, k.E - k.loss, 0, 1e-15 * k.E, "energy of the photon");
    if (f == "brems")
        c.check(s[1].energy == k.loss, "energy of the photon");
    if (s.size() > 1 && s[0].energy > 0 && s[1].energy > 0)
        c.nontrivial();
    c.label(k.name);
}
static double transverse(Cartesian3D const& a, Cartesian3D const& d) { return vector_product(a, d).magnitude(); }
LAW(momentum, 80000, 4000, "an angle is larger than 1e-7")
{
    auto k = gen_case(c, c.pick({ 0, 1, 6, 8, 9 }));
    std::vector<double> rnd;
    for (size_t i = 0; i < k.s->RequiredRandomNumbers(); ++i)
        rnd.push_back(gen_rnd(c));
    c.note(" direction %s", str(k.dir).c_str());
    auto s = run(c, k, rnd);
    c.require(s.size() == 2);
    auto f = k.x->spec.family;
    auto mom = [&](int type, double E) { double m = mass_of(type, k.p); return std::sqrt(std::max(0., (E - m) * (E + m))); };
    double p = mom(k.p.particle_type, k.E), p0 = mom(s[0].type, s[0].energy), p1 = mom(s[1].type, s[1].energy);
    double phi = 2 * PI * rnd.back();
    double th = Spherical3D(k.dir).GetZenith(), ph = Spherical3D(k.dir).GetAzimuth();
    Cartesian3D ex(std::cos(th) * std::cos(ph), std::cos(th) * std::sin(ph), -std::sin(th)), ey(-std::sin(ph), std::cos(ph), 0);
    // the photon of bremsstrahlung, else the first, has this azimuth
    auto& lead = f == "brems" ? s[1] : s[0];
    double t = transverse(lead.direction, k.dir);
    auto off = lead.direction - k.dir * (lead.direction * k.dir);
    c.close(off * ex, t * std::cos(phi), 0, 1e-7 * t + 1e-15, "azimuth");
    c.close(off * ey, t * std::sin(phi), 0, 1e-7 * t + 1e-15, "azimuth");
    if (f == "brems") {
        auto rest = k.dir * p - s[1].direction * s[1].energy;
        if (rest.magnitude() > 1e-6 * p)
            c.check((rest * (1 / rest.magnitude()) - s[0].direction).magnitude() < 1e-7, "direction of the particle %s instead of along %s", str(s[0].direction).c_str(), str(rest).c_str());
        if (k.name == "EGS4") {
            double a = k.p.mass / k.E;
            c.close(t, std::fabs(std::sin(a)), 1e-6, std::min(2e-8, 4e-16 / a), "sine of the angle of the photon");
        }
    } else {
        // rounding of the momentum, and of a cosine
        auto noise = [&](double E, double q) { double cs = 2e-15 * (k.E + PROPOSAL::ME) * E / (p * (q + 1e-300)); return std::min(3e-8 * E, 1e-15 * E * E / (q + 1e-300)) + q * std::min(2., std::sqrt(2 * cs)); };
        auto sum = s[0].direction * p0 + s[1].direction * p1;
        c.check((sum - k.dir * p).magnitude() <= 2e-7 * (p0 + p1) + 1e-7 * p + noise(s[0].energy, p0) + noise(s[1].energy, p1), "momentum %s instead of %s", str(sum).c_str(), str(k.dir * p).c_str());
        // the angles themselves, with the precision a cosine allows
        double t0 = transverse(s[0].direction, k.dir) * p0, t1 = transverse(s[1].direction, k.dir) * p1;
        auto bend = [&](double E, double q, double t) { double cs = 2e-15 * (1 + (k.E + PROPOSAL::ME) * E / (p * (q + 1e-300))); return std::min(3e-8 * E, 1e-15 * E * E / (q + 1e-300)) * (q > 0 ? t / q : 1) + q * std::min(std::sqrt(2 * cs), cs * q / (t + 1e-300)); };
        double err = 1e-6 * (t0 + t1) + bend(s[0].energy, p0, t0) + bend(s[1].energy, p1, t1);
        c.close(t0, t1, 0, err, "transverse momenta");
    }
    if (t > 1e-7)
        c.nontrivial();
    c.label(k.name);
}
// ---- sharing of the energy -----------------------------------------------------
LAW(annihilation, 40000, 2000, "the photons have different energies")
{
    auto k = gen_case(c, 8);
    double r = gen_rnd(c), r2 = gen_rnd(c);
    auto s = run(c, k, { r, 0.5 });
    double g = k.E / k.p.mass, A = k.E + k.p.mass;
    double lo = 0.5 * 2 / (g + 1) / (1 + std::sqrt((g - 1) / (g + 1)));
    double rho = s[1].energy / A, rest = s[0].energy / A;
    c.check(rho >= lo * (1 - 1e-6) - 2e-16 && rest >= lo * (1 - 1e-6) - 4e-16, "shares %.17g, %.17g below %.17g", rho, rest, lo);
    // (1 + 2g/(g+1)^2) / rho - 1 / ((g+1) rho)^2 - 1
    auto F = [&](double x) { double q = 1 / ((g + 1) * (g + 1)); return (1 + 2 * g * q) * std::log(x / lo) + q / x - q / lo - x + lo; };
    double all = F(1 - lo);
    if (g > 1 + 1e-6) {
        c.close(F(rho) / all, r, 0, 1e-4 + 4e-5 / std::sqrt(g - 1) + 1e-12 / (g - 1), "cumulative probability of the share %.17g", rho);
        auto q = run(c, k, { r2, 0.5 });
        c.check(r < r2 ? s[1].energy <= q[1].energy : s[1].energy >= q[1].energy, "not monotonic");
    }
    if (std::fabs(rho - rest) > 1e-3)
        c.nontrivial();
}
template <class P> static void pair(Ctx& c, Case const& k, P const& param, double most, double r)
{
    double sign = c.flag() ? c.plain(0, 0.499999) : c.plain(0.5, 1);
    auto s = run(c, k, { r, sign, c.plain(0, 1) });
    double rho = (s[1].energy - s[2].energy) / k.loss, v = k.loss / k.E;
    c.check(std::fabs(rho) <= most * (1 + 1e-9) + 1e-15, "asymmetry %.17g larger than %.17g", rho, most);
    if (rho != 0)
        c.check(sign < 0.5 ? rho < 0 : rho > 0, "asymmetry %.17g", rho);
    // FunctionToIntegral is what the differential cross section integrates
    auto f = [&](double x) { return param.FunctionToIntegral(k.p, k.comp, k.E, v, x); };
    double all = quad(f, 0., most, 1e-5, 0, 200);
    if (!(all > 0) || most < 0.1 || k.E > 1e8) {
        return;
    }
    for (int i = 1; i < 20; ++i)
        if (!(f(most * i / 20.) > 0))
            return;
    // the search for the asymmetry stops at 1e-6 of the range
    auto F = [&](double x) { return quad(f, 0., std::min(most, std::max(0., x)), 1e-5, 1e-6 * all, 200) / all; };
    double lo = F(std::fabs(rho) - 2e-6 * most), hi = F(std::fabs(rho) + 2e-6 * most);
    c.check(lo <= r + 2e-2 && hi >= r - 2e-2, "cumulative probability of the asymmetry %.17g of at most %.17g is between %.17g and %.17g", rho, most, lo, hi);
    c.nontrivial();
}
LAW(epair, 3000, 100, "the cross section is positive")
{
    auto k = gen_case(c, (int)c.i(3, 4));
    double v = k.loss / k.E, m = k.p.mass;
    double most = std::sqrt(std::max(0., 1 - 4 * PROPOSAL::ME / (k.E * v))) * (1 - 6 * m * m / (k.E * k.E * (1 - v)));
    if (!(most > 0))
        c.discard();
    double r = gen_rnd(c);
    if (k.name == "EpairKKP")
        pair(c, k, crosssection::EpairKelnerKokoulinPetrukhin(false), most, r);
    else
        pair(c, k, crosssection::EpairForElectronPositron(false), most, r);
}
LAW(mupair, 3000, 100, "the cross section is positive")
{
    auto k = gen_case(c, 5);
    double most = 1 - 2 * PROPOSAL::MMU / k.loss;
    if (!(most > 0))
        c.discard();
    pair(c, k, crosssection::MupairKelnerKokoulinPetrukhin(), most, gen_rnd(c));
}

// ---- sharing from tables ---------------------------------------------------------
template <class Sec> static void table(Ctx& c, const char* name, xs::Spec spec, ParticleDef const& p, std::vector<int> types, int other, double low, double high)
{
    auto med = c.flag() ? Medium(StandardRock()) : c.flag() ? Medium(Hydrogen()) : Medium(Lead());
    auto x = std::make_shared<xs::Xs>(xs::make(spec, p, med, nullptr));
    Case k { name, x, p, med, x->comp[0], Ptr(new Sec(p, med)) };
    gen_place(c, k);
    c.note("%s in %s", name, med.GetName().c_str());
    int share = p.particle_type == gamma_ ? (types[0] == eminus ? 0 : 1) : 1; // which secondary has the sampled share
    size_t t = 0;
    double first = low;
    while (!(x->dsigma(t, first, 0.5) > 0))
        first *= 1.1;
    low = std::max(low, 1.5 * first * (first > low));
    for (int i = 0; i < 40; ++i) {
        double E = c.flag(1, 4) ? low * (1 + c.logu(1e-3, 3)) : c.logu(low * 1.001, high), r = gen_rnd(c), r2 = gen_rnd(c);
        k.E = k.loss = E;
        std::vector<double> rnd { r };
        for (size_t q = 1; q < k.s->RequiredRandomNumbers(); ++q)
            rnd.push_back(gen_rnd(c));
        c.note(" E %.17g random number %.17g", E, r);
        auto s = run(c, k, rnd, true);
        common(c, k, s, types, E);
        auto other_rnd = rnd;
        other_rnd[0] = r2;
        auto s2 = run(c, k, other_rnd, true);
        RandomGenerator::Get().SetSeed(i);
        c.check(same(s, run(c, k, rnd, true)), "the same random numbers give other secondaries");
        double v = s[share].energy / E, v2 = s2[share].energy / E;
        c.check(r < r2 ? v <= v2 + 1e-9 : v >= v2 - 1e-9, "random numbers %.17g and %.17g give the shares %.17g and %.17g", r, r2, v, v2);
        auto l = x->limits(t, E);
        c.check(v >= l.v_min * (1 - 1e-9) && v <= l.v_max * (1 + 1e-9) + 1e-15, "share %.17g not in [%.17g, %.17g]", v, l.v_min, l.v_max);
        auto f = [&](double y) { double s = x->dsigma(t, E, y); return std::isfinite(s) && y > l.v_min * (1 + 1e-6) && 1 - y > (1 - l.v_max) * (1 + 1e-6) ? s : 0.; }; // infinite at the ends
        if (E < 3 * low || (spec.name == "KochMotz" && E > 10 && E < 250))
            continue; // the spline does not resolve the rise
        double a = l.v_min, b = l.v_max;
        auto F = [&](double from, double to) { // both ends in logarithm
            if (!(to > from))
                return 0.;
            if (to <= 0.5)
                return quad_log(f, from, to, 1e-4, 0, 100);
            double head = from < 0.5 ? quad_log(f, from, 0.5, 1e-4, 0, 100) : 0, start = std::max(from, 0.5);
            return head + quad_log([&](double y) { return f(1 - y); }, std::max(1 - to, 1e-16), 1 - start, 1e-4, 0, 100);
        };
        double all = F(a, b), part = F(a, std::min(b, v));
        c.check(all > 0, "no cross section");
        c.close(part / all, r, 0, 3e-2, "cumulative probability of the share %.17g", v);
        c.nontrivial();
    }
    c.label(name);
}
static xs::Spec spec(const char* f, const char* n)
{
    xs::Spec s;
    s.family = f;
    s.name = n;
    return s;
}
LAW(pair_tables, 16, 1, "a share was compared with the cross section")
{
    GammaDef p;
    int k = (int)c.i(0, 9);
    if (k < 3)
        table<secondaries::PhotoPairProductionTsaiForwardPeaked>(c, "TsaiForwardPeaked", spec("photopair", "Tsai"), p, { eminus, eplus }, 1, 2 * PROPOSAL::ME, 1e12);
    else if (k < 6)
        table<secondaries::PhotoPairProductionTsaiSauter>(c, "TsaiSauter", spec("photopair", "Tsai"), p, { eminus, eplus }, 1, 2 * PROPOSAL::ME, 1e12);
    else
        table<secondaries::PhotoMuPairProductionBurkhardtKelnerKokoulin>(c, "PhotoMuPair", spec("photomupair", "BurkhardtKelnerKokoulin"), p, { muminus, muplus }, 1, 3 * PROPOSAL::MMU * std::exp(0.5), 1e12);
}
LAW(weak_tables, 6, 1, "a share was compared with the cross section")
{
    auto p = c.pick<ParticleDef>({ ParticleDef(EMinusDef()), ParticleDef(EPlusDef()), ParticleDef(MuMinusDef()), ParticleDef(MuPlusDef()), ParticleDef(TauMinusDef()), ParticleDef(TauPlusDef()) });
    table<secondaries::WeakCooperSarkarMertsch>(c, "Weak", spec("weak", "CooperSarkarMertsch"), p, { p.weak_partner, hadron }, 0, 2e4, 1e12);
}
// ---- directions -----------------------------------------------------------------
static void frame(Ctx& c, Cartesian3D const& dir, Cartesian3D const& out, double cosine, double sin2, double err, double phi, const char* what)
{
    c.close(out.magnitude(), 1, 4e-8, 0, "length of the direction of the %s", what);
    c.close(out * dir, cosine, 0, 4e-8, "cosine of the angle of the %s", what);
    double t = transverse(out, dir), tol = 1e-6 * sin2 + 1e-15 + 2 * err;
    c.close(t * t, sin2, 0, tol, "squared sine of the angle of the %s", what);
    double th = Spherical3D(dir).GetZenith(), ph = Spherical3D(dir).GetAzimuth();
    Cartesian3D ex(std::cos(th) * std::cos(ph), std::cos(th) * std::sin(ph), -std::sin(th)), ey(-std::sin(ph), std::cos(ph), 0);
    auto off = out - dir * (out * dir);
    c.close(off * ex, t * std::cos(phi), 0, 1e-7 * t + 1e-15, "azimuth of the %s", what);
    c.close(off * ey, t * std::sin(phi), 0, 1e-7 * t + 1e-15, "azimuth of the %s", what);
}
LAW(forward, 40000, 2000, "the angle is larger than 1e-7")
{
    bool muons = c.flag();
    auto dir = gen_dir(c);
    auto med = xs::gen_medium(c);
    auto comp = med.GetComponents()[0];
    double m = muons ? PROPOSAL::MMU : PROPOSAL::ME, E = 2 * m * (1 + c.logu(1e-9, 1e12)), r = gen_rnd(c);
    c.note("E %.17g mass %.17g random number %.17g direction %s", E, m, r, str(dir).c_str());
    std::tuple<Cartesian3D, Cartesian3D> d;
    if (muons)
        d = secondaries::PhotoMuPairProductionBurkhardtKelnerKokoulin().CalculateDirections(dir, E, comp, r);
    else if (c.flag())
        d = secondaries::PhotoPairProductionTsaiForwardPeaked().CalculateDirections(dir, E, c.plain(0.1, 0.9), comp, r, gen_rnd(c), gen_rnd(c));
    else
        d = secondaries::PhotoPairProductionKochMotzForwardPeaked().CalculateDirections(dir, E, c.plain(0.1, 0.9), comp, r, gen_rnd(c), gen_rnd(c));
    double a = m / E, s2 = std::sin(a) * std::sin(a);
    frame(c, dir, std::get<0>(d), std::cos(a), s2, 0, 2 * PI * r, "first");
    frame(c, dir, std::get<1>(d), std::cos(a), s2, 0, 2 * PI * r + PI, "second");
    if (a > 1e-7)
        c.nontrivial();
}
LAW(sauter, 40000, 2000, "an angle is larger than 1e-7")
{
    auto dir = gen_dir(c);
    auto med = xs::gen_medium(c);
    auto comp = med.GetComponents()[0];
    double m = PROPOSAL::ME, E = 2 * m * (1 + c.logu(1e-9, 1e12)), r = gen_rnd(c), r0 = gen_rnd(c), r1 = gen_rnd(c);
    double x = one_loss(c, m / E, 1 - m / E);
    c.note("E %.17g x %.17g random numbers %.17g %.17g %.17g direction %s", E, x, r, r0, r1, str(dir).c_str());
    auto d = c.flag() ? secondaries::PhotoPairProductionTsaiSauter().CalculateDirections(dir, E, x, comp, r, r0, r1) : secondaries::PhotoPairProductionKochMotzSauter().CalculateDirections(dir, E, x, comp, r, r0, r1);
    for (int i = 0; i < 2; ++i) {
        double e = E * (i ? 1 - x : x), q = i ? r1 : r0;
        // rounding of the energy close to the mass
        double p = std::sqrt(std::max(0., (e - m) * (e + m))), D = m * m / (e + p) * (2 - 2 * q) / (m * m / (e + p) + 2 * p * q);
        auto out = i ? std::get<1>(d) : std::get<0>(d);
        c.check(std::isfinite(out.GetX()) && std::isfinite(out.GetY()) && std::isfinite(out.GetZ()), "direction %s", str(out).c_str());
        if (e - m < 1e-6 * m + 1e-12 * E)
            continue;
        if (1 - D == -1) {
            continue; // reversed to the front
        }
        double round = 1e-15 * e / (p * (2 * q - 1) + e);
        if (D < 1.999999999 && round < 1e-9)
            frame(c, dir, out, 1 - D, std::max(0., D * (2 - D)), round * std::fabs(1 - D), 2 * PI * r + i * PI, i ? "positron" : "electron");
        if (D > 1e-14)
            c.nontrivial();
    }
}
// Tsai, Rev. Mod. Phys. 46 (1974) 815, (3.5) integrated over the form factors
static double tsai_angle(double k, double x, double th, double Z)
{
    double m = PROPOSAL::ME, l = std::pow(k * x * th / m, 2), tm = m * m * (1 + l) / (2 * k * x * (1 - x)), X;
    if (Z < 2.5) {
        double eta = Z < 1.5 ? 1 : 1.6875, B = 2 * PROPOSAL::ALPHA * m * eta / tm, B2 = B * B, d = m * m / (2 * k * x * (1 - x));
        X = Z * Z * (2 * std::log(m / d) - std::log1p(B2) + 1. / 6 - 4. / 3 / (1 + B2) + 1. / 6 / ((1 + B2) * (1 + B2)));
        X += Z * (2 * std::log(m / d) - std::log1p(B2) + 11. / 6 - 4 / B2 * std::log1p(B2) + 4. / 3 / (1 + B2) - 1. / 6 / ((1 + B2) * (1 + B2)));
    } else {
        double a = Z <= 3.5 ? 100 : Z <= 4.5 ? 106 : 111.7, b = Z <= 3.5 ? 418.6 : Z <= 4.5 ? 571.4 : 724.2;
        a *= std::pow(Z, -1. / 3) / m;
        b *= std::pow(Z, -2. / 3) / m;
        X = Z * Z * (std::log(std::pow(a * m * (1 + l), 2) / (1 + a * a * tm * tm)) - 1);
        X += Z * (std::log(std::pow(b * m * (1 + l), 2) / (1 + b * b * tm * tm)) - 1);
    }
    double z = std::pow(Z / 137, 2), f = z * (1.202 - 1.0369 * z + 1.008 * z * z / (1 + z)), y = x * (1 - x), L = 1 / ((1 + l) * (1 + l));
    return std::sin(th) * L * ((Z * Z + Z) * 2 * y * (1 - 6 * l * L) + (X - 2 * Z * Z * f) * (1 - 2 * y + 4 * l * y * L));
}
LAW(tsai_angles, 3000, 100, "an angle was compared with the cross section")
{
    auto dir = gen_dir(c);
    auto med = xs::gen_medium(c);
    auto comp = med.GetComponents()[0];
    double m = PROPOSAL::ME, Z = comp.GetNucCharge(), E = c.logu(30, 1e5), x = c.flag() ? c.plain(0.2, 0.8) : c.plain(0.1, 0.9);
    double r = c.plain(0, 1), r0 = c.plain(0.01, 0.95), r1 = c.plain(0.01, 0.95);
    c.note("E %.17g Z %g x %.17g random numbers %.17g %.17g %.17g", E, Z, x, r0, r1, r);
    secondaries::PhotoPairProductionTsai s;
    auto d = s.CalculateDirections(dir, E, x, comp, r0, r1, r);
    for (int i = 0; i < 2; ++i) {
        auto out = i ? std::get<1>(d) : std::get<0>(d);
        double t = transverse(out, dir), th = std::atan2(t, out * dir), y = i ? 1 - x : x, u = i ? r1 : r0;
        c.close(out.magnitude(), 1, 4e-8, 0, "length");
        auto f = [&](double q) { return tsai_angle(E, y, q, Z); };
        double scale = m / (E * y);
        bool positive = true;
        for (int n = 0; n < 60; ++n)
            positive = positive && f(scale * 1e-3 * std::pow(PI / (scale * 1e-3), n / 60.)) > 0;
        if (!positive)
            continue; // no distribution
        double low = quad_log(f, scale * 1e-4, std::max(th, scale * 1e-4), 1e-5, 0, 100), high = quad_log(f, std::max(th, scale * 1e-4), PI, 1e-5, 0, 100);
        c.close(low / (low + high), u, 0, 3e-2, "cumulative probability of the angle %.17g of the %s", th, i ? "positron" : "electron");
        c.nontrivial();
    }
}
LAW(kochmotz_angles, 120, 4, "always")
{
    auto p = c.flag() ? ParticleDef(EMinusDef()) : ParticleDef(EPlusDef());
    auto med = xs::gen_medium(c);
    auto comp = med.GetComponents()[0];
    double m = PROPOSAL::ME, E0 = m * (1 + c.logu(1e-2, 1e4)), k = (E0 - m) * c.plain(0.01, 0.95), Z = comp.GetNucCharge();
    c.note("Z %g E %.17g photon %.17g", Z, E0, k);
    secondaries::BremsKochMotz s(p, med);
    Cartesian3D dir(0, 0, 1);
    double e0 = E0 / m, r = (E0 - k) / E0, top = std::pow(PI * e0, 2);
    // y = (angle * gamma)^2; Bielajew et al., PIRS-0203
    auto g = [&](double y) {
        double q = std::pow((1 - r) / (2 * e0 * r), 2) + std::pow(std::cbrt(Z) / (111 * (1 + y)), 2);
        return 3 * (1 + r * r) - 2 * r - (4 + std::log(q)) * (1 + r * r - 4 * y * r / ((1 + y) * (1 + y)));
    };
    auto f = [&](double y) { return g(y) / ((1 + y) * (1 + y)); };
    double most = std::max(g(0), std::max(g(1), g(top)));
    for (int i = 0; i <= 40; ++i) // sampled with the largest of three values
        c.require(g(1e-4 * std::pow(top / 1e-4, i / 40.)) <= most * 1.0001);
    const int n = 3000;
    std::vector<double> y;
    std::mt19937_64 rg(c.i(1, 1000000));
    for (int i = 0; i < n; ++i) {
        std::vector<double> rnd { (double)(rg() >> 11) * 0x1p-53, 0.25 };
        auto d = s.CalculateDirections(dir, E0, k, comp, rnd);
        double th = std::atan2(transverse(d.second, dir), d.second * dir);
        y.push_back(std::pow(th * e0, 2));
    }
    std::sort(y.begin(), y.end());
    double sum = 0, at = 0, worst = 0;
    auto part = [&](double a, double b) { return quad([&](double u) { return f(u / (1 - u)) / ((1 - u) * (1 - u)); }, a / (1 + a), b / (1 + b), 1e-6, 0, 50); };
    double all = part(0, top);
    for (int i = 0; i < n; i += 20) {
        sum += part(at, std::min(top, y[i]));
        at = std::min(top, y[i]);
        worst = std::max(worst, std::fabs(sum / all - (i + 0.5) / n));
    }
    // Kolmogorov: 2 exp(-2 n d^2) < 1e-10
    c.check(worst < std::sqrt(23.7 / (2 * n)) + 1. / n, "distribution differs by %.4g from the cross section", worst);
    c.nontrivial();
}
// ---- list of calculators ----------------------------------------------------------
LAW(list, 6000, 300, "more than one calculator")
{
    static const std::vector<std::pair<InteractionType, std::pair<int, int>>> defaults = { { InteractionType::Brems, { 0, 1 } }, { InteractionType::Epair, { 3, 3 } }, { InteractionType::MuPair, { 5, 3 } }, { InteractionType::Ioniz, { 6, 1 } }, { InteractionType::Photonuclear, { 7, 0 } } };
    auto k = gen_case(c, c.pick({ 0, 3, 5, 6, 7 }));
    std::vector<InteractionType> types;
    for (auto& d : defaults)
        if (c.flag(2, 3))
            types.push_back(d.first);
    auto list = make_secondaries(types, k.p, k.med);
    auto type = k.s->GetInteractionType();
    bool has = std::find(types.begin(), types.end(), type) != types.end();
    std::vector<double> rnd;
    for (size_t i = 0; i < k.s->RequiredRandomNumbers(); ++i)
        rnd.push_back(gen_rnd(c));
    auto rnd2 = rnd;
    if (has) {
        c.check(list->RequiredRandomNumbers(type) == k.s->RequiredRandomNumbers(), "number of random numbers");
        c.check(same(list->CalculateSecondaries(k.get(), k.comp, rnd), run(c, k, rnd2)), "the list gives other secondaries");
    } else
        THROWS(c, list->CalculateSecondaries(k.get(), k.comp, rnd), "no calculator");
    // replaced by another one
    if (type == InteractionType::Brems) {
        list->addInteraction(Ptr(new secondaries::BremsNoDeflection(k.p, k.med)));
        c.check(list->RequiredRandomNumbers(type) == 0, "the calculator was not replaced");
        auto s = list->CalculateSecondaries(k.get(), k.comp, rnd);
        c.check(s.size() == 2 && s[1].direction == k.dir, "the calculator was not replaced");
    }
    auto bad = c.pick({ InteractionType::Decay, InteractionType::ContinuousEnergyLoss, InteractionType::Particle, InteractionType::Hadrons });
    std::vector<InteractionType> wrong { InteractionType::Ioniz, bad };
    THROWS(c, make_secondaries(wrong, k.p, k.med), "no default");
    if (types.size() > 1)
        c.nontrivial();
}
