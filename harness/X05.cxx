// X05: cross sections created from a description are the requested ones, are
// scaled by a multiplier and told apart by their identity
#include "xs.h"
#include "PROPOSAL/crosssection/CrossSectionMultiplier.h"
#include "PROPOSAL/crosssection/Factories/AnnihilationFactory.h"
#include "PROPOSAL/crosssection/Factories/BremsstrahlungFactory.h"
#include "PROPOSAL/crosssection/Factories/ComptonFactory.h"
#include "PROPOSAL/crosssection/Factories/EpairProductionFactory.h"
#include "PROPOSAL/crosssection/Factories/IonizationFactory.h"
#include "PROPOSAL/crosssection/Factories/MupairProductionFactory.h"
#include "PROPOSAL/crosssection/Factories/PhotoMuPairProductionFactory.h"
#include "PROPOSAL/crosssection/Factories/PhotoPairProductionFactory.h"
#include "PROPOSAL/crosssection/Factories/PhotoeffectFactory.h"
#include "PROPOSAL/crosssection/Factories/PhotonuclearFactory.h"
#include "PROPOSAL/crosssection/Factories/PhotoproductionFactory.h"
#include "PROPOSAL/crosssection/Factories/WeakInteractionFactory.h"
#include "PROPOSAL/crosssection/ParticleDefaultCrossSectionList.h"
#include <nlohmann/json.hpp>
using namespace xs;
using nlohmann::json;
const char* pbt::property_id = "X05";

static CrossPtr factory(Spec const& s, ParticleDef const& p, Medium const& m, Cut cut, json const& j)
{
    auto const& f = s.family;
    if (f == "brems") return make_bremsstrahlung(p, m, cut, false, j, s.density_correction);
    if (f == "epair") return make_epairproduction(p, m, cut, false, j, s.density_correction);
    if (f == "mupair") return make_mupairproduction(p, m, cut, false, j);
    if (f == "ioniz") return make_ionization(p, m, cut, false, j);
    if (f == "photonuclear") return s.real_photon() ? make_photonuclearreal(p, m, cut, false, j) : make_photonuclearQ2(p, m, cut, false, j);
    if (f == "weak") return make_weakinteraction(p, m, false, j);
    if (f == "annihilation") return make_annihilation(p, m, false, j);
    if (f == "compton") return make_compton(p, m, cut, false, j);
    if (f == "photopair") return make_photopairproduction(p, m, false, j, s.density_correction);
    if (f == "photomupair") return make_photomupairproduction(p, m, false, j);
    if (f == "photoproduction") return make_photoproduction(p, m, j);
    return make_photoeffect(p, m, j);
}
static std::string letters(Ctx& c, std::string s)
{
    int how = (int)c.i(0, 4);
    for (auto& x : s)
        if (how == 1 ? true : how == 2 ? false : how == 3 ? c.flag() : false)
            x = (char)toupper(x);
        else if (how == 2 || how == 3)
            x = (char)tolower(x);
    return s;
}
static const char* shadow_names[] = { "DuttaRenoSarcevicSeckel", "ButkevichMikheyev" };
static json describe(Ctx& c, Spec const& s)
{
    json j;
    j["parametrization"] = letters(c, s.name);
    bool has_lpm = s.family == "brems" || s.family == "epair" || s.family == "photopair";
    if (has_lpm && !(s.lpm && c.flag())) // on by default
        j["lpm"] = s.lpm;
    if (s.family == "photonuclear") {
        if (s.real_photon()) {
            if (!(s.hard && c.flag()))
                j["hard_component"] = s.hard;
        } else if (!(s.shadow && c.flag()))
            j["shadow"] = letters(c, shadow_names[s.shadow]);
    }
    return j;
}
static Cut cut_for(Ctx& c, Spec const& s, double E)
{
    if (s.only_stochastic())
        return nullptr;
    return gen_cut(c, E, 1e-2, true, false);
}
static bool same_value(double a, double b, double rtol = 1e-12) { return a == b || std::fabs(a - b) <= rtol * std::max(std::fabs(a), std::fabs(b)) || (std::isnan(a) && std::isnan(b)); }
// everything observable of b is the one of a, scaled
static bool compare(Ctx& c, Xs const& x, CrossSectionBase& a, CrossSectionBase& b, double scale, double E, char const* what)
{
    c.check(a.GetInteractionType() == b.GetInteractionType(), "%s: interaction type", what);
    c.check(a.GetParametrizationName() == b.GetParametrizationName(), "%s: parametrization name %s and %s", what, a.GetParametrizationName().c_str(), b.GetParametrizationName().c_str());
    c.check(same_value(a.GetLowerEnergyLim(), b.GetLowerEnergyLim()), "%s: lower limit %.17g and %.17g", what, a.GetLowerEnergyLim(), b.GetLowerEnergyLim());
    auto ca = a.GetEnergyCutSettings(), cb = b.GetEnergyCutSettings();
    c.check(!ca == !cb && (!ca || (ca->GetEcut() == cb->GetEcut() && ca->GetVcut() == cb->GetVcut() && ca->GetContRand() == cb->GetContRand())), "%s: energy cut", what);
    auto cmp = [&](char const* q, double u, double v) { c.check(same_value(u * scale, v), "%s: %s %.15g, expected %.15g", what, q, v, u * scale); };
    cmp("dEdx", a.CalculatedEdx(E), b.CalculatedEdx(E));
    cmp("dE2dx", a.CalculatedE2dx(E), b.CalculatedE2dx(E));
    if (E < a.GetLowerEnergyLim() * (1 + 1e-9))
        return false; // the interaction is not possible
    double rate = a.CalculatedNdx(E);
    cmp("dNdx", rate, b.CalculatedNdx(E));
    auto ra = a.CalculatedNdx_PerTarget(E), rb = b.CalculatedNdx_PerTarget(E);
    c.check(ra.size() == rb.size(), "%s: number of targets", what);
    for (auto& r : ra) {
        bool found = false;
        for (auto& q : rb)
            if (q.first == r.first) {
                found = true;
                cmp("dNdx of a target", r.second, q.second);
            }
        c.check(found, "%s: target missing", what);
        cmp("dNdx(target)", a.CalculatedNdx(E, r.first), b.CalculatedNdx(E, r.first));
        if (!x.spec.direct() && r.second > 0) {
            size_t t = 0;
            while (t + 1 < x.targets() && x.hash(t) != r.first)
                ++t;
            auto l = x.limits(t, E);
            double v = c.u(l.v_min, l.v_max);
            cmp("cumulative dNdx", a.CalculateCumulativeCrosssection(E, r.first, v), b.CalculateCumulativeCrosssection(E, r.first, v));
        }
        if (r.second > 0) {
            double u = c.plain(0.001, 0.999);
            double va = a.CalculateStochasticLoss(r.first, E, u * r.second), vb = b.CalculateStochasticLoss(r.first, E, u * r.second * scale);
            c.check(same_value(va, vb, 1e-5), "%s: sampled loss %.15g and %.15g", what, va, vb);
        }
    }
    return rate > 0 || a.CalculatedEdx(E) > 0;
}
static bool equal(std::string a, std::string b)
{
    for (auto& x : a)
        x = (char)tolower(x);
    for (auto& x : b)
        x = (char)tolower(x);
    return a == b;
}
static double gen_multiplier(Ctx& c)
{
    switch (c.i(0, 4)) {
    case 0: return 1;
    case 1: return 2;
    case 2: return c.logu(1e-6, 1);
    case 3: return c.logu(1, 1e6);
    default: return c.plain(0.5, 1.5);
    }
}

LAW(described, 1280, 40, "a cross section with a rate or loss was compared")
{
    auto p = gen_particle(c);
    auto m = gen_medium(c);
    auto s = gen_spec(c, p);
    double E = gen_energy(c, p.mass > 0 ? p.mass * 1.01 : 1, 1e12);
    if (s.family == "epair" && std::abs(p.particle_type) >= 3000000)
        c.discard(); // the integrals take minutes
    auto cut = cut_for(c, s, E);
    s.bound = true;
    auto x = make(s, p, m, cut);
    auto j = describe(c, s);
    double k = gen_multiplier(c);
    if (k != 1 || c.flag())
        j["multiplier"] = k;
    c.note("%s as %s in %s %s E %.17g", p.name.c_str(), j.dump().c_str(), text(m).c_str(), text(cut).c_str(), E);
    auto a = CrossPtr(x.build(cut, false)), b = factory(s, p, m, cut, j);
    if (s.only_stochastic())
        c.check(!b->GetEnergyCutSettings(), "a cut for an interaction without continuous losses");
    c.check((a->GetHash() == b->GetHash()) == (k == 1), "multiplier %g: identities %zx and %zx", k, a->GetHash(), b->GetHash());
    c.check((size_t)b->GetInteractionType() == x.type, "interaction type %zu instead of %zu", (size_t)b->GetInteractionType(), x.type);
    c.check(equal(b->GetParametrizationName(), s.name), "name %s instead of %s", b->GetParametrizationName().c_str(), s.name.c_str());
    if (compare(c, x, *a, *b, k, E, "factory"))
        c.nontrivial();
    c.label(s.family);
}
LAW(multiplier, 1280, 40, "a cross section with a rate or loss was compared")
{
    auto p = gen_particle(c);
    auto m = gen_medium(c);
    auto s = gen_spec(c, p);
    double E = gen_energy(c, p.mass > 0 ? p.mass * 1.01 : 1, 1e12);
    if (s.family == "epair" && std::abs(p.particle_type) >= 3000000)
        c.discard(); // the integrals take minutes
    auto cut = cut_for(c, s, E);
    auto x = make(s, p, m, cut);
    double k = gen_multiplier(c), q = gen_multiplier(c);
    c.note("%s %s in %s %s E %.17g times %.17g times %.17g", p.name.c_str(), s.text().c_str(), text(m).c_str(), text(cut).c_str(), E, k, q);
    auto a = CrossPtr(x.build(cut, false));
    auto b = CrossPtr(make_crosssection_multiplier(a, k)), d = CrossPtr(make_crosssection_multiplier(b, q));
    auto twin = CrossPtr(make_crosssection_multiplier(CrossPtr(x.build(cut, false)), k));
    c.check(twin->GetHash() == b->GetHash(), "the same multiplier gives another identity");
    if (k != q)
        c.check(make_crosssection_multiplier(a, q)->GetHash() != b->GetHash(), "multipliers %.17g and %.17g give the same identity", k, q);
    bool nt = compare(c, x, *a, *b, k, E, "multiplier");
    compare(c, x, *a, *d, k * q, E, "multiplier of a multiplier");
    if (nt)
        c.nontrivial();
}
LAW(unknown, 16000, 1000, "always")
{
    auto p = gen_particle(c);
    auto m = gen_medium(c);
    auto s = gen_spec(c, p);
    auto cut = cut_for(c, s, 1e4);
    auto j = describe(c, s);
    std::string n = s.name;
    bool shadow = s.family == "photonuclear" && !s.real_photon() && c.flag(1, 3);
    if (shadow)
        n = shadow_names[s.shadow];
    switch (c.i(0, 5)) {
    case 0: n += c.pick<std::string>({ " ", "x", "1", "_" }); break;
    case 1: n = n.substr(0, n.size() - 1); break;
    case 2: n = ""; break;
    case 3: n = " " + n; break;
    case 4: n = n.substr(1); break;
    default: n[c.i(0, n.size() - 1)] = '#';
    }
    bool absent = !shadow && c.flag(1, 8);
    if (absent)
        j.erase("parametrization");
    else
        j[shadow ? "shadow" : "parametrization"] = n;
    c.note("%s %s", s.family.c_str(), j.dump().c_str());
    bool thrown = false;
    try {
        factory(s, p, m, cut, j);
    } catch (std::logic_error&) { // includes invalid_argument
        thrown = true;
    }
    c.check(thrown, "accepted");
    c.nontrivial();
}
static Component other_component(Ctx& c, Component const& k)
{
    int what = (int)c.i(0, 2);
    double Z = k.GetNucCharge(), A = k.GetAtomicNum(), n = k.GetAtomInMolecule();
    return Component(k.GetName(), what == 0 ? Z + 1 : Z, what == 1 ? A * (c.flag() ? 1.001 : 1.5) : A, what == 2 ? n * (c.flag() ? 2 : 1.0001) : n);
}
LAW(identity, 64000, 1000, "the two descriptions differ")
{
    auto p = gen_particle(c);
    auto m = gen_medium(c);
    auto s = gen_spec(c, p);
    Cut cut = cut_for(c, s, 1e4);
    double k = c.flag(1, 3) ? 2 : 1, k2 = k;
    auto s2 = s;
    auto m2 = m;
    auto cut2 = cut;
    auto p2 = std::make_shared<ParticleDef>(p);
    static HardComponentTables::VecType other_table;
    const char* what = "nothing";
    bool lpm = s.family == "brems" || s.family == "epair" || s.family == "photopair";
    switch (c.i(0, 9)) {
    case 0: break;
    case 1:
        if (lpm)
            s2.lpm = !s.lpm, what = "lpm";
        break;
    case 2:
        if (s.lpm)
            s2.density_correction = s.density_correction * (c.flag() ? 2 : 1.0001), what = "density correction";
        break;
    case 3:
        if (s.family == "photonuclear") {
            if (!s.real_photon())
                s2.shadow = !s.shadow, what = "shadowing";
            else if (!p.hard_component_table.empty())
                s2.hard = !s.hard, what = "hard component";
        }
        break;
    case 4: {
        for (int n = 0; n < 5 && s2.text() == s.text(); ++n) {
            s2 = gen_spec(c, p);
            s2.lpm = s.lpm, s2.density_correction = s.density_correction;
            if (!(s2.family == "brems" || s2.family == "epair" || s2.family == "photopair"))
                s2.lpm = false, s2.density_correction = 1;
        }
        if (s2.text() != s.text())
            what = "parametrization";
        if (s2.only_stochastic() != s.only_stochastic())
            cut2 = s2.only_stochastic() ? nullptr : Cut(std::make_shared<EnergyCutSettings>(500., 0.05, false));
        break;
    }
    case 5: {
        k2 = c.pick({ k * 2, k * 1.001, k * 0.5, k * (1 + 3e-16) });
        if (k2 != k)
            what = "multiplier";
        break;
    }
    case 6:
        if (cut) {
            double e = cut->GetEcut(), v = cut->GetVcut();
            switch (c.i(0, 2)) {
            case 0: e = std::isinf(e) ? 1e6 : c.flag() ? e * 1.01 : std::nextafter(e, 1e30); what = "e_cut"; break;
            case 1: v = v * (c.flag() ? 0.99 : 0.5); what = "v_cut"; break;
            default: what = "continuous randomization";
            }
            cut2 = std::make_shared<EnergyCutSettings>(e, v, std::string(what) == "continuous randomization" ? !cut->GetContRand() : cut->GetContRand());
        }
        break;
    case 7:
    case 8: {
        auto comp = m.GetComponents();
        if (c.flag(1, 4) && s.family != "photopair" && !lpm) { // another order or an additional component
            comp.emplace_back("extra", 50, 118.7, 1);
            what = "additional element";
        } else {
            auto t = c.i(0, comp.size() - 1);
            auto q = other_component(c, comp[t]);
            comp[t] = q;
            what = "element";
        }
        m2 = Medium(m.GetName(), m.GetI(), m.GetC(), m.GetA(), m.GetM(), m.GetX0(), m.GetX1(), m.GetD0(), m.GetMassDensity(), comp);
        break;
    }
    default:
        if (p.particle_type == 22)
            break;
        auto b = ParticleDef::Builder().SetName(p.name).SetMass(p.mass).SetLow(p.low).SetCharge(p.charge).SetLifetime(p.lifetime).SetHardComponentTable(p.hard_component_table).SetParticleType(p.particle_type).SetWeakPartner(static_cast<ParticleType>(p.weak_partner)).SetDecayTable(p.decay_table);
        switch (c.i(0, 2)) {
        case 0: b.SetMass(p.mass * 1.001).SetLow(p.low * 1.001), what = "mass"; break;
        case 1:
            if (s.family == "annihilation") // rate of the electrons in the medium
                break;
            b.SetCharge(p.charge * 2), what = "charge";
            break;
        default:
            if (p.hard_component_table.empty() || !s.hard)
                break;
            other_table = p.hard_component_table;
            for (auto& r : other_table)
                for (auto& q : r)
                    q *= 1.1;
            b.SetHardComponentTable(other_table), what = "hard component table";
        }
        // the type may not be defined twice
        static int type = 4000000;
        b.SetParticleType(std::string(what) == "nothing" ? p.particle_type : ++type);
        p2 = std::make_shared<ParticleDef>(b.build());
    }
    c.note("%s %s in %s %s times %g; differs: %s", p.name.c_str(), s.text().c_str(), text(m).c_str(), text(cut).c_str(), k, what);
    auto get = [](Spec const& s, ParticleDef const& p, Medium const& m, Cut cut, double k) {
        auto r = CrossPtr(make(s, p, m, cut).build(cut, false));
        return k == 1 ? r : CrossPtr(make_crosssection_multiplier(r, k));
    };
    auto a = get(s, p, m, cut, k), b = get(s2, *p2, m2, cut2, k2);
    bool differ = std::string(what) != "nothing";
    c.label(what);
    c.check((a->GetHash() != b->GetHash()) == differ, "identities %zx and %zx, differing: %s", a->GetHash(), b->GetHash(), what);
    if (differ)
        c.nontrivial();
}
LAW(standard, 1600, 50, "always")
{
    // the documented standard selection
    auto m = gen_medium(c);
    auto p = c.pick<ParticleDef>({ MuMinusDef(), MuPlusDef(), EMinusDef(), EPlusDef(), TauMinusDef(), TauPlusDef(), GammaDef() });
    auto cut = gen_cut(c, 1e3, 1e-2, true, false);
    c.note("%s in %s %s", p.name.c_str(), text(m).c_str(), text(cut).c_str());
    auto have = GetStdCrossSections(p, m, cut, false);
    std::vector<std::pair<char const*, char const*>> want;
    switch (std::abs(p.particle_type)) {
    case 22: want = { { "photopair", "KochMotz" }, { "compton", "KleinNishina" }, { "photoproduction", "Rhode" }, { "photoeffect", "Sauter" } }; break;
    case 11:
        want = { { "brems", "ElectronScreening" }, { "epair", "ForElectronPositron" }, { "ioniz", p.charge < 0 ? "BergerSeltzerMoller" : "BergerSeltzerBhabha" }, { "photonuclear", "AbramowiczLevinLevyMaor97" } };
        if (p.charge > 0)
            want.push_back({ "annihilation", "Heitler" });
        break;
    default: want = { { "brems", "KelnerKokoulinPetrukhin" }, { "epair", "KelnerKokoulinPetrukhin" }, { "ioniz", "BetheBlochRossi" }, { "photonuclear", "AbramowiczLevinLevyMaor97" } };
    }
    c.check(have.size() == want.size(), "%zu cross sections", have.size());
    for (auto& w : want) {
        Spec s;
        s.family = w.first, s.name = w.second, s.shadow = 1;
        auto d = make(s, p, m, cut).build(s.only_stochastic() ? nullptr : cut, false);
        int n = 0;
        for (auto& h : have)
            n += h->GetHash() == d->GetHash() && equal(h->GetParametrizationName(), w.second) && h->GetInteractionType() == d->GetInteractionType();
        c.check(n == 1, "%s %s is there %d times", w.first, w.second, n);
    }
    c.nontrivial();
}
LAW(standard_unknown, 240, 20, "always")
{
    auto m = gen_medium(c);
    auto p = c.flag() ? heavy(1e4, 1) : c.flag() ? ParticleDef(NuMuDef()) : ParticleDef(PiMinusDef());
    bool thrown = false;
    try {
        GetStdCrossSections(p, m, gen_cut(c, 1e3, 1e-2, true, false), false);
    } catch (std::invalid_argument&) {
        thrown = true;
    }
    c.check(thrown, "%s has standard cross sections", p.name.c_str());
    c.nontrivial();
}
