#include "xs.h"
#include "PROPOSAL/crosssection/CrossSectionBuilder.h"
#include "PROPOSAL/crosssection/parametrization/Annihilation.h"
#include "PROPOSAL/crosssection/parametrization/Bremsstrahlung.h"
#include "PROPOSAL/crosssection/parametrization/Compton.h"
#include "PROPOSAL/crosssection/parametrization/EpairProduction.h"
#include "PROPOSAL/crosssection/parametrization/Ionization.h"
#include "PROPOSAL/crosssection/parametrization/MupairProduction.h"
#include "PROPOSAL/crosssection/parametrization/PhotoMuPairProduction.h"
#include "PROPOSAL/crosssection/parametrization/PhotoPairProduction.h"
#include "PROPOSAL/crosssection/parametrization/PhotoQ2Integration.h"
#include "PROPOSAL/crosssection/parametrization/PhotoRealPhotonAssumption.h"
#include "PROPOSAL/crosssection/parametrization/Photoeffect.h"
#include "PROPOSAL/crosssection/parametrization/Photoproduction.h"
#include "PROPOSAL/crosssection/parametrization/WeakInteraction.h"
#include "PROPOSAL/medium/MediumFactory.h"
#include <map>

namespace xs {
using namespace PROPOSAL::crosssection;

bool Spec::only_stochastic() const
{
    return direct() || family == "photopair" || family == "photomupair" || family == "weak";
}
std::string Spec::text() const
{
    std::string s = family + "." + name;
    if (lpm)
        s += strf(".lpm(%g)", density_correction);
    if (family == "photonuclear")
        s += hard ? ".hard" : shadow ? ".shadowBM" : "";
    return s;
}

static void attach(Xs& x, std::shared_ptr<Parametrization<Component>> q) { x.pc = q; }
static void attach(Xs& x, std::shared_ptr<Parametrization<Medium>> q) { x.pm = q; }
static void attach(Xs& x, std::shared_ptr<ParametrizationDirect> q) { x.pd = q; }

template <class T> static void set(Xs& x, T const& q)
{
    attach(x, std::shared_ptr<std::decay_t<decltype(*q.clone())>>(q.clone()));
    auto p = x.p;
    auto m = x.m;
    x.build = [q, p, m](Cut cut, bool interpolate) {
        auto param = q;
        return make_crosssection(param, p, m, cut, interpolate);
    };
}
template <class T> static void set_lpm(Xs& x)
{
    set(x, x.spec.lpm || x.spec.bound ? T(x.spec.lpm, x.p, x.m, x.spec.density_correction) : T(false));
}

Xs make(Spec const& s, ParticleDef const& p, Medium const& m, Cut cut)
{
    Xs x(s, p, m);
    auto const& f = s.family;
    auto const& n = s.name;
#define IS(fam, nam) (f == fam && n == nam)
    auto shadow = [&]() -> std::shared_ptr<ShadowEffect> {
        if (s.shadow)
            return std::make_shared<ShadowButkevichMikheyev>();
        return std::make_shared<ShadowDuttaRenoSarcevicSeckel>();
    };
    EnergyCutSettings ec = cut ? *cut : EnergyCutSettings(500, 0.05);
    if (IS("brems", "PetrukhinShestakov")) set_lpm<BremsPetrukhinShestakov>(x);
    else if (IS("brems", "KelnerKokoulinPetrukhin")) set_lpm<BremsKelnerKokoulinPetrukhin>(x);
    else if (IS("brems", "CompleteScreening")) set_lpm<BremsCompleteScreening>(x);
    else if (IS("brems", "AndreevBezrukovBugaev")) set_lpm<BremsAndreevBezrukovBugaev>(x);
    else if (IS("brems", "SandrockSoedingreksoRhode")) set_lpm<BremsSandrockSoedingreksoRhode>(x);
    else if (IS("brems", "ElectronScreening")) set_lpm<BremsElectronScreening>(x);
    else if (IS("epair", "KelnerKokoulinPetrukhin")) set_lpm<EpairKelnerKokoulinPetrukhin>(x);
    else if (IS("epair", "SandrockSoedingreksoRhode")) set_lpm<EpairSandrockSoedingreksoRhode>(x);
    else if (IS("epair", "ForElectronPositron")) set_lpm<EpairForElectronPositron>(x);
    else if (IS("mupair", "KelnerKokoulinPetrukhin")) set(x, MupairKelnerKokoulinPetrukhin());
    else if (IS("ioniz", "BetheBlochRossi")) set(x, IonizBetheBlochRossi(ec));
    else if (IS("ioniz", "BergerSeltzerBhabha")) set(x, IonizBergerSeltzerBhabha(ec));
    else if (IS("ioniz", "BergerSeltzerMoller")) set(x, IonizBergerSeltzerMoller(ec));
    else if (IS("photonuclear", "Zeus")) set(x, PhotoZeus(s.hard));
    else if (IS("photonuclear", "BezrukovBugaev")) set(x, PhotoBezrukovBugaev(s.hard));
    else if (IS("photonuclear", "Kokoulin")) set(x, PhotoKokoulin(s.hard));
    else if (IS("photonuclear", "Rhode")) set(x, PhotoRhode(s.hard));
    else if (IS("photonuclear", "AbramowiczLevinLevyMaor91")) set(x, PhotoAbramowiczLevinLevyMaor91(shadow()));
    else if (IS("photonuclear", "AbramowiczLevinLevyMaor97")) set(x, PhotoAbramowiczLevinLevyMaor97(shadow()));
    else if (IS("photonuclear", "ButkevichMikheyev")) set(x, PhotoButkevichMikheyev(shadow()));
    else if (IS("photonuclear", "RenoSarcevicSu")) set(x, PhotoRenoSarcevicSu(shadow()));
    else if (IS("photonuclear", "AbtFT")) set(x, PhotoAbtFT(shadow()));
    else if (IS("photonuclear", "BlockDurandHa")) set(x, PhotoBlockDurandHa(shadow()));
    else if (IS("weak", "CooperSarkarMertsch")) set(x, WeakCooperSarkarMertsch());
    else if (IS("annihilation", "Heitler")) set(x, AnnihilationHeitler());
    else if (IS("compton", "KleinNishina")) set(x, ComptonKleinNishina());
    else if (IS("photopair", "Tsai")) set_lpm<PhotoPairTsai>(x);
    else if (IS("photopair", "KochMotz")) set_lpm<PhotoPairKochMotz>(x);
    else if (IS("photomupair", "BurkhardtKelnerKokoulin")) set(x, PhotoMuPairBurkhardtKelnerKokoulin());
    else if (IS("photoproduction", "Zeus")) set(x, PhotoproductionZeus());
    else if (IS("photoproduction", "BezrukovBugaev")) set(x, PhotoproductionBezrukovBugaev());
    else if (IS("photoproduction", "Caldwell")) set(x, PhotoproductionCaldwell());
    else if (IS("photoproduction", "Kokoulin")) set(x, PhotoproductionKokoulin());
    else if (IS("photoproduction", "Rhode")) set(x, PhotoproductionRhode());
    else if (IS("photoproduction", "Heck")) set(x, PhotoproductionHeck());
    else if (IS("photoproduction", "HeckC7Shadowing")) set(x, PhotoproductionHeckC7Shadowing());
    else if (IS("photoeffect", "Sauter")) set(x, PhotoeffectSauter());
    else throw std::logic_error("harness: unknown parametrization " + f + "." + n);
#undef IS
    static const std::map<std::string, size_t> types { { "brems", 1000000002 }, { "ioniz", 1000000003 }, { "epair", 1000000004 }, { "photonuclear", 1000000005 }, { "mupair", 1000000006 }, { "weak", 1000000009 }, { "compton", 1000000010 }, { "annihilation", 1000000012 }, { "photopair", 1000000013 }, { "photoproduction", 1000000014 }, { "photomupair", 1000000015 }, { "photoeffect", 1000000016 } };
    x.type = types.at(f);
    return x;
}

static Spec sp(char const* f, char const* n, bool hard = false, int shadow = 0)
{
    Spec s;
    s.family = f, s.name = n, s.hard = hard, s.shadow = shadow;
    return s;
}
std::vector<Spec> specs_for(ParticleDef const& p)
{
    std::vector<Spec> r;
    int t = std::abs(p.particle_type);
    if (t == 22) {
        r.push_back(sp("compton", "KleinNishina"));
        r.push_back(sp("photopair", "Tsai"));
        r.push_back(sp("photopair", "KochMotz"));
        r.push_back(sp("photomupair", "BurkhardtKelnerKokoulin"));
        r.push_back(sp("photoeffect", "Sauter"));
        for (auto n : { "Zeus", "BezrukovBugaev", "Caldwell", "Kokoulin", "Rhode", "Heck", "HeckC7Shadowing" })
            r.push_back(sp("photoproduction", n));
        return r;
    }
    for (auto n : { "PetrukhinShestakov", "KelnerKokoulinPetrukhin", "CompleteScreening", "AndreevBezrukovBugaev", "SandrockSoedingreksoRhode" })
        r.push_back(sp("brems", n));
    if (t == 11) {
        r.push_back(sp("brems", "ElectronScreening"));
        r.push_back(sp("epair", "ForElectronPositron"));
        r.push_back(sp("ioniz", p.charge > 0 ? "BergerSeltzerBhabha" : "BergerSeltzerMoller"));
        if (p.charge > 0)
            r.push_back(sp("annihilation", "Heitler"));
    } else {
        r.push_back(sp("epair", "KelnerKokoulinPetrukhin"));
        r.push_back(sp("epair", "SandrockSoedingreksoRhode"));
        r.push_back(sp("ioniz", "BetheBlochRossi"));
    }
    r.push_back(sp("mupair", "KelnerKokoulinPetrukhin"));
    for (auto n : { "Zeus", "BezrukovBugaev", "Kokoulin", "Rhode" }) {
        r.push_back(sp("photonuclear", n));
        if (!p.hard_component_table.empty())
            r.push_back(sp("photonuclear", n, true));
    }
    for (auto n : { "AbramowiczLevinLevyMaor91", "AbramowiczLevinLevyMaor97", "ButkevichMikheyev", "RenoSarcevicSu", "AbtFT", "BlockDurandHa" })
        for (int sh : { 0, 1 })
            r.push_back(sp("photonuclear", n, false, sh));
    if (p.weak_partner != 0 || t == 11 || t == 13 || t == 15)
        r.push_back(sp("weak", "CooperSarkarMertsch"));
    return r;
}
Spec gen_spec(Ctx& c, ParticleDef const& p)
{
    auto all = specs_for(p);
    // first the family, then the member
    std::vector<std::string> fam;
    for (auto& s : all)
        if (std::find(fam.begin(), fam.end(), s.family) == fam.end())
            fam.push_back(s.family);
    auto f = c.pick(fam);
    std::vector<Spec> in;
    for (auto& s : all)
        if (s.family == f)
            in.push_back(s);
    Spec s = in[size_t(c.i(0, long(in.size()) - 1))];
    if ((f == "brems" || f == "epair" || f == "photopair") && c.flag(1, 3)) {
        s.lpm = true;
        s.density_correction = c.flag() ? 1. : c.logu(1e-3, 10);
    }
    return s;
}

ParticleDef heavy(double mass, double charge)
{
    static std::map<std::pair<double, double>, int> types;
    int& t = types[{ mass, charge }];
    if (t == 0)
        t = 3000000 + int(types.size());
    return ParticleDef::Builder().SetName(strf("H%d", t)).SetMass(mass).SetLow(mass).SetCharge(charge).SetLifetime(-1).SetParticleType(t).build();
}
ParticleDef gen_particle(Ctx& c, bool photon)
{
    switch (c.i(0, photon ? 9 : 7)) {
    case 0:
    case 1: return MuMinusDef();
    case 2: return MuPlusDef();
    case 3: return EMinusDef();
    case 4: return EPlusDef();
    case 5: return c.flag() ? ParticleDef(TauMinusDef()) : ParticleDef(TauPlusDef());
    case 6: return MuMinusDef();
    case 7: return heavy(c.pick({ 139.57018, 493.677, 938.27, 1e4, 1e5, 1e7 }), c.pick({ -1., 1., 2., -3. }));
    default: return GammaDef();
    }
}
Medium gen_medium(Ctx& c)
{
    static const std::vector<std::string> names { "water", "ice", "air", "standardrock", "hydrogen", "iron", "copper", "lead", "uranium", "salt", "paraffin", "argon", "liquidhydrogen", "frejusrock", "antareswater" };
    std::shared_ptr<Medium> base;
    try {
        base = CreateMedium(c.pick(names));
    } catch (std::exception&) {
        base = CreateMedium("water");
    }
    if (c.flag(1, 2))
        return *base;
    static const double za[][2] = { { 1, 1.00794 }, { 2, 4.0026 }, { 3, 6.941 }, { 4, 9.0122 }, { 6, 12.0107 }, { 7, 14.0067 }, { 8, 15.9994 }, { 11, 22.9898 }, { 13, 26.9815 }, { 14, 28.0855 }, { 18, 39.948 }, { 20, 40.078 }, { 26, 55.845 }, { 29, 63.546 }, { 47, 107.868 }, { 56, 137.327 }, { 74, 183.84 }, { 82, 207.2 }, { 92, 238.0289 } };
    int n = int(c.i(1, 3));
    std::vector<Component> k;
    std::vector<int> used;
    for (int i = 0; i < n; ++i) {
        int e = int(c.i(0, 18));
        if (std::find(used.begin(), used.end(), e) != used.end())
            continue;
        used.push_back(e);
        k.emplace_back(strf("E%g", za[e][0]), za[e][0], za[e][1], c.flag() ? double(c.i(1, 6)) : c.plain(0.1, 4));
    }
    // the hashes of media do not cover everything: keep names unique
    std::string name = "G" + base->GetName();
    for (auto& q : k)
        name += strf("_%g_%.17g", q.GetNucCharge(), q.GetAtomInMolecule());
    return Medium(name, base->GetI(), base->GetC(), base->GetA(), base->GetM(), base->GetX0(), base->GetX1(), base->GetD0(), base->GetMassDensity(), k);
}
std::string text(Medium const& m)
{
    std::string s = m.GetName() + "(";
    for (auto& k : m.GetComponents())
        s += strf(" %g/%g x%.6g", k.GetNucCharge(), k.GetAtomicNum(), k.GetAtomInMolecule());
    return s + " )";
}
double gen_energy(Ctx& c, double above, double top)
{
    switch (c.i(0, 5)) {
    case 0: return above * (1 + c.logu(1e-9, 1));
    case 1: return above * (1 + c.logu(1e-3, 10));
    case 2: return std::max(above, std::exp(c.plain(std::log(top / 1e3), std::log(top))));
    default: return above < top ? std::exp(c.plain(std::log(above), std::log(top))) : above;
    }
}
Cut gen_cut(Ctx& c, double E, double lowest, bool cont, bool null)
{
    bool cr = c.flag();
    switch (c.i(0, 7)) {
    case 0:
        if (null)
            return nullptr;
        // fall through
    case 1:
        if (cont)
            return std::make_shared<EnergyCutSettings>(INF, 1., cr);
        // fall through
    case 2: return std::make_shared<EnergyCutSettings>(500., 0.05, cr);
    case 3: return std::make_shared<EnergyCutSettings>(500., 1., cr);
    case 4: {
        double lo = std::max(1e-4, lowest / E);
        return std::make_shared<EnergyCutSettings>(INF, lo < 1 ? c.logu(lo, 1) : 1., cr);
    }
    default: {
        double lo = std::max(1e-4, lowest / E);
        double v = lo < 1 ? c.logu(lo, 1) : 1.;
        return std::make_shared<EnergyCutSettings>(c.logu(lowest, std::max(lowest * 2, std::min(2 * E, 1e6))), v, cr);
    }
    }
}
std::string text(Cut const& k) { return k ? strf("cut(%.17g,%.17g,%d)", k->GetEcut(), k->GetVcut(), k->GetContRand()) : "no cut"; }
}
