// T05: a propagator created from a JSON configuration is the one described
#include "xs.h"
#include "geo.h"
#include "dens.h"
#include "PROPOSAL/Propagator.h"
#include "PROPOSAL/Secondaries.h"
#include "PROPOSAL/crosssection/CrossSectionMultiplier.h"
#include "PROPOSAL/crosssection/ParticleDefaultCrossSectionList.h"
#include "PROPOSAL/math/RandomGenerator.h"
#include "PROPOSAL/medium/MediumFactory.h"
#include "PROPOSAL/propagation_utility/ContRandBuilder.h"
#include "PROPOSAL/propagation_utility/DecayBuilder.h"
#include "PROPOSAL/propagation_utility/DisplacementBuilder.h"
#include "PROPOSAL/propagation_utility/InteractionBuilder.h"
#include "PROPOSAL/propagation_utility/TimeBuilder.h"
#include "PROPOSAL/scattering/ScatteringFactory.h"
#include "PROPOSAL/scattering/ScatteringMultiplier.h"
#include <fstream>
#include <map>
#include <unistd.h>
using namespace PROPOSAL;
using nlohmann::json;
const char* pbt::property_id = "T05";

// ---- settings ---------------------------------------------------------------
static const std::vector<std::pair<const char*, Medium_Type>> media = {
    { "Water", Medium_Type::WATER }, { "Ice", Medium_Type::ICE }, { "Standardrock", Medium_Type::STANDARDROCK },
    { "Iron", Medium_Type::IRON }, { "Hydrogen", Medium_Type::HYDROGEN }, { "Lead", Medium_Type::LEAD },
    { "Copper", Medium_Type::COPPER }, { "Uranium", Medium_Type::URANIUM }, { "Air", Medium_Type::AIR },
    { "Paraffin", Medium_Type::PARAFFIN }, { "Salt", Medium_Type::SALT }, { "WaterPDG2001", Medium_Type::WATERPDG2001 }
};
static const std::map<std::string, const char*> key_of = {
    { "brems", "brems" }, { "epair", "epair" }, { "mupair", "mupair" }, { "ioniz", "ioniz" }, { "photonuclear", "photo" },
    { "weak", "weak" }, { "annihilation", "annihilation" }, { "compton", "compton" }, { "photopair", "photopair" },
    { "photomupair", "photomupair" }, { "photoproduction", "photoproduction" }, { "photoeffect", "photoeffect" }
};
static const std::vector<std::pair<const char*, MultipleScatteringType>> multiple = {
    { "NoScattering", MultipleScatteringType::NoScattering }, { "Highland", MultipleScatteringType::Highland },
    { "HighlandIntegral", MultipleScatteringType::HighlandIntegral }, { "Moliere", MultipleScatteringType::Moliere },
    { "MoliereInterpol", MultipleScatteringType::MoliereInterpol }
};
struct Deflection {
    const char* name;
    InteractionType type;
    bool standard;
};
static const std::vector<Deflection> deflections = {
    { "BremsTsaiApproximation", InteractionType::Brems, false }, { "IonizNaive", InteractionType::Ioniz, false },
    { "PhotoBorogPetrukhin", InteractionType::Photonuclear, false }, { "DefaultBrems", InteractionType::Brems, true },
    { "DefaultIoniz", InteractionType::Ioniz, true }, { "DefaultPhotonuclear", InteractionType::Photonuclear, true },
    { "DefaultEpair", InteractionType::Epair, true }
};
static const std::vector<std::pair<const char*, InteractionType>> type_name = {
    { "Brems", InteractionType::Brems }, { "Ioniz", InteractionType::Ioniz }, { "Photonuclear", InteractionType::Photonuclear }, { "Epair", InteractionType::Epair }
};

struct Scat {
    int ms = -1; // of multiple, -1 not given
    double mm = 1;
    std::vector<int> sd;
    std::map<int, double> sm;
    json js() const
    {
        json j = json::object();
        if (ms >= 0)
            j["multiple_scattering"] = multiple[ms].first;
        if (mm != 1)
            j["multiple_scattering_multiplier"] = mm;
        for (int d : sd)
            j["stochastic_deflection"].push_back(deflections[d].name);
        for (auto& m : sm)
            j["stochastic_deflection_multiplier"][type_name[m.first].first] = m.second;
        return j;
    }
    std::unique_ptr<Scattering> make(ParticleDef const& p, Medium const& m, std::vector<std::shared_ptr<CrossSectionBase>> const& x, bool interpol) const
    {
        std::unique_ptr<multiple_scattering::Parametrization> a;
        if (ms >= 0)
            a = multiple[ms].second == MultipleScatteringType::HighlandIntegral ? make_highland_integral(p, m, x, interpol) : make_multiple_scattering(multiple[ms].second, p, m);
        std::vector<std::unique_ptr<stochastic_deflection::Parametrization>> b;
        for (int d : sd)
            b.push_back(deflections[d].standard ? make_default_stochastic_deflection(deflections[d].type, p, m) : make_stochastic_deflection(deflections[d].name, p, m));
        std::vector<std::pair<InteractionType, double>> f;
        for (auto& s : sm)
            f.push_back({ type_name[s.first].second, s.second });
        return std::make_unique<ScatteringMultiplier>(std::move(a), std::move(b), mm, f);
    }
};
typedef std::vector<std::pair<xs::Spec, double>> CrossSet; // and multiplier
static json cross_json(CrossSet const& s)
{
    json j = json::object();
    for (auto& k : s) {
        json q { { "parametrization", k.first.name } };
        auto& f = k.first.family;
        if ((f == "brems" || f == "epair" || f == "photopair") && !k.first.lpm)
            q["lpm"] = false;
        if (f == "photonuclear") {
            if (k.first.real_photon()) {
                if (!k.first.hard)
                    q["hard_component"] = false;
            } else if (!k.first.shadow)
                q["shadow"] = "DuttaRenoSarcevicSeckel";
        }
        if (k.second != 1)
            q["multiplier"] = k.second;
        j[key_of.at(f)] = q;
    }
    return j;
}
static std::vector<std::shared_ptr<CrossSectionBase>> cross_list(CrossSet const& set, ParticleDef const& p, Medium const& m, xs::Cut cut, bool interpol, double correction)
{
    std::vector<std::shared_ptr<CrossSectionBase>> r;
    for (auto k : set) {
        k.first.bound = true;
        k.first.density_correction = correction;
        auto x = xs::make(k.first, p, m, cut);
        std::shared_ptr<CrossSectionBase> s = x.build(k.first.only_stochastic() ? nullptr : cut, interpol);
        if (k.second != 1)
            s = make_crosssection_multiplier(s, k.second);
        r.push_back(s);
    }
    return r;
}
// the settings of a level, global or sector
struct Settings {
    int medium = -1;
    std::shared_ptr<EnergyCutSettings> cut;
    int interpol = -1, exact = -1;
    std::shared_ptr<Scat> scat;
    std::shared_ptr<CrossSet> cross;
    json js() const
    {
        json j = json::object();
        if (medium >= 0)
            j["medium"] = media[medium].first;
        if (cut)
            j["cuts"] = { { "e_cut", std::isinf(cut->GetEcut()) ? json("inf") : json(cut->GetEcut()) }, { "v_cut", cut->GetVcut() }, { "cont_rand", cut->GetContRand() } };
        if (interpol >= 0)
            j["do_interpolation"] = bool(interpol);
        if (exact >= 0)
            j["exact_time"] = bool(exact);
        if (scat)
            j["scattering"] = scat->js();
        if (cross)
            j["CrossSections"] = cross_json(*cross);
        return j;
    }
    // settings of this level, else of the other
    Settings over(Settings const& g) const
    {
        Settings r = *this;
        if (r.medium < 0)
            r.medium = g.medium;
        if (!r.cut)
            r.cut = g.cut;
        if (r.interpol < 0)
            r.interpol = g.interpol;
        if (r.exact < 0)
            r.exact = g.exact;
        if (!r.scat)
            r.scat = g.scat;
        if (!r.cross)
            r.cross = g.cross;
        return r;
    }
};
static json geo_json(geo::Body const& k, unsigned hierarchy)
{
    static const char* n[] = { "sphere", "box", "cylinder" };
    json j { { "shape", n[k.kind] }, { "origin", { k.c.GetX(), k.c.GetY(), k.c.GetZ() } } };
    if (hierarchy != 0)
        j["hierarchy"] = hierarchy;
    if (k.kind == 1) {
        j["length"] = k.a;
        j["width"] = k.b;
        j["height"] = k.h;
    } else {
        j["outer_radius"] = k.a;
        if (k.b != 0)
            j["inner_radius"] = k.b;
        if (k.kind == 2)
            j["height"] = k.h;
    }
    return j;
}
struct Sec {
    Settings s;
    std::vector<std::pair<geo::Body, unsigned>> geo;
    std::shared_ptr<dens::Spec> dens;
};
struct Config {
    std::shared_ptr<ParticleDef> def;
    std::shared_ptr<Settings> global;
    std::vector<Sec> sec;
    double E = 1e4, L = 1;
    Settings of(size_t i) const { return global ? sec[i].s.over(*global) : sec[i].s; }
    json js() const
    {
        json j;
        if (global)
            j["global"] = global->js();
        j["sectors"] = json::array();
        for (auto& s : sec) {
            json k = s.s.js();
            for (auto& g : s.geo)
                k["geometries"].push_back(geo_json(g.first, g.second));
            if (s.dens)
                k["density_distribution"] = s.dens->json();
            j["sectors"].push_back(k);
        }
        return j;
    }
    // put together by hand; the order of the cross sections is not specified
    std::vector<Sector> sectors(int order) const
    {
        auto& p = *def;
        std::vector<Sector> r;
        for (size_t i = 0; i < sec.size(); ++i) {
            auto s = of(i);
            auto m = CreateMedium(media[s.medium].second);
            bool interpol = s.interpol != 0;
            double rho = m->GetMassDensity();
            std::vector<std::shared_ptr<CrossSectionBase>> x;
            if (s.cross) {
                auto list = *s.cross;
                std::sort(list.begin(), list.end(), [](auto& a, auto& b) { return std::string(key_of.at(a.first.family)) < key_of.at(b.first.family); });
                std::vector<size_t> k(list.size());
                for (size_t j = 0; j < k.size(); ++j)
                    k[j] = j;
                for (int n = 0; n < order; ++n)
                    std::next_permutation(k.begin(), k.end());
                CrossSet ordered;
                for (auto j : k)
                    ordered.push_back(list[j]);
                x = cross_list(ordered, p, *m, s.cut, interpol, sec[i].dens ? sec[i].dens->rho / rho : 1.);
            } else
                x = GetStdCrossSections(p, *m, s.cut, interpol);
            PropagationUtility::Collection c;
            c.displacement_calc = std::shared_ptr<Displacement>(make_displacement(x, interpol));
            c.interaction_calc = std::shared_ptr<Interaction>(make_interaction(c.displacement_calc, x, interpol, false));
            if (std::isfinite(p.lifetime))
                c.decay_calc = std::shared_ptr<Decay>(make_decay(x, p, interpol));
            if (s.cut->GetContRand())
                c.cont_rand = std::shared_ptr<ContRand>(make_contrand(x, interpol));
            if (s.exact != 0)
                c.time_calc = std::shared_ptr<Time>(make_time(x, p, interpol));
            else
                c.time_calc = std::make_shared<ApproximateTimeBuilder>();
            if (s.scat)
                c.scattering = s.scat->make(p, *m, x, interpol);
            PropagationUtility u(c);
            for (auto& g : sec[i].geo) {
                auto geo = g.first.make();
                geo->SetHierarchy(g.second);
                std::shared_ptr<Density_distr> d = sec[i].dens ? sec[i].dens->make() : std::make_shared<Density_homogeneous>(rho);
                r.push_back(Sector(geo, u, d));
            }
        }
        return r;
    }
    int orders() const
    {
        size_t n = 1;
        for (size_t i = 0; i < sec.size(); ++i)
            if (auto x = of(i).cross)
                n = std::max(n, x->size());
        return n == 1 ? 1 : n == 2 ? 2 : 6;
    }
};

// ---- generators --------------------------------------------------------------
// families: the cheap ones can be integrated
static CrossSet gen_cross(Ctx& c, ParticleDef const& p, bool integrate, int most)
{
    CrossSet s;
    bool photon = p.particle_type == 22;
    std::vector<xs::Spec> ok;
    for (auto& q : xs::specs_for(p)) {
        auto& f = q.family;
        bool slow = f == "epair" || f == "mupair" || f == "photomupair" || (f == "photonuclear" && (!q.real_photon() || q.hard || integrate));
        if (!slow)
            ok.push_back(q);
    }
    int n = (int)c.i(1, most);
    std::vector<std::string> used;
    for (int i = 0; i < n; ++i) {
        std::vector<std::string> fam;
        for (auto& q : ok)
            if (std::find(fam.begin(), fam.end(), q.family) == fam.end() && std::find(used.begin(), used.end(), q.family) == used.end())
                fam.push_back(q.family);
        if (fam.empty())
            break;
        // the first one provides continuous losses at all energies
        std::string f = i == 0 ? (photon ? "compton" : "ioniz") : c.pick(fam);
        used.push_back(f);
        std::vector<xs::Spec> in;
        for (auto& q : ok)
            if (q.family == f)
                in.push_back(q);
        auto q = c.pick(in);
        if (f == "brems" || f == "photopair")
            q.lpm = c.flag();
        double mult = c.flag(2, 3) ? 1. : c.logu(0.1, 10);
        s.push_back({ q, mult });
    }
    return s;
}
static Scat gen_scat(Ctx& c, ParticleDef const& p, bool cheap)
{
    Scat s;
    if (p.charge == 0)
        return s;
    if (c.flag(3, 4)) {
        s.ms = (int)c.i(0, cheap ? 1 : 4);
        if (c.flag(1, 3))
            s.mm = c.logu(0.1, 10);
    }
    std::vector<InteractionType> used;
    for (size_t i = 0; i < deflections.size(); ++i)
        if (std::find(used.begin(), used.end(), deflections[i].type) == used.end() && c.flag(1, 4)) {
            s.sd.push_back((int)i);
            used.push_back(deflections[i].type);
        }
    for (size_t i = 0; i < type_name.size(); ++i)
        if (c.flag(1, 5))
            s.sm[(int)i] = c.logu(0.01, 1);
    return s;
}
static std::shared_ptr<EnergyCutSettings> gen_cut(Ctx& c, double E, bool continuous)
{
    bool r = c.flag();
    if (continuous)
        return std::make_shared<EnergyCutSettings>(INF, 1., r);
    switch (c.i(0, 3)) {
    case 0: return std::make_shared<EnergyCutSettings>(500., c.pick({ 1., 0.05 }), r);
    case 1: return std::make_shared<EnergyCutSettings>(INF, c.logu(1e-3, 1), r);
    case 2: return std::make_shared<EnergyCutSettings>(E * c.logu(1e-3, 1), 1., r);
    default: return std::make_shared<EnergyCutSettings>(E * c.logu(1e-3, 1), c.logu(1e-3, 1), r);
    }
}
static std::shared_ptr<ParticleDef> gen_particle(Ctx& c, bool standard)
{
    switch (c.i(0, 5)) {
    case 0: return std::make_shared<MuMinusDef>();
    case 1: {
        if (standard)
            return std::make_shared<MuMinusDef>();
        bool stable = c.flag();
        return std::make_shared<ParticleDef>(ParticleDef::Builder().SetParticleDef(MuMinusDef()).SetName(stable ? "Stable" : "Short").SetParticleType(stable ? 3000013 : 3000014).SetLifetime(stable ? INF : 1e-12).build());
    }
    case 2: return c.flag() ? std::shared_ptr<ParticleDef>(std::make_shared<MuPlusDef>()) : std::make_shared<TauMinusDef>();
    case 3: return std::make_shared<EMinusDef>();
    case 4: return std::make_shared<EPlusDef>();
    default: return std::make_shared<GammaDef>();
    }
}
// interpolation 0: off, 1: on, 2: either; most: number of interactions
static Config gen_config(Ctx& c, int mode, int most, bool continuous, int standard = 0)
{
    Config k;
    k.def = gen_particle(c, standard);
    auto& p = *k.def;
    bool photon = p.particle_type == 22;
    k.E = photon ? c.logu(1, 1e4) : std::max(2 * k.def->mass, c.logu(10, 1e8));
    int n = (int)c.i(1, 2);
    bool global = c.flag(3, 4);
    if (global)
        k.global = std::make_shared<Settings>();
    bool cheap = mode != 1;
    auto fill = [&](Settings& s, int which) { // which: chance of each setting in quarters
        if (c.flag(which, 4))
            s.medium = (int)c.i(0, media.size() - 1);
        if (c.flag(which, 4))
            s.cut = gen_cut(c, k.E, continuous);
        if (c.flag(which, 4))
            s.interpol = mode == 0 ? 0 : mode == 1 ? 1 : !c.flag(1, 6);
        if (c.flag(which, 4))
            s.exact = (int)c.i(0, 1);
        if (c.flag(which, 4) && !photon)
            s.scat = std::make_shared<Scat>(gen_scat(c, *k.def, cheap));
        if (!standard && c.flag(which, 4))
            s.cross = std::make_shared<CrossSet>(gen_cross(c, *k.def, cheap, most));
    };
    if (global)
        fill(*k.global, 2);
    k.sec.resize(n);
    for (auto& s : k.sec) {
        fill(s.s, global ? 2 : 3);
        auto r = global ? s.s.over(*k.global) : s.s;
        if (r.medium < 0)
            (global && c.flag() ? k.global->medium : s.s.medium) = (int)c.i(0, media.size() - 1);
        if (!r.cut)
            (global && c.flag() ? k.global->cut : s.s.cut) = gen_cut(c, k.E, continuous);
        if (!standard && !r.cross) // the standard cross sections are expensive
            (global && c.flag() ? k.global->cross : s.s.cross) = std::make_shared<CrossSet>(gen_cross(c, *k.def, cheap, most));
        if (r.interpol < 0 && mode == 0) // on by default
            (global && c.flag() ? k.global->interpol : s.s.interpol) = 0;
    }
    return k;
}
// geometries, densities and a length in which the particle loses a good part of its energy
static void place(Ctx& c, Config& k)
{
    double best = 0;
    for (size_t i = 0; i < k.sec.size(); ++i) {
        auto s = k.of(i);
        auto m = CreateMedium(media[s.medium].second);
        std::vector<std::shared_ptr<CrossSectionBase>> x;
        if (s.cross)
            x = cross_list(*s.cross, *k.def, *m, s.cut, false, 1.);
        double loss = 0, rate = 0;
        for (auto& q : x) {
            loss += q->CalculatedEdx(k.E);
            rate += q->CalculatedNdx(k.E);
        }
        double g = std::min(loss > 0 ? k.E / loss : 1e10, rate > 0 ? 3 / rate : 1e10);
        if (!s.cross)
            g = k.E / 2;
        best = std::max(best, 1. / (g / m->GetMassDensity()));
    }
    k.L = 1 / best;
    double L = k.L;
    for (size_t i = 0; i < k.sec.size(); ++i) {
        auto& s = k.sec[i];
        bool last = i + 1 == k.sec.size();
        int n = (int)c.i(1, 2);
        for (int j = 0; j < n; ++j) {
            geo::Body b;
            if (last && j + 1 == n) {
                b.kind = 0;
                b.a = 1e20;
                b.b = b.h = 0;
                b.c = Cartesian3D(0, 0, 0);
                s.geo.push_back({ b, 0 });
            } else {
                b.kind = (int)c.i(0, 2);
                b.a = L * c.plain(0.1, 2);
                b.b = b.kind == 1 ? L * c.plain(0.1, 2) : c.flag() ? 0 : b.a * c.plain(0.1, 0.9);
                b.h = b.kind == 0 ? 0 : L * c.plain(0.1, 2);
                b.c = Cartesian3D(L * c.plain(-1, 1), L * c.plain(-1, 1), L * c.plain(-1, 1));
                s.geo.push_back({ b, (unsigned)c.i(0, 2) });
            }
        }
        if (c.flag()) {
            auto m = CreateMedium(media[k.of(i).medium].second);
            s.dens = std::make_shared<dens::Spec>();
            auto& d = *s.dens;
            d.kind = (int)c.i(0, 2);
            d.rho = m->GetMassDensity() * c.logu(0.1, 3);
            d.radial = c.flag();
            d.fp0 = d.radial ? Cartesian3D(10 * L, 3 * L, -L) : Cartesian3D(L * c.plain(-1, 1), 0, L * c.plain(-1, 1));
            d.faxis = Cartesian3D(0, 0.6, 0.8);
            if (d.kind == 1) {
                d.sigma = 5 * L * (d.radial ? -1 : c.pick({ 1., -1. }));
                d.d0 = d.radial ? 10 * L : L * c.plain(-1, 1);
            } else if (d.kind == 2)
                d.a = { 1, (d.radial ? 0.1 : 0.01) / L, 0.01 / L / L };
        }
    }
}
struct Run {
    std::vector<ParticleState> t;
    std::vector<InteractionType> y;
    std::vector<size_t> h;
    std::string error;
};
static Run run(Propagator& p, ParticleState const& s, int seed, double max, double emin)
{
    Run r;
    RandomGenerator::Get().SetSeed(seed);
    try {
        auto t = p.Propagate(s, max, emin);
        r.t = t.GetTrack();
        r.y = t.GetTrackTypes();
        r.h = t.GetTargetHashes();
    } catch (std::exception const& e) {
        r.error = e.what();
    }
    return r;
}
static bool close(double a, double b, double scale) { return a == b || std::fabs(a - b) <= 1e-10 * std::max(scale, std::max(std::fabs(a), std::fabs(b))) || (std::isnan(a) && std::isnan(b)); }
static std::string differ(Run const& a, Run const& b)
{
    if (a.error != b.error)
        return strf("error '%s' and '%s'", a.error.c_str(), b.error.c_str());
    if (a.t.size() != b.t.size())
        return strf("%zu and %zu states, ends with %.17g MeV and %.17g MeV", a.t.size(), b.t.size(), a.t.back().energy, b.t.back().energy);
    for (size_t i = 0; i < a.t.size(); ++i) {
        auto &x = a.t[i], &y = b.t[i];
        double d = x.propagated_distance;
        bool ok = close(x.energy, y.energy, 0) && close(x.time, y.time, 0) && close(d, y.propagated_distance, 0) && a.y[i] == b.y[i] && x.type == y.type;
        Cartesian3D p(x.position), q(y.position), u(x.direction), v(y.direction);
        for (int j = 0; j < 3; ++j)
            ok = ok && close(p[j], q[j], d) && close(u[j], v[j], 1);
        if (!ok)
            return strf("state %zu: type %d and %d, energy %.17g and %.17g MeV, time %.17g and %.17g s, distance %.17g and %.17g cm, position %s and %s, direction %s and %s", i, (int)a.y[i], (int)b.y[i], x.energy, y.energy, x.time, y.time, d, y.propagated_distance, str(p).c_str(), str(q).c_str(), str(u).c_str(), str(v).c_str());
    }
    if (a.h != b.h)
        return "targets of the losses differ";
    return "";
}
static void compare(Ctx& c, Config const& k, Propagator& p, int runs)
{
    Propagator q(*k.def, k.sectors(0));
    std::string why;
    std::vector<std::unique_ptr<Propagator>> other;
    size_t states = 0;
    for (int i = 0; i < runs; ++i) {
        ParticleState s;
        s.type = k.def->particle_type;
        s.position = Cartesian3D(k.L * c.plain(-1, 1), k.L * c.plain(-1, 1), k.L * c.plain(-1, 1));
        s.direction = gen_dir(c);
        s.energy = k.E;
        int seed = (int)c.i(1, 1000000);
        double max = k.L * c.plain(0.2, 2), emin = k.E * c.pick({ 0.1, 0.5, 0.9 });
        c.note("start %s %s to %.17g cm or %.17g MeV seed %d\n", str(s.position).c_str(), str(s.direction).c_str(), max, emin, seed);
        auto a = run(p, s, seed, max, emin);
        auto d = differ(a, run(q, s, seed, max, emin));
        if (d != "") { // a different order of the interactions is no difference
            bool any = false;
            for (int o = 1; o < k.orders() && !any; ++o) {
                Propagator r(*k.def, k.sectors(o));
                any = differ(a, run(r, s, seed, max, emin)) == "";
            }
            c.check(any, "the configured propagator and the one put together differ: %s", d.c_str());
        }
        states += a.t.size();
        if (a.error != "")
            c.label("error");
    }
    if (states > size_t(runs * 2))
        c.nontrivial();
}

struct File {
    std::string name;
    File(std::string const& text)
    {
        char t[] = "/tmp/T05_XXXXXX";
        int f = mkstemp(t);
        if (f >= 0)
            ::close(f);
        name = t;
        std::ofstream(name) << text;
    }
    ~File() { ::unlink(name.c_str()); }
};
static void law(Ctx& c, int mode, int most, bool continuous, int runs, int standard = 0)
{
    auto k = gen_config(c, mode, most, continuous, standard);
    place(c, k);
    auto j = k.js();
    c.note("%s (lifetime %g s) of %.17g MeV: %s\n", k.def->name.c_str(), k.def->lifetime, k.E, j.dump().c_str());
    if (c.flag(1, 8))
        j["interpolation"] = json::object();
    if (c.flag()) {
        Propagator p(*k.def, j);
        compare(c, k, p, runs);
    } else {
        File f(j.dump((int)c.i(-1, 4)));
        Propagator p(*k.def, f.name);
        compare(c, k, p, runs);
    }
}
LAW(continuous, 250, 5, "more than 2 states per propagation")
{
    law(c, 2, 1, true, 4);
}
LAW(integrated, 24, 1, "more than 2 states per propagation")
{
    law(c, 0, 2, c.flag(1, 5), 2);
}
LAW(interpolated, 48, 1, "more than 2 states per propagation")
{
    law(c, 1, 3, false, 8);
}
LAW(standard, 6, 1, "more than 2 states per propagation")
{
    law(c, 0, 0, true, 1, 1);
}
LAW(faults, 1200, 20, "always")
{
    auto k = gen_config(c, 1, 1, true);
    place(c, k);
    auto def = k.def;
    auto j = k.js();
    size_t i = (size_t)c.i(0, j["sectors"].size() - 1);
    bool global = j.contains("global");
    auto& sec = j["sectors"][i];
    // the level of a setting of the sector
    auto level = [&]() -> json& { return global && c.flag() ? j["global"] : sec; };
    auto drop = [&](char const* n) {
        sec.erase(n);
        if (global)
            j["global"].erase(n);
    };
    auto set = [&](char const* n, json const& v) { // where it counts
        auto& l = level();
        if (&l != &sec)
            for (auto& s : j["sectors"])
                s.erase(n);
        l[n] = v;
    };
    auto unknown = [&](std::string good) {
        switch (c.i(0, 3)) {
        case 0: return std::string("Foo");
        case 1: return good + "s";
        case 2: return good.substr(1);
        default: return std::string();
        }
    };
    std::string what, file;
    bool from_file = false;
    auto word = [&] { return c.pick<json>({ json("yes"), json::object(), json::array({ true }) }); };
    switch (c.i(0, 15)) {
    case 0:
        what = "sectors";
        if (c.flag())
            j.erase("sectors");
        else
            j["sectors"] = json(sec);
        break;
    case 1:
        what = "no medium";
        drop("medium");
        break;
    case 2:
        what = "no cuts";
        drop("cuts");
        break;
    case 3: {
        json q { { "e_cut", 500. }, { "v_cut", 0.05 }, { "cont_rand", false } };
        auto n = c.pick<std::string>({ "e_cut", "v_cut", "cont_rand" });
        what = "cuts: " + n;
        if (c.flag())
            q.erase(n);
        else
            q[n] = n == "cont_rand" ? c.pick<json>({ json("true"), json::object() }) : c.pick<json>({ json("500"), json(0.), json(-1.), json::array({ 1. }) });
        set("cuts", q);
        break;
    }
    case 4:
        what = "geometries";
        switch (c.i(0, 2)) {
        case 0: sec.erase("geometries"); break;
        case 1: sec["geometries"] = json::array(); break;
        default: sec["geometries"] = json(sec["geometries"][0]);
        }
        break;
    case 5: {
        auto& g = sec["geometries"][c.i(0, sec["geometries"].size() - 1)];
        std::vector<std::string> names;
        for (auto& e : g.items())
            if (e.key() != "inner_radius" && e.key() != "hierarchy")
                names.push_back(e.key());
        auto n = c.pick(names);
        what = "geometry: " + n;
        if (n == "shape" && c.flag())
            g[n] = unknown("sphere");
        else
            g.erase(n);
        break;
    }
    case 6:
        what = "medium";
        set("medium", c.flag(1, 4) ? word() : json(unknown("Water")));
        break;
    case 7: {
        auto it = key_of.begin();
        std::advance(it, c.i(0, key_of.size() - 1));
        std::string n = it->second;
        what = "cross section: " + n;
        json q = json::object();
        switch (c.i(0, 2)) {
        case 0: q["parametrization"] = unknown("Rhode"); break;
        case 1: q["parametrization"] = n == "ioniz" ? "KleinNishina" : "BetheBlochRossi"; break; // of another one
        default: q["multiplier"] = 1.; // none
        }
        set("CrossSections", json { { n, q } });
        break;
    }
    case 8:
        what = "cross section: options";
        def = std::make_shared<MuMinusDef>();
        switch (c.i(0, 3)) {
        case 0: set("CrossSections", { { "photo", { { "parametrization", "AbtFT" }, { "shadow", unknown("ButkevichMikheyev") } } } }); break;
        case 1: set("CrossSections", { { "brems", { { "parametrization", "PetrukhinShestakov" }, { "lpm", word() } } } }); break;
        case 2: set("CrossSections", { { "photo", { { "parametrization", "Rhode" }, { "hard_component", word() } } } }); break;
        default: set("CrossSections", { { "ioniz", "BetheBlochRossi" } });
        }
        break;
    case 9: {
        what = "scattering";
        json q = json::object();
        switch (c.i(0, 4)) {
        case 0: q["multiple_scattering"] = unknown("Highland"); break;
        case 1: q["stochastic_deflection"] = json::array({ c.flag() ? unknown("IonizNaive") : "Default" + unknown("Brems") }); break;
        case 2: q["stochastic_deflection"] = json::array({ c.pick<std::string>({ "DefaultMuPair", "DefaultWeakInt", "Brems" }) }); break;
        case 3: q["stochastic_deflection_multiplier"] = { { unknown("Brems"), 2. } }; break;
        default: q["multiple_scattering_multiplier"] = word();
        }
        set("scattering", q);
        if (def->particle_type == 22)
            def = std::make_shared<EMinusDef>(), set("CrossSections", { { "ioniz", { { "parametrization", "BergerSeltzerMoller" } } } });
        break;
    }
    case 10: {
        auto d = c.pick<json>({ json { { "type", "homogeneous" }, { "mass_density", 1. } }, json { { "type", "exponential" }, { "mass_density", 1. }, { "axis_type", "radial" }, { "fp0", { 0, 0, 0 } }, { "sigma", -1e5 } }, json { { "type", "polynomial" }, { "mass_density", 1. }, { "axis_type", "cartesian" }, { "fp0", { 0, 0, 0 } }, { "fAxis", { 0, 0, 1 } }, { "coefficients", { 1., 0. } } }, json { { "type", "spline" }, { "spline_type", "linear" }, { "mass_density", 1. }, { "axis_type", "radial" }, { "fp0", { 0, 0, 0 } }, { "x", { 0., 1., 2. } }, { "y", { 1., 1., 1. } } } });
        std::vector<std::string> names;
        for (auto& e : d.items())
            if (e.key() != "sigma")
                names.push_back(e.key());
        auto n = c.pick(names);
        what = "density: " + n;
        if (d[n].is_string() && c.flag())
            d[n] = unknown(d[n].get<std::string>());
        else
            d.erase(n);
        sec["density_distribution"] = d;
        break;
    }
    case 11: {
        auto n = c.pick({ "do_interpolation", "exact_time" });
        what = n;
        set(n, word());
        break;
    }
    case 12: // no standard cross sections
        what = "particle";
        def = c.flag() ? std::shared_ptr<ParticleDef>(std::make_shared<ParticleDef>(xs::heavy(1e4, 1))) : std::make_shared<StauMinusDef>();
        drop("CrossSections");
        break;
    case 13:
        what = "no file";
        from_file = true;
        file = c.pick<std::string>({ "", "/nonexistent/config.json", "config" });
        break;
    case 14: {
        what = "no json";
        auto t = j.dump();
        File f(c.flag() ? t.substr(0, (size_t)c.i(0, t.size() - 1)) : "{" + t);
        THROWS(c, Propagator(*def, f.name), "a file that is no json");
        c.nontrivial();
        return;
    }
    default:
        what = "sector";
        j["sectors"][i] = c.pick<json>({ json::object(), json(3), json("sector"), json(nullptr), json::array() });
        if (global) {
            for (auto n : { "medium", "cuts" })
                if (c.flag())
                    j["global"].erase(n);
        }
    }
    c.label(what.substr(0, what.find(':')));
    c.note("%s: %s", what.c_str(), from_file ? file.c_str() : j.dump().c_str());
    if (from_file)
        THROWS(c, Propagator(*def, file), what.c_str());
    else
        THROWS(c, Propagator(*def, j), what.c_str());
    c.nontrivial();
}
