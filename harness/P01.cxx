// P01: derived quantities, catalogues and registries of media, components
// and particles
#include "common.h"
#include "PROPOSAL/decay/StableChannel.h"
#include "PROPOSAL/decay/TwoBodyPhaseSpace.h"
#include "PROPOSAL/medium/Components.h"
#include "PROPOSAL/medium/Medium.h"
#include "PROPOSAL/medium/MediumFactory.h"
#include "PROPOSAL/particle/ParticleDef.h"

const char* pbt::property_id = "P01";
typedef long double ld;

struct Elem {
    double Z, A, n;
};
static Elem gen_elem(Ctx& c)
{
    static const Elem known[] = { { 1, 1.00794, 1 }, { 1, 1.00794, 2 }, { 6, 12.0011, 1 }, { 7, 14.0067, 1 }, { 8, 15.9994, 1 }, { 11, 22, 1 }, { 18, 39.948, 1 }, { 26, 55.845, 1 }, { 82, 207.2, 1 }, { 92, 238.0289, 1 } };
    Elem e;
    if (c.flag(1, 3)) {
        e = known[c.i(0, 9)];
        if (c.flag())
            e.n = c.logu(1e-4, 30);
        return e;
    }
    e.Z = double(c.i(1, 100));
    e.A = e.Z == 1 ? c.pick({ 1.00794, 2.014, 1. }) : e.Z * c.plain(1.9, 2.7);
    if (c.flag(1, 10)) // mean values
        e.Z += c.plain(-0.4, 0.4);
    if (e.Z < 1)
        e.Z = 1;
    e.n = c.flag() ? double(c.i(1, 12)) : c.logu(1e-4, 30);
    return e;
}
static std::string gen_name(Ctx& c) { return c.pick<std::string>({ "a", "b", "Xx", "O", "" }); }

// radiation logarithms of Kelner, Kokoulin and Petrukhin
static double log_constant(double Z)
{
    static const std::map<int, double> t { { 1, 202.4 }, { 2, 151.9 }, { 3, 159.9 }, { 4, 172.3 }, { 5, 177.9 }, { 6, 178.3 }, { 7, 176.6 }, { 8, 173.4 }, { 9, 170.0 }, { 10, 165.8 }, { 11, 165.8 }, { 12, 167.1 }, { 13, 169.1 }, { 14, 170.8 }, { 15, 172.2 }, { 16, 173.4 }, { 17, 174.3 }, { 18, 174.8 }, { 19, 175.1 }, { 20, 175.6 }, { 21, 176.2 }, { 22, 176.8 }, { 26, 175.8 }, { 29, 173.1 }, { 32, 173.0 }, { 35, 173.5 }, { 42, 175.9 }, { 50, 177.4 }, { 53, 178.6 }, { 74, 177.6 }, { 82, 178.0 }, { 92, 179.8 } };
    auto i = t.find(int(std::lround(Z)));
    return i == t.end() ? 182.7 : i->second;
}
static double wood_saxon(double Z, double A)
{
    if (Z == 1)
        return 0;
    double r0 = std::cbrt(A);
    r0 = 1.12 * r0 - 0.86 / r0;
    double I = quad([&](double t) { double r = r0 + t; return r * r / (1 + std::exp(t / 0.54)); }, 0, 40, 1e-10);
    return 1 - 4 * PI * 0.17 * I / A;
}

LAW(component, 80000, 1000, "element other than hydrogen")
{
    auto e = gen_elem(c);
    auto name = gen_name(c);
    c.note("component %s Z %.17g A %.17g n %.17g", name.c_str(), e.Z, e.A, e.n);
    Component k(name, e.Z, e.A, e.n);
    if (e.Z != 1)
        c.nontrivial();
    c.check(k.GetName() == name && k.GetNucCharge() == e.Z && k.GetAtomicNum() == e.A && k.GetAtomInMolecule() == e.n, "given quantities are kept");
    c.close(k.GetAverageNucleonWeight(), (e.Z * 938.272 + (e.A - e.Z) * 939.565) / e.A, 1e-6, 0, "average nucleon weight");
    if (std::abs(e.Z - std::floor(e.Z) - 0.5) > 1e-9)
        c.check(k.GetLogConstant() == log_constant(e.Z), "radiation logarithm %g", k.GetLogConstant());
    c.check(k.GetBPrime() == (std::lround(e.Z) == 1 ? 446 : 1429), "inelastic radiation logarithm %g", k.GetBPrime());
    if (c.flag(1, 4))
        c.close(k.GetWoodSaxon(), wood_saxon(e.Z, e.A), 0, 1e-6, "Woods-Saxon factor");
    // the number in the molecule does not change the nucleus
    Component m(name, e.Z, e.A, e.n + 1);
    c.check(m.GetAverageNucleonWeight() == k.GetAverageNucleonWeight() && m.GetWoodSaxon() == k.GetWoodSaxon() && m.GetLogConstant() == k.GetLogConstant(), "nucleus depends on the molecule");
}

LAW(component_identity, 160000, 2000, "differs in one quantity")
{
    auto e = gen_elem(c), f = e;
    auto name = gen_name(c), name2 = name;
    int which = int(c.i(0, 4));
    double x = c.flag(1, 3) ? 1 + 4e-16 : c.flag() ? 1 + 1e-9 : c.plain(1.01, 1.5);
    switch (which) {
    case 0: f.Z *= x; break;
    case 1: f.A *= x; break;
    case 2: f.n *= x; break;
    case 3: name2 += "'"; break;
    default: break;
    }
    Component a(name, e.Z, e.A, e.n), b(name2, f.Z, f.A, f.n);
    c.note("%s %.17g %.17g %.17g and %s %.17g %.17g %.17g", name.c_str(), e.Z, e.A, e.n, name2.c_str(), f.Z, f.A, f.n);
    bool numbers = e.Z == f.Z && e.A == f.A && e.n == f.n;
    if (which < 4)
        c.nontrivial();
    c.check((a == b) == (numbers && name == name2) && (a != b) == !(a == b), "comparison of components");
    c.check((a.GetHash() == b.GetHash()) == numbers, "hashes of components");
    for (auto* p : { &a, &b }) {
        Component q = Component::GetComponentForHash(p->GetHash());
        c.check(q.GetNucCharge() == p->GetNucCharge() && q.GetAtomicNum() == p->GetAtomicNum() && q.GetAtomInMolecule() == p->GetAtomInMolecule() && q.GetHash() == p->GetHash(), "component found by hash differs");
        Component cp(*p), as;
        as = *p;
        c.check(cp == *p && as == *p && cp.GetHash() == p->GetHash(), "copied component differs");
    }
    THROWS(c, Component::GetComponentForHash(a.GetHash() ^ (c.draw(1000) + 1) * 0x10001), "unknown component hash");
}

static double x0_inv(int Z, double A)
{
    // Tsai, Rev. Mod. Phys. 46
    ld a2 = powl(Z / 137.035999L, 2);
    ld f = a2 * (1 / (1 + a2) + 0.20206L - 0.0369L * a2 + 0.0083L * a2 * a2 - 0.002L * a2 * a2 * a2);
    static const ld L[] = { 0, 5.31L, 4.79L, 4.74L, 4.71L }, M[] = { 0, 6.144L, 5.621L, 5.805L, 5.924L };
    ld l = Z > 4 ? logl(184.15L / cbrtl(Z)) : L[Z], m = Z > 4 ? logl(1194 / cbrtl(ld(Z) * Z)) : M[Z];
    return double((Z * Z * (l - f) + Z * m) / (716.408L * A));
}
struct Med {
    std::string name;
    double p[8];
    std::vector<Elem> e;
    Medium make() const
    {
        std::vector<Component> k;
        for (auto& x : e)
            k.emplace_back("c", x.Z, x.A, x.n);
        return Medium(name, p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], k);
    }
};
static Med gen_med(Ctx& c)
{
    Med m;
    m.name = gen_name(c);
    m.p[0] = c.logu(19, 900);
    m.p[1] = -c.plain(2, 12);
    m.p[2] = c.plain(0.05, 0.4);
    m.p[3] = c.plain(2.5, 6);
    m.p[4] = c.plain(0, 2);
    m.p[5] = c.plain(2, 5);
    m.p[6] = c.flag() ? 0 : c.plain(0, 0.2);
    m.p[7] = c.logu(1e-5, 25);
    int n = int(c.i(1, 6));
    for (int i = 0; i < n; ++i)
        m.e.push_back(gen_elem(c));
    return m;
}

LAW(medium, 100000, 1000, "at least two components")
{
    auto m = gen_med(c);
    Medium q = m.make();
    if (m.e.size() > 1)
        c.nontrivial();
    ld Z = 0, A = 0, W = 0, X = 0;
    bool integer = true;
    for (auto& e : m.e) {
        Z += (ld)e.n * e.Z;
        A += (ld)e.n * e.A;
        W += (ld)e.n * ((ld)e.Z * 938.272L + ((ld)e.A - e.Z) * 939.565L);
        integer &= e.Z == std::floor(e.Z);
        if (integer)
            X += (ld)e.n * e.A * x0_inv(int(e.Z), e.A);
        c.note("Z %.17g A %.17g n %.17g", e.Z, e.A, e.n);
    }
    c.check(q.GetNumComponents() == int(m.e.size()) && q.GetComponents().size() == m.e.size(), "number of components");
    double given[8] { q.GetI(), q.GetC(), q.GetA(), q.GetM(), q.GetX0(), q.GetX1(), q.GetD0(), q.GetMassDensity() };
    for (int i = 0; i < 8; ++i)
        c.check(given[i] == m.p[i], "given constant %d is %.17g", i, given[i]);
    c.close(q.GetSumCharge(), Z, 1e-13, 0, "sum of charges");
    c.close(q.GetSumNucleons(), A, 1e-13, 0, "sum of nucleons");
    c.close(q.GetZA(), Z / A, 1e-13, 0, "Z/A");
    c.close(q.GetMolDensity(), m.p[7] * 6.02214e23L / A, 2e-6, 0, "molecule density");
    c.close(q.GetMM(), W / A, 1e-6, 0, "average nucleon weight");
    if (integer)
        c.close(q.GetRadiationLength(), A / X, 2e-5, 0, "radiation length");
    // twice the molecule is the same substance
    auto d = m;
    double f = c.pick({ 2., 0.5, 4. });
    for (auto& e : d.e)
        e.n *= f;
    Medium r = d.make();
    c.close(r.GetZA(), q.GetZA(), 1e-13, 0, "Z/A of the doubled molecule");
    c.close(r.GetRadiationLength(), q.GetRadiationLength(), 1e-12, 0, "radiation length of the doubled molecule");
    c.close(r.GetMM(), q.GetMM(), 1e-13, 0, "nucleon weight of the doubled molecule");
    c.close(r.GetMolDensity() * f, q.GetMolDensity(), 1e-12, 0, "density of the doubled molecule");
    // the order of the components does not matter
    auto v = m;
    std::rotate(v.e.begin(), v.e.begin() + long(c.i(0, long(v.e.size()) - 1)), v.e.end());
    Medium s = v.make();
    c.close(s.GetRadiationLength(), q.GetRadiationLength(), 1e-12, 0, "radiation length for another order of components");
    c.close(s.GetSumCharge(), q.GetSumCharge(), 1e-12, 0, "charge for another order of components");
    double total = 0;
    for (auto& k : q.GetComponents())
        total += k.GetAtomInMolecule() * k.GetAtomicNum() / q.GetSumNucleons();
    c.close(total, 1, 1e-12, 0, "sum of the mass fractions");
    c.close(calculate_proton_massnumber_fraction(q.GetComponents()), Z / A, 1e-13, 0, "proton fraction of the components");
}

LAW(medium_identity, 120000, 1000, "differs in one quantity")
{
    auto m = gen_med(c), n = m;
    int which = int(c.i(0, 12));
    double x = c.flag(1, 3) ? 1 + 4e-16 : c.flag() ? 1 + 1e-9 : c.plain(1.01, 1.5);
    if (which < 8) {
        n.p[which] = m.p[which] == 0 ? x - 1 : m.p[which] * x;
        c.require(n.p[which] != m.p[which]);
    } else if (which == 8)
        n.name += "'";
    else if (which == 9)
        n.e.push_back(gen_elem(c));
    else if (which < 12) {
        auto& e = n.e[size_t(c.i(0, long(n.e.size()) - 1))];
        (which == 10 ? e.n : e.A) *= x;
    }
    c.note("change %d by %.17g, I %.17g density %.17g, %zu components, Z %.17g A %.17g n %.17g", which, x, m.p[0], m.p[7], m.e.size(), m.e[0].Z, m.e[0].A, m.e[0].n);
    Medium a = m.make(), b = n.make();
    bool numbers = which == 8 || which == 12;
    if (which < 12)
        c.nontrivial();
    c.check((a == b) == (which == 12) && (b == a) == (a == b) && (a != b) == !(a == b), "comparison of media");
    c.check((a.GetHash() == b.GetHash()) == numbers, "hashes of media");
    for (auto* p : { &a, &b }) {
        Medium q = Medium::GetMediumForHash(p->GetHash());
        c.check(q.GetHash() == p->GetHash() && q.GetI() == p->GetI() && q.GetMassDensity() == p->GetMassDensity() && q.GetComponents().size() == p->GetComponents().size(), "medium found by hash differs");
        if (q.GetName() == p->GetName())
            c.check(q == *p, "medium found by hash is not equal");
        Medium cp(*p), as;
        as = *p;
        c.check(cp == *p && as == *p && cp.GetHash() == p->GetHash(), "copied medium differs");
    }
    THROWS(c, Medium::GetMediumForHash(a.GetHash() ^ (c.draw(1000) + 1) * 0x10001), "unknown medium hash");
}

LAW(medium_catalogue, 16000, 500, "name with changed case")
{
    size_t id = size_t(c.i(0, long(Medium_Name.size()) - 1));
    std::string n = Medium_Name[id];
    bool changed = false;
    for (auto& x : n)
        if (c.flag(1, 3)) {
            x = char(toupper(x));
            changed = true;
        }
    c.note("%s", n.c_str());
    if (changed)
        c.nontrivial();
    auto a = CreateMedium(n), b = CreateMedium(Medium_Name[id]), t = CreateMedium(static_cast<Medium_Type>(id));
    c.check(*a == *b && *a == *t, "medium found by name and by type differ");
    c.check(Medium::GetMediumForHash(a->GetHash()).GetHash() == a->GetHash(), "catalogue medium not registered");
    // names of the objects lead back to them
    auto again = CreateMedium(a->GetName());
    static const std::map<std::string, std::string> variant { { "waterpdg2001", "water" }, { "icepdg2001", "ice" } };
    if (!variant.count(Medium_Name[id]))
        c.check(*again == *a, "medium %s is called %s", Medium_Name[id].c_str(), a->GetName().c_str());
    else
        c.check(a->GetName() == variant.at(Medium_Name[id]), "medium %s is called %s", Medium_Name[id].c_str(), a->GetName().c_str());
    for (size_t o = 0; o < Medium_Name.size(); ++o)
        if (o != id) {
            auto k = CreateMedium(Medium_Name[o]);
            auto s = [](std::string x) { return x.substr(0, x.find("pdg")) + (x.find("2001") != std::string::npos ? "1" : ""); };
            bool alias = s(Medium_Name[o]) == s(Medium_Name[id]);
            c.check((*k == *a) == alias && (k->GetHash() == a->GetHash()) == alias, "%s and %s", Medium_Name[o].c_str(), Medium_Name[id].c_str());
        }
    c.check(a->GetMassDensity() > 0 && a->GetI() > 10 && a->GetX1() > a->GetX0() && a->GetC() < 0, "constants of %s", n.c_str());
    for (auto& k : a->GetComponents())
        c.check(Component::GetComponentForHash(k.GetHash()) == k, "component of %s not registered", n.c_str());
    auto bad = n;
    bad.insert(size_t(c.i(0, long(n.size()))), 1, c.pick({ '_', 'x', ' ' }));
    THROWS(c, CreateMedium(bad), "unknown name");
}

// --------------------------------------------------------------- particles
static std::vector<ParticleDef> const& builtin()
{
    static std::vector<ParticleDef> v;
    if (v.empty()) {
        v.reserve(40);
#define P(x) v.push_back(x##Def());
        P(EMinus) P(EPlus) P(MuMinus) P(MuPlus) P(TauMinus) P(TauPlus) P(StauMinus) P(StauPlus)
        P(Pi0) P(PiMinus) P(PiPlus) P(K0) P(KMinus) P(KPlus) P(NuE) P(NuEBar) P(NuMu) P(NuMuBar)
        P(NuTau) P(NuTauBar) P(Monopole) P(Gamma) P(SMPMinus) P(SMPPlus)
    }
    return v;
}
static const int TYPES[] = { 11, -11, 13, -13, 15, -15, 1000015, -1000015, 111, -211, 211, 311, -321, 321, 12, -12, 14, -14, 16, -16, 41, 22, -9500, 9500 };

LAW(particle_types, 1600, 1, "every case")
{
    // one process per case: the registry starts empty
    size_t i = size_t(c.i(0, 23));
    int t = TYPES[i];
    c.nontrivial();
    c.note("type %d", t);
    if (c.flag())
        THROWS(c, ParticleDef::GetParticleDefForType(int(c.i(500000, 600000))), "unknown particle type");
    bool first = c.flag();
    if (!first)
        builtin();
    auto p = ParticleDef::GetParticleDefForType(t);
    c.check(p.particle_type == t, "type %d", p.particle_type);
    c.check(p == builtin()[i] && p.GetHash() == builtin()[i].GetHash(), "particle found by type differs from its definition");
    auto copy = p;
    c.check(copy == p && !(copy != p) && copy.GetHash() == p.GetHash(), "copy differs");
    // antiparticle
    if (t != 22 && t != 111 && t != 311 && t != 41) {
        auto a = ParticleDef::GetParticleDefForType(-t);
        c.check(a.mass == p.mass && a.low == p.low && a.lifetime == p.lifetime && a.charge == -p.charge, "antiparticle of %s", p.name.c_str());
        if (p.weak_partner)
            c.check(a.weak_partner == -p.weak_partner, "weak partner of the antiparticle of %s", p.name.c_str());
    }
    if (p.weak_partner) {
        auto w = ParticleDef::GetParticleDefForType(p.weak_partner);
        c.check(w.weak_partner == t, "weak partner of the weak partner of %s", p.name.c_str());
        c.close(std::abs(w.charge - p.charge), 1, 0, 1e-12, "charges of weak partners");
    }
    c.check(p.low >= p.mass, "threshold below the mass");
    for (size_t k = 0; k < 24; ++k)
        if (k != i)
            c.check(builtin()[k] != p, "%s equals %s", builtin()[k].name.c_str(), p.name.c_str());
}

struct Par {
    std::string name;
    double mass, low, life, charge;
    int table, decay, type, weak;
    bool operator==(Par const& o) const
    {
        return name == o.name && mass == o.mass && low == o.low && life == o.life && charge == o.charge && table == o.table && decay == o.decay && type == o.type && weak == o.weak;
    }
    bool physics(Par const& o) const { return mass == o.mass && low == o.low && life == o.life && charge == o.charge && weak == o.weak && table == o.table; }
    HardComponentTables::VecType const& tab() const
    {
        return table == 0 ? HardComponentTables::EmptyTable : table == 1 ? HardComponentTables::MuonTable : HardComponentTables::TauTable;
    }
    DecayTable dec() const
    {
        DecayTable d;
        if (decay == 0)
            d.SetStable();
        else
            d.addChannel(1.0, TwoBodyPhaseSpace(decay == 1 ? (ParticleDef)NuEDef() : (ParticleDef)NuMuDef(), GammaDef()));
        return d;
    }
    ParticleDef make(bool builder) const
    {
        if (!builder)
            return ParticleDef(name, mass, low, life, charge, tab(), dec(), type, weak);
        return ParticleDef::Builder().SetName(name).SetMass(mass).SetLow(low).SetLifetime(life).SetCharge(charge).SetHardComponentTable(tab()).SetDecayTable(dec()).SetParticleType(type).SetWeakPartner(static_cast<ParticleType>(weak)).build();
    }
};

LAW(particle_registry, 80000, 500, "an inconsistent definition was refused")
{
    static int counter = 0;
    int base = 10000000 + 8 * counter++; // types not used by earlier cases
    std::map<int, Par> model;
    auto gen = [&](int type) {
        Par p;
        p.name = gen_name(c);
        p.mass = c.pick({ 1., 100., 105.65 });
        p.low = p.mass * c.pick({ 1., 1.5 });
        p.life = c.pick({ -1., 1e-6 });
        p.charge = c.pick({ -1., 0., 1., 2. });
        p.table = int(c.i(0, 2));
        p.decay = int(c.i(0, 2));
        p.type = type;
        p.weak = c.pick({ 0, 12, -14 });
        return p;
    };
    int n = int(c.i(1, 12));
    bool refused = false;
    for (int i = 0; i < n; ++i) {
        int type = base + int(c.i(0, 3));
        auto it = model.find(type);
        if (c.flag(1, 4)) {
            bool found = true;
            try {
                auto p = ParticleDef::GetParticleDefForType(type);
                c.check(it != model.end(), "type never registered is found");
                c.check(p == it->second.make(false), "particle found by type is not the registered one");
            } catch (std::invalid_argument const&) {
                found = false;
            }
            c.check(found == (it != model.end()), "registered type is not found");
            continue;
        }
        Par p = gen(type);
        if (it != model.end() && c.flag()) { // one quantity differs, or none
            Par q = it->second;
            switch (c.i(0, 8)) {
            case 0: q.name = p.name; break;
            case 1: q.mass = p.mass; break;
            case 2: q.low = p.low; break;
            case 3: q.life = p.life; break;
            case 4: q.charge = p.charge; break;
            case 5: q.table = p.table; break;
            case 6: q.decay = p.decay; break;
            case 7: q.weak = p.weak; break;
            default: break;
            }
            q.low = std::max(q.low, q.mass);
            p = q;
        }
        bool ok = it == model.end() || it->second == p, done = true;
        bool builder = c.flag();
        c.note("define %d: %s %g %g %g %g table %d decay %d weak %d", type - base, p.name.c_str(), p.mass, p.low, p.life, p.charge, p.table, p.decay, p.weak);
        try {
            auto d = p.make(builder);
            c.check(d.name == p.name && d.mass == p.mass && d.low == p.low && d.lifetime == p.life && d.charge == p.charge && d.particle_type == type && d.weak_partner == p.weak && d.hard_component_table == p.tab(), "definition does not keep its values");
            ParticleDef cp(d);
            c.check(cp == d && cp.GetHash() == d.GetHash(), "copied definition differs");
            for (auto& m : model) {
                auto o = ParticleDef::GetParticleDefForType(m.first);
                if (m.first != type) {
                    c.check(o != d, "particles of different type are equal");
                    c.check(m.second.physics(p) || o.GetHash() != d.GetHash(), "different particles have the same hash");
                }
            }
        } catch (std::invalid_argument const&) {
            done = false;
        }
        c.check(done == ok, done ? "inconsistent definition is accepted" : "consistent definition is refused");
        refused |= !ok;
        if (it == model.end())
            model[type] = p;
    }
    // built-in types cannot be redefined either
    if (c.flag(1, 4)) {
        auto p = gen(TYPES[c.i(0, 23)]);
        THROWS(c, p.make(c.flag()), "built-in particle redefined");
    }
    if (refused)
        c.nontrivial();
}

// ------------------------------------------------- constants of the catalogues
struct MediumData {
    std::string name;
    double p[8];
    struct Comp {
        std::string name;
        double Z, A, n;
    };
    std::vector<Comp> e;
};
struct ParticleData {
    int type;
    double mass, low, life, charge;
    int weak;
    std::vector<std::vector<double>> table;
};
#include "catalogue.h"
LAW(medium_constants, 16000, 500, "always")
{
    auto& d = media[size_t(c.i(0, long(media.size()) - 1))];
    // (one is not in the catalogue of names)
    auto m = d.name == "calciumcarbonate" ? std::make_shared<Medium>(CalciumCarbonate()) : CreateMedium(d.name);
    c.note("%s", d.name.c_str());
    const char* what[] = { "I", "C", "a", "m", "X0", "X1", "d0", "density" };
    double is[] = { m->GetI(), m->GetC(), m->GetA(), m->GetM(), m->GetX0(), m->GetX1(), m->GetD0(), m->GetMassDensity() };
    for (int i = 0; i < 8; ++i)
        c.close(is[i], d.p[i], 1e-9, 1e-12, "%s of %s", what[i], d.name.c_str());
    // the density correction is continuous at X0
    double x0 = m->GetX0(), X = m->GetX1() - x0;
    if (d.name != "frejusrock")
        c.close(2 * std::log(10.) * x0 + m->GetC() + m->GetA() * std::pow(X, m->GetM()), m->GetD0(), 0, 2e-3, "density correction of %s at X0", d.name.c_str());
    auto e = m->GetComponents();
    c.check(e.size() == d.e.size(), "%zu components of %s instead of %zu", e.size(), d.name.c_str(), d.e.size());
    for (auto& w : d.e) {
        bool found = false;
        for (auto& k : e)
            found = found || (k.GetName() == w.name && std::fabs(k.GetNucCharge() - w.Z) < 1e-9 * w.Z && std::fabs(k.GetAtomicNum() - w.A) < 1e-9 * w.A && std::fabs(k.GetAtomInMolecule() - w.n) < 1e-9 * w.n);
        c.check(found, "%s contains no %.9g atoms of %s with Z %.9g A %.9g", d.name.c_str(), w.n, w.name.c_str(), w.Z, w.A);
    }
    c.nontrivial();
}
LAW(particle_constants, 16000, 500, "the particle is massive")
{
    size_t i = size_t(c.i(0, long(particles.size()) - 1));
    auto& d = particles[i];
    auto& p = builtin()[i];
    c.note("%s", p.name.c_str());
    c.check(p.particle_type == d.type && p.weak_partner == d.weak, "type %d, weak partner %d", p.particle_type, p.weak_partner);
    c.close(p.mass, d.mass, 1e-9, 0, "mass of %s", p.name.c_str());
    c.close(p.low, d.low, 1e-9, 0, "lowest energy of %s", p.name.c_str());
    c.check(p.lifetime == d.life || std::fabs(p.lifetime - d.life) <= 1e-9 * std::fabs(d.life), "lifetime of %s is %.17g instead of %.17g", p.name.c_str(), p.lifetime, d.life);
    c.close(p.charge, d.charge, 1e-9, 0, "charge of %s", p.name.c_str());
    auto& t = p.hard_component_table;
    c.check(t.size() == d.table.size(), "hard component of %s", p.name.c_str());
    for (size_t a = 0; a < t.size(); ++a) {
        c.check(t[a].size() == d.table[a].size(), "hard component of %s", p.name.c_str());
        for (size_t b = 0; b < t[a].size(); ++b)
            c.close(t[a][b], d.table[a][b], 1e-9, 0, "hard component of %s, %zu, %zu", p.name.c_str(), a, b);
    }
    if (d.mass > 0)
        c.nontrivial();
}
LAW(constants, 8000, 500, "always")
{
    using namespace PROPOSAL;
    // values of the CODATA and of the particle data group
    struct K {
        const char* name;
        double is, want, tol;
    };
    const std::vector<K> k {
        { "pi", PI, 3.14159265358979324, 1e-15 }, { "log 10", LOG10, 2.30258509299404568, 1e-15 }, { "sqrt 2", SQRT2, 1.41421356237309505, 1e-15 }, { "sqrt 3", SQRT3, 1.73205080756887729, 1e-15 }, { "sqrt e", SQRTE, 1.64872127070012815, 1e-15 },
        { "zeta 3", ZETA3, 1.20205690315959429, 1e-14 }, { "Euler-Mascheroni", EULER_MASCHERONI, 0.577215664901532861, 1e-15 },
        { "fine structure", ALPHA, 1 / 137.035999, 1e-7 }, { "Rydberg energy", RY, 13.605693, 1e-6 }, { "Avogadro", NA, 6.02214076e23, 1e-6 }, { "speed of light", SPEED, 2.99792458e10, 1e-14 },
        { "hbar", HBAR, 6.582119569e-22, 1e-6 }, { "electron mass", ME, 0.51099895, 1e-6 }, { "proton mass", MP, 938.272088, 1e-6 }, { "neutron mass", MN, 939.565421, 1e-6 }, { "muon mass", MMU, 105.6583755, 1e-6 }, { "tau mass", MTAU, 1776.86, 2e-4 }, { "pion mass", MPI, 139.57039, 1e-5 },
        { "electron radius", RE, ALPHA * HBAR * SPEED / ME, 1e-5 }, { "ionization constant", IONK, 4 * PI * NA * RE * RE * ME, 1e-5 },
    };
    auto& q = k[size_t(c.i(0, long(k.size()) - 1))];
    c.note("%s", q.name);
    c.close(q.is, q.want, q.tol, 0, "%s", q.name);
    c.nontrivial();
}
