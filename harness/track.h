// generated worlds for the propagator: nested and overlapping sectors with
// closed-form losses, rates and densities
#pragma once
#include "dens.h"
#include "fake.h"
#include "geo.h"
#include "PROPOSAL/Propagator.h"
#include "PROPOSAL/decay/DecayTable.h"
#include "PROPOSAL/decay/TwoBodyPhaseSpace.h"
#include "PROPOSAL/Secondaries.h"
#include "PROPOSAL/math/RandomGenerator.h"
#include "PROPOSAL/propagation_utility/ContRandBuilder.h"
#include "PROPOSAL/propagation_utility/DecayBuilder.h"
#include "PROPOSAL/propagation_utility/DisplacementBuilder.h"
#include "PROPOSAL/propagation_utility/InteractionBuilder.h"
#include "PROPOSAL/propagation_utility/PropagationUtility.h"
#include "PROPOSAL/propagation_utility/TimeBuilder.h"
#include "PROPOSAL/scattering/Scattering.h"

namespace track {
using namespace PROPOSAL;
static const double C = 2.99792458e10; // cm/s
static const double RES = 1e-3;        // documented resolution of positions, cm

// one interaction of one sector: rate per target, the loss fraction is uniform
struct Cross : CrossSectionBase {
    double a, b, lower, s = 0;
    std::vector<double> rate;
    size_t base;
    InteractionType type;
    std::shared_ptr<const EnergyCutSettings> cut = std::make_shared<EnergyCutSettings>(500., 0.05, true);
    double CalculatedEdx(double E) override { return a + b * E; }
    double CalculatedE2dx(double E) override { return s * E * E; }
    double total() const { double x = 0; for (double r : rate) x += r; return x; }
    double CalculatedNdx(double) override { return total(); }
    double CalculatedNdx(double, size_t h) override { return rate[h - base]; }
    double CalculateCumulativeCrosssection(double, size_t h, double v) override { return rate[h - base] * (1 - v); }
    std::vector<std::pair<size_t, double>> CalculatedNdx_PerTarget(double) override
    {
        std::vector<std::pair<size_t, double>> r;
        for (size_t i = 0; i < rate.size(); ++i)
            r.push_back({ base + i, rate[i] });
        return r;
    }
    double CalculateStochasticLoss(size_t h, double E, double x) override { return std::max(0., 1 - lower / E) * x / rate[h - base]; }
    double GetLowerEnergyLim() const override { return lower; }
    size_t GetHash() const noexcept override
    {
        size_t h = 78;
        hash_combine(h, a, b, lower, s, base);
        for (double r : rate)
            hash_combine(h, r);
        return h;
    }
    InteractionType GetInteractionType() const noexcept override { return type; }
    std::string GetParametrizationName() const noexcept override { return "track"; }
    std::shared_ptr<const EnergyCutSettings> GetEnergyCutSettings() const noexcept override { return cut; }
};

// scattering of a chosen strength: the offsets follow from the random numbers
struct Scatter : multiple_scattering::Parametrization {
    double k;
    Scatter(double k_) : Parametrization(1.), k(k_) { }
    std::unique_ptr<multiple_scattering::Parametrization> clone() const override { return std::make_unique<Scatter>(*this); }
    bool compare(multiple_scattering::Parametrization const& o) const override { return static_cast<Scatter const&>(o).k == k; }
    void print(std::ostream&) const override { }
    multiple_scattering::ScatteringOffset CalculateRandomAngle(double X, double, double, const std::array<double, 4>& r) override
    {
        multiple_scattering::ScatteringOffset o;
        double w = std::min(0.5, k * std::sqrt(X));
        o.sx = w * (r[0] - 0.5) + 0.5 * w * (r[2] - 0.5);
        o.sy = w * (r[1] - 0.5) + 0.5 * w * (r[3] - 0.5);
        o.tx = 1.2 * w * (r[0] - 0.5);
        o.ty = 1.2 * w * (r[1] - 0.5);
        return o;
    }
    double CalculateScatteringAngle(double, double, double, double) override { return 0; }
    double CalculateScatteringAngle2D(double, double, double, double, double) override { return 0; }
};

struct Sec {
    geo::Body body;
    unsigned hierarchy;
    std::vector<std::shared_ptr<Cross>> cross;
    dens::Spec dens;
    double lower;
    PropagationUtility::Collection col;
    double a() const { double x = 0; for (auto& k : cross) x += k->a; return x; }
    double b() const { double x = 0; for (auto& k : cross) x += k->b; return x; }
    double rate() const { double x = 0; for (auto& k : cross) x += k->total(); return x; }
    std::shared_ptr<Geometry> geom() const
    {
        auto g = body.make();
        g->SetHierarchy(hierarchy);
        return g;
    }
    // energy after X g/cm^2
    double after(double E, double X) const
    {
        double A = a(), B = b();
        if (B == 0)
            return E - A * X;
        return E * std::exp(-B * X) + A / B * std::expm1(-B * X);
    }
    double range(double E, double Ef) const
    {
        double A = a(), B = b();
        return B == 0 ? (E - Ef) / A : A == 0 ? std::log(E / Ef) / B : std::log((A + B * E) / (A + B * Ef)) / B;
    }
    std::string show() const
    {
        std::string x = strf("[hierarchy %u ", hierarchy) + body.show() + strf(" dE/dx %.6g + %.6g E lower %.6g ", a(), b(), lower);
        for (auto& k : cross) {
            x += "rates";
            for (double r : k->rate)
                x += strf(" %.4g", r);
            x += "; ";
        }
        return x + dens.show() + "]";
    }
};
struct Options {
    bool decay = true, cont = true, scatter = true, inhomogeneous = false, approximate = true, polynomial = false, products = false;
    int sectors = 4;
    double rates = 20, maxL = INF;
};
struct World {
    double mass, lifetime, E0, L; // L: typical length, cm
    double strength = 0;          // of the scattering
    bool approximate = false, cont = false;
    std::shared_ptr<ParticleDef> p;
    std::vector<Sec> sec;
    void build(Sec& s) const
    {
        fake::List list(s.cross.begin(), s.cross.end());
        s.col.displacement_calc = make_displacement(list, false);
        s.col.interaction_calc = make_interaction(s.col.displacement_calc, list, false, false);
        if (lifetime > 0)
            s.col.decay_calc = make_decay(s.col.displacement_calc, *p, false);
        if (cont)
            s.col.cont_rand = make_contrand(s.col.displacement_calc, list, false);
        if (approximate)
            s.col.time_calc = std::make_shared<ApproximateTimeBuilder>();
        else
            s.col.time_calc = make_time(s.col.displacement_calc, *p, false);
        if (strength > 0)
            s.col.scattering = std::make_shared<Scattering>(std::unique_ptr<multiple_scattering::Parametrization>(new Scatter(strength)), nullptr);
    }
    // the same world from new objects
    World rebuild() const
    {
        World w = *this;
        w.p = std::make_shared<ParticleDef>(*p);
        for (auto& s : w.sec) {
            for (auto& x : s.cross)
                x = std::make_shared<Cross>(*x);
            s.col = PropagationUtility::Collection();
            w.build(s);
        }
        return w;
    }
    std::vector<Sector> sectors() const
    {
        std::vector<Sector> v;
        for (auto& s : sec)
            v.push_back(Sector(s.geom(), PropagationUtility(s.col), s.dens.make()));
        return v;
    }
    Sec const& sec_world() const { return *std::max_element(sec.begin(), sec.end(), [](Sec const& x, Sec const& y) { return x.body.a < y.body.a; }); }
    Propagator make() const { return Propagator(*p, sectors()); }
    std::string show() const
    {
        std::string x = strf("mass %.17g lifetime %.6g energy %.17g scattering %.3g%s%s sectors:", mass, lifetime, E0, strength, approximate ? " approximate time" : "", cont ? " randomised" : "");
        for (auto& s : sec)
            x += "\n   " + s.show();
        return x;
    }
    // the sector at the point: highest hierarchy, then the one defined first;
    // empty if a border is near
    std::vector<int> at(Cartesian3D const& q, double margin) const
    {
        std::vector<int> r;
        unsigned best = 0;
        for (int i = 0; i < (int)sec.size(); ++i) {
            bool in = sec[i].body.contains(geo::vec(q), margin), sure = sec[i].body.contains(geo::vec(q), -margin);
            if (in != sure)
                return {};
            if (!in || (!r.empty() && sec[i].hierarchy <= best))
                continue;
            best = sec[i].hierarchy;
            r = { i };
        }
        return r;
    }
};
inline World gen_world(Ctx& c, Options const& o)
{
    static int id = 3500000;
    World w;
    w.mass = c.flag(1, 10) ? 0 : c.logu(0.5, 2e3);
    double low = w.mass == 0 ? c.logu(1e-1, 10) : c.flag(1, 3) ? w.mass : w.mass * (1 + c.logu(1e-2, 10));
    w.E0 = low * c.logu(1.5, 1e5);
    double rho0 = c.flag(1, 3) ? 1 : c.logu(1e-2, 1e1);
    double a0 = c.logu(0.1, 10), b0 = c.flag() ? 0 : a0 / w.E0 * c.logu(1e-2, 1e2);
    if (w.E0 / a0 / rho0 < 100)
        a0 = w.E0 / rho0 / 100;
    double X0 = b0 == 0 ? w.E0 / a0 : std::log1p(b0 * w.E0 / a0) / b0;
    w.L = X0 / rho0;
    if (w.L < 100) { // the resolution of borders should be small
        a0 *= w.L / 100;
        b0 *= w.L / 100;
        X0 *= 100 / w.L;
        w.L = 100;
    }
    if (w.L > o.maxL) {
        double f = w.L / o.maxL;
        a0 *= f;
        b0 *= f;
        X0 /= f;
        w.L = o.maxL;
    }
    w.lifetime = -1;
    if (o.decay && w.mass > 0 && c.flag())
        w.lifetime = w.L * c.logu(0.05, 50) * w.mass / (w.E0 * C);
    w.approximate = o.approximate && c.flag(1, 4);
    w.cont = o.cont && c.flag(1, 3);
    if (o.scatter && c.flag())
        w.strength = c.logu(1e-3, 3) / std::sqrt(X0);
    int n = 1 + (int)c.i(0, o.sectors);
    DecayTable table;
    if (o.products)
        table.addChannel(1, TwoBodyPhaseSpace(NuEDef(), NuMuDef()));
    else
        table.SetStable();
    w.p = std::make_shared<ParticleDef>(ParticleDef::Builder().SetDecayTable(table).SetName("probe").SetMass(w.mass).SetLow(low).SetLifetime(w.lifetime < 0 ? INF : w.lifetime).SetCharge(-1).SetParticleType(id++).build());
    static const InteractionType types[] = { InteractionType::Ioniz, InteractionType::Brems, InteractionType::Epair, InteractionType::Photonuclear, InteractionType::MuPair };
    for (int k = 0; k < n; ++k) {
        Sec s;
        if (k == 0) { // the world
            s.body.kind = 0;
            s.body.c = Cartesian3D(0, 0, 0);
            s.body.a = c.flag() ? 1e20 : w.L * 1e3;
            s.body.b = s.body.h = 0;
            s.hierarchy = (unsigned)c.i(0, 1);
        } else {
            s.body = geo::gen_body(c, 100);
            double f = w.L * c.logu(0.02, 2) / s.body.size();
            s.body.a *= f;
            s.body.b *= f;
            s.body.h *= f;
            s.body.c = k > 1 && c.flag(1, 3) ? w.sec[k - 1].body.c : f * s.body.c;
            s.hierarchy = (unsigned)c.i(w.sec[0].hierarchy + (c.flag(1, 8) ? 0 : 1), 5);
        }
        s.dens = dens::Spec {};
        double rho = rho0 * (k == 0 ? 1 : c.logu(0.1, 10));
        s.dens.kind = 0;
        s.dens.rho = rho;
        if (o.inhomogeneous && c.flag()) { // nearly everything happens within this depth
            s.dens.kind = 1;
            s.dens.radial = false;
            s.dens.fp0 = gen_pos(c, w.L);
            s.dens.faxis = gen_dir(c);
            s.dens.d0 = 0;
            s.dens.sigma = w.L * c.logu(1, 100) * (c.flag() ? 1 : -1);
            if (o.polynomial && c.flag()) {
                s.dens.kind = 2;
                s.dens.a = { 1., 0., 1 / (s.dens.sigma * s.dens.sigma) };
            }
        }
        int m = (int)c.i(1, 3);
        double fa = k == 0 ? 1 : c.logu(0.2, 5), fb = k == 0 ? 1 : c.logu(0.2, 5);
        for (int j = 0; j < m; ++j) {
            auto x = std::make_shared<Cross>();
            x->a = a0 * fa / m;
            x->b = b0 * fb / m;
            x->lower = low * (j == 0 ? 1 : c.flag() ? 1 : c.u(1, 1.4));
            x->s = w.cont ? x->a / w.E0 * c.logu(1e-4, 1e-1) : 0;
            x->type = types[(k + j) % 5];
            x->base = 100000 + 1000 * k + 100 * j;
            int t = (int)c.i(0, 2);
            for (int i = 0; i < t; ++i)
                x->rate.push_back(c.flag(1, 8) ? 0. : o.rates * c.logu(1e-2, 1) / X0);
            s.cross.push_back(x);
        }
        s.lower = low;
        w.build(s);
        w.sec.push_back(s);
    }
    // the sectors may be given in any order
    for (int i = n - 1; i > 0; --i)
        std::swap(w.sec[i], w.sec[c.i(0, i)]);
    return w;
}
inline ParticleState gen_start(Ctx& c, World const& w)
{
    ParticleState s;
    s.type = w.p->particle_type;
    s.energy = c.flag(1, 3) ? w.E0 : w.E0 * c.plain(0.3, 1);
    s.energy = std::max(s.energy, w.sec[0].lower);
    s.time = c.flag() ? 0 : c.logu(1e-9, 1);
    s.propagated_distance = c.flag() ? 0 : w.L * c.logu(1e-3, 10);
    auto& k = w.sec[c.i(0, w.sec.size() - 1)].body;
    bool world = k.size() > 100 * w.L;
    Cartesian3D q = world ? gen_pos(c, w.L) : c.flag(1, 3) ? geo::point_in(c, k) : c.flag(1, 6) ? geo::special(c, k) : k.c + (k.size() * c.plain(0.5, 2)) * gen_dir(c);
    auto& t = w.sec[c.i(0, w.sec.size() - 1)].body;
    Cartesian3D d = t.size() > 100 * w.L || c.flag(1, 3) ? gen_dir(c) : geo::towards(c, q, geo::point_in(c, t));
    // motion nearly along a surface is not resolved by the stored position
    Cartesian3D e(std::abs(d.GetX()) < 1e-6 ? 0 : d.GetX(), std::abs(d.GetY()) < 1e-6 ? 0 : d.GetY(), std::abs(d.GetZ()) < 1e-6 ? 0 : d.GetZ());
    e.normalize();
    s.position = q;
    s.direction = e;
    return s;
}
// in homogeneous media
inline double exact_time(World const& w, Sec const& s, double Ei, double Ef)
{
    double m = w.mass, A = s.a(), B = s.b();
    if (!(Ei > Ef))
        return 0;
    if (m == 0)
        return s.range(Ei, Ef) / (C * s.dens.rho);
    auto x = [&](double E) { return std::asinh(std::sqrt((E - m) / (2 * m))); }; // E = m cosh(2x)
    return quad([&](double t) { double sh = std::sinh(t), E = m * (1 + 2 * sh * sh); return E * 2 / (C * s.dens.rho * (A + B * E)); }, x(Ef), x(Ei), 1e-6);
}
// length of the segment inside the body when its surfaces are moved by g
inline double overlap(geo::Body const& k, Cartesian3D const& p, Cartesian3D const& d, double len, double g)
{
    geo::ld s = 0;
    for (auto& i : k.ray(geo::vec(p), geo::vec(d), g)) {
        geo::ld a = std::max<geo::ld>(i.first, 0), b = std::min<geo::ld>(i.second, len);
        if (b > a)
            s += b - a;
    }
    return (double)s;
}
inline std::string show(ParticleState const& s)
{
    return strf("E %.17g t %.17g x %.17g at ", s.energy, s.time, s.propagated_distance) + str(s.position) + " dir " + str(s.direction);
}
inline std::string show(std::vector<ParticleState> const& t, std::vector<InteractionType> const& y, size_t i)
{
    std::string r;
    for (size_t k = i > 1 ? i - 2 : 0; k <= i + 1 && k < t.size(); ++k)
        r += strf("\n   %zu type %d ", k, (int)y[k]) + show(t[k]);
    return r;
}
}
