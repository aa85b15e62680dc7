// K01: decay kinematics
#include "common.h"
#include "PROPOSAL/decay/LeptonicDecayChannel.h"
#include "PROPOSAL/decay/ManyBodyPhaseSpace.h"
#include "PROPOSAL/decay/StableChannel.h"
#include "PROPOSAL/decay/TwoBodyPhaseSpace.h"
#include "PROPOSAL/particle/Particle.h"
#include <algorithm>
#include <memory>
#include <random>

const char* pbt::property_id = "K01";
using V = std::array<long double, 4>; // E, p

static ParticleDef custom(int k)
{
    static const double mass[] = { 0., 1e-4, 0.01, 1., 3.7, 17., 88.8, 105., 139.57, 250., 493.7, 938.27, 1500., 5279., 8e4 };
    return ParticleDef::Builder().SetName(strf("X%d", k)).SetMass(mass[k]).SetParticleType(770000 + k).SetCharge(0).build();
}
static const int n_custom = 15;
static ParticleDef gen_daughter(Ctx& c)
{
    switch (c.i(0, 2)) {
    case 0:
        return custom(int(c.i(0, n_custom - 1)));
    case 1: {
        static const std::vector<int> t { 11, -11, 12, -12, 13, -13, 14, -14, 15, -15, 16, -16, 111, 211, -211, 311, 321, -321, 22 };
        return ParticleDef::GetParticleDefForType(c.pick(t));
    }
    default:
        return c.flag() ? ParticleDef(NuMuDef()) : ParticleDef(MuMinusDef());
    }
}
static ParticleDef parent_of_mass(double m)
{
    // never registered twice with another mass
    static std::map<double, int> types;
    int& t = types[m];
    if (t == 0)
        t = 3000000 + int(types.size());
    return ParticleDef::Builder().SetName("Parent").SetMass(m).SetParticleType(t).build();
}

static long double mom(long double E, long double m) { return sqrtl(std::max((E - m) * (E + m), 0.0L)); }
static V four(ParticleState const& p, long double m)
{
    long double q = mom(p.energy, m);
    return { p.energy, q * p.direction.GetX(), q * p.direction.GetY(), q * p.direction.GetZ() };
}
static V add(V a, V const& b)
{
    for (int i = 0; i < 4; ++i)
        a[i] += b[i];
    return a;
}
static long double inv2(V const& a) { return a[0] * a[0] - a[1] * a[1] - a[2] * a[2] - a[3] * a[3]; }
// into the rest frame of a particle with four-momentum P
static V to_rest(V const& p, V const& P, long double M)
{
    long double pp = p[1] * P[1] + p[2] * P[2] + p[3] * P[3];
    long double E = (p[0] * P[0] - pp) / M;
    long double f = (E + p[0]) / (P[0] + M);
    return { E, p[1] - f * P[1], p[2] - f * P[2], p[3] - f * P[3] };
}

struct Gen {
    std::unique_ptr<DecayChannel> ch;
    std::vector<ParticleDef> d;
    double sum = 0, M = 0;
    int kind = 0;
    bool uniform = true, me = false;
    std::unique_ptr<ParticleDef> parent;
};

static Gen gen_channel(Ctx& c)
{
    Gen g;
    g.kind = int(c.i(0, 4));
    int n = g.kind == 0 ? 2 : g.kind <= 2 ? 3 : int(c.i(2, 6));
    for (int i = 0; i < n; ++i)
        g.d.push_back((g.kind == 1 || g.kind == 2) && i > 0 ? c.pick<ParticleDef>({ NuMuDef(), NuEBarDef(), NuTauDef() }) : gen_daughter(c));
    for (auto& d : g.d)
        g.sum += d.mass;
    // mass of the parent
    static const std::vector<int> t { 13, -13, 15, -15, 111, 211, 311, 321 };
    bool builtin = c.flag(1, 3);
    if (builtin) {
        g.parent.reset(new ParticleDef(ParticleDef::GetParticleDefForType(c.pick(t))));
        g.M = g.parent->mass;
        c.require(g.M > g.sum * (1 + 1e-4)); // closer to threshold, momenta are lost to rounding
    } else {
        double q = c.flag(1, 4) ? c.logu(1e-4, 1) : c.logu(1, 1e4);
        g.M = g.sum > 0 ? g.sum * (1 + (c.flag() ? c.plain(0.05, 5) : q)) : c.logu(0.1, 1e5);
        g.parent.reset(new ParticleDef(parent_of_mass(g.M)));
    }
    if (g.kind == 1 || g.kind == 2)
        c.require(g.d[0].mass > 0);
    switch (g.kind) {
    case 0: g.ch.reset(new TwoBodyPhaseSpace(g.d[0], g.d[1])); break;
    case 1: g.ch.reset(new LeptonicDecayChannelApprox(g.d[0], g.d[1], g.d[2])); break;
    case 2: g.ch.reset(new LeptonicDecayChannel(g.d[0], g.d[1], g.d[2])); break;
    default: {
        ManyBodyPhaseSpace::Builder b;
        for (auto& d : g.d)
            b.addDaughter(d);
        if ((g.me = c.flag(1, 5)))
            b.setMatrixElement([](ParticleState const&, std::vector<ParticleState> const& p) {
                double x = 0;
                for (auto& q : p)
                    x += q.energy;
                return 1 + p[0].energy / x;
            });
        g.ch.reset(new ManyBodyPhaseSpace(b.build()));
        g.uniform = n < 6 && c.flag(3, 4); // rejection gets slow for many products
        g.ch->SetUniformSampling(g.uniform);
    }
    }
    c.note("kind %d M %.17g uniform %d daughters", g.kind, g.M, g.uniform);
    for (auto& d : g.d)
        c.note(" %s(%.10g)", d.name.c_str(), d.mass);
    return g;
}

static void check_products(Ctx& c, Gen const& g, ParticleState const& s, std::vector<ParticleState> const& p)
{
    c.check(p.size() == g.d.size(), "%zu products instead of %zu", p.size(), g.d.size());
    long double E = s.energy, P = mom(E, g.M), px = 0, py = 0, pz = 0, e = 0;
    long double gamma = E / g.M;
    for (size_t i = 0; i < p.size(); ++i) {
        c.check(p[i].type == g.d[i].particle_type, "product %zu has type %d instead of %d", i, p[i].type, g.d[i].particle_type);
        c.check(p[i].position == s.position && p[i].time == s.time, "product %zu is not at the parent's position and time", i);
        c.check(std::isfinite(p[i].energy) && p[i].energy >= g.d[i].mass * (1 - 1e-12), "product %zu has energy %.17g, mass %.17g", i, p[i].energy, g.d[i].mass);
        double len = p[i].direction.magnitude();
        c.check(std::abs(len - 1) < 1e-9, "direction of product %zu has length %.17g", i, len);
        auto f = four(p[i], g.d[i].mass);
        e += f[0], px += f[1], py += f[2], pz += f[3];
        // upper end of the rest frame energy: recoil against the lightest possible rest
        long double rest = g.sum - g.d[i].mass, m = g.d[i].mass;
        long double emax = (g.M * (long double)g.M + m * m - rest * rest) / (2 * g.M), qmax = mom(emax, m);
        long double top = gamma * emax + P / g.M * qmax;
        c.check(p[i].energy <= top * (1 + 1e-9) + 1e-9 * double(E), "product %zu has energy %.17g above the kinematic limit %.17Lg", i, p[i].energy, top);
    }
    // rounding: momenta of slow heavy products are known to sqrt(eps)
    double tol = 1e-9 * double(E), ptol = tol;
    for (size_t i = 0; i < p.size(); ++i)
        ptol += g.d[i].mass * 1e-7 * std::min(1., double(gamma));
    c.check(fabsl(e - E) <= tol, "energies add up to %.17Lg instead of %.17g", e, s.energy);
    c.check(fabsl(px - P * s.direction.GetX()) <= ptol && fabsl(py - P * s.direction.GetY()) <= ptol && fabsl(pz - P * s.direction.GetZ()) <= ptol,
        "momenta add up to (%.12Lg %.12Lg %.12Lg), parent has %.12Lg times %s", px, py, pz, P, str(s.direction).c_str());
}

static ParticleState gen_parent(Ctx& c, Gen const& g, double gmax)
{
    double gamma = c.flag(1, 4) ? 1 : c.flag() ? 1 + c.logu(1e-8, 1) : c.logu(1, gmax);
    ParticleState s(gen_pos(c, 1e6), gen_dir(c), g.M * gamma, c.logu(1e-12, 1e3), c.logu(1, 1e7));
    s.type = g.parent->particle_type;
    c.note(" gamma %.17g dir %s", gamma, str(s.direction).c_str());
    return s;
}

LAW(conservation, 60000, 500, "the parent moves and there are at least three products or two massive ones")
{
    Gen g = gen_channel(c);
    RandomGenerator::Get().SetSeed(int(c.draw(1000000)));
    ParticleState s = gen_parent(c, g, 1e10);
    if (s.energy > g.M && (g.d.size() > 2 || (g.d[0].mass > 0 && g.d[1].mass > 0)))
        c.nontrivial();
    c.label(strf("kind%d", g.kind));
    int n = int(c.i(1, 3));
    for (int i = 0; i < n; ++i) {
        ParticleState before(s);
        auto p = g.ch->Decay(*g.parent, s);
        c.check(before == s, "the parent was changed");
        check_products(c, g, s, p);
    }
    // a clone decays the same way
    std::unique_ptr<DecayChannel> k(g.ch->clone());
    c.check(*k == *g.ch && k->GetName() == g.ch->GetName(), "clone differs");
    RandomGenerator::Get().SetSeed(7);
    auto a = g.ch->Decay(*g.parent, s);
    g.ch.reset();
    RandomGenerator::Get().SetSeed(7);
    auto b = k->Decay(*g.parent, s);
    check_products(c, g, s, b);
    // (the first decay with a matrix element also estimates its maximum)
    c.check(a == b || g.me, "clone decays differently");
    StableChannel st;
    c.check(st.Decay(*g.parent, s).empty(), "stable channel has products");
}

// chosen random numbers, also the extreme ones
LAW(extreme_random, 16000, 250, "a random number below 1e-6 or above 1-1e-6")
{
    Gen g = gen_channel(c);
    c.require(g.kind <= 2);
    std::vector<double> r;
    bool ext = false;
    for (int i = 0; i < 5; ++i) {
        double x = c.flag() ? c.prob() : c.flag() ? c.logu(1e-12, 0.1) : 1 - c.logu(1e-12, 0.1);
        x = std::min(x, 1 - 1e-12);
        ext |= x < 1e-6 || x > 1 - 1e-6;
        r.push_back(x);
    }
    if (ext)
        c.nontrivial();
    c.note(" random %.17g %.17g %.17g %.17g %.17g", r[0], r[1], r[2], r[3], r[4]);
    ParticleState s = gen_parent(c, g, 1e8);
    size_t k = 0;
    std::function<double()> f = [&]() { return r[k++ % r.size()]; };
    RandomGenerator::Get().SetRandomNumberGenerator(f);
    auto p = g.ch->Decay(*g.parent, s);
    RandomGenerator::Get().SetDefaultRandomNumberGenerator();
    check_products(c, g, s, p);
}

// published spectra of the charged lepton, integrated in closed form
static double spectrum_cdf(int kind, double M, double m, double E)
{
    double emax = (M * M + m * m) / (2 * M);
    auto dens = [&](double e) {
        double p2 = std::max(e * e - m * m, 0.);
        if (kind == 1) { // massless approximation x^2 (3 - 2x)
            double x = e / emax;
            return x * x * (3 - 2 * x);
        }
        // V-A with the mass of the lepton kept
        return std::sqrt(p2) * (M * e * (3 * M - 4 * e) + m * m * (3 * e - 2 * M));
    };
    double t = quad(dens, m, emax, 1e-11);
    return quad(dens, m, std::min(std::max(E, m), emax), 1e-11, 1e-11 * t) / t;
}

LAW(lepton_spectrum, 12000, 500, "lepton mass above one percent of the parent mass")
{
    int kind = int(c.i(1, 2));
    ParticleDef l = c.flag() ? gen_daughter(c) : ParticleDef(c.flag() ? ParticleDef(MuMinusDef()) : ParticleDef(EMinusDef()));
    c.require(l.mass > 0);
    double M = c.flag(1, 3) && l.mass < 1700 ? TauMinusDef().mass : l.mass * (1 + c.logu(0.02, 1e5));
    c.note("kind %d M %.17g m %.17g", kind, M, l.mass);
    if (l.mass > 0.01 * M)
        c.nontrivial();
    std::unique_ptr<DecayChannel> ch;
    if (kind == 1)
        ch.reset(new LeptonicDecayChannelApprox(l, NuMuDef(), NuEBarDef()));
    else
        ch.reset(new LeptonicDecayChannel(l, NuMuDef(), NuEBarDef()));
    double emax = (M * M + l.mass * l.mass) / (2 * M), last = 0;
    ParticleDef parent = parent_of_mass(M);
    ParticleState s(Cartesian3D(0, 0, 0), Cartesian3D(0, 0, 1), M, 0, 0);
    s.type = parent.particle_type;
    double rr[3] = { c.prob(), c.prob(), c.unit() };
    std::sort(rr, rr + 3);
    for (double r : rr) {
        size_t k = 0;
        std::function<double()> f = [&]() { return k++ ? 0.37 : r; };
        RandomGenerator::Get().SetRandomNumberGenerator(f);
        double E = ch->Decay(parent, s)[0].energy;
        RandomGenerator::Get().SetDefaultRandomNumberGenerator();
        c.check(E >= l.mass * (1 - 1e-12) && E <= emax * (1 + 1e-12), "energy %.17g of the lepton for %.17g", E, r);
        // the energy is found to a thousandth of its maximum
        double lo = spectrum_cdf(kind, M, l.mass, E - 1.1e-3 * emax), hi = spectrum_cdf(kind, M, l.mass, E + 1.1e-3 * emax);
        c.check(lo - 1e-9 <= r && r <= hi + 1e-9, "energy %.12g is the quantile of [%.12g, %.12g], not of %.12g", E, lo, hi, r);
        c.check(E >= last - 2.1e-3 * emax, "energy decreases with the random number");
        last = E;
    }
}

static void ks(Ctx& c, std::vector<double> v, std::function<double(double)> cdf, const char* what, double slack = 0)
{
    std::sort(v.begin(), v.end());
    double d = 0, n = double(v.size());
    for (size_t i = 0; i < v.size(); ++i) {
        double F = cdf(v[i]);
        d = std::max({ d, F - i / n, (i + 1) / n - F });
    }
    // P(D > d) < 2 exp(-2 n d^2) = 1e-11
    c.check(d < std::sqrt(13.0 / n) + slack, "%s: distance %.4g from the expected distribution with %zu samples", what, d, v.size());
}

LAW(isotropy, 384, 8, "decay in flight")
{
    Gen g = gen_channel(c);
    c.require(g.sum < 0.95 * g.M || g.kind < 3);
    if (g.d.size() > 4)
        g.ch->SetUniformSampling(false);
    RandomGenerator::Get().SetSeed(int(c.draw(1000000)));
    ParticleState s = gen_parent(c, g, 50);
    c.require(s.energy < 100 * g.M);
    V P { s.energy, 0, 0, 0 };
    long double q = mom(s.energy, g.M);
    for (int i = 0; i < 3; ++i)
        P[i + 1] = q * s.direction[i];
    if (q > 0.1 * g.M)
        c.nontrivial();
    auto axis = gen_dir(c);
    size_t n = 2000;
    std::vector<std::vector<double>> along(g.d.size()), azimuth(g.d.size());
    // a second axis normal to the first
    Cartesian3D o = std::abs(axis.GetX()) < 0.8 ? Cartesian3D(1, 0, 0) : Cartesian3D(0, 1, 0);
    Cartesian3D u = vector_product(axis, o);
    u.normalize();
    Cartesian3D w = vector_product(axis, u);
    for (size_t k = 0; k < n; ++k) {
        auto p = g.ch->Decay(*g.parent, s);
        for (size_t i = 0; i < p.size(); ++i) {
            auto r = to_rest(four(p[i], g.d[i].mass), P, g.M);
            Cartesian3D d { double(r[1]), double(r[2]), double(r[3]) };
            double len = d.magnitude();
            if (!(len > 1e-6 * g.M))
                continue;
            along[i].push_back(d * axis / len);
            azimuth[i].push_back(std::atan2(d * w, d * u));
        }
    }
    for (size_t i = 0; i < g.d.size(); ++i)
        if (along[i].size() > n * 9 / 10) {
            ks(c, along[i], [](double x) { return (x + 1) / 2; }, strf("cosine of product %zu in the rest frame", i).c_str());
            ks(c, azimuth[i], [](double x) { return (x + M_PI) / (2 * M_PI); }, strf("azimuth of product %zu in the rest frame", i).c_str());
        }
}

static double two_body(double M, double a, double b)
{
    double k = (M - a - b) * (M + a + b) * (M - a + b) * (M + a - b);
    return k > 0 ? std::sqrt(k) / (2 * M) : 0;
}

// flat phase space: density of the invariant mass of the first k products is
// R_k(m) R_{rest+1}(M; m, rest) 2m with R_2(M) = p(M)/M
LAW(phase_space, 96, 2, "all products massive")
{
    int n = int(c.i(3, 4));
    std::vector<ParticleDef> d;
    double sum = 0;
    bool massive = true;
    ManyBodyPhaseSpace::Builder b;
    for (int i = 0; i < n; ++i) {
        d.push_back(gen_daughter(c));
        sum += d.back().mass;
        massive &= d.back().mass > 0;
        b.addDaughter(d.back());
    }
    double M = sum > 0 ? sum * (1 + c.logu(0.02, 50)) : 100;
    bool me = c.flag(1, 4);
    if (me)
        b.setMatrixElement([](ParticleState const&, std::vector<ParticleState> const&) { return 3.; });
    c.note("M %.17g daughters", M);
    for (auto& x : d)
        c.note(" %g", x.mass);
    if (massive)
        c.nontrivial();
    auto ch = b.build();
    auto parent = parent_of_mass(M);
    RandomGenerator::Get().SetSeed(int(c.draw(1000000)));
    ParticleState s(Cartesian3D(0, 0, 0), gen_dir(c), M * (c.flag() ? 1 : 2.5), 0, 0);
    s.type = parent.particle_type;
    int i = int(c.i(0, n - 1)), j = int(c.i(0, n - 2));
    if (j >= i)
        ++j;
    std::vector<double> m2;
    for (int k = 0; k < 2000; ++k) {
        auto p = ch.Decay(parent, s);
        m2.push_back(double(sqrtl(std::max(0.0L, inv2(add(four(p[i], d[i].mass), four(p[j], d[j].mass)))))));
    }
    std::vector<double> other;
    double so = 0;
    for (int k = 0; k < n; ++k)
        if (k != i && k != j) {
            other.push_back(d[k].mass);
            so += d[k].mass;
        }
    double lo = d[i].mass + d[j].mass, hi = M - so;
    auto rest = [&](double m) {
        if (n == 3)
            return two_body(M, m, other[0]);
        // M -> (m, x), x -> other two
        double a = so, z = M - m;
        if (z <= a)
            return 0.;
        double r = 0;
        const int steps = 60;
        for (int k = 0; k < steps; ++k) { // substitution that removes both square roots
            double t = (k + 0.5) / steps, x = a + (z - a) * t * t * (3 - 2 * t);
            r += two_body(M, m, x) * two_body(x, other[0], other[1]) * 6 * t * (1 - t) * (z - a) / steps;
        }
        return r;
    };
    // tabulated distribution function
    const int K = 200;
    std::vector<double> F(K + 1, 0), X(K + 1, lo);
    for (int k = 0; k < K; ++k) {
        double t = (k + 0.5) / K, x = lo + (hi - lo) * t * t * (3 - 2 * t);
        F[k + 1] = F[k] + two_body(x, d[i].mass, d[j].mass) * rest(x) * 6 * t * (1 - t);
        double e = (k + 1.) / K;
        X[k + 1] = lo + (hi - lo) * e * e * (3 - 2 * e);
    }
    // (with a matrix element the maximal weight is an estimate)
    ks(c, m2, [&](double x) {
        size_t k = std::upper_bound(X.begin(), X.end(), x) - X.begin();
        if (k == 0)
            return 0.;
        if (k > size_t(K))
            return 1.;
        return (F[k - 1] + (F[k] - F[k - 1]) * (x - X[k - 1]) / (X[k] - X[k - 1])) / F[K];
    }, "invariant mass of a pair", me ? 0.05 : 0.002);
}
