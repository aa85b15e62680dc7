// P02: particle states and losses
#include "common.h"
#include "PROPOSAL/particle/Particle.h"
#include "PROPOSAL/particle/ParticleDef.h"

const char* pbt::property_id = "P02";
typedef long double ld;

static const int TYPES[] = { 11, -11, 13, -13, 15, -15, 1000015, -1000015, 111, -211, 211, 311, -321, 321, 12, -12, 14, -14, 16, -16, 41, 22, -9500, 9500 };
static int gen_type(Ctx& c) { return TYPES[c.i(0, 23)]; }
static double gen_energy(Ctx& c, double m)
{
    switch (c.i(0, 3)) {
    case 0:
        return m * (1 + c.logu(1e-15, 1));
    case 1:
        return m == 0 ? c.logu(1e-3, 1) : m * c.plain(1, 3);
    case 2:
        return m + c.logu(1e-6, 1e15);
    default:
        return c.flag(1, 4) ? std::max(m, 1.) : m + c.logu(1, 1e8);
    }
}

LAW(energy_momentum, 1200000, 4000, "massive particle in motion")
{
    int t = gen_type(c);
    auto d = ParticleDef::GetParticleDefForType(t);
    double E = gen_energy(c, d.mass);
    ParticleState s(static_cast<ParticleType>(t), gen_pos(c, 1e5), gen_dir(c), E, 0, 0);
    c.note("type %d energy %.17g", t, E);
    if (d.mass > 0 && E > d.mass)
        c.nontrivial();
    c.check(s.GetParticleDef() == d, "definition of the type");
    double p = s.GetMomentum();
    ld p2 = ((ld)E - d.mass) * ((ld)E + d.mass);
    c.close(p, sqrtl(p2), 1e-14, 0, "momentum");
    c.check(p <= E && p >= 0, "momentum %.17g exceeds the energy", p);
    // write it back
    ParticleState r(s);
    r.energy = 1;
    r.SetMomentum(p);
    c.close(r.energy, E, 1e-15, 0, "energy for this momentum");
    c.check(r.type == s.type && r.position == s.position && r.direction == s.direction && r.time == s.time && r.propagated_distance == s.propagated_distance, "setting the momentum changes other quantities");
    // and the other way round
    double q = c.flag(1, 10) ? 0. : c.logu(1e-3, 1e14);
    r.SetMomentum(q);
    c.close(r.energy, sqrtl((ld)q * q + (ld)d.mass * d.mass), 1e-15, 0, "energy for a momentum");
    c.check(r.energy >= d.mass, "energy below the mass");
    if (q > 1e-3 * d.mass)
        c.close(r.GetMomentum(), q, 1e-9, 0, "momentum read back");
    r.energy = d.mass;
    c.check(r.GetMomentum() == 0, "momentum at rest %.17g", r.GetMomentum());
}

struct Model {
    int type;
    std::array<double, 3> pos, dir;
    double E, time, dist;
    bool operator==(Model const& o) const { return type == o.type && pos == o.pos && dir == o.dir && E == o.E && time == o.time && dist == o.dist; }
};
static std::array<double, 3> arr(Vector3D const& v) { return { v[0], v[1], v[2] }; }

LAW(histories, 600000, 2000, "states were compared after changing them")
{
    // a few states, copied, assigned and changed one quantity at a time
    std::vector<ParticleState> s;
    std::vector<Model> m;
    auto coord = [&]() { return c.flag() ? double(c.i(-2, 2)) : c.logu(1e-3, 1e6); };
    auto fresh = [&]() {
        Model x { gen_type(c), { coord(), coord(), coord() }, { 0, 0, 1 }, coord(), coord(), coord() };
        Cartesian3D p(x.pos[0], x.pos[1], x.pos[2]), d(0, 0, 1);
        if (c.flag()) {
            s.emplace_back(static_cast<ParticleType>(x.type), p, d, x.E, x.time, x.dist);
        } else if (c.flag()) {
            s.emplace_back(p, d, x.E, x.time, x.dist);
            x.type = 0;
        } else {
            // spherical input
            Spherical3D q(p);
            s.emplace_back(static_cast<ParticleType>(x.type), q, d, x.E, x.time, x.dist);
            x.pos = arr(Cartesian3D(q));
        }
        m.push_back(x);
    };
    fresh();
    c.check(ParticleState() == ParticleState() && ParticleState().type == 0 && ParticleState().energy == 0, "default state");
    int n = int(c.i(1, 12));
    for (int i = 0; i < n; ++i) {
        size_t k = size_t(c.i(0, long(s.size()) - 1)), j = size_t(c.i(0, long(s.size()) - 1));
        switch (c.i(0, 9)) {
        case 0:
            fresh();
            break;
        case 1:
            if (s.size() < 5) {
                ParticleState cp(s[k]);
                s.push_back(cp);
                m.push_back(Model(m[k]));
            }
            break;
        case 2:
            s[k] = s[j];
            m[k] = m[j];
            break;
        case 3:
            s[k].time = m[k].time = coord();
            break;
        case 4:
            s[k].propagated_distance = m[k].dist = coord();
            break;
        case 5:
            s[k].energy = m[k].E = coord();
            break;
        case 6:
            m[k].type = gen_type(c);
            s[k].SetType(static_cast<ParticleType>(m[k].type));
            break;
        case 7: {
            int a = int(c.i(0, 2));
            double x = coord();
            m[k].pos[a] = x;
            if (a == 0)
                s[k].position.SetX(x);
            else if (a == 1)
                s[k].position.SetY(x);
            else
                s[k].position.SetZ(x);
            break;
        }
        case 8: {
            auto d = gen_dir(c);
            s[k].direction = d;
            m[k].dir = arr(d);
            break;
        }
        default: // nearly the same
            s[k] = s[j];
            m[k] = m[j];
            s[k].energy = m[k].E = std::nextafter(m[k].E, 1e300);
        }
        if (i > 0)
            c.nontrivial();
        c.note("%zu states, changed %zu", s.size(), k);
        for (size_t a = 0; a < s.size(); ++a) {
            c.check(s[a].type == m[a].type && arr(s[a].position) == m[a].pos && arr(s[a].direction) == m[a].dir && s[a].energy == m[a].E && s[a].time == m[a].time && s[a].propagated_distance == m[a].dist, "state %zu does not hold its values", a);
            for (size_t b = 0; b < s.size(); ++b) {
                bool e = m[a] == m[b];
                c.check((s[a] == s[b]) == e && (s[a] != s[b]) == !e, "comparison of states %zu and %zu should be %s", a, b, e ? "equal" : "unequal");
            }
        }
    }
}

LAW(losses, 240000, 3000, "every case")
{
    c.nontrivial();
    auto v = [&]() { return c.logu(1e-3, 1e12); };
    Cartesian3D p = gen_pos(c, 1e5), q = gen_pos(c, 1e5), d = gen_dir(c), e = gen_dir(c);
    int type = c.pick({ 1000000002, 1000000003, 1000000004, 1000000008, 13 });
    double E = v(), t = v(), x = v(), pe = v(), t2 = v();
    size_t h = c.draw(~0ull);
    StochasticLoss s(type, E, p, d, t, x, pe, h);
    c.note("%d %g %g %g %g", type, E, t, x, pe);
    for (int i = 0; i < 2; ++i) {
        StochasticLoss k = i ? s : StochasticLoss(s);
        c.check(k.type == type && k.energy == E && k.position == p && k.direction == d && k.time == t && k.propagated_distance == x && k.parent_particle_energy == pe && k.target_hash == h, "stochastic loss does not hold its values");
    }
    c.check(StochasticLoss(type, E, p, d, t, x, pe).target_hash == 0, "target of a loss without target");
    StochasticLoss sp(type, E, Spherical3D(p), Spherical3D(d), t, x, pe, h);
    c.close((sp.position - p).magnitude(), 0, 0, 1e-12 + 5e-8 * p.magnitude(), "position given in spherical coordinates");
    c.close((sp.direction - d).magnitude(), 0, 0, 1e-7, "direction given in spherical coordinates");
    ContinuousLoss l(E, pe, p, q, d, e, t, t2);
    ContinuousLoss k(l);
    c.check(k.type == int(InteractionType::ContinuousEnergyLoss) && k.energy == E && k.parent_particle_energy == pe && k.start_position == p && k.end_position == q && k.direction_initial == d && k.direction_final == e && k.time_initial == t && k.time_final == t2, "continuous loss does not hold its values");
}
