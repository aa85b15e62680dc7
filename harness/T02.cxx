// T02: propagation stops where it must and respects sector borders
#include "track.h"
using namespace track;
const char* pbt::property_id = "T02";

struct Run {
    std::vector<ParticleState> t;
    std::vector<InteractionType> y;
    bool outside = false;
};
static Run run(World const& w, ParticleState const& s, unsigned seed, double max = 1e20, double emin = 0, unsigned cond = 0)
{
    Run r;
    RandomGenerator::Get().SetSeed(seed);
    auto prop = w.make();
    try {
        auto tr = prop.Propagate(s, max, emin, cond);
        r.t = tr.GetTrack();
        r.y = tr.GetTrackTypes();
    } catch (std::logic_error const&) {
        r.outside = true;
    }
    return r;
}
// precision of borders in this track
static double prec(Run const& r)
{
    double x = 0;
    for (auto& s : r.t)
        x = std::max(x, s.position.magnitude());
    return 3 * RES + 1e-9 * x;
}

LAW(borders, 160000, 500, "the track crosses a border of the medium")
{
    Options o;
    o.sectors = 5;
    o.cont = c.flag(1, 4);
    o.rates = c.pick({ 0., 1., 20. });
    World w = gen_world(c, o);
    auto start = gen_start(c, w);
    unsigned seed = (unsigned)c.i(0, 1000000);
    c.note("%s\nstart %s seed %u", w.show().c_str(), show(start).c_str(), seed);
    auto r = run(w, start, seed);
    c.check(!r.outside, "no sector at the position of the particle");
    double g = prec(r), slack = 10 * g;
    int last = -1, crossings = 0;
    for (size_t i = 1; i < r.t.size(); ++i) {
        auto &p = r.t[i - 1], &q = r.t[i];
        double dx = q.propagated_distance - p.propagated_distance;
        if (r.y[i] != InteractionType::ContinuousEnergyLoss || dx < 10 * slack)
            continue;
        auto d = q.position - p.position;
        d.normalize();
        auto mid = w.at(0.5 * (p.position + q.position), 2 * g);
        if (mid.size() != 1)
            continue;
        auto& s = w.sec[mid[0]];
        if (last >= 0 && last != mid[0])
            ++crossings;
        last = mid[0];
        double in = overlap(s.body, p.position, d, dx, g);
        c.check(in >= dx - slack, "%.17g cm of %.17g cm are in the sector %d%s", in, dx, mid[0], show(r.t, r.y, i).c_str());
        for (size_t k = 0; k < w.sec.size(); ++k)
            if (w.sec[k].hierarchy > s.hierarchy || (w.sec[k].hierarchy == s.hierarchy && (int)k < mid[0])) {
                in = overlap(w.sec[k].body, p.position, d, dx, -g);
                c.check(in <= slack, "%.17g cm of %.17g cm in the sector %d are in the sector %zu%s", in, dx, mid[0], k, show(r.t, r.y, i).c_str());
            }
        double E = s.after(p.energy, s.dens.rho * dx);
        double tol = 1e-6 * p.energy + 2 * g * s.dens.rho * (s.a() + s.b() * p.energy);
        if (!w.cont && E > s.lower)
            c.close(q.energy, E, 0, tol, "energy after %.17g cm in the sector %d%s", dx, mid[0], show(r.t, r.y, i).c_str());
        // the next interaction belongs to the sector
        if (i + 1 < r.t.size() && r.y[i + 1] != InteractionType::ContinuousEnergyLoss && r.y[i + 1] != InteractionType::Decay) {
            bool found = false;
            for (auto& x : s.cross)
                found = found || (x->type == r.y[i + 1] && x->total() > 0);
            c.check(found, "an interaction of type %d in the sector %d%s", (int)r.y[i + 1], mid[0], show(r.t, r.y, i + 1).c_str());
        }
    }
    if (crossings > 0)
        c.nontrivial();
}

LAW(stopping, 160000, 500, "a limit ends the track")
{
    Options o;
    o.sectors = 3;
    World w = gen_world(c, o);
    auto start = gen_start(c, w);
    unsigned seed = (unsigned)c.i(0, 1000000);
    double max = 1e20, emin = 0;
    auto full = run(w, start, seed);
    if (full.outside || full.t.size() < 2)
        c.discard();
    auto& k = full.t[c.i(0, full.t.size() - 1)];
    int kind = (int)c.i(0, 3);
    if (kind & 1) { // near a state of the track: borders, interactions, end
        max = c.flag() ? k.propagated_distance + c.pick({ 0., 1., -1. }) * c.logu(1e-9, 1e-2) : start.propagated_distance + w.L * c.logu(1e-4, 10);
        if (c.flag(1, 20))
            max = start.propagated_distance * c.pick({ 1., 0.5 });
    }
    if (kind & 2)
        emin = c.flag() ? k.energy * (1 + c.pick({ 0., 1., -1. }) * c.logu(1e-12, 1e-2)) : start.energy * c.logu(1e-4, 2);
    c.note("%s\nstart %s seed %u to %.17g cm or %.17g MeV", w.show().c_str(), show(start).c_str(), seed, max, emin);
    auto r = run(w, start, seed, max, emin);
    c.check(!r.outside, "no sector at the position of the particle");
    double limit = std::max(emin, w.sec[0].lower);
    size_t n = r.t.size();
    double eps = 1e-12 * max;
    for (size_t i = 0; i < n; ++i) {
        auto& s = r.t[i];
        c.check(i == 0 || s.propagated_distance <= max + eps, "beyond the maximal distance%s", show(r.t, r.y, i).c_str());
        if (i + 1 < n)
            c.check((s.energy >= limit * (1 - 1e-12) - (i > 0 ? 3e-5 * r.t[i - 1].energy : 0) && s.propagated_distance <= max + eps) , "continued after the limit%s", show(r.t, r.y, i).c_str());
        if (i > 0)
            c.check(s.time >= r.t[i - 1].time && s.energy <= r.t[i - 1].energy * (1 + 1e-12) && s.propagated_distance >= r.t[i - 1].propagated_distance, "a step backwards%s", show(r.t, r.y, i).c_str());
        // only an interaction takes the energy below the limit
        if (i > 0 && r.y[i] == InteractionType::ContinuousEnergyLoss)
            c.check(s.energy >= std::min(r.t[i - 1].energy, limit) - 3e-5 * r.t[i - 1].energy, "continuous losses below the limit%s", show(r.t, r.y, i).c_str());
    }
    bool decay = r.y.back() == InteractionType::Decay;
    bool distance = r.t.back().propagated_distance >= max - eps - 1e-12 * r.t.back().propagated_distance;
    bool energy = r.t.back().energy <= limit * (1 + 1e-9);
    c.check(decay || distance || energy, "ends without a reason%s", show(r.t, r.y, n - 1).c_str());
    if (decay) {
        c.check(w.lifetime > 0, "a stable particle decays");
        if (limit > w.sec[0].lower * (1 + 1e-9))
            c.check(n < 2 || r.t.back().energy >= limit * (1 - 1e-12), "decay below the limit");
    }
    // at rest unstable particles decay
    if (n > 1 && w.lifetime > 0 && emin < w.sec[0].lower && !distance && !decay)
        c.check(r.y.back() != InteractionType::ContinuousEnergyLoss, "stopped without a decay%s", show(r.t, r.y, n - 1).c_str());
    if (!decay && (distance || energy))
        c.nontrivial();
}

LAW(hierarchy, 80000, 500, "the condition ends the track early")
{
    Options o;
    o.sectors = 5;
    o.scatter = false; // at a border the direction decides
    World w = gen_world(c, o);
    auto start = gen_start(c, w);
    unsigned seed = (unsigned)c.i(0, 1000000), cond = (unsigned)c.i(1, 5);
    c.note("%s\nstart %s seed %u condition %u", w.show().c_str(), show(start).c_str(), seed, cond);
    auto all = run(w, start, seed), r = run(w, start, seed, 1e20, 0, cond);
    if (all.outside)
        c.discard();
    c.check(!r.outside && r.t.size() <= all.t.size(), "%zu states instead of %zu", r.t.size(), all.t.size());
    size_t n = r.t.size();
    for (size_t i = 0; i < n; ++i)
        c.check(r.t[i] == all.t[i] && r.y[i] == all.y[i], "the track with the condition differs%s", show(r.t, r.y, i).c_str());
    double g = prec(all);
    int above = -1; // hierarchy of the last step
    for (size_t i = 1; i < all.t.size(); ++i) {
        if (all.y[i] != InteractionType::ContinuousEnergyLoss)
            continue;
        double dx = all.t[i].propagated_distance - all.t[i - 1].propagated_distance;
        auto mid = w.at(0.5 * (all.t[i].position + all.t[i - 1].position), 2 * g);
        if (mid.size() != 1 || dx < 10 * g)
            c.discard();
        int h = (int)w.sec[mid[0]].hierarchy;
        bool stop = above > (int)cond && h < (int)cond;
        above = h;
        if (stop) {
            c.check(n == i, "left a sector above and entered one below the condition after %zu states, the track has %zu", i, n);
            c.nontrivial();
            return;
        }
        c.check(n > i, "stopped after %zu states, the next step is in a sector of hierarchy %d", n, h);
    }
    c.check(n == all.t.size(), "the track ends early");
}

LAW(outside, 24000, 500, "the particle leaves or starts outside")
{
    Options o;
    o.sectors = 2;
    o.decay = c.flag();
    World w = gen_world(c, o);
    auto& world = const_cast<Sec&>(w.sec_world());
    world.body.a = w.L * c.logu(1e-2, 1e1);
    auto start = gen_start(c, w);
    unsigned seed = (unsigned)c.i(0, 1000000);
    c.note("%s\nstart %s seed %u", w.show().c_str(), show(start).c_str(), seed);
    auto r = run(w, start, seed);
    bool inside = false, near = false;
    for (auto& s : w.sec) {
        bool in = s.body.contains(geo::vec(start.position), 1e-6 * w.L), sure = s.body.contains(geo::vec(start.position), -1e-6 * w.L);
        near = near || in != sure;
        inside = inside || sure;
    }
    if (near)
        c.discard();
    if (!inside)
        c.check(r.outside, "the start %s is in no sector", str(start.position).c_str());
    for (auto& s : r.t) {
        bool in = false;
        for (auto& k : w.sec)
            in = in || k.body.contains(geo::vec(s.position), 10 * RES + 1e-8 * w.L);
        c.check(in, "%s is in no sector", str(s.position).c_str());
    }
    if (r.outside)
        c.nontrivial();
    // with a limit inside, the track ends there
    if (r.outside && inside) {
        double len = 1e300;
        bool straight = w.strength == 0;
        for (auto& k : w.sec)
            if (k.body.contains(geo::vec(start.position))) {
                auto iv = k.body.ray(geo::vec(start.position), geo::vec(start.direction));
                for (auto& i : iv)
                    if (i.first <= 0 && i.second > 0)
                        len = std::min(len, (double)i.second);
            }
        if (straight && len < 1e200) {
            auto s = run(w, start, seed, start.propagated_distance + 0.9 * len);
            c.check(!s.outside, "left all sectors before %.17g cm", 0.9 * len);
        }
    }
}
