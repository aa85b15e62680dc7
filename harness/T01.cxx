// T01: propagated tracks are physically consistent histories
#include "track.h"
using namespace track;
const char* pbt::property_id = "T01";

LAW(history, 180000, 500, "the track contains a stochastic loss and at least three states")
{
    Options o;
    o.inhomogeneous = c.flag(1, 3);
    World w = gen_world(c, o);
    auto start = gen_start(c, w);
    // the range in a falling density may be infinite
    double max = !o.inhomogeneous && c.flag() ? 1e20 : start.propagated_distance + w.L * c.logu(1e-2, 10);
    double emin = c.flag() ? 0 : w.E0 * c.logu(1e-4, 1);
    unsigned seed = (unsigned)c.i(0, 1000000);
    c.note("%s\nstart %s to %.17g cm or %.17g MeV seed %u", w.show().c_str(), show(start).c_str(), max, emin, seed);
    RandomGenerator::Get().SetSeed(seed);
    auto prop = w.make();
    Secondaries tr(w.p, {});
    try {
        tr = prop.Propagate(start, max, emin);
    } catch (std::logic_error const& e) {
        // a falling density does not always contain the range (see T02)
        c.check(o.inhomogeneous, "%s", e.what());
        c.discard();
    }
    auto t = tr.GetTrack();
    auto y = tr.GetTrackTypes();
    auto h = tr.GetTargetHashes();
    c.check(t.size() == y.size() && t.size() == h.size() && t.size() == tr.GetTrackLength(), "%zu states %zu types %zu targets", t.size(), y.size(), h.size());
    c.check(!t.empty() && t[0] == start && y[0] == InteractionType::ContinuousEnergyLoss, "first state %s", show(t, y, 0).c_str());
    double lost = 0;
    size_t stochastic = 0, continuous = 0;
    auto sl = tr.GetStochasticLosses();
    auto cl = tr.GetContinuousLosses();
    for (size_t i = 1; i < t.size(); ++i) {
        auto where = [&] { return show(t, y, i); };
        auto &p = t[i - 1], &q = t[i];
        c.check(std::isfinite(q.energy) && std::isfinite(q.time) && std::isfinite(q.propagated_distance) && std::isfinite(q.position.magnitude()) && std::isfinite(q.direction.magnitude()), "not finite%s", where().c_str());
        c.check(q.type == start.type, "particle changed%s", where().c_str());
        c.check(std::abs(q.direction.magnitude() - 1) < 1e-7, "direction is no unit vector%s", where().c_str());
        c.check(q.energy <= p.energy * (1 + 1e-12), "energy increased%s", where().c_str());
        c.check(q.energy >= w.sec[0].lower * (1 - 1e-9), "energy below the lower limit%s", where().c_str());
        c.check(p.energy >= emin * (1 - 1e-9), "continued below the minimal energy%s", where().c_str());
        if (y[i] == InteractionType::ContinuousEnergyLoss)
            c.check(q.energy >= emin * (1 - 1e-9), "continuous loss (and straggling) below the minimal energy%s", where().c_str());
        c.check(q.time >= p.time, "time decreased%s", where().c_str());
        c.check(q.propagated_distance >= p.propagated_distance, "distance decreased%s", where().c_str());
        double dx = q.propagated_distance - p.propagated_distance, dt = q.time - p.time;
        auto mid = w.at(0.5 * (p.position + q.position), 1e-2);
        if (y[i] == InteractionType::ContinuousEnergyLoss) {
            ++continuous;
            c.check(h[i] == 0, "target of a continuous loss");
            double prec = 1e-8 * dx + 1e-10 * (p.position.magnitude() + q.propagated_distance + w.L * 1e-3);
            c.close((q.position - p.position).magnitude(), dx, 0, prec, "step length%s", where().c_str());
            // energies within 1e-8 are not distinguished
            double equal = 0;
            for (auto& s : w.sec)
                equal = std::max(equal, 1e-8 * p.energy / (s.a() + s.b() * p.energy) / (double)s.dens.f(s.dens.depth(p.position)));
            double tprec = 1e-12 * q.time + (w.approximate ? 0 : equal / C);
            c.check(dt * C >= dx * (1 - 3e-3) - RES * 2 - tprec * C, "%.17g s for %.17g cm: faster than light%s", dt, dx, where().c_str());
            if (w.approximate)
                c.close(dt, dx / C, 1e-6, tprec + 2 * RES / C, "time at the speed of light%s", where().c_str());
            size_t k = continuous - 1;
            c.require(k < cl.size());
            c.check(cl[k].energy == p.energy - q.energy && cl[k].parent_particle_energy == p.energy && cl[k].start_position == p.position && cl[k].end_position == q.position && cl[k].time_initial == p.time && cl[k].time_final == q.time, "continuous loss differs%s", where().c_str());
            lost += cl[k].energy;
            if (mid.size() == 1 && dx > 1) {
                auto& s = w.sec[mid[0]];
                double X = s.dens.kind == 0 ? s.dens.rho * dx : 0;
                bool known = s.dens.kind == 0 || w.strength == 0;
                if (s.dens.kind != 0)
                    X = (double)s.dens.grammage(s.dens.depth(p.position), s.dens.slope(p.position, p.direction), dx);
                double E = s.after(p.energy, X);
                double tol = 1e-6 * p.energy + 3 * RES * (double)s.dens.f(s.dens.depth(p.position)) * (s.a() + s.b() * p.energy);
                if (!w.cont && known && E > s.lower)
                    c.close(q.energy, E, 0, tol * (s.dens.kind ? 10 : 1), "energy after %.17g g/cm^2 in the sector %d%s", X, mid[0], where().c_str());
                if (!w.approximate && s.dens.kind == 0 && E > s.lower + tol) {
                    double want = exact_time(w, s, p.energy, E);
                    c.close(dt, want, E < 1.1 * w.mass ? 0.1 : 2e-3, tprec + 1e-5 * exact_time(w, s, p.energy, std::max(s.lower, w.mass)) + 5 * RES / C, "time%s", where().c_str());
                }
            }
        } else {
            c.check(q.position == p.position && q.time == p.time && q.propagated_distance == p.propagated_distance, "the particle moved in an interaction%s", where().c_str());
            if (y[i] == InteractionType::Decay) {
                c.check(i + 1 == t.size() && q == p && w.lifetime > 0, "decay%s", where().c_str());
                continue;
            }
            size_t k = stochastic++;
            c.require(k < sl.size());
            c.check(sl[k].type == (int)y[i] && sl[k].energy == p.energy - q.energy && sl[k].parent_particle_energy == p.energy && sl[k].position == q.position && sl[k].direction == q.direction && sl[k].time == q.time && sl[k].propagated_distance == q.propagated_distance && sl[k].target_hash == h[i], "stochastic loss differs%s", where().c_str());
            lost += sl[k].energy;
            c.check(q.energy <= p.energy * (1 + 1e-12) && q.direction == p.direction, "loss %.17g or direction%s", sl[k].energy, where().c_str());
            auto in = w.at(q.position, 1e-2);
            bool found = in.empty();
            for (int s : in)
                for (auto& x : w.sec[s].cross)
                    if (x->type == y[i])
                        for (size_t j = 0; j < x->rate.size(); ++j)
                            found = found || (h[i] == x->base + j && x->rate[j] > 0);
            c.check(found, "interaction with target %zu is impossible here%s", h[i], where().c_str());
        }
    }
    c.check(sl.size() == stochastic && cl.size() == continuous, "%zu stochastic %zu continuous losses instead of %zu %zu", sl.size(), cl.size(), stochastic, continuous);
    c.close(t.back().energy + lost, start.energy, 1e-9, 0, "sum of all losses and the final energy");
    if (stochastic && t.size() >= 3)
        c.nontrivial();
}

// interactions and decays are counting processes: the number of events and the
// accumulated rate agree on average, whatever happened before
static void rates(Ctx& c, World const& w, ParticleState const& start, bool edge)
{
    double max = c.flag() ? 1e20 : start.propagated_distance + w.L * c.logu(1e-1, 10);
    unsigned seed = (unsigned)c.i(0, 1000000);
    c.note("%s\nstart %s to %.17g cm seed %u", w.show().c_str(), show(start).c_str(), max, seed);
    RandomGenerator::Get().SetSeed(seed);
    auto prop = w.make();
    double N = 0, H = 0, D = 0, HD = 0; // interactions, decays and what is expected
    double V = 0, nv = 0;
    std::map<size_t, std::pair<double, double>> target;
    for (int n = 0; n < 60; ++n) {
        auto tr = prop.Propagate(start, max);
        auto t = tr.GetTrack();
        auto y = tr.GetTrackTypes();
        auto h = tr.GetTargetHashes();
        for (size_t i = 1; i < t.size(); ++i) {
            if (y[i] == InteractionType::Decay)
                D += t[i].energy > w.sec[0].lower * (1 + 1e-9); // at rest it decays anyway
            else if (y[i] != InteractionType::ContinuousEnergyLoss) {
                N += 1;
                target[h[i]].first += 1;
                double lower = w.sec[0].lower;
                for (auto& s : w.sec)
                    for (auto& x : s.cross)
                        if (h[i] >= x->base && h[i] < x->base + 100)
                            lower = x->lower;
                double top = 1 - lower / t[i - 1].energy;
                if (top > 0) {
                    V += (1 - t[i].energy / t[i - 1].energy) / top;
                    nv += 1;
                }
            } else {
                double dx = t[i].propagated_distance - t[i - 1].propagated_distance;
                auto mid = w.at(0.5 * (t[i].position + t[i - 1].position), 1e-2);
                if (mid.size() != 1) {
                    if (dx > 1e-5 * w.L)
                        c.discard(); // along a border
                    continue;
                }
                auto& s = w.sec[mid[0]];
                H += s.rate() * s.dens.rho * dx;
                for (auto& x : s.cross)
                    for (size_t j = 0; j < x->rate.size(); ++j)
                        target[x->base + j].second += x->rate[j] * s.dens.rho * dx;
                if (w.lifetime > 0) { // proper time
                    double m = w.mass, A = s.a(), B = s.b();
                    auto f = [&](double E) { return std::asinh(std::sqrt((E - m) / (2 * m))); };
                    if (t[i - 1].energy > t[i].energy)
                        HD += quad([&](double u) { double sh = std::sinh(u), E = m * (1 + 2 * sh * sh); return 2 * m / (C * s.dens.rho * (A + B * E)); }, f(t[i].energy), f(t[i - 1].energy), 1e-4) / w.lifetime;
                }
            }
        }
    }
    auto within = [&](double n, double mean, std::string const& what) {
        if (edge && std::abs(n - mean) > 6.5 * std::sqrt(mean) + 10 + 0.002 * mean)
            c.finding("T01-border-scatter", "a particle that scatters from the border into another sector keeps the interaction energy sampled in the sector it left");
        c.check(std::abs(n - mean) <= 6.5 * std::sqrt(mean) + 10 + 0.002 * mean, "%s: %g events, %.6g are expected", what.c_str(), n, mean);
    };
    within(N, H, "interactions");
    for (auto& k : target)
        within(k.second.first, k.second.second, strf("interactions with the target %zu", k.first));
    within(D, HD, "decays");
    c.close(V, 0.5 * nv, 0, 6.5 * std::sqrt(nv / 12) + 3, "sum of %g losses relative to the largest", nv);
    if (H + HD >= 100)
        c.nontrivial();
}

LAW(rates, 1800, 10, "at least 100 events are expected")
{
    Options o;
    o.cont = false;
    o.sectors = (int)c.i(0, 2);
    o.rates = c.logu(1, 100);
    World w = gen_world(c, o);
    auto start = gen_start(c, w);
    if (w.strength > 0 && w.at(start.position, 1e-2).empty())
        c.discard(); // see below
    rates(c, w, start, false);
}

// starts on a border and moves along it
LAW(edge, 120, 5, "at least 100 events are expected")
{
    Options o;
    o.cont = false;
    o.sectors = 1;
    o.rates = 30;
    World w;
    int k;
    do {
        w = gen_world(c, o);
        k = w.sec[0].body.size() < 100 * w.L ? 0 : 1;
    } while (w.sec.size() < 2 || w.strength == 0 || w.sec[k].body.kind != 1 || std::abs(std::log(w.sec[0].rate() * w.sec[0].dens.rho / (w.sec[1].rate() * w.sec[1].dens.rho))) < 2 || w.sec[k].hierarchy <= w.sec[1 - k].hierarchy);
    auto start = gen_start(c, w);
    auto& b = w.sec[k].body;
    start.position = b.c + Cartesian3D(-0.4 * b.a, 0.5 * b.b, 0.);
    start.direction = Cartesian3D(1, 0, 0);
    rates(c, w, start, true);
}

LAW(independence, 240, 4, "always")
{
    // one step to a given distance, many times
    Options o;
    o.sectors = 0;
    o.rates = 0;
    o.decay = false;
    o.cont = o.scatter = true;
    World w;
    do
        w = gen_world(c, o);
    while (!(w.cont && w.strength > 0 && w.sec[0].lower < 0.1 * w.E0));
    ParticleState start;
    start.type = w.p->particle_type;
    start.energy = w.E0;
    start.time = start.propagated_distance = 0;
    start.position = Cartesian3D(0, 0, 0);
    start.direction = gen_dir(c);
    double max = w.L * c.plain(0.02, 0.3);
    unsigned seed = (unsigned)c.i(0, 1000000);
    c.note("%s\n direction %s to %.17g cm seed %u", w.show().c_str(), str(start.direction).c_str(), max, seed);
    RandomGenerator::Get().SetSeed(seed);
    auto prop = w.make();
    const int n = 600;
    std::vector<std::vector<double>> q(6);
    for (int i = 0; i < n; ++i) {
        auto tr = prop.Propagate(start, max);
        auto t = tr.GetTrack();
        q[0].push_back(t.back().energy);
        auto d = t.back().direction - start.direction;
        auto p = t.back().position - max * start.direction;
        for (int k = 0; k < 2; ++k) {
            q[1 + k].push_back(d[k]);
            q[3 + k].push_back(p[k]);
        }
        q[5].push_back(d.magnitude());
    }
    // ranks
    auto rank = [&](std::vector<double> const& x) {
        std::vector<int> o(n);
        for (int i = 0; i < n; ++i)
            o[i] = i;
        std::sort(o.begin(), o.end(), [&](int a, int b) { return x[a] < x[b]; });
        std::vector<double> r(n);
        for (int i = 0; i < n; ++i)
            r[o[i]] = (i + 0.5) / n - 0.5;
        return r;
    };
    auto e = rank(q[0]);
    if (*std::max_element(q[0].begin(), q[0].end()) == *std::min_element(q[0].begin(), q[0].end()))
        c.discard();
    for (int k = 1; k < 6; ++k) {
        if (*std::max_element(q[k].begin(), q[k].end()) - *std::min_element(q[k].begin(), q[k].end()) < 1e-9 * w.L)
            continue;
        auto r = rank(q[k]);
        double s = 0;
        for (int i = 0; i < n; ++i)
            s += e[i] * r[i] * 12;
        c.check(std::abs(s) < 6.5 * std::sqrt(n), "the energy lost and the scattering are correlated: %.3g (component %d)", s / n, k);
    }
    c.nontrivial();
}
