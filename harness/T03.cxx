// T03: propagation is reproducible and independent of history
#include "track.h"
#include <map>
#include <sstream>
using namespace track;
const char* pbt::property_id = "T03";

static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
struct Rec {
    std::vector<ParticleState> t;
    std::vector<InteractionType> y;
    std::vector<size_t> h;
    std::string error;
    Rec() { }
    Rec(Secondaries const& s) : t(s.GetTrack()), y(s.GetTrackTypes()), h(s.GetTargetHashes()) { }
    bool operator==(Rec const& o) const
    {
        if (t.size() != o.t.size() || y != o.y || h != o.h || error != o.error)
            return false;
        for (size_t i = 0; i < t.size(); ++i)
            if (!same(t[i].energy, o.t[i].energy) || !same(t[i].time, o.t[i].time) || !same(t[i].propagated_distance, o.t[i].propagated_distance) || !(t[i].position == o.t[i].position) || !(t[i].direction == o.t[i].direction) || t[i].type != o.t[i].type)
                return false;
        return true;
    }
    std::string text(Rec const& o) const
    {
        size_t i = 0;
        while (i < t.size() && i < o.t.size() && t[i].energy == o.t[i].energy && same(t[i].time, o.t[i].time) && t[i].position == o.t[i].position && y[i] == o.y[i])
            ++i;
        return strf("%zu and %zu states, the state %zu is\n %s\n %s", t.size(), o.t.size(), i, i < t.size() ? show(t[i]).c_str() : error.c_str(), i < o.t.size() ? show(o.t[i]).c_str() : o.error.c_str());
    }
    size_t losses() const
    {
        size_t n = 0;
        for (size_t i = 1; i < t.size(); ++i)
            n += y[i] != InteractionType::ContinuousEnergyLoss && y[i] != InteractionType::Decay;
        return n;
    }
};
static std::string rng()
{
    std::stringstream s;
    RandomGenerator::Get().Serialize(s);
    return s.str();
}
struct Task { // one propagation
    int world;
    ParticleState start;
    double max, emin;
    unsigned cond;
};

LAW(history, 50000, 500, "the same session is repeated with a different history and has losses")
{
    struct Place {
        World w;
        std::vector<std::shared_ptr<Propagator>> prop; // reused
    };
    std::vector<Place> world(1 + c.i(0, 1));
    for (auto& p : world) {
        Options o;
        o.products = true;
        o.inhomogeneous = c.flag(1, 4);
        p.w = gen_world(c, o);
        p.prop.push_back(std::make_shared<Propagator>(p.w.make()));
        c.note("%s\n", p.w.show().c_str());
    }
    // sessions: propagations one after the other from one seed
    struct Session {
        int seed;
        std::vector<Task> task;
        std::vector<Rec> result;
    };
    std::vector<Session> sessions(1 + c.i(0, 2));
    for (auto& s : sessions) {
        s.seed = c.flag(1, 5) ? 0 : (int)c.i(-1000, 1000000);
        int n = (int)c.i(1, 3);
        for (int i = 0; i < n; ++i) {
            Task t;
            t.world = (int)c.i(0, world.size() - 1);
            auto& w = world[t.world].w;
            t.start = gen_start(c, w);
            if (c.flag(1, 10) && w.sec_world().body.a < 1e19)
                t.start.position = Cartesian3D(3 * w.sec_world().body.a, 0, 0); // an error
            t.max = c.flag() ? 1e20 : t.start.propagated_distance + w.L * c.logu(1e-2, 10);
            t.emin = c.flag() ? 0 : w.E0 * c.logu(1e-4, 1);
            t.cond = (unsigned)c.i(0, 3);
            s.task.push_back(t);
            c.note("session %zu: world %d start %s to %.17g cm %.17g MeV condition %u seed %d\n", &s - &sessions[0], t.world, show(t.start).c_str(), t.max, t.emin, t.cond, s.seed);
        }
    }
    std::vector<std::pair<std::shared_ptr<Secondaries>, Rec>> kept;
    auto propagate = [&](Task const& t, Propagator& p) {
        Rec r;
        ParticleState s = t.start;
        try {
            auto tr = p.Propagate(s, t.max, t.emin, t.cond);
            r = Rec(tr);
            kept.push_back({ std::make_shared<Secondaries>(tr), r });
        } catch (std::logic_error const& e) {
            r.error = e.what();
        }
        c.check(s == t.start, "the start was changed");
        return r;
    };
    auto query = [&](Secondaries const& s) {
        double a = s.GetInitialState().energy, b = s.GetFinalState().energy, f = c.unit();
        try {
            auto geo = world[0].w.sec[0].geom();
            switch (c.i(0, 5)) {
            case 0:
                s.GetStateForEnergy(a * f + b * (1 - f));
                break;
            case 1:
                s.GetStateForDistance(s.GetInitialState().propagated_distance * (1 - f) + f * s.GetFinalState().propagated_distance);
                break;
            case 2:
                s.GetEntryPoint(*geo);
                s.GetExitPoint(*geo);
                break;
            case 3:
                s.GetClosestApproachPoint(*geo);
                s.HitGeometry(*geo);
                break;
            case 4:
                s.GetStochasticLosses();
                s.GetStochasticLosses(*geo);
                s.GetContinuousLosses(*geo);
                s.GetTrack(*geo);
                break;
            default:
                s.GetELost(*geo);
            }
        } catch (DensityException const&) { // not resolved with straggling
        } catch (std::logic_error const&) {
        }
    };
    auto run = [&](Session& s, bool first, bool disturb) {
        std::string how;
        bool custom = disturb && c.flag(1, 4), restore = disturb && !custom && c.flag(1, 4);
        std::mt19937 own((unsigned)s.seed);
        std::uniform_real_distribution<double> u(0., 1.);
        std::function<double()> f = [&] { return u(own); };
        std::string before = rng();
        struct Reset {
            ~Reset() { RandomGenerator::Get().SetDefaultRandomNumberGenerator(); }
        } reset;
        if (custom) {
            RandomGenerator::Get().SetRandomNumberGenerator(f);
            how += "custom generator;";
        } else if (restore) { // the saved state of the generator
            RandomGenerator::Get().SetSeed(s.seed);
            auto x = rng();
            RandomGenerator::Get().SetSeed(s.seed + 1);
            RandomGenerator::Get().RandomDouble();
            std::stringstream y(x);
            RandomGenerator::Get().Deserialize(y);
            how += "restored generator;";
        } else
            RandomGenerator::Get().SetSeed(s.seed);
        for (size_t i = 0; i < s.task.size(); ++i) {
            auto& t = s.task[i];
            auto& p = world[t.world];
            std::shared_ptr<Propagator> q = p.prop[0];
            int k = disturb ? (int)c.i(0, 4) : 0;
            auto state = rng();
            switch (k) {
            case 1:
                q = std::make_shared<Propagator>(p.w.make());
                how += "fresh;";
                break;
            case 2:
                q = std::make_shared<Propagator>(p.w.rebuild().make());
                how += "equal;";
                break;
            case 3:
                q = std::make_shared<Propagator>(*q);
                how += "copy;";
                break;
            case 4:
                how += "queries;";
                for (int n = 0; n < 3 && !kept.empty(); ++n)
                    query(*kept[c.i(0, kept.size() - 1)].first);
                break;
            }
            if (disturb && c.flag(1, 4))
                p.prop.push_back(q), std::swap(p.prop[0], p.prop.back());
            c.check(state == rng(), "construction or queries (%s) used random numbers", how.c_str());
            auto r = propagate(t, *q);
            if (first)
                s.result.push_back(r);
            else
                c.check(r == s.result[i], "propagation %zu of the session %zu differs (%s): %s", i, &s - &sessions[0], how.c_str(), r.text(s.result[i]).c_str());
        }
        if (custom) {
            RandomGenerator::Get().SetDefaultRandomNumberGenerator();
            c.check(before == rng(), "the default generator was used instead of the custom one");
        }
    };
    for (auto& s : sessions)
        run(s, true, false);
    int n = (int)c.i(1, 5);
    for (int i = 0; i < n; ++i)
        run(sessions[c.i(0, sessions.size() - 1)], false, true);
    // decay products, for a seed
    for (int i = 0; i < 2 && !kept.empty(); ++i) {
        auto& k = kept[c.i(0, kept.size() - 1)];
        RandomGenerator::Get().SetSeed(5);
        auto a = k.first->GetDecayProducts();
        k.first->GetDecayProducts();
        RandomGenerator::Get().SetSeed(5);
        auto b = k.first->GetDecayProducts();
        c.check(a.size() == b.size(), "%zu and %zu decay products", a.size(), b.size());
        for (size_t j = 0; j < a.size(); ++j)
            c.check(a[j] == b[j] && a[j].direction == b[j].direction && a[j].energy == b[j].energy, "decay product %zu differs", j);
    }
    run(sessions[0], false, true);
    size_t losses = 0;
    for (auto& k : kept) {
        c.check(Rec(*k.first) == k.second, "a finished track changed: %s", Rec(*k.first).text(k.second).c_str());
        losses += k.second.losses();
    }
    // another seed
    for (auto& s : sessions)
        for (size_t i = 0; i < s.task.size(); ++i)
            if (s.result[i].losses() >= 1) {
                RandomGenerator::Get().SetSeed(s.seed + 7919);
                auto r = propagate(s.task[i], *world[s.task[i].world].prop[0]);
                c.check(!(r == s.result[i]), "another seed gives the same track");
            }
    if (losses > 2)
        c.nontrivial();
}
