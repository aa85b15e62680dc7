// T04: queries of a track agree with the recorded history
#include "track.h"
#include <limits>
using namespace track;
const char* pbt::property_id = "T04";

struct Env { // bounds
    double lo = INF, hi = -INF;
    void add(double x) { lo = std::min(lo, x); hi = std::max(hi, x); }
    void widen(double x) { lo -= x; hi += x; }
    bool in(double x) const { return x >= lo && x <= hi; }
};
struct Hist {
    World w;
    ParticleState start;
    std::vector<ParticleState> t;
    std::vector<InteractionType> y;
    std::vector<double> s; // path coordinate
    double g = 0;          // resolution of borders

    bool moved(size_t i) const { return s[i] > s[i - 1]; }
    Cartesian3D dir(size_t i) const
    {
        auto d = t[i].position - t[i - 1].position;
        d.normalize();
        return d;
    }
    Cartesian3D at(double x) const
    {
        for (size_t i = 1; i < t.size(); ++i)
            if (x <= s[i] && moved(i))
                return t[i - 1].position + (x - s[i - 1]) * dir(i);
        return t.back().position;
    }
    // sector of the step, if known
    Sec const* sector(size_t i) const
    {
        auto k = w.at(0.5 * (t[i - 1].position + t[i].position), 1e-2);
        return k.size() == 1 ? &w.sec[k[0]] : nullptr;
    }
    // energy and time x cm after the state i - 1
    void step(size_t i, double x, Env& E, Env& T) const
    {
        auto &p = t[i - 1], &q = t[i];
        x = std::min(std::max(x, 0.), s[i] - s[i - 1]);
        auto* k = sector(i);
        if (!k || !moved(i)) {
            E.add(p.energy);
            E.add(q.energy);
            T.add(p.time);
            T.add(q.time);
            return;
        }
        double X = k->dens.rho * x;
        if (k->dens.kind) // the library evaluates the density along the initial direction
            X = (double)k->dens.grammage(k->dens.depth(p.position), k->dens.slope(p.position, p.direction), x);
        double e = std::max(k->after(p.energy, X), k->lower), tol = (k->dens.kind ? 1e-5 : 1e-6) * p.energy;
        E.add(std::min(p.energy, e + tol));
        E.add(std::max(q.energy - tol, e - tol));
        double equal = 2e-8 * p.energy / (k->a() + k->b() * p.energy) / (double)k->dens.f(k->dens.depth(p.position)) / C;
        if (w.approximate) {
            T.add(p.time + x / C * (1 - 1e-6));
            T.add(p.time + x / C * (1 + 1e-6));
        } else if (k->dens.kind == 0 && e > w.mass * 1.1 && e > k->lower) {
            double d = exact_time(w, *k, p.energy, e), r = 2e-3 * d + equal;
            T.add(p.time + d - r);
            T.add(p.time + d + r);
        } else {
            T.add(p.time);
            T.add(q.time);
        }
    }
    // bounds for the state at a path coordinate known to +-u
    void env(double x, double u, Env& E, Env& T) const
    {
        for (size_t i = 1; i < t.size(); ++i)
            if (x + u >= s[i - 1] && x - u <= s[i]) {
                step(i, x - u - s[i - 1], E, T);
                step(i, x + u - s[i - 1], E, T);
            }
        if (t.size() == 1 || x - u <= 0)
            E.add(t[0].energy), T.add(t[0].time);
        if (x + u >= s.back())
            E.add(t.back().energy), T.add(t.back().time);
        E.widen(1e-12 * E.hi);
        T.widen(1e-12 * T.hi + 1e-25);
    }
    // parts of the path inside the body when its surfaces are moved by g
    std::vector<std::pair<double, double>> inside(geo::Body const& k, double g_) const
    {
        std::vector<std::pair<double, double>> r;
        for (size_t i = 1; i < t.size(); ++i) {
            if (!moved(i))
                continue;
            double len = s[i] - s[i - 1];
            for (auto& v : k.ray(geo::vec(t[i - 1].position), geo::vec(dir(i)), g_)) {
                double a = (double)std::max<geo::ld>(v.first, 0), b = (double)std::min<geo::ld>(v.second, len);
                if (!(b > a))
                    continue;
                a += s[i - 1];
                b += s[i - 1];
                if (!r.empty() && a - r.back().second <= g * 1e-2)
                    r.back().second = b;
                else
                    r.push_back({ a, b });
            }
        }
        return r;
    }
};
// nothing if the geometry is not resolved
static bool parts(Hist const& h, geo::Body const& k, std::vector<std::pair<double, double>>& r)
{
    auto a = h.inside(k, -h.g), b = h.inside(k, h.g);
    r = h.inside(k, 0);
    if (a.size() != b.size() || r.size() != a.size())
        return false;
    bool A = k.contains(geo::vec(h.t[0].position), h.g), B = k.contains(geo::vec(h.t[0].position), -h.g);
    bool Y = k.contains(geo::vec(h.t.back().position), h.g), Z = k.contains(geo::vec(h.t.back().position), -h.g);
    if (A != B || Y != Z)
        return false;
    for (size_t i = 0; i < r.size(); ++i)
        if (std::abs(a[i].first - b[i].first) > 100 * h.g || std::abs(a[i].second - b[i].second) > 100 * h.g)
            return false;
    return true;
}

static Secondaries gen(Ctx& c, Hist& h, Options o, unsigned cond = 0)
{
    o.cont = false;
    o.maxL = 1e4; // rounding should be smaller than the precision of borders
    h.w = gen_world(c, o);
    h.start = gen_start(c, h.w);
    if (h.w.at(h.start.position, 1e-2).empty())
        c.discard(); // motion along a border is not resolved
    double max = !o.inhomogeneous && c.flag() ? 1e20 : h.start.propagated_distance + h.w.L * c.logu(1e-2, 3);
    double emin = c.flag() ? 0 : h.w.E0 * c.logu(1e-4, 1);
    unsigned seed = (unsigned)c.i(0, 1000000);
    c.note("%s\nstart %s to %.17g cm or %.17g MeV seed %u", h.w.show().c_str(), show(h.start).c_str(), max, emin, seed);
    RandomGenerator::Get().SetSeed(seed);
    auto prop = h.w.make();
    try {
        auto tr = prop.Propagate(h.start, max, emin, cond);
        h.t = tr.GetTrack();
        h.y = tr.GetTrackTypes();
        h.s = { 0 };
        double m = h.t[0].position.magnitude();
        for (size_t i = 1; i < h.t.size(); ++i) {
            h.s.push_back(h.s.back() + (h.t[i].position - h.t[i - 1].position).magnitude());
            m = std::max(m, h.t[i].position.magnitude());
        }
        for (auto& q : h.t)
            for (auto& k : h.w.sec)
                if (k.dens.kind && k.body.contains(geo::vec(q.position), 1) && k.dens.f(k.dens.depth(q.position)) > 1e2 * k.dens.rho)
                    c.discard(); // the steps are shorter than the resolution
        h.g = 2 * RES + 1e-9 * m;
        return tr;
    } catch (std::logic_error const&) { // the range in falling densities (see T02)
        if (!o.inhomogeneous)
            throw;
    }
    c.discard();
    throw 0;
}
static bool same(ParticleState const& a, ParticleState const& b)
{
    return a.energy == b.energy && a.time == b.time && a.propagated_distance == b.propagated_distance && a.position == b.position && a.direction == b.direction && a.type == b.type;
}
// is r the state of the history at the path coordinate x +- u
static void on_track(Ctx& c, Hist const& h, ParticleState const& r, double x, double u, const char* what)
{
    Env E, T;
    h.env(x, u, E, T);
    auto p = h.at(x);
    double prec = u + 1e-9 * (p.magnitude() + r.propagated_distance + h.s.back());
    auto text = [&] { return strf(" (%s: ", what) + show(r) + strf("; path coordinate %.17g +- %g)", x, u); };
    c.check(r.type == h.start.type, "type%s", text().c_str());
    c.check((r.position - p).magnitude() <= prec, "position is %.6g cm from the track%s", (r.position - p).magnitude(), text().c_str());
    c.close(r.propagated_distance, h.start.propagated_distance + x, 0, prec, "propagated distance%s", text().c_str());
    c.check(E.in(r.energy), "energy is not in [%.17g, %.17g]%s", E.lo, E.hi, text().c_str());
    c.check(T.in(r.time), "time is not in [%.17g, %.17g]%s", T.lo, T.hi, text().c_str());
    c.check(std::abs(r.direction.magnitude() - 1) < 1e-7, "direction%s", text().c_str());
}

LAW(states, 160000, 500, "a state inside a continuous loss is requested")
{
    Hist h;
    Options o;
    o.inhomogeneous = c.flag(1, 3);
    o.polynomial = true;
    auto tr = gen(c, h, o);
    auto& t = h.t;
    c.check(tr.GetInitialState() == t.front() && tr.GetFinalState() == t.back() && same(tr.back(), t.back()), "first and last state");
    for (int n = 0; n < 4; ++n) {
        size_t k = c.i(0, t.size() - 1);
        double low = t.back().energy, high = t[0].energy;
        double e = c.flag(1, 3) ? t[k].energy : c.flag() && k ? t[k].energy + (t[k - 1].energy - t[k].energy) * c.unit() : low + (high - low) * c.plain(-0.2, 1.2);
        auto r = tr.GetStateForEnergy(e);
        c.note("\nstate for E = %.17g: %s", e, show(r).c_str());
        if (e >= high)
            c.check(same(r, t[0]), "state above the initial energy");
        else if (e < low)
            c.check(same(r, t.back()), "state below the final energy");
        else if (e > low) {
            size_t i = 1;
            while (!(t[i].energy < e))
                ++i;
            if (h.y[i] != InteractionType::ContinuousEnergyLoss)
                c.check(same(r, t[i - 1]), "energy inside a stochastic loss, the state before is %s", show(t[i - 1]).c_str());
            else {
                c.check(std::abs(r.energy - e) <= 1e-15 * t[i - 1].energy, "energy");
                double x = h.s[i - 1] + (r.propagated_distance - t[i - 1].propagated_distance);
                double prec = 1e-9 * (t[i].propagated_distance + h.s.back()) + 5e-9 * e;
                auto* s = h.sector(i);
                double tol = s ? (1e-7 + (s->dens.kind ? 1e-5 : 1e-6)) * t[i - 1].energy / (double)s->dens.f(s->dens.depth(r.position)) / (s->a() + s->b() * e) + 5 * RES : h.s[i] - h.s[i - 1];
                if (!s)
                    for (auto& k : h.w.sec)
                        tol = std::max(tol, 1e-7 * e / (double)k.dens.f(k.dens.depth(r.position)) / (k.a() + k.b() * e));
                c.check(!s || (x >= h.s[i - 1] - prec && x <= h.s[i] + prec + (s ? std::min(tol, 0.1 * (h.s[i] - h.s[i - 1]) + 5 * RES) : tol)), "not between the neighbours%s", show(t, h.y, i).c_str());
                x = std::min(std::max(x, h.s[i - 1]), h.s[i]);
                if (s)
                    on_track(c, h, r, x, prec + RES * 1e-2 + tol * 1e-1, "for energy");
                c.nontrivial();
            }
        } else { // exactly the final energy: any of the states that have it
            bool any = false;
            for (auto& q : t)
                any = any || (q.energy == e && std::abs(q.propagated_distance - r.propagated_distance) <= 1e-9 * q.propagated_distance);
            c.check(any && std::abs(r.energy - e) <= 1e-12 * e, "final energy");
        }
    }
    for (int n = 0; n < 4; ++n) {
        size_t k = c.i(0, t.size() - 1);
        double low = t[0].propagated_distance, high = t.back().propagated_distance;
        bool exact = c.flag(1, 3);
        double d = exact ? t[k].propagated_distance : c.flag() && k ? t[k].propagated_distance + (t[k - 1].propagated_distance - t[k].propagated_distance) * c.unit() : low + (high - low) * c.plain(-0.2, 1.2);
        auto r = tr.GetStateForDistance(d);
        c.note("\nstate for x = %.17g: %s", d, show(r).c_str());
        if (d < low)
            c.check(same(r, t[0]), "state before the start");
        else if (d > high)
            c.check(same(r, t.back()), "state behind the end");
        else {
            c.check(std::abs(r.propagated_distance - d) <= 1e-14 * d, "distance");
            on_track(c, h, r, d - low, 1e-9 * d, "for distance");
            if (!exact)
                c.nontrivial();
        }
    }
}

LAW(lists, 160000, 500, "there are losses inside the geometry and of the type")
{
    Hist h;
    Options o;
    o.products = true;
    o.inhomogeneous = c.flag(1, 5);
    auto tr = gen(c, h, o);
    auto& t = h.t;
    auto x = tr.GetTrackPositions();
    auto d = tr.GetTrackDirections();
    auto e = tr.GetTrackEnergies();
    auto u = tr.GetTrackTimes();
    auto l = tr.GetTrackPropagatedDistances();
    auto hash = tr.GetTargetHashes();
    c.check(tr.GetTrackLength() == (int)t.size() && x.size() == t.size() && d.size() == t.size() && e.size() == t.size() && u.size() == t.size() && l.size() == t.size() && h.y.size() == t.size() && hash.size() == t.size(), "sizes of the lists");
    for (size_t i = 0; i < t.size(); ++i)
        c.check(x[i] == t[i].position && d[i] == t[i].direction && e[i] == t[i].energy && u[i] == t[i].time && l[i] == t[i].propagated_distance && same(tr[i], t[i]), "state %zu differs", i);
    // losses of one type
    static const InteractionType types[] = { InteractionType::Ioniz, InteractionType::Brems, InteractionType::Epair, InteractionType::Photonuclear, InteractionType::MuPair, InteractionType::WeakInt };
    static const char* names[] = { "Ioniz", "Brems", "Epair", "Photonuclear", "MuPair", "WeakInt" };
    int k = (int)c.i(0, 5);
    auto match = [&](StochasticLoss const& q, size_t i) {
        return q.type == (int)h.y[i] && q.energy == t[i - 1].energy - t[i].energy && q.parent_particle_energy == t[i - 1].energy && q.position == t[i].position && q.direction == t[i].direction && q.time == t[i].time && q.propagated_distance == t[i].propagated_distance && q.target_hash == hash[i];
    };
    std::string name = names[k];
    auto A = tr.GetStochasticLosses(types[k]), B = tr.GetStochasticLosses(name);
    size_t n = 0, all = 0;
    for (size_t i = 1; i < t.size(); ++i) {
        all += h.y[i] != InteractionType::ContinuousEnergyLoss && h.y[i] != InteractionType::Decay;
        if (h.y[i] == types[k]) {
            c.check(n < A.size() && n < B.size() && match(A[n], i) && match(B[n], i), "loss %zu of type %s%s", n, name.c_str(), show(t, h.y, i).c_str());
            ++n;
        }
    }
    c.check(n == A.size() && n == B.size(), "%zu, %zu losses of type %s instead of %zu", A.size(), B.size(), name.c_str(), n);
    c.check(all == tr.GetStochasticLosses().size(), "number of losses");
    std::string bad = name + "x";
    THROWS(c, tr.GetStochasticLosses(bad), "unknown interaction type");
    // inside a geometry
    auto body = c.flag(1, 3) ? h.w.sec[c.i(0, h.w.sec.size() - 1)].body : geo::gen_body(c, 100);
    if (c.flag(2, 3) && body.a < 1e15) {
        double f = h.w.L * c.logu(0.02, 3) / body.size();
        body.a *= f;
        body.b *= f;
        body.h *= f;
        body.c = t[c.i(0, t.size() - 1)].position + c.plain(0, 1) * body.size() * gen_dir(c);
    }
    c.note("\ngeometry %s", body.show().c_str());
    auto geom = body.make();
    auto G = tr.GetTrack(*geom);
    {
        // on the border, the direction decides
        std::vector<ParticleState> want;
        for (auto& q : t)
            if (geom->IsInside(q.position, q.direction))
                want.push_back(q);
        bool equal = want.size() == G.size();
        for (size_t i = 0; equal && i < G.size(); ++i)
            equal = same(G[i], want[i]);
        c.check(equal, "%zu states are in the track inside the geometry, %zu are inside", G.size(), want.size());
    }
    auto S = tr.GetStochasticLosses(*geom);
    auto K = tr.GetContinuousLosses(*geom);
    size_t gi = 0, si = 0, ki = 0;
    for (size_t i = 0; i < t.size(); ++i) {
        bool in = body.contains(geo::vec(t[i].position), -h.g), maybe = body.contains(geo::vec(t[i].position), h.g);
        bool got = gi < G.size() && same(G[gi], t[i]);
        // equal states follow each other
        c.check(maybe ? got || !in : !got || (i + 1 < t.size() && same(t[i], t[i + 1])), "state %zu %s the geometry%s", i, in ? "inside" : "outside", show(t, h.y, i).c_str());
        if (got && maybe)
            ++gi;
        if (i == 0)
            continue;
        if (h.y[i] == InteractionType::ContinuousEnergyLoss) {
            double len = h.s[i] - h.s[i - 1];
            if (!(len > 0))
                continue;
            bool hit = ki < K.size() && K[ki].start_position == t[i - 1].position && K[ki].end_position == t[i].position && K[ki].energy == t[i - 1].energy - t[i].energy && K[ki].parent_particle_energy == t[i - 1].energy && K[ki].time_initial == t[i - 1].time && K[ki].time_final == t[i].time && K[ki].direction_initial == t[i - 1].direction && K[ki].direction_final == t[i].direction;
            double most = overlap(body, t[i - 1].position, h.dir(i), len, h.g), least = overlap(body, t[i - 1].position, h.dir(i), len, -h.g);
            double on = 3e-10;
            bool full = body.contains(geo::vec(t[i - 1].position), on) && body.contains(geo::vec(t[i].position), on) && least > 0.5 * len && least > len - 100 * h.g && most >= len * (1 - 1e-12), none = most < 0.5 * len && most < 100 * h.g && least == 0;
            if (full)
                c.check(hit, "the continuous loss %zu is inside the geometry%s", i, show(t, h.y, i).c_str());
            if (none)
                c.check(!hit, "the continuous loss %zu is outside of the geometry%s", i, show(t, h.y, i).c_str());
            ki += hit;
        } else if (h.y[i] != InteractionType::Decay) {
            bool hit = si < S.size() && match(S[si], i);
            c.check(maybe ? hit || !in : !hit, "stochastic loss %zu %s the geometry%s", i, in ? "inside" : "outside", show(t, h.y, i).c_str());
            si += hit;
        }
    }
    c.check(gi == G.size() && si == S.size(), "%zu states, %zu losses more", G.size() - gi, S.size() - si);
    bool zero = false;
    for (size_t i = 1; i < t.size(); ++i)
        zero = zero || (h.y[i] == InteractionType::ContinuousEnergyLoss && !h.moved(i));
    c.check(zero || ki == K.size(), "%zu continuous losses more", K.size() - ki);
    // decay
    auto P = tr.GetDecayProducts();
    bool decayed = t.size() > 1 && h.y.back() == InteractionType::Decay;
    c.check(P.size() == (decayed ? 2u : 0u), "%zu decay products", P.size());
    if (decayed) {
        double E = 0;
        Cartesian3D q(0, 0, 0);
        for (auto& i : P) {
            E += i.energy;
            q = q + i.energy * i.direction;
            c.check(i.position == t.back().position && i.time == t.back().time && i.propagated_distance == 0. + i.propagated_distance, "place and time of the decay product %s", show(i).c_str());
            c.check(i.type == (int)ParticleType::NuE || i.type == (int)ParticleType::NuMu, "type of the decay product");
        }
        c.close(E, t.back().energy, 1e-6, 0, "energy of the decay products");
        double mom = std::sqrt(std::max(0., (t.back().energy - h.w.mass) * (t.back().energy + h.w.mass)));
        c.check((q - mom * t.back().direction).magnitude() <= 1e-5 * t.back().energy, "momentum of the decay products");
    }
    if (n && si && si < all)
        c.nontrivial();
}

LAW(geometry, 160000, 500, "the track enters or leaves the geometry")
{
    Hist h;
    Options o;
    o.inhomogeneous = c.flag(1, 5);
    o.rates = c.pick({ 1., 20. });
    auto tr = gen(c, h, o);
    auto& t = h.t;
    auto body = c.flag(1, 3) ? h.w.sec[c.i(0, h.w.sec.size() - 1)].body : geo::gen_body(c, 100);
    if (c.flag(2, 3) && body.a < 1e15) {
        double f = std::max(h.w.L, 1.) * c.logu(0.02, 3) / body.size();
        body.a *= f;
        body.b *= f;
        body.h *= f;
        body.c = h.at(h.s.back() * c.unit()) + c.plain(0, 2) * body.size() * gen_dir(c);
    }
    c.note("\ngeometry %s", body.show().c_str());
    auto geom = body.make();
    // point of closest approach to the centre
    {
        double best = (t[0].position - body.c).magnitude();
        for (size_t i = 1; i < t.size(); ++i) {
            best = std::min(best, (t[i].position - body.c).magnitude());
            if (!h.moved(i))
                continue;
            double x = (body.c - t[i - 1].position) * h.dir(i);
            if (x > 0 && x < h.s[i] - h.s[i - 1])
                best = std::min(best, (t[i - 1].position + x * h.dir(i) - body.c).magnitude());
        }
        auto r = tr.GetClosestApproachPoint(*geom);
        c.check(r != nullptr, "no closest point");
        double is = (r->position - body.c).magnitude();
        c.check(is <= best + h.g + 1e-9 * body.c.magnitude(), "closest point %s is %.17g cm from the centre, %.17g cm are possible", show(*r).c_str(), is, best);
        on_track(c, h, *r, r->propagated_distance - h.start.propagated_distance, h.g, "closest approach");
    }
    std::vector<std::pair<double, double>> v;
    if (!parts(h, body, v))
        c.discard();
    bool started = body.contains(geo::vec(t[0].position)), ended = body.contains(geo::vec(t.back().position));
    if (t.size() == 1 || h.s.back() < 1e3 * h.g)
        c.discard();
    auto entry = tr.GetEntryPoint(*geom), exit = tr.GetExitPoint(*geom);
    c.note("\nentry %s exit %s", entry ? show(*entry).c_str() : "-", exit ? show(*exit).c_str() : "-");
    c.check(tr.HitGeometry(*geom) == !v.empty(), "HitGeometry is wrong, %zu parts of the track are inside", v.size());
    double lost = tr.GetELost(*geom);
    if (v.empty()) {
        c.check(!entry && !exit, "the track does not meet the geometry");
        c.check(lost == 0, "energy %g lost without meeting the geometry", lost);
        return;
    }
    c.check((entry != nullptr) == !started, "the track starts %s the geometry", started ? "inside" : "outside");
    c.check((exit != nullptr) == !ended, "the track ends %s the geometry", ended ? "inside" : "outside");
    if (getenv("DBG"))
        for (size_t i = 0; i < t.size(); ++i)
            fprintf(stderr, "%zu type %d s %.9g sector %d %s\n", i, (int)h.y[i], h.s[i], i ? (h.sector(i) ? int(h.sector(i) - &h.w.sec[0]) : -1) : -2, show(t[i]).c_str());
    Env A, B, T;
    double u = 100 * h.g;
    if (entry)
        on_track(c, h, *entry, v[0].first, u, "entry");
    if (exit)
        on_track(c, h, *exit, v.back().second, u, "exit");
    if (entry || exit)
        c.nontrivial();
    if (entry)
        c.check((double)body.contains(geo::vec(entry->position), h.g) && !body.contains(geo::vec(entry->position), -h.g), "the entry point is not on the border");
    if (exit)
        c.check((double)body.contains(geo::vec(exit->position), h.g) && !body.contains(geo::vec(exit->position), -h.g), "the exit point is not on the border");
    if (v.size() == 1) {
        h.env(v[0].first, u, A, T);
        h.env(v[0].second, u, B, T);
        if (started)
            A = Env(), A.add(t[0].energy);
        if (ended)
            B = Env(), B.add(t.back().energy);
        double tol = 1e-12 * t[0].energy;
        c.check(lost >= A.lo - B.hi - tol && lost <= A.hi - B.lo + tol, "%.17g MeV are lost inside, not %.17g to %.17g", lost, A.lo - B.hi, A.hi - B.lo);
    }
}

// a track that ends on the border of a sector hits it
LAW(border, 24000, 500, "the hierarchy condition ends the track")
{
    Hist h;
    Options o;
    o.scatter = false;
    unsigned cond = (unsigned)c.i(1, 4);
    auto tr = gen(c, h, o, cond);
    if (h.t.size() < 2)
        return;
    auto &q = h.t.back();
    auto a = h.w.at(q.position - 0.1 * q.direction, 1e-2), b = h.w.at(q.position + 0.1 * q.direction, 1e-2);
    if (a.size() != 1 || b.size() != 1 || a == b)
        c.discard();
    auto& in = h.w.sec[b[0]].body;
    if (in.contains(geo::vec(q.position - 0.1 * q.direction), 1e-2) || !in.contains(geo::vec(q.position), 3e-10) || in.contains(geo::vec(q.position), -3e-10))
        c.discard();
    c.check(tr.HitGeometry(*in.make()), "the track ends on the border of the sector but does not hit it");
    c.nontrivial();
}
