// K02: decay tables
#include "common.h"
#include "PROPOSAL/decay/DecayTable.h"
#include "PROPOSAL/decay/LeptonicDecayChannel.h"
#include "PROPOSAL/decay/ManyBodyPhaseSpace.h"
#include "PROPOSAL/decay/StableChannel.h"
#include "PROPOSAL/decay/TwoBodyPhaseSpace.h"
#include "PROPOSAL/particle/Particle.h"
#include <algorithm>
#include <memory>
#include <set>

const char* pbt::property_id = "K02";

// kind and daughters identify a channel
struct Chan {
    int kind = 0;
    std::vector<int> d;
    bool uniform = true;
    // the approximate and the exact leptonic decay into the same products compare equal (the repository's tests rely on it)
    int cls() const { return kind == 2 ? 3 : kind; }
    bool operator==(Chan const& o) const { return cls() == o.cls() && d == o.d && uniform == o.uniform; }
    std::string text() const
    {
        std::string s = strf("%d(", kind);
        for (int x : d)
            s += strf("%d ", x);
        return s + (uniform ? ")" : ")*");
    }
    std::unique_ptr<DecayChannel> make() const
    {
        auto p = [&](int i) { return ParticleDef::GetParticleDefForType(d[size_t(i)]); };
        switch (kind) {
        case 0: return std::unique_ptr<DecayChannel>(new StableChannel());
        case 1: return std::unique_ptr<DecayChannel>(new TwoBodyPhaseSpace(p(0), p(1)));
        case 2: return std::unique_ptr<DecayChannel>(new LeptonicDecayChannelApprox(p(0), p(1), p(2)));
        case 3: return std::unique_ptr<DecayChannel>(new LeptonicDecayChannel(p(0), p(1), p(2)));
        default: {
            ManyBodyPhaseSpace::Builder b;
            for (size_t i = 0; i < d.size(); ++i)
                b.addDaughter(p(int(i)));
            std::unique_ptr<DecayChannel> r(new ManyBodyPhaseSpace(b.build()));
            if (!uniform)
                r->SetUniformSampling(false);
            return r;
        }
        }
    }
};
static Chan gen_chan(Ctx& c, bool decaying = false)
{
    static const std::vector<int> light { 11, -11, 12, -12, 14, -14, 16, -16, 22, 13, 111 };
    Chan k;
    k.kind = int(c.i(decaying ? 1 : 0, 4));
    size_t n = k.kind == 0 ? 0 : k.kind == 1 ? 2 : k.kind < 4 ? 3 : size_t(c.i(2, 4));
    for (size_t i = 0; i < n; ++i)
        k.d.push_back(k.kind > 1 && k.kind < 4 ? (i == 0 ? c.pick({ 11, 13, -11, -13 }) : c.pick({ 12, 14, 16, -12 })) : c.pick(light));
    return k;
}
static double gen_ratio(Ctx& c) { return c.flag(1, 3) ? c.pick({ 0.5, 0.25, 0.1, 0.125, 1. }) : c.flag() ? c.logu(1e-6, 1) : c.plain(0.01, 1); }

struct Model {
    std::vector<std::pair<double, Chan>> e;
    DecayTable t;
    double sum() const
    {
        double s = 0;
        for (auto& x : e)
            s += x.first;
        return s;
    }
};

// measured share of every channel on an even grid of random numbers
static void check_shares(Ctx& c, Model const& m)
{
    if (m.e.empty())
        return;
    const int n = 600;
    double sum = m.sum();
    // same channel with several ratios: added
    std::vector<std::pair<Chan, double>> want;
    std::vector<std::unique_ptr<DecayChannel>> made;
    for (auto& x : m.e) {
        bool found = false;
        for (auto& w : want)
            if (w.first == x.second) {
                w.second += x.first;
                found = true;
            }
        if (!found) {
            want.push_back({ x.second, x.first });
            made.push_back(x.second.make());
        }
    }
    std::vector<int> hits(want.size(), 0);
    std::map<DecayChannel const*, size_t> who;
    auto ask = [&](double r) {
        DecayChannel& ch = m.t.SelectChannel(r);
        auto it = who.find(&ch);
        if (it == who.end()) {
            size_t k = 0;
            while (k < made.size() && *made[k] != ch)
                ++k;
            c.check(k < made.size(), "random number %.17g selects a channel that was never added (%s)", r, ch.GetName().c_str());
            it = who.insert({ &ch, k }).first;
        }
        return it->second;
    };
    int changes = 0;
    size_t last = 0;
    for (int i = 0; i < n; ++i) {
        size_t k = ask((i + 0.5) / n);
        changes += i > 0 && k != last;
        last = k;
        ++hits[k];
    }
    ask(0);
    ask(1 - 1e-16);
    ask(std::nextafter(1., 0.));
    for (size_t k = 0; k < want.size(); ++k) {
        double share = want[k].second / sum * n, pieces = double(m.e.size());
        c.check(std::abs(hits[k] - share) <= pieces + 1e-6, "channel %s is selected for %d of %d random numbers, expected %.6g", want[k].first.text().c_str(), hits[k], n, share);
    }
    c.check(changes < int(m.e.size()), "channels alternate over the random number");
}

static void compare(Ctx& c, Model const& a, Model const& b, bool same)
{
    c.check((a.t == b.t) == same && (b.t == a.t) == same && (a.t != b.t) == !same, "comparison should give %d", same);
}

LAW(histories, 40000, 100, "a table with at least two channels was copied, assigned or swapped")
{
    std::vector<std::unique_ptr<Model>> m;
    m.emplace_back(new Model());
    int n = int(c.i(1, 14));
    for (int i = 0; i < n; ++i) {
        size_t k = size_t(c.i(0, long(m.size()) - 1)), j = size_t(c.i(0, long(m.size()) - 1));
        switch (c.i(0, 9)) {
        default: {
            Chan ch = gen_chan(c);
            double r = !m[k]->e.empty() && c.flag(1, 4) ? m[k]->e[0].first : gen_ratio(c);
            c.note("add %zu %.17g %s", k, r, ch.text().c_str());
            auto p = ch.make();
            if (c.flag())
                m[k]->t.addChannel(r, *p).addChannel(r / 2, *p);
            else {
                auto q = ch.make();
                m[k]->t.addChannel(r, *p);
                m[k]->t.addChannel(r / 2, *q);
            }
            m[k]->e.push_back({ r, ch });
            m[k]->e.push_back({ r / 2, ch });
            break;
        }
        case 5:
            if (m.size() < 4) {
                c.note("copy %zu", k);
                m.emplace_back(new Model { m[k]->e, DecayTable(m[k]->t) });
                if (m[k]->e.size() > 1)
                    c.nontrivial();
            }
            break;
        case 6:
            c.note("assign %zu %zu", k, j);
            m[k]->t = m[j]->t;
            m[k]->e = m[j]->e;
            if (m[k]->e.size() > 1)
                c.nontrivial();
            break;
        case 7:
            c.note("swap %zu %zu", k, j);
            swap(m[k]->t, m[j]->t);
            std::swap(m[k]->e, m[j]->e);
            break;
        case 8:
            c.note("stable %zu", k);
            m[k]->t.SetStable();
            m[k]->e = { { 1.1, Chan() } };
            break;
        case 9:
            if (m.size() > 1) {
                c.note("drop %zu", k);
                m.erase(m.begin() + long(k));
            }
            break;
        case 4: {
            bool u = c.flag();
            c.note("uniform %zu %d", k, u);
            m[k]->t.SetUniformSampling(u);
            for (auto& x : m[k]->e)
                if (x.second.kind == 4)
                    x.second.uniform = u;
            break;
        }
        }
    }
    for (auto& x : m) {
        check_shares(c, *x);
        DecayTable copy(x->t);
        c.check(copy == x->t, "copy differs");
        std::ostringstream os;
        os << x->t;
    }
    // tables with the same entries added in the same order are equal, other
    // sets of entries are not
    auto key = [](Model const& x) {
        std::multiset<std::pair<double, std::string>> s;
        for (auto& e : x.e)
            s.insert({ e.first, e.second.text() });
        return s;
    };
    for (auto& x : m)
        for (auto& y : m) {
            bool same = key(*x) == key(*y);
            if (!same)
                compare(c, *x, *y, false);
            else if (x->e == y->e)
                compare(c, *x, *y, true);
        }
    // the same table built again
    Model again;
    auto& x = *m.back();
    for (auto& e : x.e)
        again.t.addChannel(e.first, *e.second.make());
    again.e = x.e;
    compare(c, again, x, true);
}

LAW(one_difference, 48000, 200, "many body channels with one other daughter")
{
    int n = int(c.i(1, 4));
    Model a, b;
    int at = int(c.i(0, n - 1)), what = int(c.i(0, 5));
    std::vector<double> used;
    for (int i = 0; i < n; ++i) {
        Chan ch = gen_chan(c);
        double r = gen_ratio(c);
        for (double u : used)
            c.require(u != r);
        used.push_back(r);
        a.e.push_back({ r, ch });
        Chan o = ch;
        double q = r;
        if (i == at) {
            switch (what) {
            case 0: q = std::nextafter(r, 2); break;
            case 1: q = r * 0.9; break;
            case 2: o = gen_chan(c); break;
            case 3:
                if (!o.d.empty()) {
                    auto& d = o.d[size_t(c.i(0, long(o.d.size()) - 1))];
                    d = o.kind == 2 || o.kind == 3 ? c.pick({ 11, 12, 13, 14, 16 }) : c.pick({ 12, 14, 16, 22, 11, -11 });
                }
                break;
            case 4:
                if (o.kind == 4)
                    o.uniform = false;
                else if (o.kind == 2)
                    o.kind = 3;
                break;
            default:
                if (o.d.size() == 2)
                    o.kind = 5 - o.kind;
                else if (o.kind == 4)
                    o.d.push_back(22);
                break;
            }
            c.note("%.17g %s / %.17g %s", r, ch.text().c_str(), q, o.text().c_str());
            if (o.kind == 4 && ch.kind == 4 && o.d.size() == ch.d.size() && o.d != ch.d)
                c.nontrivial();
            auto p1 = ch.make(), p2 = o.make();
            bool same = ch == o;
            c.check((*p1 == *p2) == same && (*p2 == *p1) == same && (*p1 != *p2) == !same, "channels %s and %s should %s equal", ch.text().c_str(), o.text().c_str(), same ? "be" : "not be");
        }
        b.e.push_back({ q, o });
    }
    for (auto& e : a.e)
        a.t.addChannel(e.first, *e.second.make());
    // distinct ratios: the order of adding does not matter
    std::vector<std::pair<double, Chan>> perm = b.e;
    for (size_t i = perm.size(); i > 1; --i)
        std::swap(perm[i - 1], perm[size_t(c.i(0, long(i) - 1))]);
    for (auto& e : perm)
        b.t.addChannel(e.first, *e.second.make());
    for (size_t i = 0; i < perm.size(); ++i)
        for (size_t j = 0; j < i; ++j)
            c.require(perm[i].first != perm[j].first);
    compare(c, a, b, a.e == b.e);
    check_shares(c, a);
    check_shares(c, b);
    for (int k = 0; k < 20; ++k) {
        double r = c.unit();
        if (a.e == b.e)
            c.check(a.t.SelectChannel(r) == b.t.SelectChannel(r), "equal tables select different channels for %.17g", r);
    }
    // inside a particle definition
    static int type = 5000000;
    auto build = [&](DecayTable const& t, int ty) { return ParticleDef::Builder().SetName("p").SetMass(2000).SetLow(2000).SetLifetime(1).SetCharge(-1).SetDecayTable(t).SetParticleType(ty).build(); };
    int ty = ++type;
    ParticleDef p = build(a.t, ty);
    c.check(p.decay_table == a.t, "table inside the particle differs");
    ParticleDef p2(p), p3 = ParticleDef::GetParticleDefForType(ty);
    c.check(p2.decay_table == a.t && p3.decay_table == a.t && p2 == p && p3 == p, "table inside a copied particle differs");
    for (int k = 0; k < 5; ++k) {
        double r = c.unit();
        c.check(p2.decay_table.SelectChannel(r) == a.t.SelectChannel(r) && p3.decay_table.SelectChannel(r) == a.t.SelectChannel(r), "copied particle selects another channel");
    }
    if (!(a.e == b.e))
        THROWS(c, build(b.t, ty), "particle type defined again with another decay table");
    else
        c.check(build(b.t, ty) == p, "same particle defined again");
}

// built-in decay tables: known ratios, charge and lepton family numbers
struct Q {
    int charge, le, lmu, ltau;
};
static Q quantum(int t)
{
    int a = std::abs(t), s = t > 0 ? 1 : -1;
    switch (a) {
    case 11: return { -s, s, 0, 0 };
    case 12: return { 0, s, 0, 0 };
    case 13: return { -s, 0, s, 0 };
    case 14: return { 0, 0, s, 0 };
    case 15: return { -s, 0, 0, s };
    case 16: return { 0, 0, 0, s };
    case 211: case 321: return { s, 0, 0, 0 };
    default: return { 0, 0, 0, 0 };
    }
}
LAW(builtin, 16000, 100, "random number differs from the others by less than a percent")
{
    int t = c.pick({ 13, -13, 15, -15 });
    auto p = ParticleDef::GetParticleDefForType(t);
    double r = c.flag() ? c.unit() : c.prob();
    if (r < 0.01 || r > 0.99)
        c.nontrivial();
    c.note("type %d random %.17g", t, r);
    ParticleState s(Cartesian3D(0, 0, 0), Cartesian3D(0, 0, 1), p.mass * (1 + c.logu(1e-3, 1e3)), 0, 0);
    s.type = t;
    RandomGenerator::Get().SetSeed(int(c.draw(1000)));
    auto d = p.decay_table.SelectChannel(r).Decay(p, s);
    c.check(d.size() >= 2, "%zu products", d.size());
    Q a = quantum(t), q { 0, 0, 0, 0 };
    for (auto& x : d) {
        Q y = quantum(x.type);
        q = { q.charge + y.charge, q.le + y.le, q.lmu + y.lmu, q.ltau + y.ltau };
    }
    c.check(q.charge == a.charge && q.le == a.le && q.lmu == a.lmu && q.ltau == a.ltau, "charge or lepton number is not conserved");
}
static std::string name(std::vector<int> v, int sign)
{
    for (int& x : v)
        if (x != 111 && x != 22 && x != 311)
            x *= sign;
    std::sort(v.begin(), v.end());
    std::string s;
    for (int x : v)
        s += strf("%d ", x);
    return s;
}
LAW(builtin_shares, 32, 1, "tau")
{
    int t = c.pick({ 15, -15, 13, -13 });
    auto p = ParticleDef::GetParticleDefForType(t);
    c.note("type %d seed %ld", t, c.i(0, 1000));
    std::map<std::string, double> want;
    int sg = t > 0 ? 1 : -1;
    auto w = [&](std::vector<int> v, double r) { want[name(v, sg)] = r; };
    if (std::abs(t) == 13)
        w({ 11, 14, -12 }, 1);
    else {
        c.nontrivial();
        // Review of particle physics, percent
        w({ 13, 16, -14 }, 0.1737), w({ 11, 16, -12 }, 0.1783), w({ -211, 16 }, 0.1153), w({ -211, 111, 16 }, 0.2595);
        w({ -211, 111, 111, 16 }, 0.0952), w({ -211, -211, 211, 16 }, 0.098), w({ -211, -211, 211, 111, 16 }, 0.0457);
        w({ -211, 111, 111, 111, 16 }, 0.0119), w({ -211, 311, 16 }, 0.01), w({ -321, 211, -211, 16 }, 0.00349);
    }
    double sum = 0;
    for (auto& x : want)
        sum += x.second;
    const int n = 2000;
    std::map<std::string, int> got;
    std::map<DecayChannel*, std::string> who;
    ParticleState s(Cartesian3D(0, 0, 0), Cartesian3D(0, 0, 1), p.mass, 0, 0);
    s.type = t;
    for (int i = 0; i < n; ++i) {
        auto& ch = p.decay_table.SelectChannel((i + 0.5) / n);
        auto& nm = who[&ch];
        if (nm.empty()) {
            std::vector<int> v;
            for (auto& x : ch.Decay(p, s))
                v.push_back(x.type);
            nm = name(v, 1);
        }
        ++got[nm];
    }
    for (auto& x : want)
        c.check(std::abs(got[x.first] - x.second / sum * n) < 2, "channel %s is selected for %d of %d random numbers, expected %.5g", x.first.c_str(), got[x.first], n, x.second / sum * n);
}
