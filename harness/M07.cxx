// M07: random generator
#include "common.h"
#include <sstream>
#include <algorithm>
#include <memory>

const char* pbt::property_id = "M07";

namespace {
struct Model { // (seed, number of draws) identifies the state
    int seed;
    size_t pos;
};
}

LAW(state_machine, 12000, 50, "history with a draw after restoring a saved state")
{
    auto& g = RandomGenerator::Get();
    const size_t LEN = 6000;
    std::vector<int> seeds;
    std::vector<std::vector<double>> ref;
    int ns = 1 + int(c.draw(2));
    for (int k = 0; k < ns; ++k) {
        int s;
        switch (c.draw(3)) {
        case 0:
            s = int(c.i(0, 5));
            break;
        case 1:
            s = int(c.i(-2147483647, 2147483647));
            break;
        default:
            s = int(c.i(1, 100000));
        }
        seeds.push_back(s);
        g.SetSeed(s);
        std::vector<double> v(LEN);
        for (auto& x : v)
            x = g.RandomDouble();
        ref.push_back(v);
    }
    for (int k = 1; k < ns; ++k)
        if (seeds[k] != seeds[0])
            c.check(ref[k] != ref[0], "seeds %d and %d give the same sequence", seeds[k], seeds[0]);
    struct Saved {
        std::string text;
        int k;
        size_t pos;
    };
    std::vector<Saved> saved;
    int cur = ns - 1;
    size_t pos = LEN;
    bool user = false, restored = false;
    double userval = 0.25;
    size_t usercalls = 0;
    std::string log;
    int nops = int(c.i(1, 40));
    for (int o = 0; o < nops; ++o) {
        switch (c.draw(6)) {
        case 0: {
            cur = int(c.draw(ns - 1));
            pos = 0;
            g.SetSeed(seeds[cur]);
            log += strf("seed%d ", seeds[cur]);
            break;
        }
        case 1: {
            std::ostringstream os;
            g.Serialize(os);
            saved.push_back({ os.str(), cur, pos });
            log += "save ";
            break;
        }
        case 2: {
            if (saved.empty())
                break;
            auto& s = saved[c.draw(saved.size() - 1)];
            std::istringstream is(s.text);
            g.Deserialize(is);
            cur = s.k;
            pos = s.pos;
            restored = true;
            log += strf("load@%zu ", pos);
            break;
        }
        case 3: {
            if (c.flag()) {
                userval = double(c.i(0, 1000)) / 1001.;
                double v = userval;
                std::function<double()> f = [v, &usercalls]() { ++usercalls; return v; };
                g.SetRandomNumberGenerator(f);
                user = true;
                log += "user ";
            } else {
                g.SetDefaultRandomNumberGenerator();
                user = false;
                log += "default ";
            }
            break;
        }
        default: {
            size_t n = c.flag(1, 4) ? c.draw(700) : c.draw(5);
            log += strf("draw%zu ", n);
            for (size_t k = 0; k < n; ++k) {
                if (user) {
                    size_t b = usercalls;
                    double x = g.RandomDouble();
                    c.check(x == userval && usercalls == b + 1, "user generator not used");
                } else {
                    if (pos >= LEN)
                        break;
                    double x = g.RandomDouble();
                    c.check(x == ref[cur][pos], "draw %zu after seed %d is %.17g instead of %.17g; history %s", pos, seeds[cur], x, ref[cur][pos], log.c_str());
                    ++pos;
                    if (restored)
                        c.nontrivial();
                }
            }
        }
        }
    }
    c.note("seeds=%d.. history=%s", seeds[0], log.c_str());
    g.SetDefaultRandomNumberGenerator();
}

LAW(range_and_uniformity, 1200, 10, "sequence of 20000 draws")
{
    auto& g = RandomGenerator::Get();
    int seed = int(c.i(-1000000, 1000000));
    c.note("seed=%d", seed);
    c.nontrivial();
    g.SetSeed(seed);
    const int N = 20000, B = 40;
    std::vector<double> x(N);
    for (auto& v : x) {
        v = g.RandomDouble();
        c.check(v >= 0 && v < 1, "draw %.17g outside [0,1)", v);
    }
    std::vector<int> h(B), low(B);
    for (double v : x) {
        h[int(v * B)]++;
        low[int(std::fmod(v * 1048576., 1.) * B)]++;
    }
    // chi2 with 39 degrees of freedom: P(chi2 > 140) ~ 1e-13
    for (auto* p : { &h, &low }) {
        double chi = 0, e = double(N) / B;
        for (int n : *p)
            chi += (n - e) * (n - e) / e;
        c.check(chi < 140, "chi2 of the draws is %.1f for 39 degrees of freedom", chi);
    }
    for (int lag = 1; lag <= 8; ++lag) {
        double s = 0;
        for (int k = 0; k + lag < N; ++k)
            s += (x[k] - 0.5) * (x[k + lag] - 0.5);
        double z = s / std::sqrt(double(N - lag)) * 12;
        c.check(std::abs(z) < 7.5, "serial correlation at lag %d: %.2f sigma", lag, z);
    }
    std::vector<double> y = x;
    std::sort(y.begin(), y.end());
    double D = 0;
    for (int k = 0; k < N; ++k)
        D = std::max({ D, std::abs(y[k] - double(k) / N), std::abs(y[k] - double(k + 1) / N) });
    c.check(D * std::sqrt(double(N)) < 4, "Kolmogorov distance %.3g", D);
    int dup = 0;
    for (int k = 1; k < N; ++k)
        dup += y[k] == y[k - 1];
    c.check(dup < 5, "%d repeated values in %d draws", dup, N);
}
