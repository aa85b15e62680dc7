#include "common.h"

void pbt::global_setup()
{
    Logging::SetGlobalLoglevel(spdlog::level::off);
    RandomGenerator::Get().SetSeed(1);
}

Cartesian3D gen_dir(Ctx& c)
{
    switch (c.draw(9)) {
    case 0: {
        double s = c.flag() ? 1 : -1;
        int a = int(c.draw(2));
        return Cartesian3D(a == 0 ? s : 0., a == 1 ? s : 0., a == 2 ? s : 0.);
    }
    case 1: { // in a coordinate plane
        double phi = c.u(0, 2 * PI);
        int a = int(c.draw(2));
        double x = std::cos(phi), y = std::sin(phi);
        return a == 0 ? Cartesian3D(0, x, y) : a == 1 ? Cartesian3D(x, 0, y) : Cartesian3D(x, y, 0);
    }
    case 2: { // close to an axis
        double e = std::pow(10., -c.plain(1, 12));
        double phi = c.plain(0, 2 * PI);
        double s = c.flag() ? 1 : -1;
        double x = e * std::cos(phi), y = e * std::sin(phi);
        double z = s * std::sqrt(1 - x * x - y * y);
        int a = int(c.draw(2));
        return a == 0 ? Cartesian3D(z, x, y) : a == 1 ? Cartesian3D(x, z, y) : Cartesian3D(x, y, z);
    }
    default: {
        double ct = c.plain(-1, 1), phi = c.plain(0, 2 * PI);
        double st = std::sqrt((1 - ct) * (1 + ct));
        double x = st * std::cos(phi), y = st * std::sin(phi), z = ct;
        double n = std::sqrt(x * x + y * y + z * z);
        return Cartesian3D(x / n, y / n, z / n);
    }
    }
}

double gen_coord(Ctx& c, double s)
{
    switch (c.draw(5)) {
    case 0:
        return 0.;
    case 1:
        return s * double(c.i(-8, 8)) / 8.;
    default:
        return c.plain(-s, s);
    }
}

Cartesian3D gen_pos(Ctx& c, double s)
{
    double x = gen_coord(c, s), y = gen_coord(c, s), z = gen_coord(c, s);
    return Cartesian3D(x, y, z);
}

std::string str(Vector3D const& v)
{
    auto a = v.GetCartesianCoordinates();
    return strf("(%.17g,%.17g,%.17g)", a[0], a[1], a[2]);
}

namespace {
// Gauss-Legendre 10 and 21-ish: use 10 and 20 point rules for error control
struct Rule {
    std::vector<double> x, w;
    explicit Rule(int n)
    {
        x.resize(n);
        w.resize(n);
        for (int i = 0; i < n; ++i) {
            double z = std::cos(M_PI * (i + 0.75) / (n + 0.5)), pp = 1;
            for (int it = 0; it < 100; ++it) {
                double p1 = 1, p2 = 0;
                for (int j = 0; j < n; ++j) {
                    double p3 = p2;
                    p2 = p1;
                    p1 = ((2. * j + 1) * z * p2 - j * p3) / (j + 1);
                }
                pp = n * (z * p1 - p2) / (z * z - 1);
                double dz = p1 / pp;
                z -= dz;
                if (std::abs(dz) < 1e-15)
                    break;
            }
            x[i] = z;
            w[i] = 2. / ((1 - z * z) * pp * pp);
        }
    }
    double operator()(std::function<double(double)> const& f, double a, double b) const
    {
        double s = 0, m = 0.5 * (a + b), h = 0.5 * (b - a);
        for (size_t i = 0; i < x.size(); ++i)
            s += w[i] * f(m + h * x[i]);
        return s * h;
    }
};
}

double quad(std::function<double(double)> const& f, double a, double b,
    double rtol, double atol, int splits)
{
    static Rule lo(7), hi(15);
    if (a == b)
        return 0;
    if (a > b)
        return -quad(f, b, a, rtol, atol, splits);
    struct Seg {
        double a, b, v, e;
    };
    auto mk = [&](double x, double y) {
        double v = hi(f, x, y), u = lo(f, x, y);
        return Seg { x, y, v, std::abs(u - v) };
    };
    std::vector<Seg> s;
    for (int i = 0; i < 4; ++i)
        s.push_back(mk(a + (b - a) * i / 4., i == 3 ? b : a + (b - a) * (i + 1) / 4.));
    for (int it = 0; it < splits; ++it) {
        double v = 0, e = 0;
        size_t w = 0;
        for (size_t i = 0; i < s.size(); ++i) {
            v += s[i].v;
            e += s[i].e;
            if (s[i].e > s[w].e)
                w = i;
        }
        if (!(e > std::max(atol, rtol * std::abs(v))))
            break;
        auto x = s[w];
        double m = 0.5 * (x.a + x.b);
        if (!(m > x.a && m < x.b))
            break;
        s[w] = mk(x.a, m);
        s.push_back(mk(m, x.b));
    }
    double v = 0;
    for (auto& x : s)
        v += x.v;
    return v;
}

double quad_log(std::function<double(double)> const& f, double a, double b,
    double rtol, double atol, int splits)
{
    return quad([&](double t) { double x = std::exp(t); return x * f(x); },
        std::log(a), std::log(b), rtol, atol, splits);
}
