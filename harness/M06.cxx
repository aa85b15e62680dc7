// M06: vectors keep their geometric meaning in every representation
#include "common.h"
#include <nlohmann/json.hpp>

const char* pbt::property_id = "M06";

static double eps_pole(Cartesian3D const& n)
{
    // zenith = acos(z/r) carries an error of ~1e-16/sin(zenith), at most
    // ~2e-8 next to the poles
    double r = n.magnitude();
    double s = std::hypot(n.GetX(), n.GetY()) / r;
    return std::min(6e-8, 2e-15 / std::max(s, 1e-30) + 2e-14);
}

static Cartesian3D gen_vec(Ctx& c)
{
    double r = c.logu(1e-8, 1e12);
    auto d = c.flag(1, 3) ? gen_pos(c, 1.) : gen_dir(c);
    return Cartesian3D(d.GetX() * r, d.GetY() * r, d.GetZ() * r);
}

LAW(roundtrip_cartesian, 500000, 4000, "vector with at least two non-zero components")
{
    auto v = gen_vec(c);
    c.note("v=%s", str(v).c_str());
    int nz = (v.GetX() != 0) + (v.GetY() != 0) + (v.GetZ() != 0);
    if (nz >= 2)
        c.nontrivial();
    double r = std::sqrt(double((long double)v.GetX() * v.GetX() + (long double)v.GetY() * v.GetY() + (long double)v.GetZ() * v.GetZ()));
    c.close(v.magnitude(), r, 1e-14, 0, "magnitude");
    Spherical3D s(v);
    c.close(s.GetRadius(), r, 1e-14, 0, "radius");
    c.close(s.magnitude(), r, 1e-14, 0, "magnitude of spherical");
    if (r == 0)
        return;
    c.check(s.GetZenith() >= 0 && s.GetZenith() <= PI + 1e-12, "zenith %.17g outside [0,pi]", s.GetZenith());
    double t = eps_pole(v);
    c.close(s.GetZenith(), std::atan2(std::hypot(v.GetX(), v.GetY()), v.GetZ()), 0, t, "zenith");
    if (v.GetX() != 0 || v.GetY() != 0) {
        double d = s.GetAzimuth() - std::atan2(v.GetY(), v.GetX());
        d = std::remainder(d, 2 * PI);
        c.close(d, 0, 0, 1e-14, "azimuth");
    }
    Cartesian3D b(s);
    for (int k = 0; k < 3; ++k)
        c.close(b[k], v[k], 0, t * r, "component %d of %s after the way to spherical and back", k, str(v).c_str());
    // copies of the same kind are exact
    Cartesian3D cc((Vector3D const&)v);
    Spherical3D ss((Vector3D const&)s);
    for (int k = 0; k < 3; ++k) {
        c.check(cc[k] == v[k], "cartesian copy differs");
        c.check(ss[k] == s[k], "spherical copy differs");
    }
    if (r > 0) {
        auto n = v;
        n.normalize();
        c.close(n.magnitude(), 1, 0, 1e-14, "normalised magnitude");
        for (int k = 0; k < 3; ++k)
            c.close(n[k], v[k] / r, 0, 1e-14, "normalised component");
        auto sn = s;
        sn.normalize();
        Cartesian3D sc(sn);
        for (int k = 0; k < 3; ++k)
            c.close(sc[k], v[k] / r, 0, t, "normalised spherical component");
    }
}

LAW(roundtrip_spherical, 500000, 4000, "zenith away from the poles")
{
    double r = c.logu(1e-6, 1e10), az = c.u(-PI, PI), ze = c.u(0, PI);
    c.note("r=%.17g azimuth=%.17g zenith=%.17g", r, az, ze);
    Spherical3D s(r, az, ze);
    c.check(s.GetRadius() == r && s.GetAzimuth() == az && s.GetZenith() == ze, "accessors");
    Cartesian3D v(s);
    c.close(v.GetX(), r * std::cos(az) * std::sin(ze), 0, 1e-14 * r, "x");
    c.close(v.GetY(), r * std::sin(az) * std::sin(ze), 0, 1e-14 * r, "y");
    c.close(v.GetZ(), r * std::cos(ze), 0, 1e-14 * r, "z");
    Spherical3D b(v);
    double sz = std::sin(ze);
    c.close(b.GetRadius(), r, 1e-14, 0, "radius");
    c.close(b.GetZenith(), ze, 0, std::min(6e-8, 2e-15 / std::max(sz, 1e-30) + 2e-14), "zenith");
    if (sz > 1e-6) {
        c.nontrivial();
        c.close(std::remainder(b.GetAzimuth() - az, 2 * PI), 0, 0, 1e-9, "azimuth");
    }
    UnitSphericalVector us(s);
    c.check(us.zenith == ze && us.azimuth == az, "unit vector takes the wrong angles");
    UnitSphericalVector u2(ze, az);
    c.check(u2.zenith == ze && u2.azimuth == az, "unit vector constructor");
    auto q = s;
    double f = c.u(0.1, 3);
    q.SetRadius(f);
    q.SetAzimuth(az / 2);
    q.SetZenith(ze / 2);
    c.check(q.GetRadius() == f && q.GetAzimuth() == az / 2 && q.GetZenith() == ze / 2, "setters");
}

LAW(algebra, 500000, 4000, "two vectors, neither zero nor parallel")
{
    auto a = gen_vec(c), b = gen_vec(c);
    double f = c.plain(-5, 5);
    bool sph = c.flag(1, 3);
    c.note("a=%s b=%s f=%.17g spherical=%d", str(a).c_str(), str(b).c_str(), f, int(sph));
    double A = a.magnitude(), B = b.magnitude();
    c.require(A > 0 && B > 0);
    if (std::abs(a * b) < 0.999 * A * B)
        c.nontrivial();
    // operands may be given in spherical form
    Cartesian3D b2 = sph ? Cartesian3D(Spherical3D(b)) : b;
    double tb = sph ? eps_pole(b) * B : 0;
    auto s = a + b2, d = a - b2, x = vector_product(a, b2), m = f * a, m2 = a * f, ng = -a;
    auto pl = a;
    pl += b2;
    for (int k = 0; k < 3; ++k) {
        int i = (k + 1) % 3, j = (k + 2) % 3;
        c.close(s[k], a[k] + b[k], 1e-15, 1e-15 * (A + B) + tb, "sum");
        c.close(pl[k], a[k] + b[k], 1e-15, 1e-15 * (A + B) + tb, "+=");
        c.close(d[k], a[k] - b[k], 1e-15, 1e-15 * (A + B) + tb, "difference");
        c.close(m[k], f * a[k], 1e-15, 0, "scaling");
        c.close(m2[k], f * a[k], 1e-15, 0, "scaling");
        c.check(ng[k] == -a[k], "negation");
        double e = double((long double)a[i] * b[j] - (long double)a[j] * b[i]);
        c.close(x[k], e, 0, 1e-15 * A * B * 4 + 2 * A * tb, "cross product component %d", k);
    }
    double dot = double((long double)a[0] * b[0] + (long double)a[1] * b[1] + (long double)a[2] * b[2]);
    c.close(a * b2, dot, 0, 1e-15 * A * B * 4 + A * tb * 2, "scalar product");
    c.close(b2 * a, dot, 0, 1e-15 * A * B * 4 + A * tb * 2, "scalar product");
    // equality
    Cartesian3D e(a.GetX(), a.GetY(), a.GetZ());
    c.check(e == a && !(e != a), "equal vectors compare unequal");
    int k = int(c.draw(2));
    e[k] += (e[k] == 0 ? 1. : e[k]);
    c.check(e != a && !(e == a), "vectors differing in component %d compare equal", k);
    e.SetX(1);
    e.SetY(2);
    e.SetZ(3);
    c.check(e.GetX() == 1 && e.GetY() == 2 && e.GetZ() == 3 && e[0] == 1 && e[1] == 2 && e[2] == 3, "setters");
}

LAW(json_form, 3000, 1000, "array that is accepted")
{
    nlohmann::json j = nlohmann::json::array();
    int n = int(c.i(0, 5));
    bool ok = n == 3;
    std::array<double, 5> v {};
    for (int k = 0; k < n; ++k) {
        int t = int(c.draw(5));
        if (t == 0) {
            j.push_back("1");
            ok = false;
        } else if (t == 1) {
            v[k] = double(c.i(-5, 5));
            j.push_back(int(v[k]));
        } else {
            v[k] = c.plain(-100, 100);
            j.push_back(v[k]);
        }
    }
    c.note("json=%s", j.dump().c_str());
    if (!ok) {
        THROWS(c, Cartesian3D(j), "Cartesian3D from an invalid array");
        THROWS(c, Spherical3D(j), "Spherical3D from an invalid array");
        return;
    }
    c.nontrivial();
    Cartesian3D a(j);
    Spherical3D s(j);
    for (int k = 0; k < 3; ++k)
        c.check(a[k] == v[k] && s[k] == v[k], "component %d", k);
    THROWS(c, Cartesian3D(nlohmann::json(3.)), "Cartesian3D from a number");
    THROWS(c, Spherical3D(nlohmann::json::object()), "Spherical3D from an object");
}

LAW(deflection, 1000000, 5000, "polar angle neither 0 nor pi")
{
    auto n = gen_dir(c);
    double ct = c.flag(1, 8) ? 1 - std::pow(10., -c.plain(1, 15)) : c.u(-1, 1);
    double p1 = c.u(0, 2 * PI), p2 = c.u(0, 2 * PI);
    c.note("n=%s cos=%.17g phi=%.17g,%.17g", str(n).c_str(), ct, p1, p2);
    double st = std::sqrt(std::max(0., (1 - ct) * (1 + ct)));
    if (st > 0)
        c.nontrivial();
    auto defl = [&](double ph) {
        auto d = n;
        d.deflect(ct, ph);
        return d;
    };
    auto d1 = defl(p1), d2 = defl(p2), o1 = defl(p1 + PI);
    // errors: zenith from acos, cosine recovered from the transverse part
    double t = 3e-14 + st * 3 * eps_pole(n) + std::min(4e-8, 1e-15 / std::max(std::abs(ct), 1e-9));
    c.close(d1.magnitude(), 1, 0, t, "magnitude of the deflected direction");
    c.close(d1 * n, ct, 0, t, "cosine of the polar angle");
    // angle for small deflections, beyond what the cosine can resolve
    auto t1 = d1 - n * (d1 * n), t2 = d2 - n * (d2 * n);
    c.close(t1.magnitude(), st, 0, t, "sine of the polar angle");
    auto sum = d1 + o1;
    for (int k = 0; k < 3; ++k)
        c.close(sum[k], 2 * ct * n[k], 0, 3 * t, "opposite azimuths do not lie in one plane");
    // azimuth difference is kept, with one sense of rotation
    c.close(t1 * t2, st * st * std::cos(p2 - p1), 0, 4 * t * st + 1e-14, "azimuth between two deflections");
    c.close(n * vector_product(t1, t2), st * st * std::sin(p2 - p1), 0, 4 * t * st + 1e-14, "sense of the azimuth");
    auto id = n;
    id.deflect(1, p1);
    for (int k = 0; k < 3; ++k)
        c.close(id[k], n[k], 0, 1e-14, "no deflection changes the direction");
}
