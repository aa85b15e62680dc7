// generated geometries with an independent oracle for rays: the set of ray
// parameters inside the body as a union of intervals
#pragma once
#include "common.h"
#include "PROPOSAL/geometry/Box.h"
#include "PROPOSAL/geometry/Cylinder.h"
#include "PROPOSAL/geometry/Geometry.h"
#include "PROPOSAL/geometry/Sphere.h"
#include <memory>
#include <algorithm>

namespace geo {
typedef long double ld;
struct V {
    ld x, y, z;
};
inline V vec(Vector3D const& v)
{
    auto a = v.GetCartesianCoordinates();
    return { a[0], a[1], a[2] };
}
inline ld dot(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; }

typedef std::vector<std::pair<ld, ld>> Set; // sorted disjoint intervals
static const ld HUGE_T = 1e40L;

struct Body {
    int kind; // 0 sphere 1 box 2 cylinder
    Cartesian3D c;
    double a, b, h; // sphere: R, r, -; box: x, y, z (full lengths); cylinder: R, r, height

    double size() const { return kind == 0 ? a : kind == 1 ? std::max(a, std::max(b, h)) : std::max(a, h); }
    double smallest() const { return kind == 0 ? a - b : kind == 1 ? std::min(a, std::min(b, h)) : std::min(a - b, h); }
    bool hollow() const { return kind != 1 && b > 0; }
    std::string show() const
    {
        const char* n[] = { "sphere R,r=", "box x,y,z=", "cylinder R,r,h=" };
        return strf("%s%.17g,%.17g,%.17g at ", n[kind], a, b, h) + str(c);
    }
    std::shared_ptr<Geometry> make() const
    {
        if (kind == 0)
            return std::make_shared<Sphere>(c, a, b);
        if (kind == 1)
            return std::make_shared<Box>(c, a, b, h);
        return std::make_shared<Cylinder>(c, h, a, b);
    }
    // is the point inside when every surface is moved outward by g
    bool contains(V p, ld g = 0) const
    {
        V q { p.x - c.GetX(), p.y - c.GetY(), p.z - c.GetZ() };
        if (kind == 0) {
            ld r = sqrtl(dot(q, q));
            return r < a + g && (b == 0 || r > b - g);
        }
        if (kind == 1)
            return fabsl(q.x) < a / 2.L + g && fabsl(q.y) < b / 2.L + g && fabsl(q.z) < h / 2.L + g;
        ld r = sqrtl(q.x * q.x + q.y * q.y);
        return fabsl(q.z) < h / 2.L + g && r < a + g && (b == 0 || r > b - g);
    }
    static bool quadratic(ld C, ld B, ld A, ld& t1, ld& t2) // C t^2 + 2 B t + A < 0
    {
        if (C == 0) {
            if (A >= 0)
                return false;
            t1 = -HUGE_T;
            t2 = HUGE_T;
            return true;
        }
        ld D = B * B - A * C;
        if (D <= 0)
            return false;
        ld s = sqrtl(D), q = B > 0 ? -(B + s) : -(B - s);
        // q is the root of larger modulus times C
        ld u = q / C, v = q != 0 ? A / q : 0;
        t1 = std::min(u, v);
        t2 = std::max(u, v);
        return true;
    }
    Set ray(V p, V d, ld g = 0) const
    {
        V q { p.x - c.GetX(), p.y - c.GetY(), p.z - c.GetZ() };
        ld lo = -HUGE_T, hi = HUGE_T, t1, t2;
        auto slab = [&](ld x, ld v, ld half) {
            if (v == 0)
                return fabsl(x) < half;
            ld u = (-half - x) / v, w = (half - x) / v;
            lo = std::max(lo, std::min(u, w));
            hi = std::min(hi, std::max(u, w));
            return true;
        };
        ld C = kind == 0 ? dot(d, d) : d.x * d.x + d.y * d.y;
        ld B = kind == 0 ? dot(q, d) : q.x * d.x + q.y * d.y;
        ld Q = kind == 0 ? dot(q, q) : q.x * q.x + q.y * q.y;
        if (kind == 1) {
            if (!slab(q.x, d.x, a / 2.L + g) || !slab(q.y, d.y, b / 2.L + g) || !slab(q.z, d.z, h / 2.L + g) || lo >= hi)
                return {};
            return { { lo, hi } };
        }
        ld R = a + g;
        if (!quadratic(C, B, Q - R * R, t1, t2))
            return {};
        lo = t1;
        hi = t2;
        if (kind == 2 && !slab(q.z, d.z, h / 2.L + g))
            return {};
        if (lo >= hi)
            return {};
        if (b > 0) {
            ld r = b - g;
            if (r > 0 && quadratic(C, B, Q - r * r, t1, t2)) {
                Set s;
                if (t1 > lo)
                    s.push_back({ lo, std::min(hi, t1) });
                if (t2 < hi)
                    s.push_back({ std::max(lo, t2), hi });
                return s;
            }
        }
        return { { lo, hi } };
    }
};

inline Body gen_body(Ctx& c, double maxscale = 2e9)
{
    Body k;
    k.kind = int(c.i(0, 2));
    double s = c.flag(1, 3) ? double(c.i(1, 20)) : c.logu(1e-1, maxscale);
    if (k.kind == 1) {
        bool cube = c.flag(1, 4);
        k.a = s;
        k.b = cube ? s : s * c.logu(0.05, 20);
        k.h = cube ? s : s * c.logu(0.05, 20);
    } else {
        k.a = s;
        k.b = c.flag() ? 0. : c.flag(1, 3) ? s / 2 : s * c.plain(0.02, 0.98);
        k.h = k.kind == 0 ? 0 : c.flag(1, 3) ? 2 * s : s * c.logu(0.05, 20);
    }
    k.c = c.flag(1, 3) ? Cartesian3D(0, 0, 0) : gen_pos(c, k.size() * c.pick({ 0.5, 3., 10. }));
    return k;
}

// a point inside the material of the body
inline Cartesian3D point_in(Ctx& c, Body const& k)
{
    if (k.kind == 1)
        return Cartesian3D(k.c.GetX() + k.a * gen_coord(c, 0.499), k.c.GetY() + k.b * gen_coord(c, 0.499), k.c.GetZ() + k.h * gen_coord(c, 0.499));
    double r = k.b + (k.a - k.b) * (c.flag(1, 5) ? 0.5 : c.plain(0.001, 0.999));
    if (k.kind == 0)
        return k.c + r * gen_dir(c);
    double f = c.flag(1, 4) ? 0.5 * PI * double(c.i(0, 3)) : c.plain(0, 2 * PI);
    return Cartesian3D(k.c.GetX() + r * std::cos(f), k.c.GetY() + r * std::sin(f), k.c.GetZ() + k.h * gen_coord(c, 0.499));
}
// special points of the surface: corner, edge, rim, apex
inline Cartesian3D special(Ctx& c, Body const& k)
{
    double x = double(c.i(-1, 1)), y = double(c.i(-1, 1)), z = double(c.i(-1, 1));
    if (k.kind == 1)
        return Cartesian3D(k.c.GetX() + x * k.a / 2, k.c.GetY() + y * k.b / 2, k.c.GetZ() + z * k.h / 2);
    double r = k.b > 0 && c.flag() ? k.b : k.a;
    double n = std::sqrt(x * x + y * y + z * z);
    if (k.kind == 0)
        return n == 0 ? k.c : k.c + Cartesian3D(x * r / n, y * r / n, z * r / n);
    double f = c.flag() ? 0.5 * PI * double(c.i(0, 3)) : c.plain(0, 2 * PI);
    return Cartesian3D(k.c.GetX() + r * std::cos(f), k.c.GetY() + r * std::sin(f), k.c.GetZ() + z * k.h / 2);
}
inline Cartesian3D towards(Ctx& c, Cartesian3D const& from, Cartesian3D const& to)
{
    Cartesian3D d = to - from;
    if (d.magnitude() == 0)
        return gen_dir(c);
    d.normalize();
    return d;
}
struct Ray {
    Cartesian3D p, d;
};
inline Ray gen_ray(Ctx& c, Body const& k)
{
    Ray r;
    double s = k.size();
    switch (c.i(0, 5)) {
    case 5: { // just below or above the surface
        auto q = special(c, k);
        auto n = c.flag() ? gen_dir(c) : towards(c, k.c, q);
        r.p = q + (c.flag() ? 1 : -1) * std::min(c.logu(1e-7, 1e3), s) * n;
        break;
    }
    case 0:
        r.p = k.c + s * c.pick({ 1., 2., 20. }) * gen_pos(c, 1.);
        break;
    case 1:
        r.p = k.c;
        break;
    case 2: // far away
        r.p = k.c + s * c.logu(1, 1e3) * gen_dir(c);
        break;
    case 3:
        r.p = k.c + (k.hollow() ? k.b : s) * gen_pos(c, 0.7);
        break;
    default:
        r.p = point_in(c, k);
    }
    switch (c.i(0, 3)) {
    case 0:
        r.d = gen_dir(c);
        break;
    case 1:
        r.d = towards(c, r.p, point_in(c, k));
        break;
    case 2:
        r.d = towards(c, r.p, special(c, k));
        break;
    default:
        r.d = towards(c, r.p, k.c + (k.hollow() ? k.b : s) * gen_pos(c, 0.9));
    }
    return r;
}

// What the documentation of the border distance promises for a ray that
// does not start on the border; empty optional when the case is too close to
// tangency or to a border to be decidable in double precision.
struct Expect {
    bool ok = false, inside = false;
    ld t1 = -1, t2 = -1, tol1 = 0, tol2 = 0;
    int crossings = 0;
};
inline ld uncertainty(Body const& k, Ray const& r)
{
    V q = vec(r.p - k.c);
    ld D = sqrtl(dot(q, q)), m = r.p.magnitude() + k.c.magnitude();
    ld R = k.hollow() ? std::min(k.a, k.b) : k.kind == 1 ? k.smallest() / 2 : k.a;
    ld f = k.kind == 2 ? 4 : 1; // division by the transverse part
    return f * 2e-15L * (D * D / R + k.size() + D) + 1e-15L * m;
}
// start: rays that start on the border have a crossing within |start|
inline Expect expect(Body const& k, Ray const& r, ld start = 0)
{
    Expect e;
    ld g = uncertainty(k, r);
    if (g > 1e-3L * k.smallest())
        return e;
    V p = vec(r.p), d = vec(r.d);
    if (k.kind == 2) {
        ld C = d.x * d.x + d.y * d.y;
        if (C > 0)
            g /= C;
        if (g > 1e-3L * k.smallest())
            return e;
    }
    auto cut = [&](Set s, ld shift) {
        Set o;
        for (auto& i : s)
            if (i.second > shift)
                o.push_back({ std::max(i.first, shift), i.second });
        return o;
    };
    Set m = cut(k.ray(p, d), start), lo = cut(k.ray(p, d, -g), start), hi = cut(k.ray(p, d, g), start);
    if (m.size() != lo.size() || m.size() != hi.size())
        return e;
    for (size_t i = 0; i < m.size(); ++i) {
        bool z = m[i].first <= start;
        if (z != (lo[i].first <= start) || z != (hi[i].first <= start))
            return e;
        ld tl = fabsl(hi[i].first - lo[i].first) + 1e-15L * fabsl(m[i].first);
        ld tr = fabsl(hi[i].second - lo[i].second) + 1e-15L * fabsl(m[i].second);
        if ((!z && m[i].first - start < 3e-9L + tl) || m[i].second - start < 3e-9L + tr || m[i].second - m[i].first < 2e-9L + tl + tr)
            return e;
        if (i > 0 && m[i].first - m[i - 1].second < 2e-9L)
            return e;
        e.crossings += z ? 1 : 2;
    }
    if (start == 0) {
        // nor may a crossing lie just behind the start
        Set f = k.ray(p, d);
        for (auto& i : f)
            if (fabsl(i.first) < 3e-9L + g || fabsl(i.second) < 3e-9L + g)
                return e;
        if (k.contains(p, g) != k.contains(p, -g))
            return e;
    }
    e.ok = true;
    if (m.empty())
        return e;
    e.inside = m[0].first <= start;
    if (e.inside) {
        e.t1 = m[0].second;
        e.tol1 = fabsl(hi[0].second - lo[0].second) + 1e-15L * e.t1;
    } else {
        e.t1 = m[0].first;
        e.tol1 = fabsl(hi[0].first - lo[0].first) + 1e-15L * e.t1;
        e.t2 = m[0].second;
        e.tol2 = fabsl(hi[0].second - lo[0].second) + 1e-15L * e.t2;
    }
    return e;
}
} // namespace geo
