// G01: distances to a geometry's border are the true ray crossings
#include "geo.h"

const char* pbt::property_id = "G01";
using namespace geo;

static void compare(Ctx& c, Expect const& e, std::pair<double, double> g)
{
    if (e.t1 < 0) {
        c.check(g.first == -1 && g.second == -1, "(%.17g, %.17g) although the ray does not meet the body", g.first, g.second);
        return;
    }
    c.check(g.first > 0, "no crossing reported, the next one is at %.17Lg", e.t1);
    c.close(g.first, e.t1, 1e-14, 2 * e.tol1, "first crossing");
    if (e.t2 < 0)
        c.check(g.second == -1, "second crossing %.17g reported for a ray that starts inside (leaves at %.17Lg)", g.second, e.t1);
    else {
        c.check(g.second > 0, "only one crossing %.17g reported, the body is left at %.17Lg", g.first, e.t2);
        c.close(g.second, e.t2, 1e-14, 2 * e.tol2, "second crossing");
    }
}

LAW(crossings, 600000, 4000, "the ray meets the body")
{
    auto k = gen_body(c);
    auto r = gen_ray(c, k);
    auto e = expect(k, r);
    c.require(e.ok);
    c.note("%s ray from %s along %s: %s, %d crossings, expected (%.17Lg, %.17Lg)", k.show().c_str(), str(r.p).c_str(), str(r.d).c_str(), e.inside ? "inside" : "outside", e.crossings, e.t1, e.t2);
    if (e.t1 > 0)
        c.nontrivial();
    auto g = k.make();
    compare(c, e, g->DistanceToBorder(r.p, r.d));
    // the result must not depend on the representation of the direction
    if (std::hypot(r.d.GetX(), r.d.GetY()) > 0.05 && e.tol1 < 1e-9 * (1 + e.t1)) {
        Spherical3D sd(r.d);
        auto s = g->DistanceToBorder(r.p, sd);
        auto f = g->DistanceToBorder(r.p, Cartesian3D(sd));
        c.close(s.first, f.first, 1e-12, 1e-12, "spherical direction, first");
        c.close(s.second, f.second, 1e-12, 1e-12, "spherical direction, second");
    }
}

LAW(status_changes, 200000, 4000, "the ray meets the body")
{
    // model free: walk along the reported distances
    auto k = gen_body(c, 1e4);
    auto r = gen_ray(c, k);
    auto e = expect(k, r);
    c.require(e.ok && uncertainty(k, r) < 1e-8L);
    c.note("%s ray from %s along %s", k.show().c_str(), str(r.p).c_str(), str(r.d).c_str());
    auto g = k.make();
    auto t = g->DistanceToBorder(r.p, r.d);
    if (t.first < 0)
        return;
    c.nontrivial();
    c.check(t.second < 0 || t.second > t.first, "order (%.17g, %.17g)", t.first, t.second);
    V p = vec(r.p), d = vec(r.d);
    auto at = [&](ld s) { return V { p.x + s * d.x, p.y + s * d.y, p.z + s * d.z }; };
    ld w = 1e-7L * (1 + k.size());
    // on the surface: both inside and outside nearby
    auto on = [&](ld s) { return k.contains(at(s), w) && !k.contains(at(s), -w); };
    c.check(on(t.first), "the point at the first distance %.17g is not on the surface", t.first);
    if (t.second > 0)
        c.check(on(t.second), "the point at the second distance %.17g is not on the surface", t.second);
    bool in = k.contains(p);
    for (int i = 0; i < 12; ++i) {
        double f = c.plain(0.001, 0.999);
        c.check(k.contains(at(f * t.first), in ? w : -w) == in, "status changes at %.17g before the first distance %.17g", f * t.first, t.first);
        if (t.second > 0) {
            double s = t.first + f * (t.second - t.first);
            c.check(k.contains(at(s), w), "outside at %.17g between the two distances", s);
            c.check(!g->IsInside(r.p, r.d), "inside with two distances");
        }
    }
}

LAW(from_border, 250000, 4000, "start on the border of a hollow body or with something ahead")
{
    // the particle sits on the border (as after every sector transition):
    // the border it sits on is not a crossing
    auto k = gen_body(c, 1e3);
    auto r = gen_ray(c, k);
    auto e = expect(k, r);
    c.require(e.ok && e.t1 > 0 && e.t1 < 1e4);
    bool second = e.t2 > 0 && c.flag();
    ld t = second ? e.t2 : e.t1;
    c.require(t < 1e4);
    Ray b { r.p + double(t) * r.d, r.d };
    bool back = c.flag();
    V d = vec(r.d);
    if (back)
        b.d = -1. * r.d;
    // incidence not too grazing, so that the rounded point is on the border
    // within the geometry precision
    Set lo = k.ray(vec(b.p), d, -1e-6L), hi = k.ray(vec(b.p), d, 1e-6L);
    c.require(!lo.empty() && lo.size() == hi.size());
    ld best = 1;
    for (size_t i = 0; i < lo.size(); ++i) {
        for (ld x : { hi[i].first - lo[i].first, hi[i].second - lo[i].second })
            if (fabsl(i < lo.size() ? std::min(fabsl(lo[i].first), fabsl(lo[i].second)) : 1) < 1e-3L)
                best = std::min(best, 1e-6L / std::max(fabsl(x), 1e-12L));
    }
    c.require(best > 0.02 && best < 1);
    ld slack = 3e-10L;
    ld m = b.p.magnitude() + k.c.magnitude() + k.size();
    c.require(8e-16L * m / best * (1 + m / k.smallest()) < slack);
    auto x = expect(k, b, 2e-9L);
    c.require(x.ok);
    // only the border itself within the precision
    c.note("%s border point %s along %s: %s, expected (%.17Lg, %.17Lg)", k.show().c_str(), str(b.p).c_str(), str(b.d).c_str(), x.inside ? "moving in" : "moving out", x.t1, x.t2);
    if (x.t1 > 0)
        c.nontrivial();
    auto g = k.make();
    auto got = g->DistanceToBorder(b.p, b.d);
    x.tol1 += 1e-8L;
    x.tol2 += 1e-8L;
    compare(c, x, got);
}
