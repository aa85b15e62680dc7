// G02: every point and direction has exactly one consistent location status
#include "geo.h"

const char* pbt::property_id = "G02";
using namespace geo;

LAW(status, 600000, 4000, "the ray meets the body or starts in it")
{
    auto k = gen_body(c);
    auto r = gen_ray(c, k);
    auto e = expect(k, r);
    c.require(e.ok);
    bool in = k.contains(vec(r.p)), hit = e.t1 > 0;
    c.note("%s ray from %s along %s: %s", k.show().c_str(), str(r.p).c_str(), str(r.d).c_str(), in ? "inside" : hit ? "in front" : "behind");
    if (hit)
        c.nontrivial();
    auto g = k.make();
    bool i = g->IsInside(r.p, r.d), f = g->IsInfront(r.p, r.d), b = g->IsBehind(r.p, r.d);
    c.check(int(i) + int(f) + int(b) == 1, "inside=%d in front=%d behind=%d", int(i), int(f), int(b));
    c.check(i == in, "IsInside=%d", int(i));
    c.check(f == (!in && hit), "IsInfront=%d", int(f));
    c.check(b == (!in && !hit), "IsBehind=%d", int(b));
    auto l = g->GetLocation(r.p, r.d);
    c.check(l == (in ? Geometry::ParticleLocation::InsideGeometry : hit ? Geometry::ParticleLocation::InfrontGeometry : Geometry::ParticleLocation::BehindGeometry), "GetLocation=%d", int(l));
    // the status of a point does not depend on the direction
    Ray o { r.p, -1. * r.d };
    if (expect(k, o).ok) {
        c.check(g->IsInside(o.p, o.d) == in, "inside depends on the direction");
        c.check(!g->IsEntering(r.p, r.d) && !g->IsLeaving(r.p, r.d), "entering or leaving away from the border");
    }
}

LAW(border, 250000, 4000, "border point of a body, moving through the border")
{
    auto k = gen_body(c, 1e3);
    // a point on a randomly chosen part of the surface and its outward normal
    V n { 0, 0, 0 };
    Cartesian3D p;
    if (k.kind == 1) {
        double h[3] = { k.a / 2, k.b / 2, k.h / 2 }, q[3];
        int ax = int(c.i(0, 2));
        double s = c.flag() ? 1 : -1;
        for (int i = 0; i < 3; ++i)
            q[i] = i == ax ? s * h[i] : h[i] * c.plain(-0.999, 0.999);
        p = k.c + Cartesian3D(q[0], q[1], q[2]);
        (ax == 0 ? n.x : ax == 1 ? n.y : n.z) = s;
    } else {
        bool inner = k.b > 0 && c.flag();
        double rr = inner ? k.b : k.a, s = inner ? -1 : 1;
        if (k.kind == 0) {
            auto d = gen_dir(c);
            p = k.c + rr * d;
            n = vec(s * d);
        } else {
            double f = c.flag(1, 4) ? 0.5 * PI * double(c.i(0, 3)) : c.plain(0, 2 * PI);
            if (c.flag(2, 3)) { // barrel
                p = k.c + Cartesian3D(rr * std::cos(f), rr * std::sin(f), k.h / 2 * c.plain(-0.999, 0.999));
                n = { s * std::cos(f), s * std::sin(f), 0 };
            } else { // cap
                double q = k.b + (k.a - k.b) * c.plain(0.01, 0.99), t = c.flag() ? 1 : -1;
                p = k.c + Cartesian3D(q * std::cos(f), q * std::sin(f), t * k.h / 2);
                n = { 0, 0, t };
            }
        }
    }
    auto d = gen_dir(c);
    ld cs = dot(n, vec(d));
    c.require(fabsl(cs) > 0.05L);
    ld m = p.magnitude() + k.c.magnitude() + k.size();
    ld R = k.hollow() ? std::min(k.a, k.b) : k.kind == 1 ? k.smallest() : k.a;
    c.require(4e-16L * m * (1 + m / R) / fabsl(cs) < 3e-10L);
    bool in = cs < 0;
    // the other borders must be further away than the precision
    Ray r { p, d }, o { p, -1. * d };
    auto e = expect(k, r, 2e-9L), eo = expect(k, o, 2e-9L);
    c.require(e.ok && eo.ok);
    c.require(e.inside == in && eo.inside == !in);
    c.note("%s border point %s along %s, cos to the outward normal %.6Lg", k.show().c_str(), str(p).c_str(), str(d).c_str(), cs);
    c.nontrivial();
    auto g = k.make();
    c.check(g->IsEntering(p, d) == in, "IsEntering=%d while moving %s", int(!in), in ? "in" : "out");
    c.check(g->IsLeaving(p, d) == !in, "IsLeaving=%d while moving %s", int(in), in ? "in" : "out");
    c.check(g->IsInside(p, d) == in, "IsInside=%d on the border while moving %s", int(!in), in ? "in" : "out");
    int st = int(g->IsInside(p, d)) + int(g->IsInfront(p, d)) + int(g->IsBehind(p, d));
    c.check(st == 1, "%d statuses on the border", st);
}

LAW(closest_approach, 200000, 4000, "closest approach not at the start")
{
    auto k = gen_body(c);
    auto r = gen_ray(c, k);
    c.note("%s ray from %s along %s", k.show().c_str(), str(r.p).c_str(), str(r.d).c_str());
    auto g = k.make();
    double t = g->DistanceToClosestApproach(r.p, r.d);
    V q = vec(k.c - r.p), d = vec(r.d);
    ld e = dot(q, d);
    ld D = sqrtl(dot(q, q));
    double tol = 1e-15 * (D + r.p.magnitude() + k.c.magnitude());
    if (fabsl(e) > tol * 10)
        c.nontrivial();
    c.close(t, e, 0, 4 * tol, "distance to the closest approach");
    // no other point of the line is closer to the centre
    auto dist2 = [&](ld s) { V x { q.x - s * d.x, q.y - s * d.y, q.z - s * d.z }; return dot(x, x); };
    double s = t + k.size() * c.plain(-2, 2);
    c.check(dist2(t) <= dist2(s) + 8 * tol * (D + 1), "%.17g is closer than %.17g", s, t);
}

LAW(translation, 250000, 4000, "the ray meets the body")
{
    auto k = gen_body(c, 1e4);
    auto r = gen_ray(c, k);
    auto s = gen_pos(c, k.size() * c.pick({ 1., 10. }));
    auto k2 = k;
    k2.c = k.c + s;
    Ray r2 { r.p + s, r.d };
    auto e = expect(k, r), e2 = expect(k2, r2);
    c.require(e.ok && e2.ok && (e.t1 > 0) == (e2.t1 > 0) && (e.t2 > 0) == (e2.t2 > 0));
    c.note("%s ray from %s along %s shifted by %s", k.show().c_str(), str(r.p).c_str(), str(r.d).c_str(), str(s).c_str());
    if (e.t1 > 0)
        c.nontrivial();
    auto a = k.make(), b = k2.make();
    auto x = a->DistanceToBorder(r.p, r.d), y = b->DistanceToBorder(r2.p, r2.d);
    c.check((x.first > 0) == (y.first > 0) && (x.second > 0) == (y.second > 0), "(%.17g,%.17g) becomes (%.17g,%.17g)", x.first, x.second, y.first, y.second);
    double tol = 3 * double(e.tol1 + e2.tol1) + 1e-12 * k.size(), tol2 = 3 * double(e.tol2 + e2.tol2) + 1e-12 * k.size();
    c.close(x.first, y.first, 1e-12, tol + double(fabsl(e.t1 - e2.t1)), "first distance");
    c.close(x.second, y.second, 1e-12, tol2 + double(fabsl(e.t2 - e2.t2)), "second distance");
    c.check(a->GetLocation(r.p, r.d) == b->GetLocation(r2.p, r2.d), "location");
    // moving the existing body does the same
    auto m = k.make();
    m->SetPosition(k2.c);
    auto z = m->DistanceToBorder(r2.p, r2.d);
    c.check(z == y, "moved body answers differently from a body built there");
}
