// G03: geometries and densities described in JSON, copies and comparison
#include "dens.h"
#include "geo.h"
#include "PROPOSAL/geometry/GeometryFactory.h"

const char* pbt::property_id = "G03";
using nlohmann::json;

static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

// ------------------------------------------------------------- geometries
static std::string any_case(Ctx& c, std::string s)
{
    for (auto& x : s)
        if (c.flag(1, 3))
            x = char(toupper(x));
    return s;
}
static json number(Ctx& c, double x)
{
    if (x == std::floor(x) && std::abs(x) < 1e9 && c.flag())
        return json(long(x));
    return json(x);
}
static json geo_json(Ctx& c, geo::Body const& k, long hierarchy, bool give)
{
    static const char* n[] = { "sphere", "box", "cylinder" };
    json j;
    j["shape"] = any_case(c, n[k.kind]);
    j["origin"] = { number(c, k.c.GetX()), number(c, k.c.GetY()), number(c, k.c.GetZ()) };
    if (give || hierarchy != 0)
        j["hierarchy"] = hierarchy;
    if (k.kind == 1) {
        j["length"] = number(c, k.a);
        j["width"] = number(c, k.b);
        j["height"] = number(c, k.h);
    } else {
        j["outer_radius"] = number(c, k.a);
        if (k.b != 0 || give)
            j["inner_radius"] = number(c, k.b);
        if (k.kind == 2)
            j["height"] = number(c, k.h);
    }
    return j;
}
static void same_answers(Ctx& c, Geometry const& a, Geometry const& b, geo::Body const& k, const char* what)
{
    for (int i = 0; i < 4; ++i) {
        auto r = geo::gen_ray(c, k);
        auto x = a.DistanceToBorder(r.p, r.d), y = b.DistanceToBorder(r.p, r.d);
        c.check(same(x.first, y.first) && same(x.second, y.second), "%s: border distances %.17g %.17g and %.17g %.17g from %s along %s",
            what, x.first, x.second, y.first, y.second, str(r.p).c_str(), str(r.d).c_str());
        c.check(a.IsInside(r.p, r.d) == b.IsInside(r.p, r.d), "%s: inside differs", what);
        c.check(a.GetLocation(r.p, r.d) == b.GetLocation(r.p, r.d), "%s: location differs", what);
        c.check(a.IsEntering(r.p, r.d) == b.IsEntering(r.p, r.d), "%s: entering differs", what);
        c.check(a.IsLeaving(r.p, r.d) == b.IsLeaving(r.p, r.d), "%s: leaving differs", what);
        c.check(same(a.DistanceToClosestApproach(r.p, r.d), b.DistanceToClosestApproach(r.p, r.d)), "%s: closest approach differs", what);
    }
}
template <typename T> static void copies(Ctx& c, Geometry const& g, geo::Body const& k, T const& other)
{
    auto const& t = dynamic_cast<T const&>(g);
    auto tmp = std::make_unique<T>(t);
    T cp(*tmp), as(other);
    c.check(cp == g && !(cp != g), "copy differs from the original");
    if (!(as == g)) {
        as = *tmp;
        c.check(as == g, "assigned geometry differs from the original");
        c.check(as.GetName() == g.GetName() && as.GetHierarchy() == g.GetHierarchy(), "name or hierarchy lost in assignment");
    }
    tmp->SetPosition(Cartesian3D(9e9, 0, 0));
    tmp.reset();
    c.check(cp == g && as == g, "copy changes with its origin");
    same_answers(c, g, cp, k, "copy");
    same_answers(c, g, as, k, "assigned");
}

LAW(geometry_json, 120000, 2000, "hollow, shifted or with a hierarchy")
{
    auto k = geo::gen_body(c);
    if (k.kind != 1 && c.flag(1, 20))
        k.b = 0;
    long h = c.flag() ? 0 : c.i(0, 10);
    auto j = geo_json(c, k, h, c.flag());
    c.note("%s", j.dump().c_str());
    if (k.hollow() || h != 0 || k.c.magnitude() != 0)
        c.nontrivial();
    auto a = k.make();
    a->SetHierarchy(unsigned(h));
    std::shared_ptr<Geometry> b;
    if (c.flag())
        b = CreateGeometry(j);
    else if (k.kind == 0)
        b = std::make_shared<Sphere>(j);
    else if (k.kind == 1)
        b = std::make_shared<Box>(j);
    else
        b = std::make_shared<Cylinder>(j);
    c.check(*a == *b && *b == *a && !(*a != *b), "described and constructed geometry are not equal");
    c.check(b->GetHierarchy() == (unsigned)h, "hierarchy %u", b->GetHierarchy());
    c.check(b->GetPosition() == k.c, "position differs");
    same_answers(c, *a, *b, k, "json");
    if (k.kind == 0) {
        auto s = std::dynamic_pointer_cast<Sphere>(b);
        c.check(s->GetRadius() == k.a && s->GetInnerRadius() == k.b, "radii");
        copies<Sphere>(c, *b, k, Sphere(Cartesian3D(1, 2, 3), 5, 2));
        if (k.b > 0) // the two radii may be given in either order
            c.check(Sphere(k.c, k.b, k.a) == *k.make(), "radii in the other order");
    } else if (k.kind == 1) {
        auto s = std::dynamic_pointer_cast<Box>(b);
        c.check(s->GetX() == k.a && s->GetY() == k.b && s->GetZ() == k.h, "edges");
        copies<Box>(c, *b, k, Box(Cartesian3D(1, 2, 3), 5, 2, 1));
    } else {
        auto s = std::dynamic_pointer_cast<Cylinder>(b);
        c.check(s->GetRadius() == k.a && s->GetInnerRadius() == k.b && s->GetZ() == k.h, "radii or height");
        copies<Cylinder>(c, *b, k, Cylinder(Cartesian3D(1, 2, 3), 5, 2, 1));
        if (k.b > 0)
            c.check(Cylinder(k.c, k.h, k.b, k.a) == *k.make(), "radii in the other order");
    }
}

LAW(geometry_differs, 120000, 3000, "bodies differ in exactly one quantity")
{
    auto k = geo::gen_body(c);
    auto l = k;
    long h = c.i(0, 5), h2 = h;
    double f = c.flag(1, 3) ? 1 + 1e-15 : c.flag() ? 1 + 1e-9 : c.plain(1.01, 2);
    int which = int(c.i(0, 5));
    c.nontrivial();
    switch (which) {
    case 0:
        l.a *= k.b > 0 && f > 1.9 ? 1.5 : f;
        break;
    case 1:
        if (k.kind == 1)
            l.b *= f;
        else if (k.b > 0)
            l.b /= f;
        else
            l.b = l.a / 3;
        break;
    case 2:
        if (k.kind == 0)
            c.discard();
        l.h *= f;
        break;
    case 3: {
        int i = int(c.i(0, 2));
        double v[3] { k.c.GetX(), k.c.GetY(), k.c.GetZ() };
        v[i] = v[i] == 0 ? f - 1 : v[i] * f;
        l.c = Cartesian3D(v[0], v[1], v[2]);
        break;
    }
    case 4:
        h2 = h + c.i(1, 4);
        break;
    default:
        l.kind = int((k.kind + c.i(1, 2)) % 3);
        if (l.kind != 1)
            l.b = std::min(l.b, l.a / 2);
        if (l.h == 0)
            l.h = l.a;
    }
    c.require(which >= 4 || l.a != k.a || l.b != k.b || l.h != k.h || l.c != k.c);
    auto a = k.make(), b = l.make();
    a->SetHierarchy(unsigned(h));
    b->SetHierarchy(unsigned(h2));
    c.note("%s hierarchy %ld and %s hierarchy %ld", k.show().c_str(), h, l.show().c_str(), h2);
    c.check(!(*a == *b) && *a != *b && !(*b == *a) && *b != *a, "different geometries compare equal");
    // and after being made equal again
    if (which == 4) {
        b->SetHierarchy(unsigned(h));
        c.check(*a == *b, "equal geometries compare unequal");
    }
    if (which == 3) {
        b->SetPosition(k.c);
        c.check(*a == *b, "equal geometries compare unequal after moving");
    }
}

LAW(geometry_rejected, 48000, 2000, "every case")
{
    auto k = geo::gen_body(c);
    auto j = geo_json(c, k, c.i(0, 3), true);
    std::string what;
    std::vector<std::string> need { "shape", "origin" };
    if (k.kind == 1)
        need.insert(need.end(), { "length", "width", "height" });
    else
        need.push_back("outer_radius");
    if (k.kind == 2)
        need.push_back("height");
    auto word = [&]() { return c.pick<json>({ json("3"), json(nullptr), json::array({ 1 }), json(true) }); };
    switch (c.i(0, 6)) {
    case 0: {
        auto n = c.pick(need);
        j.erase(n);
        what = "missing " + n;
        break;
    }
    case 1: {
        auto n = c.pick(need);
        j[n] = word();
        what = n + " is " + j[n].dump();
        break;
    }
    case 2:
        j["shape"] = c.pick<std::string>({ "spheres", "", "cube", "cone", "spher", "unknown" });
        what = "unknown shape";
        break;
    case 3: {
        auto n = c.pick(need);
        c.require(n != "shape" && n != "origin" && n != "outer_radius");
        j[n] = -c.logu(1e-3, 1e5);
        what = "negative " + n;
        break;
    }
    case 4:
        c.require(k.kind != 1);
        j["inner_radius"] = -c.logu(1e-3, 1e5);
        what = "negative inner radius";
        break;
    case 5:
        c.require(k.kind != 1);
        j["inner_radius"] = k.a * c.plain(1.01, 3);
        what = "inner radius beyond the outer";
        break;
    default:
        j["origin"] = c.pick<json>({ json::array({ 1, 2 }), json::array({ 1, 2, 3, 4 }), json::array({ 1, "2", 3 }), json::object(), json(1.5), json::array({ 1, nullptr, 2 }) });
        what = "malformed origin";
    }
    c.note("%s: %s", what.c_str(), j.dump().c_str());
    c.nontrivial();
    bool thrown = false;
    try {
        auto g = CreateGeometry(j);
    } catch (std::exception const&) {
        thrown = true;
    }
    c.check(thrown, "accepted with %s", what.c_str());
}

// -------------------------------------------------------------- densities
static dens::Spec spec(Ctx& c)
{
    dens::Spec s;
    s.kind = int(c.i(0, 4));
    s.radial = c.flag();
    s.fp0 = c.flag() ? Cartesian3D(0, 0, 0) : gen_pos(c, 1e3);
    s.faxis = gen_dir(c);
    double a = c.plain(-100, 1000), b = a + c.logu(1, 1e4);
    return dens::gen_spec(c, a, b, s);
}
static void same_density(Ctx& c, Density_distr const& a, Density_distr const& b, const char* what)
{
    for (int i = 0; i < 3; ++i) {
        auto p = gen_pos(c, 1e3);
        auto d = gen_dir(c);
        double l = c.logu(1e-2, 1e3);
        c.check(same(a.Evaluate(p), b.Evaluate(p)), "%s: density %.17g and %.17g", what, a.Evaluate(p), b.Evaluate(p));
        double x = a.Calculate(p, d, l), y = b.Calculate(p, d, l);
        c.check(same(x, y), "%s: grammage %.17g and %.17g", what, x, y);
        c.check(same(a.Integrate(p, d, l), b.Integrate(p, d, l)), "%s: primitive differs", what);
        double r1 = -1, r2 = -1;
        bool t1 = false, t2 = false;
        try {
            r1 = a.Correct(p, d, x * 0.5, l);
        } catch (std::exception const&) {
            t1 = true;
        }
        try {
            r2 = b.Correct(p, d, x * 0.5, l);
        } catch (std::exception const&) {
            t2 = true;
        }
        c.check(t1 == t2 && same(r1, r2), "%s: distance %.17g and %.17g", what, r1, r2);
    }
    c.check(a.GetAxis() == b.GetAxis(), "%s: axis differs", what);
}
template <typename T> static void density_copies(Ctx& c, Density_distr const& g, T const& t, T& other)
{
    auto tmp = std::make_unique<T>(t);
    T cp(*tmp);
    other = *tmp;
    tmp.reset();
    c.check(cp == g && g == cp, "copy differs from the original");
    c.check(other == g && g == other, "assigned density differs from the original");
    same_density(c, g, cp, "copy");
    same_density(c, g, other, "assigned");
    auto& self = other;
    other = self;
    c.check(other == g, "self assignment changes the density");
}
static void density_copies(Ctx& c, std::shared_ptr<Density_distr> q, dens::Spec const& s)
{
    CartesianAxis A(Cartesian3D(0, 1, 0), Cartesian3D(3, 3, 3));
    switch (s.kind) {
    case 0: {
        Density_homogeneous o(7.5);
        return density_copies(c, *q, dynamic_cast<Density_homogeneous&>(*q), o);
    }
    case 1: {
        Density_exponential o(A, 3, 4, 5.);
        return density_copies(c, *q, dynamic_cast<Density_exponential&>(*q), o);
    }
    case 2: {
        Density_polynomial o(A, Polynom(std::vector<double> { 1, 2, 3, 4, 5, 6 }), 5.);
        return density_copies(c, *q, dynamic_cast<Density_polynomial&>(*q), o);
    }
    default: {
        Density_splines o(A, Linear_Spline({ 0, 1 }, { 2, 3 }), 5.);
        return density_copies(c, *q, dynamic_cast<Density_splines&>(*q), o);
    }
    }
}

LAW(density_json, 96000, 1500, "inhomogeneous density")
{
    auto s = spec(c);
    auto j = s.json();
    c.note("%s", j.dump().c_str());
    if (s.kind > 0)
        c.nontrivial();
    if (s.kind == 1 && c.flag(1, 4)) {
        // sigma and d0 have defaults
        s.sigma = 1;
        s.d0 = 0;
        j.erase("sigma");
        j.erase("d0");
    }
    auto a = s.make();
    auto b = CreateDensityDistribution(j);
    c.check(*a == *b && *b == *a && !(*a != *b), "described and constructed density are not equal");
    same_density(c, *a, *b, "json");
    std::shared_ptr<Density_distr> cl(b->clone());
    c.check(*cl == *a, "clone differs");
    b.reset();
    same_density(c, *a, *cl, "clone");
    density_copies(c, a, s);
}

LAW(density_differs, 96000, 3000, "densities differ in exactly one quantity")
{
    auto s = spec(c), t = s;
    double f = c.flag(1, 3) ? 1 + 1e-15 : c.flag() ? 1 + 1e-9 : c.plain(1.01, 2);
    c.nontrivial();
    switch (c.i(0, 5)) {
    case 0:
        t.rho *= f;
        c.require(t.rho != s.rho);
        break;
    case 1: {
        c.require(s.kind > 0);
        int i = int(c.i(0, 2));
        double v[3] { s.fp0[0], s.fp0[1], s.fp0[2] };
        v[i] = v[i] == 0 ? f - 1 : v[i] * f;
        c.require(v[i] != s.fp0[i]);
        t.fp0 = Cartesian3D(v[0], v[1], v[2]);
        break;
    }
    case 2: {
        c.require(s.kind > 0 && !s.radial);
        int i = int(c.i(0, 2));
        double v[3] { s.faxis[0], s.faxis[1], s.faxis[2] };
        v[i] = v[i] == 0 ? f - 1 : v[i] * f;
        c.require(v[i] != s.faxis[i]);
        t.faxis = Cartesian3D(v[0], v[1], v[2]);
        break;
    }
    case 3:
        c.require(s.kind > 0);
        t.radial = !s.radial;
        break;
    case 4:
        c.require(s.kind > 0);
        if (s.kind == 1) {
            if (c.flag())
                t.sigma *= f;
            else
                t.d0 += t.d0 == 0 ? 1 : t.d0 * (f - 1);
            c.require(t.sigma != s.sigma || t.d0 != s.d0);
        } else if (s.kind == 2) {
            size_t i = size_t(c.i(0, long(s.a.size()) - 1));
            if (c.flag(1, 3))
                t.a.push_back(c.plain(0.1, 1));
            else
                t.a[i] += t.a[i] == 0 ? f - 1 : t.a[i] * (f - 1);
            c.require(t.a != s.a);
        } else {
            size_t i = size_t(c.i(0, long(s.x.size()) - 1));
            f = std::max(f, 1 + 1e-9); // far above rounding of the coefficients
            t.y[i] *= f;
            c.require(t.y != s.y);
            t.prepare();
        }
        break;
    default:
        t.kind = int((s.kind + c.i(1, 4)) % 5);
        if (t.kind == 2)
            t.a = { 1, 0.5 };
        if (t.kind >= 3 && t.x.empty()) {
            t.x = { 0, 1, 3 };
            t.y = { 1, 2, 1.5 };
        }
        if (s.kind >= 3 && t.kind >= 3) // straight lines are the same either way
            c.require(s.x.size() > 2);
        t.prepare();
    }
    auto a = s.make(), b = t.make();
    c.note("%s and %s", s.show().c_str(), t.show().c_str());
    c.check(!(*a == *b) && *a != *b && !(*b == *a) && *b != *a, "different densities compare equal");
}

LAW(density_rejected, 48000, 2000, "every case")
{
    auto s = spec(c);
    auto j = s.json();
    std::string what;
    std::vector<std::string> need { "type", "mass_density" };
    if (s.kind > 0)
        need.insert(need.end(), { "axis_type", "fp0" });
    if (s.kind > 0 && !s.radial)
        need.push_back("fAxis");
    if (s.kind == 2)
        need.push_back("coefficients");
    if (s.kind >= 3)
        need.insert(need.end(), { "spline_type", "x", "y" });
    switch (c.i(0, 3)) {
    case 0: {
        auto n = c.pick(need);
        j.erase(n);
        what = "missing " + n;
        break;
    }
    case 1: {
        auto n = c.pick(need);
        j[n] = c.pick<json>({ json(nullptr), json::object(), json("zzz") });
        what = n + " is " + j[n].dump();
        break;
    }
    case 2:
        j["type"] = c.pick<std::string>({ "", "constant", "splines", "exp" });
        what = "unknown type";
        break;
    default:
        c.require(s.kind >= 2);
        if (s.kind == 2) {
            j["coefficients"] = json::array();
            what = "no coefficients";
        } else {
            j["y"].push_back(1.);
            what = "x and y of different length";
        }
    }
    c.note("%s: %s", what.c_str(), j.dump().c_str());
    c.nontrivial();
    bool thrown = false;
    try {
        auto g = CreateDensityDistribution(j);
    } catch (std::exception const&) {
        thrown = true;
    }
    c.check(thrown, "accepted with %s", what.c_str());
}

LAW(axes, 80000, 3000, "cartesian axis")
{
    auto p0 = gen_pos(c, 1e3), x = gen_pos(c, 1e4);
    auto a = gen_dir(c), d = gen_dir(c);
    std::unique_ptr<Axis> A, B;
    bool rad = c.flag(1, 3);
    if (rad)
        A.reset(new RadialAxis(p0));
    else {
        A.reset(new CartesianAxis(a, p0));
        c.nontrivial();
    }
    B.reset(A->clone());
    c.check(*A == *B && !(*A != *B), "clone differs");
    json j { { "fp0", { p0[0], p0[1], p0[2] } }, { "fAxis", { a[0], a[1], a[2] } } };
    if (rad)
        A.reset(new RadialAxis(j));
    else
        A.reset(new CartesianAxis(j));
    c.check(*A == *B && A->GetFp0() == p0, "axis from json differs");
    dens::Spec s;
    s.radial = rad;
    s.fp0 = p0;
    s.faxis = a;
    c.note("%s axis %s at %s, point %s", rad ? "radial" : "cartesian", str(a).c_str(), str(p0).c_str(), str(x).c_str());
    double m = p0.magnitude() + x.magnitude();
    c.close(A->GetDepth(x), double(s.depth(x)), 1e-14, 1e-15 * m, "depth");
    c.require(!rad || s.depth(x) > 1e-3);
    c.close(A->GetEffectiveDistance(x, d), double(s.slope(x, d)), 0, rad ? 1e-14 + 1e-15 * m / double(s.depth(x)) : 1e-15, "change of depth per length");
}
