// M03: interpolation tables
#include "common.h"
#include "PROPOSAL/math/Interpolant.h"
#include "PROPOSAL/math/InterpolantBuilder.h"
#include <algorithm>
#include <memory>
#include <stdlib.h>
#include <unistd.h>

const char* pbt::property_id = "M03";

// polynomial in one (u) or two variables (u, v) in [0,1]
struct Poly {
    int n1 = 1, n2 = 1;
    std::vector<double> a;
    double operator()(double u, double v = 0) const
    {
        double s = 0;
        for (int i = n1; i-- > 0;) {
            double r = 0;
            for (int j = n2; j-- > 0;)
                r = r * v + a[size_t(i * n2 + j)];
            s = s * u + r;
        }
        return s;
    }
};
static Poly gen_poly(Ctx& c, int n1, int n2)
{
    Poly p;
    p.n1 = n1;
    p.n2 = n2;
    for (int i = 0; i < n1 * n2; ++i)
        p.a.push_back(c.flag(1, 3) ? double(c.i(-3, 3)) : c.plain(-3, 3));
    return p;
}

// one axis of a table
struct Axis {
    int nodes = 2, romberg = 1;
    double lo = 0, hi = 1;
    bool log = false, rational = false, relative = false;
    double work(double x) const { return log ? std::log(x) : x; }
    double unit(double x) const { return (work(x) - work(lo)) / (work(hi) - work(lo)); }
    double at(double u) const
    {
        double w = work(lo) + u * (work(hi) - work(lo));
        return log ? std::exp(w) : w;
    }
    double node(int i) const { return at((i + 0.5) / nodes); }
};
static Axis gen_axis(Ctx& c, bool allow_log = true)
{
    Axis a;
    a.nodes = int(c.i(2, c.flag(1, 5) ? 120 : 16));
    a.romberg = int(c.i(1, std::min(7, a.nodes)));
    a.log = allow_log && c.flag();
    a.lo = a.log ? c.logu(1e-6, 1e6) : c.flag() ? 0 : c.plain(-100, 100);
    a.hi = a.log ? a.lo * c.logu(1.5, 1e12) : a.lo + c.logu(0.1, 1e4);
    a.relative = c.flag(1, 4);
    c.note("axis nodes %d order %d [%.17g, %.17g] log %d", a.nodes, a.romberg, a.lo, a.hi, a.log);
    return a;
}

static double gen_arg(Ctx& c, Axis const& a)
{
    switch (c.i(0, 3)) {
    case 0: return a.node(int(c.i(0, a.nodes - 1)));
    case 1: return c.flag() ? a.lo : a.hi;
    default: return a.at(c.u(0, 1));
    }
}

// a table of either kind with its exact function
struct Table {
    int dim = 1;
    bool array = false, subst = false;
    Axis x, y;
    int order_y = 1;
    Poly p;
    std::vector<double> gx, gy; // array nodes (unit interval)
    std::vector<std::vector<double>> gyy;
    double exact(double s, double t = 0) const
    {
        double v = p(s, t);
        return subst ? std::exp(v) : v;
    }
    std::unique_ptr<Interpolant> build() const
    {
        std::unique_ptr<Interpolant> r;
        if (!array && dim == 1)
            r.reset(new Interpolant(x.nodes, x.lo, x.hi, [this](double a) { return exact(x.unit(a)); }, x.romberg, false, x.relative, x.log, order_y, false, false, subst));
        else if (!array)
            r.reset(new Interpolant(x.nodes, x.lo, x.hi, y.nodes, y.lo, y.hi, [this](double a, double b) { return exact(x.unit(a), y.unit(b)); }, x.romberg, false, x.relative, x.log,
                y.romberg, false, y.relative, y.log, order_y, false, false, subst));
        else if (dim == 1) {
            std::vector<double> f;
            for (double g : gx)
                f.push_back(exact(x.unit(g)));
            r.reset(new Interpolant(gx, f, x.romberg, false, x.relative));
        } else {
            std::vector<std::vector<double>> f;
            for (size_t i = 0; i < gx.size(); ++i) {
                f.emplace_back();
                for (double h : gyy.empty() ? gy : gyy[i])
                    f.back().push_back(exact(x.unit(gx[i]), y.unit(h)));
            }
            if (gyy.empty())
                r.reset(new Interpolant(gx, gy, f, x.romberg, false, x.relative, y.romberg, false, y.relative));
            else
                r.reset(new Interpolant(gx, gyy, f, x.romberg, false, x.relative, y.romberg, false, y.relative));
        }
        return r;
    }
    double ask(Interpolant& i, double a, double b) const
    {
        return array ? (dim == 1 ? i.InterpolateArray(a) : i.InterpolateArray(a, b)) : dim == 1 ? i.Interpolate(a) : i.Interpolate(a, b);
    }
    double truth(double a, double b) const { return dim == 1 ? exact(x.unit(a)) : exact(x.unit(a), y.unit(b)); }
    // sum of the absolute terms
    double scale() const
    {
        double s = 1;
        for (double v : p.a)
            s += std::abs(v);
        return s;
    }
    double tol() const
    {
        double amp = std::ldexp(1., 2 * x.romberg + (dim == 2 ? 2 * y.romberg : 0));
        double cond = 1 + std::abs(x.work(x.lo)) / (x.work(x.hi) - x.work(x.lo)) + (dim == 2 ? std::abs(y.work(y.lo)) / (y.work(y.hi) - y.work(y.lo)) : 0);
        return 1e-14 * amp * cond * scale() * 10;
    }
};

static std::vector<double> gen_grid(Ctx& c, Axis& a, bool descending)
{
    std::vector<double> g;
    double w = 0;
    for (int i = 0; i < a.nodes; ++i) {
        g.push_back(w);
        w += c.flag() ? 1 : c.plain(0.5, 2);
    }
    for (double& v : g)
        v = a.lo + (a.hi - a.lo) * v / g.back();
    g.front() = a.lo;
    g.back() = a.hi;
    if (descending)
        std::reverse(g.begin(), g.end());
    return g;
}

static Table gen_table(Ctx& c)
{
    Table t;
    t.dim = c.flag(2, 5) ? 2 : 1;
    t.array = c.flag(2, 5);
    t.x = gen_axis(c, !t.array);
    if (t.dim == 2) {
        t.y = gen_axis(c, !t.array);
        t.x.nodes = std::min(t.x.nodes, 24), t.y.nodes = std::min(t.y.nodes, 24);
    }
    t.subst = !t.array && c.flag(1, 3);
    t.order_y = int(c.i(1, std::min(5, t.dim == 1 ? t.x.nodes : std::min(t.x.nodes, t.y.nodes))));
    t.p = gen_poly(c, t.x.romberg, t.dim == 2 ? t.y.romberg : 1);
    if (t.array) {
        t.gx = gen_grid(c, t.x, c.flag(1, 4));
        if (t.dim == 2) {
            bool desc = c.flag(1, 4);
            t.gy = gen_grid(c, t.y, desc);
            if (c.flag())
                for (size_t i = 0; i < t.gx.size(); ++i)
                    t.gyy.push_back(gen_grid(c, t.y, desc));
        }
    }
    c.note("dim %d array %d subst %d order back %d coefficients", t.dim, t.array, t.subst, t.order_y);
    for (size_t i = 0; i < t.p.a.size() && i < 6; ++i)
        c.note(" %.6g", t.p.a[i]);
    c.label(strf("dim%d%s", t.dim, t.array ? " array" : ""));
    return t;
}

static void near(Ctx& c, Table const& t, double got, double want, const char* what, double a, double b)
{
    double tol = t.tol();
    if (t.subst) // log of the value
        c.check(got > 0 && std::abs(std::log(got) - std::log(want)) <= tol, "%s at (%.17g, %.17g): %.15g instead of %.15g", what, a, b, got, want);
    else
        c.check(std::abs(got - want) <= tol, "%s at (%.17g, %.17g): %.15g instead of %.15g (tolerance %.3g)", what, a, b, got, want, tol);
}

LAW(polynomials, 80000, 400, "order of at least three")
{
    Table t = gen_table(c);
    auto i = t.build();
    if (t.x.romberg > 2 || (t.dim == 2 && t.y.romberg > 2))
        c.nontrivial();
    for (int k = 0; k < 6; ++k) {
        double a = gen_arg(c, t.x), b = t.dim == 2 ? gen_arg(c, t.y) : 0;
        if (t.array && c.flag(1, 3)) {
            size_t q = size_t(c.i(0, t.x.nodes - 1));
            a = t.gx[q];
            if (t.dim == 2)
                b = (t.gyy.empty() ? t.gy : t.gyy[q])[size_t(c.i(0, t.y.nodes - 1))];
        }
        c.note("query %.17g %.17g", a, b);
        near(c, t, t.ask(*i, a, b), t.truth(a, b), "interpolated value", a, b);
    }
}

LAW(smooth, 40000, 400, "several periods in the range")
{
    Axis a = gen_axis(c);
    double w = c.logu(0.01, 3) * a.nodes / 3, ph = c.plain(0, 6.28);
    if (w > 6.28)
        c.nontrivial();
    bool subst = c.flag(1, 3);
    auto f = [&](double x) { double s = std::sin(w * a.unit(x) + ph); return subst ? std::exp(s) : s; };
    Interpolant t(a.nodes, a.lo, a.hi, f, a.romberg, false, false, a.log, 1, false, false, subst);
    c.note("w %.17g phase %.17g subst %d", w, ph, subst);
    double h = w / a.nodes, bound = 2 * std::pow(h, a.romberg) + 1e-9;
    for (int k = 0; k < 6; ++k) {
        double x = gen_arg(c, a), v = t.Interpolate(x), e = f(x);
        double d = subst ? std::abs(std::log(v / e)) : std::abs(v - e);
        c.check(d <= bound, "%.12g instead of %.12g at %.17g (order %d, %.4g per node)", v, e, x, a.romberg, h);
    }
    // rational functions
    double pole = c.plain(1.3, 4) * (c.flag() ? 1 : -1) + 0.5;
    auto r = [&](double x) { return 1 / (a.unit(x) - pole); };
    Interpolant q(a.nodes, a.lo, a.hi, r, a.romberg, true, false, a.log, 1, false, false, false);
    if (a.romberg == 2 || a.romberg == 1)
        for (int k = 0; k < 3; ++k) {
            double x = k == 0 ? a.node(int(c.i(0, a.nodes - 1))) : gen_arg(c, a);
            if (k == 0 || a.romberg == 2)
                c.check(std::abs(q.Interpolate(x) / r(x) - 1) < 1e-8, "rational interpolation: %.12g instead of %.12g at %.17g", q.Interpolate(x), r(x), x);
        }
}

// values of zero below a threshold with logarithmic values
LAW(zeros, 16000, 400, "threshold inside the range")
{
    Axis a = gen_axis(c);
    int thr = int(c.i(0, a.nodes));
    c.note("first positive node %d", thr);
    if (thr > 0 && thr < a.nodes)
        c.nontrivial();
    auto f = [&](double x) { double u = a.unit(x); return u * a.nodes < thr ? 0 : 1 + u; };
    Interpolant t(a.nodes, a.lo, a.hi, f, a.romberg, false, false, a.log, 1, false, false, true);
    for (int i = 0; i < a.nodes; ++i) {
        double v = t.Interpolate(a.node(i)), e = f(a.node(i));
        c.check(std::abs(v - e) < 1e-9 * std::ldexp(1., a.romberg), "%.12g instead of %.12g at node %d", v, e, i);
    }
    for (int k = 0; k < 5; ++k) {
        double x = gen_arg(c, a), v = t.Interpolate(x);
        c.check(v >= 0 && std::isfinite(v), "%.12g at %.17g", v, x);
        if ((a.unit(x) * a.nodes - thr) > a.romberg + 1 && a.romberg > 1)
            c.check(std::abs(std::log(v) - std::log1p(a.unit(x))) < std::pow(1. / a.nodes, 2), "%.12g at %.17g", v, x);
    }
}

LAW(inverse, 60000, 400, "two dimensions or a curved function")
{
    // strictly monotone f; exact if f is linear in the working variables
    Axis a = gen_axis(c), b = gen_axis(c);
    int dim = c.flag() ? 2 : 1;
    bool subst = c.flag(), curved = c.flag();
    int oy = int(c.i(2, 5));
    Axis& s = dim == 1 ? a : b; // searched axis
    oy = std::min(oy, s.nodes);
    if (dim == 2)
        b.nodes = std::min(b.nodes, 40);
    double k = c.flag() ? 1 : -1, w = c.logu(0.1, 2), off = c.plain(-2, 2), mix = dim == 2 ? c.plain(-1, 1) : 0;
    c.note("dim %d subst %d curved %d order back %d sign %g w %g offset %g mix %g", dim, subst, curved, oy, k, w, off, mix);
    if (dim == 2 || curved)
        c.nontrivial();
    // linear part plus a bounded wiggle with derivative below one half
    auto shape = [&](double u, double v) { return off + mix * v + k * (u + (curved ? 0.4 / w * std::sin(w * u) : 0)); };
    auto f = [&](double u, double v) { double r = shape(u, v); return subst ? std::exp(r) : r; };
    a.romberg = std::max(a.romberg, 2);
    std::unique_ptr<Interpolant> t;
    if (dim == 1)
        t.reset(new Interpolant(a.nodes, a.lo, a.hi, [&](double x) { return f(a.unit(x), 0); }, a.romberg, false, false, a.log, oy, false, false, subst));
    else
        t.reset(new Interpolant(a.nodes, a.lo, a.hi, b.nodes, b.lo, b.hi, [&](double x, double y) { return f(b.unit(y), a.unit(x)); }, a.romberg, false, false, a.log,
            b.romberg, false, false, b.log, oy, false, false, subst));
    for (int q = 0; q < 5; ++q) {
        double x1 = gen_arg(c, a), x = gen_arg(c, s);
        double u = s.unit(x), v = dim == 2 ? a.unit(x1) : 0, y = f(u, v);
        double got = dim == 1 ? t->FindLimit(y) : t->FindLimit(x1, y);
        c.check(got >= s.lo - 1e-9 * std::abs(s.lo) && got <= s.hi + 1e-9 * std::abs(s.hi), "%.17g outside the table", got);
        double tol = 1e-8 + (curved ? 2 * std::pow(2 * w / s.nodes, oy) : 0);
        if (oy < 2)
            tol += 1. / s.nodes;
        c.check(std::abs(s.unit(got) - u) <= tol, "the value at %.17g is found at %.17g (tolerance %.3g of the range)", x, got, tol);
        // queries between do not matter
        if (dim == 1)
            t->Interpolate(gen_arg(c, a));
        else
            t->Interpolate(gen_arg(c, a), gen_arg(c, b));
        double again = dim == 1 ? t->FindLimit(y) : t->FindLimit(x1, y);
        c.check(again == got, "the same search gives %.17g, then %.17g", got, again);
    }
    // outside the values the end of the table is returned
    if (dim == 1 && !curved) {
        double far = t->FindLimit(f(2., 0)), before = t->FindLimit(f(-1., 0));
        c.check(std::abs(s.unit(far) - 1) < 1e-9 && std::abs(s.unit(before)) < 1e-9, "values beyond the ends are found at %.12g and %.12g", before, far);
    }
}

struct Scratch {
    std::string dir;
    Scratch()
    {
        char b[] = "/tmp/m03_XXXXXX";
        dir = mkdtemp(b);
    }
    ~Scratch()
    {
        for (auto& f : files)
            unlink(f.c_str());
        rmdir(dir.c_str());
    }
    std::vector<std::string> files;
};

LAW(histories, 12000, 100, "saved or copied tables were queried after the original was gone")
{
    Scratch s;
    std::vector<std::unique_ptr<Table>> tables;
    std::vector<std::pair<std::unique_ptr<Interpolant>, Table*>> live;
    auto fresh = [&]() {
        tables.emplace_back(new Table(gen_table(c)));
        live.push_back({ tables.back()->build(), tables.back().get() });
    };
    fresh();
    if (c.flag(1, 3))
        fresh();
    int n = int(c.i(1, 10));
    for (int i = 0; i < n; ++i) {
        size_t k = size_t(c.i(0, long(live.size()) - 1)), j = size_t(c.i(0, long(live.size()) - 1));
        auto& cur = live[k];
        switch (c.i(0, 6)) {
        case 0: {
            c.note("copy %zu", k);
            std::unique_ptr<Interpolant> p(new Interpolant(*cur.first));
            c.check(*p == *cur.first, "copy compares unequal");
            live.push_back({ std::move(p), cur.second });
            break;
        }
        case 1:
            c.note("assign %zu = %zu", k, j);
            *cur.first = *live[j].first;
            cur.second = live[j].second;
            c.check(*cur.first == *live[j].first, "assigned table compares unequal");
            break;
        case 2: {
            bool binary = c.flag(), into = c.flag(1, 3);
            c.note("save and load %zu binary %d", k, binary);
            std::string path = s.dir + strf("/t%d", i);
            s.files.push_back(binary ? path : path + ".txt");
            c.check(cur.first->Save(path, binary), "table not saved");
            std::unique_ptr<Interpolant> p(new Interpolant());
            if (into)
                p.reset(new Interpolant(*live[j].first));
            c.check(p->Load(path, binary), "table not loaded");
            live.push_back({ std::move(p), cur.second });
            break;
        }
        case 3:
            if (live.size() > 1) {
                c.note("drop %zu", k);
                live.erase(live.begin() + long(k));
                c.nontrivial();
            }
            break;
        case 4:
            c.note("swap %zu %zu", k, j);
            cur.first->swap(*live[j].first);
            std::swap(cur.second, live[j].second);
            break;
        default: {
            Table& t = *cur.second;
            double a = gen_arg(c, t.x), b = t.dim == 2 ? gen_arg(c, t.y) : 0;
            c.note("query %zu at %.17g %.17g", k, a, b);
            near(c, t, t.ask(*cur.first, a, b), t.truth(a, b), "value", a, b);
            break;
        }
        }
    }
    for (auto& l : live) {
        Table& t = *l.second;
        auto ref = t.build();
        for (int q = 0; q < 3; ++q) {
            double a = gen_arg(c, t.x), b = t.dim == 2 ? gen_arg(c, t.y) : 0;
            c.note("final query %.17g %.17g", a, b);
            near(c, t, t.ask(*l.first, a, b), t.truth(a, b), "value", a, b);
            if (!t.array) {
                // searching agrees with a newly built table
                double y = t.truth(a, b);
                double r = t.dim == 1 ? ref->FindLimit(y) : ref->FindLimit(a, y), g = t.dim == 1 ? l.first->FindLimit(y) : l.first->FindLimit(a, y);
                Axis& sx = t.dim == 1 ? t.x : t.y;
                bool mono = t.p.n1 * t.p.n2 <= 2 && t.p.a.size() == 2 && std::abs(t.p.a[1]) > 0.1;
                if (mono)
                    c.check(std::abs(sx.unit(r) - sx.unit(g)) < 1e-6, "search gives %.17g instead of %.17g", g, r);
            }
        }
    }
}

LAW(builders, 3000, 200, "two dimensions")
{
    Axis a = gen_axis(c), b = gen_axis(c);
    bool subst = c.flag();
    Poly p = gen_poly(c, a.romberg, b.romberg);
    auto g1 = [&](double x) { double r = p(a.unit(x), 0.25); return subst ? std::exp(r) : r; };
    auto g2 = [&](double x, double y) { double r = p(a.unit(x), b.unit(y)); return subst ? std::exp(r) : r; };
    Interpolant1DBuilder::Definition d;
    Interpolant2DBuilder::Definition e;
    int oy = int(c.i(1, 2));
    for (Interpolant1DBuilder::Definition* q : { &d, static_cast<Interpolant1DBuilder::Definition*>(&e) }) {
        q->nodes = a.nodes, q->romberg = a.romberg, q->rombergY = oy, q->logSubst = subst, q->isLog = a.log, q->xmin = a.lo, q->xmax = a.hi;
        q->relative = a.relative;
        q->function1d = g1;
    }
    e.nodes2 = b.nodes, e.romberg2 = b.romberg, e.isLog2 = b.log, e.x2min = b.lo, e.x2max = b.hi, e.relative2 = b.relative, e.function2d = g2;
    int dim = c.flag() ? 2 : 1;
    if (dim == 2)
        c.nontrivial();
    c.note("dim %d subst %d", dim, subst);
    double x = gen_arg(c, a), y = gen_arg(c, b);
    if (dim == 1) {
        auto t = Interpolant1DBuilder(d).build();
        Interpolant r(a.nodes, a.lo, a.hi, g1, a.romberg, false, a.relative, a.log, oy, false, false, subst);
        double v = t->Interpolate(x), w = r.Interpolate(x);
        c.check(v == w, "built table gives %.17g instead of %.17g", v, w);
    } else {
        auto t = Interpolant2DBuilder(e).build();
        Interpolant r(a.nodes, a.lo, a.hi, b.nodes, b.lo, b.hi, g2, a.romberg, false, a.relative, a.log, b.romberg, false, b.relative, b.log, oy, false, false, subst);
        double v = t->Interpolate(x, y), w = r.Interpolate(x, y);
        c.check(v == w, "built table gives %.17g instead of %.17g", v, w);
    }
}
