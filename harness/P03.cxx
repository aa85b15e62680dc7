// P03: energy cut settings
#include "common.h"
#include "PROPOSAL/EnergyCutSettings.h"
#include "PROPOSAL/crosssection/parametrization/Parametrization.h"
#include <nlohmann/json.hpp>

const char* pbt::property_id = "P03";
using nlohmann::json;
static const double Inf = std::numeric_limits<double>::infinity();

static double gen_e(Ctx& c) { return c.flag(1, 5) ? Inf : c.flag() ? double(c.i(1, 1000)) : c.logu(1e-6, 1e14); }
static double gen_v(Ctx& c) { return c.flag(1, 5) ? 1. : c.flag(1, 3) ? c.pick({ 0.05, 0.5, 1e-3 }) : c.logu(1e-12, 1); }

LAW(effective, 2400000, 5000, "both limits of the kinematic range are inside (0,1)")
{
    double e = gen_e(c), v = gen_v(c);
    EnergyCutSettings s(e, v, c.flag());
    double E = c.flag(1, 4) && e != Inf ? e / (c.flag() ? v : 1) * (c.flag() ? 1 : c.plain(0.5, 2)) : c.logu(1e-3, 1e16);
    c.note("ecut %.17g vcut %.17g energy %.17g", e, v, E);
    double k = s.GetCut(E);
    double expect = e / E < v ? e / E : v;
    c.check(k == expect, "relative cut %.17g instead of %.17g", k, expect);
    crosssection::KinematicLimits lim;
    double a = c.flag(1, 3) ? 0. : c.u(0, 1), b = c.flag(1, 3) ? 1. : c.u(0, 1);
    if (c.flag(1, 5))
        a = b = expect;
    lim.v_min = std::min(a, b);
    lim.v_max = std::max(a, b);
    if (c.flag(1, 8)) // near the cut
        lim.v_max = std::max(lim.v_min, expect * (1 + c.plain(-1e-9, 1e-9)));
    c.note("range %.17g %.17g", lim.v_min, lim.v_max);
    if (lim.v_min > 0 && lim.v_max < 1)
        c.nontrivial();
    double r = s.GetCut(lim, E);
    c.check(r >= lim.v_min && r <= lim.v_max, "cut %.17g outside the kinematic range", r);
    double x = expect < lim.v_min ? lim.v_min : expect > lim.v_max ? lim.v_max : expect;
    c.check(r == x, "cut %.17g instead of %.17g", r, x);
    // tighter settings
    EnergyCutSettings t(std::min(e, e == Inf ? c.logu(1, 1e6) : e * c.u(1e-3, 1)), v * c.u(1e-3, 1), c.flag());
    c.check(t.GetCut(E) <= k && t.GetCut(lim, E) <= r, "tighter setting has the larger cut");
    double E2 = E * c.plain(1, 10);
    c.check(s.GetCut(E2) <= k, "relative cut grows with the energy");
    c.check(s.GetEcut() == e && s.GetVcut() == v, "settings not kept");
}

LAW(comparison, 800000, 5000, "exactly one quantity differs")
{
    double e = gen_e(c), v = gen_v(c), e2 = e, v2 = v;
    bool r = c.flag(), r2 = r;
    int which = int(c.i(0, 4));
    switch (which) {
    case 0: e2 = c.flag() ? gen_e(c) : std::nextafter(e, 0); break;
    case 1: v2 = c.flag() ? gen_v(c) : std::nextafter(v, 0); break;
    case 2: r2 = !r; break;
    case 3: std::swap(e2, v2); c.require(v2 <= 1); break;
    default: break;
    }
    EnergyCutSettings a(e, v, r), b(e2, v2, r2);
    bool same = e == e2 && v == v2 && r == r2;
    c.note("%.17g %.17g %d and %.17g %.17g %d", e, v, r, e2, v2, r2);
    if (!same)
        c.nontrivial();
    c.check((a == b) == same && (b == a) == same, "comparison should be %d", same);
    if (e != e2 || v != v2)
        c.check(a.GetHash() != b.GetHash(), "hashes of different cuts are equal");
    if (same)
        c.check(a.GetHash() == b.GetHash(), "hashes of equal cuts differ");
    EnergyCutSettings k(a);
    c.check(k == a && k.GetHash() == a.GetHash() && k.GetContRand() == r, "copy differs");
    k = b;
    c.check(k == b && k.GetContRand() == r2, "assigned settings differ");
    EnergyCutSettings d(e, v);
    c.check(!d.GetContRand(), "continuous randomization by default");
}

LAW(json_form, 240000, 3000, "cut given as a word or number")
{
    double e = gen_e(c), v = gen_v(c);
    bool r = c.flag();
    json j { { "v_cut", v }, { "cont_rand", r } };
    if (v == 1 && c.flag())
        j["v_cut"] = 1;
    if (e == Inf) {
        std::string w = c.flag() ? "inf" : "infinity";
        for (auto& x : w)
            if (c.flag(1, 3))
                x = char(toupper(x));
        j["e_cut"] = w;
    } else if (e == std::floor(e) && e < 1e15 && c.flag())
        j["e_cut"] = long(e);
    else
        j["e_cut"] = e;
    if (c.flag(1, 3))
        j["something"] = 5;
    c.note("%s", j.dump().c_str());
    c.nontrivial();
    EnergyCutSettings s(j);
    c.check(s == EnergyCutSettings(e, v, r) && s.GetHash() == EnergyCutSettings(e, v, r).GetHash(), "described settings differ from constructed ones");
    c.check(s.GetEcut() == e && s.GetVcut() == v && s.GetContRand() == r, "values differ");
}

LAW(rejected, 240000, 3000, "every case")
{
    c.nontrivial();
    double e = gen_e(c), v = gen_v(c);
    std::string what;
    if (c.flag()) {
        switch (c.i(0, 3)) {
        case 0: e = c.flag() ? 0 : -c.logu(1e-300, 1e10); break;
        case 1: v = c.flag() ? 0 : -c.logu(1e-300, 1e10); break;
        case 2: v = c.flag() ? std::nextafter(1, 2) : c.logu(1.001, 1e10); break;
        default: e = -Inf;
        }
        c.note("%.17g %.17g", e, v);
        THROWS(c, EnergyCutSettings(e, v, c.flag()), "values outside the range");
        if (e != -Inf && e != Inf) {
            json j { { "e_cut", e }, { "v_cut", v }, { "cont_rand", true } };
            THROWS(c, EnergyCutSettings(j), "values outside the range in json");
        }
        return;
    }
    json j { { "e_cut", e == Inf ? json("inf") : json(e) }, { "v_cut", v }, { "cont_rand", true } };
    auto k = c.pick<std::string>({ "e_cut", "v_cut", "cont_rand" });
    if (c.flag())
        j.erase(k);
    else if (k == "e_cut")
        j[k] = c.pick<json>({ json("infinite"), json(""), json("500"), json(nullptr), json::array({ 1 }), json::object() });
    else if (k == "v_cut")
        j[k] = c.pick<json>({ json("inf"), json("0.5"), json(nullptr), json::array({ 1 }), json::object() });
    else
        j[k] = c.pick<json>({ json("true"), json(nullptr), json::array({ true }), json::object() });
    c.note("%s", j.dump().c_str());
    THROWS(c, EnergyCutSettings(j), "incomplete or malformed description");
}
