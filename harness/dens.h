// generated density distributions with their documented formulas
#pragma once
#include "common.h"
#include "PROPOSAL/density_distr/density_distr.h"
#include "PROPOSAL/density_distr/density_exponential.h"
#include "PROPOSAL/density_distr/density_homogeneous.h"
#include "PROPOSAL/density_distr/density_polynomial.h"
#include "PROPOSAL/density_distr/density_splines.h"
#include "PROPOSAL/math/Function.h"
#include "PROPOSAL/math/Spline.h"
#include <algorithm>
#include <memory>
#include <nlohmann/json.hpp>

namespace dens {
typedef long double ld;
struct Spec {
    int kind; // 0 homogeneous 1 exponential 2 polynomial 3 linear spline 4 cubic spline
    bool radial = false;
    Cartesian3D fp0 { 0, 0, 0 }, faxis { 1, 0, 0 };
    double rho = 1, sigma = 1, d0 = 0;
    std::vector<double> a, x, y;

    ld depth(Cartesian3D const& p) const
    {
        ld q[3], s = 0;
        for (int i = 0; i < 3; ++i)
            q[i] = (ld)p[i] - fp0[i];
        if (radial)
            return sqrtl(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]);
        for (int i = 0; i < 3; ++i)
            s += q[i] * faxis[i];
        return s;
    }
    // change of the depth per length at p in direction d
    ld slope(Cartesian3D const& p, Cartesian3D const& d) const
    {
        ld s = 0;
        if (radial) {
            ld n = depth(p);
            for (int i = 0; i < 3; ++i)
                s += ((ld)p[i] - fp0[i]) / n * d[i];
        } else
            for (int i = 0; i < 3; ++i)
                s += (ld)faxis[i] * d[i];
        return s;
    }
    std::vector<double> m; // second derivatives of the natural spline
    void prepare()
    {
        if (kind != 4)
            return;
        int n = int(x.size());
        std::vector<ld> A(n, 0), B(n, 1), C(n, 0), R(n, 0);
        for (int i = 1; i + 1 < n; ++i) {
            ld h0 = x[i] - x[i - 1], h1 = x[i + 1] - x[i];
            A[i] = h0 / 6;
            B[i] = (h0 + h1) / 3;
            C[i] = h1 / 6;
            R[i] = (y[i + 1] - y[i]) / h1 - (y[i] - y[i - 1]) / h0;
        }
        for (int i = 1; i < n; ++i) {
            ld f = A[i] / B[i - 1];
            B[i] -= f * C[i - 1];
            R[i] -= f * R[i - 1];
        }
        m.assign(n, 0);
        ld prev = 0;
        for (int i = n - 1; i >= 0; --i) {
            prev = (R[i] - C[i] * prev) / B[i];
            m[i] = double(prev);
        }
    }
    ld f(ld d) const // density at depth d
    {
        switch (kind) {
        case 0:
            return rho;
        case 1:
            return rho * expl((d - d0) / sigma);
        case 2: {
            ld s = 0, p = 1;
            for (double k : a) {
                s += k * p;
                p *= d;
            }
            return rho * s;
        }
        default: {
            size_t i = 0;
            while (i + 2 < x.size() && d >= x[i + 1])
                ++i;
            ld h = (ld)x[i + 1] - x[i], A = (x[i + 1] - d) / h, B = 1 - A;
            ld v = A * y[i] + B * y[i + 1];
            if (kind == 4)
                v += ((A * A * A - A) * m[i] + (B * B * B - B) * m[i + 1]) * h * h / 6;
            return rho * v;
        }
        }
    }
    // integral over the length l when the depth d changes with the slope k
    ld grammage(ld d, ld k, ld l) const
    {
        if (kind == 1) {
            ld z = k / sigma;
            return f(d) * (z == 0 ? l : expm1l(z * l) / z);
        }
        std::vector<ld> t { 0 };
        if (kind >= 3 && k != 0)
            for (double q : x)
                if ((q - d) / k > 0 && (q - d) / k < l)
                    t.push_back((q - d) / k);
        t.push_back(l);
        std::sort(t.begin(), t.end());
        ld s = 0;
        for (size_t i = 0; i + 1 < t.size(); ++i) {
            // Gauss-Legendre with 4 points: exact up to degree 7
            static const ld X[2] = { 0.339981043584856264802665759103L, 0.861136311594052575223946488893L };
            static const ld W[2] = { 0.652145154862546142626936050778L, 0.347854845137453857373063949222L };
            ld mid = 0.5L * (t[i] + t[i + 1]), h = 0.5L * (t[i + 1] - t[i]);
            for (int j = 0; j < 2; ++j)
                s += h * W[j] * (f(d + k * (mid - h * X[j])) + f(d + k * (mid + h * X[j])));
        }
        return s;
    }
    std::shared_ptr<Axis> axis() const
    {
        if (radial)
            return std::make_shared<RadialAxis>(fp0);
        return std::make_shared<CartesianAxis>(faxis, fp0);
    }
    std::shared_ptr<Density_distr> make() const
    {
        auto A = axis();
        switch (kind) {
        case 0:
            return std::make_shared<Density_homogeneous>(rho);
        case 1:
            return std::make_shared<Density_exponential>(*A, sigma, d0, rho);
        case 2:
            return std::make_shared<Density_polynomial>(*A, Polynom(a), rho);
        case 3:
            return std::make_shared<Density_splines>(*A, Linear_Spline(x, y), rho);
        default:
            return std::make_shared<Density_splines>(*A, Cubic_Spline(x, y), rho);
        }
    }
    nlohmann::json json() const
    {
        nlohmann::json j;
        static const char* n[] = { "homogeneous", "exponential", "polynomial", "spline", "spline" };
        j["type"] = n[kind];
        j["mass_density"] = rho;
        if (kind > 0) {
            j["axis_type"] = radial ? "radial" : "cartesian";
            j["fp0"] = { fp0[0], fp0[1], fp0[2] };
            if (!radial)
                j["fAxis"] = { faxis[0], faxis[1], faxis[2] };
        }
        if (kind == 1) {
            j["sigma"] = sigma;
            j["d0"] = d0;
        }
        if (kind == 2)
            j["coefficients"] = a;
        if (kind >= 3) {
            j["spline_type"] = kind == 3 ? "linear" : "cubic";
            j["x"] = x;
            j["y"] = y;
        }
        return j;
    }
    std::string show() const { return json().dump(); }
};

// density that is positive for all depths in [lo, hi] (and beyond by a margin)
inline Spec gen_spec(Ctx& c, double lo, double hi, Spec s)
{
    s.rho = c.flag(1, 4) ? 1. : c.logu(1e-3, 20);
    double w = std::max(hi - lo, 1e-2 * std::max(std::abs(lo), std::abs(hi)));
    w = std::max(w, 1e-4); // the splines do not resolve 1e-9 cm
    double mid = 0.5 * (lo + hi);
    switch (s.kind) {
    case 1:
        s.d0 = mid + w * c.plain(-1, 1);
        s.sigma = w * c.logu(0.1, 100) * (c.flag() ? 1 : -1);
        break;
    case 2: { // shifted positive polynomial, expanded: c0 + c1 t + c2 t^2 (+ c4 t^4), t = (d - mid)/w
        double c0 = c.plain(0.3, 2), c1 = c.plain(-0.9, 0.9) * c0, c2 = c.flag() ? c.plain(0, 2) : 0, c4 = c.flag(1, 3) ? c.plain(0, 2) : 0;
        if (c.flag(1, 10)) {
            s.a = { c0 };
            break;
        }
        std::vector<double> t { c0, c1, c2, 0, c4 };
        // Horner composition with (d - mid)/w
        std::vector<double> p { 0. };
        for (int i = 4; i >= 0; --i) {
            std::vector<double> q(p.size() + 1, 0.);
            for (size_t k = 0; k < p.size(); ++k) {
                q[k + 1] += p[k] / w;
                q[k] -= p[k] * mid / w;
            }
            q[0] += t[i];
            p = q;
        }
        while (p.size() > 1 && p.back() == 0)
            p.pop_back();
        s.a = p;
        break;
    }
    case 3:
    case 4: {
        int n = int(c.i(2, 7));
        double d = lo - w * c.plain(0.01, 0.3);
        double step = (hi + w * 0.35 - d) / (n - 1);
        for (int i = 0; i < n; ++i) {
            s.x.push_back(std::abs(d) < 1e-8 ? 0. : d);
            s.y.push_back(c.plain(0.3, 2));
            d += step * (i + 2 == n ? 1. : c.plain(0.8, 1.1));
        }
        if (s.x.back() < hi + 0.01 * w)
            s.x.back() = hi + 0.01 * w;
        break;
    }
    default:
        break;
    }
    s.prepare();
    return s;
}
} // namespace dens
