// stand-in: see Axis.h.  Natural cubic spline in node coordinates.
#pragma once
#include "CubicInterpolation/Axis.h"
#include <functional>
#include <vector>

namespace cubic_splines {

namespace detail {
    // values y_i at 0,1,..,n-1 -> second derivatives (natural spline)
    inline std::vector<double> spline_m(std::vector<double> const& y)
    {
        size_t n = y.size();
        std::vector<double> m(n, 0.), c(n, 0.), d(n, 0.);
        if (n < 3)
            return m;
        for (size_t i = 1; i + 1 < n; ++i) {
            double r = 6. * (y[i + 1] - 2. * y[i] + y[i - 1]);
            double w = 4. - c[i - 1];
            c[i] = 1. / w;
            d[i] = (r - d[i - 1]) / w;
        }
        for (size_t i = n - 2; i >= 1; --i)
            m[i] = d[i] - c[i] * m[i + 1];
        return m;
    }
    inline double spline_eval(
        std::vector<double> const& y, std::vector<double> const& m, double t)
    {
        size_t n = y.size();
        double tm = double(n - 1);
        if (t < 0)
            t = 0;
        if (t > tm)
            t = tm;
        if (!(t == t))
            return t;
        size_t i = size_t(t);
        if (i + 1 >= n)
            i = n - 2;
        double b = t - double(i), a = 1. - b;
        return a * y[i] + b * y[i + 1]
            + ((a * a * a - a) * m[i] + (b * b * b - b) * m[i + 1]) / 6.;
    }
    inline double spline_prime(
        std::vector<double> const& y, std::vector<double> const& m, double t)
    {
        size_t n = y.size();
        double tm = double(n - 1);
        if (t < 0)
            t = 0;
        if (t > tm)
            t = tm;
        if (!(t == t))
            return t;
        size_t i = size_t(t);
        if (i + 1 >= n)
            i = n - 2;
        double b = t - double(i), a = 1. - b;
        return y[i + 1] - y[i]
            + (-(3. * a * a - 1.) * m[i] + (3. * b * b - 1.) * m[i + 1]) / 6.;
    }
}

template <typename T> class CubicSplines {
public:
    using type = T;
    struct Definition {
        std::function<T(T)> f;
        std::unique_ptr<Axis<T>> f_trafo;
        std::unique_ptr<Axis<T>> axis;
        bool approx_derivates = false;
        Axis<T> const& GetAxis() const { return *axis; }
    };

private:
    std::vector<double> y, m;

public:
    CubicSplines() = default;
    CubicSplines(Definition const& def)
    {
        size_t n = def.axis->required_nodes();
        y.resize(n);
        for (size_t i = 0; i < n; ++i) {
            double v = def.f(def.axis->back_transform(T(i)));
            y[i] = def.f_trafo ? def.f_trafo->transform(v) : v;
        }
        m = detail::spline_m(y);
    }
    double evaluate(Definition const& def, double x) const
    {
        double v = detail::spline_eval(y, m, def.axis->transform(x));
        return def.f_trafo ? def.f_trafo->back_transform(v) : v;
    }
    double prime(Definition const& def, double x) const
    {
        double t = def.axis->transform(x);
        double s = detail::spline_prime(y, m, t) * def.axis->derive(x);
        if (!def.f_trafo)
            return s;
        double v = def.f_trafo->back_transform(detail::spline_eval(y, m, t));
        return s / def.f_trafo->derive(v);
    }
};
} // namespace cubic_splines
