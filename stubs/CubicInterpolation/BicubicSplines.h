// stand-in: see Axis.h.  Bicubic interpolation from splines along both axes
// (row splines precomputed; column spline of the row values per evaluation).
#pragma once
#include "CubicInterpolation/CubicSplines.h"

namespace cubic_splines {

template <typename T> class BicubicSplines {
public:
    using type = T;
    struct Definition {
        std::array<std::unique_ptr<Axis<T>>, 2> axis;
        std::function<T(T, T)> f;
        std::unique_ptr<Axis<T>> f_trafo;
        bool approx_derivates = false;
        std::array<std::unique_ptr<Axis<T>>, 2> const& GetAxis() const
        {
            return axis;
        }
    };

private:
    // local cubic (Catmull-Rom) along axis 0, splines along axis 1
    std::vector<std::vector<double>> y, m;

    static void weights(double t, size_t n, size_t& i0, size_t& cnt, double w[4])
    {
        double tm = double(n - 1);
        if (t < 0)
            t = 0;
        if (t > tm)
            t = tm;
        // cubic Lagrange on up to four neighbouring nodes
        cnt = n < 4 ? n : 4;
        long i = long(t) - 1;
        if (i < 0)
            i = 0;
        if (i + long(cnt) > long(n))
            i = long(n) - long(cnt);
        i0 = size_t(i);
        for (size_t a = 0; a < cnt; ++a) {
            double l = 1;
            for (size_t b = 0; b < cnt; ++b)
                if (b != a)
                    l *= (t - double(i0 + b)) / (double(a) - double(b));
            w[a] = l;
        }
    }

public:
    BicubicSplines() = default;
    BicubicSplines(Definition const& def)
    {
        size_t n0 = def.axis[0]->required_nodes();
        size_t n1 = def.axis[1]->required_nodes();
        y.assign(n0, std::vector<double>(n1));
        m.resize(n0);
        for (size_t i = 0; i < n0; ++i) {
            for (size_t j = 0; j < n1; ++j) {
                double v = def.f(def.axis[0]->back_transform(T(i)),
                    def.axis[1]->back_transform(T(j)));
                y[i][j] = def.f_trafo ? def.f_trafo->transform(v) : v;
            }
            m[i] = detail::spline_m(y[i]);
        }
    }
    double evaluate(Definition const& def, std::array<double, 2> const& x) const
    {
        double t0 = def.axis[0]->transform(x[0]);
        double t1 = def.axis[1]->transform(x[1]);
        if (!(t0 == t0) || !(t1 == t1))
            return NAN;
        size_t i0, cnt;
        double w[4];
        weights(t0, y.size(), i0, cnt, w);
        double v = 0;
        for (size_t a = 0; a < cnt; ++a)
            v += w[a] * detail::spline_eval(y[i0 + a], m[i0 + a], t1);
        return def.f_trafo ? def.f_trafo->back_transform(v) : v;
    }
};
} // namespace cubic_splines
