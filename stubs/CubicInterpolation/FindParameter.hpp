// stand-in: see Axis.h.  Bracketed root search.
#pragma once
#include "CubicInterpolation/Interpolant.h"
#include <limits>

namespace cubic_splines {

template <typename T> struct ParameterGuess {
    T x;
    double lower = std::numeric_limits<double>::quiet_NaN();
    double upper = std::numeric_limits<double>::quiet_NaN();
    size_t n = 0;
};

namespace detail {
    template <typename F>
    double bracketed_root(F f, double a, double b)
    {
        double fa = f(a), fb = f(b);
        if (fa == 0)
            return a;
        if (fb == 0)
            return b;
        if (!(fa * fb < 0))
            throw std::runtime_error("find_parameter: no bracketed solution");
        for (int i = 0; i < 200; ++i) {
            double c = 0.5 * (a + b);
            if (c == a || c == b)
                break;
            double fc = f(c);
            if (fc == 0)
                return c;
            if ((fa < 0) == (fc < 0)) {
                a = c;
                fa = fc;
            } else
                b = c;
        }
        return 0.5 * (a + b);
    }
}

template <typename I>
double find_parameter(I const& interp, double y, ParameterGuess<double> const& g)
{
    auto f = [&](double x) { return interp.evaluate(x) - y; };
    double lo = g.lower == g.lower ? g.lower
                                   : interp.GetDefinition().GetAxis().GetLow();
    double up = g.upper == g.upper ? g.upper
                                   : interp.GetDefinition().GetAxis().GetHigh();
    return detail::bracketed_root(f, lo, up);
}

template <typename I>
double find_parameter(
    I const& interp, double y, ParameterGuess<std::array<double, 2>> const& g)
{
    auto x = g.x;
    auto f = [&](double v) {
        x[g.n] = v;
        return interp.evaluate(x) - y;
    };
    auto const& ax = interp.GetDefinition().GetAxis().at(g.n);
    double lo = g.lower == g.lower ? g.lower : ax->GetLow();
    double up = g.upper == g.upper ? g.upper : ax->GetHigh();
    return detail::bracketed_root(f, lo, up);
}
} // namespace cubic_splines
