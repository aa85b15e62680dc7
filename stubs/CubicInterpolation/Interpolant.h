// stand-in: see Axis.h.  No table files are read or written.
#pragma once
#include "CubicInterpolation/BicubicSplines.h"
#include "CubicInterpolation/CubicSplines.h"
#include <string>

namespace cubic_splines {

template <typename Spline> class Interpolant {
    typename Spline::Definition def;
    Spline spline;

public:
    Interpolant(typename Spline::Definition&& d, std::string = "",
        std::string = "")
        : def(std::move(d)), spline(def)
    {
    }
    template <typename X> double evaluate(X const& x) const
    {
        return spline.evaluate(def, x);
    }
    template <typename X> double prime(X const& x) const
    {
        return spline.prime(def, x);
    }
    typename Spline::Definition const& GetDefinition() const { return def; }
};
} // namespace cubic_splines
