// Functional stand-in for the (not installed) CubicInterpolation library.
// It offers just the part of the API PROPOSAL uses; it is test-harness code and
// part of the trusted base of the checks.
#pragma once
#include <array>
#include <cmath>
#include <cstddef>
#include <memory>
#include <stdexcept>
#include <utility>

namespace cubic_splines {

template <typename T> class Axis {
protected:
    T low = 0, up = 0;
    size_t n_nodes = 2;

public:
    Axis() = default;
    Axis(T l, T u, size_t n) : low(l), up(u), n_nodes(n < 2 ? 2 : n) {}
    virtual ~Axis() = default;
    virtual T transform(T) const = 0;      // physical value -> node coordinate
    virtual T back_transform(T) const = 0; // node coordinate -> physical value
    virtual T derive(T) const = 0;         // d transform / dx
    T GetLow() const { return low; }
    T GetHigh() const { return up; }
    size_t required_nodes() const { return n_nodes; }
};

template <typename T> class LinAxis : public Axis<T> {
    T step = 1;

public:
    LinAxis(T l, T u, size_t n) : Axis<T>(l, u, n)
    {
        step = (this->up - this->low) / T(this->n_nodes - 1);
    }
    T transform(T x) const override { return (x - this->low) / step; }
    T back_transform(T t) const override { return this->low + t * step; }
    T derive(T) const override { return T(1) / step; }
};

template <typename T> class ExpAxis : public Axis<T> {
    T step = 1;
    T scale = 1;

public:
    ExpAxis(T l, T u, size_t n) : Axis<T>(l, u, n), scale(l)
    {
        step = std::log(this->up / this->low) / T(this->n_nodes - 1);
    }
    // two argument form: used for transforming function values
    ExpAxis(T stepsize, T) : step(stepsize), scale(1) {}
    T transform(T x) const override { return std::log(x / scale) / step; }
    T back_transform(T t) const override { return scale * std::exp(t * step); }
    T derive(T x) const override { return T(1) / (x * step); }
};

template <typename T> class ExpM1Axis : public Axis<T> {
    T step = 1;

public:
    ExpM1Axis(T stepsize, T) : step(stepsize) {}
    T transform(T x) const override { return std::log1p(x) / step; }
    T back_transform(T t) const override { return std::expm1(t * step); }
    T derive(T x) const override { return T(1) / ((1 + x) * step); }
};
} // namespace cubic_splines
