// helpers shared by the harnesses
#pragma once
#include "pbt.h"
#include "PROPOSAL/Constants.h"
#include "PROPOSAL/Logging.h"
#include "PROPOSAL/math/Cartesian3D.h"
#include "PROPOSAL/math/RandomGenerator.h"
#include "PROPOSAL/math/Spherical3D.h"
#include <array>
#include <functional>

using pbt::Ctx;
using pbt::strf;
using namespace PROPOSAL;

// unit vector, with axis-parallel and nearly axis-parallel special cases
Cartesian3D gen_dir(Ctx& c);
// coordinate in [-s, s] with special values
double gen_coord(Ctx& c, double s);
Cartesian3D gen_pos(Ctx& c, double s);
std::string str(Vector3D const& v);

// Reference quadrature, independent of the library: adaptive Gauss-Legendre.
double quad(std::function<double(double)> const& f, double a, double b,
    double rtol = 1e-9, double atol = 0, int splits = 400);
// same after substitution x = exp(t), 0 < a < b
double quad_log(std::function<double(double)> const& f, double a, double b,
    double rtol = 1e-9, double atol = 0, int splits = 400);
