// Reference formulas, written from the publications the parametrizations are
// named after, independent of the library's code. A value comes with the size
// of the terms it is the sum of, so that cancellations can be judged.
#pragma once
#include "xs.h"
#include "PROPOSAL/Constants.h"
#include <cmath>

namespace ref {
using R = long double;
struct Val {
    R v = 0, scale = 0;
};
inline Val clamp(Val x) { return { x.v > 0 ? x.v : R(0), x.scale }; }
inline Val times(Val x, R f) { return { x.v * f, x.scale * std::fabs(f) }; }

const R pi = 3.14159265358979323846264338327950288L, sqrte = std::exp(0.5L);
const R alpha = 0.0072973525664L, NA = 6.022140857e23L, me = 0.5109989461L, re = 2.8179403227e-13L;
const R mmu = 105.6583745L, mp = 938.2720813L, mn = 939.565413L, mpi = 139.57018L;

// dilogarithm: series and reflections
inline R li2(R x)
{
    if (x == 1)
        return pi * pi / 6;
    if (x > 1) // real part
        return pi * pi / 3 - 0.5L * std::log(x) * std::log(x) - li2(1 / x);
    if (x < -1)
        return -pi * pi / 6 - 0.5L * std::log(-x) * std::log(-x) - li2(1 / x);
    if (x > 0.5L)
        return pi * pi / 6 - std::log(x) * std::log1p(-x) - li2(1 - x);
    if (x < -0.5L)
        return -li2(x / (x - 1)) - 0.5L * std::log1p(-x) * std::log1p(-x);
    R sum = 0, p = 1;
    for (int k = 1; k < 200; ++k) {
        p *= x;
        R d = p / (R(k) * k);
        sum += d;
        if (std::fabs(d) < 1e-22L * std::fabs(sum))
            break;
    }
    return sum;
}

inline R log_constant(R Z) // Kelner, Kokoulin, Petrukhin
{
    static const R B[] = { 202.4L, 151.9L, 159.9L, 172.3L, 177.9L, 178.3L, 176.6L, 173.4L, 170.0L, 165.8L, 165.8L, 167.1L, 169.1L, 170.8L, 172.2L, 173.4L, 174.3L, 174.8L, 175.1L, 175.6L, 176.2L, 176.8L };
    switch (int(std::lround(Z))) {
    case 26: return 175.8L;
    case 29: return 173.1L;
    case 32: return 173.0L;
    case 35: return 173.5L;
    case 42: return 175.9L;
    case 50: return 177.4L;
    case 53: return 178.6L;
    case 74: return 177.6L;
    case 82: return 178.0L;
    case 92: return 179.8L;
    }
    int z = int(std::lround(Z));
    return z >= 1 && z <= 22 ? B[z - 1] : 182.7L;
}
inline R b_prime(R Z) { return std::lround(Z) == 1 ? 446 : 1429; }
inline R nucleon(R Z, R A) { return (Z * mp + (A - Z) * mn) / A; }
inline R coulomb(R Z) // Davies, Bethe, Maximon
{
    R a = alpha * Z * alpha * Z;
    return a * (1 / (1 + a) + 0.20206L - 0.0369L * a + 0.0083L * a * a - 0.002L * a * a * a);
}
inline void tsai_radlogs(R Z, R& L, R& Lp)
{
    static const R l[] = { 5.31L, 4.79L, 4.74L, 4.71L }, lp[] = { 6.144L, 5.621L, 5.805L, 5.924L };
    int z = int(std::lround(Z));
    if (z >= 1 && z <= 4) {
        L = l[z - 1], Lp = lp[z - 1];
        return;
    }
    L = std::log(184.15L) - std::log(Z) / 3;
    Lp = std::log(1194.L) - 2 * std::log(Z) / 3;
}

// ---------------------------------------------------------------- bremsstrahlung
// v_max for collisions with atomic electrons
inline R electron_vmax(R m, R E)
{
    R p = std::sqrt((E - m) * (E + m));
    return me * (E - m) / (E * (m * m / (E + p) + me)); // E - p without cancellation
}
// dsigma/dv * A / NA without LPM
inline Val brems(std::string const& name, R m, R z, R Z, R A, R E, R v)
{
    R d = m * m * v / (2 * E * (1 - v));
    R c3 = std::cbrt(Z);
    R pre = alpha / v * 4 * Z * Z * z * z * z * z * re * re * me * me / (m * m);
    R shape = 4 * (1 - v) / 3 + v * v;
    if (name == "PetrukhinShestakov") {
        R num = 189 * m / me / c3, den = 1 + 189 * sqrte * d / me / c3;
        if (Z > 10)
            num *= 2 / (3 * c3);
        return clamp({ pre * shape * std::log(num / den), pre * shape * (std::fabs(std::log(num)) + 1) });
    }
    if (name == "KelnerKokoulinPetrukhin") {
        R B = log_constant(Z), Bp = b_prime(Z), Dn = 1.54L * std::pow(A, 0.27L);
        R elastic = std::log(m / d) - 0.5L - std::log(1 + me * c3 / (d * sqrte * B));
        R nuc = std::log(Dn / (1 + d * (Dn * sqrte - 2) / m));
        R at = 0;
        if (v < electron_vmax(m, E))
            at = std::log(m / d) - std::log(m * d / (me * me) + sqrte) - std::log(1 + me * c3 * c3 / (d * sqrte * Bp));
        R sum = elastic - nuc + at / Z + (Z == 1 ? 0 : nuc / Z);
        return clamp({ pre * shape * sum, pre * shape * (std::fabs(std::log(m / d)) + nuc + 2) });
    }
    if (name == "CompleteScreening") {
        R L, Lp;
        tsai_radlogs(Z, L, Lp);
        R s = shape * ((L - coulomb(Z)) + Lp / Z) + (1 - v) / 9 * (1 + 1 / Z);
        return clamp({ pre * s, pre * 10 });
    }
    if (name == "AndreevBezrukovBugaev") {
        auto part = [&](R radlog, R& p1, R& p2) {
            R a = radlog / (sqrte * me), x = a * d;
            R l = std::log(m * m * a * a / (1 + x * x)), at = x * std::atan(1 / x);
            p1 = (1 + l) / 2 - at;
            p2 = (2.L / 3 + l) / 2 + 2 * x * x * (1 - at - 0.75L * std::log1p(1 / (x * x)));
        };
        R e1, e2, i1, i2;
        part(184.15L / c3, e1, e2);
        part(1194 / (c3 * c3), i1, i2);
        R psi1 = e1 + i1 / Z, psi2 = e2 + i2 / Z;
        if (Z != 1) {
            R qc = 1.9L * mmu / c3, w = 2 * m / qc, zeta = std::sqrt(1 + w * w);
            R lz = zeta / 2 * 2 * std::log((zeta + 1) / w); // ln((z+1)/(z-1)), z*z-1 = w*w
            R l = std::log(m / qc);
            psi1 -= l + lz;
            psi2 -= l + ((3 - zeta * zeta) * lz + w * w) / 2;
        }
        R x1 = 184.15L / c3 / (sqrte * me) * d;
        R s = (2 - 2 * v + v * v) * psi1 - 2.L / 3 * (1 - v) * psi2;
        R qc2 = 2 * m / (1.9L * mmu / c3);
        return clamp({ pre * s, pre * (30 + x1 * x1 + 1e-4L * qc2 * qc2 + 1e-6L * qc2 * qc2 * qc2) });
    }
    if (name == "SandrockSoedingreksoRhode") {
        R B = log_constant(Z), Bp = b_prime(Z), Dn = 1.54L * std::pow(A, 0.27L);
        R mq = m * Dn / (mmu * std::exp(1.L)), rho = std::sqrt(1 + 4 * mq * mq);
        R lr = 2 * std::log((rho + 1) / (2 * mq));
        R d1 = std::log(mq) + rho / 2 * lr;
        R d2 = std::log(mq) + rho * (3 - rho * rho) / 4 * lr + 2 * mq * mq;
        R red = Z == 1 ? 1 : 1 - 1 / Z;
        R b = B / c3 / me;
        R phi1 = std::log(b * m / (1 + b * sqrte * d)) - red * d1;
        R phi2 = std::log(b * m * std::exp(-1 / 6.L) / (1 + b * std::exp(1 / 3.L) * d)) - red * d2;
        R sat = 0;
        if (v < electron_vmax(m, E))
            sat = shape * (std::log(m / d) - std::log(m * d / (me * me) + sqrte) - std::log(1 + me * c3 * c3 / (d * sqrte * Bp)));
        R srad, l1 = std::log1p(-v);
        if (v < 0.02L)
            srad = -0.00349L + v * (148.84L - v * 987.531L);
        else if (v < 0.1L)
            srad = 0.1642L + v * (132.573L + v * (-585.361L + v * 1407.77L));
        else if (v < 0.9L)
            srad = -2.8922L + v * (-19.0156L + v * 57.698L) - 63.418L * v * std::log(v) + 14.1166L * l1 + 1.84206L * l1 * l1;
        else
            srad = 2134.19L + v * (581.823L - v * 2708.85L) + 4767.05L * v * std::log(v) + 1.52918L * l1 + 0.361933L * l1 * l1;
        R s = (2 - 2 * v + v * v) * phi1 - 2.L / 3 * (1 - v) * phi2 + sat / Z + alpha / 4 * phi1 * srad;
        return clamp({ pre * s, pre * (50 + mq * mq * 1e-3L + mq * mq * mq * 1e-5L) });
    }
    // ElectronScreening at 50 MeV and above (EGS4)
    R x = 272 * d / (me * c3), p1, p2, lz = 4 * std::log(Z) / 3, fc = coulomb(Z);
    if (x <= 1)
        p1 = 20.867L - 3.242L * x + 0.625L * x * x, p2 = 20.029L - 1.93L * x - 0.086L * x * x;
    else
        p1 = p2 = 21.12L - 4.184L * std::log(x + 0.952L);
    R L, Lp;
    tsai_radlogs(Z, L, Lp);
    R s = Z * (Z + Lp / (L - fc)) * ((2 - 2 * v + v * v) * (p1 - lz - 4 * fc) - 2.L / 3 * (1 - v) * (p2 - lz - 4 * fc));
    R q = alpha / v * re * re * me * me / (m * m) * z * z * z * z;
    return clamp({ q * s, q * Z * (Z + 2) * (50 + 4 * std::fabs(std::log(x + 1))) });
}
// Landau-Pomeranchuk-Migdal functions (Stanev et al., Migdal)
inline void migdal(R s, R& phi, R& G)
{
    if (s < 1.54954L)
        phi = 1 - std::exp(-6 * s * (1 + (3 - pi) * s) + s * s * s / (0.623L + 0.796L * s + 0.658L * s * s));
    else
        phi = 1 - 0.012L / std::pow(s, 4);
    if (s < 0.710390L) {
        R psi = 1 - std::exp(-4 * s - 8 * s * s / (1 + 3.936L * s + 4.97L * s * s - 0.05L * s * s * s + 7.5L * s * s * s * s));
        G = 3 * psi - 2 * phi;
    } else if (s < 0.904912L)
        G = 36 * s * s / (36 * s * s + 1);
    else
        G = 1 - 0.022L / std::pow(s, 4);
}
inline R lpm_xi(R sp, R s1)
{
    if (sp < s1)
        return 2;
    if (sp >= 1)
        return 1;
    R h = std::log(sp) / std::log(s1);
    return 1 + h - 0.08L * (1 - h) * (2 * h - h * h) / std::log(s1);
}

// ---------------------------------------------------------------- ionization
inline R density_effect(Medium const& m, R bg)
{
    R X = std::log10(bg), l = 2 * std::log(10.L) * X;
    if (X < m.GetX0())
        return m.GetD0() * std::pow(10.L, 2 * (X - m.GetX0()));
    if (X < m.GetX1())
        return l + m.GetC() + m.GetA() * std::pow(m.GetX1() - X, R(m.GetM()));
    return l + m.GetC();
}
inline R z_over_a(Medium const& m)
{
    R z = 0, a = 0;
    for (auto& k : m.GetComponents())
        z += R(k.GetAtomInMolecule()) * k.GetNucCharge(), a += R(k.GetAtomInMolecule()) * k.GetAtomicNum();
    return z / a;
}
inline R rossi_vmax(R m, R E)
{
    R p2 = (E - m) * (E + m);
    return std::min(2 * me * p2 / (m * m + 2 * E * me + me * me) / E, (E - m) / E);
}
inline Val rossi(R m, R z, Medium const& med, R E, R v, bool radiative = true)
{
    R b2 = (E - m) * (E + m) / (E * E), vm = rossi_vmax(m, E);
    R t = v * E / (E + m);
    R k = 2 * pi * NA * re * re * me * z * z * z_over_a(med) / (b2 * E * v * v);
    R s = 1 - b2 * v / vm + t * t / 2;
    if (!radiative)
        return { k * s, k * 2 };
    R a = std::log1p(2 * v * E / me), b = std::log((1 - v / vm) / (1 - v)), c = std::log(2 * E * (1 - v) * me / (m * m * v));
    R rad = alpha / (2 * pi) * (a * (2 * b + c) - b * b);
    return clamp({ k * s * (1 + rad), k * 2 * (1 + alpha * (a * std::fabs(c) + b * b + a * std::fabs(b))) });
}
// restricted loss without the radiative correction
inline R rossi_loss(R m, R z, Medium const& med, R E, R vup)
{
    R p = std::sqrt((E - m) * (E + m)), bg = p / m, b2 = p * p / (E * E), I = R(med.GetI()) * 1e-6L;
    R t = vup * E / (2 * (E + m));
    R s = std::log(2 * me * bg * bg * vup * E / (I * I)) - b2 * (1 + vup / rossi_vmax(m, E)) + t * t - density_effect(med, bg);
    return s > 0 ? 2 * pi * NA * re * re * me * z * z * z_over_a(med) / b2 * s : 0;
}
inline Val moller(Medium const& med, R E, R v)
{
    R T = E - me, g = E / me, e = v * E / T, b2 = T * (E + me) / (E * E), q = (2 * g - 1) / (g * g), w = (g - 1) / g;
    R k = 2 * pi * re * re * NA * z_over_a(med) / (b2 * (g - 1)) * E / T;
    R s = w * w + 1 / (e * e) + 1 / ((1 - e) * (1 - e)) - q / (e * (1 - e));
    return clamp({ k * s, k * (2 + 1 / (e * e) + 1 / ((1 - e) * (1 - e))) });
}
inline Val bhabha(Medium const& med, R E, R v)
{
    R T = E - me, g = E / me, e = v * E / T, b2 = T * (E + me) / (E * E), y = 1 / (g + 1), u = 1 - 2 * y;
    R k = 2 * pi * re * re * NA * z_over_a(med) / (g - 1) * E / T;
    R B1 = 2 - y * y, B2 = u * (3 + y * y), B4 = u * u * u, B3 = u * u + B4;
    R s = 1 / (b2 * e * e) - B1 / e + B2 - B3 * e + B4 * e * e;
    return clamp({ k * s, k * (1 / (b2 * e * e) + 2 / e + 8) });
}
// Berger-Seltzer, D = largest energy transfer in units of the electron mass
inline R berger_seltzer(bool electron, Medium const& med, R E, R D)
{
    R g = E / me, t = (E - me) / me, b2 = t * (t + 2) / (g * g), I = R(med.GetI()) * 1e-6L / me, F;
    if (electron)
        F = -1 - b2 + std::log((t - D) * D) + t / (t - D) + (D * D / 2 + (2 * t + 1) * std::log1p(-D / t)) / (g * g);
    else {
        R y = 1 / (g + 1);
        F = std::log(t * D) - b2 / t * (t + 2 * D - 1.5L * D * D * y - (D - D * D * D / 3) * y * y - (D * D / 2 - t * D * D * D / 3 + D * D * D * D / 4) * y * y * y);
    }
    R s = std::log(2 * (t + 2) / (I * I)) + F - density_effect(med, std::sqrt(t * (t + 2)));
    return s;
}
inline R berger_seltzer_factor(Medium const& med, R E)
{
    return 2 * pi * re * re * me * NA * z_over_a(med) * E * E / ((E - me) * (E + me));
}

// ---------------------------------------------------------------- photons
// Klein-Nishina, dsigma/dv * A / NA
inline Val klein_nishina(R Z, R E, R v)
{
    R k = E / me, e = 1 - v; // scattered over initial energy
    R omc = v / (e * k); // 1 - cos
    R s = e + 1 / e - omc * (2 - omc);
    R pre = pi * re * re / k * Z;
    return { pre * s, pre * (e + 1 / e) };
}
// photoelectric effect, cross section per atom
inline R photoeffect(R Z, R E)
{
    R za = Z * alpha, I = za * za * me / 2, g = 1 + (E - I) / me, bg = std::sqrt((g - 1) * (g + 1)), beta = bg / g;
    R thomson = 8 * pi * re * re / 3;
    R s = 1.5L * thomson * std::pow(Z, 5) * std::pow(alpha, 4) * std::pow(me / E, 5) * bg * bg * bg
        * (4 / 3.L + g * (g - 2) / (g + 1) * (1 - std::log(g + bg) / (g * bg)));
    R xi = za / beta;
    // 2 pi xi exp(-4 xi atan(1/xi)) / (1 - exp(-2 pi xi)) (1 + xi^2)
    R f = 2 * pi * xi * std::exp(-4 * xi * std::atan(1 / xi)) / (pi * xi < 10 ? -std::expm1(-2 * pi * xi) : 1) * (1 + xi * xi);
    R l = std::log(Z);
    return s * f * (1 + l * l * (0.01481L - 0.000788L * l));
}
inline R annihilation(R Z, R m, R E) // per atom
{
    R g = E / m, q = std::sqrt((g - 1) * (g + 1));
    return Z * pi * re * re / (g + 1) * ((g * g + 4 * g + 1) / (q * q) * std::log(g + q) - (g + 3) / q);
}
// photon nucleon cross sections, microbarn, energy in GeV
inline R pion_threshold(R Z, R A) { return mpi + mpi * mpi / (2 * nucleon(Z, A)); }
inline R sigma_caldwell(R nu) { return 49.2L + 11.1L * std::log(nu) + 151.8L / std::sqrt(nu); }
inline R sigma_bb(R nu)
{
    R l = std::log(0.0213L * nu);
    return 114.3L + 1.647L * l * l;
}
inline R sigma_gn(std::string const& name, R E, R M) // above the threshold; Rhode: only above 200 GeV
{
    R nu = E / 1000;
    if (name == "Zeus") {
        R w = 2 * nu * M / 1000;
        return 63.5L * std::pow(w, 0.097L) + 145 / std::sqrt(w);
    }
    if (name == "BezrukovBugaev")
        return sigma_bb(nu);
    if (name == "Kokoulin")
        return nu <= 17 ? 96.1L + 82 / std::sqrt(nu) : nu <= 200 ? sigma_bb(nu) : sigma_caldwell(nu);
    if (name == "Heck" || name == "HeckC7Shadowing") {
        R m = M / 1000, s = m * m + 2 * m * nu, c;
        if (std::sqrt(s) < 19.39L)
            c = (73.7L * std::pow(s, 0.073L) + 191.7L * std::pow(s, -0.602L)) * std::sqrt(1 - 1.0761L * 1.0761L / s);
        else
            c = 59.3L * std::pow(s, 0.093L) + 120.2L * std::pow(s, -0.358L);
        static const R res[3][4] = { { 1.231L, 0.11L, 31.125L, 0.17L }, { 1.515L, 0.11L, 25.567L, 0.38L }, { 1.680L, 0.125L, 17.508L, 0.38L } };
        for (auto& r : res) {
            R q = nu < 0.152L ? 0 : nu >= 0.152L + r[3] ? 1 : (nu - 0.152L) / r[3];
            R d = s - r[0] * r[0];
            c += q * s / (nu * nu) * r[2] * r[1] * r[1] * s / (d * d + r[1] * r[1] * s);
        }
        return c;
    }
    return sigma_caldwell(nu); // Caldwell, Rhode
}
// shadowing of real photons, Bezrukov and Bugaev
inline R shadow_bb(R A, R sigma)
{
    R x = 0.00282L * std::cbrt(A) * sigma;
    if (x < 1e-3L) // series
        return 1 - 3 * x / 8 + x * x / 10;
    return 3 / (x * x * x) * (x * x / 2 - 1 + std::exp(-x) * (1 + x));
}
// transversal and longitudinal real photon formula, Bugaev and Shlepin; per nucleon * A
inline Val real_photon(R m, R z, R Z, R A, R v, R sigma)
{
    R G = Z == 1 || sigma == 0 ? 1 : shadow_bb(A, sigma);
    R k = 1 - 2 / v + 2 / (v * v), m1 = 0.54L, m2 = 1.8L, mu2 = m * m * 1e-6L, t = mu2 * v * v / (1 - v);
    R first = (k + 4 * mu2 / m1) * std::log1p(m1 / t) - k * m1 / (m1 + t) - 2 * mu2 / t + 2 * mu2 / t * (m1 - 4 * t) / (m1 + t);
    R second = (k + 2 * mu2 / m2) * std::log1p(m2 / t) - 2 * mu2 / t + 2 * mu2 / t * m2 / t * std::log1p(t / m2);
    R pre = alpha / (8 * pi) * A * v * sigma * 1e-30L * z * z;
    return { pre * (3 * G * first + second), pre * 4 * (k * (std::log1p(m2 / t) + 1) + 4 * mu2 / t + 5e-5L * (k + 4 * mu2 / m1)) };
}
// shadowing of virtual photons
inline R shadow_dutta(R Z, R A, R x)
{
    if (Z == 1 || x >= 0.04L)
        return 1;
    return x < 0.0014L ? std::pow(A, -0.1L) : std::pow(A, 0.069L * std::log10(x) + 0.097L);
}
inline R shadow_butkevich(R Z, R A, R ws, R x, R nu)
{
    if (Z == 1)
        return 1;
    if (x > 0.3L) {
        R u = 1 / (1 - x), c = 1 / (1 - 0.278L);
        return 1 - 0.437L * ws * (1 - 0.5L * x) * (u - c - mpi / nucleon(Z, A) * (u * u - c * c));
    }
    R m1 = 0.129L * ws, m2 = 0.456L * ws, m3 = 0.553L * ws, n = nu / 1000;
    R G = 0.75L * shadow_bb(A, 112.2L * (0.609L * std::pow(n, 0.0988L) + 1.037L * std::pow(n, -0.5944L))) + 0.25L;
    R x0 = std::pow(G / (1 + m2), 1 / m1);
    return x < x0 ? G : std::pow(x, m1) * (1 + m2) * (1 - m3 * x);
}
// photonuclear double differential cross section per atom
struct Allm {
    R m0, mP, mR, L2, Q02, a[2][3], b[2][3], c[2][3]; // [0] pomeron [1] reggeon, MeV^2
};
inline Allm const& allm(std::string const& name)
{
    static const Allm a91 { 0.30508e6L, 10.67564e6L, 0.20623e6L, 0.06527e6L, 0.27799e6L + 0.06527e6L,
        { { -0.04503L, -0.36407L, 8.17091L }, { 0.60408L, 0.17353L, 1.61812L } },
        { { 0.49222L * 0.49222L, 0.52116L * 0.52116L, 3.55115L }, { 1.26066L * 1.26066L, 1.83624L * 1.83624L, 0.81141L } },
        { { 0.26550L, 0.04856L, 1.04682L }, { 0.67639L, 0.49027L, 2.66275L } } };
    static const Allm a97 { 0.31985e6L, 49.457e6L, 0.15052e6L, 0.06527e6L, 0.52544e6L,
        { { -0.0808L, -0.44812L, 1.1709L }, { 0.58400L, 0.37888L, 2.6063L } },
        { { 0.36292L, 1.8917L, 1.8439L }, { 0.01147L, 3.7582L, 0.49338L } },
        { { 0.28067L, 0.22291L, 2.1979L }, { 0.80107L, 0.97307L, 3.4942L } } };
    static const Allm ft { 0.388e6L, 50.8e6L, 0.838e6L, 4.4e-3L, 18.7L,
        { { -0.075L, -0.470L, 9.2L }, { 0.882L, 0.082L, -8.5L } },
        { { -0.477L, 54.0L, 0.073L }, { 0.339L, 3.38L, 1.07L } },
        { { 0.356L, 0.171L, 18.6L }, { -0.636L, 3.37L, -0.660L } } };
    return name == "AbramowiczLevinLevyMaor91" ? a91 : name == "AbtFT" ? ft : a97;
}
inline R f2_allm(Allm const& p, R x, R Q2, R W2mM2)
{
    R t = std::log(std::log((Q2 + p.Q02) / p.L2) / std::log(p.Q02 / p.L2));
    if (t < 0)
        t = 0;
    auto up = [t](R const* f) { return t == 0 ? f[0] : f[0] + f[1] * std::pow(t, f[2]); };
    auto down = [t](R const* f) { return f[0] - (f[0] - f[1]) * (1 - 1 / (1 + std::pow(t, f[2]))); };
    auto part = [&](int i, R m, R a, R b, R c) { R X = (Q2 + m) / (Q2 + m + W2mM2); (void)i; return c * std::pow(X, a) * std::pow(1 - x, b); };
    return Q2 / (Q2 + p.m0) * (part(0, p.mP, down(p.a[0]), up(p.b[0]), down(p.c[0])) + part(1, p.mR, up(p.a[1]), up(p.b[1]), up(p.c[1])));
}
inline R neutron_ratio(R x) { return 1 - x * (1.85L - x * (2.45L - x * (2.35L - x))); }
inline R q2_integrand(std::string const& name, int shadow, Component const& k, R m, R E, R v, R Q2)
{
    R Z = k.GetNucCharge(), A = k.GetAtomicNum(), M = nucleon(Z, A), nu = v * E, x = Q2 / (2 * M * nu);
    R G = shadow ? shadow_butkevich(Z, A, k.GetWoodSaxon(), x, nu) : shadow_dutta(Z, A, x);
    R F, Rr = 0;
    if (name == "ButkevichMikheyev") {
        Rr = 0.25L;
        R n = 1.5L * (1 + Q2 / (Q2 + 3.0292e6L)), D = 0.0988L * (1 + 2 * Q2 / (Q2 + 1.4817e6L)), aR = 0.4056L;
        R sea = 0.12L * std::pow(x, -D) * std::pow(Q2 / (Q2 + 0.2513e6L), 1 + D);
        R val = std::pow(x, 1 - aR) * std::pow(1 - x, n) * std::pow(Q2 / (Q2 + 0.6186e6L), aR);
        R u = 1.2437L * val, d = 0.1853L * val * (1 - x);
        F = Z * (sea * std::pow(1 - x, n + 4) + u + d) + (A - Z) * (sea * std::pow(1 - x, n + 1.8152L) + u / 4 + 4 * d);
    } else {
        R f;
        if (name == "BlockDurandHa") {
            R L = std::log1p(Q2 / 2.82e6L), l = std::log(Q2 / x / (Q2 + 2.82e6L));
            R a = 8.205e-4L + L * (-5.148e-2L - L * 4.725e-3L), b = 2.217e-3L + L * (1.244e-2L + L * 5.958e-4L), c = 0.255L + 1.475e-1L * L;
            f = Q2 * (Q2 + 2.43L * 0.753e6L) / ((Q2 + 0.753e6L) * (Q2 + 0.753e6L)) * std::pow(1 - x, 11.49L) * (c + a * l + b * l * l);
        } else
            f = f2_allm(allm(name), x, Q2, 2 * M * nu - Q2);
        F = f * (Z + (A - Z) * neutron_ratio(x));
    }
    R pre = 4 * pi * me * me * re * re / (Q2 * Q2 * v) * G * F; // alpha hbar c = m r_e
    R kin = 1 + 4 * M * M * x * x / Q2;
    if (name == "RenoSarcevicSu") // spin 0
        return pre * (1 - v + v * v / 4 - (1 + 4 * m * m / Q2) * v * v / 4 * kin / (1 + Rr));
    return pre * (1 - v - M * x * v / (2 * E) + (1 - 2 * m * m / Q2) * v * v / 2 * kin / (1 + Rr));
}

// ---------------------------------------------------------------- pair production
inline R atomic_electrons(R Z, R g)
{
    R g1 = Z == 1 ? 4.4e-5L : 1.95e-5L, g2 = Z == 1 ? 4.8e-5L : 5.3e-5L, c3 = std::cbrt(Z);
    R a = 0.073L * std::log(g / (1 + g1 * c3 * c3 * g)) - 0.26L, b = 0.058L * std::log(g / (1 + g2 * c3 * g)) - 0.14L;
    return a > 0 && b > 0 ? a / b : 0;
}
// d2sigma/dv drho by Kelner, Kokoulin, Petrukhin; per atom, both signs of rho
struct Epair {
    R val, scale, xi, beta;
    bool edge; // close to a change of formula
};
inline Epair epair_kkp(R m, R z, R Z, R E, R v, R rho)
{
    R r2 = rho * rho, o = (1 - rho) * (1 + rho), c3 = std::cbrt(Z), B = log_constant(Z) / c3;
    R xi = m * m * v * v / (4 * me * me) * o / (1 - v), be = v * v / (2 * (1 - v));
    R Ye = (5 - r2 + 4 * be * (1 + r2)) / (2 * (1 + 3 * be) * std::log(3 + 1 / xi) - r2 - 2 * be * (2 - r2));
    R Ym = (4 + r2 + 3 * be * (1 + r2)) / ((1 + r2) * (1.5L + 2 * be) * std::log(3 + xi) + 1 - 1.5L * r2);
    R q = 2 * me * sqrte * B / (E * v * o), ex = (1 + xi) * (1 + Ye), n = 1.5L * me / m * c3;
    R Le = std::log(B * std::sqrt(ex) / (1 + q * ex)) - 0.5L * std::log(1 + n * n * ex);
    R Lm = std::log(2.L / 3 * m / me * B / c3 / (1 + q * (1 + xi) * (1 + Ym)));
    R Be = ((2 + r2) * (1 + be) + xi * (3 + r2)) * std::log1p(1 / xi) + (o - be) / (1 + xi) - (3 + r2);
    R Bm = ((1 + r2) * (1 + 1.5L * be) - (1 + 2 * be) * o / xi) * std::log1p(xi) + xi * (o - be) / (1 + xi) + (1 + 2 * be) * o;
    R big = std::max(xi, R(1)) * (1 + be) * 4;
    R pre = 2 / (3 * pi) * 2 * Z * (Z + atomic_electrons(Z, E / m)) * alpha * alpha * re * re * z * z * (1 - v) / v;
    R s = 0, edge = 0;
    if (Le > 0)
        s += Be * Le;
    if (Lm > 0)
        s += Bm * Lm * me * me / (m * m) * z * z;
    edge = std::min(std::fabs(Le), std::fabs(Lm)) < 1e-6L || std::fabs(xi - 1e5L) < 1e-3L * xi;
    if (xi > 1e5L) // the leading term of Be is used there
        s = (Le > 0 ? (1.5L - r2 / 2 + be * (1 + r2)) / xi * Le : 0) + (Lm > 0 ? Bm * Lm * me * me / (m * m) * z * z : 0), big = 1;
    return { pre * s, pre * (big * (std::fabs(Le) + 1) + (1 + be) * (1 + 1 / xi) * (std::fabs(Lm) + 1) * me * me / (m * m) * z * z), xi, be, bool(edge) };
}
inline Epair epair_ssr(R m, R z, R Z, R A, R E, R v, R rho)
{
    R r2 = rho * rho, o = (1 - rho) * (1 + rho), c3 = std::cbrt(Z), B = log_constant(Z) / c3, dn = 1.54L * std::pow(A, 0.27L);
    R xi = m * m * v * v / (4 * me * me) * o / (1 - v), be = v * v / (2 * (1 - v));
    R le = std::log1p(1 / xi), lm = std::log1p(xi);
    R a = (2 + r2) * (1 + be) + xi * (3 + r2);
    R Be = a * le + (o - be) / (1 + xi) - (3 + r2);
    R Ce2 = (o * (1 + be) + xi * (3 - r2)) * le + 2 * (1 - be - r2) / (1 + xi) - (3 - r2);
    R De = a * li2(1 / (1 + xi)) - (2 + r2) * xi * le - (xi + r2 + be) / (1 + xi);
    R n = me / m * dn, w = 2 * me * B * (1 + xi) / (E * v * o), e16 = std::exp(-1 / 6.L);
    R X = std::exp(-De / Be);
    auto Lel = [&](R f, R g) { return std::log(f * B * std::sqrt(1 + xi)) - std::log(X + w * g) + std::log(X) - 0.5L * std::log(X + n * n * f * f * (1 + xi)); };
    R Le1 = Lel(1, sqrte), Le2 = Lel(e16, std::exp(1 / 3.L));
    R e = (Be - Ce2) * Le1 + Ce2 * Le2;
    R b = (1 + r2) * (1 + 1.5L * be) - (1 + 2 * be) * o / xi;
    R Bm = b * lm + xi * (o - be) / (1 + xi) + (1 + 2 * be) * o;
    R Cm2 = ((1 - be) * o - xi * (1 + r2)) * lm / xi - 2 * (1 - be - r2) / (1 + xi) + 1 - be - (1 + be) * r2;
    R Dm = b * li2(xi / (1 + xi)) + (1 + 1.5L * be) * o / xi * lm + (o - be / 2 * (1 + r2) + o / (2 * xi) * be) * xi / (1 + xi);
    R Y = std::exp(-Dm / Bm);
    auto Lml = [&](R g) { return std::log(m / me * B / dn) + std::log(Y) - std::log(Y + w * g); };
    R mu = ((Bm - Cm2) * Lml(sqrte) + Cm2 * Lml(std::exp(1 / 3.L))) * me * me / (m * m) * z * z;
    R pre = 4 / (3 * pi) * Z * (Z + atomic_electrons(Z, E / m)) * alpha * alpha * re * re * z * z * (1 - v) / v;
    R big = std::max(xi, R(1)) * (1 + be);
    R val = pre * (std::max(e, R(0)) + std::max(mu, R(0)));
    return { val, pre * (big * 20 * (1 + std::fabs(Le1)) + 20 * (1 + be) * (1 + 1 / xi) * me * me / (m * m) * z * z), xi, be, !std::isfinite((double)val) };
}
// by Kelner, Kokoulin, Petrukhin 2000 for muon pairs; pair mass M, radius r0, U0 screening constant
inline Epair pair_2000(R m, R z, R Z, R E, R v, R rho, R M, R r0, R B, R nuc)
{
    R c3 = std::cbrt(Z), be = v * v / (2 * (1 - v)), rm = 1 - 2 * M / (v * E);
    auto xi_of = [&](R r) { return m * m * v * v / (4 * M * M) * (1 - r) * (1 + r) / (1 - v); };
    R Y = 12 * std::sqrt(M / E);
    auto U = [&](R r) {
        return nuc * B / c3 / (1 + 2 * sqrte * M * M * B / c3 * (1 + xi_of(r)) * (1 + Y) / (me * E * v * (1 - r) * (1 + r)));
    };
    R r2 = rho * rho, o = (1 - rho) * (1 + rho), xi = xi_of(rho);
    R phi = ((2 + r2) * (1 + be) + xi * (3 + r2)) * std::log1p(1 / xi) + ((1 + r2) * (1 + 1.5L * be) - (1 + 2 * be) * o / xi) * std::log1p(xi) - 1 - 3 * r2 + be * (1 - 2 * r2);
    R X = 1 + U(rho) - U(rm);
    R pre = 4 / (3 * pi) * alpha * alpha * r0 * r0 * z * z * Z * Z * (1 - v) / v;
    R L = X > 0 ? std::log(X) : 0;
    R s = phi * L;
    R sc = (std::max(xi, R(1)) + (1 + 1 / xi)) * (1 + be) * 4 * (std::fabs(L) + 1 + std::fabs(U(rho)));
    return { pre * (s > 0 ? s : 0), pre * sc, xi, be, !(X > 1e-6L) };
}
// photon to muon pair
inline Val photomupair(R Z, R A, R E, R x)
{
    R c3 = std::cbrt(Z), B = log_constant(Z) / c3, Bp = b_prime(Z) / (c3 * c3), D = 1.54L * std::pow(A, 0.27L);
    R d = mmu * mmu / (2 * E * x * (1 - x));
    R el = std::log(mmu / me * B / (1 + B * sqrte * d / me)), nu = std::log(D / (1 + d * (D * sqrte - 2) / mmu));
    R phi = el - (Z > 1 ? 1 - 1 / Z : 1) * nu;
    R at = std::log(mmu / d / (d * mmu / (me * me) + sqrte) / (1 + me / (d * sqrte * Bp)));
    R pre = 4 * Z * Z * alpha * re * re * me * me / (mmu * mmu) * (1 - 4.L / 3 * x * (1 - x));
    return clamp({ pre * (phi + at / Z), pre * (std::fabs(el) + std::fabs(nu) + std::fabs(at) + 1) });
}
// photon to electron pair, EGS4 / Koch and Motz above 50 MeV; fc = 0 below
inline Val kochmotz(R Z, R E, R v, bool coulomb_correction)
{
    R c3 = std::cbrt(Z), x = 272 * me / (2 * E * v * (1 - v) * c3), p1, p2;
    if (x <= 1)
        p1 = 20.867L - 3.242L * x + 0.625L * x * x, p2 = 20.029L - 1.93L * x - 0.086L * x * x;
    else
        p1 = p2 = 21.12L - 4.184L * std::log(x + 0.952L);
    R L, Lp, f = coulomb(Z), lz = 4 * std::log(Z) / 3;
    tsai_radlogs(Z, L, Lp);
    R xi = Lp / (L - f);
    if (!coulomb_correction)
        f = 0;
    R pre = re * re * alpha * Z * (Z + xi);
    return { pre * ((v * v + (1 - v) * (1 - v)) * (p1 - lz - 4 * f) + 2.L / 3 * v * (1 - v) * (p2 - lz - 4 * f)), pre * (40 + 5 * std::log1p(x)) };
}
inline Val tsai(R Z, R k, R x)
{
    R d = me * me / (2 * k * x * (1 - x)), l = std::log(Z), P1, P2, S1, S2;
    if (Z <= 2.5L) {
        R eta = Z <= 1.5L ? 1 : 1.6875L, C = d / (2 * alpha * me * eta), C2 = C * C, at = C * std::atan(1 / C), lg = std::log1p(1 / C2), L0 = 4 * std::log(1 / (2 * eta * alpha)) - 2 * std::log1p(C2);
        P1 = 4 * l / 3 + L0 + 13 / 3.L - 6.5L * at + C2 / (1 + C2) / 6;
        P2 = 4 * l / 3 + L0 + 11 / 3.L + 25 * C2 * (1 - at) - 14 * C2 * lg;
        S1 = 8 * l / 3 + L0 + 23 / 3.L - 17.5L * at + 8 * C2 * lg - C2 / (1 + C2) / 6;
        S2 = 8 * l / 3 + L0 + 7 - 105 * C2 * (1 - at) + 50 * C2 * lg - 24 * C2 * (-std::log(C2) * lg + li2(1 + 1 / C2) - pi * pi / 6);
    } else if (Z <= 4.5L) {
        R a = (Z <= 3.5L ? 100 : 106) / std::cbrt(Z), ap = (Z <= 3.5L ? 418.6L : 571.4L) / std::pow(Z, 2.L / 3);
        auto f = [&](R b, R L, R& F1, R& F2) {
            R at = b * std::atan(1 / b);
            F1 = 2 * (1 + 2 * L) - 2 * std::log1p(b * b) - 4 * at;
            F2 = 2 * (2.L / 3 + 2 * L) - 2 * std::log1p(b * b) + 8 * b * b * (1 - at - 0.75L * std::log1p(1 / (b * b)));
        };
        f(d * a / me, std::log(a) + l / 3, P1, P2);
        f(d * ap / me, std::log(ap) + 2 * l / 3, S1, S2);
    } else {
        R g = 200 * d / (me * std::cbrt(Z)), e = 200 * d / (me * std::pow(Z, 2.L / 3));
        P1 = 20.863L - 2 * std::log1p(0.55846L * g * 0.55846L * g) - 4 + 2.4L * std::exp(-0.9L * g) + 1.6L * std::exp(-1.5L * g);
        P2 = P1 - 2 / (3 * (1 + 6.5L * g + 6 * g * g));
        S1 = 28.34L - 2 * std::log1p(3.621L * e * 3.621L * e) - 4 + 2.8L * std::exp(-8 * e) + 1.2L * std::exp(-29.2L * e);
        S2 = S1 - 2 / (3 * (1 + 40 * e + 400 * e * e));
    }
    R z = Z * Z / (137.L * 137), f = z * (1.202L - 1.0369L * z + 1.008L * z * z / (1 + z));
    R s = (1 - 4.L / 3 * x * (1 - x)) * (Z * Z * (P1 - 4 * l / 3 - 4 * f) + Z * (S1 - 8 * l / 3)) - 2.L / 3 * x * (1 - x) * (Z * Z * (P1 - P2) + Z * (S1 - S2));
    R p = std::sqrt((x * k - me) * (x * k + me));
    R pre = alpha * re * re * x * k / p;
    R C = d / (2 * alpha * me);
    return clamp({ pre * s, pre * Z * Z * (60 + (Z < 5 ? 200 * (C * C + 1) : 0)) });
}
// LPM of electron pair production by charged particles, Polityko et al.
inline R ternovskii(R s, R r2, R b, R x)
{
    R u = 6 * s, u2 = 36 * s * s, d1 = u / (u + 1), d2 = u2 / (u2 + 1);
    R at = -std::atan(1 / (u * (1 + x)));
    R l1 = std::log((u2 * (1 + x) * (1 + x) + 1) / (u2 * x * x)), l2 = std::log((u * (1 + x) + 1) / (u * x));
    R A = d2 / 2 * (1 + 2 * d2 * x) * l1 - d2 + d2 * u * (1 + (u2 - 1) / (u2 + 1) * x) * at;
    R B = d1 * (1 + d1 * x) * l2 - d1;
    R C = -d2 * d2 * x * l1 + d2 - d2 * d2 * (u2 - 1) / u * x * at;
    R D = d1 - d1 * d1 * x * l2;
    R E = -u * at;
    return ((1 + b) * (A + (1 + r2) * B) + b * (C + (1 + r2) * D) + (1 - r2) * E)
        / (((2 + r2) * (1 + b) + x * (3 + r2)) * std::log1p(1 / x) + (1 - r2 - b) / (1 + x) - (3 + r2));
}
}
