// helpers shared by the harnesses: reference vector arithmetic (independent of the
// repository's Vector class), generators, comparison helpers
#pragma once
#include <sstream>
#include <iostream>
#include <cctype>
#include "pbt.h"
#include <algorithm>
#include <array>
#include <complex>
#include <fstream>
#include <memory>
#include <sstream>
#include <iostream>
#include <vector>
#include "global.h"
#include "vector.h"
#include "fields.h"
#include "fieldtrace.h"
#include "particle.h"
#include "bunch.h"
#include "beam.h"

using pbt::Ctx;
using pbt::fmt;

typedef long double ld;
template <class T> struct V3T {
    T x, y, z;
    V3T() : x(0), y(0), z(0) {}
    V3T(T a, T b, T c) : x(a), y(b), z(c) {}
    V3T(const Vector &v) : x(v.x), y(v.y), z(v.z) {}
    V3T operator+(const V3T &o) const { return V3T(x + o.x, y + o.y, z + o.z); }
    V3T operator-(const V3T &o) const { return V3T(x - o.x, y - o.y, z - o.z); }
    V3T operator*(T f) const { return V3T(x * f, y * f, z * f); }
    V3T operator/(T f) const { return V3T(x / f, y / f, z / f); }
    T dot(const V3T &o) const { return x * o.x + y * o.y + z * o.z; }
    V3T cross(const V3T &o) const { return V3T(y * o.z - z * o.y, z * o.x - x * o.z, x * o.y - y * o.x); }
    T abs2() const { return dot(*this); }
    T norm() const { return sqrtl((ld)abs2()); }
    V3T unit() const { return *this / norm(); }
    Vector vec() const { return Vector((double)x, (double)y, (double)z); }
};
typedef V3T<ld> L3;
typedef V3T<double> D3;

// physical constants (CODATA values as documented in the user manual)
static const double cC = 2.99792458e8;
static const double cE = 1.6021766208e-19;
static const double cMec2 = 0.5109989461e6; // eV
static const double cEps0 = 8.854187817e-12;
static const double cPi = 3.1415926535897932384626433832795029;

inline std::string sv(Vector v) { return fmt("(%.9g,%.9g,%.9g)", v.x, v.y, v.z); }
inline std::string sv(D3 v) { return fmt("(%.9g,%.9g,%.9g)", v.x, v.y, v.z); }
inline std::string sv(L3 v) { return fmt("(%.9Lg,%.9Lg,%.9Lg)", v.x, v.y, v.z); }

inline bool finite3(Vector v) { return std::isfinite(v.x) && std::isfinite(v.y) && std::isfinite(v.z); }
// NaN-safe "a is within tol of b"
inline bool near(double a, double b, double tol) { return fabs(a - b) <= tol; }
inline bool nearv(Vector a, Vector b, double tol) { return near(a.x, b.x, tol) && near(a.y, b.y, tol) && near(a.z, b.z, tol); }
template <class T> inline bool nearv(Vector a, V3T<T> b, double tol) {
    return near(a.x, (double)b.x, tol) && near(a.y, (double)b.y, tol) && near(a.z, (double)b.z, tol);
}
inline bool samev(Vector a, Vector b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
inline double vmax(Vector a) { return std::max(fabs(a.x), std::max(fabs(a.y), fabs(a.z))); }

// ---- generators
inline Vector gvec(Ctx &c, double m) {
    double x = c.sym(m), y = c.sym(m), z = c.sym(m);
    return Vector(x, y, z);
}
inline Vector gunit(Ctx &c) {
    switch (c.upto(7)) {
    case 0: return Vector(0, 0, 1);
    case 1: return Vector(1, 0, 0);
    case 2: return Vector(0, -1, 0);
    default: {
        double ct = c.real(-1, 1), ph = c.real(0, 2 * cPi), st = sqrt(std::max(0.0, 1 - ct * ct));
        return Vector(st * cos(ph), st * sin(ph), ct);
    }
    }
}
// right-handed orthonormal triad
struct Frame {
    Vector ex, ey, ez;
    Vector toLab(Vector v) { return ex * v.x + ey * v.y + ez * v.z; }
};
inline Frame gframe(Ctx &c) {
    Frame f;
    if (c.oneIn(4)) {
        f.ex = Vector(1, 0, 0);
        f.ey = Vector(0, 1, 0);
        f.ez = Vector(0, 0, 1);
        return f;
    }
    D3 n(gunit(c));
    double ph = c.real(0, 2 * cPi);
    D3 a = fabs(n.x) < 0.7 ? D3(1, 0, 0) : D3(0, 1, 0);
    D3 u = (a - n * n.dot(a)).unit();
    D3 w = n.cross(u);
    D3 ex = u * cos(ph) + w * sin(ph);
    D3 ey = n.cross(ex);
    f.ex = ex.vec();
    f.ey = ey.vec();
    f.ez = n.vec();
    return f;
}
// momentum beta*gamma between sub-relativistic and ultra-relativistic
inline Vector gmom(Ctx &c, double lo = 0.05, double hi = 200.0) {
    double p = c.logreal(lo, hi);
    return gunit(c) * p;
}

// ---- analytic test field: homogeneous + a few smooth standing modes, arbitrary in x and t
struct ModeField : public GeneralField {
    struct Mode {
        D3 E, B, k;
        double w, ph;
    };
    D3 E0, B0;
    std::vector<Mode> modes;
    long calls = 0;
    bool is_external() override { return true; }
    template <class T> void eval(T t, const V3T<T> &X, V3T<T> &E, V3T<T> &B) const {
        E = V3T<T>(E0.x, E0.y, E0.z);
        B = V3T<T>(B0.x, B0.y, B0.z);
        for (auto &m : modes) {
            T s = cosl((ld)(m.k.x * X.x + m.k.y * X.y + m.k.z * X.z - m.w * t + m.ph));
            E = E + V3T<T>(m.E.x, m.E.y, m.E.z) * s;
            B = B + V3T<T>(m.B.x, m.B.y, m.B.z) * s;
        }
    }
    ElMagField Field(double t, Vector X) override {
        calls++;
        L3 E, B;
        eval<ld>(t, L3(X), E, B);
        return ElMagField(E.vec(), B.vec());
    }
};
// fields scaled so that cyclotron/acceleration rates are around `rate` [1/s] for a particle of |q/m|=1 e/me
inline ModeField *gmodes(Ctx &c, double rate, double L, int nmax = 3) {
    ModeField *f = new ModeField;
    double Bs = rate * cMec2 / (cC * cC); // e B / m = rate
    double Es = Bs * cC;
    f->B0 = D3(gvec(c, Bs));
    f->E0 = c.coin() ? D3(gvec(c, Es)) : D3();
    int n = c.upto(nmax);
    for (int i = 0; i < n; i++) {
        ModeField::Mode m;
        m.B = D3(gvec(c, Bs));
        m.E = D3(gvec(c, Es));
        m.k = D3(gvec(c, 1.0 / L));
        m.w = c.sym(cC / L);
        m.ph = c.real(0, 6.28);
        f->modes.push_back(m);
    }
    c.note("field: B0=%s T E0=%s V/m modes=%d", sv(f->B0).c_str(), sv(f->E0).c_str(), n);
    return f;
}

// ---- reference implementation of the published algorithm (J.-L. Vay, Phys. Plasmas 15, 056701), long double
struct RefVay {
    ld t, dt, qm; // qm = e*charge/(me*mass) in SI
    L3 X, P, U;   // U: momentum half a step ahead
    ld g;
    L3 A;
    template <class F> void half2(F &f) {
        L3 E, B;
        f(t, X, E, B);
        second(E, B);
    }
    void second(L3 E, L3 B) {
        ld h = qm * dt / 2;
        L3 up = P + E * (h / (ld)cC);
        L3 tau = B * h;
        ld us = up.dot(tau);
        ld gp2 = 1 + up.abs2();
        ld sig = gp2 - tau.abs2();
        g = sqrtl((sig + sqrtl(sig * sig + 4 * (tau.abs2() + us * us))) / 2);
        L3 tt = tau / g;
        U = (up + tt * up.dot(tt) + up.cross(tt)) / (1 + tt.abs2());
        ld gh = sqrtl(1 + P.abs2());
        A = ((P / gh).cross(B) + E / (ld)cC) * qm;
    }
    template <class F> void init(ld t_, L3 X_, L3 P_, ld dt_, ld qm_, F f) {
        t = t_;
        X = X_;
        P = P_;
        dt = dt_;
        qm = qm_;
        half2(f);
    }
    template <class F> void step(F f) {
        L3 beta = U / g;
        t += dt;
        X = X + beta * ((ld)cC * dt);
        L3 E, B;
        f(t, X, E, B);
        P = U + (E / (ld)cC + beta.cross(B)) * (qm * dt / 2);
        second(E, B);
    }
};
inline double qm0() { return cC * cC / cMec2; } // e/m_e in C/kg
// collects what is printed on std::cout
struct Quiet {
    std::ostringstream s;
    std::streambuf *old;
    std::ios fl;
    Quiet() : fl(nullptr) {
        fl.copyfmt(std::cout);
        old = std::cout.rdbuf(s.rdbuf());
    }
    ~Quiet() {
        std::cout.rdbuf(old);
        std::cout.copyfmt(fl);
    }
};
// the value printed as "name = value", if there is one (6 digits); otherwise NaN
inline double printed(const std::string &text, const std::string &name) {
    size_t p = 0;
    while ((p = text.find(name, p)) != std::string::npos) {
        bool word = p == 0 || !isalnum((unsigned char)text[p - 1]);
        size_t q = text.find_first_not_of(" ", p + name.size());
        p += name.size();
        if (!word || q == std::string::npos || text[q] != '=') continue;
        char *e;
        double v = strtod(text.c_str() + q + 1, &e);
        if (e != text.c_str() + q + 1) return v;
    }
    return NAN;
}
#define PBT_PRINTED(c, text, name, val)                                                                                     \
    do {                                                                                                                    \
        double pv_ = printed(text, name), rv_ = (val);                                                                      \
        if (!std::isnan(pv_)) PBT_CHECK(c, fabs(pv_ - rv_) <= 2e-5 * fabs(rv_), "reported %s is %g instead of %g", name, pv_, rv_); \
    } while (0)
