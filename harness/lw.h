// independent Lienard-Wiechert reference and trajectory generators
#pragma once
#include "common.h"

struct TP { // trajectory point
    double t;
    L3 x, p, a;
};
struct EBr {
    L3 E, B;
};
// field at obs of a charge q[C] at x with momentum p (beta*gamma) and dp/dt = a
inline EBr LW(double qC, L3 x, L3 p, L3 a, L3 obs) {
    ld g = sqrtl(1 + p.abs2());
    L3 b = p / g;
    L3 bp = (a - b * b.dot(a)) / g;
    L3 R = obs - x;
    ld r = R.norm();
    L3 n = R / r;
    // 1-beta.n evaluated without cancellation: (1-b) + b(1-cos)
    ld bn = b.norm();
    ld omb = 1 / (g * g * (1 + bn));
    ld k;
    if (bn > 0) {
        L3 d = n - b / bn;
        k = omb + bn * d.abs2() / 2;
    } else
        k = 1;
    ld k3 = k * k * k;
    L3 E = (n - b) / (g * g * k3 * r * r) + n.cross((n - b).cross(bp)) / (k3 * r * (ld)cC);
    E = E * ((ld)qC / (4 * (ld)cPi * (ld)cEps0));
    EBr o;
    o.E = E;
    o.B = n.cross(E) / (ld)cC;
    return o;
}
inline ld arrival(const TP &k, L3 obs) { return (ld)k.t + (obs - k.x).norm() / (ld)cC; }

// the documented model: between two stored points position, momentum and acceleration are interpolated linearly
inline bool lwInterpolated(double qC, const std::vector<TP> &tr, ld tobs, L3 obs, EBr &out, EBr *lo = 0, EBr *hi = 0, double eps = 0) {
    int n = tr.size();
    if (arrival(tr[n - 1], obs) < tobs) return false;
    if (arrival(tr[0], obs) >= tobs) { // uniform motion before the start
        L3 b = tr[0].p / sqrtl(1 + tr[0].p.abs2());
        ld t0 = tobs - tr[0].t;
        L3 Rc = (obs - tr[0].x) / (ld)cC;
        // |Rc - b T| = t0 - T, T<=0
        ld bb = b.abs2(), bR = b.dot(Rc), h = t0 - bR;
        ld disc = h * h - (1 - bb) * (t0 * t0 - Rc.abs2());
        ld T = (h - sqrtl(disc)) / (1 - bb);
        out = LW(qC, tr[0].x + b * ((ld)cC * T), tr[0].p, L3(), obs);
        if (lo) *lo = *hi = out;
        return true;
    }
    int i = 0;
    while (i + 2 < n && arrival(tr[i + 1], obs) < tobs) i++;
    auto at = [&](ld f) {
        TP k;
        k.x = tr[i].x * (1 - f) + tr[i + 1].x * f;
        k.p = tr[i].p * (1 - f) + tr[i + 1].p * f;
        k.a = tr[i].a * (1 - f) + tr[i + 1].a * f;
        return k;
    };
    ld a = 0, b = 1;
    for (int k = 0; k < 80; k++) {
        ld m = (a + b) / 2;
        TP q = at(m);
        ld ts = (ld)tr[i].t * (1 - m) + (ld)tr[i + 1].t * m + (obs - q.x).norm() / (ld)cC;
        (ts < tobs ? a : b) = m;
    }
    ld f = (a + b) / 2;
    auto F = [&](ld ff) {
        TP q = at(ff);
        return LW(qC, q.x, q.p, q.a, obs);
    };
    out = F(f);
    if (lo) {
        *lo = F(f - eps);
        *hi = F(f + eps);
    }
    return true;
}

inline ChargedParticle *particleFrom(double q, double m, const std::vector<TP> &tr) {
    ChargedParticle *p = new ChargedParticle(q, m);
    for (size_t i = 0; i < tr.size(); i++) {
        Vector x = tr[i].x.vec(), mm = tr[i].p.vec(), a = tr[i].a.vec();
        if (i == 0)
            p->initTrajectory(tr[i].t, x, mm, a);
        else
            p->storeTrajectoryPoint(tr[i].t, x, mm, a);
    }
    return p;
}
// the points as actually stored (rounded to double)
inline void roundTraj(std::vector<TP> &tr) {
    for (auto &k : tr) {
        k.x = L3(k.x.vec());
        k.p = L3(k.p.vec());
        k.a = L3(k.a.vec());
    }
}

// physically consistent trajectories: tracked by the reference integrator through a random smooth field
inline std::vector<TP> gtrack(Ctx &c, int nmin, int nmax, double gmax, double amax = 0.3) {
    Vector p0 = gmom(c, 0.05, gmax), x0 = gvec(c, 0.5);
    double t0 = c.coin() ? c.sym(2e-9) : 0.0;
    int n = c.range(nmin, nmax);
    double gam = sqrt(1 + p0.abs2nd());
    double a = c.logreal(1e-3, amax);
    double dt = c.logreal(1e-13, 1e-11);
    double rate = a / dt * std::min(gam, 5.0);
    std::unique_ptr<ModeField> f(gmodes(c, rate, 5 * cC * dt, 2));
    RefVay r;
    auto F = [&](ld t, L3 X, L3 &E, L3 &B) { f->eval<ld>(t, X, E, B); };
    r.init(t0, L3(x0), L3(p0), dt, qm0(), F);
    std::vector<TP> tr;
    for (int i = 0; i < n; i++) {
        if (i) r.step(F);
        TP k;
        k.t = (double)r.t;
        k.x = r.X;
        k.p = r.P;
        k.a = r.A;
        tr.push_back(k);
    }
    roundTraj(tr);
    c.note("trajectory: t0=%g dt=%g points=%d x0=%s p0=%s", t0, dt, n, sv(x0).c_str(), sv(p0).c_str());
    return tr;
}
// every step must be a slower-than-light displacement so that arrival times increase
inline bool monotonic(const std::vector<TP> &tr, L3 obs) {
    for (size_t i = 1; i < tr.size(); i++) {
        if ((tr[i].x - tr[i - 1].x).norm() >= (ld)cC * (tr[i].t - tr[i - 1].t) * 0.9999999L) return false;
        if (arrival(tr[i], obs) <= arrival(tr[i - 1], obs)) return false;
    }
    return true;
}
inline double nrm(L3 v) { return (double)v.norm(); }
