// T01: particle tracking follows the equation of motion (second order, exact invariants, time-reversible)
#include "common.h"

static const double RATE = 1e11; // 1/s typical cyclotron rate used by the generators

static void describe(Ctx &c, double q, double m, Vector x, Vector p, double t0, double dt, int n) {
    c.note("q=%g m=%g x0=%s p0=%s t0=%g dt=%g steps=%d", q, m, sv(x).c_str(), sv(p).c_str(), t0, dt, n);
}

// charge/mass of a (macro-)particle
static void gqm(Ctx &c, double &q, double &m) {
    switch (c.upto(4)) {
    case 0: q = -1; m = 1; break;
    case 1: q = 1; m = 1; break;
    case 2: q = 1; m = 1836.15; break;
    default: {
        double k = c.logreal(1e-3, 1e9);
        q = c.coin() ? -k : k;
        m = k * c.logreal(0.3, 3.0);
    }
    }
}

PBT_TEST(magnetic_only, 3) {
    double q, m;
    gqm(c, q, m);
    Vector p0 = gmom(c), x0 = gvec(c, 10.0);
    double t0 = c.sym(1e-9);
    double gam = sqrt(1 + p0.abs2nd());
    D3 B(gunit(c) * c.logreal(1e-4, 10.0));
    double om = fabs(q / m) * qm0() * B.norm() / gam;
    double th = c.logreal(1e-3, 1.5); // rotation angle per step
    double dt = th / om;
    if (c.coin()) dt = -dt;
    int n = 2 + c.big(0, 200, 20000);
    describe(c, q, m, x0, p0, t0, dt, n);
    c.note("B=%s angle/step=%g", sv(B).c_str(), th);
    HomogeneousField f(VectorZero, B.vec());
    ChargedParticle P(q, m);
    P.initTrajectory(t0, x0, p0, VectorZero);
    P.InitVay(dt, &f);
    for (int i = 0; i < n; i++) P.StepVay(&f);
    PBT_CHECK(c, P.getNP() == n + 1, "trajectory has %d points after %d steps", P.getNP(), n);
    double pp = p0.norm();
    double xs = 10.0 + fabs(dt) * cC * n;
    // step length = speed, constant to rounding
    double len0 = (P.TrajPoint(1) - P.TrajPoint(0)).norm();
    double ptot2 = 0; // the true (conserved) momentum is recovered from the step length
    for (int i = 0; i < n; i++) {
        double len = (P.TrajPoint(i + 1) - P.TrajPoint(i)).norm();
        PBT_CHECK(c, near(len, len0, 1e-11 * len0 + 1e-14 * xs), "speed drifts in a pure magnetic field: step %d length %.15g vs %.15g", i, len, len0);
    }
    double pmin = 1e300, pmax = 0;
    for (int i = 0; i <= n; i++) {
        double pi = P.TrajMomentum(i).norm();
        pmin = std::min(pmin, pi);
        pmax = std::max(pmax, pi);
    }
    // stored half-step momentum exceeds the conserved one by at most (angle/2)^2/2
    double bound = pp * (th * th / 8 * 1.3 + th * th * th * th / 32) + 1e-11 * pp;
    PBT_CHECK(c, pmax - pp <= bound && pp - pmin <= bound, "|p| not conserved: %.12g .. %.12g started %.12g (angle per step %g)", pmin, pmax, pp, th);
    // momentum along B never changes
    D3 b = B.unit();
    double pl0 = D3(p0).dot(b);
    for (int i = 0; i <= n; i++) {
        double pl = D3(P.TrajMomentum(i)).dot(b);
        PBT_CHECK(c, near(pl, pl0, 1e-10 * pp), "momentum along B changed at step %d: %.12g -> %.12g", i, pl0, pl);
    }
    // analytic helix, second order in the step
    L3 bb(B.x, B.y, B.z);
    bb = bb.unit();
    L3 pv(p0);
    L3 par = bb * bb.dot(pv), per = pv - par;
    L3 cr = per.cross(bb);
    ld w = (ld)(q / m) * qm0() * B.norm() / gam;
    int i = n;
    ld ph = w * (ld)dt * i;
    L3 pe = par + per * cosl(ph) + cr * sinl(ph);
    double prel = (double)(L3(P.TrajMomentum(i)) - pe).norm() / pp;
    double tol = 1.5 * (th * th * th / 12 * n + th * th / 8 * 2 * (1 + th * n)) + 1e-9 * (1 + th * n);
    if (th < 0.5)
        PBT_CHECK(c, prel <= tol, "momentum after %d steps off the exact helix by %.3g (tolerance %.3g): %s vs %s", i, prel, tol,
                  sv(P.TrajMomentum(i)).c_str(), sv(pe).c_str());
    c.label(th < 0.1 ? "fine" : "coarse");
    if ((double)per.norm() > 1e-3 * pp && n > 3) c.nontrivial();
}

PBT_TEST(electric_only, 2) {
    double q, m;
    gqm(c, q, m);
    Vector p0 = gmom(c, 0.01, 100), x0 = gvec(c, 10.0);
    double t0 = c.sym(1e-9);
    Vector E = gunit(c) * c.logreal(1e3, 1e10);
    double dt = c.logreal(1e-4, 0.3) * (1 + p0.norm()) / (fabs(q / m) * qm0() * E.norm() / cC);
    int n = 1 + c.upto(100);
    describe(c, q, m, x0, p0, t0, dt, n);
    c.note("E=%s", sv(E).c_str());
    HomogeneousField f(E, VectorZero);
    ChargedParticle P(q, m);
    P.initTrajectory(t0, x0, p0, VectorZero);
    P.InitVay(dt, &f);
    for (int i = 0; i < n; i++) P.StepVay(&f);
    L3 a = L3(E) * ((ld)(q / m) * qm0() / cC); // dp/dt
    double ps = p0.norm() + (double)a.norm() * dt * n;
    L3 X(x0);
    for (int i = 0; i <= n; i++) {
        L3 pe = L3(p0) + a * ((ld)dt * i);
        PBT_CHECK(c, nearv(P.TrajMomentum(i), pe, 1e-8 * ps), "momentum gain in a static electric field wrong at step %d: %s expected %s", i,
                  sv(P.TrajMomentum(i)).c_str(), sv(pe).c_str());
        PBT_CHECK(c, near(P.TrajTime(i), t0 + i * dt, 1e-12 * (fabs(t0) + n * dt)), "time of step %d is %g", i, P.TrajTime(i));
    }
    // exact hyperbolic motion: X(t) = X0 + c int beta dt, by Gauss quadrature on each step
    double T = dt * n;
    L3 ex(x0);
    int N = 400;
    ld hh = (ld)T / N;
    for (int k = 0; k < N; k++) {
        for (int s = -1; s <= 1; s++) {
            static const ld gx = sqrtl(0.6L);
            ld wgt = s ? 5.0L / 18 : 8.0L / 18;
            ld tt = (k + 0.5L + s * gx / 2) * hh;
            L3 p = L3(p0) + a * tt;
            ex = ex + p / sqrtl(1 + p.abs2()) * (wgt * hh * (ld)cC);
        }
    }
    double da = (double)a.norm() * dt;
    // midpoint-rule error bound: T/24 h^2 max|beta''| ; |beta''| <= 3 a^2 ; plus the O(h^2) of the first step
    double tol = cC * (T / 24 * 3 * da * da * 2 + dt * da * da) * 1.0 + 1e-8 * (10 + cC * T);
    PBT_CHECK(c, (L3(P.TrajPoint(n)) - ex).norm() <= tol, "position in static electric field off by %.3Lg (tolerance %.3g)", (L3(P.TrajPoint(n)) - ex).norm(), tol);
    c.nontrivial();
}

// E = -v x B : the particle must keep going straight however large the step is
PBT_TEST(balanced_fields, 2) {
    double q, m;
    gqm(c, q, m);
    Vector p0 = gmom(c), x0 = gvec(c, 1.0);
    double gam = sqrt(1 + p0.abs2nd());
    Vector B = gunit(c) * c.logreal(1e-4, 10.0);
    D3 v = D3(p0) * (cC / gam);
    D3 E = v.cross(D3(B)) * -1.0;
    double om = fabs(q / m) * qm0() * B.norm() / gam;
    double dt = c.logreal(1e-3, 20.0) / om;
    int n = 1 + c.upto(100);
    describe(c, q, m, x0, p0, 0, dt, n);
    c.note("B=%s", sv(B).c_str());
    HomogeneousField f(E.vec(), B);
    ChargedParticle P(q, m);
    P.initTrajectory(0, x0, p0, VectorZero);
    P.InitVay(dt, &f);
    for (int i = 0; i < n; i++) P.StepVay(&f);
    double pp = p0.norm(), th = om * dt;
    for (int i = 0; i <= n; i++) {
        PBT_CHECK(c, nearv(P.TrajMomentum(i), p0, 1e-9 * gam * gam * gam * (1 + th) * (1 + i) * std::max(1e-3, 1 / gam) + 1e-9 * pp),
                  "balanced E+vxB=0 deflects the particle at step %d: %s from %s", i, sv(P.TrajMomentum(i)).c_str(), sv(p0).c_str());
        D3 xe = D3(x0) + v * (dt * i);
        PBT_CHECK(c, nearv(P.TrajPoint(i), xe, 1e-9 * (1 + cC * dt * (i + 1)) * (1 + th) * (1 + i) * std::max(1.0, gam)), "balanced fields: position leaves straight line at step %d", i);
    }
    if (n > 1) c.nontrivial();
}

PBT_TEST(free_drift, 1) {
    double q, m;
    gqm(c, q, m);
    Vector p0 = gmom(c, 1e-3, 1e4), x0 = gvec(c, 100.0);
    double dt = c.symlog(1e-15, 1e-9), t0 = c.sym(1e-7);
    int n = 1 + c.big(0, 300, 20000);
    describe(c, q, m, x0, p0, t0, dt, n);
    Lattice empty;
    ChargedParticle P(q, m);
    P.initTrajectory(t0, x0, p0, gvec(c, 1e10));
    P.InitVay(dt, &empty);
    for (int i = 0; i < n; i++) P.StepVay(&empty);
    D3 v = D3(p0) * (cC / sqrt(1 + p0.abs2nd()));
    for (int i = 0; i <= n; i++) {
        PBT_CHECK(c, nearv(P.TrajMomentum(i), p0, 1e-12 * p0.norm()), "momentum changes in free space");
        PBT_CHECK(c, nearv(P.TrajPoint(i), D3(x0) + v * (dt * i), 1e-11 * (100 + cC * fabs(dt) * n)), "free drift is not straight/uniform at step %d", i);
        PBT_CHECK(c, near(P.TrajTime(i), t0 + dt * i, (1e-12 + 3e-16 * n) * (fabs(t0) + fabs(dt) * n)), "time");
        PBT_CHECK(c, P.TrajAccel(i).norm() == 0, "acceleration in free space at point %d", i);
    }
    if (n > 1) c.nontrivial();
}

struct Start {
    double q, m, t0, dt;
    Vector x0, p0;
    int n;
    std::unique_ptr<ModeField> f;
    double qm() const { return q / m * 1.758820025e11; }
};
static Start gstart(Ctx &c, double amax, int nmax) {
    Start s;
    gqm(c, s.q, s.m);
    s.p0 = gmom(c, 0.05, 60);
    s.x0 = gvec(c, 2.0);
    s.t0 = c.sym(1e-9);
    s.n = 1 + c.upto(nmax);
    double a = c.logreal(1e-3, amax); // dt * rate / gamma
    double gam = sqrt(1 + s.p0.abs2nd());
    double rate = RATE * fabs(s.q / s.m);
    s.dt = a / rate * std::min(gam, 5.0);
    s.f.reset(gmodes(c, RATE, std::max(1e-3, 5 * cC * s.dt)));
    describe(c, s.q, s.m, s.x0, s.p0, s.t0, s.dt, s.n);
    return s;
}

// step by step agreement with an independent implementation of the published algorithm
PBT_TEST(vay_reference, 4) {
    Start s = gstart(c, 1.0, 60);
    ChargedParticle P(s.q, s.m);
    P.initTrajectory(s.t0, s.x0, s.p0, gvec(c, 1e9));
    P.InitVay(s.dt, s.f.get());
    RefVay r;
    auto F = [&](ld t, L3 X, L3 &E, L3 &B) { s.f->eval<ld>(t, X, E, B); };
    r.init(s.t0, L3(s.x0), L3(s.p0), s.dt, s.qm(), F);
    double ps = s.p0.norm() + 1, as = 0;
    double growth = 1;
    for (int i = 0; i <= s.n; i++) {
        if (i) {
            P.StepVay(s.f.get());
            r.step(F);
        }
        ps = std::max(ps, (double)r.P.norm());
        as = std::max(as, (double)r.A.norm());
        growth *= 1.05 + std::min(1.0, as * s.dt);
        double tol = std::min(1e-9 * (i + 1) * std::min(growth, 1e4), 1e-5) + 1e-9;
        if (growth > 1e4 && i > 8) break; // deterministic chaos amplifies rounding: stop comparing
        PBT_CHECK(c, P.getNP() == i + 1, "number of points");
        PBT_CHECK(c, near(P.TrajTime(i), (double)r.t, 1e-11 * (1e-9 + fabs(s.dt) * s.n)), "time stamp of point %d: %.15g expected %.15Lg", i, P.TrajTime(i), r.t);
        PBT_CHECK(c, nearv(P.TrajPoint(i), r.X, tol * (1 + cC * s.dt * (i + 1))), "position %d: %s expected %s", i, sv(P.TrajPoint(i)).c_str(), sv(r.X).c_str());
        PBT_CHECK(c, nearv(P.TrajMomentum(i), r.P, tol * ps), "momentum %d: %s expected %s", i, sv(P.TrajMomentum(i)).c_str(), sv(r.P).c_str());
        PBT_CHECK(c, nearv(P.TrajAccel(i), r.A, tol * as * 10), "acceleration %d: %s expected %s", i, sv(P.TrajAccel(i)).c_str(), sv(r.A).c_str());
        // the "current" state is the last point
        PBT_CHECK(c, P.getTime() == P.TrajTime(i) && samev(P.getPosition(), P.TrajPoint(i)) && samev(P.getMomentum(), P.TrajMomentum(i)) && samev(P.getAccel(), P.TrajAccel(i)),
                  "current particle state differs from last trajectory point %d", i);
    }
    if (s.n > 2) c.nontrivial();
    c.label(s.f->modes.size() ? "varying" : "static");
}

// the stored acceleration is the Lorentz force at the stored point
PBT_TEST(acceleration_is_lorentz_force, 2) {
    Start s = gstart(c, 1.0, 30);
    ChargedParticle P(s.q, s.m);
    P.initTrajectory(s.t0, s.x0, s.p0, gvec(c, 1e9));
    P.InitVay(s.dt, s.f.get());
    for (int i = 0; i < s.n; i++) P.StepVay(s.f.get());
    for (int i = 0; i <= s.n; i++) {
        L3 E, B, p(P.TrajMomentum(i));
        s.f->eval<ld>(P.TrajTime(i), L3(P.TrajPoint(i)), E, B);
        L3 beta = p / sqrtl(1 + p.abs2());
        L3 a = (beta.cross(B) + E / (ld)cC) * (ld)s.qm();
        double sc = fabs(s.qm()) * (double)(B.norm() + E.norm() / cC);
        PBT_CHECK(c, nearv(P.TrajAccel(i), a, 1e-8 * sc), "acceleration at point %d is %s, Lorentz force gives %s", i, sv(P.TrajAccel(i)).c_str(), sv(a).c_str());
    }
    // the probe record carries the field at the last point
    double buf[16];
    P.bufferProbe(buf);
    L3 E, B;
    s.f->eval<ld>(P.getTime(), L3(P.getPosition()), E, B);
    double es = (double)E.norm() + 1, bs = (double)B.norm() + 1e-9;
    PBT_CHECK(c, nearv(Vector(buf[10], buf[11], buf[12]), E, 1e-9 * es) && nearv(Vector(buf[13], buf[14], buf[15]), B, 1e-9 * bs), "field seen by the particle (probe record) differs from the field at its position");
    c.nontrivial();
}

// tracking back with the negative step retraces the trajectory
PBT_TEST(time_reversal, 3) {
    Start s = gstart(c, 0.6, 40);
    ChargedParticle P(s.q, s.m);
    P.initTrajectory(s.t0, s.x0, s.p0, VectorZero);
    P.InitVay(s.dt, s.f.get());
    double as = 0;
    for (int i = 0; i < s.n; i++) {
        P.StepVay(s.f.get());
        as = std::max(as, P.getAccel().norm());
    }
    int N = P.getNP();
    P.InitVay(-s.dt, s.f.get());
    for (int i = 0; i < s.n; i++) P.StepVay(s.f.get());
    PBT_CHECK(c, P.getNP() == N + s.n, "points");
    double ps = 1;
    for (int i = 0; i < N; i++) ps = std::max(ps, P.TrajMomentum(i).norm());
    double growth = 1;
    for (int k = 1; k <= s.n; k++) {
        growth *= 1.05 + std::min(1.0, as * s.dt);
        if (growth > 1e4) break;
        int f = N - 1 - k, b = N - 1 + k;
        double tol = 1e-10 * k * growth + 1e-10;
        PBT_CHECK(c, nearv(P.TrajPoint(b), P.TrajPoint(f), tol * (1 + cC * s.dt * s.n)), "reversed tracking leaves the trajectory %d steps back: %s vs %s", k, sv(P.TrajPoint(b)).c_str(), sv(P.TrajPoint(f)).c_str());
        PBT_CHECK(c, nearv(P.TrajMomentum(b), P.TrajMomentum(f), tol * ps * 10), "reversed momentum differs %d steps back: %s vs %s", k, sv(P.TrajMomentum(b)).c_str(), sv(P.TrajMomentum(f)).c_str());
        PBT_CHECK(c, near(P.TrajTime(b), P.TrajTime(f), 1e-11 * (fabs(s.t0) + s.dt * s.n)), "reversed time");
    }
    if (s.n > 2) c.nontrivial();
}

// against the continuous equation of motion (own RK4 with many sub-steps): error is second order in the step
PBT_TEST(equation_of_motion, 2) {
    Start s = gstart(c, 0.08, 12);
    s.n += 3;
    L3 X(s.x0), p(s.p0);
    ld t = s.t0;
    ld qm = s.qm();
    auto rhs = [&](ld t, L3 X, L3 p, L3 &dX, L3 &dp) {
        L3 E, B;
        s.f->eval<ld>(t, X, E, B);
        L3 b = p / sqrtl(1 + p.abs2());
        dX = b * (ld)cC;
        dp = (b.cross(B) + E / (ld)cC) * qm;
    };
    int sub = 8;
    ld h = (ld)s.dt / sub;
    for (int i = 0; i < s.n * sub; i++) {
        L3 a1, b1, a2, b2, a3, b3, a4, b4;
        rhs(t, X, p, a1, b1);
        rhs(t + h / 2, X + a1 * (h / 2), p + b1 * (h / 2), a2, b2);
        rhs(t + h / 2, X + a2 * (h / 2), p + b2 * (h / 2), a3, b3);
        rhs(t + h, X + a3 * h, p + b3 * h, a4, b4);
        X = X + (a1 + a2 * 2 + a3 * 2 + a4) * (h / 6);
        p = p + (b1 + b2 * 2 + b3 * 2 + b4) * (h / 6);
        t += h;
    }
    double e[3];
    for (int k = 0; k < 3; k++) {
        int mul = 1 << k;
        ChargedParticle P(s.q, s.m);
        P.initTrajectory(s.t0, s.x0, s.p0, VectorZero);
        P.InitVay(s.dt / mul, s.f.get());
        for (int i = 0; i < s.n * mul; i++) P.StepVay(s.f.get());
        PBT_CHECK(c, near(P.getTime(), (double)t, 1e-9 * s.dt * s.n + 1e-12 * fabs(s.t0)), "end time");
        e[k] = (double)((L3(P.getPosition()) - X).norm() / (cC * s.dt) + (L3(P.getMomentum()) - p).norm());
    }
    double flo = 1e-7 * (1 + s.p0.norm()) * s.n;
    c.note("errors at dt,dt/2,dt/4: %.3g %.3g %.3g", e[0], e[1], e[2]);
    PBT_CHECK(c, e[1] <= 0.32 * e[0] + flo && e[2] <= 0.12 * e[0] + flo, "halving the step does not reduce the error fourfold: %.4g %.4g %.4g", e[0], e[1], e[2]);
    if (e[0] > 10 * flo) c.nontrivial();
}

// re-initialising with a different step continues from the last point
PBT_TEST(change_of_step, 1) {
    Start s = gstart(c, 0.3, 20);
    ChargedParticle P(s.q, s.m);
    P.initTrajectory(s.t0, s.x0, s.p0, VectorZero);
    P.InitVay(s.dt, s.f.get());
    for (int i = 0; i < s.n; i++) P.StepVay(s.f.get());
    int N = P.getNP();
    Vector xe = P.TrajPoint(N - 1), pe = P.TrajMomentum(N - 1);
    double te = P.TrajTime(N - 1);
    double dt2 = s.dt * c.logreal(0.1, 3.0);
    P.InitVay(dt2, s.f.get());
    PBT_CHECK(c, P.getNP() == N && samev(P.TrajPoint(N - 1), xe) && samev(P.TrajMomentum(N - 1), pe) && P.TrajTime(N - 1) == te, "re-initialising moved the last point");
    ChargedParticle Q(s.q, s.m);
    Q.initTrajectory(te, xe, pe, VectorZero);
    Q.InitVay(dt2, s.f.get());
    for (int i = 1; i <= 5; i++) {
        P.StepVay(s.f.get());
        Q.StepVay(s.f.get());
        PBT_CHECK(c, samev(P.getPosition(), Q.getPosition()) && samev(P.getMomentum(), Q.getMomentum()) && P.getTime() == Q.getTime(), "continuing with a new step differs from a fresh start at the same point");
    }
    PBT_CHECK(c, P.getNP() == N + 5, "points");
    // no starting point: refused
    ChargedParticle R(s.q, s.m);
    bool thrown = false;
    try {
        R.InitVay(s.dt, s.f.get());
    } catch (std::exception &) {
        thrown = true;
    }
    PBT_CHECK(c, thrown, "tracking without a start point was accepted");
    c.nontrivial();
}

PBT_MAIN("a case counts when the particle is actually deflected/accelerated or tracked over several steps (not a zero-length run)")
