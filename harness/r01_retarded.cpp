// R01: the field radiated by a particle is the retarded Lienard-Wiechert field of its recorded motion
#include "lw.h"

static const double QS = cE / (4 * cPi * cEps0);

static void cmp(Ctx &c, ElMagField f, EBr r, double tol, const char *what) {
    Vector E = f.E(), B = f.B();
    PBT_CHECK(c, finite3(E) && finite3(B), "%s: field is not finite: E=%s", what, sv(E).c_str());
    PBT_CHECK(c, (L3(E) - r.E).norm() <= tol, "%s: E=%s, retarded field is %s (deviation %.3Lg, allowed %.3g)", what, sv(E).c_str(), sv(r.E).c_str(), (L3(E) - r.E).norm(), tol);
    PBT_CHECK(c, (L3(B) - r.B).norm() * cC <= tol, "%s: B=%s, retarded field is %s", what, sv(B).c_str(), sv(r.B).c_str());
}
static double gq(Ctx &c) { return c.coin() ? -1.0 : c.symlog(1e-2, 1e9); }

// uniform motion: the boosted Coulomb field, at all times before the end of the record and before its start
PBT_TEST(uniform_motion, 3) {
    double q = gq(c);
    Vector p0 = gmom(c, 1e-2, 40), x0 = gvec(c, 0.5);
    double t0 = c.coin() ? c.sym(5e-9) : 0.0;
    double dt = c.logreal(1e-13, 1e-10);
    int n = 1 + c.big(0, 20, 5000);
    double g = sqrt(1 + p0.abs2nd());
    L3 b = L3(p0) / sqrtl(1 + L3(p0).abs2());
    std::vector<TP> tr;
    for (int i = 0; i < n; i++) {
        TP k;
        k.t = t0 + i * dt;
        k.x = L3(x0) + b * ((ld)cC * ((ld)k.t - t0));
        k.p = L3(p0);
        tr.push_back(k);
    }
    roundTraj(tr);
    std::unique_ptr<ChargedParticle> P(particleFrom(q, fabs(q), tr));
    double path = dt * n * cC;
    Vector obs = x0 + gunit(c) * (c.logreal(0.03, 5.0) + 30 * path);
    ld a0 = arrival(tr[0], L3(obs)), a1 = arrival(tr[n - 1], L3(obs));
    int mode = c.upto(3);
    double t;
    if (mode == 0)
        t = (double)a0 - c.logreal(1e-13, 1e-7);
    else if (mode == 1 && n > 1)
        t = c.real(a0, a1);
    else if (mode == 2)
        t = (double)a1 + c.logreal(1e-14, 1e-8) + 1e-15;
    else
        t = (double)a0 - c.logreal(1e-14, 1e-11);
    c.note("q=%g p=%s x0=%s t0=%g dt=%g points=%d obs=%s time-arrival(start)=%g", q, sv(p0).c_str(), sv(x0).c_str(), t0, dt, n, sv(obs).c_str(), (double)(t - a0));
    ElMagField f = P->RetardedField(t, obs);
    if (t > a1) {
        PBT_CHECK(c, f.E().isNull() && f.B().isNull(), "field after the last recorded signal has passed: E=%s", sv(f.E()).c_str());
        c.label("after_end");
    } else {
        // boosted Coulomb field of the present position
        L3 R = L3(obs) - (L3(x0) + b * ((ld)cC * ((ld)t - t0)));
        ld bn2 = b.abs2(), Rb = R.dot(b);
        ld den = R.abs2() * (1 - bn2) + Rb * Rb; // = R^2(1-b^2 sin^2)
        EBr r;
        r.E = R * ((ld)(q * QS) * (1 - bn2) / (den * sqrtl(den)));
        r.B = b.cross(r.E) / (ld)cC;
        // rounding of times/positions is amplified by up to gamma^2 relative to the reduced distance
        ld dmin = sqrtl(den);
        double big = std::max({fabs(t) * cC, nrm(L3(obs)), (double)fabsl(t - t0) * cC, nrm(R), fabs(t0) * cC, 1.0});
        double rel = 3e-14 * big * g * g * g / (double)dmin * 4 + 3e-13 * pow(g, 4);
        if (rel > 1e-3) throw pbt::Discard();
        cmp(c, f, r, nrm(r.E) * (1e-7 + rel), "uniform motion");
        c.label(t <= a0 ? "before_start" : "inside");
        c.nontrivial();
    }
}

// exactly at the signal of a stored point the formula holds without interpolation
PBT_TEST(at_stored_points, 3) {
    double q = gq(c);
    auto tr = gtrack(c, 3, 14, 30);
    double path = 0;
    for (size_t i = 1; i < tr.size(); i++) path += nrm(tr[i].x - tr[i - 1].x);
    Vector obs = tr[0].x.vec() + gunit(c) * (c.logreal(0.05, 10.0) + 30 * path);
    if (!monotonic(tr, L3(obs))) throw pbt::Discard();
    std::unique_ptr<ChargedParticle> P(particleFrom(q, fabs(q), tr));
    int i = 1 + c.upto(tr.size() - 3);
    double t = (double)arrival(tr[i], L3(obs));
    c.note("q=%g obs=%s at signal of point %d", q, sv(obs).c_str(), i);
    EBr lo, hi, r = LW(q * cE, tr[i].x, tr[i].p, tr[i].a, L3(obs));
    // neighbouring instants bound the effect of rounding the observation time
    double ulp = 4e-16 * (fabs(t) + nrm(L3(obs)) / cC + fabs(tr[i].t)) + 1e-17;
    ld w = std::min(arrival(tr[i + 1], L3(obs)) - arrival(tr[i], L3(obs)), arrival(tr[i], L3(obs)) - arrival(tr[i - 1], L3(obs)));
    double eps = ulp / (double)w + 1e-9;
    if (eps > 1e-2) throw pbt::Discard();
    EBr up = LW(q * cE, tr[i + 1].x, tr[i + 1].p, tr[i + 1].a, L3(obs)), dn = LW(q * cE, tr[i - 1].x, tr[i - 1].p, tr[i - 1].a, L3(obs));
    double var = nrm(up.E - r.E) + nrm(dn.E - r.E);
    // (1-beta.n) suffers cancellation ~ gamma^2 eps in double arithmetic
    double g2 = 1 + nrm(tr[i].p) * nrm(tr[i].p);
    cmp(c, P->RetardedField(t, obs), r, nrm(r.E) * (1e-8 + 1e-14 * g2 * g2) + var * (eps * 10 + 1e-6) , "at a stored point");
    c.nontrivial();
}

// between stored points: linear interpolation within the step
PBT_TEST(inside_steps, 4) {
    double q = gq(c);
    auto tr = gtrack(c, 2, 20, 30);
    double path = 0;
    for (size_t i = 1; i < tr.size(); i++) path += nrm(tr[i].x - tr[i - 1].x);
    Vector obs = tr[0].x.vec() + gunit(c) * (c.logreal(0.05, 10.0) + 30 * path);
    if (!monotonic(tr, L3(obs))) throw pbt::Discard();
    std::unique_ptr<ChargedParticle> P(particleFrom(q, fabs(q), tr));
    ld a0 = arrival(tr[0], L3(obs)), a1 = arrival(tr.back(), L3(obs));
    double u = c.real(0.001, 0.999);
    double t = (double)(a0 + (a1 - a0) * u);
    c.note("q=%g obs=%s at fraction %g of the observed pulse", q, sv(obs).c_str(), u);
    EBr r, lo, hi;
    size_t i = 0;
    while (i + 2 < tr.size() && arrival(tr[i + 1], L3(obs)) < t) i++;
    double w = (double)(arrival(tr[i + 1], L3(obs)) - arrival(tr[i], L3(obs)));
    double ulp = 4e-16 * (fabs(t) + nrm(L3(obs)) / cC + fabs(tr[i].t)) + 1e-17;
    double eps = 2e-5 + 4 * ulp / w;
    if (eps > 1e-2) throw pbt::Discard();
    lwInterpolated(q * cE, tr, t, L3(obs), r, &lo, &hi, eps);
    double g2 = 1 + nrm(tr[i].p) * nrm(tr[i].p);
    double tol = (nrm(lo.E - r.E) + nrm(hi.E - r.E)) + nrm(r.E) * (1e-8 + 1e-14 * g2 * g2);
    cmp(c, P->RetardedField(t, obs), r, tol, "inside a step");
    if (tr.size() > 2) c.nontrivial();
}

// known exact motion (hyperbolic, along the acceleration): catches anything the interpolation model hides
PBT_TEST(hyperbolic_motion, 2) {
    double q = gq(c);
    L3 dir(gunit(c));
    dir = dir.unit();
    double p0 = c.sym(3), al = c.symlog(1e9, 1e11); // dp/dt
    double dt = c.logreal(1e-4, 3e-3) / fabs(al);
    int n = 50 + c.upto(100);
    Vector x0 = gvec(c, 0.3);
    std::vector<TP> tr;
    ld g0 = sqrtl(1 + (ld)p0 * p0);
    auto at = [&](ld t) {
        TP k;
        k.t = (double)t;
        ld p = p0 + al * t;
        k.x = L3(x0) + dir * ((sqrtl(1 + p * p) - g0) * (ld)cC / al);
        k.p = dir * p;
        k.a = dir * (ld)al;
        return k;
    };
    for (int i = 0; i < n; i++) tr.push_back(at((ld)(double)(i * dt)));
    double path = cC * dt * n;
    std::vector<TP> ex = tr;
    roundTraj(tr);
    Vector obs = x0 + gunit(c) * (c.logreal(0.2, 3.0) + 3 * path);
    std::unique_ptr<ChargedParticle> P(particleFrom(q, fabs(q), tr));
    int i = 1 + c.upto(n - 3);
    ld fr = c.real(0, 1);
    ld ts = ((ld)i + fr) * dt;
    TP k = at(ts);
    double t = (double)(ts + (L3(obs) - k.x).norm() / (ld)cC);
    EBr r = LW(q * cE, k.x, k.p, k.a, L3(obs));
    c.note("q=%g p0=%g dp/dt=%g dt=%g dir=%s obs=%s emitted at %Lg", q, p0, al, dt, sv(dir).c_str(), sv(obs).c_str(), ts);
    double h = fabs(al) * dt;
    double g = (double)sqrtl(1 + k.p.abs2());
    double sc = nrm(r.E) + fabs(q) * QS / (double)(L3(obs) - k.x).abs2() + fabs(q) * QS * fabs(al) / cC / (double)(L3(obs) - k.x).norm();
    cmp(c, P->RetardedField(t, obs), r, sc * (h * h * pow(g, 4) * 50 + 1e-4 * h * g * g * 10 + 1e-7 + 1e-13 * 1e4 / dt * 1e-9 * h), "accelerated along its path");
    c.nontrivial();
}

// circular motion against exact Lienard-Wiechert fields, far and near
PBT_TEST(circular_motion, 2) {
    double q = gq(c);
    double p = c.logreal(0.1, 10), g = sqrt(1 + p * p), beta = p / g;
    double rho = c.logreal(1e-2, 10);
    double om = beta * cC / rho * (c.coin() ? 1 : -1);
    Frame F = gframe(c);
    int nper = 400 + c.upto(800);
    double dt = 2 * cPi / fabs(om) / nper / g;
    int n = 20 + c.upto(60);
    double ph0 = c.real(0, 6.28);
    auto at = [&](ld t) {
        TP k;
        k.t = (double)t;
        ld ph = ph0 + om * t;
        L3 ex(F.ex), ey(F.ey);
        k.x = (ex * cosl(ph) + ey * sinl(ph)) * rho;
        k.p = (ey * cosl(ph) - ex * sinl(ph)) * (p * (om > 0 ? 1 : -1));
        k.a = (ex * cosl(ph) + ey * sinl(ph)) * (-p * fabs(om));
        return k;
    };
    std::vector<TP> tr;
    for (int i = 0; i < n; i++) tr.push_back(at((ld)(double)(i * dt)));
    roundTraj(tr);
    Vector obs = tr[0].x.vec() + gunit(c) * (rho * c.logreal(0.5, 50));
    std::unique_ptr<ChargedParticle> P(particleFrom(q, fabs(q), tr));
    int i = 1 + c.upto(n - 3);
    ld ts = ((ld)i + c.real(0, 1)) * dt;
    TP k = at(ts);
    double R = nrm(L3(obs) - k.x);
    double t = (double)(ts + (ld)R / (ld)cC);
    EBr r = LW(q * cE, k.x, k.p, k.a, L3(obs));
    // scale: field change over one step sets the interpolation error (quadratic in the step)
    EBr a = LW(q * cE, at(ts - dt).x, at(ts - dt).p, at(ts - dt).a, L3(obs)), b = LW(q * cE, at(ts + dt).x, at(ts + dt).p, at(ts + dt).a, L3(obs));
    double second = nrm(a.E + b.E - r.E * 2);
    double first = nrm(a.E - b.E);
    double h = 2 * cPi / nper / g;
    if (first > 0.3 * nrm(r.E)) throw pbt::Discard();
    c.note("q=%g beta*gamma=%g radius=%g steps/turn=%d obs=%s R=%g", q, p, rho, nper, sv(obs).c_str(), R);
    double sc = fabs(q) * QS * (1 / (R * R) + fabs(om) * g / cC / R);
    double tol = 5 * second + first * (h * g * g + 1e-3) * 3 + nrm(r.E) * (h * h * g * g * 10 + 1e-5) + sc * (h * h + 1e-8) ;
    cmp(c, P->RetardedField(t, obs), r, tol, "circular motion");
    c.nontrivial();
}

// proportional to charge; shifting source and observer in space-time shifts the field; rotation covariance
PBT_TEST(symmetries, 2) {
    double q = gq(c), k = c.symlog(0.1, 100);
    auto tr = gtrack(c, 2, 8, 10);
    double path = 0;
    for (size_t i = 1; i < tr.size(); i++) path += nrm(tr[i].x - tr[i - 1].x);
    Vector obs = tr[0].x.vec() + gunit(c) * (c.logreal(0.05, 3.0) + 30 * path);
    if (!monotonic(tr, L3(obs))) throw pbt::Discard();
    ld a0 = arrival(tr[0], L3(obs)), a1 = arrival(tr.back(), L3(obs));
    double u = c.real(-1.0, 1.1);
    if (fabs(u) < 1e-3 || fabs(u - 1) < 1e-3) u = 0.5;
    double t = (double)(a0 + (a1 - a0) * u);
    Frame F = gframe(c);
    Vector d = gvec(c, 2);
    double td = c.sym(3e-9);
    c.note("q=%g factor=%g obs=%s fraction=%g shift=%s/%g", q, k, sv(obs).c_str(), u, sv(d).c_str(), td);
    std::unique_ptr<ChargedParticle> A(particleFrom(q, fabs(q), tr)), K(particleFrom(q * k, fabs(q), tr));
    auto rt = tr;
    for (auto &e : rt) {
        e.t += td;
        e.x = L3(F.toLab(e.x.vec()) + d);
        e.p = L3(F.toLab(e.p.vec()));
        e.a = L3(F.toLab(e.a.vec()));
    }
    std::unique_ptr<ChargedParticle> S(particleFrom(q, fabs(q), rt));
    ElMagField fa = A->RetardedField(t, obs), fk = K->RetardedField(t, obs), fs = S->RetardedField(t + td, F.toLab(obs) + d);
    double es = fa.E().norm();
    PBT_CHECK(c, nearv(fk.E(), fa.E() * k, 1e-9 * es * fabs(k)) && nearv(fk.B(), fa.B() * k, 1e-9 * es / cC * fabs(k)), "field is not proportional to the charge");
    double w = (double)((a1 - a0) / (ld)tr.size());
    double tol = es * (2e-4 + 1e-14 * 1e-8 / w * 1e3);
    if (u < 1) {
        PBT_CHECK(c, es > 0, "no field at %g of the pulse", u);
        PBT_CHECK(c, nearv(fs.E(), F.toLab(fa.E()), tol), "moved/rotated set-up gives a different field: %s vs %s", sv(fs.E()).c_str(), sv(F.toLab(fa.E())).c_str());
        PBT_CHECK(c, nearv(fs.B(), F.toLab(fa.B()), tol / cC), "moved/rotated set-up gives a different magnetic field");
    } else
        PBT_CHECK(c, es == 0 && fs.E().isNull(), "field after the end of the recorded motion");
    c.nontrivial();
}

// a particle without any start point cannot radiate: refused
PBT_TEST(refuses_empty, 1) {
    ChargedParticle P(gq(c), 1);
    if (c.coin()) {
        P.initTrajectory(0, gvec(c, 1), gvec(c, 1), VectorZero);
        P.clearTrajectory();
    }
    bool thrown = false;
    try {
        P.RetardedField(c.sym(1e-9), gvec(c, 1));
    } catch (std::exception &) {
        thrown = true;
    }
    PBT_CHECK(c, thrown, "field of a particle without trajectory was computed");
    c.note("empty particle");
}

PBT_MAIN("a case counts when a non-zero field value at a retarded time is compared with the reference")
