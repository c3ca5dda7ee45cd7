// R02: binned field traces conserve the time integral of the particle's field
#include "lw.h"

struct Geo {
    std::vector<TP> tr;
    Vector obs;
    std::vector<ld> ts;
    std::vector<EBr> f;
    double q;
};
static Geo ggeo(Ctx &c) {
    Geo g;
    g.q = c.coin() ? -1 : c.symlog(1e-2, 1e9);
    g.tr = gtrack(c, 2, 14, 20);
    double path = 0;
    for (size_t i = 1; i < g.tr.size(); i++) path += nrm(g.tr[i].x - g.tr[i - 1].x);
    g.obs = g.tr[0].x.vec() + gunit(c) * (c.logreal(0.05, 10.0) + 3 * path);
    if (!monotonic(g.tr, L3(g.obs))) throw pbt::Discard();
    for (auto &k : g.tr) {
        g.ts.push_back(arrival(k, L3(g.obs)));
        g.f.push_back(LW(g.q * cE, k.x, k.p, k.a, L3(g.obs)));
    }
    c.note("q=%g obs=%s pulse %Lg..%Lg", g.q, sv(g.obs).c_str(), g.ts[0], g.ts.back());
    return g;
}
// integral of the piecewise linear (in arrival time) field over [a,b]
static EBr integral(const Geo &g, ld a, ld b) {
    EBr s;
    for (size_t i = 0; i + 1 < g.ts.size(); i++) {
        ld t1 = std::max(a, g.ts[i]), t2 = std::min(b, g.ts[i + 1]);
        if (t2 <= t1) continue;
        ld m = (t1 + t2) / 2, w = (m - g.ts[i]) / (g.ts[i + 1] - g.ts[i]);
        s.E = s.E + (g.f[i].E * (1 - w) + g.f[i + 1].E * w) * (t2 - t1);
        s.B = s.B + (g.f[i].B * (1 - w) + g.f[i + 1].B * w) * (t2 - t1);
    }
    return s;
}
struct Win {
    double t0, dt;
    int N;
};
static Win gwin(Ctx &c, const Geo &g) {
    Win w;
    double len = (double)(g.ts.back() - g.ts[0]);
    w.N = 2 + c.big(0, 60, 20000, 400);
    w.dt = len * c.logreal(1e-3, 3.0);
    switch (c.upto(4)) {
    case 0: w.t0 = (double)g.ts[0] - 2 * w.dt; break;                                     // pulse starts inside
    case 1: w.t0 = (double)g.ts[0] + len * c.real(0, 1); break;                           // starts within the pulse
    case 2: w.t0 = (double)g.ts.back() - w.dt * w.N * c.real(0, 1); break;                // pulse ends inside
    case 3: w.t0 = (double)g.ts[0] - w.dt * w.N - len * c.real(-1, 1); break;             // mostly before
    default: w.t0 = (double)g.ts[0] - c.real(0, 1) * w.dt * w.N;
    }
    c.note("window t0=%.17g dt=%.17g N=%d", w.t0, w.dt, w.N);
    return w;
}
// rounding of times relative to the bucket width and pulse structure
static double fuzz(const Geo &g, const Win &w) {
    double big = fabs(w.t0) + fabs((double)g.ts[0]) + fabs(g.tr[0].t) + nrm(L3(g.obs)) / cC + w.dt * w.N;
    return 4e-16 * big;
}
static double fmax(const Geo &g) {
    double m = 0;
    for (auto &e : g.f) m = std::max(m, nrm(e.E));
    return m;
}
static double gam4(const Geo &g) {
    double m = 0;
    for (auto &e : g.tr) m = std::max(m, nrm(e.p));
    return (1 + m * m) * (1 + m * m);
}

PBT_TEST(bucket_averages, 4) {
    Geo g = ggeo(c);
    Win w = gwin(c, g);
    std::unique_ptr<ChargedParticle> P(particleFrom(g.q, fabs(g.q), g.tr));
    FieldTrace tr(w.t0, w.dt, w.N);
    P->integrateFieldTrace(g.obs, &tr);
    double fm = fmax(g), fz = fuzz(g, w);
    ld dmin = 1e9;
    for (size_t i = 0; i + 1 < g.ts.size(); i++) dmin = std::min(dmin, g.ts[i + 1] - g.ts[i]);
    double rel = 1e-9 + 1e-14 * gam4(g) + 4 * fz / (double)dmin + 4 * fz / w.dt;
    if (rel > 1e-2) throw pbt::Discard();
    L3 totE, totR;
    bool hit = false;
    for (int i = 0; i < w.N; i++) {
        ld a = (ld)w.t0 + ((ld)i - 0.5L) * w.dt, b = a + w.dt;
        EBr e = integral(g, a, b);
        L3 E = e.E / (ld)w.dt, B = e.B / (ld)w.dt;
        ElMagField f = tr.get_field((std::size_t)i);
        double tol = fm * rel * 3;
        PBT_CHECK(c, (L3(f.E()) - E).norm() <= tol && (L3(f.B()) - B).norm() * cC <= tol, "sample %d of %d is %s, average of the arriving field is %s (allowed %.3g)", i, w.N, sv(f.E()).c_str(), sv(E).c_str(), tol);
        totE = totE + L3(f.E()) * (ld)w.dt;
        totR = totR + e.E;
        if (E.norm() > 0) hit = true;
    }
    PBT_CHECK(c, (totE - totR).norm() <= fm * rel * 3 * std::min((double)(g.ts.back() - g.ts[0]) + 2 * w.dt, w.N * w.dt) + 1e-12 * fm * w.dt * w.N * 1e-3, "time integral over the window is %s, expected %s", sv(totE).c_str(), sv(totR).c_str());
    if (hit) c.nontrivial();
    c.label(hit ? "hit" : "miss");
}

// the window boundaries exactly on signals, or a few ulp away: nothing may be lost or refused
PBT_TEST(window_edges, 3) {
    Geo g = ggeo(c);
    Win w;
    w.N = 2 + c.upto(20);
    double len = (double)(g.ts.back() - g.ts[0]);
    w.dt = c.coin() ? len / (1 + (int)c.upto(30)) : len * c.logreal(1e-2, 2);
    double edge = (double)g.ts[c.upto(g.ts.size() - 1)];
    // an edge of a randomly chosen bucket (first and last preferred) lies on the signal
    int k = c.coin() ? 0 : (c.coin() ? w.N : (int)c.upto(w.N));
    w.t0 = edge - (k - 0.5) * w.dt;
    int u = (int)c.range(-4, 4);
    for (int i = 0; i < abs(u); i++) w.t0 = nextafter(w.t0, u < 0 ? -1.0 : 1.0);
    c.note("window t0=%.17g dt=%.17g N=%d, edge %d on a signal %+d ulp", w.t0, w.dt, w.N, k, u);
    std::unique_ptr<ChargedParticle> P(particleFrom(g.q, fabs(g.q), g.tr));
    FieldTrace tr(w.t0, w.dt, w.N);
    double fm = fmax(g), fz = fuzz(g, w);
    ld dmin = 1e9;
    for (size_t i = 0; i + 1 < g.ts.size(); i++) dmin = std::min(dmin, g.ts[i + 1] - g.ts[i]);
    double rel = 1e-9 + 1e-14 * gam4(g) + 4 * fz / (double)dmin + 4 * fz / w.dt;
    if (rel > 1e-2) throw pbt::Discard();
    try {
        P->integrateFieldTrace(g.obs, &tr);
    } catch (std::exception &e) {
        c.fail("field computation refused a valid observation window: %s", e.what());
    }
    for (int i = 0; i < w.N; i++) {
        ld a = (ld)w.t0 + ((ld)i - 0.5L) * w.dt, b = a + w.dt;
        L3 E = integral(g, a, b).E / (ld)w.dt;
        ElMagField f = tr.get_field((std::size_t)i);
        PBT_CHECK(c, (L3(f.E()) - E).norm() <= fm * rel * 3, "sample %d of %d is %s, average of the arriving field is %s", i, w.N, sv(f.E()).c_str(), sv(E).c_str());
    }
    c.nontrivial();
}

// existing content is kept, contributions of several calls/particles add up; a refinement of the window keeps the integral
PBT_TEST(accumulates, 2) {
    Geo g = ggeo(c);
    Win w = gwin(c, g);
    std::unique_ptr<ChargedParticle> P(particleFrom(g.q, fabs(g.q), g.tr));
    FieldTrace one(w.t0, w.dt, w.N), pre(w.t0, w.dt, w.N);
    double fm = fmax(g);
    std::vector<ElMagField> base;
    for (int i = 0; i < w.N; i++) {
        ElMagField f(gvec(c, fm), gvec(c, fm / cC));
        base.push_back(f);
        pre.set_field(i, f);
    }
    P->integrateFieldTrace(g.obs, &one);
    int k = 1 + c.upto(2);
    for (int i = 0; i < k; i++) P->integrateFieldTrace(g.obs, &pre);
    for (int i = 0; i < w.N; i++) {
        ElMagField f = one.get_field((std::size_t)i), h = pre.get_field((std::size_t)i);
        PBT_CHECK(c, nearv(h.E(), base[i].E() + f.E() * k, 1e-12 * fm * 20 + 1e-10 * f.E().norm()) && nearv(h.B(), base[i].B() + f.B() * k, (1e-12 * fm * 20 + 1e-10 * f.E().norm()) / cC), "sample %d: adding %d times to existing content gives %s", i, k, sv(h.E()).c_str());
    }
    // finer window, same span
    int m = 2 + c.upto(3);
    FieldTrace fine(w.t0 - 0.5 * w.dt + 0.5 * w.dt / m, w.dt / m, w.N * m);
    P->integrateFieldTrace(g.obs, &fine);
    double fz = fuzz(g, w);
    ld dmin = 1e9;
    for (size_t i = 0; i + 1 < g.ts.size(); i++) dmin = std::min(dmin, g.ts[i + 1] - g.ts[i]);
    double rel = 1e-9 + 4 * fz / (double)dmin + 4 * fz * m / w.dt;
    if (rel > 1e-2) throw pbt::Discard();
    for (int i = 0; i < w.N; i++) {
        Vector s(0, 0, 0);
        for (int j = 0; j < m; j++) s += fine.get_field((std::size_t)(i * m + j)).E();
        PBT_CHECK(c, nearv(s / m, one.get_field((std::size_t)i).E(), fm * rel * 4), "splitting sample %d into %d parts does not keep the time integral: %s vs %s", i, m, sv(s / m).c_str(), sv(one.get_field((std::size_t)i).E()).c_str());
    }
    c.nontrivial();
}

// consistency of the two ways to obtain a field: a well resolved trace reproduces the instantaneous field
PBT_TEST(agrees_with_instantaneous_field, 1) {
    Geo g = ggeo(c);
    int i = c.upto(g.ts.size() - 2);
    ld a = g.ts[i], b = g.ts[i + 1];
    double dt = (double)(b - a) / (8 + c.upto(20));
    int N = 3;
    double tc = (double)(a + (b - a) * (ld)c.real(0.3, 0.7));
    FieldTrace tr(tc - dt, dt, N);
    std::unique_ptr<ChargedParticle> P(particleFrom(g.q, fabs(g.q), g.tr));
    P->integrateFieldTrace(g.obs, &tr);
    double fm = std::max(nrm(g.f[i].E), nrm(g.f[i + 1].E)), var = nrm(g.f[i].E - g.f[i + 1].E);
    Win w{tc - dt, dt, N};
    double fz = fuzz(g, w);
    if (fz / dt > 1e-3) throw pbt::Discard();
    Vector E = tr.get_field((std::size_t)1).E(), R = P->RetardedField(tc, g.obs).E();
    if (var > 0.3 * fm) throw pbt::Discard();
    L3 b0 = g.tr[i].p / sqrtl(1 + g.tr[i].p.abs2()), b1 = g.tr[i + 1].p / sqrtl(1 + g.tr[i + 1].p.abs2());
    if (nrm(b1 - b0) * gam4(g) > 0.02) throw pbt::Discard();
    double path = nrm(g.tr[i + 1].x - g.tr[i].x) / (double)(L3(g.obs) - g.tr[i].x).norm();
    PBT_CHECK(c, nearv(E, R, 1.0 * var + fm * (1e-6 + path * 0.5 + 20 * fz / dt)), "trace sample %s vs instantaneous field %s", sv(E).c_str(), sv(R).c_str());
    c.nontrivial();
}

PBT_MAIN("a case counts when at least part of the radiated pulse falls into the observation window")
