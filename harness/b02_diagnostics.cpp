// B02: ensemble diagnostics, superposition of fields over particles and bunches
#include "lw.h"
#include <random>

static ChargedParticle *gpart(Ctx &c, double q, double m, double xs, double ps, Vector p0) {
    ChargedParticle *p = new ChargedParticle(q, m);
    p->initTrajectory(c.sym(1e-9), gvec(c, xs), gvec(c, ps) + p0, Vector());
    return p;
}
PBT_TEST(diagnostics, 4) {
    int n = c.big(1, 20, 5000, 400);
    Vector p0 = gunit(c) * c.logreal(0.01, 1e4);
    double ps = p0.norm() * c.logreal(1e-4, 1.0), xs = c.logreal(1e-6, 1);
    Bunch b;
    std::vector<D3> X, P;
    std::vector<double> T;
    for (int i = 0; i < n; i++) {
        ChargedParticle *p = gpart(c, c.symlog(0.1, 1e6), c.logreal(0.1, 1e6), xs, ps, p0);
        b.Add(p);
        X.push_back(D3(p->getPosition()));
        P.push_back(D3(p->getMomentum()));
        T.push_back(p->getTime());
    }
    c.note("particles=%d momentum around %s spread %g size %g", n, sv(p0).c_str(), ps, xs);
    L3 mx, mp, s;
    ld mt = 0, mg = 0, mn = 0;
    for (int i = 0; i < n; i++) {
        mx = mx + L3(X[i].vec()) / n;
        mp = mp + L3(P[i].vec()) / n;
        mt += (ld)T[i] / n;
        ld a = L3(P[i].vec()).norm();
        mg += sqrtl(1 + a * a) / n;
        mn += a / n;
    }
    ld sd = 0;
    for (int i = 0; i < n; i++) {
        L3 d = L3(X[i].vec()) - mx;
        s = s + L3(d.x * d.x, d.y * d.y, d.z * d.z) / n;
        ld e = L3(P[i].vec()).norm() - mn;
        sd += e * e / n;
    }
    s = L3(sqrtl(s.x), sqrtl(s.y), sqrtl(s.z));
    PBT_CHECK(c, near(b.avgTime(), mt, (1e-13 + 2e-16 * n) * 1e-9), "mean time %g expected %Lg", b.avgTime(), mt);
    PBT_CHECK(c, nearv(b.avgPosition(), mx, (1e-13 + 2e-16 * n) * xs), "mean position %s expected %s", sv(b.avgPosition()).c_str(), sv(mx).c_str());
    PBT_CHECK(c, nearv(b.rmsPosition(), s, 1e-7 * xs), "rms position %s expected %s", sv(b.rmsPosition()).c_str(), sv(s).c_str());
    PBT_CHECK(c, nearv(b.avgMomentum(), mp, (1e-13 + 2e-16 * n) * (p0.norm() + ps)), "mean momentum %s expected %s", sv(b.avgMomentum()).c_str(), sv(mp).c_str());
    PBT_CHECK(c, near(b.avgGamma(), mg, (1e-12 + 2e-16 * n) * mg), "mean gamma %g expected %Lg", b.avgGamma(), mg);
    PBT_CHECK(c, near(b.delta(), sqrtl(sd) / mn, 1e-7), "relative momentum spread %g expected %Lg", b.delta(), sqrtl(sd) / mn);
    double f = c.sym(cC / xs * 3);
    std::complex<double> bf = b.BunchingFactor(f), ref(0, 0);
    for (int i = 0; i < n; i++) {
        double a = 2 * cPi * f * X[i].z / cC;
        ref += std::complex<double>(cos(a), sin(a)) / (double)n;
    }
    PBT_CHECK(c, std::abs(bf - ref) < 1e-11 * (1 + fabs(f) * xs / cC), "bunching factor (%g,%g) expected (%g,%g)", bf.real(), bf.imag(), ref.real(), ref.imag());
    PBT_CHECK(c, std::abs(b.BunchingFactor(0) - std::complex<double>(1, 0)) < 1e-12, "bunching factor at zero frequency");
    // coordinate buffer, truncated by its capacity
    int cap = c.range(0, n + 2), w = std::min(cap, n);
    std::vector<double> buf(6 * (n + 2) + 4, 7.25);
    double *e = b.bufferCoordinates(buf.data(), cap);
    PBT_CHECK(c, e == buf.data() + 6 * w, "buffer of %d particles: %d written of %d", cap, (int)((e - buf.data()) / 6), n);
    for (int i = 0; i < w; i++) {
        double r[6] = {X[i].x, X[i].y, X[i].z, P[i].x, P[i].y, P[i].z};
        for (int k = 0; k < 6; k++) PBT_CHECK(c, buf[6 * i + k] == r[k], "buffered coordinate %d of particle %d", k, i);
    }
    for (size_t k = 6 * w; k < buf.size(); k++) PBT_CHECK(c, buf[k] == 7.25, "buffer written beyond its capacity");
    if (n > 1) c.nontrivial();
}
// equivariance of the diagnostics
PBT_TEST(shifted, 1) {
    int n = c.range(2, 10);
    Vector p0 = gunit(c) * c.logreal(1, 100), sh = gvec(c, 3);
    Bunch a, b;
    std::vector<int> perm(n);
    std::vector<std::array<Vector, 2>> v;
    for (int i = 0; i < n; i++) {
        Vector x = gvec(c, 1), p = p0 + gvec(c, 1);
        v.push_back({x, p});
        perm[i] = i;
    }
    for (int i = n - 1; i > 0; i--) std::swap(perm[i], perm[c.upto(i)]);
    for (int i = 0; i < n; i++) {
        auto *q = new ChargedParticle(-1, 1);
        q->initTrajectory(0, v[i][0], v[i][1], Vector());
        a.Add(q);
    }
    for (int i = 0; i < n; i++) {
        auto *q = new ChargedParticle(-1, 1);
        q->initTrajectory(0, v[perm[i]][0] + sh, v[perm[i]][1], Vector());
        b.Add(q);
    }
    c.note("n=%d shift=%s", n, sv(sh).c_str());
    PBT_CHECK(c, nearv(a.avgPosition() + sh, b.avgPosition(), 1e-12), "mean position does not follow a shift");
    PBT_CHECK(c, nearv(a.rmsPosition(), b.rmsPosition(), 1e-9), "rms size changes with a shift");
    PBT_CHECK(c, nearv(a.avgMomentum(), b.avgMomentum(), 1e-11), "mean momentum depends on the order");
    PBT_CHECK(c, near(a.avgGamma(), b.avgGamma(), 1e-11), "mean gamma depends on the order");
    PBT_CHECK(c, near(a.delta(), b.delta(), 1e-11), "momentum spread depends on the order");
    double f = c.real(1e7, 1e9);
    PBT_CHECK(c, near(std::abs(a.BunchingFactor(f)), std::abs(b.BunchingFactor(f)), 1e-10), "magnitude of the bunching factor changes with a shift");
    if (!sh.isNull()) c.nontrivial();
}
// fields of bunches and beams are the sum over their particles; probes and buffers take every particle once
PBT_TEST(superposition, 3) {
    int nb = c.range(1, 4);
    Beam beam;
    std::vector<ChargedParticle *> all;
    std::vector<std::vector<ChargedParticle *>> per(nb);
    Vector obs = gunit(c) * c.logreal(3, 20);
    double tmin = 1e9, tmax = -1e9, charge = 0;
    for (int i = 0; i < nb; i++) {
        Bunch *b = new Bunch();
        int n = c.range(0, 3);
        for (int j = 0; j < n; j++) {
            auto tr = gtrack(c, 2, 6, 10);
            if (!monotonic(tr, L3(obs))) throw pbt::Discard();
            double q = c.symlog(0.1, 1e6);
            ChargedParticle *p = particleFrom(q, fabs(q), tr);
            charge += q;
            b->Add(p);
            all.push_back(p);
            per[i].push_back(p);
            tmin = std::min(tmin, (double)arrival(tr[0], L3(obs)));
            tmax = std::max(tmax, (double)arrival(tr.back(), L3(obs)));
        }
        beam.Add(b);
    }
    PBT_CHECK(c, beam.getNOB() == nb && beam.getNOP() == (int)all.size(), "%d bunches %d particles", beam.getNOB(), beam.getNOP());
    double qs = 0;
    for (auto p : all) qs += fabs(p->getCharge());
    PBT_CHECK(c, near(beam.getTotalCharge(), charge * cE, 1e-12 * qs), "total charge %g expected %g", beam.getTotalCharge(), charge * cE);
    PBT_CHECK(c, beam.getBunch(-1) == 0 && beam.getBunch(nb) == 0, "bunch index out of range must give a null pointer");
    if (all.empty()) throw pbt::Discard();
    double t = tmin + (tmax - tmin) * c.real(-0.2, 0.9);
    auto add = [&](std::vector<ChargedParticle *> &v, L3 &E, L3 &B, double &me, double &mb) {
        for (auto p : v) {
            ElMagField f = p->RetardedField(t, obs);
            E = E + L3(f.E());
            B = B + L3(f.B());
            me += f.E().norm();
            mb += f.B().norm();
        }
    };
    L3 E, B;
    double me = 1e-300, mb = 1e-300;
    add(all, E, B, me, mb);
    ElMagField f = beam.RetardedField(t, obs);
    PBT_CHECK(c, nearv(f.E(), E, 1e-12 * me) && nearv(f.B(), B, 1e-12 * mb), "field of the beam E=%s, sum over particles E=%s", sv(f.E()).c_str(), sv(E).c_str());
    for (int i = 0; i < nb; i++) {
        L3 e, b;
        double m1 = 1e-300, m2 = 1e-300;
        add(per[i], e, b, m1, m2);
        ElMagField g = beam.getBunch(i)->RetardedField(t, obs);
        PBT_CHECK(c, nearv(g.E(), e, 1e-12 * m1) && nearv(g.B(), b, 1e-12 * m2), "field of a bunch differs from the sum over its particles");
    }
    // recorded traces
    int N = c.range(4, 30);
    double w = tmax - tmin, t0 = tmin - 0.2 * w, dt = 1.4 * w / N;
    FieldTrace a(t0, dt, N), s(t0, dt, N);
    beam.integrateFieldTrace(obs, &a);
    double mx = 1e-300;
    for (auto p : all) {
        FieldTrace one(t0, dt, N);
        p->integrateFieldTrace(obs, &one);
        for (int k = 0; k < N; k++) mx = std::max(mx, one.get_field((size_t)k).E().norm());
        s += one;
    }
    for (int k = 0; k < N; k++)
        PBT_CHECK(c, nearv(a.get_field((size_t)k).E(), s.get_field((size_t)k).E(), 1e-11 * mx) && nearv(a.get_field((size_t)k).B(), s.get_field((size_t)k).B(), 1e-11 * mx / cC), "recorded trace of the beam, sample %d: %s, sum of the particles %s", k,
                  sv(a.get_field((size_t)k).E()).c_str(), sv(s.get_field((size_t)k).E()).c_str());
    // a second recording adds to the first
    beam.integrateFieldTrace(obs, &a);
    for (int k = 0; k < N; k++) PBT_CHECK(c, nearv(a.get_field((size_t)k).E(), s.get_field((size_t)k).E() * 2.0, 1e-11 * mx), "second recording does not add");
    // probes: first particle of every bunch, then the second ...
    int np = c.range(1, all.size());
    std::vector<double> pb(beam.getProbeBufferSize(np) + 4, 7.25), one(32, 0);
    PBT_CHECK(c, (int)beam.getProbeBufferSize(np) == np * (int)all[0]->getProbeBufferSize(), "probe buffer size");
    beam.bufferProbe(pb.data(), np);
    std::vector<ChargedParticle *> order;
    for (int j = 0; (int)order.size() < (int)all.size(); j++)
        for (int i = 0; i < nb; i++)
            if (j < (int)per[i].size()) order.push_back(per[i][j]);
    int ps = all[0]->getProbeBufferSize();
    for (int k = 0; k < np; k++) {
        order[k]->bufferProbe(one.data());
        for (int q = 0; q < ps; q++) PBT_CHECK(c, pb[k * ps + q] == one[q] || (std::isnan(pb[k * ps + q]) && std::isnan(one[q])), "probe %d value %d", k, q);
    }
    for (int q = 0; q < 4; q++) PBT_CHECK(c, pb[np * ps + q] == 7.25, "probe buffer overrun");
    c.note("bunches=%d particles=%zu", nb, all.size());
    if (all.size() > 1) c.nontrivial();
}
// a probe holds time, position, momentum, acceleration and the fields seen by the particle
PBT_TEST(probe_content, 1) {
    Vector x = gvec(c, 1), p = gmom(c, 0.1, 50);
    double q = c.pick({-1.0, 1.0, -3.0});
    ChargedParticle a(q, c.logreal(0.5, 10));
    a.initTrajectory(c.sym(1e-9), x, p, Vector());
    std::unique_ptr<ModeField> f(gmodes(c, 1e11, 0.01, 2));
    a.InitVay(c.logreal(1e-14, 1e-12), f.get());
    int n = c.range(0, 5);
    for (int i = 0; i < n; i++) a.StepVay(f.get());
    double b[20];
    for (double &v : b) v = 7.25;
    double *e = a.bufferProbe(b);
    PBT_CHECK(c, e == b + a.getProbeBufferSize() && b[16] == 7.25, "probe size");
    Vector X = a.getPosition(), P = a.getMomentum(), A = a.getAccel();
    PBT_CHECK(c, b[0] == a.getTime() && samev(Vector(b[1], b[2], b[3]), X) && samev(Vector(b[4], b[5], b[6]), P) && samev(Vector(b[7], b[8], b[9]), A), "time, position, momentum and acceleration of the probe");
    ElMagField g = f->Field(a.getTime(), X);
    double es = 1e-9 * (g.E().norm() + 1), bs = 1e-9 * (g.B().norm() + 1e-9);
    PBT_CHECK(c, nearv(Vector(b[10], b[11], b[12]), g.E(), es) && nearv(Vector(b[13], b[14], b[15]), g.B(), bs), "probed fields E=(%g,%g,%g) at the particle position %s", b[10], b[11], b[12], sv(g.E()).c_str());
    c.note("steps=%d", n);
    c.nontrivial();
}
PBT_MAIN("random bunches with arbitrary charges, sizes and momentum spreads against long-double sums; shifts and permutations; beams of several (also empty) bunches on random tracked trajectories: field, trace, "
         "charge, buffers and probes against sums and lists over the particles. non-trivial: more than one particle")
