// T03: trajectory record: queries, displacement, state transfer
#include "common.h"

struct Rec {
    double t;
    Vector x, p, a;
};
static std::vector<Rec> gtraj(Ctx &c, int nmin, int nmax) {
    std::vector<Rec> r;
    int n = nmax > 7 ? c.big(nmin, nmax, 10000, 300) : (int)c.range(nmin, nmax);
    double t = c.sym(1e-9);
    for (int i = 0; i < n; i++) {
        Rec e;
        e.t = t;
        e.x = gvec(c, 3);
        e.p = gvec(c, 50);
        e.a = gvec(c, 1e12);
        r.push_back(e);
        t += c.coin() ? 1e-12 : c.logreal(1e-14, 1e-10);
    }
    return r;
}
static ChargedParticle *mk(double q, double m, const std::vector<Rec> &r) {
    ChargedParticle *p = new ChargedParticle(q, m);
    for (size_t i = 0; i < r.size(); i++) {
        if (i == 0)
            p->initTrajectory(r[0].t, r[0].x, r[0].p, r[0].a);
        else {
            p->setCurrentPoint(r[i].t, r[i].x, r[i].p, r[i].a);
            p->storeTrajectoryPoint(r[i].t, r[i].x, r[i].p, r[i].a);
        }
    }
    return p;
}
static void check(Ctx &c, ChargedParticle *p, const std::vector<Rec> &r, const char *w) {
    PBT_CHECK(c, p->getNP() == (int)r.size(), "%s: %d points, expected %zu", w, p->getNP(), r.size());
    for (size_t i = 0; i < r.size(); i++)
        PBT_CHECK(c, p->TrajTime(i) == r[i].t && samev(p->TrajPoint(i), r[i].x) && samev(p->TrajMomentum(i), r[i].p) && samev(p->TrajAccel(i), r[i].a), "%s: point %zu differs", w, i);
    if (r.size()) {
        const Rec &l = r.back();
        PBT_CHECK(c, p->getTime() == l.t && samev(p->getPosition(), l.x) && samev(p->getMomentum(), l.p) && samev(p->getAccel(), l.a), "%s: current state is not the last point", w);
    }
}
template <class F> static bool throws(F f) {
    try {
        f();
    } catch (std::exception &) {
        return true;
    }
    return false;
}

PBT_TEST(record_and_query, 3) {
    auto r = gtraj(c, 0, 14);
    c.note("%zu points", r.size());
    std::unique_ptr<ChargedParticle> p(mk(-1, 1, r));
    if (c.coin()) p->preAllocate(c.big(0, 30, 20000));
    check(c, p.get(), r, "stored");
    int n = r.size();
    for (int bad : {-1, n, n + 1 + (int)c.upto(100), -1 - (int)c.upto(1000)}) {
        PBT_CHECK(c, throws([&] { p->TrajTime(bad); }) && throws([&] { p->TrajPoint(bad); }) && throws([&] { p->TrajMomentum(bad); }) && throws([&] { p->TrajAccel(bad); }), "index %d of %d points accepted", bad, n);
    }
    // interpolation in time
    for (int k = 0; k < 6; k++) {
        Vector x(9, 9, 9), m(9, 9, 9);
        if (n == 0) {
            p->CoordinatesAtTime(c.sym(1e-9), &x, &m);
            PBT_CHECK(c, x.isNull() && m.isNull(), "no trajectory: coordinates not zero");
            continue;
        }
        double t;
        int mode = c.upto(4);
        if (mode == 0)
            t = r[c.upto(n - 1)].t;
        else if (mode == 1)
            t = r[0].t - c.logreal(1e-15, 1e-9);
        else if (mode == 2)
            t = r[n - 1].t + c.logreal(1e-15, 1e-9);
        else
            t = c.real(r[0].t, r[n - 1].t);
        p->CoordinatesAtTime(t, &x, &m);
        if (t < r[0].t || t > r[n - 1].t) {
            PBT_CHECK(c, x.isNull() && m.isNull(), "outside the recorded time span the coordinates are not zero: %s", sv(x).c_str());
            continue;
        }
        int i = 0;
        while (i + 2 < n && r[i + 1].t < t) i++;
        L3 ex(r[0].x), em(r[0].p);
        if (n > 1) {
            ld f = ((ld)t - r[i].t) / ((ld)r[i + 1].t - r[i].t);
            ex = L3(r[i].x) * (1 - f) + L3(r[i + 1].x) * f;
            em = L3(r[i].p) * (1 - f) + L3(r[i + 1].p) * f;
        }
        double cond = n > 1 ? 1e-16 * (fabs(t) + fabs(r[i].t)) / (r[i + 1].t - r[i].t) : 0;
        PBT_CHECK(c, nearv(x, ex, (1e-13 + 20 * cond) * 6) && nearv(m, em, (1e-13 + 20 * cond) * 100), "position at time %.12g is %s, interpolation between recorded points gives %s", t, sv(x).c_str(), sv(ex).c_str());
    }
    if (n > 2) c.nontrivial();
    // a new start point replaces everything
    if (c.coin()) {
        auto q = gtraj(c, 1, 1);
        p->initTrajectory(q[0].t, q[0].x, q[0].p, q[0].a);
        check(c, p.get(), q, "after re-initialisation");
        p->clearTrajectory();
        PBT_CHECK(c, p->getNP() == 0 && throws([&] { p->TrajPoint(0); }), "cleared trajectory still has points");
    }
}

PBT_TEST(shift, 2) {
    auto r = gtraj(c, 1, 8);
    double q = c.symlog(1e-2, 1e6), m = c.logreal(1e-2, 1e6), fc = c.symlog(0.1, 10);
    Vector d = gvec(c, 2);
    c.note("%zu points delta=%s factor=%g", r.size(), sv(d).c_str(), fc);
    std::unique_ptr<ChargedParticle> p(mk(q, m, r));
    p->Shift(d, fc);
    PBT_CHECK(c, p->getNP() == (int)r.size(), "number of points changed");
    for (size_t i = 0; i < r.size(); i++) {
        PBT_CHECK(c, nearv(p->TrajPoint(i), r[i].x + d, 1e-13), "point %zu of %zu not displaced by the shift: %s from %s", i, r.size(), sv(p->TrajPoint(i)).c_str(), sv(r[i].x).c_str());
        PBT_CHECK(c, p->TrajTime(i) == r[i].t && samev(p->TrajMomentum(i), r[i].p) && samev(p->TrajAccel(i), r[i].a), "shift altered more than positions at %zu", i);
    }
    PBT_CHECK(c, nearv(p->getPosition(), r.back().x + d, 1e-13) && samev(p->getMomentum(), r.back().p), "current position not displaced");
    PBT_CHECK(c, near(p->getCharge(), q * fc * cE, 1e-8 * fabs(q * fc * cE)), "charge factor not applied");
    c.nontrivial();
}

PBT_TEST(mirror, 2) {
    auto r = gtraj(c, 1, 8);
    double q = c.symlog(1e-2, 1e6), m = c.logreal(1e-2, 1e6), fc = c.coin() ? -1.0 : c.symlog(0.1, 10);
    Vector o = gvec(c, 2), n = gunit(c) * c.logreal(0.1, 10);
    c.note("%zu points origin=%s normal=%s factor=%g", r.size(), sv(o).c_str(), sv(n).c_str(), fc);
    std::unique_ptr<ChargedParticle> p(mk(q, m, r));
    p->Mirror(o, n, fc);
    L3 u = L3(n).unit();
    auto refl = [&](L3 v) { return v - u * (2 * v.dot(u)); };
    auto pt = [&](L3 v) { return refl(v - L3(o)) + L3(o); };
    for (size_t i = 0; i < r.size(); i++) {
        PBT_CHECK(c, nearv(p->TrajPoint(i), pt(L3(r[i].x)), 1e-12), "point %zu of %zu is not mirrored: %s from %s", i, r.size(), sv(p->TrajPoint(i)).c_str(), sv(r[i].x).c_str());
        PBT_CHECK(c, nearv(p->TrajMomentum(i), refl(L3(r[i].p)), 1e-11), "momentum %zu of %zu is not mirrored", i, r.size());
        PBT_CHECK(c, nearv(p->TrajAccel(i), refl(L3(r[i].a)), 1.0), "acceleration %zu of %zu is not mirrored", i, r.size());
        PBT_CHECK(c, p->TrajTime(i) == r[i].t, "time changed");
    }
    PBT_CHECK(c, nearv(p->getPosition(), pt(L3(r.back().x)), 1e-12) && nearv(p->getMomentum(), refl(L3(r.back().p)), 1e-11) && nearv(p->getAccel(), refl(L3(r.back().a)), 1.0), "current state is not mirrored");
    PBT_CHECK(c, near(p->getCharge(), q * fc * cE, 1e-8 * fabs(q * fc * cE)), "charge factor not applied");
    // mirroring twice is the identity
    p->Mirror(o, n, 1.0);
    for (size_t i = 0; i < r.size(); i++) PBT_CHECK(c, nearv(p->TrajPoint(i), r[i].x, 1e-11) && nearv(p->TrajMomentum(i), r[i].p, 1e-11), "mirroring twice does not restore point %zu", i);
    // the image charge keeps moving along the mirrored path when tracking goes on
    c.nontrivial();
}

// after a shift/mirror, further tracking with the charge scaled matches a fresh particle
PBT_TEST(shift_then_track, 1) {
    auto r = gtraj(c, 1, 3);
    double q = c.symlog(0.5, 2), m = c.logreal(0.5, 2), fc = c.coin() ? -1.0 : c.symlog(0.5, 2);
    Vector d = gvec(c, 2);
    std::unique_ptr<ChargedParticle> p(mk(q, m, r));
    HomogeneousField f(gvec(c, 1e7), gvec(c, 1));
    double dt = 1e-12;
    p->InitVay(dt, &f);
    int k = c.upto(4);
    for (int i = 0; i < k; i++) p->StepVay(&f);
    Vector xe = p->getPosition(), pe = p->getMomentum();
    double te = p->getTime();
    p->Shift(d, fc);
    c.note("points %d delta=%s factor=%g", p->getNP(), sv(d).c_str(), fc);
    ChargedParticle q2(q * fc, m);
    q2.initTrajectory(te, xe + d, pe, VectorZero);
    p->InitVay(dt, &f);
    q2.InitVay(dt, &f);
    for (int i = 0; i < 4; i++) {
        p->StepVay(&f);
        q2.StepVay(&f);
        PBT_CHECK(c, nearv(p->getPosition(), q2.getPosition(), 1e-11) && nearv(p->getMomentum(), q2.getMomentum(), 1e-9), "tracking after a shift starts from %s, expected from %s", sv(p->getPosition()).c_str(), sv(q2.getPosition()).c_str());
    }
    c.nontrivial();
}

// a particle displaced or mirrored during tracking goes on along the displaced or mirrored path, if the force is the same
PBT_TEST(displace_while_tracking, 2) {
    auto r = gtraj(c, 1, 1);
    double q = c.symlog(0.5, 2), m = c.logreal(0.5, 2), fc = c.coin() ? -1.0 : c.symlog(0.5, 2);
    Vector E = gvec(c, 1e7), B = gvec(c, 1), d = gvec(c, 2), n = gunit(c) * c.logreal(0.1, 10);
    bool mir = c.coin();
    double dt = 1e-12;
    std::unique_ptr<ChargedParticle> p(mk(q, m, r)), o(mk(q, m, r));
    HomogeneousField f(E, B);
    p->InitVay(dt, &f), o->InitVay(dt, &f);
    int k = c.upto(4);
    for (int i = 0; i < k; i++) p->StepVay(&f), o->StepVay(&f);
    L3 u = L3(n).unit();
    auto refl = [&](L3 v) { return mir ? v - u * (2 * v.dot(u)) : v; };
    auto pt = [&](L3 v) { return mir ? refl(v - L3(d)) + L3(d) : v + L3(d); };
    if (mir)
        p->Mirror(d, n, fc);
    else
        p->Shift(d, fc);
    c.note("%s after %d steps at %s normal=%s factor=%g", mir ? "mirrored" : "shifted", k, sv(d).c_str(), sv(n).c_str(), fc);
    HomogeneousField g((refl(L3(E)) * (1 / fc)).vec(), (refl(L3(B)) * ((mir ? -1 : 1) / fc)).vec());
    for (int i = 0; i < 4; i++) {
        p->StepVay(&g), o->StepVay(&f);
        PBT_CHECK(c, nearv(p->getPosition(), pt(L3(o->getPosition())), 1e-11) && nearv(p->getMomentum(), refl(L3(o->getMomentum())), 1e-9) && nearv(p->getAccel(), refl(L3(o->getAccel())), 1e-9 * (1 + o->getAccel().norm())),
                  "step %d afterwards leads to %s momentum %s, expected %s momentum %s", i, sv(p->getPosition()).c_str(), sv(p->getMomentum()).c_str(), sv(pt(L3(o->getPosition()))).c_str(), sv(refl(L3(o->getMomentum()))).c_str());
    }
    c.nontrivial();
}
PBT_TEST(copies_and_buffers, 4) {
    auto r = gtraj(c, 1, 8);
    double q = c.symlog(1e-2, 1e6), m = fabs(q) * c.logreal(0.5, 2);
    std::unique_ptr<ChargedParticle> p(mk(q, m, r));
    std::unique_ptr<ModeField> f(gmodes(c, 1e11, 0.02));
    bool tracked = c.coin();
    double dt = c.logreal(1e-14, 1e-12);
    if (tracked) {
        p->InitVay(dt, f.get());
        int k = c.upto(6);
        for (int i = 0; i < k; i++) p->StepVay(f.get());
        r.clear();
        for (int i = 0; i < p->getNP(); i++) r.push_back({p->TrajTime(i), p->TrajPoint(i), p->TrajMomentum(i), p->TrajAccel(i)});
    }
    int n = r.size();
    c.note("q=%g m=%g %d points tracked=%d", q, m, n, tracked);
    // full trajectory transfer
    int bs = p->TrajBufSize();
    std::vector<double> buf(bs + 8, 777.0), sbuf(PARTICLE_SERIALIZE_BUFSIZE + 8, 777.0);
    p->serializeTraj(buf.data());
    for (int i = bs; i < bs + 8; i++) PBT_CHECK(c, buf[i] == 777.0, "serializeTraj writes beyond the announced buffer size");
    p->serialize(sbuf.data());
    for (int i = PARTICLE_SERIALIZE_BUFSIZE; i < (int)sbuf.size(); i++) PBT_CHECK(c, sbuf[i] == 777.0, "serialize writes beyond its buffer");
    int npre = c.coin() ? 0 : n + (int)c.upto(20);
    ChargedParticle full(buf.data(), n, npre);
    check(c, &full, r, "restored from trajectory buffer");
    PBT_CHECK(c, full.getCharge() == p->getCharge(), "charge lost in transfer");
    PBT_CHECK(c, full.getNpre() == npre, "pre-allocation lost: %d of %d", full.getNpre(), npre);
    ChargedParticle copy(p.get());
    check(c, &copy, r, "copy");
    PBT_CHECK(c, copy.getCharge() == p->getCharge(), "charge lost in copy");
    ChargedParticle last(sbuf.data());
    std::vector<Rec> lr(1, r.back());
    check(c, &last, lr, "restored from one-point buffer");
    PBT_CHECK(c, last.getCharge() == p->getCharge(), "charge lost");
    double pb[20];
    for (double &v : pb) v = 777;
    double *e = p->bufferProbe(pb);
    PBT_CHECK(c, e == pb + p->getProbeBufferSize() && pb[p->getProbeBufferSize()] == 777, "probe record size");
    PBT_CHECK(c, pb[0] == p->getTime() && samev(Vector(pb[1], pb[2], pb[3]), p->getPosition()) && samev(Vector(pb[4], pb[5], pb[6]), p->getMomentum()) && samev(Vector(pb[7], pb[8], pb[9]), p->getAccel()), "probe record differs from the particle state");
    // all three keep tracking exactly like the original
    if (tracked) {
        for (int i = 0; i < 4; i++) {
            p->StepVay(f.get());
            full.StepVay(f.get());
            copy.StepVay(f.get());
            PBT_CHECK(c, samev(p->getPosition(), full.getPosition()) && samev(p->getMomentum(), full.getMomentum()) && p->getTime() == full.getTime(), "particle restored from buffer continues differently at step %d", i);
            PBT_CHECK(c, samev(p->getPosition(), copy.getPosition()) && samev(p->getMomentum(), copy.getMomentum()) && p->getTime() == copy.getTime(), "copied particle continues differently at step %d", i);
        }
    } else {
        p->InitVay(dt, f.get());
        last.InitVay(dt, f.get());
        for (int i = 0; i < 4; i++) {
            p->StepVay(f.get());
            last.StepVay(f.get());
            PBT_CHECK(c, samev(p->getPosition(), last.getPosition()) && samev(p->getMomentum(), last.getMomentum()), "particle restored from one-point buffer tracks differently");
        }
        // the copy was not touched by tracking the original
        check(c, &copy, r, "copy after tracking the original");
    }
    if (n > 1) c.nontrivial();
}

// a particle that has no trajectory yet survives the transfer as well
PBT_TEST(empty_particle_transfer, 1) {
    double q = c.symlog(1e-2, 1e6), m = fabs(q) * c.logreal(0.5, 2);
    ChargedParticle p(q, m);
    int npre = c.upto(5);
    c.note("q=%g m=%g npre=%d", q, m, npre);
    std::vector<double> buf(p.TrajBufSize() + 1);
    p.serializeTraj(buf.data());
    unsigned char mem[sizeof(ChargedParticle) + 64];
    memset(mem, 0x5a, sizeof mem);
    ChargedParticle *r = new ((void *)(((uintptr_t)mem + 31) & ~(uintptr_t)31)) ChargedParticle(buf.data(), 0, npre);
    PBT_CHECK(c, r->getNP() == 0 && r->getNpre() == npre && r->getCharge() == p.getCharge(), "restored particle: NP=%d Npre=%d", r->getNP(), r->getNpre());
    PBT_CHECK(c, r->getTime() == 0 && r->getPosition().isNull() && r->getMomentum().isNull(), "restored particle without trajectory has undefined coordinates");
    r->~ChargedParticle();
    ChargedParticle cp(&p);
    PBT_CHECK(c, cp.getNP() == 0 && cp.getCharge() == p.getCharge() && cp.getTime() == 0, "copy of a particle without trajectory");
    c.nontrivial();
}

PBT_TEST(bunch_transfer, 3) {
    int nb = 1 + c.upto(3);
    Beam A, B;
    std::vector<std::vector<std::vector<Rec>>> recs(nb);
    int tot = 0;
    for (int b = 0; b < nb; b++) {
        int n = c.upto(4);
        Bunch *ba = new Bunch();
        for (int i = 0; i < n; i++) {
            auto r = gtraj(c, 1, 4);
            recs[b].push_back(r);
            ba->Add(mk(c.symlog(0.1, 100), 1, r));
            tot++;
        }
        A.Add(ba);
        Bunch *bb = new Bunch(ba); // copies
        PBT_CHECK(c, bb->getNOP() == n, "copied bunch has %d of %d particles", bb->getNOP(), n);
        for (int i = 0; i < n; i++) {
            PBT_CHECK(c, bb->getParticle(i) != ba->getParticle(i), "copied bunch shares particles");
            check(c, bb->getParticle(i), recs[b][i], "particle of copied bunch");
            PBT_CHECK(c, bb->getParticle(i)->getCharge() == ba->getParticle(i)->getCharge(), "charge");
        }
        B.Add(bb);
    }
    c.note("%d bunches %d particles", nb, tot);
    PBT_CHECK(c, A.getStepBufferSize() == 10 * tot, "step buffer size %d for %d particles", A.getStepBufferSize(), tot);
    // modify A's current state, transfer to B
    for (int b = 0; b < nb; b++)
        for (int i = 0; i < A.getBunch(b)->getNOP(); i++) A.getBunch(b)->getParticle(i)->setCurrentPoint(c.sym(1), gvec(c, 1), gvec(c, 10), gvec(c, 1e9));
    std::vector<double> buf(A.getStepBufferSize() + 4, 777.0);
    A.bufferStep(buf.data());
    for (int i = 0; i < 4; i++) PBT_CHECK(c, buf[10 * tot + i] == 777.0, "step buffer overrun");
    int nots = B.getNOTS();
    B.setStepFromBuffer(buf.data());
    PBT_CHECK(c, B.getNOTS() == nots + 1, "steps not counted");
    for (int b = 0; b < nb; b++)
        for (int i = 0; i < A.getBunch(b)->getNOP(); i++) {
            ChargedParticle *pa = A.getBunch(b)->getParticle(i), *pb = B.getBunch(b)->getParticle(i);
            PBT_CHECK(c, pa->getTime() == pb->getTime() && samev(pa->getPosition(), pb->getPosition()) && samev(pa->getMomentum(), pb->getMomentum()) && samev(pa->getAccel(), pb->getAccel()), "bunch %d particle %d: transferred state differs", b, i);
            auto r = recs[b][i];
            r.push_back({pa->getTime(), pa->getPosition(), pa->getMomentum(), pa->getAccel()});
            check(c, pb, r, "trajectory after transfer");
            PBT_CHECK(c, pa->getNP() == (int)recs[b][i].size(), "sending changed the sender's trajectory");
        }
    if (tot > 1) c.nontrivial();
}

// probing the first particles of a beam: round robin over the bunches, documented order
PBT_TEST(probe_selection, 1) {
    int nb = 1 + c.upto(3);
    Beam A;
    std::vector<int> sizes;
    int tot = 0;
    for (int b = 0; b < nb; b++) {
        int n = c.upto(4);
        Bunch *ba = new Bunch();
        for (int i = 0; i < n; i++) {
            ChargedParticle *p = new ChargedParticle(-1, 1);
            p->initTrajectory(b * 100 + i, gvec(c, 1), gvec(c, 1), gvec(c, 1));
            ba->Add(p);
        }
        A.Add(ba);
        sizes.push_back(n);
        tot += n;
    }
    int want = c.upto(tot);
    c.note("%d bunches, %d particles, %d probed", nb, tot, want);
    std::vector<double> buf(A.getProbeBufferSize(want) + 2, 777.0);
    PBT_CHECK(c, A.getProbeBufferSize(want) == 16u * want, "size");
    A.bufferProbe(buf.data(), want);
    PBT_CHECK(c, buf[16 * want] == 777.0, "overrun");
    std::set<double> ids;
    for (int k = 0; k < want; k++) {
        double id = buf[16 * k];
        int b = (int)id / 100, i = (int)id % 100;
        PBT_CHECK(c, b >= 0 && b < nb && i < sizes[b], "unknown particle in probe record");
        ids.insert(id);
        ChargedParticle *p = A.getBunch(b)->getParticle(i);
        PBT_CHECK(c, samev(Vector(buf[16 * k + 1], buf[16 * k + 2], buf[16 * k + 3]), p->getPosition()), "position");
    }
    PBT_CHECK(c, (int)ids.size() == want, "probe records repeat particles");
    if (want > 1) c.nontrivial();
}

// replacing particles / ownership
PBT_TEST(bunch_edit, 1) {
    int n = c.upto(6);
    double q = c.symlog(0.1, 10), m = c.logreal(0.1, 10);
    Bunch B(n, q, m);
    double tot = n * q;
    c.note("n=%d q=%g", n, q);
    PBT_CHECK(c, B.getNOP() == n && near(B.getTotalCharge(), tot * cE, 1e-8 * (fabs(tot) + 1) * cE), "charge of a bunch of %d particles: %g", n, B.getTotalCharge());
    std::vector<double> qs(n, q);
    int ops = c.upto(6);
    for (int k = 0; k < ops; k++) {
        double qq = c.symlog(0.1, 10);
        if (c.coin()) {
            B.Add(new ChargedParticle(qq, 1));
            qs.push_back(qq);
        } else if (qs.size()) {
            int i = c.upto(qs.size() - 1);
            B.replaceParticle(i, new ChargedParticle(qq, 1));
            qs[i] = qq;
        }
    }
    ChargedParticle spare(3, 1);
    B.replaceParticle(-1, &spare);
    B.replaceParticle(qs.size(), &spare);
    PBT_CHECK(c, B.getNOP() == (int)qs.size(), "count %d expected %zu", B.getNOP(), qs.size());
    double s = 0, sa = 1e-30;
    for (size_t i = 0; i < qs.size(); i++) {
        PBT_CHECK(c, near(B.getParticle(i)->getCharge(), qs[i] * cE, 1e-8 * fabs(qs[i]) * cE), "particle %zu is not the one put there", i);
        s += qs[i];
        sa += fabs(qs[i]);
    }
    PBT_CHECK(c, near(B.getTotalCharge(), s * cE, 1e-8 * sa * cE), "total charge");
    c.nontrivial();
}

PBT_MAIN("a case counts when the trajectory/bunch holds at least two points/particles or an edit/transfer is actually performed")
