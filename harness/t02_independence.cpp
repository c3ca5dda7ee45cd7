// T02: particles of a beam are tracked independently; tracking has the symmetries of the physics
#include "common.h"
#include "undulator.h"
#include "dipole.h"

struct PDef {
    double q, m, t0;
    Vector x, p;
};
static PDef gpart(Ctx &c) {
    PDef d;
    double k = c.logreal(1e-2, 1e8);
    d.q = c.coin() ? -k : k;
    d.m = k * c.logreal(0.5, 2.0);
    d.t0 = c.coin() ? c.sym(1e-10) : 0.0;
    d.x = gvec(c, 0.3);
    d.p = gmom(c, 0.05, 60);
    return d;
}
static ChargedParticle *mk(const PDef &d) {
    ChargedParticle *p = new ChargedParticle(d.q, d.m);
    p->initTrajectory(d.t0, d.x, d.p, VectorZero);
    return p;
}
static void sameTraj(Ctx &c, ChargedParticle *a, ChargedParticle *b, const char *what) {
    PBT_CHECK(c, a->getNP() == b->getNP(), "%s: different trajectory lengths %d %d", what, a->getNP(), b->getNP());
    for (int i = 0; i < a->getNP(); i++)
        PBT_CHECK(c, a->TrajTime(i) == b->TrajTime(i) && samev(a->TrajPoint(i), b->TrajPoint(i)) && samev(a->TrajMomentum(i), b->TrajMomentum(i)) && samev(a->TrajAccel(i), b->TrajAccel(i)),
                  "%s: trajectories differ at point %d: x %s vs %s, p %s vs %s", what, i, sv(a->TrajPoint(i)).c_str(), sv(b->TrajPoint(i)).c_str(), sv(a->TrajMomentum(i)).c_str(), sv(b->TrajMomentum(i)).c_str());
    PBT_CHECK(c, a->getTime() == b->getTime() && samev(a->getPosition(), b->getPosition()) && samev(a->getMomentum(), b->getMomentum()) && samev(a->getAccel(), b->getAccel()), "%s: current state differs", what);
}

// a beam with any partition/order of bunches gives every particle the trajectory it has when tracked alone
PBT_TEST(particles_independent, 4) {
    int nb = 1 + c.upto(3);
    std::vector<std::vector<PDef>> defs(nb);
    int tot = 0;
    for (auto &b : defs) {
        int n = c.big(0, 5, 2000, 400);
        for (int i = 0; i < n; i++) b.push_back(gpart(c));
        tot += n;
    }
    std::unique_ptr<ModeField> f(gmodes(c, 1e11, 0.02));
    double dt = c.logreal(1e-14, 1e-11);
    int n = 1 + c.upto(25);
    c.note("bunches=%d particles=%d dt=%g steps=%d", nb, tot, dt, n);
    Beam beam;
    for (auto &b : defs) {
        Bunch *B = new Bunch();
        for (auto &d : b) B->Add(mk(d));
        beam.Add(B);
    }
    bool pre = c.coin();
    if (pre) beam.preAllocate(n + 1);
    beam.setTrackingMethod(TRACKING_VAY);
    beam.setTimeStep(dt);
    beam.setNOTS(n);
    beam.setupTracking(f.get());
    PBT_CHECK(c, beam.getNOTS() == 0, "step counter after setup is %d", beam.getNOTS());
    for (int i = 0; i < n; i++) {
        beam.doStep(f.get());
        PBT_CHECK(c, beam.getNOTS() == i + 1, "step counter %d after %d steps", beam.getNOTS(), i + 1);
    }
    PBT_CHECK(c, beam.getNOB() == nb && beam.getNOP() == tot, "counts %d bunches %d particles", beam.getNOB(), beam.getNOP());
    double qs = 0, qa = 1e-30;
    for (int b = 0; b < nb; b++) {
        double qb = 0;
        for (auto &d : defs[b]) {
            qb += d.q;
            qa += fabs(d.q);
        }
        PBT_CHECK(c, near(beam.getBunch(b)->getTotalCharge(), qb * cE, 1e-8 * qa * cE), "charge of bunch %d is %g, sum of its particles %g", b, beam.getBunch(b)->getTotalCharge(), qb * cE);
        qs += qb;
    }
    PBT_CHECK(c, near(beam.getTotalCharge(), qs * cE, 1e-8 * qa * cE), "total charge %g, sum over the particles %g", beam.getTotalCharge(), qs * cE);
    PBT_CHECK(c, beam.getTimeStep() == dt && beam.getTrackingMethod() == TRACKING_VAY, "settings lost");
    for (int b = 0; b < nb; b++) {
        Bunch *B = beam.getBunch(b);
        PBT_CHECK(c, B && B->getNOP() == (int)defs[b].size(), "bunch %d size", b);
        for (size_t i = 0; i < defs[b].size(); i++) {
            std::unique_ptr<ChargedParticle> P(mk(defs[b][i]));
            P->InitVay(dt, f.get());
            for (int k = 0; k < n; k++) P->StepVay(f.get());
            sameTraj(c, P.get(), B->getParticle(i), "beam vs single particle");
            PBT_CHECK(c, B->getParticle(i)->getNP() == n + 1, "trajectory length %d for %d steps", B->getParticle(i)->getNP(), n);
        }
        PBT_CHECK(c, B->getParticle(-1) == NULL && B->getParticle(defs[b].size()) == NULL, "out-of-range particle index returns a particle");
    }
    PBT_CHECK(c, beam.getBunch(-1) == NULL && beam.getBunch(nb) == NULL, "out-of-range bunch index returns a bunch");
    // a beam that is cleared is empty
    if (c.coin()) {
        beam.clearTrajectories();
        for (int b = 0; b < nb; b++)
            for (int i = 0; i < beam.getBunch(b)->getNOP(); i++) PBT_CHECK(c, beam.getBunch(b)->getParticle(i)->getNP() == 0, "trajectory survives clearing");
        beam.clear();
        PBT_CHECK(c, beam.getNOB() == 0 && beam.getNOP() == 0 && beam.getNOTS() == 0, "beam not empty after clear");
    }
    if (tot > 1) c.nontrivial();
}

// the flow of the main program: a beam is tracked in parts, the states are exchanged through the step buffers and
// collected in a master beam, which then holds the trajectories every particle has when tracked alone
PBT_TEST(distributed_tracking, 3) {
    int nb = 1 + c.upto(3);
    std::vector<std::vector<PDef>> defs(nb);
    std::vector<PDef> flat;
    for (auto &b : defs) {
        int n = c.upto(4);
        for (int i = 0; i < n; i++) {
            b.push_back(gpart(c));
            if (c.oneIn(3)) b.back().t0 = -fabs(b.back().t0);
            flat.push_back(b.back());
        }
    }
    int tot = flat.size();
    std::unique_ptr<ModeField> f(gmodes(c, 1e11, 0.02));
    double dt = c.logreal(1e-14, 1e-11);
    int n = c.upto(12), parts = 1 + c.upto(4);
    bool fresh = c.coin(), pre = c.coin();
    c.note("bunches=%d particles=%d parts=%d dt=%g steps=%d master %s", nb, tot, parts, dt, n, fresh ? "created empty" : "created with the particles");
    Beam src, master;
    for (auto &b : defs) {
        Bunch *B = new Bunch(), *M;
        for (auto &d : b) B->Add(mk(d));
        src.Add(B);
        if (fresh)
            M = new Bunch((int)b.size(), -1, 1);
        else
            M = new Bunch(B);
        master.Add(M);
    }
    master.clearTrajectories();
    if (pre) master.preAllocate(n + 1);
    PBT_CHECK(c, src.getStepBufferSize() == 10 * tot && master.getStepBufferSize() == 10 * tot, "step buffer size");
    std::vector<double> buf(10 * tot + 1, 777.0);
    src.bufferStep(buf.data());
    master.setStepFromBuffer(buf.data());
    master.setNOTS(0);
    // distribute
    int chunk = (tot + parts - 1) / parts;
    std::vector<std::unique_ptr<Beam>> node;
    int k = 0;
    for (int p = 0; p < parts; p++) {
        node.emplace_back(new Beam());
        Bunch *B = new Bunch();
        for (int i = 0; i < chunk && k < tot; i++, k++) {
            int b = 0, j = k;
            while (j >= (int)defs[b].size()) j -= defs[b++].size();
            B->Add(new ChargedParticle(src.getBunch(b)->getParticle(j)));
        }
        node[p]->Add(B);
        node[p]->setTrackingMethod(TRACKING_VAY);
        node[p]->setTimeStep(dt);
        node[p]->setupTracking(f.get());
    }
    auto collect = [&]() {
        int off = 0;
        for (auto &b : node) {
            b->bufferStep(buf.data() + 10 * off);
            off += b->getNOP();
        }
        PBT_CHECK(c, off == tot && buf[10 * tot] == 777.0, "step buffers do not fit");
        master.setStepFromBuffer(buf.data());
    };
    for (int i = 0; i < n; i++) {
        for (auto &b : node) b->doStep(f.get());
        collect();
        PBT_CHECK(c, master.getNOTS() == i + 1, "step counter of the collecting beam");
    }
    k = 0;
    for (int b = 0; b < nb; b++)
        for (size_t j = 0; j < defs[b].size(); j++, k++) {
            std::unique_ptr<ChargedParticle> P(mk(flat[k]));
            P->InitVay(dt, f.get());
            for (int i = 0; i < n; i++) P->StepVay(f.get());
            ChargedParticle *M = master.getBunch(b)->getParticle(j);
            PBT_CHECK(c, M->getNP() == n + 1, "collected trajectory has %d points after %d steps", M->getNP(), n);
            for (int i = 0; i <= n; i++)
                PBT_CHECK(c, M->TrajTime(i) == P->TrajTime(i) && samev(M->TrajPoint(i), P->TrajPoint(i)) && samev(M->TrajMomentum(i), P->TrajMomentum(i)) && (i == 0 || samev(M->TrajAccel(i), P->TrajAccel(i))), "collected trajectory of bunch %d particle %zu differs at point %d", b, j, i);
            PBT_CHECK(c, M->getTime() == P->getTime() && samev(M->getPosition(), P->getPosition()) && samev(M->getMomentum(), P->getMomentum()), "collected state differs");
        }
    if (tot > 1 && n > 0) c.nontrivial();
}

// a particle that is copied or moved through a trajectory buffer in the middle of tracking continues unchanged
PBT_TEST(moved_while_tracking, 2) {
    PDef a = gpart(c);
    std::unique_ptr<ModeField> f(gmodes(c, 1e11, 0.02));
    double dt = c.logreal(1e-14, 1e-11);
    int n1 = c.upto(8), n2 = 1 + c.upto(8);
    int how = c.upto(3);
    c.note("how=%d dt=%g n=%d+%d p=%s", how, dt, n1, n2, sv(a.p).c_str());
    std::unique_ptr<ChargedParticle> A(mk(a)), B(mk(a));
    A->InitVay(dt, f.get());
    B->InitVay(dt, f.get());
    for (int i = 0; i < n1; i++) {
        A->StepVay(f.get());
        B->StepVay(f.get());
    }
    std::unique_ptr<Bunch> hold, hold2;
    if (how == 0)
        B.reset(new ChargedParticle(B.get()));
    else if (how == 1) {
        std::vector<double> buf(B->TrajBufSize() + 1, 777.0);
        B->serializeTraj(buf.data());
        PBT_CHECK(c, buf.back() == 777.0, "trajectory buffer overrun");
        B.reset(new ChargedParticle(buf.data(), n1 + 1, c.coin() ? 0 : n1 + n2 + 1));
    } else {
        hold.reset(new Bunch());
        if (how == 3)
            for (int i = 0; i < 2; i++) hold->Add(mk(gpart(c)));
        hold->Add(new ChargedParticle(B.get()));
        hold2.reset(new Bunch(hold.get()));
        B.reset(new ChargedParticle(hold2->getParticle(how == 3 ? 2 : 0)));
    }
    for (int i = 0; i < n2; i++) {
        A->StepVay(f.get());
        B->StepVay(f.get());
    }
    sameTraj(c, A.get(), B.get(), "moved particle");
    PBT_CHECK(c, A->getCharge() == B->getCharge(), "charge");
    c.nontrivial();
}

// an equal charge-to-mass ratio gives the same trajectory (macro-particles)
PBT_TEST(macro_particle_scaling, 2) {
    PDef a = gpart(c), b = a;
    double k = ldexp(1.0, (int)c.range(-20, 30)); // exact scaling
    b.q *= k;
    b.m *= k;
    std::unique_ptr<ModeField> f(gmodes(c, 1e11, 0.02));
    double dt = c.logreal(1e-14, 1e-11);
    int n = 1 + c.upto(40);
    c.note("k=%g dt=%g n=%d p=%s", k, dt, n, sv(a.p).c_str());
    std::unique_ptr<ChargedParticle> A(mk(a)), B(mk(b));
    A->InitVay(dt, f.get());
    B->InitVay(dt, f.get());
    for (int i = 0; i < n; i++) {
        A->StepVay(f.get());
        B->StepVay(f.get());
    }
    for (int i = 0; i <= n; i++)
        PBT_CHECK(c, nearv(A->TrajPoint(i), B->TrajPoint(i), 1e-9) && nearv(A->TrajMomentum(i), B->TrajMomentum(i), 1e-9 * (1 + a.p.norm())), "scaling charge and mass together changes the trajectory at point %d", i);
    PBT_CHECK(c, near(B->getCharge(), k * A->getCharge(), 1e-12 * fabs(k * A->getCharge())) && near(A->getCharge(), a.q * cE, 1e-8 * fabs(a.q * cE)), "charge reported wrong: %g", A->getCharge());
    c.nontrivial();
}

// moving particle and lattice together in space and time moves the trajectory
PBT_TEST(translation_symmetry, 2) {
    PDef a = gpart(c);
    a.p = Vector(c.sym(0.05), c.sym(0.05), c.real(2, 60));
    a.x = Vector(c.sym(1e-3), c.sym(1e-3), -0.6);
    Vector d = gvec(c, 5.0);
    double dtime = c.sym(1e-8);
    PDef b = a;
    b.x = a.x + d;
    b.t0 = a.t0 + dtime;
    double Bp = c.real(0.05, 1.0), lam = c.real(0.02, 0.1);
    int N = 2 + c.upto(8);
    Lattice L1, L2;
    PlanarUndulator *u1 = new PlanarUndulator(Vector(0, 0, 0)), *u2 = new PlanarUndulator(d);
    u1->Setup(Bp, lam, N);
    u2->Setup(Bp, lam, N);
    L1.addElement(u1);
    L2.addElement(u2);
    Vector hb = gvec(c, 0.005);
    L1.addElement(new HomogeneousField(VectorZero, hb));
    L2.addElement(new HomogeneousField(VectorZero, hb));
    double gam = sqrt(1 + a.p.abs2nd());
    double dt = lam / cC / c.real(20, 60);
    int n = 10 + c.upto(150);
    c.note("shift %s / %g s, undulator B=%g lambda=%g N=%d, dt=%g steps=%d p=%s", sv(d).c_str(), dtime, Bp, lam, N, dt, n, sv(a.p).c_str());
    std::unique_ptr<ChargedParticle> A(mk(a)), B(mk(b));
    A->InitVay(dt, &L1);
    B->InitVay(dt, &L2);
    double pm = 1, am = 0;
    for (int i = 0; i < n; i++) {
        A->StepVay(&L1);
        B->StepVay(&L2);
    }
    for (int i = 0; i <= n; i++) {
        pm = std::max(pm, A->TrajMomentum(i).norm());
        am = std::max(am, A->TrajAccel(i).norm());
    }
    for (int i = 0; i <= n; i++) {
        if (fabs(A->TrajPoint(i).y) > 0.3 * lam || fabs(A->TrajPoint(i).x) > 1) break; // cosh(ky) field blows up far off axis
        PBT_CHECK(c, nearv(B->TrajPoint(i), A->TrajPoint(i) + d, 1e-9 * (1 + i)), "shifted set-up gives a different trajectory at %d: %s vs %s", i, sv(B->TrajPoint(i)).c_str(), sv(A->TrajPoint(i) + d).c_str());
        PBT_CHECK(c, nearv(B->TrajMomentum(i), A->TrajMomentum(i), 1e-9 * pm * (1 + i)), "shifted set-up gives different momenta at %d", i);
        PBT_CHECK(c, near(B->TrajTime(i), A->TrajTime(i) + dtime, 1e-19 * 1e3 + 1e-12 * fabs(dtime)), "time shift lost");
    }
    if (am > 0) c.nontrivial();
}

// rotating fields and start conditions rotates the trajectory; mirror image for B
PBT_TEST(rotation_symmetry, 2) {
    PDef a = gpart(c);
    std::unique_ptr<ModeField> f(gmodes(c, 1e11, 0.02)), g(new ModeField);
    Frame R = gframe(c);
    auto rot = [&](D3 v) { return D3(R.toLab(v.vec())); };
    g->E0 = rot(f->E0);
    g->B0 = rot(f->B0);
    for (auto m : f->modes) {
        m.E = rot(m.E);
        m.B = rot(m.B);
        m.k = rot(m.k);
        g->modes.push_back(m);
    }
    PDef b = a;
    b.x = R.toLab(a.x);
    b.p = R.toLab(a.p);
    double dt = c.logreal(1e-14, 3e-12);
    int n = 1 + c.upto(25);
    c.note("frame ex=%s ez=%s dt=%g n=%d", sv(R.ex).c_str(), sv(R.ez).c_str(), dt, n);
    std::unique_ptr<ChargedParticle> A(mk(a)), B(mk(b));
    A->InitVay(dt, f.get());
    B->InitVay(dt, g.get());
    double growth = 1, as = 0, pm = 1;
    for (int i = 1; i <= n; i++) {
        A->StepVay(f.get());
        B->StepVay(g.get());
        as = std::max(as, A->getAccel().norm());
        pm = std::max(pm, A->getMomentum().norm());
        growth *= 1.05 + std::min(1.0, as * dt);
        if (growth > 1e4) break;
        PBT_CHECK(c, nearv(B->getPosition(), R.toLab(A->getPosition()), 1e-10 * growth * (1 + i)), "rotated set-up: position differs at step %d", i);
        PBT_CHECK(c, nearv(B->getMomentum(), R.toLab(A->getMomentum()), 1e-10 * growth * (1 + i) * pm), "rotated set-up: momentum differs at step %d", i);
    }
    c.nontrivial();
}

// unsupported or missing tracking method is refused, not silently ignored
PBT_TEST(method_required, 1) {
    Beam beam;
    int n = c.upto(3);
    Bunch *B = new Bunch();
    for (int i = 0; i < n; i++) B->Add(mk(gpart(c)));
    beam.Add(B);
    HomogeneousField f(gvec(c, 1e5), gvec(c, 1));
    TrackingMethod m = c.coin() ? TRACKING_NONE : TRACKING_EULER;
    c.note("method %d with %d particles", (int)m, n);
    if (m != TRACKING_NONE || c.coin()) beam.setTrackingMethod(m);
    beam.setTimeStep(1e-12);
    int thrown = 0;
    try {
        beam.setupTracking(&f);
    } catch (std::exception &) {
        thrown++;
    }
    try {
        beam.doStep(&f);
    } catch (std::exception &) {
        thrown++;
    }
    PBT_CHECK(c, thrown == 2, "tracking without a supported method is accepted");
    c.nontrivial();
}

PBT_MAIN("a case counts when at least one particle (two for the independence test) is tracked through a non-zero field, or a refusal is exercised")
