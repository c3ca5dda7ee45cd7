// O01: parameter, trajectory and probe logs
#include "files.h"
#include "logger.h"

struct World {
    std::unique_ptr<Beam> beam;
    std::unique_ptr<ModeField> f;
    std::vector<Bunch *> b;
};
static World gworld(Ctx &c, bool empties) {
    World w;
    w.beam.reset(new Beam());
    int nb = c.range(1, 3);
    for (int i = 0; i < nb; i++) {
        Bunch *b = new Bunch();
        int n = c.big(empties && i ? 0 : 1, 6, 1500, 300);
        Vector x0 = gvec(c, 1), p0 = gmom(c, 0.2, 300);
        double sx = c.logreal(1e-6, 1e-2), sp = c.logreal(1e-5, 0.1), t0 = c.coin() ? c.sym(1e-9) : 0.0;
        for (int j = 0; j < n; j++) {
            double q = c.symlog(0.1, 1e9);
            ChargedParticle *p = new ChargedParticle(q, fabs(q));
            p->initTrajectory(t0, x0 + gvec(c, sx), p0 + gvec(c, sp * p0.norm()), Vector());
            b->Add(p);
        }
        w.beam->Add(b);
        w.b.push_back(b);
    }
    w.f.reset(gmodes(c, 1e10, 0.1, 2));
    w.beam->setTimeStep(c.logreal(1e-14, 1e-12));
    w.beam->setTrackingMethod(TRACKING_VAY);
    w.beam->setupTracking(w.f.get());
    return w;
}
struct PRow {
    double t, g, d, bf;
    Vector x, p, s;
};
// independent evaluation of the bunch parameters
static PRow params(Bunch *b, double freq) {
    int n = b->getNOP();
    ld t = 0, g = 0, pn = 0, g2 = 0;
    L3 x, p, x2;
    std::complex<ld> bf = 0;
    for (int i = 0; i < n; i++) {
        ChargedParticle *q = b->getParticle(i);
        L3 X(q->getPosition()), P(q->getMomentum());
        t += q->getTime();
        x = x + X;
        p = p + P;
        g += sqrtl(1 + P.abs2());
        pn += P.norm();
    }
    t /= n, g /= n, pn /= n, x = x / n, p = p / n;
    for (int i = 0; i < n; i++) {
        ChargedParticle *q = b->getParticle(i);
        L3 X(q->getPosition()), P(q->getMomentum());
        L3 d = X - x;
        x2 = x2 + L3(d.x * d.x, d.y * d.y, d.z * d.z);
        ld e = P.norm() - pn;
        g2 += e * e;
        ld ph = 2 * (ld)cPi * freq * X.z / (ld)cC;
        bf += std::complex<ld>(cosl(ph), sinl(ph));
    }
    PRow r;
    r.t = t;
    r.x = x.vec();
    r.p = p.vec();
    r.s = Vector(sqrtl(x2.x / n), sqrtl(x2.y / n), sqrtl(x2.z / n));
    r.g = g;
    r.d = sqrtl(g2 / n) / pn;
    r.bf = std::abs(bf) / n;
    return r;
}
static const std::vector<const char *> COLS = {"t", "x_av", "y_av", "z_av", "bgx_av", "bgy_av", "bgz_av", "gamma", "delta", "x_rms", "y_rms", "z_rms", "BF"};

PBT_TEST(logs, 1) {
    World w = gworld(c, false);
    int fd0 = openfds();
    int nsteps = c.big(0, 30, 2000, 300);
    struct PL {
        Bunch *b;
        int step;
        double freq;
        std::string fn;
        std::unique_ptr<ParameterLogger<Bunch>> l;
        std::vector<PRow> rows;
    };
    struct TL {
        Bunch *b;
        unsigned step, nop;
        std::string fn;
        std::unique_ptr<TrajectoryLogger<Bunch>> l;
        std::vector<double> v;
        int nots = 0;
    };
    std::vector<PL> pls(c.range(0, 3));
    std::vector<TL> tls(c.range(0, 2));
    int k = 0;
    for (auto &p : pls) {
        p.b = w.b[c.upto(w.b.size() - 1)];
        p.step = c.pick({1, 2, 3, 7, 100});
        p.freq = c.coin() ? c.logreal(1e9, 1e13) : 0;
        p.fn = fmt("p%d.sdds", k++);
        p.l.reset(new ParameterLogger<Bunch>(p.b, p.fn.c_str(), p.step));
        if (p.freq > 0) p.l->record_bunching(p.freq);
    }
    for (auto &p : tls) {
        p.b = w.b[c.upto(w.b.size() - 1)];
        p.step = c.pick({1, 2, 3, 7, 100});
        unsigned lim = c.pick({1, 2, 3, 1000});
        p.nop = std::min<unsigned>(lim, p.b->getNOP());
        p.fn = fmt("t%d.h5", k++);
        p.l.reset(new TrajectoryLogger<Bunch>(p.b, p.fn.c_str(), p.step, lim));
    }
    bool haveprobe = c.coin();
    unsigned pstep = c.pick({1, 2, 5}), plim = c.pick({1, 2, 4, 1000}), pnop = std::min<unsigned>(plim, w.beam->getNOP());
    std::unique_ptr<ProbeLogger<Beam>> pl;
    if (haveprobe) pl.reset(new ProbeLogger<Beam>(w.beam.get(), "probe.h5", pstep, plim));
    std::vector<double> pv;
    int pn = 0;
    c.note("bunches=%zu particles=%d steps=%d parameter logs=%zu trajectory logs=%zu probe=%d", w.b.size(), w.beam->getNOP(), nsteps, pls.size(), tls.size(), haveprobe);
    bool manual = c.oneIn(3);
    bool early = c.oneIn(5); // write in between, then continue
    for (int s = 0; s <= nsteps; s++) {
        if (s && !manual) w.beam->doStep(w.f.get());
        if (s && manual) // single particles move, others stay
            for (auto b : w.b)
                for (int i = 0; i < b->getNOP(); i++)
                    if (c.oneIn(3)) {
                        ChargedParticle *p = b->getParticle(i);
                        bool x = c.coin(), m = !x || c.coin();
                        p->setCurrentPoint(p->getTime() + 1e-12 * s, x ? gvec(c, 1) : p->getPosition(), m ? gmom(c, 0.2, 300) : p->getMomentum(), Vector());
                    }
        for (auto &p : pls) {
            bool want = s % p.step == 0;
            PBT_CHECK(c, p.l->log_requested(s) == want, "log requested at step %d with interval %d: %d", s, p.step, !want);
            if (want) {
                p.rows.push_back(params(p.b, p.freq));
                p.l->update();
            }
        }
        for (auto &p : tls) {
            bool want = s % p.step == 0;
            PBT_CHECK(c, p.l->log_requested(s) == want, "log requested at step %d with interval %u: %d", s, p.step, !want);
            if (want) {
                for (unsigned i = 0; i < p.nop; i++) {
                    Vector X = p.b->getParticle(i)->getPosition(), P = p.b->getParticle(i)->getMomentum();
                    for (double v : {X.x, X.y, X.z, P.x, P.y, P.z}) p.v.push_back(v);
                }
                p.nots++;
                p.l->update();
            }
        }
        if (pl) {
            bool want = s % pstep == 0;
            PBT_CHECK(c, pl->log_requested(s) == want, "probe requested at step %d with interval %u: %d", s, pstep, !want);
            if (want) {
                unsigned cnt = 0;
                for (int j = 0; cnt < pnop; j++)
                    for (auto b : w.b)
                        if (j < b->getNOP() && cnt < pnop) {
                            double tmp[32];
                            b->getParticle(j)->bufferProbe(tmp);
                            pv.insert(pv.end(), tmp, tmp + 16);
                            cnt++;
                        }
                pn++;
                pl->update();
            }
        }
        if (early && s == nsteps / 2) {
            for (auto &p : pls) p.l->WriteData();
            for (auto &p : tls) p.l->WriteData();
            if (pl) pl->WriteData();
        }
    }
    for (auto &p : pls) {
        int r = p.l->WriteData();
        PBT_CHECK(c, r == 0, "parameter log returned %d", r);
        std::map<std::string, std::vector<double>> col;
        std::map<std::string, double> par;
        std::vector<const char *> pn = {"NumberTimeSteps", "NumberParticles", "TotalCharge"};
        if (p.freq > 0) pn.push_back("BunchingFrequency");
        bool ok = readSDDS(p.fn, col, par, COLS, pn);
        unlink(p.fn.c_str());
        PBT_CHECK(c, ok, "parameter log cannot be read back");
        PBT_CHECK(c, par["NumberTimeSteps"] == p.rows.size() && par["NumberParticles"] == p.b->getNOP(), "header of the parameter log: %g steps %g particles, expected %zu and %d", par["NumberTimeSteps"], par["NumberParticles"], p.rows.size(), p.b->getNOP());
        PBT_CHECK(c, rel(par["TotalCharge"], p.b->getTotalCharge(), 1e-13), "total charge in the header");
        if (p.freq > 0) PBT_CHECK(c, rel(par["BunchingFrequency"], p.freq, 1e-13), "bunching frequency in the header");
        for (auto &q : col) PBT_CHECK(c, q.second.size() == p.rows.size(), "column %s has %zu rows, expected %zu", q.first.c_str(), q.second.size(), p.rows.size());
        for (size_t i = 0; i < p.rows.size(); i++) {
            PRow &e = p.rows[i];
            double sx = 1e-12 * (e.x.norm() + 1e-9), sp = 1e-12 * e.p.norm();
            auto chk = [&](const char *k, double ref, double tol) { PBT_CHECK(c, near(col[k][i], ref, tol + 1e-13 * fabs(ref)), "row %zu column %s is %.12g expected %.12g", i, k, col[k][i], ref); };
            chk("t", e.t, 1e-13 * fabs(e.t) + 1e-25);
            chk("x_av", e.x.x, sx), chk("y_av", e.x.y, sx), chk("z_av", e.x.z, sx);
            chk("bgx_av", e.p.x, sp), chk("bgy_av", e.p.y, sp), chk("bgz_av", e.p.z, sp);
            chk("gamma", e.g, 1e-12 * e.g);
            // central moments lose precision relative to the offset (possible one-pass evaluation)
            double es = 1e-7 * (e.x.norm() + 1e-9);
            auto rms = [&](const char *k, double ref, double off) { chk(k, ref, std::min(es, 1e-14 * off * off / std::max(ref, 1e-30) + 1e-12 * ref)); };
            rms("x_rms", e.s.x, e.x.norm()), rms("y_rms", e.s.y, e.x.norm()), rms("z_rms", e.s.z, e.x.norm());
            chk("delta", e.d, std::min(1e-7, 1e-13 / std::max(e.d, 1e-30)));
            double ph = 2 * cPi * p.freq * (e.x.norm() + 1) / cC;
            chk("BF", p.freq > 0 ? e.bf : 0.0, 1e-14 * ph + 1e-12);
        }
    }
    for (auto &p : tls) {
        PBT_CHECK(c, p.l->WriteData() == 0, "trajectory log returned an error");
        PBT_CHECK(c, openfds() <= fd0, "output file is still open after writing");
        auto h = readH5(p.fn);
        unlink(p.fn.c_str());
        DSet &d = h["Trajectories"];
        PBT_CHECK(c, d.ok && d.dims == (std::vector<size_t>{(size_t)p.nots, p.nop, 6}), "trajectory data set missing or of wrong size (expected %d steps, %u particles)", p.nots, p.nop);
        PBT_CHECK(c, d.att["NOTS"] == p.nots && d.att["NOP"] == p.nop, "attributes NOTS=%g NOP=%g, expected %d and %u", d.att["NOTS"], d.att["NOP"], p.nots, p.nop);
        for (size_t i = 0; i < p.v.size(); i++) PBT_CHECK(c, d.v[i] == p.v[i], "time step %zu particle %zu coordinate %zu: %.12g, tracked value %.12g", i / 6 / p.nop, i / 6 % p.nop, i % 6, d.v[i], p.v[i]);
    }
    if (pl) {
        PBT_CHECK(c, pl->WriteData() == 0, "probe log returned an error");
        PBT_CHECK(c, openfds() <= fd0, "output file is still open after writing");
        auto h = readH5("probe.h5");
        unlink("probe.h5");
        DSet &d = h["Probe"];
        PBT_CHECK(c, d.ok && d.dims == (std::vector<size_t>{(size_t)pn, pnop, 16}), "probe data set missing or of wrong size (expected %d steps, %u particles)", pn, pnop);
        PBT_CHECK(c, d.att["NOTS"] == pn && d.att["NOP"] == pnop && d.att["NOD"] == 16, "attributes NOTS=%g NOP=%g NOD=%g, expected %d and %u", d.att["NOTS"], d.att["NOP"], d.att["NOD"], pn, pnop);
        for (size_t i = 0; i < pv.size(); i++) PBT_CHECK(c, d.v[i] == pv[i] || (std::isnan(d.v[i]) && std::isnan(pv[i])), "probe value %zu differs", i);
    }
    if (nsteps > 0 && (pls.size() + tls.size() + haveprobe) > 1) c.nontrivial();
    if (pls.size()) c.label("parameter");
    if (tls.size()) c.label("trajectory");
    if (pl) c.label("probe");
    if (early) c.label("written twice");
}
static struct Init {
    Init() { pbt::processInit() = quietH5; }
} init_;
PBT_MAIN("beams of up to three tracked bunches with several concurrent parameter, trajectory and probe loggers of different intervals and particle limits; every logged value is compared with an independent evaluation of the "
         "particle coordinates at that step and read back from the written file; non-trivial: at least one step and two loggers")
