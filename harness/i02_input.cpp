// I02: the objects created from an input file are the described ones
#include "simgen.h"
#include <unistd.h>

static std::string slurpf(const std::string &fn) {
    std::ifstream f(fn, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}
struct Doc {
    pugi::xml_document d;
    pugi::xml_node root;
    explicit Doc(Ctx &c, const std::string &xml) {
        c.note("%s", xml.c_str());
        auto r = d.load_string(xml.c_str());
        if (!r) throw pbt::Failure("harness: generated XML does not parse");
        root = d.child("teufel");
    }
};
// entries in a section with definitions and comments between them
static std::string section(SimGen &g, const char *tag, const std::vector<std::string> &v) {
    std::string s = std::string("<") + tag + ">";
    for (auto &x : v) s += x + (g.c.oneIn(5) ? "<calc var=\"unused\" eq=\"1+1\"/>" : "");
    return s + "</" + std::string(tag).substr(0, std::string(tag).find(' ')) + ">";
}
// far away from an element some fields overflow
static bool samen(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static bool samen(Vector a, Vector b) { return samen(a.x, b.x) && samen(a.y, b.y) && samen(a.z, b.z); }
PBT_TEST(lattice, 4) {
    SimGen g(c);
    int n = c.upto(5);
    std::vector<LatticeEl> el;
    std::vector<std::string> x;
    std::string w;
    for (int i = 0; i < n; i++) {
        el.push_back(gelement(g, c.oneIn(4)));
        x.push_back(el.back().xml);
        w += el.back().what + " ";
    }
    std::string sec = section(g, "lattice", x);
    Doc d(c, "<teufel>" + g.root + sec + "</teufel>");
    c.label(fmt("%d elements", n));
    for (auto &e : el) c.label(e.what);
    if (n >= 2) c.nontrivial();
    Quiet q;
    InputParser p(d.root);
    std::unique_ptr<Lattice> lat(new Lattice());
    int cnt = p.parseLattice(lat.get());
    PBT_CHECK(c, cnt == n && lat->count() == n, "%d elements reported, %d in the lattice, expected %d (%s)", cnt, lat->count(), n, w.c_str());
    std::vector<std::unique_ptr<GeneralField>> direct;
    for (auto &e : el) direct.emplace_back(e.make());
    int seen = 0;
    for (int k = 0; k < 4; k++) {
        Vector sumE(0, 0, 0), sumB(0, 0, 0);
        int j = n ? c.upto(n - 1) : 0;
        Vector X = n ? el[j].centre + gvec(c, el[j].size) : gvec(c, 1);
        double t = c.sym(3e-9);
        if (n && (el[j].what == "wave packet")) { // inside of the pulse
            for (int b = 0; b < 1; b++) t = c.sym(2e-9);
        }
        for (int i = 0; i < n; i++) {
            if (lat->at(i)->is_external() != direct[i]->is_external()) c.fail("element %d (%s) external", i, el[i].what.c_str());
            ElMagField a = lat->at(i)->Field(t, X), b = direct[i]->Field(t, X);
            bool same = samen(a.E(), b.E()) && samen(a.B(), b.B());
            PBT_CHECK(c, same, "element %d (%s) at t=%.9g X=%s: E=%s B=%s instead of E=%s B=%s", i, el[i].what.c_str(), t, sv(X).c_str(), sv(a.E()).c_str(), sv(a.B()).c_str(), sv(b.E()).c_str(), sv(b.B()).c_str());
            if (a.E().norm() + a.B().norm() > 0) seen++;
            if (!finite3(b.E()) || !finite3(b.B())) throw pbt::Discard();
            sumE = sumE + b.E();
            sumB = sumB + b.B();
        }
        ElMagField T = lat->Field(t, X);
        double se = 1e-12 * (1e3 + 1e8), sb = 1e-12 * 10;
        PBT_CHECK(c, nearv(T.E(), L3(sumE), se + 1e-9 * sumE.norm()) && nearv(T.B(), L3(sumB), sb + 1e-9 * sumB.norm()), "field of the lattice is not the sum of its elements");
    }
    if (seen) c.label("field seen");
    dropH5();
}
static void checkBunch(Ctx &c, int i, BunchDef &b, Bunch *bu) {
    PBT_CHECK(c, bu->getNOP() == b.n, "bunch %d (%s) has %d particles", i, b.what.c_str(), (int)bu->getNOP());
    if (b.kind == BunchDef::sdds) {
        Bunch ref(b.file.c_str(), b.dir.norm() > 0 ? (D3(b.dir).unit()).vec() : b.dir);
        for (auto &k : b.corr) ref.addCorrelation((int)k[0], (int)k[1], k[2]);
        for (int j = 0; j < b.n; j++) {
            ChargedParticle *p = bu->getParticle(j), *r = ref.getParticle(j);
            double ps = 1e-9 * (1 + r->getPosition().norm()), ms = 1e-9 * (1 + r->getMomentum().norm());
            PBT_CHECK(c, near(p->getTime(), r->getTime(), 1e-20) && nearv(p->getPosition(), L3(r->getPosition()), ps) && nearv(p->getMomentum(), L3(r->getMomentum()), ms) && rel(p->getCharge(), r->getCharge(), 1e-12),
                      "bunch %d (%s) particle %d: t=%.12g X=%s P=%s, read directly t=%.12g X=%s P=%s", i, b.what.c_str(), j, p->getTime(), sv(p->getPosition()).c_str(), sv(p->getMomentum()).c_str(), r->getTime(), sv(r->getPosition()).c_str(), sv(r->getMomentum()).c_str());
        }
        return;
    }
    // coordinates are (product of shears) * (independent coordinates)
    double bg = b.p.mom.norm();
    std::vector<std::array<double, 6>> base(b.n);
    for (int j = 0; j < b.n; j++) {
        ChargedParticle *p = bu->getParticle(j);
        PBT_CHECK(c, near(p->getTime(), b.p.t0, 1e-12 * fabs(b.p.t0)), "bunch %d particle %d starts at t=%.12g instead of %.12g", i, j, p->getTime(), b.p.t0);
        PBT_CHECK(c, rel(p->getCharge(), b.p.q * cE / b.n, 1e-11), "bunch %d particle %d has the charge %.12g C instead of %.12g/%d", i, j, p->getCharge(), b.p.q * cE, b.n);
        if (j == 0) { // the mass shows in the motion
            double rate = 0.1 / 1e-12 * cMec2 / (cC * cC) * fabs(b.p.m / b.p.q);
            HomogeneousField F(Vector(0.3, 0.2, -0.5) * (rate * cC), Vector(0.7, -0.2, 0.4) * rate);
            ChargedParticle a(p), r(b.p.q / b.n, b.p.m / b.n);
            a.clearTrajectory();
            a.initTrajectory(p->getTime(), p->getPosition(), p->getMomentum(), Vector(0, 0, 0));
            r.initTrajectory(p->getTime(), p->getPosition(), p->getMomentum(), Vector(0, 0, 0));
            for (auto z : {&a, &r}) {
                z->InitVay(1e-12, &F);
                for (int k = 0; k < 3; k++) z->StepVay(&F);
            }
            PBT_CHECK(c, nearv(a.getMomentum(), L3(r.getMomentum()), 1e-10 * (1 + bg)), "bunch %d (%s) moves like particles of other mass: P=%s instead of %s", i, b.what.c_str(), sv(a.getMomentum()).c_str(), sv(r.getMomentum()).c_str());
        }
        Vector X = p->getPosition() - b.p.pos, P = p->getMomentum() - b.p.mom;
        std::array<ld, 6> v{X.x, X.y, X.z, P.x, P.y, P.z}, e;
        // rounding of the stored coordinates, propagated backwards
        for (int k = 0; k < 3; k++) e[k] = 4e-16L * (1e-3 + fabs(b.p.pos.norm())) + 4e-16L * fabsl(v[k]);
        for (int k = 3; k < 6; k++) e[k] = 4e-15L * bg + 4e-16L * fabsl(v[k]);
        for (size_t k = b.corr.size(); k-- > 0;) {
            int in = (int)b.corr[k][0], dep = (int)b.corr[k][1];
            v[dep] -= b.corr[k][2] * v[in];
            e[dep] += fabs(b.corr[k][2]) * e[in] + 4e-16L * fabsl(v[in] * b.corr[k][2]);
        }
        for (int k = 0; k < 6; k++) {
            bool zero = b.rms[k] == 0 && !(k == 2 && b.zft != 0);
            if (zero) PBT_CHECK(c, fabsl(v[k]) <= 4 * e[k], "bunch %d (%s) particle %d coordinate %d has no spread but is off by %.6Lg (X=%s P=%s)", i, b.what.c_str(), j, k, v[k], sv(p->getPosition()).c_str(), sv(p->getMomentum()).c_str());
            if (k == 2 && b.zft != 0) PBT_CHECK(c, fabsl(v[k]) <= fabs(b.zft) * (1 + 1e-12) + 4 * e[k], "bunch %d particle %d: z off by %.6Lg exceeds the flat-top %g", i, j, v[k], b.zft);
            if (!zero && !(k == 2 && b.zft != 0)) PBT_CHECK(c, fabsl(v[k]) <= 12 * b.rms[k] + 4 * e[k], "bunch %d (%s) particle %d coordinate %d is off by %.6Lg with an rms of %g", i, b.what.c_str(), j, k, v[k], b.rms[k]);
            base[j][k] = (double)v[k];
        }
    }
    if (b.n >= 500) {
        for (int k = 0; k < 6; k++) {
            double s = b.rms[k];
            if (k == 2 && b.zft != 0) s = fabs(b.zft) / sqrt(3.0);
            if (s == 0) continue;
            double m = 0, q = 0;
            for (auto &v : base) m += v[k] / b.n;
            for (auto &v : base) q += (v[k] - m) * (v[k] - m) / b.n;
            PBT_CHECK(c, fabs(m) < 8 * s / sqrt(b.n), "bunch %d (%s) coordinate %d is off-centre by %g (rms %g)", i, b.what.c_str(), k, m, s);
            PBT_CHECK(c, fabs(sqrt(q) / s - 1) < 8 / sqrt(2.0 * b.n), "bunch %d (%s) coordinate %d has the rms %g instead of %g", i, b.what.c_str(), k, sqrt(q), s);
            for (int l = 0; l < k; l++) { // independent of each other
                double sl = b.rms[l];
                if (l == 2 && b.zft != 0) sl = fabs(b.zft) / sqrt(3.0);
                if (sl == 0) continue;
                double x = 0;
                for (auto &v : base) x += v[k] * v[l] / b.n;
                PBT_CHECK(c, fabs(x) < 9 * s * sl / sqrt(b.n), "bunch %d (%s) coordinates %d and %d are correlated by %g (beyond the requested correlations)", i, b.what.c_str(), k, l, x / s / sl);
            }
        }
        c.label("large bunch");
    }
}
PBT_TEST(beam, 4) {
    SimGen g(c);
    int n = c.upto(4);
    std::vector<BunchDef> def;
    std::vector<std::string> x;
    bool big = c.oneIn(12);
    for (int i = 0; i < n; i++) {
        def.push_back(gbunchdef(g, i, -1, big ? 1500 : 6, true));
        x.push_back(def.back().xml);
        c.label(def.back().kind == BunchDef::single ? "particle" : def.back().kind == BunchDef::bunch ? "bunch" : "SDDS");
        if (!def.back().corr.empty()) c.label("correlations");
    }
    // probe
    bool probe = c.coin();
    int ps = 1, pn = 1;
    std::string px = "<probe file=\"probe.h5\"";
    if (c.coin()) px += fmt(" step=\"%d\"", ps = c.range(1, 9));
    if (c.coin()) px += fmt(" number=\"%d\"", pn = c.range(1, 9));
    px += "/>";
    if (probe) x.insert(x.begin() + c.upto(x.size()), px);
    std::string sec = section(g, "beam", x);
    Doc d(c, "<teufel>" + g.root + sec + "</teufel>");
    if (n >= 2) c.nontrivial();
    Quiet q;
    InputParser p(d.root);
    std::unique_ptr<Beam> beam(new Beam());
    std::vector<Logger *> logs;
    ProbeInfo pi{false, 0, "", 0, 0};
    int cnt = p.parseBeam(beam.get(), &logs, &pi);
    PBT_CHECK(c, cnt == n && (int)beam->getNOB() == n, "%d bunches reported, %d in the beam, expected %d", cnt, (int)beam->getNOB(), n);
    PBT_CHECK(c, pi.requested == probe, "probe requested %d", (int)pi.requested);
    if (probe) PBT_CHECK(c, std::string(pi.filename) == "probe.h5" && (int)pi.step == ps && (int)pi.number == pn, "probe %s step %u number %u", pi.filename, pi.step, pi.number);
    int nop = 0;
    for (int i = 0; i < n; i++) {
        checkBunch(c, i, def[i], beam->getBunch(i));
        nop += def[i].n;
    }
    PBT_CHECK(c, (int)beam->getNOP() == nop, "%d particles in the beam instead of %d", (int)beam->getNOP(), nop);
    // loggers in the order of the entries, each belonging to its bunch
    size_t k = 0;
    std::vector<std::unique_ptr<Logger>> own;
    for (auto l : logs) own.emplace_back(l);
    Lattice lat;
    lat.addElement(new HomogeneousField(Vector(0, 0, 0), Vector(0, 0.1, 0)));
    beam->setTimeStep(1e-12);
    beam->setTrackingMethod(TRACKING_VAY);
    struct LogChk {
        Logger *l;
        std::unique_ptr<Logger> ref;
        std::string fn, rf;
        int step;
        bool h5;
    };
    std::vector<LogChk> lc;
    for (int i = 0; i < n; i++) {
        BunchDef &b = def[i];
        for (int t = 0; t < 2; t++) {
            if ((t ? b.trajFile : b.logFile).empty()) continue;
            PBT_CHECK(c, k < logs.size(), "logger %zu is missing", k);
            LogChk e;
            e.l = logs[k++];
            e.fn = t ? b.trajFile : b.logFile;
            e.rf = "ref_" + e.fn;
            e.step = t ? b.trajStep : b.logStep;
            e.h5 = t;
            lc.push_back(std::move(e));
        }
    }
    PBT_CHECK(c, k == logs.size(), "%zu loggers instead of %zu", logs.size(), k);
    k = 0;
    for (int i = 0; i < n; i++) {
        BunchDef &b = def[i];
        if (!b.logFile.empty()) {
            auto r = new ParameterLogger<Bunch>(beam->getBunch(i), lc[k].rf.c_str(), b.logStep);
            if (b.freq != 0) r->record_bunching(b.freq);
            lc[k++].ref.reset(r);
        }
        if (!b.trajFile.empty()) lc[k].ref.reset(new TrajectoryLogger<Bunch>(beam->getBunch(i), lc[k].rf.c_str(), b.trajStep, b.trajN)), k++;
    }
    if (n && !lc.empty()) {
        c.label("loggers");
        beam->setupTracking(&lat);
        for (int s = 0; s <= 12; s++) {
            for (auto &e : lc) {
                bool w = s % e.step == 0;
                PBT_CHECK(c, e.l->log_requested(s) == w, "logger %s with step %d: step %d requested %d", e.fn.c_str(), e.step, s, (int)e.l->log_requested(s));
                if (w) {
                    e.l->update();
                    e.ref->update();
                }
            }
            beam->doStep(&lat);
        }
        for (auto &e : lc) {
            e.l->WriteData();
            e.ref->WriteData();
            if (e.h5) {
                std::string why;
                PBT_CHECK(c, sameH5(e.fn, e.rf, 0, why), "%s: %s", e.fn.c_str(), why.c_str());
            } else {
                std::string a = slurpf(e.fn), r = slurpf(e.rf);
                PBT_CHECK(c, !a.empty() && a == r, "%s differs from a log of this bunch with the requested properties (%zu, %zu bytes)", e.fn.c_str(), a.size(), r.size());
            }
        }
    }
    dropH5();
}
PBT_TEST(tracking, 2) {
    SimGen g(c);
    double dt = c.logreal(1e-15, 1e-9);
    std::string a = g.att("delta_t", dt);
    g.root += g.local;
    g.local.clear();
    int n = c.range(0, 100000);
    std::string ns;
    switch (c.upto(2)) {
    case 0: ns = std::to_string(n); break;
    case 1: ns = fmt("%d+%.3f", n, c.real(-0.49, 0.49)); break;
    default: ns = fmt("%d/10+%d", 10 * n, 0); break;
    }
    struct W {
        int step;
        std::string fn;
        bool h5;
    };
    std::vector<W> w;
    std::vector<std::string> x;
    int nw = c.upto(4);
    for (int i = 0; i < nw; i++) {
        W q{(int)c.range(0, 1000), fmt("watch%d", i), c.coin()};
        w.push_back(q);
        std::string st = c.coin() ? std::to_string(q.step) : fmt("%d.0*0.5", 2 * q.step);
        x.push_back(fmt("<watch%s step=\"%s\" file=\"%s\"/>", q.h5 ? "" : "-sdds", st.c_str(), q.fn.c_str()));
    }
    int nf = c.upto(1), felN = c.range(2, 12);
    double fz = c.sym(1), E0 = c.sym(1e6);
    Vector pos(c.sym(1), c.sym(1), fz);
    Frame f = gframe(c);
    Vector pol = f.ex + f.ez * c.sym(0.5);
    double lam = cC * dt * 4;
    if (nf) {
        Vector prop = f.ez * c.logreal(0.5, 2);
        std::string s1 = g.vec("position", pos), s2 = g.vec("prop", prop), s3 = g.vec("pol", pol);
        std::string sd = "<seed" + g.att("E0", E0) + g.att("lambda", lam) + fmt(" tau=\"%.17g\" tstart=\"%.17g\"/>", dt * 3, dt * 2);
        x.push_back(fmt("<fel1d N=\"%d\">", felN) + g.children({s1, s2, s3, "<mode zR=\"1\" w0=\"1e-3\" zwaist=\"1\"/>", sd}) + "</fel1d>");
        f.ez = prop;
    }
    std::string sec = section(g, ("tracking method=\"Vay\"" + a + " n=\"" + ns + "\"").c_str(), x);
    Doc d(c, "<teufel>" + g.root + sec + "</teufel>");
    if (nw + nf) c.nontrivial();
    Quiet q;
    InputParser p(d.root);
    Beam beam;
    std::vector<watch_t> watches;
    std::list<InteractionField *> inter;
    p.parseTracking(&beam, &watches, &inter);
    PBT_CHECK(c, beam.getTimeStep() == dt, "time step %.17g instead of %.17g", beam.getTimeStep(), dt);
    PBT_CHECK(c, (int)beam.getNOTS() == n, "%d time steps instead of %d", (int)beam.getNOTS(), n);
    PBT_CHECK(c, beam.getTrackingMethod() == TRACKING_VAY, "tracking method");
    PBT_CHECK(c, watches.size() == w.size(), "%zu watch points instead of %zu", watches.size(), w.size());
    for (size_t i = 0; i < w.size(); i++)
        PBT_CHECK(c, watches[i].step == w[i].step && watches[i].filename == w[i].fn && (watches[i].type == hdf5) == w[i].h5, "watch point %zu: step %d file %s", i, watches[i].step, watches[i].filename.c_str());
    PBT_CHECK(c, (int)inter.size() == nf, "%zu interactions", inter.size());
    if (nf) {
        c.label("fel1d");
        D3 e = (D3(pol) - D3(f.ez).unit() * D3(pol).dot(D3(f.ez).unit())).unit(), b = D3(f.ez).unit().cross(e);
        for (int i = 0; i < felN; i++) {
            double t = i * dt - 2 * dt, A = E0 * cos(2 * cPi * cC / lam * t) * exp(-0.5 * t * t / (9 * dt * dt));
            ElMagField F = inter.front()->Field(0, (D3(pos) - D3(f.ez).unit() * (i * cC * dt)).vec());
            PBT_CHECK(c, nearv(F.E(), e * A, 1e-7 * fabs(E0)) && nearv(F.B(), b * (A / cC), 1e-7 * fabs(E0) / cC), "cell %d of the field: E=%s B=%s, expected %s", i, sv(F.E()).c_str(), sv(F.B()).c_str(), sv(e * A).c_str());
        }
        // the grid ends there
        bool thrown = false;
        try {
            inter.front()->Field(0, (D3(pos) - D3(f.ez).unit() * (felN * cC * dt)).vec());
        } catch (IOexception &) { thrown = true; }
        PBT_CHECK(c, thrown, "the field has more than %d cells", felN);
    }
    for (auto i : inter) delete i;
}
PBT_TEST(observers, 3) {
    SimGen g(c);
    int n = c.range(1, 4);
    double L = 0.5, T = L / cC;
    // a source
    std::unique_ptr<Beam> beam(new Beam());
    Bunch *b = new Bunch();
    ChargedParticle *p = new ChargedParticle(-1e6, 1e6);
    p->initTrajectory(0, Vector(0, 0, 0), Vector(0, 0.1, 2), Vector(0, 0, 0));
    b->Add(p);
    beam->Add(b);
    std::unique_ptr<Lattice> lat(new Lattice());
    auto w = new GaussianWave(0.0, Vector(0, 0, 0));
    w->Setup(0.1, std::complex<double>(1e4, 2e3), 1.0);
    lat->addElement(w);
    lat->addElement(new HomogeneousField(Vector(10, 20, 30), Vector(0.01, 0.02, 0.03)));
    beam->setTimeStep(T / 20);
    beam->setTrackingMethod(TRACKING_VAY);
    std::vector<ObsDef> def;
    std::vector<std::string> x;
    for (int i = 0; i < n; i++) {
        def.push_back(gobserver(g, i, Vector(0.05, 0.1, 1.0), L, 4 * T, 3 * T));
        x.push_back(def.back().xml);
        c.label(def.back().what);
    }
    std::string sec = section(g, "observer", x);
    Doc d(c, "<teufel>" + g.root + sec + "</teufel>");
    c.nontrivial();
    Quiet q;
    beam->setupTracking(lat.get());
    for (int i = 0; i < 100; i++) beam->doStep(lat.get());
    InputParser pr(d.root);
    std::vector<BaseObserver *> obs;
    pr.parseObservers(&obs);
    std::vector<std::unique_ptr<BaseObserver>> own;
    for (auto o : obs) own.emplace_back(o);
    PBT_CHECK(c, (int)obs.size() == n, "%zu observers instead of %d", obs.size(), n);
    double maxf = 0;
    for (int i = 0; i < n; i++) {
        ObsDef &o = def[i];
        std::string rf = "ref_" + o.file;
        std::unique_ptr<BaseObserver> ref(o.make(rf));
        PBT_CHECK(c, obs[i]->getSourceType() == (o.lattice ? LatticeObservation : BeamObservation), "observer %d (%s) has the other source type", i, o.what.c_str());
        for (BaseObserver *z : {obs[i], ref.get()}) {
            if (o.lattice) {
                auto y = dynamic_cast<Observer<Lattice> *>(z);
                PBT_CHECK(c, y != nullptr, "observer %d (%s) is no observer of the lattice", i, o.what.c_str());
                y->setSource(lat.get());
            } else {
                auto y = dynamic_cast<Observer<Beam> *>(z);
                PBT_CHECK(c, y != nullptr, "observer %d (%s) is no observer of the beam", i, o.what.c_str());
                y->setSource(beam.get());
            }
            z->integrate();
            if (auto s = dynamic_cast<SnapshotObserver<Beam> *>(z)) s->storeParticlePositions();
            z->generateOutput();
        }
        PBT_CHECK(c, obs[i]->getBufferSize() == ref->getBufferSize(), "observer %d (%s) holds %zu numbers instead of %zu", i, o.what.c_str(), obs[i]->getBufferSize(), ref->getBufferSize());
        std::unique_ptr<double[]> buf(ref->getBuffer());
        for (size_t k = 0; k < ref->getBufferSize(); k++) maxf = std::max(maxf, fabs(buf[k]));
        std::string why;
        bool same = o.kind == 0 ? sameSDDS(o.file, rf, 0, why) : sameH5(o.file, rf, 0, why);
        PBT_CHECK(c, same, "observer %d (%s): %s", i, o.what.c_str(), why.c_str());
    }
    if (maxf > 0) c.label("field seen");
    dropH5();
}
PBT_MAIN("lattice, beam: at least two entries; tracking: at least one watch point or interaction; observers: all cases")
