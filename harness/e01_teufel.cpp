// E01: complete runs of the teufel program, any number of processes and threads, against the serial composition of the library
#include "simcase.h"

static RunResult runTeufel(Case &k, const std::vector<std::string> &args = {"input.xml"}) {
    std::vector<std::string> a;
    if (k.ranks > 1) {
        a = {"mpirun", "--oversubscribe", "--bind-to", "none", "--mca", "btl_vader_single_copy_mechanism", "none", "--mca", "btl_base_warn_component_unused", "0", "-n", std::to_string(k.ranks)};
    }
    a.push_back(toolPath("VERIF_TOOL_TEUFEL"));
    a.insert(a.end(), args.begin(), args.end());
    return runTool(a, k.threads, 120, "../tool.log");
}
static const std::vector<const char *> LOGC = {"t", "x_av", "y_av", "z_av", "bgx_av", "bgy_av", "bgz_av", "gamma", "delta", "x_rms", "y_rms", "z_rms", "BF"};
static const std::vector<const char *> WATC = {"t", "x", "y", "z", "px", "py", "pz", "p", "xp", "yp", "gamma"};
static bool sameCols(const std::string &a, const std::string &b, const std::vector<const char *> &cols, const std::vector<const char *> &pars, double tol, std::string &why) {
    std::map<std::string, std::vector<double>> ca, cb;
    std::map<std::string, double> pa, pb;
    if (!readSDDS(a, ca, pa, cols, pars)) {
        why = "unreadable file " + a;
        return false;
    }
    if (!readSDDS(b, cb, pb, cols, pars)) {
        why = "harness: no reference " + b;
        return false;
    }
    for (auto p : pars)
        if (!rel(pa[p], pb[p], 1e-12)) {
            why = fmt("parameter %s is %.12g instead of %.12g", p, pa[p], pb[p]);
            return false;
        }
    for (auto k : cols) {
        auto &x = ca[k], &y = cb[k];
        if (x.size() != y.size()) {
            why = fmt("%zu rows instead of %zu", x.size(), y.size());
            return false;
        }
        double sc = 0;
        for (double v : y)
            if (std::isfinite(v)) sc = std::max(sc, fabs(v));
        bool bg = k[0] == 'b' || k[0] == 'p';
        if (bg) sc = std::max(sc, 1.0);
        if (std::string(k).find("_av") != std::string::npos || std::string(k).find("_rms") != std::string::npos) sc = std::max(sc, bg ? 1.0 : 1e-3);
        if (std::string(k) == "delta" || std::string(k) == "BF") sc = 1;
        for (size_t i = 0; i < x.size(); i++)
            if (!(x[i] == y[i] || near(x[i], y[i], tol * sc) || (std::isnan(x[i]) && std::isnan(y[i])))) {
                why = fmt("%s row %zu is %.12g instead of %.12g", k, i, x[i], y[i]);
                return false;
            }
    }
    return true;
}
static void runcase(Ctx &c, Case &k, std::function<void()> prep) {
    c.note("%d processes, %d threads: %s", k.ranks, k.threads, k.xml.c_str());
    spew("in/input.xml", k.xml);
    clean("run"), clean("ref");
    copyAll("in", "run"), copyAll("in", "ref");
    // reference: serial composition of the library
    std::set<std::string> expected;
    bool refused = false;
    std::string why;
    RunResult r;
    {
        Chdir d("run");
        r = runTeufel(k);
    }
    Chdir d("ref");
    pugi::xml_document doc;
    doc.load_file("input.xml");
    pugi::xml_node root = doc.child("teufel");
    Quiet q;
    Beam *beam = new Beam();
    Lattice *lat = new Lattice(), *obslat = new Lattice();
    std::vector<Logger *> logs;
    ProbeInfo pi{false, 0, "", 0, 0};
    std::vector<watch_t> watches;
    std::list<InteractionField *> inter;
    std::vector<BaseObserver *> obs;
    try {
        {
            InputParser p2(root);
            p2.parseLattice(obslat);
        }
        InputParser p(root);
        p.parseLattice(lat);
        p.parseBeam(beam, &logs, &pi);
        p.parseTracking(beam, &watches, &inter);
        p.parseObservers(&obs);
    } catch (std::exception &e) {
        // another property decides what is accepted, but the program has to agree
        PBT_CHECK(c, r.rc != 0, "the input is refused by the library, but the program ends with 0");
        c.label("refused");
        return;
    }
    for (auto f : inter) lat->addElement(f);
    int NOTS = beam->getNOTS();
    PBT_CHECK(c, NOTS == k.nsteps && beam->getTimeStep() == k.dt, "tracking %d steps", NOTS);
    beam->setNOTS(0);
    // initial coordinates
    auto w0 = readH5("../run/w0.h5");
    auto &w = w0["electrons"];
    bool havew = w.ok && w.dims.size() == 2 && w.dims[0] == (size_t)k.nop && w.dims[1] == 6;
    if (r.rc == 0) PBT_CHECK(c, havew, "no watch point for step 0 with %d particles", k.nop);
    int row = 0;
    for (size_t ib = 0; ib < k.bunch.size(); ib++) {
        BunchDef &b = k.bunch[ib];
        bool sp = b.zft != 0;
        for (double z : b.rms) sp = sp || z != 0;
        if (!sp) {
            // must be what is described
            for (int j = 0; j < b.n && havew; j++) {
                ChargedParticle *p = beam->getBunch(ib)->getParticle(j);
                Vector X = p->getPosition(), P = p->getMomentum();
                double v[6] = {X.x, X.y, X.z, P.x, P.y, P.z};
                for (int n = 0; n < 6; n++)
                    PBT_CHECK(c, near(w.v[6 * (row + j) + n], v[n], 1e-9 * (n < 3 ? 1 + X.norm() : 1 + P.norm())), "bunch %zu particle %d coordinate %d is %.12g at the start instead of %.12g", ib, j, n, w.v[6 * (row + j) + n], v[n]);
            }
        }
        for (int j = 0; j < b.n && havew && sp; j++) {
            ChargedParticle *p = beam->getBunch(ib)->getParticle(j);
            double t = p->getTime(), *v = &w.v[6 * (row + j)];
            p->clearTrajectory();
            p->initTrajectory(t, Vector(v[0], v[1], v[2]), Vector(v[3], v[4], v[5]), Vector(0, 0, 0));
        }
        row += b.n;
    }
    bool thrown = false;
    double maxf = 0;
    try {
        beam->setupTracking(lat);
        Beam *pb = nullptr;
        if (pi.requested) {
            // the particles of the first process
            Bunch *b = new Bunch();
            int lim = (k.nop + k.ranks - 1) / k.ranks;
            for (size_t ib = 0; ib < k.bunch.size(); ib++)
                for (int j = 0; j < k.bunch[ib].n; j++)
                    if (lim-- > 0) b->Add(beam->getBunch(ib)->getParticle(j));
            pb = new Beam();
            pb->Add(b);
            logs.push_back(new ProbeLogger<Beam>(pb, pi.filename, pi.step, pi.number));
        }
        auto watch = [&](int s) {
            for (auto &z : k.watch)
                if (z.step == s) {
                    expected.insert(z.file);
                    if (z.h5)
                        beam->WriteWatchPointHDF5(z.file);
                    else
                        beam->WriteWatchPointSDDS(z.file);
                }
        };
        watch(0);
        for (auto l : logs) l->update();
        for (auto f : inter) f->init(beam);
        for (int s = 0; s < NOTS; s++) {
            beam->doStep(lat);
            for (auto l : logs)
                if (l->log_requested(s + 1)) l->update();
            watch(s + 1);
            for (auto f : inter) f->step(beam);
        }
        for (auto l : logs) l->WriteData();
        for (auto f : inter) f->write_output();
        for (size_t i = 0; i < obs.size(); i++) {
            if (auto o = dynamic_cast<Observer<Beam> *>(obs[i])) o->setSource(beam);
            if (auto o = dynamic_cast<Observer<Lattice> *>(obs[i])) o->setSource(obslat);
            obs[i]->integrate();
            std::unique_ptr<double[]> bf(obs[i]->getBuffer());
            for (size_t n = 0; n < obs[i]->getBufferSize(); n++) maxf = std::max(maxf, fabs(bf[n]));
            if (auto o = dynamic_cast<SnapshotObserver<Beam> *>(obs[i])) o->storeParticlePositions();
            obs[i]->generateOutput();
        }
    } catch (std::exception &e) {
        thrown = true;
        why = e.what();
    }
    if (thrown) {
        PBT_CHECK(c, r.rc != 0, "the library fails (%s), but the program ends with 0", why.c_str());
        c.label("fails");
        return;
    }
    if (!std::isfinite(maxf)) throw pbt::Discard();
    PBT_CHECK(c, r.rc == 0, "teufel ends with %d: %s", r.rc, r.out.substr(r.out.size() > 1500 ? r.out.size() - 1500 : 0).c_str());
    PBT_CHECK(c, r.out.find("TEUFEL run finished.") != std::string::npos, "the run is not reported as finished");
    for (auto &b : k.bunch) {
        if (!b.logFile.empty()) {
            std::vector<const char *> cols = LOGC, pars{"NumberTimeSteps", "NumberParticles", "TotalCharge"};
            if (b.freq != 0) pars.push_back("BunchingFrequency");
            PBT_CHECK(c, sameCols("../run/" + b.logFile, b.logFile, cols, pars, 1e-9, why), "%s: %s", b.logFile.c_str(), why.c_str());
            expected.insert(b.logFile);
        }
        if (!b.trajFile.empty()) {
            PBT_CHECK(c, sameH5("../run/" + b.trajFile, b.trajFile, 1e-9, why), "%s: %s", b.trajFile.c_str(), why.c_str());
            expected.insert(b.trajFile);
        }
    }
    for (auto &z : k.watch)
        if (z.step <= NOTS) {
            if (z.h5)
                PBT_CHECK(c, sameH5("../run/" + z.file, z.file, 1e-9, why), "watch point %s at step %d: %s", z.file.c_str(), z.step, why.c_str());
            else
                PBT_CHECK(c, sameCols("../run/" + z.file, z.file, WATC, {"NumberOfParticles", "Charge"}, 1e-9, why), "watch point %s at step %d: %s", z.file.c_str(), z.step, why.c_str());
        }
    if (k.probe) {
        PBT_CHECK(c, sameH5("../run/probe.h5", "probe.h5", 1e-9, why), "probe.h5: %s", why.c_str());
        expected.insert("probe.h5");
    }
    for (auto &fl : k.felLog) {
        PBT_CHECK(c, sameH5("../run/" + fl, fl, 1e-9, why), "%s: %s", fl.c_str(), why.c_str());
        expected.insert(fl);
    }
    if (inter.size() > 1) c.label("two interactions");
    for (auto &o : k.obs) {
        bool ok = o.kind == 0 ? sameSDDS("../run/" + o.file, o.file, 1e-9, why) : sameH5("../run/" + o.file, o.file, 1e-9, why);
        PBT_CHECK(c, ok, "%s %s: %s", o.what.c_str(), o.file.c_str(), why.c_str());
        expected.insert(o.file);
    }
    // nothing else appears (but for the debugging output of recorded screens), inputs stay
    for (auto &n : listing("../in")) expected.insert(n);
    for (auto &n : listing("../run")) PBT_CHECK(c, expected.count(n) || n.find("DEBUG") != std::string::npos, "unexpected file %s", n.c_str());
    for (auto &n : listing("../in")) {
        bool out = false;
        for (auto &o : k.obs) out = out || o.file == n;
        if (!out) PBT_CHECK(c, slurp("../in/" + n) == slurp("../run/" + n), "the input file %s has been changed", n.c_str());
    }
    c.label(fmt("%d processes", k.ranks));
    if (k.nop < k.ranks) c.label("fewer particles than processes");
    if (k.nop % k.ranks) c.label("uneven distribution");
    if (maxf > 0) c.label("field seen");
    if (k.fel) c.label("fel1d");
    if (k.probe) c.label("probe");
    if (k.ranks > 1 && k.nop > 1 && k.nsteps > 0) c.nontrivial();
    for (auto o : obs) delete o;
    delete beam;
    delete lat;
    delete obslat;
    dropH5();
}
PBT_TEST(run, 6) {
    clean("in");
    Case k;
    {
        Chdir d("in");
        k = gcase(c, false, false);
    }
    runcase(c, k, [] {});
}
PBT_TEST(fel, 3) {
    clean("in");
    Case k;
    {
        Chdir d("in");
        k = gcase(c, true, false);
    }
    runcase(c, k, [] {});
}
PBT_TEST(many, 2) {
    clean("in");
    Case k;
    {
        Chdir d("in");
        k = gcase(c, c.oneIn(3), true);
    }
    runcase(c, k, [] {});
}
// wrong use is reported
PBT_TEST(usage, 1) {
    clean("run");
    Case k;
    k.ranks = c.range(1, 3);
    k.threads = 1;
    int kind = c.upto(4);
    std::vector<std::string> args{"input.xml"};
    std::string xml = "<teufel><lattice/><beam/><tracking method=\"Vay\" delta_t=\"1e-12\" n=\"0\"/><observer/></teufel>";
    const char *names[] = {"no argument", "missing file", "no XML", "other root", "truncated"};
    if (kind == 0) args.clear();
    if (kind == 1) args = {"missing.xml"};
    if (kind == 2) xml = std::string(c.range(0, 40), 'x');
    if (kind == 3) xml = "<teufe1><lattice/></teufe1>";
    if (kind == 4) xml = xml.substr(0, c.upto(xml.size() - 2));
    c.note("%s, %d processes: %s", names[kind], k.ranks, xml.c_str());
    c.label(names[kind]);
    spew("run/input.xml", xml);
    Chdir d("run");
    RunResult r = runTeufel(k, args);
    PBT_CHECK(c, r.rc != 0 && r.rc != 2000, "the program ends with %d", r.rc);
    PBT_CHECK(c, r.out.find("TEUFEL run finished.") == std::string::npos, "the run is reported as finished");
    PBT_CHECK(c, !r.out.empty(), "no message");
    if (kind == 0) PBT_CHECK(c, r.out.find("Usage") != std::string::npos, "no usage message");
    if (k.ranks > 1) c.nontrivial();
}
PBT_MAIN("run, fel, many: more than one process and particle and at least one step; usage: more than one process")
