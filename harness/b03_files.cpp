// B03: particle import from SDDS files, export to SDDS and HDF5 watch files
#include "common.h"
#include <dirent.h>
extern "C" {
#include "SDDS.h"
}
#include "hdf5.h"

static int openfds() {
    int n = 0;
    DIR *d = opendir("/proc/self/fd");
    while (readdir(d)) n++;
    closedir(d);
    return n;
}
static std::set<int> fdset() {
    std::set<int> s;
    DIR *d = opendir("/proc/self/fd");
    while (dirent *e = readdir(d))
        if (atoi(e->d_name) != dirfd(d)) s.insert(atoi(e->d_name));
    closedir(d);
    return s;
}
struct Row {
    double x, xp, y, yp, p, t;
};
struct Spec {
    bool ascii = false, longt = true;
    int particles = 0;
    bool charge = true, npar = true;
    double Q = 0;
    std::vector<std::string> columns{"x", "xp", "y", "yp", "p", "t"};
    bool page = true;
    bool floats = false;
};
static void writeSDDS(const std::string &fn, const Spec &s, const std::vector<Row> &rows) {
    SDDS_DATASET d;
    SDDS_ClearErrors();
    SDDS_InitializeOutput(&d, s.ascii ? SDDS_ASCII : SDDS_BINARY, 1, NULL, NULL, (char *)fn.c_str());
    if (s.npar) SDDS_DefineSimpleParameter(&d, (char *)"Particles", (char *)"", SDDS_LONG);
    if (s.charge) SDDS_DefineSimpleParameter(&d, (char *)"Charge", (char *)"C", SDDS_DOUBLE);
    for (auto &c : s.columns) SDDS_DefineSimpleColumn(&d, (char *)c.c_str(), NULL, SDDS_DOUBLE);
    SDDS_WriteLayout(&d);
    if (s.page) {
        SDDS_StartPage(&d, (int32_t)rows.size());
        if (s.npar) SDDS_SetParameters(&d, SDDS_SET_BY_NAME | SDDS_PASS_BY_VALUE, "Particles", s.particles, NULL);
        if (s.charge) SDDS_SetParameters(&d, SDDS_SET_BY_NAME | SDDS_PASS_BY_VALUE, "Charge", s.Q, NULL);
        for (size_t i = 0; i < rows.size(); i++)
            for (auto &c : s.columns) {
                double v = c == "x" ? rows[i].x : c == "xp" ? rows[i].xp : c == "y" ? rows[i].y : c == "yp" ? rows[i].yp : c == "p" ? rows[i].p : rows[i].t;
                SDDS_SetRowValues(&d, SDDS_SET_BY_NAME | SDDS_PASS_BY_VALUE, (int)i, c.c_str(), v, NULL);
            }
        SDDS_WritePage(&d);
    }
    SDDS_Terminate(&d);
    SDDS_ClearErrors();
}
static std::vector<Row> grows(Ctx &c, int n) {
    std::vector<Row> r;
    double p0 = c.logreal(0.5, 500), sp = c.sym(0.1), sx = c.logreal(1e-6, 1e-2), sa = c.logreal(1e-6, 0.3), st = c.logreal(1e-15, 1e-9), t0 = c.sym(1e-6);
    for (int i = 0; i < n; i++) {
        Row q;
        q.x = c.sym(sx);
        q.xp = c.sym(sa);
        q.y = c.sym(sx);
        q.yp = c.sym(sa);
        q.p = p0 * (1 + c.sym(fabs(sp)));
        q.t = t0 + c.sym(st);
        r.push_back(q);
    }
    return r;
}
static std::string gname(Ctx &c) {
    // paths of very different length
    std::string n = "f";
    int len = c.pick({0, 10, 70, 95, 97, 98, 99, 100, 110, 180});
    while ((int)n.size() < len) n += 'a' + (n.size() % 26);
    return n + ".sdds";
}
PBT_TEST(import, 3) {
    int n = c.big(1, 12, 5000, 200);
    auto rows = grows(c, n);
    Spec s;
    s.ascii = c.coin();
    s.particles = n;
    s.Q = c.logreal(1e-15, 1e-6);
    if (c.coin()) std::swap(s.columns[0], s.columns[5]), std::swap(s.columns[1], s.columns[2]);
    std::string fn = gname(c);
    writeSDDS(fn, s, rows);
    Vector dir = gunit(c) * c.logreal(0.1, 10);
    int f0 = openfds();
    c.note("%s file of %d particles Q=%g direction %s name length %zu", s.ascii ? "ascii" : "binary", n, s.Q, sv(dir).c_str(), fn.size());
    Bunch b(fn.c_str(), dir);
    int f1 = openfds();
    unlink(fn.c_str());
    PBT_CHECK(c, b.getNOP() == n, "%d particles imported from a file with %d", b.getNOP(), n);
    PBT_CHECK(c, near(b.getTotalCharge(), -s.Q, 1e-12 * s.Q), "total charge %g C, file states %g C of electrons", b.getTotalCharge(), s.Q);
    PBT_CHECK(c, f1 <= f0, "the import left %d files open", f1 - f0);
    // reference frame of the file
    L3 es = L3(dir).unit();
    L3 start = fabsl(es.x) > 0.8L ? L3(0, 0, 1) : L3(1, 0, 0);
    if (fabsl(fabsl(es.x) - 0.8L) < 1e-6L) throw pbt::Discard();
    L3 ex = (start - es * start.dot(es)).unit(), ey = ex.cross(es);
    ld tm = 0;
    double tx = 1e-9;
    for (auto &r : rows) tm += (ld)r.t / n, tx = std::max(tx, fabs(r.t));
    for (int i = 0; i < n; i++) {
        auto &r = rows[i];
        ChargedParticle *p = b.getParticle(i);
        L3 d = (ex * r.xp + ey * r.yp + es).unit();
        ld beta = r.p / sqrtl(1 + (ld)r.p * r.p);
        L3 P = d * r.p, X = ex * r.x + ey * r.y + d * (beta * (ld)cC * (tm - r.t));
        double tolx = 1e-12 * (1e-6 + fabs(r.x) + fabs(r.y)) + cC * 1e-15 * tx * (8 + 0.2 * n);
        PBT_CHECK(c, p->getNP() == 1 && p->getTime() == 0 && p->TrajTime(0) == 0, "imported particle must start at time zero with one point");
        PBT_CHECK(c, nearv(p->getMomentum(), P, 1e-12 * r.p) && nearv(p->TrajMomentum(0), P, 1e-12 * r.p), "particle %d momentum %s expected %s", i, sv(p->getMomentum()).c_str(), sv(P).c_str());
        PBT_CHECK(c, nearv(p->getPosition(), X, tolx) && nearv(p->TrajPoint(0), X, tolx), "particle %d position %s expected %s", i, sv(p->getPosition()).c_str(), sv(X).c_str());
        PBT_CHECK(c, near(p->getCharge(), -s.Q / n, 1e-12 * s.Q), "particle charge");
        // electrons: the charge-to-mass ratio is that of one electron
    }
    // charge-to-mass ratio seen in a field
    HomogeneousField E(Vector(0, 0, 1e6), Vector(0.1, 0, 0));
    ChargedParticle e(-1, 1);
    e.initTrajectory(0, b.getParticle(0)->getPosition(), b.getParticle(0)->getMomentum(), Vector());
    e.InitVay(1e-12, &E);
    e.StepVay(&E);
    b.InitVay(1e-12, &E);
    b.StepVay(&E);
    PBT_CHECK(c, nearv(b.getParticle(0)->getMomentum(), e.getMomentum(), 1e-9 * rows[0].p + 1e-9), "imported particle does not move like an electron");
    if (n > 1) c.nontrivial();
}
// defective files yield an empty bunch, never garbage particles or a crash
PBT_TEST(defective, 2) {
    int n = c.range(0, 6);
    auto rows = grows(c, n);
    Spec s;
    s.ascii = c.coin();
    s.particles = n;
    s.Q = c.logreal(1e-15, 1e-6);
    std::string fn = "defect.sdds", what;
    bool expectEmpty = true;
    int cut = -1, kind = c.upto(6);
    switch (kind) {
    case 0:
        what = "no file";
        break;
    case 1:
        what = "missing column";
        s.columns.erase(s.columns.begin() + c.upto(5));
        break;
    case 2:
        what = "no particle number";
        s.npar = false;
        break;
    case 3:
        what = "no charge";
        s.charge = false;
        break;
    case 4:
        what = "stated particle number exceeds the rows";
        s.particles = n + 1 + c.upto(1000);
        break;
    case 5:
        what = "negative or zero particle number";
        s.particles = -(int)c.upto(5);
        break;
    default:
        what = "truncated";
        cut = 1 + c.upto(600);
        expectEmpty = false;
    }
    if (kind) {
        writeSDDS(fn, s, rows);
        if (cut > 0) {
            FILE *f = fopen(fn.c_str(), "r");
            fseek(f, 0, SEEK_END);
            long sz = ftell(f);
            fclose(f);
            if (truncate(fn.c_str(), std::max(0L, sz - cut))) return;
        }
    } else
        unlink(fn.c_str());
    c.note("%s (%s, %d rows)", what.c_str(), s.ascii ? "ascii" : "binary", n);
    auto before = fdset();
    int f0 = openfds();
    Bunch b(fn.c_str(), Vector(0, 0, 1));
    int f1 = openfds();
    if (!expectEmpty && f1 > f0)
        for (int k : fdset())
            if (!before.count(k)) close(k);
    unlink(fn.c_str());
    SDDS_ClearErrors();
    if (expectEmpty)
        PBT_CHECK(c, b.getNOP() == 0, "%d particles from a defective file (%s)", b.getNOP(), what.c_str());
    else
        PBT_CHECK(c, b.getNOP() >= 0 && b.getNOP() <= n, "%d particles from a truncated file of %d", b.getNOP(), n);
    // (the SDDS library itself leaves a file with an unreadable header open)
    if (expectEmpty) PBT_CHECK(c, f1 <= f0, "the import left %d files open", f1 - f0);
    for (int i = 0; i < b.getNOP(); i++) {
        Vector x = b.getParticle(i)->getPosition(), p = b.getParticle(i)->getMomentum();
        PBT_CHECK(c, finite3(x) && finite3(p), "non-finite coordinates");
    }
    PBT_CHECK(c, b.getNOP() == 0 || std::isfinite(b.getTotalCharge()), "non-finite charge");
    c.label(what);
    c.nontrivial();
}
// read back a watch file
static bool readColumns(const std::string &fn, std::map<std::string, std::vector<double>> &col, std::map<std::string, double> &par, const std::vector<const char *> &cols, const std::vector<const char *> &pars) {
    SDDS_DATASET d;
    SDDS_ClearErrors();
    if (SDDS_InitializeInput(&d, (char *)fn.c_str()) != 1) return false;
    if (SDDS_ReadPage(&d) != 1) return false;
    int n = SDDS_CountRowsOfInterest(&d);
    for (auto k : cols) {
        double *v = SDDS_GetColumnInDoubles(&d, (char *)k);
        if (!v) {
            SDDS_ClearErrors();
            if (n == 0) {
                col[k] = {};
                continue;
            }
            SDDS_Terminate(&d);
            return false;
        }
        col[k].assign(v, v + n);
        free(v);
    }
    for (auto k : pars) {
        double v;
        if (!SDDS_GetParameterAsDouble(&d, (char *)k, &v)) {
            SDDS_ClearErrors();
            SDDS_Terminate(&d);
            return false;
        }
        par[k] = v;
    }
    SDDS_Terminate(&d);
    return true;
}
struct MB {
    std::unique_ptr<Beam> beam;
    std::vector<ChargedParticle *> all;
    double q = 0, qa = 0;
};
static MB gbeam(Ctx &c) {
    MB m;
    m.beam.reset(new Beam());
    int nb = c.range(1, 3);
    for (int i = 0; i < nb; i++) {
        Bunch *b = new Bunch();
        int n = c.big(i ? 0 : 1, 5, 3000, 200);
        for (int j = 0; j < n; j++) {
            double q = c.symlog(0.1, 1e9);
            ChargedParticle *p = new ChargedParticle(q, fabs(q));
            Vector P = gmom(c, 0.1, 1e3);
            if (P.z == 0) P.z = 0.5;
            p->initTrajectory(c.sym(1e-9), gvec(c, 1), P, Vector());
            b->Add(p);
            m.all.push_back(p);
            m.q += q * cE;
            m.qa += fabs(q) * cE;
        }
        m.beam->Add(b);
    }
    if (c.coin()) {
        // current coordinates, not the initial ones, are to be written
        std::unique_ptr<ModeField> f(gmodes(c, 1e10, 0.1, 1));
        m.beam->setTimeStep(c.logreal(1e-13, 1e-12));
        m.beam->setTrackingMethod(TRACKING_VAY);
        m.beam->setupTracking(f.get());
        int n = c.range(1, 4);
        for (int i = 0; i < n; i++) m.beam->doStep(f.get());
    }
    c.note("bunches=%d particles=%zu total charge %g C", nb, m.all.size(), m.q);
    return m;
}
static void cmpRows(Ctx &c, std::map<std::string, std::vector<double>> &col, std::vector<ChargedParticle *> v) {
    for (auto &k : col) PBT_CHECK(c, k.second.size() == v.size(), "column %s has %zu rows for %zu particles", k.first.c_str(), k.second.size(), v.size());
    for (size_t i = 0; i < v.size(); i++) {
        Vector X = v[i]->getPosition(), P = v[i]->getMomentum();
        double pn = sqrt(P.x * P.x + P.y * P.y + P.z * P.z);
        auto e = [&](const char *k, double ref) {
            double g = col[k][i];
            PBT_CHECK(c, near(g, ref, 1e-12 * fabs(ref)), "particle %zu column %s is %.12g expected %.12g", i, k, g, ref);
        };
        e("t", v[i]->getTime());
        e("x", X.x);
        e("y", X.y);
        e("z", X.z);
        e("px", P.x);
        e("py", P.y);
        e("pz", P.z);
        e("p", pn);
        e("xp", P.x / P.z);
        e("yp", P.y / P.z);
        e("gamma", sqrt(1 + pn * pn));
    }
}
PBT_TEST(watch_sdds, 2) {
    MB m = gbeam(c);
    int f0 = openfds();
    std::string fn = gname(c);
    int r = m.beam->WriteWatchPointSDDS(fn);
    PBT_CHECK(c, r == 0, "writing a watch file returned %d", r);
    std::map<std::string, std::vector<double>> col;
    std::map<std::string, double> par;
    std::vector<const char *> cols = {"t", "x", "y", "z", "px", "py", "pz", "p", "xp", "yp", "gamma"};
    bool ok = readColumns(fn, col, par, cols, {"NumberOfParticles", "Charge"});
    unlink(fn.c_str());
    PBT_CHECK(c, ok, "watch file cannot be read back");
    PBT_CHECK(c, par["NumberOfParticles"] == (double)m.all.size(), "particle number in the file %g", par["NumberOfParticles"]);
    PBT_CHECK(c, near(par["Charge"], m.q, 1e-12 * m.qa), "charge in the file %g C, beam has %g C", par["Charge"], m.q);
    cmpRows(c, col, m.all);
    // a single bunch
    int nb = m.beam->getNOB(), ib = c.upto(nb - 1);
    Bunch *b = m.beam->getBunch(ib);
    if (b->getNOP() > 0) {
        r = b->WriteWatchPointSDDS("bunch.sdds");
        PBT_CHECK(c, r == 0, "writing a bunch returned %d", r);
        col.clear();
        par.clear();
        ok = readColumns("bunch.sdds", col, par, cols, {"NumberOfParticles"});
        unlink("bunch.sdds");
        PBT_CHECK(c, ok && par["NumberOfParticles"] == b->getNOP(), "bunch file");
        std::vector<ChargedParticle *> v;
        for (int i = 0; i < b->getNOP(); i++) v.push_back(b->getParticle(i));
        cmpRows(c, col, v);
    }
    PBT_CHECK(c, openfds() <= f0, "files left open");
    if (m.all.size() > 1) c.nontrivial();
}
PBT_TEST(watch_hdf5, 2) {
    MB m = gbeam(c);
    int f0 = openfds();
    std::string fn = gname(c);
    int r = m.beam->WriteWatchPointHDF5(fn);
    PBT_CHECK(c, r == (int)m.all.size(), "writing a watch file of %zu particles returned %d", m.all.size(), r);
    PBT_CHECK(c, openfds() <= f0, "files left open");
    hid_t f = H5Fopen(fn.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
    PBT_CHECK(c, f >= 0, "watch file cannot be opened");
    hid_t d = H5Dopen2(f, "electrons", H5P_DEFAULT), s = H5Dget_space(d);
    hsize_t dims[2] = {0, 0};
    int nd = H5Sget_simple_extent_ndims(s);
    H5Sget_simple_extent_dims(s, dims, NULL);
    std::vector<double> v(dims[0] * dims[1]);
    H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
    H5Sclose(s);
    H5Dclose(d);
    H5Fclose(f);
    unlink(fn.c_str());
    PBT_CHECK(c, nd == 2 && dims[0] == m.all.size() && dims[1] == 6, "data set is %d-dimensional %llux%llu", nd, dims[0], dims[1]);
    for (size_t i = 0; i < m.all.size(); i++) {
        Vector X = m.all[i]->getPosition(), P = m.all[i]->getMomentum();
        double e[6] = {X.x, X.y, X.z, P.x, P.y, P.z};
        for (int k = 0; k < 6; k++) PBT_CHECK(c, v[6 * i + k] == e[k], "particle %zu column %d is %g expected %g", i, k, v[6 * i + k], e[k]);
    }
    if (m.all.size() > 1) c.nontrivial();
}
// an unwritable target is reported, not ignored
PBT_TEST(unwritable, 1) {
    MB m = gbeam(c);
    PBT_CHECK(c, m.beam->WriteWatchPointSDDS("no/such/dir/w.sdds") != 0, "writing to a missing directory reported success");
    PBT_CHECK(c, m.beam->getBunch(0)->WriteWatchPointSDDS("no/such/dir/w.sdds") != 0, "writing to a missing directory reported success");
    PBT_CHECK(c, m.beam->WriteWatchPointHDF5("no/such/dir/w.h5") == -1, "writing to a missing directory reported success");
    SDDS_ClearErrors();
    c.nontrivial();
}
static struct Init {
    Init() {
        pbt::processInit() = [] { H5Eset_auto2(H5E_DEFAULT, NULL, NULL); };
    }
} init_;
PBT_MAIN("SDDS files written with the SDDS library (binary and ASCII, column order, path length, propagation direction, missing or inconsistent content, truncation) imported and compared with a long-double "
         "evaluation; random beams written as SDDS and HDF5 watch files and read back with the file libraries; open files counted. non-trivial: more than one particle, or a defective file")
