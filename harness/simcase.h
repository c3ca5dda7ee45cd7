// complete generated simulations (E01, I03)
#pragma once
#include "simgen.h"
#include "fel1d.h"
#include "tool.h"

static void clean(const std::string &dir) {
    DIR *d = opendir(dir.c_str());
    if (!d) {
        mkdir(dir.c_str(), 0755);
        return;
    }
    while (auto e = readdir(d)) {
        std::string n = e->d_name;
        if (n != "." && n != "..") remove((dir + "/" + n).c_str());
    }
    closedir(d);
}
static void copyAll(const std::string &a, const std::string &b) {
    DIR *d = opendir(a.c_str());
    while (auto e = readdir(d)) {
        std::string n = e->d_name;
        if (n != "." && n != "..") spew(b + "/" + n, slurp(a + "/" + n));
    }
    closedir(d);
}
static std::set<std::string> listing(const std::string &a) {
    std::set<std::string> s;
    DIR *d = opendir(a.c_str());
    while (auto e = readdir(d)) {
        std::string n = e->d_name;
        if (n != "." && n != "..") s.insert(n);
    }
    closedir(d);
    return s;
}
struct Chdir {
    char old[4096];
    explicit Chdir(const char *d) {
        if (!getcwd(old, sizeof old) || chdir(d)) throw std::runtime_error("chdir");
    }
    ~Chdir() {
        if (chdir(old)) abort();
    }
};
static std::string section(SimGen &g, const std::string &tag, const std::vector<std::string> &v) {
    std::string s = "<" + tag + ">";
    for (auto &x : v) s += x;
    return s + "</" + tag.substr(0, tag.find(' ')) + ">";
}
struct Watch {
    int step;
    std::string file;
    bool h5;
};
struct Case {
    std::string xml;
    int nsteps, ranks, threads;
    double dt;
    std::vector<LatticeEl> el;
    std::vector<BunchDef> bunch;
    std::vector<Watch> watch;
    std::vector<ObsDef> obs;
    bool fel = false, probe = false;
    std::vector<std::string> felLog;
    int probeStep = 1, probeN = 1;
    int nop = 0;
    bool spread = false;
};
static Case gcase(Ctx &c, bool fel, bool many) {
    Case k;
    SimGen g(c);
    k.fel = fel;
    k.ranks = c.range(1, 4);
    k.threads = c.range(1, 3);
    k.nsteps = c.oneIn(12) ? 0 : c.range(1, many ? 12 : 40);
    k.dt = c.logreal(1e-13, 2e-11);
    std::string dta = g.att("delta_t", k.dt);
    g.root += g.local;
    g.local.clear();
    // lattice
    int ne = c.range(fel ? 0 : 0, 3);
    std::vector<std::string> x;
    for (int i = 0; i < ne; i++) {
        k.el.push_back(gelement(g, c.oneIn(6)));
        x.push_back(k.el.back().xml);
    }
    std::string lat = section(g, "lattice", x);
    // beam
    int nb = c.range(1, 4);
    x.clear();
    for (int i = 0; i < nb; i++) {
        bool sp = c.oneIn(3);
        k.bunch.push_back(gbunchdef(g, i, fel ? c.upto(1) : -1, many ? 40 : 5, sp, fel));
        BunchDef &b = k.bunch.back();
        for (double r : b.rms)
            if (r != 0) k.spread = true;
        if (b.zft != 0) k.spread = true;
        x.push_back(b.xml);
        k.nop += b.n;
    }
    if (c.coin()) {
        k.probe = true;
        k.probeStep = c.range(1, 4);
        k.probeN = c.range(1, 12);
        x.insert(x.begin() + c.upto(x.size()), fmt("<probe file=\"probe.h5\" step=\"%d\" number=\"%d\"/>", k.probeStep, k.probeN));
    }
    std::string beam = section(g, "beam", x);
    // tracking
    x.clear();
    k.watch.push_back({0, "w0.h5", true});
    int nw = c.upto(3);
    for (int i = 0; i < nw; i++) {
        Watch w;
        w.step = c.oneIn(4) ? k.nsteps : c.oneIn(6) ? k.nsteps + 1 : c.range(0, std::max(k.nsteps, 1));
        w.h5 = c.coin();
        w.file = fmt("w%d.%s", i + 1, w.h5 ? "h5" : "sdds");
        k.watch.push_back(w);
    }
    for (auto &w : k.watch) x.push_back(fmt("<watch%s step=\"%d\" file=\"%s\"/>", w.h5 ? "" : "-sdds", w.step, w.file.c_str()));
    if (fel) {
        // the grid covers the places of all particles during the run
        double ds = cC * k.dt;
        double lo = 1e99, hi = -1e99;
        Frame f = gframe(c);
        for (auto &b : k.bunch) {
            double z = dot(b.p.pos, f.ez);
            double s = 12 * (b.rms[0] + b.rms[1] + b.rms[2]) + fabs(b.zft);
            lo = std::min(lo, z - s), hi = std::max(hi, z + s);
        }
        double marg = ds * c.range(2, 10);
        int N = (int)std::min(4000.0, ceil((hi - lo + marg) / ds) + 3 + 2 * k.nsteps);
        Vector pos = f.ez * (hi + marg) + f.ex * c.sym(0.1);
        int nf = c.oneIn(3) ? 2 : 1;
        for (int i = 0; i < nf; i++) {
            std::string s = g.vec("position", pos);
            std::vector<std::string> ch{s};
            Vector pz = f.ez, pl = f.ex;
            ch.push_back(g.vec("prop", pz));
            ch.push_back(g.vec("pol", pl));
            ch.push_back(fmt("<mode zR=\"%.6g\" w0=\"%.6g\" zwaist=\"%.6g\"/>", c.logreal(0.05, 5), c.logreal(1e-4, 1e-2), c.sym(1)));
            if (c.coin()) ch.push_back(fmt("<seed E0=\"%.6g\" lambda=\"%.6g\" tau=\"%.6g\" tstart=\"%.6g\"/>", c.sym(1e8), ds * c.logreal(3, 30), k.dt * c.logreal(3, 30), k.dt * c.logreal(3, 30)));
            if (c.coin()) {
                k.felLog.push_back(fmt("fel%d.h5", i));
                ch.push_back(fmt("<log file=\"fel%d.h5\" step=\"%d\"/>", i, (int)c.range(1, 4)));
            }
            x.push_back(fmt("<fel1d N=\"%d\">", N) + g.children(ch) + "</fel1d>");
        }
    }
    for (size_t i = x.size(); i > 1; i--) std::swap(x[i - 1], x[c.upto(i - 1)]);
    std::string trk = section(g, "tracking method=\"Vay\"" + dta + fmt(" n=\"%d\"", k.nsteps), x);
    // observers
    x.clear();
    int no = many ? 1 : c.upto(3);
    for (int i = 0; i < no; i++) {
        BunchDef &b = k.bunch[c.upto(nb - 1)];
        double L = c.logreal(0.05, 1), T = std::max(k.nsteps, 1) * k.dt;
        Vector pos0 = b.kind == BunchDef::sdds ? Vector(0, 0, 0) : b.p.pos;
        Vector ctr = pos0 + gunit(c) * L;
        double t0 = b.kind == BunchDef::sdds ? 0.0 : b.p.t0;
        k.obs.push_back(gobserver(g, i, ctr, 0.3 * L, t0 + L / cC + T * c.real(0.1, 0.9), T * c.logreal(0.3, 3)));
        x.push_back(k.obs.back().xml);
    }
    std::string obs = section(g, "observer", x);
    std::vector<std::string> sec{lat, beam, trk, obs};
    for (size_t i = sec.size(); i > 1; i--) std::swap(sec[i - 1], sec[c.upto(i - 1)]);
    k.xml = "<?xml version=\"1.0\"?>\n<teufel description=\"generated\" author=\"x\">" + g.root;
    for (auto &s : sec) k.xml += s;
    k.xml += "</teufel>\n";
    return k;
}
