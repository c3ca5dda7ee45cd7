// E02: outputs which cannot be written are reported and harm nothing else; what is reported as written is complete
#include "simcase.h"
#include "sources.h"
#include "meshmodel.h"
#include "logger.h"
#include "mesh.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/syscall.h>
#include <sys/resource.h>

// ---- single writers in a child process ----
// prepares an output under the given name; the returned function writes it and tells whether that is reported as done
typedef std::function<std::function<bool()>(std::string)> Writer;
template <class O> static std::function<bool()> observed(std::shared_ptr<O> o, std::vector<double> w) {
    o->fromBuffer(w.data(), w.size());
    return [o] {
        try {
            o->generateOutput();
        } catch (std::exception &) {
            return false;
        }
        return true;
    };
}
// contents of a file, independent of the layout on disk
static std::string content(const std::string &fn, bool h5) {
    struct stat st;
    if (stat(fn.c_str(), &st)) return "missing";
    if (!S_ISREG(st.st_mode)) return "no file";
    if (!h5) return slurp(fn);
    std::string s;
    for (auto &d : readH5(fn)) {
        s += d.first + (d.second.ok ? ":" : ":unreadable:");
        for (auto n : d.second.dims) s += fmt("%zu ", n);
        for (auto &a : d.second.att) s += fmt("%s=%.17g ", a.first.c_str(), a.second);
        s.append((const char *)d.second.v.data(), d.second.v.size() * sizeof(double));
    }
    return s.empty() ? "unreadable" : s;
}
static long fsize(const std::string &fn) {
    struct stat st;
    return stat(fn.c_str(), &st) ? 0 : (long)st.st_size;
}
// no file can be opened (a limit on the file descriptors would hit the sanitizers as well)
static bool noFiles = false;
extern "C" int open(const char *fn, int flags, ...) {
    mode_t mode = 0;
    va_list a;
    va_start(a, flags);
    if (flags & O_CREAT) mode = va_arg(a, mode_t);
    va_end(a);
    if (noFiles) return errno = EMFILE, -1;
    return syscall(SYS_openat, AT_FDCWD, fn, flags, mode);
}
extern "C" int open64(const char *fn, int flags, ...) {
    mode_t mode = 0;
    va_list a;
    va_start(a, flags);
    if (flags & O_CREAT) mode = va_arg(a, mode_t);
    va_end(a);
    return open(fn, flags, mode);
}
extern "C" FILE *fopen(const char *fn, const char *mode) {
    static FILE *(*real)(const char *, const char *) = nullptr;
    if (noFiles) return errno = EMFILE, nullptr;
    if (!real) real = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen");
    return real(fn, mode);
}
extern "C" FILE *fopen64(const char *fn, const char *mode) { return fopen(fn, mode); }
// the n-th write to a file fails, or all from there on (the text files are written by the C library itself: not seen here)
static long nWrites = 0, failFrom = -1, failTo = -1;
static bool writeFails() {
    long n = nWrites++;
    if (failFrom < 0 || n < failFrom || n > failTo) return false;
    errno = ENOSPC;
    return true;
}
extern "C" ssize_t write(int fd, const void *b, size_t n) { return fd > 2 && writeFails() ? -1 : syscall(SYS_write, fd, b, n); }
extern "C" ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return writeFails() ? -1 : syscall(SYS_pwrite64, fd, b, n, o); }
extern "C" ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return writeFails() ? -1 : syscall(SYS_pwrite64, fd, b, n, o); }
struct Limit {
    rlimit a;
    Limit(long bytes, bool nofiles) {
        signal(SIGXFSZ, SIG_IGN);
        getrlimit(RLIMIT_FSIZE, &a);
        rlimit x = a;
        if (bytes >= 0) {
            x.rlim_cur = bytes;
            setrlimit(RLIMIT_FSIZE, &x);
        }
        noFiles = nofiles;
    }
    ~Limit() {
        setrlimit(RLIMIT_FSIZE, &a);
        noFiles = false;
    }
};
PBT_TEST(writers, 24) {
    clean("w");
    mkdir("w", 0755);
    Chdir d("w");
    Quiet q;
    std::unique_ptr<Beam> beam(new Beam());
    int np = c.big(1, 6, 3000, 6), nb = c.range(1, 2);
    std::vector<Bunch *> bs;
    for (int i = 0; i < nb; i++) {
        Bunch *b = new Bunch();
        for (int j = 0; j < np; j++) {
            ChargedParticle *p = new ChargedParticle(-1, 1);
            p->initTrajectory(1e-12 * j, Vector(i, 0.5 * j, 1e-3 * j * j), Vector(0.01 * j, 0.1, 2 + i), Vector());
            b->Add(p);
        }
        beam->Add(b);
        bs.push_back(b);
    }
    int kind = c.upto(10);
    const char *names[] = {"Beam watch HDF5", "Beam watch SDDS", "Bunch watch SDDS", "parameter log", "trajectory log", "probe log", "point observer", "screen", "snapshot", "mesh", "FEL log"};
    bool h5 = !(kind == 1 || kind == 2 || kind == 3 || kind == 6);
    int nsteps = c.big(0, 8, 400, 6);
    int nx = c.big(1, 4, 20, 6), ny = c.range(1, 4), nt = c.big(1, 20, 400, 6);
    std::vector<double> w;
    auto fill = [&](size_t n) {
        w.clear();
        for (size_t i = 0; i < n; i++) w.push_back(1e3 * sin(1.0 + i) + i);
    };
    auto track = [&](Logger &l) {
        l.update();
        for (int s = 0; s < nsteps; s++) l.update();
    };
    Writer wr;
    Beam *bp = beam.get();
    switch (kind) {
    case 0: wr = [&](std::string f) { return [=] { return bp->WriteWatchPointHDF5(f) == bp->getNOP(); }; }; break;
    case 1: wr = [&](std::string f) { return [=] { return bp->WriteWatchPointSDDS(f) == 0; }; }; break;
    case 2: wr = [&](std::string f) { return [=] { return bs[0]->WriteWatchPointSDDS(f.c_str()) == 0; }; }; break;
    case 3:
    case 4:
    case 5:
        wr = [&](std::string f) {
            auto name = std::make_shared<std::string>(f);
            std::shared_ptr<Logger> l;
            if (kind == 3) l.reset(new ParameterLogger<Bunch>(bs[0], name->c_str(), 1));
            if (kind == 4) l.reset(new TrajectoryLogger<Bunch>(bs[0], name->c_str(), 1, np));
            if (kind == 5) l.reset(new ProbeLogger<Beam>(bp, name->c_str(), 1, np));
            track(*l);
            return [name, l] {
                try {
                    return l->WriteData() == 0;
                } catch (std::exception &) {
                    return false;
                }
            };
        };
        break;
    case 6:
        fill(6 * nt);
        wr = [&](std::string f) { return observed(std::make_shared<PointObserver<Beam>>(f, Vector(1, 2, 3), 1e-9, 1e-13, nt), w); };
        break;
    case 7:
        fill(6 * nt * nx * ny);
        wr = [&](std::string f) { return observed(std::make_shared<ScreenObserver<Beam>>(f, Vector(1, 2, 3), Vector(1e-3, 0, 0), Vector(0, 2e-3, 0), nx, ny, 1e-9, 1e-13, 0.0, 1e-14, nt), w); };
        break;
    case 8:
        fill(6 * nx * ny);
        wr = [&](std::string f) {
            auto o = std::make_shared<SnapshotObserver<Beam>>(f, Vector(1, 2, 3), Vector(1e-3, 0, 0), Vector(0, 2e-3, 0), nx, ny, 1e-9);
            o->setSource(bp);
            o->storeParticlePositions();
            return observed(o, w);
        };
        break;
    case 9: {
        MeshModel m;
        for (int i = 0; i < nx + 2; i++) m.cp.push_back(Vector(i, i % 2, 0.1 * i * i));
        for (int i = 0; i < nx; i++) {
            m.tri.push_back({i, i + 1, i + 2});
            m.pos.push_back((m.cp[i] + m.cp[i + 1] + m.cp[i + 2]) / 3.0);
            m.t0.push_back(1e-9 + 1e-13 * i);
        }
        m.nt = nt;
        m.dt = 1e-13;
        m.store("mesh.in");
        fill((size_t)6 * nt * nx);
        wr = [&](std::string f) {
            auto o = std::make_shared<MeshedScreen<Beam>>("mesh.in");
            o->fromBuffer(w.data(), w.size());
            return [o, f] {
                try {
                    o->writeFile(f);
                } catch (std::exception &) {
                    return false;
                }
                return true;
            };
        };
        break;
    }
    case 10:
        wr = [&](std::string f) {
            std::string x = fmt("<teufel><tracking><fel1d N=\"%d\"><position x=\"0\" y=\"0\" z=\"0\"/><prop x=\"0\" y=\"0\" z=\"1\"/><pol x=\"1\" y=\"0\" z=\"0\"/><mode zR=\"1\" w0=\"0.001\" zwaist=\"0\"/><seed E0=\"1e6\" lambda=\"1e-3\" tau=\"1e-12\" tstart=\"0\"/><log file=\"%s\"/></fel1d></tracking></teufel>", nx * 10, f.c_str());
            pugi::xml_document doc;
            doc.load_string(x.c_str());
            InputParser p(doc.child("teufel"));
            std::shared_ptr<FEL_1D> o(new FEL_1D(1e-13, doc.child("teufel").child("tracking").child("fel1d"), &p));
            Beam none;
            none.Add(new Bunch());
            none.setTrackingMethod(TRACKING_VAY), none.setTimeStep(1e-13);
            o->init(&none);
            Lattice lat;
            none.setupTracking(&lat);
            for (int s = 0; s < nsteps; s++) {
                none.doStep(&lat);
                o->step(&none);
            }
            return [o] {
                try {
                    o->write_output();
                } catch (std::exception &) {
                    return false;
                }
                return true;
            };
        };
        break;
    }
    auto rf = wr("ref.out");
    nWrites = 0;
    PBT_CHECK(c, rf(), "%s: writing fails without reason", names[kind]);
    long writes = nWrites;
    std::string ref = content("ref.out", h5);
    long size = fsize("ref.out");
    PBT_CHECK(c, ref != "missing" && ref != "unreadable" && ref.find(":unreadable:") == std::string::npos, "%s: written, but the file is %s", names[kind], ref.substr(0, 40).c_str());
    int fault = c.upto(8);
    if (fault == 8 && !writes) fault = 5;
    const char *fn[] = {"none", "missing directory", "a directory of that name", "below a file", "no space on the device", "size limit", "no more open files", "empty name", "failing write"};
    std::string target = "out.dat";
    long limit = -1;
    if (fault == 1) target = "nodir/out.dat";
    if (fault == 2) mkdir("out.dat", 0755);
    if (fault == 3) spew("plain", "x"), target = "plain/out.dat";
    if (fault == 4 && symlink("/dev/full", "out.dat")) throw pbt::Discard();
    if (fault == 5) limit = c.oneIn(8) ? size : c.oneIn(3) ? size - 1 - (long)c.upto(std::min(size - 1, 64L)) : (long)c.upto(size + 100);
    if (fault == 7) target = "";
    long from = -1, to = -1;
    if (fault == 8) {
        from = c.upto(writes - 1);
        to = c.coin() ? from : 1000000000;
    }
    bool old = c.oneIn(3) && (fault == 0 || fault >= 5) && fault != 7;
    if (old) spew(target, std::string(c.upto(1) ? size + 1000 : 10, 'z'));
    bool must = fault >= 1 && !(fault == 5 && limit >= size), may = must;
    // HDF5 reserves space beyond what is finally kept
    if (fault == 5 && h5) may = true;
    c.note("%s, fault: %s, limit %ld of %ld bytes, failing writes %ld...%ld of %ld%s", names[kind], fn[fault], limit, size, from, to, writes, old ? ", older file present" : "");
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        alarm(40);
        bool ok, again;
        {
            auto f = wr(target);
            Limit l(limit, fault == 6);
            nWrites = 0, failFrom = from, failTo = to;
            ok = f();
            failFrom = -1;
        }
        again = wr("again.out")();
        _exit(20 + (ok ? 1 : 0) + (again ? 2 : 0));
    }
    int st = 0;
    waitpid(pid, &st, 0);
    PBT_CHECK(c, WIFEXITED(st) && WEXITSTATUS(st) >= 20 && WEXITSTATUS(st) < 24, "%s, %s: the process ends with %s %d", names[kind], fn[fault], WIFEXITED(st) ? "status" : "signal", WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st));
    bool ok = WEXITSTATUS(st) & 1, again = WEXITSTATUS(st) & 2;
    if (ok) {
        std::string got = target.empty() ? "missing" : content(target, h5);
        PBT_CHECK(c, got == ref, "%s, %s: reported as written, but the file is %s", names[kind], fn[fault], got == "missing" || got == "unreadable" || got == "no file" ? got.c_str() : "not complete");
    } else
        PBT_CHECK(c, may, "%s, %s: writing is reported as failed", names[kind], fn[fault]);
    PBT_CHECK(c, again, "%s, %s: the next file cannot be written", names[kind], fn[fault]);
    std::string g2 = content("again.out", h5);
    PBT_CHECK(c, g2 == ref, "%s, %s: the next file is not complete", names[kind], fn[fault]);
    c.label(fn[fault]);
    c.label(names[kind]);
    if (!ok) c.label("failure reported");
    if (must) c.nontrivial();
    dropH5();
}

// ---- complete runs ----
static RunResult runTeufel(Case &k) {
    std::vector<std::string> a;
    if (k.ranks > 1) a = {"mpirun", "--oversubscribe", "--bind-to", "none", "--mca", "btl_vader_single_copy_mechanism", "none", "--mca", "btl_base_warn_component_unused", "0", "-n", std::to_string(k.ranks)};
    a.push_back(toolPath("VERIF_TOOL_TEUFEL"));
    a.push_back("input.xml");
    return runTool(a, 1, 120, "../tool.log");
}
static bool isSDDS(const std::string &f) { return f.size() > 5 && f.substr(f.size() - 5) == ".sdds"; }
// the same contents up to rounding of sums over processes
static bool sameFile(const std::string &a, const std::string &b, std::string &why) {
    if (!exists(a)) return why = "missing", false;
    std::string x = slurp(a), y = slurp(b);
    if (x == y) return true;
    bool sd = y.compare(0, 4, "SDDS") == 0;
    if (sd) return why = fmt("%zu bytes, not the same as in the undisturbed run (%zu bytes)", x.size(), y.size()), false;
    auto p = readH5(a), q = readH5(b);
    if (q.empty()) return why = "differs", false;
    if (p.size() != q.size()) return why = fmt("%zu data sets instead of %zu", p.size(), q.size()), false;
    for (auto &d : q) {
        auto &e = p[d.first];
        if (!e.ok || e.dims != d.second.dims || e.v.size() != d.second.v.size() || e.att.size() != d.second.att.size()) return why = d.first + " is not complete", false;
        double m = 0;
        for (double v : d.second.v)
            if (std::isfinite(v)) m = std::max(m, fabs(v));
        for (size_t i = 0; i < e.v.size(); i++)
            if (!(near(e.v[i], d.second.v[i], 1e-9 * m) || (std::isnan(e.v[i]) && std::isnan(d.second.v[i])) || e.v[i] == d.second.v[i])) return why = fmt("%s differs at %zu: %.12g instead of %.12g", d.first.c_str(), i, e.v[i], d.second.v[i]), false;
    }
    return true;
}
static size_t count(const std::string &s, const std::string &w) {
    size_t n = 0;
    for (size_t p = 0; (p = s.find(w, p)) != std::string::npos; p += w.size()) n++;
    return n;
}
struct Prepared {
    Case k;
    std::vector<std::string> outs, fresh; // meshed screens rewrite the file they are read from, all others are new
    std::set<std::string> in;             // files which are only read
    RunResult ref;
};
static Prepared prepare(Ctx &c) {
    Prepared p;
    clean("in");
    {
        Chdir d("in");
        p.k = gcase(c, c.coin(), false);
        // single outputs are the point here, so let there be many of them
    }
    spew("in/input.xml", p.k.xml);
    clean("run"), clean("ref");
    copyAll("in", "run"), copyAll("in", "ref");
    setenv("VERIF_FIXED_RANDOM", "1", 1);
    unsetenv("VERIF_KILL_OPEN");
    {
        Chdir d("ref");
        p.ref = runTeufel(p.k);
    }
    if (p.ref.rc != 0) throw pbt::Discard();
    auto in = listing("in");
    for (auto &f : listing("ref"))
        if (f.find("DEBUG") == std::string::npos) {
            if (!in.count(f))
                p.outs.push_back(f), p.fresh.push_back(f);
            else if (slurp("in/" + f) != slurp("ref/" + f))
                p.outs.push_back(f);
            else
                p.in.insert(f);
        }
    if (p.fresh.empty()) throw pbt::Discard();
    return p;
}
PBT_TEST(contained, 3) {
    Prepared p = prepare(c);
    std::set<std::string> bad;
    int mode = 0;
    for (int i = c.range(1, 3); i > 0; i--) {
        std::string f = p.fresh[c.upto(p.fresh.size() - 1)];
        if (!bad.insert(f).second) continue;
        mode = c.upto(1);
        if (mode == 0)
            mkdir(("run/" + f).c_str(), 0755);
        else if (symlink("/dev/full", ("run/" + f).c_str()))
            throw pbt::Discard();
    }
    std::string l;
    for (auto &f : bad) l += f + " ";
    c.note("%d processes, cannot write %s: %s", p.k.ranks, l.c_str(), p.k.xml.c_str());
    RunResult r;
    {
        Chdir d("run");
        r = runTeufel(p.k);
    }
    PBT_CHECK(c, r.rc == 0 && r.out.find("TEUFEL run finished.") != std::string::npos, "%s cannot be written: the run ends with %d: %s", l.c_str(), r.rc, r.out.substr(r.out.size() > 600 ? r.out.size() - 600 : 0).c_str());
    for (auto &f : p.outs) {
        if (bad.count(f)) continue;
        std::string why;
        PBT_CHECK(c, sameFile("run/" + f, "ref/" + f, why), "%s cannot be written, and %s is %s", l.c_str(), f.c_str(), why.c_str());
    }
    PBT_CHECK(c, count(r.out, "rror") >= count(p.ref.out, "rror") + bad.size(), "%s cannot be written, but only %zu errors are reported", l.c_str(), count(r.out, "rror") - count(p.ref.out, "rror"));
    for (auto &f : p.in) PBT_CHECK(c, slurp("in/" + f) == slurp("run/" + f), "the input file %s has been changed", f.c_str());
    c.label(fmt("%d processes", p.k.ranks));
    if (p.outs.size() > bad.size()) c.nontrivial();
}
// a process which is lost: everything finished before is there
PBT_TEST(killed, 2) {
    Prepared p = prepare(c);
    int n = c.range(2, p.outs.size() + 1);
    c.note("%d processes, killed when opening output %d: %s", p.k.ranks, n, p.k.xml.c_str());
    setenv("VERIF_KILL_OPEN", std::to_string(n).c_str(), 1);
    char cwd[4096];
    if (!getcwd(cwd, sizeof cwd)) throw pbt::Discard();
    std::string log = std::string(cwd) + "/open.log";
    unlink(log.c_str());
    setenv("VERIF_OPEN_LOG", log.c_str(), 1);
    RunResult r;
    {
        Chdir d("run");
        r = runTeufel(p.k);
    }
    unsetenv("VERIF_KILL_OPEN");
    unsetenv("VERIF_OPEN_LOG");
    std::vector<std::string> opened;
    std::string t = slurp(log), line;
    for (char ch : t)
        if (ch == '\n')
            opened.push_back(line), line.clear();
        else
            line += ch;
    bool dead = (int)opened.size() >= n;
    PBT_CHECK(c, dead ? r.rc != 0 && r.rc != 2000 : r.rc == 0, "%zu files opened, the run ends with %d", opened.size(), r.rc);
    if (dead) opened.resize(n - 1);
    for (auto &f : opened) {
        std::string why;
        if (f.find("DEBUG") != std::string::npos) continue;
        PBT_CHECK(c, sameFile("run/" + f, "ref/" + f, why), "killed when opening output %d (after %s): %s", n, f.c_str(), why.c_str());
    }
    if (dead) c.label("killed"), c.nontrivial();
}
PBT_MAIN("writers: a fault which prevents the complete file; contained: at least one other output; killed: the run is killed after at least one complete output")
