// Minimal property-based-testing engine used by every check in /verif/harness.
//
// A case is a pure function of a "choice tape" (vector of uint64).  Generating =
// drawing fresh choices from a seeded RNG and recording them; replaying = reading
// the choices back (missing choices read as 0).  run.py shrinks a failing tape by
// re-executing this binary with smaller tapes, so crashes and hangs shrink too.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

namespace pbt {

struct Failure : public std::runtime_error {
    explicit Failure(const std::string &m) : std::runtime_error(m) {}
};
// a case that carries no information (generator produced an inadmissible input)
struct Discard {};

inline std::string vfmt(const char *f, va_list ap) {
    char buf[8192];
    vsnprintf(buf, sizeof buf, f, ap);
    return buf;
}
inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    std::string s = vfmt(f, ap);
    va_end(ap);
    return s;
}

struct Rng { // splitmix64
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
};

static const size_t TAPE_MAX = 1 << 16;
struct SharedTape { // mmapped so that the parent can read it after a crash
    uint64_t test, n;
    uint64_t v[TAPE_MAX];
};

class Ctx {
  public:
    bool replay = false;
    std::vector<uint64_t> tape; // input in replay mode
    Rng rng{0};
    SharedTape *sh = nullptr;
    size_t pos = 0;
    uint64_t hash = 1469598103934665603ull;
    std::string desc;
    bool nontriv = false;
    std::set<std::string> labels;
    std::string scratch; // scratch directory of this worker

    // an integer choice in [0,n]
    uint64_t upto(uint64_t n) {
        uint64_t v;
        if (replay) {
            v = pos < tape.size() ? tape[pos] : 0;
            if (n != UINT64_MAX) v = v > n ? v % (n + 1) : v;
        } else {
            v = rng.next();
            if (n != UINT64_MAX) v %= (n + 1);
        }
        if (pos < TAPE_MAX && sh) {
            sh->v[pos] = v;
            sh->n = pos + 1;
        }
        pos++;
        hash = (hash ^ v) * 1099511628211ull;
        return v;
    }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)upto((uint64_t)(hi - lo)); }
    bool coin() { return upto(1) == 1; }
    // true with probability 1/n; shrinks to false
    bool oneIn(int n) { return upto(n - 1) == (uint64_t)(n - 1); }
    // a size in [lo,hi], once in a while a much larger one up to `top`
    int big(int lo, int hi, int top, int rare = 150) {
        if (!oneIn(rare)) return (int)range(lo, hi);
        label("large");
        return (int)lround(exp(log((double)hi + 1) + real(0, 1) * (log((double)top) - log((double)hi + 1))));
    }
    // uniform real in [lo,hi]; shrinks to lo
    double real(double lo, double hi) {
        double u = (double)upto((1ull << 40)) / (double)(1ull << 40);
        return lo + (hi - lo) * u;
    }
    // log-uniform in [lo,hi], lo>0
    double logreal(double lo, double hi) { return exp(real(log(lo), log(hi))); }
    // symmetric real in [-m,m]; shrinks to 0; sometimes exactly 0
    double sym(double m) {
        uint64_t k = upto(9);
        if (k == 0) return 0.0;
        double v = real(0.0, m);
        return (k & 1) ? v : -v;
    }
    // signed log-uniform magnitude
    double symlog(double lo, double hi) {
        uint64_t k = upto(1);
        double v = logreal(lo, hi);
        return k ? -v : v;
    }
    template <class T> T pick(std::initializer_list<T> l) {
        auto it = l.begin();
        std::advance(it, upto(l.size() - 1));
        return *it;
    }
    void note(const char *f, ...) __attribute__((format(printf, 2, 3))) {
        va_list ap;
        va_start(ap, f);
        std::string s = vfmt(f, ap);
        va_end(ap);
        if (desc.size() < 6000) {
            if (!desc.empty()) desc += "; ";
            desc += s;
            if (notes) {
                // survives a crash of the process
                fprintf(notes, "%s; ", s.c_str());
                fflush(notes);
            }
        }
    }
    FILE *notes = nullptr;
    void label(const std::string &l) { labels.insert(l); }
    void nontrivial() { nontriv = true; }
    [[noreturn]] void fail(const char *f, ...) __attribute__((format(printf, 2, 3))) {
        va_list ap;
        va_start(ap, f);
        std::string s = vfmt(f, ap);
        va_end(ap);
        throw Failure(s);
    }
};

#define PBT_CHECK(c, cond, ...)                                                                    \
    do {                                                                                           \
        if (!(cond)) (c).fail(__VA_ARGS__);                                                        \
    } while (0)

typedef void (*TestFn)(Ctx &);
struct Test {
    const char *name;
    int weight;
    TestFn fn;
};
inline std::vector<Test> &tests() {
    static std::vector<Test> t;
    return t;
}
struct Reg {
    Reg(const char *n, int w, TestFn f) { tests().push_back({n, w, f}); }
};
#define PBT_TEST(name, weight)                                                                     \
    static void name(pbt::Ctx &);                                                                  \
    static pbt::Reg reg_##name(#name, weight, name);                                               \
    static void name(pbt::Ctx &c)

// every property file provides the rule that makes a case non-trivial
extern const char *RULE;
// optional per-process setup
inline std::function<void()> &processInit() {
    static std::function<void()> f;
    return f;
}

inline double now() {
    timeval tv;
    gettimeofday(&tv, 0);
    return tv.tv_sec + 1e-6 * tv.tv_usec;
}

inline std::string jesc(const std::string &s) {
    std::string o;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') {
            o += '\\';
            o += ch;
        } else if (ch < 0x20 || ch > 0x7e)
            o += fmt("\\u%04x", ch);
        else
            o += ch;
    }
    return o;
}

// stdout of the code under test is noise: keep fd for ourselves
inline FILE *&out() {
    static FILE *f = nullptr;
    return f;
}

struct Result {
    int status; // 0 ok, 1 failure, 2 discard
    std::string msg;
};

inline Result runOne(Ctx &c, TestFn fn) {
    try {
        fn(c);
        return {0, ""};
    } catch (Failure &e) {
        return {1, e.what()};
    } catch (Discard &) {
        return {2, ""};
    } catch (std::exception &e) {
        return {1, std::string("unexpected exception: ") + e.what()};
    } catch (...) {
        return {1, "unexpected exception of unknown type"};
    }
}

// command line:
//   --worker --seed S --cases N --secs T --cur FILE --scratch DIR
//   --tape FILE --test NAME --cur FILE --scratch DIR      (replay of one case)
//   --list
inline int main_(int argc, char **argv) {
    std::map<std::string, std::string> a;
    for (int i = 1; i < argc; i++) {
        std::string k = argv[i];
        if (k == "--worker" || k == "--list")
            a[k] = "1";
        else if (i + 1 < argc)
            a[k] = argv[++i];
    }
    if (a.count("--list")) {
        for (auto &t : tests()) printf("%s %d\n", t.name, t.weight);
        return 0;
    }
    int fd = dup(1);
    out() = fdopen(fd, "w");
    if (!getenv("PBT_VERBOSE")) {
        int n = open("/dev/null", O_WRONLY);
        dup2(n, 1);
        if (!getenv("PBT_STDERR")) dup2(n, 2);
    }
    SharedTape *sh = nullptr;
    if (a.count("--cur")) {
        int f = open(a["--cur"].c_str(), O_RDWR | O_CREAT, 0600);
        if (ftruncate(f, sizeof(SharedTape)) != 0) return 3;
        sh = (SharedTape *)mmap(0, sizeof(SharedTape), PROT_READ | PROT_WRITE, MAP_SHARED, f, 0);
        if (sh == MAP_FAILED) return 3;
    }
    std::string scratch = a.count("--scratch") ? a["--scratch"] : ".";
    if (chdir(scratch.c_str()) != 0) return 3;
    // temporary files of the programs that are started (the session directory of MPI) are not shared between workers
    char cwd[4096];
    if (getcwd(cwd, sizeof cwd)) setenv("TMPDIR", cwd, 1);
    if (processInit()) processInit()();

    if (a.count("--tape")) {
        TestFn fn = nullptr;
        for (auto &t : tests())
            if (a["--test"] == t.name) fn = t.fn;
        if (!fn) {
            fprintf(out(), "{\"status\":3,\"msg\":\"no such test\"}\n");
            return 3;
        }
        Ctx c;
        c.replay = true;
        c.scratch = scratch;
        c.sh = sh;
        if (sh) sh->n = 0;
        FILE *f = fopen(a["--tape"].c_str(), "r");
        if (!f) return 3;
        unsigned long long v;
        while (fscanf(f, "%llu", &v) == 1) c.tape.push_back(v);
        fclose(f);
        if (a.count("--cur")) c.notes = fopen((a["--cur"] + ".notes").c_str(), "w");
        Result r = runOne(c, fn);
        fprintf(out(), "{\"status\":%d,\"used\":%zu,\"msg\":\"%s\",\"desc\":\"%s\"}\n", r.status, c.pos,
                jesc(r.msg).c_str(), jesc(c.desc).c_str());
        fflush(out());
        _exit(r.status == 1 ? 1 : 0);
    }

    uint64_t seed = strtoull(a["--seed"].c_str(), 0, 10);
    long cases = atol(a["--cases"].c_str());
    double secs = a.count("--secs") ? atof(a["--secs"].c_str()) : 1e9;
    std::vector<int> sched;
    int maxw = 0;
    for (auto &t : tests()) maxw = std::max(maxw, t.weight);
    for (int k = 0; k < maxw; k++)
        for (size_t i = 0; i < tests().size(); i++)
            if (tests()[i].weight > k) sched.push_back((int)i);
    double t0 = now();
    std::map<std::string, long> evals, nontr, labels;
    long discards = 0, n = 0;
    std::map<std::string, int> nsamples;
    std::vector<std::string> samples;
    FILE *hf = a.count("--hashes") ? fopen(a["--hashes"].c_str(), "wb") : nullptr;
    std::string failJson;
    for (n = 0; n < cases; n++) {
        if (now() - t0 > secs) break;
        int ti = sched[n % sched.size()];
        Ctx c;
        c.scratch = scratch;
        c.rng = Rng(seed * 0x9E3779B97F4A7C15ull + (uint64_t)n * 0xD1B54A32D192ED03ull + 12345);
        c.rng.next();
        c.sh = sh;
        if (sh) {
            sh->test = ti;
            sh->n = 0;
        }
        Result r = runOne(c, tests()[ti].fn);
        if (r.status == 2) {
            discards++;
            continue;
        }
        evals[tests()[ti].name]++;
        for (auto &l : c.labels) labels[std::string(tests()[ti].name) + ":" + l]++;
        if (c.nontriv) {
            nontr[tests()[ti].name]++;
            uint64_t h = c.hash ^ ((uint64_t)ti << 56);
            if (hf) fwrite(&h, 8, 1, hf);
            if (nsamples[tests()[ti].name]++ < 1)
                samples.push_back(std::string(tests()[ti].name) + ": " + c.desc);
        }
        if (r.status == 1) {
            failJson = fmt("{\"test\":\"%s\",\"msg\":\"", tests()[ti].name) + jesc(r.msg) + "\",\"desc\":\"" +
                       jesc(c.desc) + "\"}";
            break;
        }
    }
    if (hf) fclose(hf);
    auto dumpmap = [&](std::map<std::string, long> &m) {
        std::string s = "{";
        for (auto &p : m) s += (s.size() > 1 ? "," : "") + ("\"" + jesc(p.first) + "\":") + fmt("%ld", p.second);
        return s + "}";
    };
    std::string s = fmt("{\"done\":1,\"cases\":%ld,\"discards\":%ld,\"wall\":%.3f,", n, discards, now() - t0);
    s += "\"evals\":" + dumpmap(evals) + ",\"nontrivial\":" + dumpmap(nontr) + ",\"labels\":" + dumpmap(labels);
    s += ",\"rule\":\"" + jesc(RULE) + "\",\"samples\":[";
    for (size_t i = 0; i < samples.size(); i++) s += (i ? ",\"" : "\"") + jesc(samples[i]) + "\"";
    s += "]";
    if (!failJson.empty()) s += ",\"fail\":" + failJson;
    s += "}\n";
    fputs(s.c_str(), out());
    fflush(out());
    _exit(failJson.empty() ? 0 : 1);
}

} // namespace pbt

#define PBT_MAIN(rule)                                                                             \
    const char *pbt::RULE = rule;                                                                  \
    int main(int argc, char **argv) { return pbt::main_(argc, argv); }
