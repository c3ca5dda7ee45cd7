// drives the repository's Python scripts through pyserver.py
#pragma once
#include "files.h"
#include <signal.h>
#include <sys/wait.h>
typedef std::map<std::string, std::vector<double>> Ans;
class PyServer {
    FILE *in = nullptr, *out = nullptr;
    void start() {
        int a[2], b[2];
        if (pipe(a) || pipe(b)) throw std::runtime_error("pipe");
        pid_t p = fork();
        if (p == 0) {
            dup2(a[0], 0);
            dup2(b[1], 1);
            for (int fd = 3; fd < 256; fd++) close(fd);
            std::string s = std::string(getenv("VERIF_DIR") ? getenv("VERIF_DIR") : "/verif") + "/harness/pyserver.py";
            setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
            unsetenv("MALLOC_PERTURB_");
            setenv("OMP_NUM_THREADS", "1", 1);
            setenv("OPENBLAS_NUM_THREADS", "1", 1);
            execl("/usr/bin/python3", "python3", s.c_str(), (char *)0);
            _exit(127);
        }
        close(a[0]);
        close(b[1]);
        in = fdopen(a[1], "w");
        out = fdopen(b[0], "r");
        signal(SIGPIPE, SIG_IGN);
    }

  public:
    static PyServer &get() {
        static PyServer s;
        return s;
    }
    // the answer, or in `err` what the script complained about
    Ans ask(const std::string &req, std::string &err) {
        if (!in) start();
        err.clear();
        fputs((req + "\n").c_str(), in);
        fflush(in);
        std::string l;
        int ch;
        while ((ch = getc(out)) != EOF && ch != '\n') l += (char)ch;
        if (ch == EOF) {
            fclose(in), fclose(out);
            in = out = nullptr;
            err = "the interpreter died";
            return {};
        }
        Ans r;
        if (l.compare(0, 2, "OK") != 0) {
            err = l;
            return r;
        }
        const char *q = l.c_str() + 2;
        while (*q == ' ') {
            q++;
            const char *e = strchr(q, ' ');
            if (!e) break;
            std::string name(q, e);
            char *n;
            long k = strtol(e, &n, 10);
            q = n;
            std::vector<double> v(k);
            for (long i = 0; i < k; i++) v[i] = strtod(q, &n), q = n;
            if (k == 0 && q[0] == ' ' && (q[1] == ' ' || q[1] == 0)) q++;
            r[name] = v;
        }
        return r;
    }
};
inline Ans py(Ctx &c, const std::string &req) {
    std::string e;
    Ans a = PyServer::get().ask(req, e);
    PBT_CHECK(c, e.empty(), "the script failed on \"%s\": %s", req.substr(0, 60).c_str(), e.c_str());
    return a;
}
inline std::string hx(const std::vector<double> &v) {
    std::string s;
    for (double x : v) s += fmt(" %a", x);
    return s;
}
