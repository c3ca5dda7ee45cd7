// running the command-line programs built from the current tree
#pragma once
#include "files.h"
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <chrono>

struct RunResult {
    int rc = -1; // exit code, 1000+signal, or 2000 for a timeout
    std::string out;
};
inline std::string slurp(const std::string &fn) {
    std::string s;
    FILE *f = fopen(fn.c_str(), "rb");
    if (!f) return s;
    char b[65536];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
    fclose(f);
    return s;
}
inline void spew(const std::string &fn, const std::string &s) {
    FILE *f = fopen(fn.c_str(), "wb");
    fwrite(s.data(), 1, s.size(), f);
    fclose(f);
}
inline bool exists(const std::string &fn) {
    struct stat st;
    return stat(fn.c_str(), &st) == 0;
}
// run a tool in the current directory, output captured
inline RunResult runTool(const std::vector<std::string> &args, int threads = 1, double timeout = 60, const char *log = "tool.log") {
    RunResult r;
    pid_t pid = fork();
    if (pid == 0) {
        setpgid(0, 0);
        freopen(log, "w", stdout);
        dup2(fileno(stdout), 2);
        for (int fd = 3; fd < 64; fd++) close(fd);
        // shared memory only, and no daemon for a single process: starting takes a tenth of the time
        setenv("OMPI_MCA_pml", "ob1", 1);
        setenv("OMPI_MCA_btl", args[0] == "mpirun" ? "vader,self" : "self", 1);
        if (args[0] != "mpirun") setenv("OMPI_MCA_ess_singleton_isolated", "1", 1);
        setenv("OMP_NUM_THREADS", std::to_string(threads).c_str(), 1);
        if (const char *s = getenv("VERIF_TOOL_SHIM")) setenv("LD_PRELOAD", s, 1);
        std::vector<char *> av;
        for (auto &a : args) av.push_back((char *)a.c_str());
        av.push_back(nullptr);
        execvp(av[0], av.data());
        _exit(127);
    }
    auto t0 = std::chrono::steady_clock::now();
    int st = 0;
    while (true) {
        pid_t w = waitpid(pid, &st, WNOHANG);
        if (w == pid) break;
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > timeout) {
            kill(-pid, SIGKILL);
            waitpid(pid, &st, 0);
            r.rc = 2000;
            r.out = slurp(log);
            return r;
        }
        usleep(500);
    }
    r.rc = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    r.out = slurp(log);
    return r;
}
inline std::string toolPath(const char *name) {
    const char *p = getenv(name);
    if (!p) {
        fprintf(stderr, "%s is not set\n", name);
        exit(3);
    }
    return p;
}
