// Common driver of the C++ harnesses: exhaustive enumeration of cases, forked workers,
// crash / hang detection, replay of one case.
#pragma once
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vh {
typedef std::vector<int> Case;
// kinds of violation (by prefix) that the property being decided is about; empty: all
inline std::vector<std::string>& wanted() { static std::vector<std::string> w; return w; }
struct Out {
    std::string viol;              // empty: the property held on this case
    std::string kind;              // short stable class of the violation
    uint64_t outcome = 0;          // hash of what was observed
    bool nontrivial = false;
    uint64_t states = 0, transitions = 0, traces = 0;
    void fail(const std::string& k, const std::string& m) {
        bool want = wanted().empty(); for (auto& w : wanted()) want |= k.compare(0, w.size(), w) == 0;
        if (want && viol.empty()) { kind = k; viol = m; }
    }
};
inline uint64_t mix(uint64_t h, uint64_t x) {
    h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; return h;
}
struct Harness {
    virtual ~Harness() = default;
    virtual int nshards(bool thorough) = 0;
    // emit returns false when the worker must stop
    virtual void gen(int shard, bool thorough, const std::function<bool(const Case&)>& emit) = 0;
    virtual void run(const Case& c, Out& o) = 0;
    virtual std::string describe(const Case& c) = 0;
    virtual int hang_seconds() { return 60; }
    virtual void worker_init() {}
};
inline std::string join(const Case& c) {
    std::string s; for (size_t i = 0; i < c.size(); i++) { if (i) s += ","; s += std::to_string(c[i]); } return s;
}
inline std::string esc(const std::string& s) {
    std::string r;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
        else if (ch < 32) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; }
        else r += ch;
    }
    return r;
}
struct Slot {
    volatile int len; volatile uint64_t beat; volatile int busy; int c[8192];
    uint64_t evals, nontriv, states, transitions, traces, cases_total; volatile int viols;
};
struct Shm { std::atomic<int> next; std::atomic<int> stop; std::atomic<int> done; Slot s[64]; };

inline Case parse(const char* s) {
    Case c; std::stringstream ss(s); std::string t;
    while (std::getline(ss, t, ',')) if (!t.empty()) c.push_back(atoi(t.c_str()));
    return c;
}

inline int drive(Harness& h, int argc, char** argv) {
    bool thorough = false; const char* replay = nullptr; int nproc = 8; double cap = 1e9; int maxviol = 3;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--thorough") thorough = true;
        else if (a == "--replay") replay = argv[++i];
        else if (a == "--procs") nproc = atoi(argv[++i]);
        else if (a == "--cap") cap = atof(argv[++i]);
        else if (a == "--kinds") { std::stringstream ss(argv[++i]); std::string t; while (std::getline(ss, t, ',')) wanted().push_back(t); }
        else if (a == "--maxviol") maxviol = atoi(argv[++i]);
    }
    if (replay) {
        Case c = parse(replay); Out o;
        printf("CASE %s\n", h.describe(c).c_str()); fflush(stdout);
        h.worker_init();
        alarm(h.hang_seconds() * 2);
        h.run(c, o);
        if (!o.viol.empty()) { printf("VIOL {\"kind\":\"%s\",\"case\":\"%s\",\"describe\":\"%s\",\"detail\":\"%s\"}\n", esc(o.kind).c_str(), join(c).c_str(), esc(h.describe(c)).c_str(), esc(o.viol).c_str()); return 1; }
        printf("OK\n"); return 0;
    }
    Shm* sh = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void*)sh, 0, sizeof(Shm));
    int ns = h.nshards(thorough);
    auto t0 = std::chrono::steady_clock::now();
    auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    fflush(stdout);
    std::vector<pid_t> pids; std::vector<int> fds;
    for (int w = 0; w < nproc; w++) {
        int p[2]; if (pipe(p)) return 3;
        pid_t pid = fork();
        if (pid == 0) {
            close(p[0]); FILE* out = fdopen(p[1], "w");
            Slot& s = sh->s[w]; std::unordered_set<uint64_t> seen; int samples = 0; uint64_t k = 0;
            h.worker_init();
            while (!sh->stop) {
                int shard = sh->next++;
                if (shard >= ns) break;
                h.gen(shard, thorough, [&](const Case& c) -> bool {
                    if (sh->stop) return false;
                    int n = std::min<int>(c.size(), 8192); memcpy(s.c, c.data(), n * sizeof(int)); s.len = n;
                    s.busy = 1; s.beat++;
                    Out o; h.run(c, o);
                    s.busy = 0; s.evals++;
                    s.states += o.states; s.transitions += o.transitions; s.traces += o.traces;
                    if (o.nontrivial) { s.nontriv++; if (seen.size() < 500000) seen.insert(o.outcome);
                        if ((w < 2) && samples < 2 && ((++k) % 97 == 1)) { samples++; fprintf(out, "SAMPLE {\"case\":\"%s\",\"describe\":\"%s\",\"outcome\":\"%016llx\"}\n", join(c).c_str(), esc(h.describe(c)).c_str(), (unsigned long long)o.outcome); } }
                    if (!o.viol.empty()) {
                        s.viols++;
                        fprintf(out, "VIOL {\"kind\":\"%s\",\"case\":\"%s\",\"describe\":\"%s\",\"detail\":\"%s\"}\n", esc(o.kind).c_str(), join(c).c_str(), esc(h.describe(c)).c_str(), esc(o.viol).c_str());
                        fflush(out);
                        if (s.viols >= maxviol) sh->stop = 1;
                    }
                    return !sh->stop;
                });
                if (!sh->stop) sh->done++;
            }
            for (auto x : seen) fprintf(out, "O %016llx\n", (unsigned long long)x);
            fprintf(out, "END\n"); fflush(out); _exit(0);
        }
        close(p[1]); pids.push_back(pid); fds.push_back(p[0]);
    }
    std::vector<std::string> buf(nproc); std::vector<bool> open_(nproc, true), ended(nproc, false);
    std::vector<uint64_t> lastbeat(nproc, 0); std::vector<double> lastt(nproc, 0);
    std::unordered_set<uint64_t> outcomes; int left = nproc, nviol = 0, capped = 0;
    auto handle = [&](int w, const std::string& line) {
        if (line.compare(0, 2, "O ") == 0) outcomes.insert(strtoull(line.c_str() + 2, nullptr, 16));
        else if (line == "END") ended[w] = true;
        else { if (line.compare(0, 4, "VIOL") == 0) nviol++; printf("%s\n", line.c_str()); fflush(stdout); }
    };
    while (left > 0) {
        std::vector<pollfd> pf; std::vector<int> idx;
        for (int w = 0; w < nproc; w++) if (open_[w]) { pf.push_back({fds[w], POLLIN, 0}); idx.push_back(w); }
        poll(pf.data(), pf.size(), 500);
        double now = elapsed();
        if (now > cap && !sh->stop) { sh->stop = 1; capped = 1; }
        for (size_t i = 0; i < pf.size(); i++) {
            int w = idx[i];
            if (pf[i].revents) {
                char b[65536]; ssize_t r = read(fds[w], b, sizeof b);
                if (r > 0) {
                    buf[w].append(b, r); size_t p, st = 0;
                    while ((p = buf[w].find('\n', st)) != std::string::npos) { handle(w, buf[w].substr(st, p - st)); st = p + 1; }
                    buf[w].erase(0, st);
                } else {
                    open_[w] = false; left--; close(fds[w]); int st; waitpid(pids[w], &st, 0);
                    if (!ended[w]) {
                        Slot& s = sh->s[w]; Case c(s.c, s.c + s.len);
                        std::string why = WIFSIGNALED(st) ? std::string("killed by signal ") + std::to_string(WTERMSIG(st)) : "exit status " + std::to_string(WEXITSTATUS(st));
                        if (!s.busy) { printf("HARNESS-ERROR worker died outside the code under test: %s\n", why.c_str()); return 3; }
                        printf("VIOL {\"kind\":\"crash\",\"case\":\"%s\",\"describe\":\"%s\",\"detail\":\"the code under test crashed or aborted: %s\"}\n", join(c).c_str(), esc(h.describe(c)).c_str(), why.c_str());
                        fflush(stdout); nviol++; sh->stop = 1;
                    }
                }
            }
            if (open_[w]) {
                Slot& s = sh->s[w];
                if (s.beat != lastbeat[w] || !s.busy) { lastbeat[w] = s.beat; lastt[w] = now; }
                else if (now - lastt[w] > h.hang_seconds()) {
                    Case c(s.c, s.c + s.len);
                    printf("VIOL {\"kind\":\"hang\",\"case\":\"%s\",\"describe\":\"%s\",\"detail\":\"the code under test did not return within %d s\"}\n", join(c).c_str(), esc(h.describe(c)).c_str(), h.hang_seconds());
                    fflush(stdout); nviol++; sh->stop = 1; ended[w] = true; kill(pids[w], SIGKILL);
                }
            }
        }
    }
    uint64_t ev = 0, nt = 0, stt = 0, tr = 0, tc = 0;
    for (int w = 0; w < nproc; w++) { ev += sh->s[w].evals; nt += sh->s[w].nontriv; stt += sh->s[w].states; tr += sh->s[w].transitions; tc += sh->s[w].traces; }
    printf("STAT {\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct_outcomes\":%zu,\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"shards\":%d,\"shards_done\":%d,\"capped\":%d,\"wall\":%.2f}\n",
        (unsigned long long)ev, (unsigned long long)nt, outcomes.size(), (unsigned long long)stt, (unsigned long long)tr, (unsigned long long)tc, ns, (int)sh->done, capped, elapsed());
    return nviol ? 1 : 0;
}
}
