// Driver of the simulator: search over seeds, replay of a tape, minimisation of a failing tape.
// Every simulated execution happens in a forked child, so that a crash of the library is an observation, not an accident.
#include "sut.h"
#include <cerrno>
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <algorithm>
void pool_reset();
extern double steps_worst;
static const Prop *prop;
static uint64_t seed;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static std::string js(const char *s) {
    std::string r = "\""; char b[8];
    for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 0x20 || c >= 0x7f) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
    return r + "\"";
}
// one run; returns 0 ok, 1 skipped, 2 violation
static int run_once(uint64_t run, const uint32_t *tape, size_t n) {
    pool_reset(); strict_accounting = false; int rc = 0;
    // every search begins with a few of the long kinds of run, so that each is met once and early
    want_long = !tape && run < (!strcmp(prop->id, "C03") ? 4 : !strcmp(prop->id, "C08") ? 1 : 0);
    try { run_begin(seed, run, tape, n); prop->fn(); }
    catch (Violation &v) { rc = 2; snprintf(shm->cls, sizeof shm->cls, "%s", v.cls.c_str()); snprintf(shm->msg, sizeof shm->msg, "%s", v.msg.c_str()); }
    catch (EndRun &) { rc = 1; }
    catch (std::exception &e) { rc = 2; snprintf(shm->cls, sizeof shm->cls, "%s", "unexpected-exception"); snprintf(shm->msg, sizeof shm->msg, "the library let an exception escape: %.200s", e.what()); }
    sched_on = false; in_lib = 0; alloc_plan = AllocPlan(); shm->hash = run_hash(); shm->status = rc == 2 ? 2 : 1;
    return rc;
}
static void child_init() { shm->status = 0; lib_snapshot(); pool_reset(); model_resolve(); }
static std::string tape_json() { std::string s = "["; for (uint32_t i = 0; i < shm->tape_len; i++) s += (i ? "," : "") + std::to_string(shm->tape[i]); return s + "]"; }
static int wait_child(pid_t p, double limit) {          // exit code, or -signal; -1000 when it had to be killed
    double t0 = now(); int st;
    for (int spin = 0;; spin++) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (limit > 0 && now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); return -1000; }
        usleep(spin < 200 ? 200 : spin < 1000 ? 2000 : 20000);
    }
    return WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
}
static void quiet_stderr(const char *to = "/dev/null") { int fd = open(to, O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd >= 0) { dup2(fd, 2); close(fd); } }
// runs one tape in a child; fills shm; returns true when it fails in class `cls` (any class when null)
static bool try_tape(const std::vector<uint32_t> &t, const char *cls) {
    std::vector<uint32_t> copy = t; pid_t p = fork();
    if (p == 0) { quiet_stderr(); child_init(); int r = run_once(shm->run, copy.data(), copy.size()); _exit(r == 2 ? 3 : 0); }
    int rc = wait_child(p, 200);
    if (rc != 3 && rc != 66) return false;
    if (strncmp(shm->cls, "harness-crash", 13) == 0) return false;
    return !cls || strcmp(shm->cls, cls) == 0;
}
int main(int argc, char **argv) {
    // sim MODELDIR CMD PROP SEED ...
    if (argc < 5) return 70;
    std::string md = argv[1], cmd = argv[2]; seed = strtoull(argv[4], nullptr, 10);
    for (int i = 0; i < nprops; i++) if (!strcmp(props[i].id, argv[3])) prop = &props[i];
    if (!prop) { fprintf(stderr, "unknown property %s\n", argv[3]); return 70; }
    core_init(nullptr);
    model_load((md + "/repertoire.bin").c_str(), (md + "/charsets.bin").c_str(), (md + "/names.txt").c_str());
    if (cmd == "search") {      // START COUNT STRIDE TIMECAP HASHFILE ASANLOG
        uint64_t start = strtoull(argv[5], 0, 10), count = strtoull(argv[6], 0, 10), stride = strtoull(argv[7], 0, 10); double cap = atof(argv[8]); double t0 = now();
        pid_t p = fork();
        if (p == 0) {
            quiet_stderr(argv[10]); FILE *hf = fopen(argv[9], "wb"); child_init();
            for (uint64_t k = 0; k < count; k++) {
                if (now() - t0 > cap) break;
                uint64_t nt0 = shm->runs_nontrivial;
                int r = run_once(start + k * stride, nullptr, 0);
                if (r == 2) { fclose(hf); _exit(3); }
                if (r == 1) shm->skipped++;
                shm->done++;
                if (shm->runs_nontrivial > nt0) { uint64_t h = run_hash(); fwrite(&h, 8, 1, hf); }
            }
            shm->probe[63] = (uint64_t)(steps_worst * 1000); fclose(hf); _exit(0);
        }
        int rc = wait_child(p, cap + 120);
        size_t edges = 0; for (size_t i = 0; i < COV_MAX; i++) edges += shm->cov[i];
        printf("{\"rc\":%d,\"done\":%llu,\"skipped\":%u,\"nontrivial\":%llu,\"calls\":%llu,\"steps\":%llu,\"preempts\":%llu,\"migrations\":%llu,\"bytes_in\":%llu,\"bytes_out\":%llu,\"edges\":%zu,\"run\":%llu,\"hash\":\"%016llx\",\"cls\":%s,\"msg\":%s,\"wall\":%.3f",
            rc, (unsigned long long)shm->done, shm->skipped, (unsigned long long)shm->runs_nontrivial, (unsigned long long)shm->calls, (unsigned long long)shm->steps, (unsigned long long)shm->preempts, (unsigned long long)shm->migrations, (unsigned long long)shm->bytes_in, (unsigned long long)shm->bytes_out, edges,
            (unsigned long long)shm->run, (unsigned long long)shm->hash, js(shm->cls).c_str(), js(shm->msg).c_str(), now() - t0);
        printf(",\"faults\":{"); for (int i = 0; i < F_LAST; i++) printf("%s\"%s\":%llu", i ? "," : "", fault_name[i], (unsigned long long)shm->fault[i]);
        printf("},\"probes\":["); for (int i = 0; i < 64; i++) printf("%s%llu", i ? "," : "", (unsigned long long)shm->probe[i]);
        printf("],\"cov\":\""); for (size_t i = 0; i < COV_MAX; i += 4) { int v = 0; for (int k = 0; k < 4; k++) v = v * 2 + shm->cov[i + k]; putchar("0123456789abcdef"[v]); }
        printf("\"");
        if (rc != 0) printf(",\"tape\":%s", tape_json().c_str());
        printf("}\n"); return 0;
    }
    auto read_tape = [&](const char *f) { std::ifstream in(f); std::vector<uint32_t> t; uint32_t v; while (in >> v) t.push_back(v); return t; };
    if (cmd == "one") {          // run RUN | tape FILE ; prints a JSON verdict and the trace
        bool by_tape = !strcmp(argv[5], "tape"); std::vector<uint32_t> t; if (by_tape) t = read_tape(argv[6]); uint64_t run = by_tape ? 0 : strtoull(argv[6], 0, 10);
        std::string tf = argv[7]; bool vb = argc <= 8;
        pid_t p = fork();
        if (p == 0) {
            quiet_stderr((tf + ".err").c_str()); verbose = false; child_init(); verbose = vb;
            // stream the trace to the file as it grows, so that a crash keeps it
            setvbuf(stdout, nullptr, _IONBF, 0); extern FILE *trace_file; trace_file = fopen(tf.c_str(), "w");
            int r = run_once(run, by_tape ? t.data() : nullptr, t.size()); _exit(r == 2 ? 3 : r);
        }
        int rc = wait_child(p, 300);
        printf("{\"rc\":%d,\"hash\":\"%016llx\",\"cls\":%s,\"msg\":%s,\"tape\":%s}\n", rc, (unsigned long long)shm->hash, js(shm->cls).c_str(), js(shm->msg).c_str(), tape_json().c_str());
        return 0;
    }
    if (cmd == "shrink") {       // TAPEFILE TIMECAP
        std::vector<uint32_t> t = read_tape(argv[5]); double cap = atof(argv[6]), t0 = now(); uint64_t tried = 0;
        shm->run = 0; if (!try_tape(t, nullptr)) { printf("{\"ok\":false}\n"); return 0; }
        std::string cls = shm->cls; auto norm = [&]() { t.assign(shm->tape, shm->tape + shm->tape_len); while (!t.empty() && t.back() == 0) t.pop_back(); };
        norm(); size_t first = t.size();
        auto attempt = [&](const std::vector<uint32_t> &c) { tried++; if (!try_tape(c, cls.c_str())) return false; size_t before = t.size(); uint64_t s0 = 0, s1 = 0; for (auto v : t) s0 += v; std::vector<uint32_t> old = t; norm(); for (auto v : t) s1 += v; if (t.size() > before || (t.size() == before && s1 >= s0)) { t = old; return false; } return true; };
        bool again = true;
        while (again && now() - t0 < cap) {
            again = false;
            for (size_t len = std::max<size_t>(1, t.size() / 2); len >= 1 && now() - t0 < cap; len /= 2) {
                for (size_t i = 0; i < t.size() && now() - t0 < cap;) {            // delete
                    std::vector<uint32_t> c = t; c.erase(c.begin() + i, c.begin() + std::min(c.size(), i + len));
                    if (attempt(c)) again = true; else i += len;
                }
                for (size_t i = 1; i < t.size() && now() - t0 < cap; i += len) {   // zero
                    std::vector<uint32_t> c = t; bool any = false; for (size_t k = i; k < std::min(c.size(), i + len); k++) { any |= c[k] != 0; c[k] = 0; }
                    if (any && attempt(c)) again = true;
                }
            }
            for (size_t i = 0; i < t.size() && now() - t0 < cap; i++) for (int how = 0; how < 2 && i < t.size() && t[i]; how++) {
                std::vector<uint32_t> c = t; c[i] = how ? c[i] - 1 : c[i] / 2; if (attempt(c)) again = true;
            }
        }
        std::string s; for (size_t i = 0; i < t.size(); i++) s += (i ? "," : "") + std::to_string(t[i]);
        printf("{\"ok\":true,\"cls\":%s,\"from\":%zu,\"to\":%zu,\"tried\":%llu,\"tape\":[%s]}\n", js(cls.c_str()).c_str(), first, t.size(), (unsigned long long)tried, s.c_str());
        return 0;
    }
    return 70;
}
