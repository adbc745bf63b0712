// Property-based testing engine used by every check.
//
// A *case* is a value: the suite it belongs to, four header words and a list of
// operations (code, a, b).  Generators produce cases from a seed; suites
// interpret a case against the real library code and an explicit model; every
// failure is shrunk by editing the case value and re-running it in a forked
// child, so assertion failures, signals, sanitizer reports and endless loops
// shrink like any other failure.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <functional>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(memory_sanitizer)
#define VP_HAS_ASAN 1
#endif
#if __has_feature(thread_sanitizer)
#define VP_HAS_TSAN 1
#endif
#endif
#ifndef VP_HAS_TSAN
#define VP_HAS_TSAN 0
#endif
#ifndef VP_HAS_ASAN
#define VP_HAS_ASAN 0
#endif

namespace vp {

struct Op { uint16_t code; uint32_t a, b; };
struct Case { int suite = 0; uint32_t hdr[4] = {0,0,0,0}; std::vector<Op> ops; };

static inline uint64_t mix64(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31);
}
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    uint32_t below(uint32_t n) { return n ? (uint32_t)((next() >> 11) % n) : 0; }
    uint32_t range(uint32_t lo, uint32_t hi) { return lo + below(hi - lo + 1); }
};

// ---------------------------------------------------------------- run state
struct LabelSlot { char name[48]; uint64_t n; };
static const int MAXLABEL = 96;
struct Shared {                       // one per worker, in shared memory
    volatile uint64_t curCase;        // index being executed
    volatile int suite;
    uint64_t cases, nontrivial, skippedOps, execOps, maxSize;
    LabelSlot label[MAXLABEL];
    volatile int failed;              // 1 oracle, 2 hang
    char msg[2048];
    uint64_t nhash; uint64_t hashcap;
};

struct Ctx {
    const Case *c = nullptr;
    Shared *sh = nullptr;
    Shared *fsh = nullptr;            // where a secondary thread reports a failure
    FILE *trace = nullptr;
    int scratch = 0;                  // per-case counter for the property's own use
    int nontriv = 0;                  // set by suites through interesting()
    uint64_t eff = 0;                 // number of operations that did something
    uint64_t effHash = 0;
    std::vector<int> caseLabels;      // labels already counted for this case

    uint32_t hdr(int i) const { return c->hdr[i]; }

    void label(const char *name) {    // counted at most once per case
        if (!sh) return;
        for (int i = 0; i < MAXLABEL; i++) {
            LabelSlot &l = sh->label[i];
            if (l.name[0] == 0) { strncpy(l.name, name, sizeof l.name - 1); }
            if (strncmp(l.name, name, sizeof l.name - 1) == 0) {
                for (int k : caseLabels) if (k == i) return;
                caseLabels.push_back(i); l.n++; return;
            }
        }
    }
    void interesting(const char *name) { label(name); nontriv = 1; }
    void did(uint64_t h) { eff++; effHash = mix64(effHash ^ h); if (sh) sh->execOps++; }
    void log(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
        if (!trace) return;
        va_list ap; va_start(ap, fmt); vfprintf(trace, fmt, ap); va_end(ap); fputc('\n', trace); fflush(trace);
    }
    [[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
        char buf[1500]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
        if (trace) { fprintf(trace, "!! %s\n", buf); fflush(trace); }
        if (Shared *f = sh ? sh : fsh) { strncpy(f->msg, buf, sizeof f->msg - 1); f->failed = 1; }
#ifdef VP_FUZZ
        fprintf(stderr, "ORACLE: %s\n", buf); abort();
#endif
        _exit(77);
    }
};
static Ctx *g_ctx = nullptr;          // for allocators / element types
[[noreturn]] static inline void gfail(const char *what, const void *p = nullptr, long n = 0) {
    if (g_ctx) g_ctx->fail("%s (addr %p, n %ld)", what, p, n);
    fprintf(stderr, "oracle outside a case: %s\n", what); abort();
}
#define VP_CHECK(ctx, cond, ...) do { if (!(cond)) (ctx).fail(__VA_ARGS__); } while (0)

// ---------------------------------------------------------------- suites
struct Suite {
    std::string name;
    std::function<void(Ctx &)> run;
    std::vector<int> weights;         // base weight per op code
    int share = 1;                    // share of the case budget
    bool isolated = false;            // run every case in its own process
    int maxLen = 1200;                // longest generated history
};
struct Property {
    std::string id, rule;
    std::vector<std::string> assumptions;
    std::vector<Suite> suites;
    uint64_t quickCases = 20000, thoroughCases = 400000;
};
void define(Property &);              // supplied by each property's file

// A property's suites can be compiled as several binaries (-DVP_PART=k) to build in parallel.
#ifndef VP_PART
#define VP_PART -1
#endif
#if VP_PART < 0 || VP_PART == 0
#define ADD0(...) P.suites.push_back(__VA_ARGS__)
#else
#define ADD0(...) (void)0
#endif
#if VP_PART < 0 || VP_PART == 1
#define ADD1(...) P.suites.push_back(__VA_ARGS__)
#else
#define ADD1(...) (void)0
#endif
#if VP_PART < 0 || VP_PART == 2
#define ADD2(...) P.suites.push_back(__VA_ARGS__)
#else
#define ADD2(...) (void)0
#endif
#if VP_PART < 0 || VP_PART == 3
#define ADD3(...) P.suites.push_back(__VA_ARGS__)
#else
#define ADD3(...) (void)0
#endif

static inline void run_case(const Property &P, const Case &c, Ctx &ctx) {
    ctx.c = &c; g_ctx = &ctx;
    P.suites[c.suite].run(ctx);
    g_ctx = nullptr;
}

// ---------------------------------------------------------------- generator
static Case generate(const Property &P, const std::vector<int> &order, uint64_t seed, uint64_t idx) {
    Case c; c.suite = order[idx % order.size()];
    const Suite &S = P.suites[c.suite];
    uint64_t nh = 1469598103934665603ull; for (unsigned char ch : S.name) nh = (nh ^ ch) * 1099511628211ull;
    Rng r(mix64(seed * 0x100000001b3ull + 77) ^ mix64(idx + 0x51ed27f) ^ mix64(nh));
    for (auto &h : c.hdr) h = (uint32_t)r.next();
    uint32_t t = r.below(100), len;
    if (t < 30) len = r.range(1, 12);
    else if (t < 62) len = r.range(12, 50);
    else if (t < 90) len = r.range(50, 200);
    else if (t < 98) len = r.range(200, 600);
    else len = r.range(600, 1500);
    len = std::min<uint32_t>(len, S.maxLen);
    size_t n = S.weights.size();
    std::vector<int> w(n);
    auto draw = [&]() {                // swarm: a fresh random emphasis
        static const int f[8] = {0, 0, 1, 1, 2, 4, 8, 16};
        long tot = 0;
        bool plain = r.below(4) == 0;
        for (size_t i = 0; i < n; i++) { w[i] = S.weights[i] * (plain ? 1 : f[r.below(8)]); tot += w[i]; }
        if (!tot) for (size_t i = 0; i < n; i++) w[i] = S.weights[i];
    };
    draw();
    uint32_t phase = r.range(6, 120);
    bool smallArgs = r.below(3) == 0;
    for (uint32_t i = 0; i < len; i++) {
        if (i && i % phase == 0) { draw(); phase = r.range(6, 120); }
        long tot = 0; for (int x : w) tot += x;
        long k = r.next() % (uint64_t)(tot ? tot : 1);
        size_t code = 0; while (code + 1 < n && k >= w[code]) { k -= w[code]; code++; }
        Op o; o.code = (uint16_t)code;
        o.a = smallArgs ? r.below(16) : (uint32_t)r.next();
        o.b = (uint32_t)r.next();
        c.ops.push_back(o);
    }
    return c;
}
// coverage-guided driver: bytes -> case
static Case decode(const Property &P, const uint8_t *d, size_t n) {
    Case c; size_t i = 0;
    auto u8 = [&]() -> uint32_t { return i < n ? d[i++] : 0; };
    c.suite = u8() % P.suites.size();
    for (auto &h : c.hdr) h = u8() * 0x01010101u;
    size_t nop = P.suites[c.suite].weights.size();
    while (i + 4 <= n && c.ops.size() < 400) {
        Op o; o.code = (uint16_t)(u8() % nop);
        if (P.suites[c.suite].weights[o.code] == 0) o.code = 0;
        uint32_t a = u8(), a2 = u8();
        o.a = a2 & 0x80 ? (a | a2 << 8) * 0x00010001u : a; o.b = u8() * 0x01010101u;
        c.ops.push_back(o);
    }
    return c;
}

#ifdef VP_FUZZ
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
    static Property *P = nullptr;
    if (!P) { P = new Property; define(*P); }
    Case c = decode(*P, data, size);
    Ctx ctx; run_case(*P, c, ctx);
    return 0;
}
int fuzz_dump_main(int, char **) { return 0; }
}
#else

// ---------------------------------------------------------------- execution
static void on_alarm(int) {
    if (g_ctx && g_ctx->sh) {
        g_ctx->sh->failed = 2;
        strcpy(g_ctx->sh->msg, "operation did not terminate (CPU limit per case exceeded by a factor of more than 100 over the slowest case)");
    }
    _exit(78);
}
static int g_cpu = 30;
static void arm(int secs) {
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = secs; setitimer(ITIMER_PROF, &it, nullptr);
}
static void child_setup() {
    signal(SIGPROF, VP_HAS_TSAN ? SIG_DFL : on_alarm);  // (a handler would be deferred there)
    struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
#if !defined(__SANITIZE_ADDRESS__) && !VP_HAS_ASAN && !VP_HAS_TSAN
    // runaway allocation ends the case, not the sandbox (the sanitizer builds use hard_rss_limit_mb)
    rl.rlim_cur = rl.rlim_max = 3ull << 30; setrlimit(RLIMIT_AS, &rl);
#endif
}
static Shared *new_shared() {
    void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    memset(p, 0, sizeof(Shared)); return (Shared *)p;
}
static std::string slurp(const std::string &f, size_t max = 200000) {
    std::string s; FILE *h = fopen(f.c_str(), "r"); if (!h) return s;
    char b[4096]; size_t n; while (s.size() < max && (n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n); fclose(h); return s;
}
static std::string g_tmp = "/tmp";

static std::string digest_stderr(const std::string &err) {
    static const char *keys[] = {"ORACLE:", "Assertion", "ERROR: AddressSanitizer", "WARNING: ThreadSanitizer", "runtime error", "terminate called", "MemorySanitizer", "ERROR: "};
    for (auto k : keys) { size_t p = err.find(k); if (p != std::string::npos) {
        size_t b = err.rfind('\n', p); b = b == std::string::npos ? 0 : b + 1;
        size_t e = err.find('\n', p); return err.substr(b, (e == std::string::npos ? err.size() : e) - b).substr(0, 400); } }
    return "";
}
struct Outcome { bool ok; std::string msg; std::string err; };
static Shared *g_one = nullptr;
static Outcome exec_one(const Property &P, const Case &c, FILE *trace = nullptr, bool wantErr = false) {
    if (!g_one) g_one = new_shared();
    g_one->failed = 0; g_one->msg[0] = 0;
    std::string errf = g_tmp + "/err." + std::to_string(getpid());
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        child_setup();
        int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        if (fd >= 0) dup2(fd, 2);
        arm(g_cpu);
        Ctx ctx; ctx.sh = g_one; ctx.trace = trace;
        run_case(P, c, ctx);
        if (trace) fflush(trace);
        _exit(0);
    }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    Outcome o; o.ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
    if (!o.ok) {
        if (g_one->failed) o.msg = g_one->msg;
        else {
            o.err = slurp(errf);
            o.msg = digest_stderr(o.err);
            char b[80];
            if (WIFSIGNALED(st)) snprintf(b, sizeof b, "process killed by signal %d (%s) ", WTERMSIG(st), strsignal(WTERMSIG(st)));
            else snprintf(b, sizeof b, "process exited with status %d ", WEXITSTATUS(st));
            o.msg = std::string(b) + o.msg;
        }
    }
    (void)wantErr;
    unlink(errf.c_str());
    return o;
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static Case shrink(const Property &P, Case best, std::string &msg, double budget, int &runs) {
    double t0 = now(); runs = 0;
    auto bad = [&](const Case &c) {
        if (now() - t0 > budget) return false;
        runs++; Outcome o = exec_one(P, c); if (!o.ok) { msg = o.msg; return true; } return false; };
    bool progress = true;
    int oldcpu = g_cpu; g_cpu = 5;
    while (progress && now() - t0 < budget) {
        progress = false;
        for (size_t chunk = std::max<size_t>(1, best.ops.size() / 2); chunk >= 1; chunk /= 2) {
            for (size_t i = 0; i < best.ops.size();) {
                Case t = best; t.ops.erase(t.ops.begin() + i, t.ops.begin() + std::min(best.ops.size(), i + chunk));
                if (bad(t)) { best = t; progress = true; } else i += chunk;
            }
            if (chunk == 1) break;
        }
        for (int h = 0; h < 4; h++) for (uint32_t v : {0u, 1u, best.hdr[h] % 64}) {
            if (best.hdr[h] <= v) continue;
            Case t = best; t.hdr[h] = v; if (bad(t)) { best = t; progress = true; break; }
        }
        for (size_t i = 0; i < best.ops.size(); i++) for (int f = 0; f < 2; f++) {
            uint32_t cur = f ? best.ops[i].b : best.ops[i].a;
            for (uint32_t v : {0u, 1u, 2u, 3u, cur % 16, cur % 256, cur / 2}) {
                if (v >= cur) continue;
                Case t = best; (f ? t.ops[i].b : t.ops[i].a) = v;
                if (bad(t)) { best = t; progress = true; break; }
            }
        }
    }
    g_cpu = oldcpu;
    return best;
}
static std::string case_text(const Property &P, const Case &c) {
    std::string s = "property " + P.id + "\nsuite " + P.suites[c.suite].name + "\nhdr";
    for (auto h : c.hdr) s += " " + std::to_string(h);
    s += "\n";
    for (auto &o : c.ops) s += "op " + std::to_string(o.code) + " " + std::to_string(o.a) + " " + std::to_string(o.b) + "\n";
    return s;
}
static bool parse_case(const Property &P, const std::string &txt, Case &c) {
    bool got = false; size_t p = 0;
    while (p < txt.size()) {
        size_t e = txt.find('\n', p); if (e == std::string::npos) e = txt.size();
        std::string l = txt.substr(p, e - p); p = e + 1;
        if (l.compare(0, 6, "suite ") == 0) {
            std::string n = l.substr(6);
            for (size_t i = 0; i < P.suites.size(); i++) if (P.suites[i].name == n) { c.suite = (int)i; got = true; }
        } else if (l.compare(0, 4, "hdr ") == 0) sscanf(l.c_str(), "hdr %u %u %u %u", &c.hdr[0], &c.hdr[1], &c.hdr[2], &c.hdr[3]);
        else if (l.compare(0, 3, "op ") == 0) { unsigned k; Op o; if (sscanf(l.c_str(), "op %u %u %u", &k, &o.a, &o.b) == 3) { o.code = (uint16_t)k; c.ops.push_back(o); } }
    }
    return got;
}
static std::string trace_of(const Property &P, const Case &c, Outcome *out = nullptr) {
    std::string f = g_tmp + "/trace." + std::to_string(getpid());
    FILE *h = fopen(f.c_str(), "w"); Outcome o = exec_one(P, c, h); fclose(h);
    std::string s = slurp(f); unlink(f.c_str()); if (out) *out = o; return s;
}
static std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n"; else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; } else o += ch; }
    return o + "\"";
}

// run all cases with `jobs` workers; returns index of a failing case or -1
struct RunStats { uint64_t cases = 0, nontrivial = 0, distinct = 0, ops = 0; std::map<std::string, uint64_t> labels; std::map<std::string,uint64_t> perSuite; };

static int engine_main(int argc, char **argv) {
    Property P; define(P);
    uint64_t seed = 1; uint64_t cases = P.quickCases; int jobs = 8; std::string out, replayDir = ".", replay; std::string only; double shrinkBudget = 60; std::string tag = "bin"; uint64_t base = 0;
    std::string fuzzInput, hashFile;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--cases") cases = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--scale") cases = (uint64_t)(P.quickCases * atof(val().c_str()));
        else if (a == "--thorough") cases = P.thoroughCases;
        else if (a == "--base") base = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--jobs") jobs = atoi(val().c_str());
        else if (a == "--out") out = val();
        else if (a == "--replay-dir") replayDir = val();
        else if (a == "--replay") replay = val();
        else if (a == "--fuzz-input") fuzzInput = val();
        else if (a == "--only") only = val();
        else if (a == "--tmp") g_tmp = val();
        else if (a == "--tag") tag = val();
        else if (a == "--hashes") hashFile = val();
        else if (a == "--list") { printf("cases %llu %llu\n", (unsigned long long)P.quickCases, (unsigned long long)P.thoroughCases); for (auto &s : P.suites) printf("suite %d %s\n", s.share, s.name.c_str()); return 0; }
    }
    if (!fuzzInput.empty()) {          // turn a libFuzzer input into a case file on stdout
        std::string d = slurp(fuzzInput); Case c = decode(P, (const uint8_t *)d.data(), d.size());
        std::string msg; Outcome o = exec_one(P, c); if (o.ok) return 0;
        msg = o.msg; int runs; c = shrink(P, c, msg, shrinkBudget, runs);
        printf("%s# failure: %s\n", case_text(P, c).c_str(), msg.c_str()); return 1;
    }
    if (!replay.empty()) {
        Case c; if (!parse_case(P, slurp(replay), c)) { fprintf(stderr, "cannot parse %s\n", replay.c_str()); return 2; }
        Outcome o; std::string t = trace_of(P, c, &o);
        printf("%s", t.c_str());
        if (o.ok) { printf("replay: property held\n"); return 0; }
        printf("replay: FAILED: %s\n%s\n", o.msg.c_str(), o.err.substr(0, 6000).c_str()); return 1;
    }
    double t0 = now();
    std::vector<int> order;
    { int mx = 0; for (auto &s : P.suites) mx = std::max(mx, s.share);
      for (int k = 0; k < mx; k++) for (size_t i = 0; i < P.suites.size(); i++)
          if (P.suites[i].share > k && (only.empty() || P.suites[i].name.find(only) != std::string::npos)) order.push_back((int)i); }
    if (order.empty()) { fprintf(stderr, "no suite selected\n"); return 2; }
    if (jobs < 1) jobs = 1;

    std::vector<Shared *> sh(jobs); std::vector<pid_t> pid(jobs);
    std::vector<uint64_t *> hashes(jobs);
    uint64_t cap = cases / jobs + 16;
    std::vector<uint64_t *> suiteCnt(jobs);
    for (int w = 0; w < jobs; w++) {
        sh[w] = new_shared();
        hashes[w] = (uint64_t *)mmap(nullptr, cap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        suiteCnt[w] = (uint64_t *)mmap(nullptr, 8 * (P.suites.size() + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    }
    fflush(nullptr);
    for (int w = 0; w < jobs; w++) {
        pid[w] = fork();
        if (pid[w] == 0) {
            child_setup();
            std::string errf = g_tmp + "/werr." + std::to_string(w);
            int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); if (fd >= 0) dup2(fd, 2);
            Shared *S = sh[w];
            auto finish = [&](const Ctx &ctx, int suite) {
                S->cases++; suiteCnt[w][suite]++;
                if (ctx.nontriv) { S->nontrivial++; if (S->nhash < cap) hashes[w][S->nhash++] = mix64(ctx.effHash ^ std::hash<std::string>()(P.suites[suite].name)); }
            };
            for (uint64_t k = w; k < cases; k += jobs) {
                Case c = generate(P, order, seed, base + k);
                S->curCase = base + k; S->suite = c.suite;
                if (P.suites[c.suite].isolated) {
                    pid_t q = fork();
                    if (q == 0) { child_setup(); arm(g_cpu); Ctx ctx; ctx.sh = S; run_case(P, c, ctx); finish(ctx, c.suite); _exit(0); }
                    int st = 0; while (waitpid(q, &st, 0) < 0 && errno == EINTR) {}
                    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) _exit(79);
                } else {
                    arm(g_cpu);
                    Ctx ctx; ctx.sh = S; run_case(P, c, ctx); finish(ctx, c.suite);
                }
            }
            _exit(0);
        }
    }
    int failedWorker = -1, left = jobs;
    std::string wmsg;
    while (left > 0) {
        int st; pid_t q = waitpid(-1, &st, 0); if (q < 0) { if (errno == EINTR) continue; break; }
        int w = -1; for (int i = 0; i < jobs; i++) if (pid[i] == q) w = i;
        if (w < 0) continue;
        pid[w] = -1; left--;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && failedWorker < 0) {
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { fprintf(stderr, "worker was killed from outside (memory?)\n"); return 2; }
            failedWorker = w;
            for (int i = 0; i < jobs; i++) if (pid[i] > 0) kill(pid[i], SIGKILL);
        }
    }
    RunStats R; std::unordered_set<uint64_t> H;
    for (int w = 0; w < jobs; w++) {
        R.cases += sh[w]->cases; R.nontrivial += sh[w]->nontrivial; R.ops += sh[w]->execOps;
        for (uint64_t i = 0; i < sh[w]->nhash; i++) H.insert(hashes[w][i]);
        for (auto &l : sh[w]->label) if (l.name[0]) R.labels[l.name] += l.n;
        for (size_t i = 0; i < P.suites.size(); i++) R.perSuite[P.suites[i].name] += suiteCnt[w][i];
    }
    R.distinct = H.size();
    if (!hashFile.empty()) { FILE *h = fopen(hashFile.c_str(), "w"); if (h) { for (uint64_t x : H) fwrite(&x, 8, 1, h); fclose(h); } }
    int rc = 0; std::string vmsg, vpath;
    if (failedWorker >= 0) {
        uint64_t k = sh[failedWorker]->curCase;
        fprintf(stderr, "case %llu failed, confirming\n", (unsigned long long)k);
        Case c = generate(P, order, seed, k); Outcome o = exec_one(P, c);
        bool found = !o.ok;
        if (!found) {                  // corruption left by an earlier case of the same worker
            uint64_t lo = k > 400ull * jobs ? k - 400ull * jobs : (k - base) % jobs + base;
            for (uint64_t j = k; j + jobs > lo && !found; j -= jobs) {
                c = generate(P, order, seed, j); o = exec_one(P, c); found = !o.ok; if (j < lo + jobs) break; }
        }
        if (found) {
            std::string msg = o.msg; int runs = 0;
            Case s = shrink(P, c, msg, shrinkBudget, runs);
            int again = 0; for (int i = 0; i < 3; i++) if (!exec_one(P, s).ok) again++;
            if (again < 3) { s = c; again = 0; for (int i = 0; i < 3; i++) if (!exec_one(P, s).ok) again++; }
            if (again == 3) {
                Outcome so; std::string tr = trace_of(P, s, &so); vmsg = so.msg;
                std::string txt = case_text(P, s) + "# failure: " + so.msg + "\n# seed " + std::to_string(seed) + " case " + std::to_string(k) + " shrunk with " + std::to_string(runs) + " runs; build " + tag + "\n# trace:\n";
                for (size_t p = 0; p < tr.size();) { size_t e = tr.find('\n', p); if (e == std::string::npos) e = tr.size(); txt += "#   " + tr.substr(p, e - p) + "\n"; p = e + 1; }
                if (!so.err.empty()) { std::string er = so.err.substr(0, 4000); size_t p = 0; while (p < er.size()) { size_t e = er.find('\n', p); if (e == std::string::npos) e = er.size(); txt += "#E  " + er.substr(p, e - p) + "\n"; p = e + 1; } }
                mkdir(replayDir.c_str(), 0755);
                char nm[64]; snprintf(nm, sizeof nm, "%s-%s-%016llx.case", P.id.c_str(), tag.c_str(), (unsigned long long)mix64(std::hash<std::string>()(txt)));
                vpath = replayDir + "/" + nm;
                FILE *h = fopen(vpath.c_str(), "w"); if (h) { fwrite(txt.data(), 1, txt.size(), h); fclose(h); }
                fprintf(stderr, "%s", txt.c_str());
                printf("FAIL %s\n", vpath.c_str());
                rc = 1;
            } else { fprintf(stderr, "failure did not replay three times: inconclusive, not reported\n%s\n", o.msg.c_str()); rc = 4; }
        } else {
            fprintf(stderr, "failure of worker %d at case %llu did not reproduce: %s\n%s\n", failedWorker, (unsigned long long)k, sh[failedWorker]->msg, slurp(g_tmp + "/werr." + std::to_string(failedWorker), 3000).c_str());
            rc = 4;
        }
    }
    for (int w = 0; w < jobs; w++) unlink((g_tmp + "/werr." + std::to_string(w)).c_str());
    // samples
    std::string samples = "[";
    { Rng r(seed ^ 0xabcdef); int got = 0;
      for (int t = 0; t < 200 && got < 3; t++) {
          uint64_t k = base + r.next() % (cases ? cases : 1); Case c = generate(P, order, seed, k);
          if (c.ops.size() > 30 || c.ops.size() < 4) continue;
          std::string tr = trace_of(P, c); if (tr.size() > 1800) tr = tr.substr(0, 1800) + "...";
          if (got++) samples += ",";
          samples += "{\"suite\":" + jstr(P.suites[c.suite].name) + ",\"case\":" + std::to_string(k) + ",\"trace\":" + jstr(tr) + "}";
      } }
    samples += "]";
    if (!out.empty()) {
        FILE *h = fopen(out.c_str(), "w");
        if (!h) { perror(out.c_str()); return 2; }
        std::string L = "{", PS = "{"; bool f = true;
        for (auto &l : R.labels) { if (!f) L += ","; f = false; L += jstr(l.first) + ":" + std::to_string(l.second); }
        f = true; for (auto &l : R.perSuite) { if (!f) PS += ","; f = false; PS += jstr(l.first) + ":" + std::to_string(l.second); }
        std::string as = "["; for (size_t i = 0; i < P.assumptions.size(); i++) as += (i ? "," : "") + jstr(P.assumptions[i]); as += "]";
        fprintf(h, "{\"property\":%s,\"tag\":%s,\"seed\":%llu,\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%llu,\"operations\":%llu,\"rule\":%s,\"labels\":%s},\"suites\":%s},\"samples\":%s,\"assumptions\":%s,\"wall_s\":%.2f,\"violation\":%s,\"replay\":%s,\"rc\":%d}\n",
            jstr(P.id).c_str(), jstr(tag).c_str(), (unsigned long long)seed, (unsigned long long)R.cases, (unsigned long long)R.nontrivial, (unsigned long long)R.distinct, (unsigned long long)R.ops, jstr(P.rule).c_str(), L.c_str(), PS.c_str(), samples.c_str(), as.c_str(), now() - t0, jstr(vmsg).c_str(), jstr(vpath).c_str(), rc);
        fclose(h);
    }
    fprintf(stderr, "%s[%s]: %llu cases (%llu non-trivial, %llu distinct), %llu ops, %.1fs rc=%d\n", P.id.c_str(), tag.c_str(), (unsigned long long)R.cases, (unsigned long long)R.nontrivial, (unsigned long long)R.distinct, (unsigned long long)R.ops, now() - t0, rc);
    return rc;
}
} // namespace vp
int main(int argc, char **argv) { return vp::engine_main(argc, argv); }
#endif
