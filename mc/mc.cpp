#include "mc.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <atomic>
#include <map>

namespace mc {

static const int MAXW = 64, DESC = 1 << 16, MAXFAIL = 64, FAILMSG = 1 << 13, NSAMPLE = 24, NNOTE = 32;
static const uint64_t SETSZ = 1ull << 22;

struct Slot {
    volatile uint64_t cur, end; // current global index, chunk end
    volatile int busy;
    volatile uint64_t done;
    char desc[DESC];
};
struct FailRec { uint64_t idx; char desc[FAILMSG]; char msg[FAILMSG]; int crash; };
struct Set { std::atomic<uint64_t> n; std::atomic<uint64_t> t[SETSZ]; };
struct Shared {
    std::atomic<uint64_t> next, trans, traces, cases;
    std::atomic<int> nfail, nsample, stop;
    std::atomic<uint64_t> notes[NNOTE];
    FailRec fails[MAXFAIL];
    char samples[NSAMPLE][2048];
    Slot slot[MAXW];
    Set states, nontriv, outcomes;
};
static Shared *S;
static Slot *me;
static uint64_t curIdx;
static bool curFailed;
static bool quietMode = false;
static int errfd = -1;

uint64_t hashBytes(const void *p, size_t n, uint64_t h) {
    const unsigned char *b = (const unsigned char *)p;
    for(size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
    h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
    return h;
}

std::string strf(const char *fmt, ...) {
    va_list a; va_start(a, fmt);
    char *p = nullptr;
    int n = vasprintf(&p, fmt, a);
    va_end(a);
    std::string r(p ? p : "", n > 0 ? n : 0);
    free(p);
    return r;
}

std::string esc(const std::string &s) {
    std::string r;
    for(unsigned char c : s) {
        if(c == '\n') r += "\\n";
        else if(c == '\\') r += "\\\\";
        else if(c < 32 || c >= 127) r += strf("\\x%02x", c);
        else r += (char)c;
    }
    return r;
}

std::vector<int> seqDecode(uint64_t idx, uint64_t k) {
    unsigned len = 1;
    while(idx >= ipow(k, len)) { idx -= ipow(k, len); len++; }
    std::vector<int> r(len);
    for(unsigned i = 0; i < len; i++) { r[len - 1 - i] = (int)(idx % k); idx /= k; }
    return r;
}

static void addSet(Set &s, uint64_t h) {
    if(!h) h = 1;
    if(s.n.load(std::memory_order_relaxed) > SETSZ * 3 / 4) return; // saturated: reported as a lower bound
    uint64_t i = h & (SETSZ - 1);
    for(;;) {
        uint64_t v = s.t[i].load(std::memory_order_relaxed);
        if(v == h) return;
        if(!v) {
            if(s.t[i].compare_exchange_strong(v, h)) { s.n++; return; }
            if(v == h) return;
        }
        i = (i + 1) & (SETSZ - 1);
    }
}

void Case::descs(const std::string &s) {
    size_t n = s.size() < DESC - 1 ? s.size() : DESC - 1;
    memcpy(me->desc, s.data(), n);
    me->desc[n] = 0;
}
void Case::desc(const char *fmt, ...) {
    va_list a; va_start(a, fmt); vsnprintf(me->desc, DESC, fmt, a); va_end(a);
}
static void record(uint64_t idx, const char *desc, const char *msg, int crash) {
    int i = S->nfail++;
    if(i >= MAXFAIL) { S->nfail = MAXFAIL; S->stop = 1; return; }
    FailRec &f = S->fails[i];
    f.idx = idx; f.crash = crash;
    snprintf(f.desc, FAILMSG, "%s", desc);
    snprintf(f.msg, FAILMSG, "%s", msg);
}
void Case::fail(const char *fmt, ...) {
    char buf[FAILMSG];
    va_list a; va_start(a, fmt); vsnprintf(buf, FAILMSG, fmt, a); va_end(a);
    if(!curFailed) record(curIdx, me->desc, buf, 0);
    curFailed = true;
}
bool Case::failed() const { return curFailed; }
void Case::state(uint64_t h) { addSet(S->states, h); }
void Case::nontrivial(uint64_t h) { addSet(S->nontriv, h); }
void Case::outcome(const std::string &s) { addSet(S->outcomes, hashStr(s)); }
void Case::trans(uint64_t n) { S->trans += n; }
void Case::trace(uint64_t n) { S->traces += n; }
void Case::note(int i, uint64_t n) { if(i >= 0 && i < NNOTE) S->notes[i] += n; }
void Case::sample(const std::string &s) {
    if(S->nsample.load() >= NSAMPLE) return;
    int i = S->nsample++;
    if(i < NSAMPLE) snprintf(S->samples[i], sizeof S->samples[i], "%s", s.c_str());
    else S->nsample = NSAMPLE;
}

Space &Registry::add(const std::string &name, uint64_t count, std::function<void(uint64_t, Case &)> run) {
    Space s; s.name = name; s.count = count; s.run = run;
    spaces.push_back(s);
    return spaces.back();
}

static Registry R;
static std::vector<uint64_t> base;

static Space &find(uint64_t g, uint64_t &local) {
    size_t i = 0;
    while(i + 1 < R.spaces.size() && g >= base[i + 1]) i++;
    local = g - base[i];
    return R.spaces[i];
}

static void onTimeout(int) {
    const char *m = "\nMC-TIMEOUT: case exceeded its CPU horizon\n";
    ssize_t r = write(2, m, strlen(m)); (void)r;
    _exit(97);
}

static void runCase(uint64_t g, double mult) {
    uint64_t local;
    Space &sp = find(g, local);
    curIdx = g; curFailed = false;
    snprintf(me->desc, DESC, "%s[%llu]", sp.name.c_str(), (unsigned long long)local);
    struct itimerval tv; memset(&tv, 0, sizeof tv);
    double t = sp.cpuSeconds * mult;
    tv.it_value.tv_sec = (long)t;
    tv.it_value.tv_usec = (long)((t - (long)t) * 1e6) + 1;
    setitimer(ITIMER_PROF, &tv, nullptr);
    Case c;
    sp.run(local, c);
    memset(&tv, 0, sizeof tv);
    setitimer(ITIMER_PROF, &tv, nullptr);
    S->cases++;
}

static void workerInit(int w, const char *dir, bool verbose) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    me = &S->slot[w];
    signal(SIGPROF, onTimeout);
    if(!verbose) {
        std::string f = strf("%s/w%d.log", dir, w);
        errfd = open(f.c_str(), O_CREAT | O_RDWR | O_TRUNC | O_APPEND, 0600);
        dup2(errfd, 1); dup2(errfd, 2);
    }
    setvbuf(stdout, nullptr, _IONBF, 0);
}

static std::string tail(const char *dir, int w) {
    std::string f = strf("%s/w%d.log", dir, w);
    FILE *fp = fopen(f.c_str(), "r");
    if(!fp) return "";
    fseek(fp, 0, SEEK_END);
    long n = ftell(fp), off = n > 200000 ? n - 200000 : 0;
    fseek(fp, off, SEEK_SET);
    std::string s(n - off, 0);
    s.resize(fread(&s[0], 1, s.size(), fp));
    fclose(fp);
    size_t p = s.find("ERROR: AddressSanitizer");
    if(p == std::string::npos) p = s.find("runtime error:");
    if(p == std::string::npos) p = s.find("Assertion");
    if(p == std::string::npos) p = s.find("MC-TIMEOUT");
    if(p == std::string::npos) p = s.size() > 3000 ? s.size() - 3000 : 0;
    else p = p > 100 ? p - 100 : 0;
    return s.substr(p, 3500);
}

static void jsonStr(FILE *o, const std::string &s) {
    fputc('"', o);
    for(unsigned char c : s) {
        if(c == '"' || c == '\\') { fputc('\\', o); fputc(c, o); }
        else if(c < 32 || c >= 127) fprintf(o, "\\u%04x", c);
        else fputc(c, o);
    }
    fputc('"', o);
}

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// Runs one case alone in a fresh process. Returns true if it failed; msg gets the evidence.
static bool solo(uint64_t g, const char *dir, std::string &desc, std::string &msg, double mult) {
    int n0 = S->nfail;
    bool full = n0 >= MAXFAIL;
    if(full) { S->nfail = MAXFAIL - 1; n0 = MAXFAIL - 1; }
    FailRec saved; if(full) memcpy(&saved, &S->fails[MAXFAIL - 1], sizeof saved);
    int w = MAXW - 1;
    pid_t p = fork();
    if(!p) {
        workerInit(w, dir, false);
        runCase(g, mult);
        _exit(0);
    }
    int st; waitpid(p, &st, 0);
    bool bad = false;
    if(!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
        bad = true;
        desc = S->slot[w].desc;
        msg = strf("process ended abnormally (%s %d)\n", WIFSIGNALED(st) ? "signal" : "exit",
                   WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)) + tail(dir, w);
    } else if(S->nfail > n0) {
        bad = true;
        desc = S->fails[n0].desc;
        msg = S->fails[n0].msg;
    }
    S->nfail = n0;
    if(full) { memcpy(&S->fails[MAXFAIL - 1], &saved, sizeof saved); S->nfail = MAXFAIL; }
    return bad;
}

static std::string gDir = ".";
static pid_t gScratch = 0;
void scratch() {
    if(gScratch == getpid()) return;
    gScratch = getpid();
    std::string d = gDir + "/scratch" + std::to_string(getpid());
    mkdir(d.c_str(), 0755);
    if(chdir(d.c_str())) { perror("chdir"); abort(); }
}

int run(int argc, char **argv) {
    int jobs = 8; double deadline = 1e9; std::string out, dir = ".", replay; bool list = false; Tier tier = QUICK;
    std::string only;
    for(int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(++i < argc ? argv[i] : ""); };
        if(a == "--jobs") jobs = atoi(val().c_str());
        else if(a == "--tier") tier = val() == "thorough" ? THOROUGH : QUICK;
        else if(a == "--out") out = val();
        else if(a == "--dir") { dir = val(); char *p = realpath(dir.c_str(), nullptr); if(p) { dir = p; free(p); } gDir = dir; }
        else if(a == "--deadline") deadline = atof(val().c_str());
        else if(a == "--replay") replay = val(); // space:index
        else if(a == "--list") list = true;
        else if(a == "--only") only = val();
        else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
    }
    if(jobs > MAXW - 1) jobs = MAXW - 1;
    R.tier = tier;
    S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if(S == MAP_FAILED) { perror("mmap"); return 2; }
    me = &S->slot[0];
    if(!list && replay.empty()) {
        // The undisturbed executions the spaces are built from run the library too: if that crashes or hangs, it is reported
        // like any other case instead of taking the harness down.
        pid_t p = fork();
        if(!p) {
            workerInit(0, dir.c_str(), false);
            struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 300;
            setitimer(ITIMER_REAL, &it, nullptr);
            signal(SIGALRM, SIG_DFL);
            define(R);
            _exit(0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        if(!WIFEXITED(st) || WEXITSTATUS(st)) {
            std::string msg = strf("process ended abnormally (%s %d)\n", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)) + tail(dir.c_str(), 0);
            FILE *o = out.empty() ? stdout : fopen(out.c_str(), "w");
            if(!o) return 2;
            fprintf(o, "{\"total_cases\": 1, \"cases_run\": 1, \"transitions\": 1, \"traces\": 1, \"states\": 1, \"distinct_nontrivial\": 1, \"distinct_outcomes\": 1, \"sets_saturated\": false, \"capped\": false, \"stopped_early\": true, \"wall_s\": 0, \"level\": ");
            jsonStr(o, R.level);
            fprintf(o, ", \"rule\": \"\", \"bounds\": \"\", \"assumptions\": [], \"notes\": {}, \"spaces\": {\"prepare\": 1}, \"samples\": [], \"failures\": [{\"space\": \"prepare\", \"index\": 0, \"confirmed\": true, \"crash\": 1, \"desc\": ");
            jsonStr(o, std::string("undisturbed execution of the programs: ") + me->desc);
            fprintf(o, ", \"msg\": "); jsonStr(o, msg);
            fprintf(o, "}]}\n");
            if(o != stdout) fclose(o);
            return 0;
        }
    }
    define(R);
    S->nfail = 0; S->trans = 0; S->traces = 0; curFailed = false;
    if(!only.empty()) {
        std::vector<Space> k;
        for(auto &s : R.spaces) if(s.name.find(only) != std::string::npos) k.push_back(s);
        R.spaces = k;
    }
    uint64_t total = 0;
    for(auto &s : R.spaces) { base.push_back(total); total += s.count; }
    if(list) {
        for(auto &s : R.spaces) printf("%s %llu\n", s.name.c_str(), (unsigned long long)s.count);
        return 0;
    }
    if(!replay.empty()) {
        size_t c = replay.rfind(':');
        std::string sn = replay.substr(0, c);
        uint64_t li = strtoull(replay.c_str() + c + 1, nullptr, 10);
        for(size_t i = 0; i < R.spaces.size(); i++)
            if(R.spaces[i].name == sn) {
                me = &S->slot[0];
                workerInit(0, dir.c_str(), true);
                runCase(base[i] + li, 5);
                printf("case: %s\n", me->desc);
                if(S->nfail) { printf("VIOLATED: %s\n", S->fails[0].msg); return 1; }
                printf("held\n");
                return 0;
            }
        fprintf(stderr, "no such space %s\n", sn.c_str());
        return 2;
    }
    double t0 = now();
    auto chunkAt = [&](uint64_t a) { // small spaces tend to have expensive cases
        uint64_t li; uint64_t n = find(a, li).count / (jobs * 16) + 1;
        return n > 64 ? (uint64_t)64 : n;
    };
    std::map<pid_t, int> procs;
    auto spawn = [&](int w) {
        pid_t p = fork();
        if(!p) {
            workerInit(w, dir.c_str(), false);
            Slot &s = S->slot[w];
            uint64_t nlog = 0;
            for(;;) {
                while(s.cur < s.end) {
                    if(S->stop) _exit(0);
                    s.busy = 1;
                    runCase(s.cur, 1);
                    s.busy = 0;
                    s.cur = s.cur + 1;
                    if((++nlog & 255) == 0) { struct stat sb; if(!fstat(errfd, &sb) && sb.st_size > 4000000) { if(ftruncate(errfd, 0)) {} } }
                }
                if(S->stop) _exit(0);
                uint64_t a = S->next.load(), chunk;
                do { if(a >= total) _exit(0); chunk = chunkAt(a); } while(!S->next.compare_exchange_weak(a, a + chunk));
                s.end = a + chunk < total ? a + chunk : total;
                s.cur = a;
            }
        }
        procs[p] = w;
    };
    for(int w = 0; w < jobs; w++) { S->slot[w].cur = S->slot[w].end = 0; spawn(w); }
    bool capped = false;
    int crashes = 0;
    while(!procs.empty()) {
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if(p == 0) {
            if(now() - t0 > deadline && !S->stop) { S->stop = 1; capped = true; }
            if(now() - t0 > deadline + 60) for(auto &kv : procs) kill(kv.first, SIGKILL);
            usleep(2000);
            continue;
        }
        if(p < 0) break;
        int w = procs[p]; procs.erase(p);
        if(WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        Slot &s = S->slot[w];
        if(capped) continue;
        if(s.busy) {
            std::string msg = strf("process ended abnormally (%s %d)\n", WIFSIGNALED(st) ? "signal" : "exit",
                                   WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)) + tail(dir.c_str(), w);
            record(s.cur, s.desc, msg.c_str(), 1);
            s.busy = 0; s.cur = s.cur + 1;
            if(++crashes > 16) S->stop = 1;
        }
        if(!S->stop) spawn(w);
    }
    int nf = S->nfail; if(nf > MAXFAIL) nf = MAXFAIL;
    bool early = S->stop && !capped;
    // Replay before report: every failure is re-run alone, with a longer horizon.
    struct Rep { FailRec f; bool confirmed; std::string desc, msg; };
    std::vector<Rep> reps;
    for(int i = 0; i < nf; i++) { Rep r; r.f = S->fails[i]; r.confirmed = false; reps.push_back(r); }
    int confirmed = 0;
    for(auto &r : reps) {
        if(confirmed >= 8 && now() - t0 > 200) { continue; }
        std::string d, m;
        if(solo(r.f.idx, dir.c_str(), d, m, 4)) { r.confirmed = true; r.desc = d; r.msg = m; confirmed++; }
    }
    FILE *o = out.empty() ? stdout : fopen(out.c_str(), "w");
    if(!o) { perror("out"); return 2; }
    fprintf(o, "{\"total_cases\": %llu, \"cases_run\": %llu, \"transitions\": %llu, \"traces\": %llu, \"states\": %llu, \"distinct_nontrivial\": %llu, \"distinct_outcomes\": %llu,\n",
            (unsigned long long)total, (unsigned long long)S->cases, (unsigned long long)S->trans, (unsigned long long)S->traces,
            (unsigned long long)S->states.n, (unsigned long long)S->nontriv.n, (unsigned long long)S->outcomes.n);
    fprintf(o, "\"sets_saturated\": %s, \"capped\": %s, \"stopped_early\": %s, \"wall_s\": %.3f, \"level\": ",
            (S->states.n > SETSZ * 3 / 4 || S->nontriv.n > SETSZ * 3 / 4) ? "true" : "false", capped ? "true" : "false", early ? "true" : "false", now() - t0);
    jsonStr(o, R.level); fprintf(o, ", \"rule\": "); jsonStr(o, R.rule);
    fprintf(o, ", \"bounds\": "); jsonStr(o, R.bounds);
    fprintf(o, ", \"assumptions\": [");
    for(size_t i = 0; i < R.assumptions.size(); i++) { if(i) fputc(',', o); jsonStr(o, R.assumptions[i]); }
    fprintf(o, "], \"notes\": {");
    for(size_t i = 0; i < R.notes.size(); i++) { if(i) fputc(',', o); jsonStr(o, R.notes[i]); fprintf(o, ": %llu", (unsigned long long)S->notes[i]); }
    fprintf(o, "}, \"spaces\": {");
    for(size_t i = 0; i < R.spaces.size(); i++) { if(i) fputc(',', o); jsonStr(o, R.spaces[i].name); fprintf(o, ": %llu", (unsigned long long)R.spaces[i].count); }
    fprintf(o, "}, \"samples\": [");
    int ns = S->nsample; if(ns > NSAMPLE) ns = NSAMPLE;
    for(int i = 0; i < ns; i++) { if(i) fputc(',', o); jsonStr(o, S->samples[i]); }
    fprintf(o, "], \"failures\": [");
    for(size_t i = 0; i < reps.size(); i++) {
        uint64_t li; Space &sp = find(reps[i].f.idx, li);
        fprintf(o, "%s\n{\"space\": ", i ? "," : ""); jsonStr(o, sp.name);
        fprintf(o, ", \"index\": %llu, \"confirmed\": %s, \"crash\": %d, \"desc\": ", (unsigned long long)li, reps[i].confirmed ? "true" : "false", reps[i].f.crash);
        jsonStr(o, reps[i].confirmed ? reps[i].desc : std::string(reps[i].f.desc));
        fprintf(o, ", \"msg\": "); jsonStr(o, reps[i].confirmed ? reps[i].msg : std::string(reps[i].f.msg));
        fputc('}', o);
    }
    fprintf(o, "]}\n");
    if(o != stdout) fclose(o);
    (void)quietMode;
    return 0;
}

} // namespace mc

extern "C" const char *__asan_default_options() {
    return "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=2048:handle_abort=0:print_summary=1:quarantine_size_mb=16:malloc_context_size=8:detect_stack_use_after_return=0";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1"; }

int main(int argc, char **argv) { return mc::run(argc, argv); }
