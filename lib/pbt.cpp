#include "pbt.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <signal.h>
#include <errno.h>
#include <fcntl.h>
#include <time.h>
#include <ftw.h>
#include <algorithm>
#include <iostream>
#include <fstream>
#include <atomic>

// ---- coverage (clang -fsanitize-coverage=inline-8bit-counters) -------------
static std::vector<std::pair<uint8_t *, uint8_t *> > &cov_regions()
{
    static std::vector<std::pair<uint8_t *, uint8_t *> > r;
    return r;
}
extern "C" void __sanitizer_cov_8bit_counters_init(uint8_t *b, uint8_t *e)
{
    if (b == e) return;
    for (auto &p : cov_regions()) if (p.first == b) return;
    cov_regions().push_back(std::make_pair(b, e));
}

extern "C" const char *__asan_default_options()
{
    return "detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1:"
        "detect_stack_use_after_return=0:symbolize=1:print_legend=0:exitcode=86";
}
extern "C" const char *__ubsan_default_options()
{
    return "print_stacktrace=1:halt_on_error=1:abort_on_error=1";
}
extern "C" const char *__tsan_default_options()
{
    return "halt_on_error=1:exitcode=66:second_deadlock_stack=1:report_thread_leaks=0";
}

namespace pbt {

static uint64_t mix(uint64_t &x)
{
    uint64_t z = (x += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}

uint64_t Src::next() { return mix(m_state); }

struct Shared {
    std::atomic<uint32_t> n;
    uint32_t trunc;
    uint32_t v[1 << 20];
};
static Shared *g_record = 0;    // where the current case's choices are mirrored

uint32_t Src::draw(uint32_t max)
{
    uint32_t v;
    if (m_replay && m_pos < m_in.size())
    {
        v = m_in[m_pos++];
        if (v > max)
            v = max == 0xffffffffu ? v : v % (max + 1);
    }
    else if (m_replay && !m_tail)
        v = 0;
    else if (max == 0xffffffffu)
        v = (uint32_t) next();
    else
        v = (uint32_t) (next() % ((uint64_t) max + 1));
    m_out.push_back(v);
    if (g_record)
    {
        uint32_t n = g_record->n.load(std::memory_order_relaxed);
        if (n < (1 << 20))
        {
            g_record->v[n] = v;
            g_record->n.store(n + 1, std::memory_order_relaxed);
        }
    }
    return v;
}

std::string q(const std::string &s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        char b[8];
        if (c == '"' || c == '\\') { r += '\\'; r += (char) c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        else r += (char) c;
    }
    return r + "\"";
}

std::string hex(const std::string &s)
{
    std::string r; char b[4];
    for (unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); r += b; }
    return r;
}

uint64_t hash(const std::string &s)
{
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return h;
}

static std::string g_scratch;
static std::set<std::string> g_known;

std::string scratch() { return g_scratch; }
void known_finding(const std::string &key)
{
    g_known.insert(key);
}

static double now()
{
    struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

static int rm_cb(const char *p, const struct stat *, int, struct FTW *)
{
    remove(p); return 0;
}
static void rmtree(const std::string &d)
{
    if (d.compare(0, 9, "/tmp/pbt.") == 0)
        nftw(d.c_str(), rm_cb, 32, FTW_DEPTH | FTW_PHYS);
}

struct Slot {                       // per worker progress, shared
    std::atomic<uint64_t> seq;      // increments per case
    std::atomic<uint32_t> family, index;
    std::atomic<uint32_t> state;    // 0 running, 1 done, 2 property failed
    char msg[2000];
    Shared rec;
};

struct Stats {
    std::vector<uint64_t> evals, nontriv;
    std::map<std::string, uint64_t> labels;
    std::vector<std::unordered_set<uint64_t> > seen;
    std::vector<std::vector<std::string> > samples;
    uint64_t corpus = 0;
};

// outcome of one isolated execution
struct Outcome { bool failed; bool hang; std::string msg; std::vector<uint32_t> choices; };

static uint64_t case_seed(uint64_t seed, uint32_t fam, uint32_t idx)
{
    uint64_t x = seed * 0x100000001b3ULL + fam * 0x1000003ULL;
    mix(x); x ^= (uint64_t) idx << 20 | idx; mix(x);
    return x;
}

static void set_cpu_timer(int s)
{
    struct itimerval t; memset(&t, 0, sizeof t);
    t.it_value.tv_sec = s;
    setitimer(ITIMER_PROF, &t, 0);
}

static const char *sig_text(int st, char *b, size_t n)
{
    if (WIFSIGNALED(st))
        snprintf(b, n, "process ended by signal %d (%s)", WTERMSIG(st),
                 WTERMSIG(st) == SIGPROF ? "case exceeded its CPU limit: hang" :
                 strsignal(WTERMSIG(st)));
    else
        snprintf(b, n, "process exited with status %d", WEXITSTATUS(st));
    return b;
}

static std::string tail_of(const std::string &fn, size_t max)
{
    std::ifstream f(fn.c_str()); std::stringstream ss; ss << f.rdbuf();
    std::string s = ss.str();
    // keep the interesting part of a sanitizer report
    size_t p = s.find("ERROR: AddressSanitizer");
    if (p == std::string::npos) p = s.find("runtime error:");
    if (p == std::string::npos) p = s.find("WARNING: ThreadSanitizer");
    if (p == std::string::npos) p = s.size() > max ? s.size() - max : 0;
    else { size_t nl = s.rfind('\n', p); p = nl == std::string::npos ? 0 : nl + 1; }
    return s.substr(p, max);
}

static Ctx *g_iso_ctx = 0;
static std::string g_iso_desc;
// no allocation here: the crash may be inside the allocator or a sanitizer
struct Peek : std::streambuf {
    static const char *begin(std::streambuf *b) { return (b->*(&Peek::pbase))(); }
    static const char *end(std::streambuf *b) { return (b->*(&Peek::pptr))(); }
};
static void on_crash(int sig)
{
    signal(sig, SIG_DFL);
    int fd = open(g_iso_desc.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd >= 0 && g_iso_ctx)
    {
        std::streambuf *b = g_iso_ctx->desc.rdbuf();
        const char *p = Peek::begin(b), *e = Peek::end(b);
        if (p && write(fd, p, e - p) < 0) _exit(99);
        close(fd);
    }
    raise(sig);
}

// run one case in a forked child
static Outcome isolated(Check &c, uint32_t fam, const std::vector<uint32_t> *choices,
                        uint64_t seed, Slot *slot, int cpu, int wall, std::string *desc)
{
    Outcome o; o.failed = false; o.hang = false;
    slot->state = 0; slot->msg[0] = 0; slot->rec.n = 0;
    std::string errf = g_scratch + "/iso.err";
    std::string descf = g_scratch + "/iso.desc";
    unlink(descf.c_str());
    fflush(0);
    pid_t pid = fork();
    if (pid == 0)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        setpgid(0, 0);
        int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
        signal(SIGPROF, SIG_DFL);
        set_cpu_timer(cpu);
        g_record = &slot->rec;
        Src src = choices ? Src(*choices) : Src(seed);
        Ctx ctx(src);
        g_iso_ctx = &ctx; g_iso_desc = descf;
        signal(SIGABRT, on_crash); signal(SIGPROF, on_crash);
        int rc = 0;
        try { c.families[fam].fn(ctx); slot->state = 1; }
        catch (const Fail &e) { slot->state = 2; snprintf(slot->msg, sizeof slot->msg, "%s", e.what()); rc = 3; }
        catch (const std::exception &e) { slot->state = 2; snprintf(slot->msg, sizeof slot->msg, "unexpected exception: %s", e.what()); rc = 3; }
        { std::ofstream d(descf.c_str()); d << ctx.desc.str(); }
        fflush(0);
        _exit(rc);
    }
    double t0 = now();
    int st = 0; bool killed = false;
    for (;;)
    {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (now() - t0 > wall && !killed) { kill(-pid, SIGKILL); kill(pid, SIGKILL); killed = true; }
        usleep(now() - t0 < 0.05 ? 300 : 3000);
    }
    kill(-pid, SIGKILL);
    uint32_t n = slot->rec.n;
    o.choices.assign(slot->rec.v, slot->rec.v + std::min<uint32_t>(n, 1 << 20));
    if (desc)
    {
        std::ifstream f(descf.c_str()); std::stringstream ss; ss << f.rdbuf(); *desc = ss.str();
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && slot->state == 1)
        return o;
    o.failed = true;
    char b[200];
    if (slot->state == 2) o.msg = slot->msg;
    else if (killed) { o.msg = "no progress (hang)"; o.hang = true; }
    else
    {
        o.hang = WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF;
        o.msg = std::string(sig_text(st, b, sizeof b)) + "\n" + tail_of(errf, 3000);
    }
    return o;
}

static std::vector<uint32_t> shrink(Check &c, uint32_t fam, std::vector<uint32_t> best,
                                    Slot *slot, bool hang, double budget, int &attempts)
{
    double t0 = now();
    attempts = 0;
    int cpu = hang ? 4 : c.case_cpu_s, wall = hang ? 6 : 30;
    if (hang) budget = std::min(budget, 40.0);
    auto try_it = [&](const std::vector<uint32_t> &v) -> bool {
        if (now() - t0 > budget || attempts >= 4000) return false;
        attempts++;
        Outcome o = isolated(c, fam, &v, 0, slot, cpu, wall, 0);
        if (!o.failed) return false;
        if (o.choices.size() < best.size() ||
            (o.choices.size() == best.size() && o.choices < best))
        { best = o.choices; return true; }
        return false;
    };
    bool progress = true;
    while (progress && now() - t0 < budget)
    {
        progress = false;
        for (size_t k = best.size() / 2 + 1; k >= 1; k = k / 2)
        {
            for (size_t i = 0; i + k <= best.size() && now() - t0 < budget; )
            {
                std::vector<uint32_t> v(best);
                v.erase(v.begin() + i, v.begin() + i + k);
                if (try_it(v)) { progress = true; continue; }
                v = best; bool nz = false;
                for (size_t j = i; j < i + k; j++) { nz |= v[j] != 0; v[j] = 0; }
                if (nz && try_it(v)) { progress = true; continue; }
                i += k;
            }
            if (k == 1) break;
        }
        for (size_t i = 0; i < best.size() && now() - t0 < budget; i++)
        {
            uint32_t lo = 0;
            while (i < best.size() && lo < best[i])
            {
                std::vector<uint32_t> v(best);
                v[i] = lo + (best[i] - lo) / 2;
                if (v[i] == best[i]) break;
                uint32_t mid = v[i];
                if (try_it(v)) progress = true;
                else lo = mid + 1;
            }
        }
    }
    return best;
}

// coverage corpus of one worker
struct Guide {
    std::vector<std::vector<uint32_t> > corpus;
    std::vector<uint8_t> seen;
    size_t total = 0;
    void init()
    {
        total = 0;
        for (auto &p : cov_regions()) total += p.second - p.first;
        seen.assign(total, 0);
    }
    void reset() { for (auto &p : cov_regions()) memset(p.first, 0, p.second - p.first); }
    bool collect()
    {
        bool fresh = false; size_t o = 0;
        for (auto &p : cov_regions())
            for (uint8_t *x = p.first; x < p.second; x++, o++)
                if (*x)
                {
                    uint8_t v = *x;
                    uint8_t b = v == 1 ? 1 : v == 2 ? 2 : v == 3 ? 4 : v < 8 ? 8 : v < 16 ? 16 : v < 32 ? 32 : v < 128 ? 64 : 128;
                    if (!(seen[o] & b)) { seen[o] |= b; fresh = true; }
                }
        return fresh;
    }
    std::vector<uint32_t> mutate(uint64_t &st)
    {
        std::vector<uint32_t> v = corpus[mix(st) % corpus.size()];
        int n = 1 + mix(st) % 4;
        for (int k = 0; k < n; k++)
        {
            uint64_t r = mix(st);
            switch (r % 6)
            {
            case 0: if (v.size()) v[mix(st) % v.size()] = (uint32_t) (mix(st) % 300); break;
            case 1: if (v.size()) { size_t i = mix(st) % v.size(); v[i] += (r >> 8) & 1 ? 1 : -1; } break;
            case 2: if (v.size()) { size_t i = mix(st) % v.size(); size_t l = 1 + mix(st) % 8; v.erase(v.begin() + i, v.begin() + std::min(v.size(), i + l)); } break;
            case 3: if (v.size()) { size_t i = mix(st) % v.size(); size_t l = std::min<size_t>(1 + mix(st) % 16, v.size() - i); std::vector<uint32_t> w(v.begin() + i, v.begin() + i + l); size_t j = mix(st) % (v.size() + 1); v.insert(v.begin() + j, w.begin(), w.end()); } break;
            case 4: { const std::vector<uint32_t> &o = corpus[mix(st) % corpus.size()]; size_t i = v.size() ? mix(st) % v.size() : 0; size_t j = o.size() ? mix(st) % o.size() : 0; v.resize(i); v.insert(v.end(), o.begin() + j, o.end()); } break;
            case 5: if (v.size()) v.resize(mix(st) % v.size()); break;
            }
            if (v.size() > 20000) v.resize(20000);
        }
        return v;
    }
};

static void worker(Check &c, int w, uint64_t seed, bool thorough, Slot *slot,
                   const std::string &statf, double scale, double deadline,
                   const std::vector<std::pair<uint32_t, uint32_t> > &skip)
{
    Stats st;
    size_t F = c.families.size();
    st.evals.resize(F); st.nontriv.resize(F); st.seen.resize(F); st.samples.resize(F);
    g_record = &slot->rec;
    slot->state = 0;
    bool out_of_time = false;
    for (uint32_t fi = 0; fi < F && !out_of_time; fi++)
    {
        Family &f = c.families[fi];
        Guide g; g.init();
        uint64_t ms = case_seed(seed, fi + 1000, w);
        uint32_t total = (uint32_t) ((thorough ? f.thorough : f.quick) * scale);
        bool guided = f.guided && g.total > 0;
        uint32_t done = 0;
        for (uint32_t i = w; i < total; i += c.workers)
        {
            bool skipped = false;
            for (auto &p : skip) if (p.first == fi && p.second == i) skipped = true;
            if (skipped) { done++; continue; }
            if (now() > deadline) { out_of_time = true; break; }
            slot->family = fi; slot->index = i; slot->rec.n = 0; slot->seq++;
            uint64_t cs = case_seed(seed, fi, i);
            bool mutated = guided && g.corpus.size() > 0 && (done % 2 == 1);
            Src src = mutated ? Src(g.mutate(ms), cs) : Src(cs);
            done++;
            Ctx ctx(src);
            set_cpu_timer(c.case_cpu_s);
            if (guided) g.reset();
            try { f.fn(ctx); }
            catch (const Fail &e)
            {
                set_cpu_timer(0);
                snprintf(slot->msg, sizeof slot->msg, "%s", e.what());
                slot->state = 2;
                fflush(0); _exit(3);
            }
            catch (const std::exception &e)
            {
                set_cpu_timer(0);
                snprintf(slot->msg, sizeof slot->msg, "unexpected exception: %s", e.what());
                slot->state = 2;
                fflush(0); _exit(3);
            }
            set_cpu_timer(0);
            if (guided && g.collect() && src.choices().size() < 20000)
                g.corpus.push_back(src.choices());
            st.evals[fi]++;
            for (auto &l : ctx.labels) st.labels[f.name + "/" + l.first] += 1;
            if (ctx.nontrivial)
            {
                std::string d = ctx.desc.str();
                st.nontriv[fi]++;
                if (st.seen[fi].size() < 2000000) st.seen[fi].insert(hash(d));
                if (st.samples[fi].size() < 3 && (st.nontriv[fi] % 7 == 1) && d.size() < 700)
                    st.samples[fi].push_back(d);
            }
        }
        st.corpus += g.corpus.size();
    }
    FILE *o = fopen(statf.c_str(), "w");
    for (uint32_t fi = 0; fi < F; fi++)
        fprintf(o, "F %u %llu %llu\n", fi, (unsigned long long) st.evals[fi], (unsigned long long) st.nontriv[fi]);
    for (auto &l : st.labels) fprintf(o, "L %llu %s\n", (unsigned long long) l.second, l.first.c_str());
    for (auto &k : g_known) fprintf(o, "K %s\n", k.c_str());
    fprintf(o, "C %llu %d\n", (unsigned long long) st.corpus, (int) out_of_time);
    for (uint32_t fi = 0; fi < F; fi++)
        for (auto &s : st.samples[fi])
        {
            std::string e = q(s);
            fprintf(o, "S %u %s\n", fi, e.c_str());
        }
    fclose(o);
    std::ofstream hf((statf + ".h").c_str(), std::ios::binary);
    for (uint32_t fi = 0; fi < F; fi++)
        for (uint64_t h : st.seen[fi]) { uint64_t x = h ^ fi * 0x9E3779B97F4A7C15ULL; hf.write((char *) &x, 8); }
    hf.close();
    slot->state = 1;
    fflush(0);
    _exit(0);
}

static std::string jstr(const std::string &s)
{
    std::string r = "\"";
    for (unsigned char ch : s)
    {
        char b[8];
        if (ch == '"' || ch == '\\') { r += '\\'; r += (char) ch; }
        else if (ch == '\n') r += "\\n";
        else if (ch < 32 || ch >= 127) { snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
        else r += (char) ch;
    }
    return r + "\"";
}

static std::vector<uint32_t> read_replay(const std::string &fn, std::string &family)
{
    std::vector<uint32_t> v;
    std::ifstream f(fn.c_str());
    std::string line;
    while (std::getline(f, line))
    {
        if (line.compare(0, 7, "family ") == 0) family = line.substr(7);
        else if (line.compare(0, 8, "choices ") == 0)
        {
            std::istringstream is(line.substr(8)); uint32_t x;
            while (is >> x) v.push_back(x);
        }
    }
    return v;
}

int run(Check &c, int argc, char **argv)
{
    const char *e = getenv("VERIF_SEED");
    uint64_t seed = e && *e ? strtoull(e, 0, 10) : 1;
    e = getenv("VERIF_TIER");
    bool thorough = e && !strcmp(e, "thorough");
    e = getenv("PBT_SCALE");
    double scale = e ? atof(e) : 1.0;
    e = getenv("PBT_BUDGET");
    double budget = e ? atof(e) : thorough ? 2400 : 300;
    e = getenv("PBT_FAMILY");
    std::string only = e ? e : "";
    std::string outdir = getenv("PBT_OUT") ? getenv("PBT_OUT") : "/verif";
    std::string replay;
    for (int i = 1; i < argc; i++)
        if (!strcmp(argv[i], "--replay") && i + 1 < argc) replay = argv[++i];
    if (!only.empty())
    {
        std::vector<Family> n;
        for (auto &f : c.families) if (f.name == only) n.push_back(f);
        c.families = n;
    }

    char tmpl[] = "/tmp/pbt.XXXXXX";
    if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
    g_scratch = tmpl;
    chmod(tmpl, 0755);
    double t0 = now();
    signal(SIGPIPE, SIG_IGN);

    Slot *slots = (Slot *) mmap(0, sizeof(Slot) * (c.workers + 1), PROT_READ | PROT_WRITE,
                                MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (slots == MAP_FAILED) { perror("mmap"); return 2; }
    Slot *iso = slots + c.workers;

    if (!replay.empty())
    {
        std::string fam; std::vector<uint32_t> v = read_replay(replay, fam);
        int rc = 0;
        for (uint32_t fi = 0; fi < c.families.size(); fi++)
            if (c.families[fi].name == fam)
            {
                std::string d;
                Outcome o = isolated(c, fi, &v, 0, iso, c.case_cpu_s, c.case_wall_s, &d);
                std::cout << "case: " << d << "\n";
                if (o.failed) { std::cout << "FAILS: " << o.msg << "\n"; rc = 1; }
                else std::cout << "passes\n";
            }
        rmtree(g_scratch);
        return rc;
    }

    struct Found { uint32_t fam; std::vector<uint32_t> choices; std::string msg; bool hang; };
    std::vector<Found> found;
    std::vector<std::vector<std::pair<uint32_t, uint32_t> > > skips(c.workers);
    std::vector<pid_t> pids(c.workers, 0);
    std::vector<std::string> statf(c.workers);
    std::vector<uint64_t> lastseq(c.workers, 0);
    std::vector<double> lastt(c.workers, 0);
    int unconfirmed = 0;
    bool aborted = false;
    struct Again { uint32_t fam, idx; int n; };
    std::vector<Again> again(c.workers, Again{0, 0, 0});
    struct History { uint32_t fam, idx; int w; std::string msg; };
    std::vector<History> histories;

    auto launch = [&](int w) {
        statf[w] = g_scratch + "/stat." + std::to_string(w);
        fflush(0);
        pid_t pid = fork();
        if (pid == 0)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            setpgid(0, 0);
            std::string ef = g_scratch + "/w." + std::to_string(w) + ".err";
            int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
            if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
            std::string sd = g_scratch + "/w" + std::to_string(w);
            mkdir(sd.c_str(), 0755);
            g_scratch = sd;
            signal(SIGPROF, SIG_DFL);
            worker(c, w, seed, thorough, slots + w, statf[w], scale, t0 + budget, skips[w]);
        }
        pids[w] = pid; lastseq[w] = slots[w].seq; lastt[w] = now();
    };
    for (int w = 0; w < c.workers; w++) launch(w);
    int live = c.workers;
    while (live > 0 && !aborted)
    {
        bool any = false;
        for (int w = 0; w < c.workers && !aborted; w++)
        {
            if (!pids[w]) continue;
            int st = 0;
            pid_t r = waitpid(pids[w], &st, WNOHANG);
            bool stuck = false;
            if (r == 0)
            {
                uint64_t sq = slots[w].seq;
                if (sq != lastseq[w]) { lastseq[w] = sq; lastt[w] = now(); continue; }
                else if (now() - lastt[w] > c.case_wall_s)
                {
                    kill(-pids[w], SIGKILL); kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); stuck = true;
                }
                else continue;
            }
            any = true;
            kill(-pids[w], SIGKILL);
            pids[w] = 0; live--;
            if (!stuck && WIFEXITED(st) && WEXITSTATUS(st) == 0 && slots[w].state == 1)
                continue;
            // worker ended in a failing case
            uint32_t fam = slots[w].family, idx = slots[w].index;
            std::vector<uint32_t> ch(slots[w].rec.v, slots[w].rec.v + std::min<uint32_t>(slots[w].rec.n, 1 << 20));
            char b[200];
            std::string first = slots[w].state == 2 ? std::string(slots[w].msg)
                : stuck ? std::string("no progress") : std::string(sig_text(st, b, sizeof b));
            bool ok = true; Outcome o;
            bool hang = stuck || (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF);
            int reps = hang ? 1 : 3;
            for (int k = 0; k < reps && ok; k++)
            {
                o = isolated(c, fam, &ch, 0, iso, c.case_cpu_s, hang ? 40 : c.case_wall_s, 0);
                ok = o.failed;
            }
            if (ok)
            {
                Found f; f.fam = fam; f.choices = o.choices; f.msg = o.msg; f.hang = o.hang;
                found.push_back(f);
                aborted = true;
            }
            else
            {
                // perhaps it depends on the cases this worker ran before it: the
                // worker is deterministic, so run the same history again
                if (!(again[w].n && again[w].fam == fam && again[w].idx == idx))
                    again[w] = Again{fam, idx, 0};
                again[w].n++;
                if (again[w].n >= 3)
                {
                    histories.push_back(History{fam, idx, w, first + "\n" +
                        tail_of(g_scratch + "/w." + std::to_string(w) + ".err", 1500)});
                    aborted = true;
                    continue;
                }
                if (again[w].n < 3 && !stuck && !hang && again[w].n + unconfirmed < 12)
                {
                    std::cerr << "note: replaying the history of worker " << w << " up to "
                              << c.families[fam].name << " case " << idx << ": " << first << "\n"
                              << tail_of(g_scratch + "/w." + std::to_string(w) + ".err", 1500) << "\n";
                    launch(w); live++;
                    if (again[w].n > 1) continue;
                    unconfirmed++;
                    if (unconfirmed >= 6) aborted = true;
                    continue;
                }
                std::cerr << "note: a case of " << c.families[fam].name
                          << " failed once but not on replay: " << first << "\n";
                std::cerr << tail_of(g_scratch + "/w." + std::to_string(w) + ".err", 1500) << "\n";
                unconfirmed++;
                skips[w].push_back(std::make_pair(fam, idx));
                if (unconfirmed < 6) { launch(w); live++; }
            }
        }
        if (!any) usleep(5000);
    }
    for (int w = 0; w < c.workers; w++)
        if (pids[w]) { kill(-pids[w], SIGKILL); kill(pids[w], SIGKILL); waitpid(pids[w], 0, 0); }

    // gather
    size_t F = c.families.size();
    std::vector<uint64_t> ev(F), nt(F);
    std::map<std::string, uint64_t> labels;
    std::vector<std::vector<std::string> > samples(F);
    std::unordered_set<uint64_t> seen;
    std::set<std::string> known;
    uint64_t corpus = 0; bool oot = false;
    for (int w = 0; w < c.workers; w++)
    {
        std::ifstream f(statf[w].c_str()); std::string line;
        while (std::getline(f, line))
        {
            std::istringstream is(line.substr(2));
            if (line[0] == 'F') { uint32_t fi; uint64_t a, b; is >> fi >> a >> b; ev[fi] += a; nt[fi] += b; }
            else if (line[0] == 'L') { uint64_t n; is >> n; std::string l; std::getline(is, l); labels[l.substr(1)] += n; }
            else if (line[0] == 'K') known.insert(line.substr(2));
            else if (line[0] == 'C') { uint64_t a; int b; is >> a >> b; corpus += a; oot |= b != 0; }
            else if (line[0] == 'S') { uint32_t fi; is >> fi; std::string l; std::getline(is, l); if (samples[fi].size() < 4) samples[fi].push_back(l.substr(1)); }
        }
        std::ifstream hf((statf[w] + ".h").c_str(), std::ios::binary); uint64_t x;
        while (hf.read((char *) &x, 8)) seen.insert(x);
    }
    int violations = 0;
    std::string vtext;
    for (auto &f : found)
    {
        int attempts = 0;
        std::vector<uint32_t> best = shrink(c, f.fam, f.choices, iso, f.hang, 120, attempts);
        bool ok = true; Outcome o; std::string d;
        for (int k = 0; k < (f.hang ? 1 : 3) && ok; k++)
        {
            o = isolated(c, f.fam, &best, 0, iso, c.case_cpu_s, c.case_wall_s, &d);
            ok = o.failed;
        }
        if (!ok) { best = f.choices; o = isolated(c, f.fam, &best, 0, iso, c.case_cpu_s, c.case_wall_s, &d); }
        std::string dir = outdir + "/replays";
        mkdir(dir.c_str(), 0755);
        std::string fn = dir + "/" + c.id + "." + c.families[f.fam].name + ".replay";
        {
            std::ofstream rf(fn.c_str());
            rf << "property " << c.id << "\nfamily " << c.families[f.fam].name << "\nseed " << seed
               << "\nchoices";
            for (uint32_t v : best) rf << " " << v;
            rf << "\n# shrunk in " << attempts << " attempts from " << f.choices.size() << " to " << best.size() << " choices\n";
            std::istringstream is(d + "\n" + o.msg); std::string l;
            while (std::getline(is, l)) rf << "# " << l << "\n";
        }
        std::cout << "case: " << d << "\nfailure: " << o.msg << "\n";
        std::cout << "VIOLATION property=" << c.id << " replay=" << fn << std::endl;
        violations++;
    }
    for (auto &h : histories)
    {
        if (violations) break;
        std::string dir = outdir + "/replays";
        mkdir(dir.c_str(), 0755);
        std::string fn = dir + "/" + c.id + "." + c.families[h.fam].name + ".history.replay";
        std::ofstream rf(fn.c_str());
        rf << "property " << c.id << "\nhistory of worker " << h.w << " of " << c.workers << " with seed " << seed
           << ": family " << c.families[h.fam].name << " fails at case " << h.idx
           << " after the cases before it (three times out of three), not on its own; rerun the check with this seed\n# "
           << h.msg << "\n";
        std::cout << "failure (history dependent): " << h.msg << "\n";
        std::cout << "VIOLATION property=" << c.id << " replay=" << fn << std::endl;
        violations++;
    }
    if (unconfirmed >= 6 && !violations)
    {
        // many failures of the same check that do not replay case by case:
        // state carried across cases or schedule dependence; report it.
        std::string dir = outdir + "/replays";
        mkdir(dir.c_str(), 0755);
        std::string fn = dir + "/" + c.id + ".schedule.replay";
        std::ofstream rf(fn.c_str());
        rf << "property " << c.id << "\nseed " << seed << "\n# six independent cases failed under the run's schedule; rerun the check with this seed\n";
        std::cout << "VIOLATION property=" << c.id << " replay=" << fn << std::endl;
        violations++;
    }
    for (auto &k : known)
        std::cout << "KNOWN-FINDING: property=" << c.id << " " << k << "\n";

    uint64_t tev = 0; for (auto x : ev) tev += x;
    std::ostringstream js;
    js << "{\n \"property\": " << jstr(c.id) << ",\n \"tier\": \"" << (thorough ? "thorough" : "quick")
       << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n"
       << "  \"evaluations\": " << tev << ",\n  \"distinct_nontrivial\": " << seen.size() << ",\n  \"rule\": ";
    std::string rule;
    for (auto &f : c.families) rule += (rule.empty() ? "" : "; ") + f.name + ": " + f.rule;
    js << jstr(rule) << ",\n  \"samples\": [";
    bool first = true;
    for (size_t fi = 0; fi < F; fi++)
        for (auto &s : samples[fi])
        { js << (first ? "\n   " : ",\n   ") << jstr(c.families[fi].name + ": " + s); first = false; }
    js << "\n  ],\n  \"families\": {";
    for (size_t fi = 0; fi < F; fi++)
        js << (fi ? ", " : "") << jstr(c.families[fi].name) << ": {\"evaluations\": " << ev[fi] << ", \"nontrivial\": " << nt[fi] << "}";
    js << "},\n  \"labels\": {";
    first = true;
    for (auto &l : labels) { js << (first ? "" : ", ") << jstr(l.first) << ": " << l.second; first = false; }
    js << "},\n  \"coverage_corpus\": " << corpus << ",\n  \"unconfirmed\": " << unconfirmed
       << ",\n  \"stopped_by_time\": " << (oot ? "true" : "false") << "\n },\n \"wall_s\": " << (now() - t0)
       << ",\n \"violations\": " << violations << "\n}\n";
    mkdir((outdir + "/evidence").c_str(), 0755);
    std::ofstream ef((outdir + "/evidence/" + c.id + ".json").c_str());
    ef << js.str(); ef.close();
    std::cout << c.id << ": " << tev << " cases, " << seen.size() << " distinct non-trivial, "
              << (now() - t0) << " s" << (violations ? ", VIOLATED" : ", held") << std::endl;
    rmtree(g_scratch);
    return violations ? 1 : 0;
}
}
