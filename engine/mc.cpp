#include "mc.h"
#include "mc_priv.h"
#include <atomic>
#include <cstdarg>
#include <cstdlib>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <fstream>
#include <set>
#include <map>
#include <sstream>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/personality.h>
#include <sys/resource.h>

#ifndef MC_VARIANT
#define MC_VARIANT "plain"
#endif
bool mc_asan() { return strcmp(MC_VARIANT, "asan") == 0; }

// Static data of the code under test lives in these two sections (objcopy --rename-section).
extern "C" { extern char __start_cut_data[] __attribute__((weak)), __stop_cut_data[] __attribute__((weak)),
                         __start_cut_bss[] __attribute__((weak)), __stop_cut_bss[] __attribute__((weak)); }
extern "C" { extern int shim_code; extern char shim_message[1024]; void shim_call(void (*)(void*), void*); }

namespace
{
const int MAXC = 60000;
enum Status { RUNNING = 1, DONE = 2, VIOLATION = 3, CAPPED = 4 };
struct Slot
{
    std::atomic<int> status;
    int      model;
    std::atomic<double> started;
    uint64_t paths, pruned, steps, faulty, knownHits;
    int      maxDepth;
    int      n;
    uint16_t choice[MAXC];
    char     key[512];
    char     message[8192];
    char     trace[65536];
    int      nsamples;
    char     samples[4][6000];
    char     known[16][1024];
    int      nknown;
};
struct Shared
{
    std::atomic<uint64_t> nstates, noutcomes;
    std::atomic<int>      stop;
    std::atomic<uint64_t> overflow;
};
const uint64_t SET = 1u << 23;
Shared*                g_sh;
std::atomic<uint64_t>* g_states;
std::atomic<uint64_t>* g_outcomes;
Slot*                  g_slots;
Slot*                  g_slot;

struct Prune {};
struct Violation { std::string key, msg; };
struct NotMine {};
struct Diverged { std::string msg; };

std::vector<uint16_t> g_path, g_arity;      // current execution
size_t                g_prefix;             // choices replayed from g_path
size_t                g_pos;
int                   g_worker, g_workers = 1;
bool                  g_partition, g_decided;
uint64_t              g_product, g_index;
bool                  g_trace;
std::string           g_traceText;
bool                  g_isThorough;
std::vector<std::string> g_knownKeys;
uint64_t              g_pathSteps;
int                   g_fixed;              // replaying a recorded execution: later choices are 0

double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }

std::vector<char> g_snapData, g_snapBss;
void rawcopy(char* d, const char* s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
void snapshot()
{
    if (__start_cut_data) { g_snapData.resize((size_t)(__stop_cut_data - __start_cut_data)); rawcopy(g_snapData.data(), __start_cut_data, g_snapData.size()); }
    if (__start_cut_bss) { g_snapBss.resize((size_t)(__stop_cut_bss - __start_cut_bss)); rawcopy(g_snapBss.data(), __start_cut_bss, g_snapBss.size()); }
}
void restore()
{
    if (!g_snapData.empty()) rawcopy(__start_cut_data, g_snapData.data(), g_snapData.size());
    if (!g_snapBss.empty()) rawcopy(__start_cut_bss, g_snapBss.data(), g_snapBss.size());
}
__attribute__((noinline)) void junkStack()
{
    volatile char b[48 * 1024];
    for (size_t i = 0; i < sizeof b; i++) b[i] = (char)0xA5;
}
bool insert(std::atomic<uint64_t>* set, uint64_t h)
{
    if (!h) h = 1;
    for (uint64_t i = (h * 0x9E3779B97F4A7C15ull) >> 41, k = 0; k < 4096; k++, i = (i + 1) & (SET - 1))
    {
        uint64_t v = set[i].load(std::memory_order_relaxed);
        if (v == h) return false;
        if (v == 0)
        {
            if (set[i].compare_exchange_strong(v, h)) return true;
            if (v == h) return false;
        }
    }
    g_sh->overflow++;
    return false;
}
void setText(char* d, size_t n, const std::string& s) { size_t k = s.size() < n - 1 ? s.size() : n - 1; memcpy(d, s.data(), k); d[k] = 0; }

enum Result { OK, PRUNED, VIOL, SKIP };
Result runOnce(const Model& m, Violation& v)
{
    g_pos = 0; g_product = 1; g_index = 0; g_decided = !g_partition; g_pathSteps = 0;
    g_traceText.clear();
    restore();
    rt_reset();
    junkStack();
    Result r = OK;
    try { m.body(); }
    catch (Prune&) { r = PRUNED; }
    catch (NotMine&) { r = SKIP; }
    catch (Violation& x) { v = x; r = VIOL; }
    catch (Diverged& d) { v = Violation{"nondeterministic", d.msg}; r = VIOL; }
    catch (CutExit& e) { v = Violation{"exit", fmt("the code under test called exit(%d)", e.code)}; r = VIOL; }
    catch (ConsoleDone&) { v = Violation{"console-done", "unexpected read past the end of the console input"}; r = VIOL; }
    if (r == OK && g_pos < g_prefix) { v = Violation{"nondeterministic", fmt("replaying %zu choices the execution ended after %zu", g_prefix, g_pos)}; r = VIOL; }
    if (r == OK && !g_decided && g_worker != 0) r = SKIP;        // short path: belongs to worker 0
    return r;
}
bool isKnown(const std::string& key) { for (auto& k : g_knownKeys) if (k == key) return true; return false; }
}

bool mc_thorough() { return g_isThorough; }
bool mc_tracing() { return g_trace; }
void mc_prune() { throw Prune{}; }
void mc_step() { g_pathSteps++; }
void mc_state(uint64_t h) { if (g_sh && insert(g_states, h)) g_sh->nstates++; }
void mc_outcome(uint64_t h) { if (g_sh && insert(g_outcomes, h)) g_sh->noutcomes++; }
unsigned mc_choose(unsigned n, const char* label)
{
    if (n == 0) mc_prune();
    unsigned c;
    if (n == 1) c = 0;
    else
    {
        if (g_pos < g_prefix)
        {
            c = g_path[g_pos];
            if ((!g_fixed && g_arity[g_pos] != n) || c >= n)
                throw Diverged{fmt("choice %zu (%s): recorded %u of %u, now %u possible", g_pos, label, c, g_fixed ? 0 : g_arity[g_pos], n)};
            if (g_fixed) { if (g_arity.size() <= g_pos) g_arity.resize(g_pos + 1); g_arity[g_pos] = (uint16_t)n; }
        }
        else
        {
            c = 0;
            if (g_path.size() <= g_pos) { g_path.resize(g_pos + 1); }
            if (g_arity.size() <= g_pos) { g_arity.resize(g_pos + 1); }
            g_path[g_pos] = 0; g_arity[g_pos] = (uint16_t)n;
            if (g_pos + 1 >= (size_t)MAXC) mc_fail("choices", "more than %d choice points in one execution", MAXC);
        }
        g_slot->choice[g_pos] = (uint16_t)c;
        g_pos++;
        g_slot->n = (int)g_pos;
        if (!g_decided)
        {
            g_product *= n; g_index = g_index * n + c;
            if (g_product >= 40u * (unsigned)g_workers)
            {
                g_decided = true;
                uint64_t h = g_index * 0x9E3779B97F4A7C15ull;
                if ((int)((h >> 33) % (unsigned)g_workers) != g_worker) throw NotMine{};
            }
        }
    }
    if (g_trace) mc_note("  [choice] %s = %u of %u", label, c, n);
    return c;
}
void mc_note(const char* f, ...)
{
    if (!g_trace) return;
    char    b[2048];
    va_list a;
    va_start(a, f);
    vsnprintf(b, sizeof b, f, a);
    va_end(a);
    if (g_traceText.size() < 60000) { g_traceText += b; g_traceText += '\n'; }
}
void mc_fail(const std::string& key, const char* f, ...)
{
    char    b[8000];
    va_list a;
    va_start(a, f);
    vsnprintf(b, sizeof b, f, a);
    va_end(a);
    if (isKnown(key))
    {
        bool seen = false;
        for (int i = 0; i < g_slot->nknown; i++) seen |= key == g_slot->known[i];
        if (!seen && g_slot->nknown < 16) setText(g_slot->known[g_slot->nknown++], 1024, key);
        g_slot->knownHits++;
        throw Prune{};
    }
    throw Violation{key, b};
}
uint64_t mc_hash(const void* p, size_t n, uint64_t h)
{
    const uint8_t* b = (const uint8_t*)p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ull; }
    return h ^ (h >> 29);
}
int cut_code(void (*fn)(void*), void* arg) { shim_call(fn, arg); return shim_code; }
Ex cut_call(void (*fn)(void*), void* arg)
{
    shim_call(fn, arg);
    return Ex{shim_code, shim_message};
}

// ------------------------------------------------------------------ workers
namespace
{
std::string g_scratchBase;
void makeScratch(const char* tag)
{
    for (const char* root : {"/dev/shm", "/tmp"})
    {
        std::string d = fmt("%s/verif-mc-%07d-%s", root, (int)getpid(), tag);
        if (mkdir(d.c_str(), 0700) == 0 || errno == EEXIST)
        {
            std::string t = d + "/t"; FILE* f = fopen(t.c_str(), "wb");
            if (!f) continue;
            fclose(f); unlink(t.c_str());
            rt_scratch_dir(d);
            g_scratchBase = d;
            return;
        }
    }
    fprintf(stderr, "no scratch directory\n"); _exit(2);
}
void removeDir(const std::string& d) { if (!d.empty()) { rt_scratch_dir(d); rt_scratch_cleanup(); } }

bool runFixed(const Model& m, const std::vector<uint16_t>& choices, Violation& v, std::string* trace)
{
    g_path = choices; g_arity.assign(choices.size(), 0); g_prefix = choices.size(); g_fixed = 1; g_partition = false;
    g_trace = trace != nullptr;
    Result r = runOnce(m, v);
    if (trace) *trace = g_traceText;
    g_fixed = 0;
    return r == VIOL;
}
void worker(int w, int modelIndex, double deadline)
{
    const Model& m = g_models[modelIndex];
    g_slot = &g_slots[w];
    g_worker = w; g_partition = g_workers > 1; g_fixed = 0;
    Slot& s = *g_slot;
    s.model = modelIndex;
    makeScratch(fmt("w%02d", w).c_str());      // all names have the same length
    snapshot();
    g_path.clear(); g_arity.clear(); g_prefix = 0;
    uint64_t nextSample = 0, index = 0;
    bool more = true;
    while (more)
    {
        s.started = now();
        g_trace = index >= nextSample && s.nsamples < 4;
        Violation v;
        Result r = runOnce(m, v);
        if (r == VIOL)
        {
            std::vector<uint16_t> ch(g_path.begin(), g_path.begin() + (long)g_pos);
            setText(s.key, sizeof s.key, v.key);
            setText(s.message, sizeof s.message, v.msg);
            s.n = (int)ch.size();
            for (size_t i = 0; i < ch.size(); i++) s.choice[i] = ch[i];
            s.status = VIOLATION;
            rt_reset(); removeDir(g_scratchBase);
            _exit(0);
        }
        if (r == OK)
        {
            s.paths++; index++;
            s.steps += g_pathSteps;
            if ((int)g_pos > s.maxDepth) s.maxDepth = (int)g_pos;
            if (rt_faults_injected()) s.faulty++;
            if (g_trace) { setText(s.samples[s.nsamples++], sizeof s.samples[0], g_traceText); nextSample = nextSample * 13 + 5; }
        }
        else if (r == PRUNED) { s.pruned++; s.steps += g_pathSteps; }
        // next sequence
        g_path.resize(g_pos); g_arity.resize(g_pos);
        while (!g_path.empty() && g_path.back() + 1 >= g_arity.back()) { g_path.pop_back(); g_arity.pop_back(); }
        if (g_path.empty()) more = false;
        else g_path.back()++;
        g_prefix = g_path.size();
        if (now() > deadline || g_sh->stop) { s.status = more ? CAPPED : DONE; break; }
    }
    if (!more) s.status = DONE;
    rt_reset(); removeDir(g_scratchBase);
    _exit(0);
}

struct Found { int model; std::vector<uint16_t> choices; std::string key, msg, trace, kind; };

// Re-run one execution alone in a child. 0 = no violation, 1 = violation, 2 = crash/hang
int confirm(int model, const std::vector<uint16_t>& ch, double limit, Found& f, bool wantTrace)
{
    Slot& s = g_slots[63];
    memset((void*)&s, 0, sizeof s);
    int pfd[2];
    if (pipe(pfd)) return 0;
    pid_t p = fork();
    if (p == 0)
    {
        close(pfd[0]);
        if (wantTrace) { dup2(pfd[1], 2); }
        g_slot = &s; g_workers = 1; g_worker = 0;
        makeScratch("cfm");
        snapshot();
        Violation v; std::string tr;
        s.status = RUNNING;
        bool bad = runFixed(g_models[model], ch, v, &tr);
        setText(s.key, sizeof s.key, v.key); setText(s.message, sizeof s.message, v.msg);
        setText(s.trace, sizeof s.trace, tr);
        s.status = bad ? VIOLATION : DONE;
        rt_reset(); removeDir(g_scratchBase);
        _exit(0);
    }
    close(pfd[1]);
    std::string err;
    fcntl(pfd[0], F_SETFL, O_NONBLOCK);
    double t0 = now(); int st = 0; bool ended = false;
    while (now() - t0 < limit)
    {
        char b[4096]; ssize_t k;
        while ((k = read(pfd[0], b, sizeof b)) > 0) if (err.size() < 40000) err.append(b, (size_t)k);
        if (waitpid(p, &st, WNOHANG) == p) { ended = true; break; }
        usleep(2000);
    }
    bool hang = !ended;
    if (hang) { kill(p, SIGKILL); waitpid(p, &st, 0); }
    { char b[4096]; ssize_t k; while ((k = read(pfd[0], b, sizeof b)) > 0) if (err.size() < 40000) err.append(b, (size_t)k); }
    close(pfd[0]);
    for (const char* root : {"/dev/shm", "/tmp"}) removeDir(fmt("%s/verif-mc-%d-confirm", root, (int)p));
    f.trace = s.trace;
    if (hang) { f.key = "hang"; f.msg = fmt("this execution does not finish within %.0f s", limit); return 2; }
    if (s.status == VIOLATION) { f.key = s.key; f.msg = s.message; return 1; }
    if (s.status == DONE) return 0;
    if (WIFSIGNALED(st) || WEXITSTATUS(st) != 0)
    {
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) return 0;     // ended from outside
        f.key = "crash";
        std::string what;
        size_t e = err.find("ERROR: AddressSanitizer");
        if (e != std::string::npos)
        {
            std::string l = err.substr(e, err.find('\n', e) - e);
            std::istringstream is(l.substr(7)); std::string a, b; is >> a >> b;
            what = "AddressSanitizer: " + b;
            size_t q = err.find(" in ", e);
            for (int i = 0; i < 4 && q != std::string::npos; i++)
            {
                std::string fn = err.substr(q + 4, err.find_first_of("\n", q) - q - 4);
                what += " < " + fn.substr(0, 90);
                q = err.find(" in ", q + 4);
            }
        }
        else what = WIFSIGNALED(st) ? fmt("killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))) : fmt("exit status %d", WEXITSTATUS(st));
        f.msg = "the code under test crashed: " + what;
        f.kind = err;
        return 2;
    }
    return 0;
}

std::string js(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c >= 127) o += fmt("\\u%04x", c);
        else o += (char)c;
    }
    return o + "\"";
}
std::vector<uint16_t> slotChoices(const Slot& s) { return std::vector<uint16_t>(s.choice, s.choice + s.n); }

int exploreModel(int mi, double deadline, std::string& json, Found& found, bool& harnessError)
{
    memset((void*)g_sh, 0, sizeof *g_sh);
    madvise((void*)g_states, SET * 8, MADV_REMOVE); madvise((void*)g_outcomes, SET * 8, MADV_REMOVE);
    memset((void*)g_slots, 0, sizeof(Slot) * (size_t)g_workers);
    std::vector<pid_t> pid((size_t)g_workers, 0);
    double t0 = now();
    fflush(stdout);
    for (int w = 0; w < g_workers; w++)
    {
        g_slots[w].status = RUNNING; g_slots[w].started = now(); g_slots[w].model = mi;
        pid_t p = fork();
        if (p == 0)
        {
            int dn = open("/dev/null", O_WRONLY);
            dup2(dn, 2);
            worker(w, mi, deadline);
        }
        pid[(size_t)w] = p;
    }
    int alive = g_workers; bool violated = false;
    double hangLimit = 20;
    auto consider = [&](int w, bool suspectHang) {
        Found f; f.model = mi; f.choices = slotChoices(g_slots[w]);
        double lim = suspectHang ? 60 : 90;
        int a = confirm(mi, f.choices, lim, f, true);
        if (a == 0) return 0;
        Found g; g.model = mi; g.choices = f.choices;
        int b = confirm(mi, f.choices, lim, g, true);
        if (b == 0) return 0;
        if (!violated || f.choices.size() < found.choices.size()) found = f;
        return 1;
    };
    auto killAll = [&] { g_sh->stop = 1; };
    while (alive)
    {
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0)
        {
            int w = -1;
            for (int i = 0; i < g_workers; i++) if (pid[(size_t)i] == p) w = i;
            if (w < 0) continue;
            pid[(size_t)w] = 0; alive--;
            for (const char* root : {"/dev/shm", "/tmp"}) removeDir(fmt("%s/verif-mc-%d-w%d", root, (int)p, w));
            int s = g_slots[w].status;
            if (s == VIOLATION || s == RUNNING)
            {
                killAll();
                if (consider(w, false)) violated = true;
                else if (!violated)
                {
                    harnessError = true;
                    fprintf(stderr, "model %s worker %d: %s not reproduced alone: %s %s\n", g_models[mi].name, w, s == VIOLATION ? "violation" : "death", g_slots[w].key, g_slots[w].message);
                }
            }
            continue;
        }
        for (int w = 0; w < g_workers; w++)
            if (pid[(size_t)w] && g_slots[w].status == RUNNING && now() - g_slots[w].started > hangLimit)
            {
                kill(pid[(size_t)w], SIGSTOP);
                if (consider(w, true)) { violated = true; killAll(); kill(pid[(size_t)w], SIGKILL); g_slots[w].status = CAPPED; }
                else { g_slots[w].started = now() + 60; }
                kill(pid[(size_t)w], SIGCONT);
            }
        usleep(alive == g_workers && now() - t0 < 0.2 ? 1000 : 3000);
    }
    if (violated) harnessError = false;
    uint64_t paths = 0, pruned = 0, steps = 0, faulty = 0, known = 0; int depth = 0; bool capped = false;
    std::set<std::string> knownKeys; std::string samples;
    int ns = 0;
    for (int w = 0; w < g_workers; w++)
    {
        Slot& s = g_slots[w];
        paths += s.paths; pruned += s.pruned; steps += s.steps; faulty += s.faulty; known += s.knownHits;
        if (s.maxDepth > depth) depth = s.maxDepth;
        if (s.status == CAPPED) capped = true;
        for (int i = 0; i < s.nknown; i++) knownKeys.insert(s.known[i]);
    }
    for (int i = 0; i < 4 && ns < 3; i++)
        for (int w = 0; w < g_workers && ns < 3; w++)
            if (i < g_slots[w].nsamples) { samples += (ns++ ? "," : "") + js(g_slots[w].samples[i]); }
    json = fmt("{\"model\":%s,\"what\":%s,\"executions\":%lu,\"pruned\":%lu,\"states\":%lu,\"outcomes\":%lu,\"transitions\":%lu,\"with_faults\":%lu,\"max_choices\":%d,\"capped\":%s,\"overflow\":%lu,\"known_hits\":%lu,\"wall_s\":%.3f",
               js(g_models[mi].name).c_str(), js(g_models[mi].what).c_str(), paths, pruned, g_sh->nstates.load(), g_sh->noutcomes.load(), steps, faulty, depth,
               capped ? "true" : "false", g_sh->overflow.load(), known, now() - t0);
    json += ",\"known\":[";
    bool first = true;
    for (auto& k : knownKeys) { json += (first ? "" : ",") + js(k); first = false; }
    json += "],\"samples\":[" + samples + "]}";
    return violated ? 1 : 0;
}
}

int main(int argc, char** argv)
{
    std::string out, replay, only, replayOut;
    double limit = 600;
    g_workers = 8;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto next = [&] { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
        if (a == "--tier") g_isThorough = next() == "thorough";
        else if (a == "--out") out = next();
        else if (a == "--workers") g_workers = atoi(next().c_str());
        else if (a == "--model") only = next();
        else if (a == "--limit") limit = atof(next().c_str());
        else if (a == "--known") g_knownKeys.push_back(next());
        else if (a == "--replay") replay = next();
        else if (a == "--replay-out") replayOut = next();
    }
    if (g_workers < 1) g_workers = 1;
    if (g_workers > 60) g_workers = 60;
    // Same addresses on every run.
    if (!getenv("MC_NORAND"))
    {
        int p = personality(0xffffffff);
        setenv("MC_NORAND", "1", 1);
        if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality((unsigned long)(p | ADDR_NO_RANDOMIZE)) != -1)
            execv("/proc/self/exe", argv);
    }
    rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    g_slots = (Slot*)mmap(nullptr, sizeof(Slot) * 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_states = (std::atomic<uint64_t>*)mmap(nullptr, SET * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_outcomes = (std::atomic<uint64_t>*)mmap(nullptr, SET * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);

    if (!replay.empty())
    {
        // replay file: model name, then the choices
        std::ifstream in(replay);
        std::string model; in >> model;
        std::vector<uint16_t> ch; int c;
        while (in >> c) ch.push_back((uint16_t)c);
        for (size_t i = 0; i < g_modelCount; i++)
            if (model == g_models[i].name)
            {
                Found f;
                int r = confirm((int)i, ch, 120, f, true);
                printf("%s\n%s%s%s\n", f.trace.c_str(), r ? "VIOLATION: " : "no violation", r ? (f.key + ": " + f.msg).c_str() : "", "");
                if (r == 2) printf("%s\n", f.kind.c_str());
                return r ? 1 : 0;
            }
        fprintf(stderr, "no model %s\n", model.c_str());
        return 2;
    }
    double deadline = now() + limit;
    std::string all = "[";
    int rc = 0; bool err = false, first = true;
    Found f;
    for (size_t i = 0; i < g_modelCount && !rc; i++)
    {
        if (!only.empty() && only != g_models[i].name) continue;
        std::string j;
        rc = exploreModel((int)i, deadline, j, f, err);
        all += (first ? "\n" : ",\n") + j; first = false;
        if (err) break;
    }
    all += "\n]";
    std::string v = "null";
    if (rc)
    {
        std::string c;
        for (size_t i = 0; i < f.choices.size(); i++) c += fmt("%s%u", i ? "," : "", f.choices[i]);
        v = fmt("{\"model\":%s,\"key\":%s,", js(g_models[f.model].name).c_str(), js(f.key).c_str()) + "\"message\":" + js(f.msg) + ",\"choices\":[" + c + "],\"trace\":" + js(f.trace) + ",\"stderr\":" + js(f.kind.substr(0, 6000)) + "}";
    }
    std::string doc = fmt("{\"variant\":\"%s\",\"error\":%s,\"violation\":", MC_VARIANT, err && !rc ? "true" : "false") + v + ",\"models\":" + all + "}\n";
    if (!out.empty()) { std::ofstream o(out); o << doc; }
    else fputs(doc.c_str(), stdout);
    return rc ? 1 : err ? 2 : 0;
}
