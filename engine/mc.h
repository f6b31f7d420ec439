// Stateless explicit exploration engine: every check body is re-executed once for every sequence of mc_choose()
// answers (depth first, simplest first), on the real code, with all static state of the code under test restored
// before each execution and every allocation / FILE* / console call routed through the runtime below.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <functional>

struct Model { const char* name; void (*body)(); const char* what; };
extern const char*  g_property;
extern const Model  g_models[];
extern const size_t g_modelCount;
#define MODELS(ID, ...) \
    const char* g_property = ID; \
    const Model g_models[] = { __VA_ARGS__ }; \
    const size_t g_modelCount = sizeof(g_models) / sizeof(g_models[0])

// ---- exploration
unsigned mc_choose(unsigned n, const char* label);           // 0..n-1, all values explored
template <class T> const T& mc_pick(const std::vector<T>& v, const char* label) { return v[mc_choose((unsigned)v.size(), label)]; }
template <class T, size_t N> const T& mc_pick(const T (&v)[N], const char* label) { return v[mc_choose((unsigned)N, label)]; }
inline bool mc_bool(const char* label) { return mc_choose(2, label) != 0; }
bool mc_asan();                                              // build variant (the quick tier may explore less of it)
bool mc_thorough();                                          // tier
inline int mc_tier(int quick, int thorough) { return mc_thorough() ? thorough : quick; }
[[noreturn]] void mc_prune();                                // uninteresting path: not counted
[[noreturn]] void mc_fail(const std::string& key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void mc_note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // trace line of this execution
bool mc_tracing();
void mc_step();                                              // one transition (operation on the real code)
void mc_state(uint64_t hash);                                // a state reached (deduplicated by hash)
void mc_outcome(uint64_t hash);                              // observed outcome of an execution (deduplicated)
#define CHECK(COND, ...) do { if (!(COND)) mc_fail(#COND, __VA_ARGS__); } while (0)
#define CHECKK(KEY, COND, ...) do { if (!(COND)) mc_fail(KEY, __VA_ARGS__); } while (0)

uint64_t mc_hash(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull);
inline uint64_t mc_hash(const std::string& s, uint64_t h = 0xcbf29ce484222325ull) { return mc_hash(s.data(), s.size(), h); }
template <class T> uint64_t mc_hashv(const std::vector<T>& v, uint64_t h = 0xcbf29ce484222325ull) { return mc_hash(v.data(), v.size() * sizeof(T), h); }
inline uint64_t mc_hashi(uint64_t v, uint64_t h = 0xcbf29ce484222325ull) { return mc_hash(&v, sizeof v, h); }

// ---- calls into the code under test, with its exceptions caught
struct Ex { int code; std::string msg; explicit operator bool() const { return code != 0; } };
Ex  cut_call(void (*fn)(void*), void* arg);
int cut_code(void (*fn)(void*), void* arg);                  // the same, exception code only
template <class F> Ex cut(F f)
{
    struct T { static void go(void* p) { (*(F*)p)(); } };
    return cut_call(&T::go, &f);
}

// ---- runtime under the code under test
struct Fault { int mallocBudget = 0, fopenBudget = 0, freadBudget = 0, fseekBudget = 0, ftellBudget = 0, fgetsBudget = 0; int total = 0; };   // total: at most so many (0: no limit)
extern Fault g_fault;              // budgets > 0 turn calls into choice points (0 = succeed, 1 = fail)
int      rt_faults_injected();     // how many faults this execution has injected so far
const char* rt_last_fault();       // the call which failed last
size_t   rt_live_allocs();         // blocks allocated by the code under test and not freed
size_t   rt_live_files();          // FILE* opened by the code under test and not closed
size_t   rt_alloc_calls();
size_t   rt_files_opened();        // successful fopen calls so far
void     rt_fail_alloc_at(long n);  // the n-th allocation from now (0 based) fails, once; -1: off
void     rt_alloc_limit(size_t n);  // allocation requests larger than n bytes fail (default 512 MB)
const std::string& rt_not_opened();     // the name of the file the last injected fopen fault was for
std::string& rt_out();             // what the code under test printed with printf and did not flush to the console
std::string& rt_err();             // ... with fprintf(stderr)
struct Console                     // read()/write()/select() of the code under test
{
    std::string in;                // bytes stdin will deliver
    size_t      pos = 0;
    bool        eof = true;        // at the end of `in`: read returns 0 (else the run ends)
    std::string out;
    int         op = 0;            // the call in progress: 0 read, 2 select/poll
    long        writes = 0;        // write calls on stdout
    std::function<bool()> more;    // called when `in` is used up; true when it appended to `in`
    long        budget = 2000000;  // calls without a byte read before the execution is declared a livelock
    std::function<int(int fd, int op)> error;  // op 0 read,1 write,2 select: return errno to inject, or 0
};
extern Console g_console;
struct CutExit { int code; };      // C++ exception thrown when the code under test calls exit()
struct ConsoleDone {};             // C++ exception thrown when stdin is used up and eof == false

// ---- scratch files (created under a private directory, removed at the end)
std::string scratch_path(const char* name);
std::string scratch_file(const char* name, const std::string& bytes);   // cached while the contents are the same
void        scratch_remove(const char* name);

std::string hexs(const void* p, size_t n);
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
