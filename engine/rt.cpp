// Runtime seen by the code under test: its libc references are renamed X -> cut_X (see run.py).
#include "mc.h"
#include "mc_priv.h"
#include <cstdarg>
#include <cstdlib>
#include <cerrno>
#include <unistd.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/select.h>
#include <poll.h>

Fault   g_fault;
Console g_console;

// ------------------------------------------------------------------ allocation tracking
namespace
{
const size_t TAB = 1u << 16;
struct Ent { void* p; size_t n; uint32_t gen; };
Ent                   g_tab[TAB];
uint32_t              g_gen = 1;
size_t                g_live, g_allocCalls, g_allocLimit = 512u << 20;
long                  g_failAt = -1;
std::vector<uint32_t> g_used;
int                   g_injected;
const char*           g_lastFault = "";
struct Huge { void* p; size_t n; void* map; size_t mapped; };
std::vector<Huge>     g_huge;
const size_t          HUGE_BLOCK = (size_t)1 << 22;           // such blocks are reserved, and only filled at their ends
const size_t          HUGE_FILE = (size_t)1 << 26;
const size_t          PAGE = 4096;
void* hugeAlloc(size_t n)
{   // the end of the block is as close to an inaccessible page as alignment allows
    size_t full = (n + PAGE - 1) & ~(PAGE - 1);
    char*  h = (char*)mmap(nullptr, full + PAGE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (h == MAP_FAILED) { errno = ENOMEM; return nullptr; }
    mprotect(h + full, PAGE, PROT_NONE);
    char* p = h + ((full - n) & ~(size_t)15);
    g_huge.push_back(Huge{p, n, h, full + PAGE});
    return p;
}
size_t                g_opened;
std::string           g_notOpened;     // the file an injected fopen fault was for
std::vector<FILE*>    g_files, g_errFiles;
std::vector<FILE*>    g_closed;
std::string           g_outText, g_errText;
size_t                g_outAtRead;     // how much had been written when the last byte was delivered
long                  g_polls;         // of the console since the last byte was delivered

inline size_t slotOf(void* p) { uint64_t x = (uint64_t)(uintptr_t)p >> 4; x *= 0x9E3779B97F4A7C15ull; return x >> 48; }
Ent* find(void* p)
{
    for (size_t i = slotOf(p), k = 0; k < TAB; k++, i = (i + 1) & (TAB - 1))
    {
        if (g_tab[i].gen != g_gen) return nullptr;
        if (g_tab[i].p == p) return &g_tab[i];
    }
    return nullptr;
}
void add(void* p, size_t n)
{
    size_t reuse = TAB;
    for (size_t i = slotOf(p), k = 0; k < TAB; k++, i = (i + 1) & (TAB - 1))
    {
        if (g_tab[i].gen != g_gen) { if (reuse == TAB) { g_used.push_back((uint32_t)i); reuse = i; } break; }
        if (g_tab[i].p == p) { reuse = i; break; }
        if (!g_tab[i].p && reuse == TAB) reuse = i;          // tombstone (keep probing for an equal key)
    }
    if (reuse == TAB) return;
    g_tab[reuse] = Ent{p, n, g_gen};
    g_live++;
}
bool inject(int& budget, const char* what)
{
    if (budget <= 0 || (g_fault.total && g_injected >= g_fault.total)) return false;
    if (mc_choose(2, what) == 0) return false;
    budget--;
    g_injected++;
    g_lastFault = what;
    return true;
}
bool allocFails(size_t n)
{
    g_allocCalls++;
    if (g_failAt >= 0 && g_failAt-- == 0) { g_injected++; errno = ENOMEM; return true; }
    if (n > g_allocLimit) { errno = ENOMEM; return true; }
    if (inject(g_fault.mallocBudget, "malloc")) { errno = ENOMEM; return true; }
    return false;
}
bool has(const std::vector<FILE*>& v, FILE* f) { for (FILE* x : v) if (x == f) return true; return false; }
void drop(std::vector<FILE*>& v, FILE* f) { for (size_t i = 0; i < v.size(); i++) if (v[i] == f) { v.erase(v.begin() + (long)i); return; } }
void live(FILE* f, const char* fn)
{
    if (!f) mc_fail("stdio-null", "%s called with a NULL FILE*", fn);
    if (!has(g_files, f) && has(g_closed, f)) mc_fail("stdio-closed", "%s called on a closed FILE*", fn);
}
}

int    rt_faults_injected() { return g_injected; }
const char* rt_last_fault() { return g_lastFault; }
const std::string& rt_not_opened() { return g_notOpened; }
size_t rt_live_allocs() { return g_live + g_huge.size(); }
size_t rt_live_files() { return g_files.size(); }
size_t rt_alloc_calls() { return g_allocCalls; }
size_t rt_files_opened() { return g_opened; }
void   rt_fail_alloc_at(long n) { g_failAt = n; }
void   rt_alloc_limit(size_t n) { g_allocLimit = n; }
std::string& rt_out() { return g_outText; }
std::string& rt_err() { return g_errText; }

void rt_reset()
{
    for (uint32_t i : g_used)
        if (g_tab[i].gen == g_gen && g_tab[i].p) free(g_tab[i].p);
    g_used.clear();
    g_gen++;
    g_live = g_allocCalls = 0;
    g_allocLimit = 512u << 20;
    g_failAt = -1;
    for (auto& h : g_huge) munmap(h.map, h.mapped);
    g_huge.clear();
    g_lastFault = "";
    g_injected = 0;
    g_opened = 0;
    for (FILE* f : g_files) fclose(f);
    g_files.clear(); g_errFiles.clear(); g_closed.clear();
    g_outText.clear(); g_errText.clear(); g_polls = 0; g_outAtRead = 0;
    g_fault = Fault();
    g_console = Console();
}

extern "C"
{
void* cut_malloc(size_t n)
{
    if (allocFails(n)) return nullptr;
    if (n >= HUGE_BLOCK)
    {
        char* h = (char*)hugeAlloc(n);
        if (h) { memset(h, 0xA5, PAGE); memset(h + n - PAGE, 0xA5, PAGE); memset(h + n / 2, 0xA5, PAGE); }
        return h;
    }
    void* p = malloc(n);
    if (p) { memset(p, 0xA5, n); add(p, n); }
    return p;
}
void* cut_calloc(size_t a, size_t b)
{
    if (allocFails(a * b)) return nullptr;
    if (a * b >= HUGE_BLOCK) return hugeAlloc(a * b);
    void* p = calloc(a, b);
    if (p) add(p, a * b);
    return p;
}
void cut_free(void* p)
{
    if (!p) return;
    for (size_t i = 0; i < g_huge.size(); i++)
        if (g_huge[i].p == p) { munmap(g_huge[i].map, g_huge[i].mapped); g_huge.erase(g_huge.begin() + (long)i); return; }
    Ent* e = find(p);
    if (!e) { free(p); return; }
    if (!mc_asan()) memset(p, 0xDD, e->n);
    e->p = nullptr;
    g_live--;
    free(p);
}
void* cut_memset(void* p, int c, size_t n)
{   // clearing a large range gives its whole pages back instead of touching them
    char *from = (char*)(((uintptr_t)p + PAGE - 1) & ~(PAGE - 1)), *to = (char*)(((uintptr_t)p + n) & ~(PAGE - 1));
    bool known = false;
    if (c == 0 && n >= HUGE_BLOCK)
        for (auto& h : g_huge) known = known || ((char*)p >= (char*)h.p && (char*)p + n <= (char*)h.p + h.n);
    if (!known || madvise(from, (size_t)(to - from), MADV_DONTNEED)) return memset(p, c, n);
    memset(p, 0, (size_t)(from - (char*)p));
    memset(to, 0, (size_t)((char*)p + n - to));
    return p;
}
void* cut_asan_memset(void* p, int c, size_t n) { return cut_memset(p, c, n); }
void* cut_realloc(void* p, size_t n)
{
    if (!p) return cut_malloc(n);
    if (n == 0) { cut_free(p); return nullptr; }
    if (allocFails(n)) return nullptr;
    Ent* e = find(p);
    size_t old = e ? e->n : 0;
    for (auto& h : g_huge) if (h.p == p) old = h.n;
    if (!old && !e) return realloc(p, n);
    bool   big = n >= HUGE_BLOCK;
    void*  q = big ? hugeAlloc(n) : malloc(n);               // always moves: stale pointers show up
    if (!q) return nullptr;
    size_t keep = old < n ? old : n;
    if (!big) memcpy(q, p, keep);
    for (size_t i = 0; big && i < keep; i += PAGE)           // into fresh zero pages
    {
        static const char zeroes[PAGE] = {};
        size_t k = std::min(PAGE, keep - i);
        if (memcmp((char*)p + i, zeroes, k)) memcpy((char*)q + i, (char*)p + i, k);
    }
    if (n > old && !big) memset((char*)q + old, 0xA5, n - old);
    if (n > old && big) { size_t k = std::min(n - old, (size_t)65536); memset((char*)q + old, 0xA5, k); memset((char*)q + n - k, 0xA5, k); }
    cut_free(p);
    if (!big) add(q, n);
    return q;
}
char* cut_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)cut_malloc(n); if (p) memcpy(p, s, n); return p; }
char* cut_strndup(const char* s, size_t m) { size_t n = strnlen(s, m); char* p = (char*)cut_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }

FILE* cut_fopen(const char* name, const char* mode)
{
    if (inject(g_fault.fopenBudget, "fopen")) { g_notOpened = name; errno = EACCES; return nullptr; }
    if (strpbrk(mode, "wa+")) { mc_fail("fopen-write", "the code under test opened \"%s\" with mode \"%s\"", name, mode); }
    FILE* f = fopen(name, mode);
    if (f) { drop(g_closed, f); g_files.push_back(f); g_opened++; }
    return f;
}
int cut_fclose(FILE* f)
{
    live(f, "fclose");
    drop(g_files, f); drop(g_errFiles, f);
    g_closed.push_back(f);
    return fclose(f);
}
size_t cut_fread(void* p, size_t s, size_t n, FILE* f)
{
    live(f, "fread");
    if (inject(g_fault.freadBudget, "fread"))
    {   // nothing at all, or all but the last item, before the error
        size_t got = n > 1 && mc_choose(2, "partly") ? fread(p, s, n - 1, f) : 0;
        errno = EIO;
        g_errFiles.push_back(f);
        return got;
    }
    if (s * n >= HUGE_FILE)                                  // from a file which is all hole
    {
        struct stat st;
        long at = ftell(f);
        if (fstat(fileno(f), &st) == 0 && st.st_blocks == 0 && at >= 0 && st.st_size >= at)
        {
            size_t got = std::min(n, (size_t)(st.st_size - at) / s);
            for (auto& h : g_huge)
                if ((char*)p >= (char*)h.p && (char*)p + s * n <= (char*)h.p + h.n)
                {
                    char* a = (char*)(((uintptr_t)p + PAGE - 1) & ~(uintptr_t)(PAGE - 1));
                    char* b = (char*)((uintptr_t)((char*)p + s * got) & ~(uintptr_t)(PAGE - 1));
                    if (got < n || a >= b) break;            // the rest is read as usual
                    memset(p, 0, (size_t)(a - (char*)p));
                    madvise(a, (size_t)(b - a), MADV_DONTNEED);
                    memset(b, 0, (size_t)((char*)p + s * got - b));
                    fseek(f, at + (long)(s * got), SEEK_SET);
                    return got;
                }
        }
    }
    return fread(p, s, n, f);
}
int cut_fseek(FILE* f, long o, int w)
{
    live(f, "fseek");
    if (inject(g_fault.fseekBudget, "fseek")) { errno = EIO; return -1; }
    return fseek(f, o, w);
}
void cut_rewind(FILE* f) { live(f, "rewind"); rewind(f); }
long cut_ftell(FILE* f)
{
    live(f, "ftell");
    if (inject(g_fault.ftellBudget, "ftell")) { errno = EIO; return -1; }
    return ftell(f);
}
char* cut_fgets(char* p, int n, FILE* f)
{
    live(f, "fgets");
    if (inject(g_fault.fgetsBudget, "fgets")) { errno = EIO; g_errFiles.push_back(f); return nullptr; }
    return fgets(p, n, f);
}
int cut_ferror(FILE* f) { live(f, "ferror"); return has(g_errFiles, f) || ferror(f); }
int cut_feof(FILE* f) { live(f, "feof"); return !has(g_errFiles, f) && feof(f); }

static int vout(FILE* f, const char* fm, va_list a)
{
    va_list b;
    va_copy(b, a);
    int n = vsnprintf(nullptr, 0, fm, b);
    va_end(b);
    std::string s((size_t)n + 1, 0);
    vsnprintf(&s[0], s.size(), fm, a);
    s.resize((size_t)n);
    if (f == stderr) g_errText += s;
    else if (f == stdout) g_outText += s;
    else { live(f, "fprintf"); return vfprintf(f, fm, a); }
    if (g_outText.size() + g_errText.size() > (4u << 20)) mc_fail("output-flood", "more than 4 MB printed");
    return n;
}
int cut_vfprintf(FILE* f, const char* fm, va_list a) { return vout(f, fm, a); }
int cut_vprintf(const char* fm, va_list a) { return vout(stdout, fm, a); }
int cut_fprintf(FILE* f, const char* fm, ...) { va_list a; va_start(a, fm); int n = vout(f, fm, a); va_end(a); return n; }
int cut_printf(const char* fm, ...) { va_list a; va_start(a, fm); int n = vout(stdout, fm, a); va_end(a); return n; }
static std::string* stream(FILE* f) { return f == stderr ? &g_errText : f == stdout ? &g_outText : nullptr; }
int cut_puts(const char* s) { g_outText += s; g_outText += '\n'; return 1; }
int cut_putchar(int c) { g_outText += (char)c; return c; }
int cut_fputs(const char* s, FILE* f) { if (auto p = stream(f)) { *p += s; return 1; } return fputs(s, f); }
int cut_fputc(int c, FILE* f) { if (auto p = stream(f)) { *p += (char)c; return c; } return fputc(c, f); }
int cut_putc(int c, FILE* f) { return cut_fputc(c, f); }
size_t cut_fwrite(const void* p, size_t s, size_t n, FILE* f) { if (auto q = stream(f)) { q->append((const char*)p, s * n); return n; } return fwrite(p, s, n, f); }
ssize_t cut_write(int fd, const void* p, size_t n);
int cut_fflush(FILE* f)
{
    if (f && f != stdout) return f == stderr ? 0 : fflush(f);
    std::string s;
    s.swap(g_outText);
    for (size_t i = 0; i < s.size();)
    {
        ssize_t n = cut_write(1, s.data() + i, s.size() - i);
        if (n < 0) return EOF;
        i += (size_t)n;
    }
    return 0;
}
void cut_perror(const char* s) { g_errText += s ? s : ""; g_errText += ": error\n"; }

void cut_exit(int code) { throw CutExit{code}; }
void cut_abort(void) { mc_fail("abort", "the code under test called abort()"); }
void cut___assert_fail(const char* e, const char* f, unsigned l, const char* fn)
{
    const char* b = strrchr(f, '/');
    mc_fail("assert", "assertion '%s' failed in %s (%s:%u)", e, fn, b ? b + 1 : f, l);
}

static void consoleTick() { if (++g_polls > g_console.budget) mc_fail("livelock", "the console was polled without end: the run never finishes"); }
static bool consoleReady()
{
    if (g_console.pos < g_console.in.size()) return true;
    return g_console.more && g_console.more() && g_console.pos < g_console.in.size();
}
ssize_t cut_read(int fd, void* p, size_t n)
{
    if (fd != 0) return read(fd, p, n);
    consoleTick();
    g_console.op = 0;
    if (g_console.error) if (int e = g_console.error(fd, 0)) { errno = e; return -1; }
    if (!consoleReady())
    {
        if (g_console.eof) return 0;
        throw ConsoleDone{};
    }
    size_t left = g_console.in.size() - g_console.pos;
    if (n > left) n = left;
    memcpy(p, g_console.in.data() + g_console.pos, n);
    g_console.pos += n;
    g_polls = 0;
    g_outAtRead = g_console.out.size();
    return (ssize_t)n;
}
ssize_t cut_write(int fd, const void* p, size_t n)
{
    if (fd == 2) { g_errText.append((const char*)p, n); return (ssize_t)n; }
    if (fd != 1) return write(fd, p, n);
    g_console.writes++;
    if (g_console.error) if (int e = g_console.error(fd, 1)) { errno = e; return -1; }
    g_console.out.append((const char*)p, n);
    if (g_console.out.size() > g_outAtRead + (64u << 20)) mc_fail("output-flood", "more than 64 MB written to stdout without reading");
    return (ssize_t)n;
}
int cut_select(int nfds, fd_set* r, fd_set* w, fd_set* x, struct timeval* t)
{
    consoleTick();
    g_console.op = 2;
    if (g_console.error) if (int e = g_console.error(0, 2)) { errno = e; return -1; }
    int  n = 0;
    bool ready = nfds > 0 && r && FD_ISSET(0, r) && (consoleReady() || g_console.eof);
    if (r) { FD_ZERO(r); if (ready) { FD_SET(0, r); n++; } }
    if (w) { bool out = nfds > 1 && FD_ISSET(1, w); FD_ZERO(w); if (out) { FD_SET(1, w); n++; } }
    if (x) FD_ZERO(x);
    if (n == 0 && !t) throw ConsoleDone{};                    // would wait for ever
    return n;
}
int cut_poll(struct pollfd* f, nfds_t n, int timeout)
{
    consoleTick();
    g_console.op = 2;
    int k = 0;
    for (nfds_t i = 0; i < n; i++)
    {
        f[i].revents = 0;
        if (f[i].fd == 0)
        {
            if (g_console.error) if (int e = g_console.error(0, 2)) { errno = e; return -1; }
            if ((f[i].events & POLLIN) && consoleReady()) f[i].revents |= POLLIN;
            else if (g_console.eof) f[i].revents |= POLLHUP | (f[i].events & POLLIN);
        }
        else if (f[i].fd == 1) f[i].revents = f[i].events & POLLOUT;
        k += f[i].revents != 0;
    }
    if (k == 0 && timeout < 0) throw ConsoleDone{};
    return k;
}
}

// ------------------------------------------------------------------ scratch files
static std::string g_dir;
static std::vector<std::pair<std::string, std::string>> g_written;
void rt_scratch_dir(const std::string& d) { g_dir = d; g_written.clear(); }
void rt_scratch_cleanup()
{
    if (g_dir.empty()) return;
    if (DIR* d = opendir(g_dir.c_str()))
    {
        while (dirent* e = readdir(d))
            if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) unlink((g_dir + "/" + e->d_name).c_str());
        closedir(d);
    }
    rmdir(g_dir.c_str());
}
std::string scratch_path(const char* name) { return g_dir + "/" + name; }
std::string scratch_file(const char* name, const std::string& bytes)
{
    std::string path = scratch_path(name);
    for (auto& w : g_written)
        if (w.first == name)
        {
            if (w.second == bytes) return path;
            w.second = bytes;
            goto write;
        }
    g_written.emplace_back(name, bytes);
write:
    FILE* f = fopen(path.c_str(), "wb");
    if (!f || fwrite(bytes.data(), 1, bytes.size(), f) != bytes.size() || fclose(f)) { fprintf(stderr, "cannot write %s\n", path.c_str()); _exit(2); }
    return path;
}
void scratch_remove(const char* name)
{
    unlink(scratch_path(name).c_str());
    for (size_t i = 0; i < g_written.size(); i++) if (g_written[i].first == name) { g_written.erase(g_written.begin() + (long)i); return; }
}
std::string hexs(const void* p, size_t n)
{
    std::string s;
    for (size_t i = 0; i < n; i++) { static const char h[] = "0123456789abcdef"; uint8_t b = ((const uint8_t*)p)[i]; s += h[b >> 4]; s += h[b & 15]; }
    return s;
}
std::string fmt(const char* f, ...)
{
    char    b[8192];
    va_list a;
    va_start(a, f);
    int n = vsnprintf(b, sizeof b, f, a);
    va_end(a);
    if (n < (int)sizeof b) return b;
    std::string s((size_t)n, 0);
    va_start(a, f);
    vsnprintf(s.data(), (size_t)n + 1, f, a);
    va_end(a);
    return s;
}
