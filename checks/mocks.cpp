// C31, C32: the failure injectors and the printf spy used by the unit tests.
#include "mc.h"
#include <algorithm>
#include <cstdarg>
#include <cstdlib>
extern "C"
{
FILE* cut_fopen(const char* name, const char* mode);     // the real functions, as the code under test calls them
int   cut_fclose(FILE* f);
int   cut_fseek(FILE* f, long to, int whence);
#include <printfSpy.h>
#include <MallocFailureInject.h>
#include <FileFailureInject.h>
}
#undef printf
#undef fprintf
#undef malloc
#undef realloc
#undef free
#undef fopen
#undef fclose
#undef fseek
#undef ftell
#undef fwrite
#undef fread
#undef fgets

namespace
{
typedef uint32_t u32;
std::string pattern(u32 n, u32 seed) { std::string s; for (u32 i = 0; i < n; i++) s += (char)('A' + (seed + i * 7) % 57); return s; }

// ---------------------------------------------------------------- C31: allocations
void c31_alloc()
{
    u32 depth = (u32)mc_tier(mc_asan() ? 5 : 6, mc_asan() ? 6 : 7), left = 0, live = 0;     // left: the left-th allocation from now fails
    void* last = nullptr;
    std::string bytes;
    uint64_t h = 5;
    for (u32 i = 0; i < depth; i++)
    {
        u32 op = mc_choose(10, "operation");
        mc_step();
        if (op < 5) { MallocFailureInject_FailAllocation(op); left = op; mc_note("fail allocation %u", op); }
        else if (op == 5) { MallocFailureInject_Restore(); left = 0; mc_note("restore"); }
        else if (op == 6 || op == 7)
        {
            bool fails = left && --left == 0;
            u32  n = 10 + 7 * i;
            void* p = op == 6 ? hook_malloc(n) : hook_realloc(last, n);
            mc_note("%s -> %s, expected %s", op == 6 ? "malloc" : "realloc", p ? "block" : "NULL", fails ? "NULL" : "block");
            CHECKK("allocation", !p == fails, "%s %s", op == 6 ? "malloc" : "realloc", fails ? "succeeded though armed to fail" : "failed though not armed for this call");
            h = mc_hashi(!p, h);
            if (p)
            {
                if (op == 7) CHECKK("realloc-contents", !memcmp(p, bytes.data(), bytes.size()), "realloc lost the contents");
                if (op == 6 && last) { hook_free(last); live--; }
                if (op == 6 || !last) live++;
                last = p;
                bytes = pattern(n, i);
                memcpy(p, bytes.data(), n);
            }
            else if (last) CHECKK("realloc-contents", !memcmp(last, bytes.data(), bytes.size()), "a failed %s changed the old block", op == 6 ? "malloc" : "realloc");
        }
        else if (op == 9)                                     // nothing but a size of 0
        {
            bool fails = left && --left == 0;
            bool grow = fails || i % 2;
            void* p = grow ? hook_realloc(fails ? last : nullptr, 0) : hook_malloc(0);      // a block resized to 0 would be gone
            CHECKK("allocation", !fails || !p, "%s of 0 bytes succeeded though armed to fail", grow ? "realloc" : "malloc");
            if (fails && last) CHECKK("realloc-contents", !memcmp(last, bytes.data(), bytes.size()), "a failed realloc changed the old block");
            if (p) hook_free(p);
        }
        else if (last) { hook_free(last); last = nullptr; bytes.clear(); live--; }
        CHECKK("live-blocks", rt_live_allocs() == live, "%zu blocks are allocated, expected %u", rt_live_allocs(), live);
        u32 st[3] = {left, live, (u32)bytes.size()};
        mc_state(mc_hash(st, sizeof st));
    }
    MallocFailureInject_Restore();
    for (u32 i = 0; i < 5; i++)
    {
        void* p = hook_malloc(8);
        void* q = hook_realloc(p, 16);
        CHECKK("after-restore", p && q, "an allocation failed after the injector was restored");
        hook_free(q);
    }
    if (last) hook_free(last);
    mc_outcome(h);
}

// ---------------------------------------------------------------- C31: files
struct Files
{
    FILE* in = nullptr; FILE* out = nullptr; FILE* other = nullptr;
    long  pos = 0;                    // of `in`
    std::string bytes, written;
    bool  fopenArmed = false, fcloseArmed = false, fseekArmed = false, ftellArmed = false, fwriteArmed = false, fgetsArmed = false;
    FILE* fopenRet = nullptr;
    int   fseekRet = 0, pass = 0;
    long  ftellRet = 0;
    size_t fwriteRet = 0, freadRet = 0;
    int   fread = 0;                  // 0 real, 1 all fail, 2 the n-th fails
    int   nth = 0;
    size_t line = 0, lines = 0;
    uint64_t h = 9;
    void see(const char* what, long v) { mc_step(); h = mc_hashi((uint64_t)v, h); mc_note("%s -> %ld", what, v); mc_state(mc_hashi((uint64_t)(fopenArmed + 2 * fcloseArmed + 4 * fseekArmed + 8 * ftellArmed + 16 * fwriteArmed + 32 * fgetsArmed + 64 * fread + 256 * pass + 4096 * nth), mc_hashi((uint64_t)pos, line))); }
} F;
const char* g_lines[] = {"first line\n", "", "third line which is longer than the buffer\n"};
void openFiles()
{
    if (F.out) fclose(F.out);       // of an execution that was not finished
    F = Files();
    F.bytes = "0123456789\nabcdefghijklmnop\nqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ\n";
    std::string p = scratch_file("in", F.bytes);
    F.in = cut_fopen(p.c_str(), "rb");
    scratch_file("out", "x");
    F.out = fopen(scratch_path("out").c_str(), "wb");
    F.other = cut_fopen(p.c_str(), "rb");
}
void closeFiles()
{
    fopenRestore(); fcloseRestore(); fseekRestore(); ftellRestore(); fwriteRestore(); freadRestore(); fgetsRestore();
    cut_fclose(F.in); fclose(F.out); cut_fclose(F.other);
    scratch_remove("out");
    F = Files();
}
enum Op { OPEN, OPEN_NULL, OPEN_OTHER, OPEN_BACK, CLOSE, CLOSE_ARM, CLOSE_BACK, SEEK, SEEK_ARM, SEEK_ARM5, SEEK_PASS0, SEEK_PASS1, SEEK_PASS2, SEEK_BACK, TELL, TELL_ARM, TELL_ARM0, TELL_BACK, WRITE, WRITE_ARM, WRITE_ARM0, WRITE_BACK, READ, READ_ARM, READ_ARM0, READ_NTH1, READ_NTH2, READ_NTH3, READ_BACK, GETS, GETS_ARM, GETS_ARM0, GETS_BACK, OPS };
void openOne()
{
    FILE* f = hook_fopen(scratch_path("in").c_str(), "rb");
    if (F.fopenArmed) CHECKK("fopen", f == F.fopenRet, "fopen did not return what it was armed with");
    else
    {
        char c = 0;
        CHECKK("fopen", f && f != F.in && f != F.other && fread(&c, 1, 1, f) == 1 && c == F.bytes[0], "fopen did not open the file");
        cut_fclose(f);
    }
    F.see("fopen", f != nullptr);
}
void closeOne()
{
    FILE* f = cut_fopen(scratch_path("in").c_str(), "rb");
    int fd = fileno(f), r = hook_fclose(f);
    bool open = false;
    if (F.fcloseArmed) { char c; open = fread(&c, 1, 1, f) == 1 && fileno(f) == fd; cut_fclose(f); }
    CHECKK("fclose", r == 0 && open == F.fcloseArmed, "fclose returned %d and %s the file", r, F.fcloseArmed && !open ? "closed" : "left");
    F.see("fclose", r);
}
void apply(u32 op)
{
    switch (op)
    {
    case OPEN: openOne(); break;
    case OPEN_NULL: fopenSetReturn(nullptr); F.fopenArmed = true; F.fopenRet = nullptr; break;
    case OPEN_OTHER: fopenSetReturn(F.other); F.fopenArmed = true; F.fopenRet = F.other; break;
    case OPEN_BACK: fopenRestore(); F.fopenArmed = false; break;
    case CLOSE: closeOne(); break;
    case CLOSE_ARM: fcloseIgnore(); F.fcloseArmed = true; break;
    case CLOSE_BACK: fcloseRestore(); F.fcloseArmed = false; break;
    case SEEK:
        {
            bool fails = F.fseekArmed && F.pass == 0;
            if (F.fseekArmed && F.pass) F.pass--;
            long to = (F.pos * 3 + 5) % (long)F.bytes.size();
            int  r = hook_fseek(F.in, to, SEEK_SET);
            if (!fails) F.pos = to;
            CHECKK("fseek", r == (fails ? F.fseekRet : 0) && ftell(F.in) == F.pos, "fseek returned %d and the file is at %ld, expected %d and %ld", r, ftell(F.in), fails ? F.fseekRet : 0, F.pos);
            F.see("fseek", r);
            break;
        }
    case SEEK_ARM: fseekSetReturn(-1); F.fseekArmed = true; F.fseekRet = -1; break;
    case SEEK_ARM5: fseekSetReturn(5); F.fseekArmed = true; F.fseekRet = 5; break;
    case SEEK_PASS0: case SEEK_PASS1: case SEEK_PASS2: fseekSetCallsBeforeFailure((int)(op - SEEK_PASS0)); F.pass = (int)(op - SEEK_PASS0); break;
    case SEEK_BACK: fseekRestore(); F.fseekArmed = false; F.pass = 0; break;
    case TELL:
        {
            long r = hook_ftell(F.in), want = F.ftellArmed ? F.ftellRet : F.pos;
            CHECKK("ftell", r == want, "ftell returned %ld, expected %ld", r, want);
            F.see("ftell", r);
            break;
        }
    case TELL_ARM: case TELL_ARM0: F.ftellRet = op == TELL_ARM ? -1 : 1234567890123; ftellFail(F.ftellRet); F.ftellArmed = true; break;
    case TELL_BACK: ftellRestore(); F.ftellArmed = false; break;
    case WRITE:
        {
            size_t r = hook_fwrite("data", 2, 2, F.out), want = F.fwriteArmed ? F.fwriteRet : 2;
            if (!F.fwriteArmed) F.written += "data";
            fflush(F.out);
            CHECKK("fwrite", r == want && ftell(F.out) == (long)F.written.size(), "fwrite returned %zu and %ld bytes are written, expected %zu and %zu", r, ftell(F.out), want, F.written.size());
            F.see("fwrite", (long)r);
            break;
        }
    case WRITE_ARM: case WRITE_ARM0: F.fwriteRet = op == WRITE_ARM ? 1 : 0; fwriteFail(F.fwriteRet); F.fwriteArmed = true; break;
    case WRITE_BACK: fwriteRestore(); F.fwriteArmed = false; break;
    case READ:
        {
            bool fails = F.fread == 1;
            if (F.fread == 2 && --F.nth == 0) { fails = true; F.fread = 0; }
            char b[8] = {0};
            size_t avail = F.bytes.size() - (size_t)F.pos, r = hook_fread(b, 2, 3, F.in), got = std::min<size_t>(avail / 2, 3), used = std::min<size_t>(avail, 6);
            if (fails) CHECKK("fread", r == F.freadRet && ftell(F.in) == F.pos && !b[0], "fread returned %zu, expected %zu", r, F.freadRet);
            else
            {
                CHECKK("fread", r == got && !memcmp(b, F.bytes.data() + F.pos, got * 2), "fread returned %zu \"%.6s\", expected %zu \"%.6s\"", r, b, got, F.bytes.c_str() + F.pos);
                F.pos += (long)used;
                CHECKK("fread", ftell(F.in) == F.pos, "the file is at %ld, expected %ld", ftell(F.in), F.pos);
            }
            F.see("fread", (long)r);
            break;
        }
    case READ_ARM: case READ_ARM0: F.freadRet = op == READ_ARM ? 3 : 0; freadFail(F.freadRet); F.fread = 1; break;
    case READ_NTH1: case READ_NTH2: case READ_NTH3:
        {
            if (!F.fread) mc_prune();                         // meant to follow freadFail()
            F.nth = (int)(op - READ_NTH1) + 1; F.fread = 2;
            freadToFail(F.nth);
            break;
        }
    case READ_BACK: freadRestore(); F.fread = 0; break;
    case GETS:
        {
            char b[16];
            memset(b, '?', sizeof b);
            char* r = hook_fgets(b, 12, F.in);
            CHECKK("fgets-overrun", b[12] == '?', "fgets wrote past its buffer");
            if (F.fgetsArmed)
            {
                if (F.line == F.lines) { CHECKK("fgets", !r, "fgets gave \"%s\" at the end of the data", b); F.line = 0; }
                else { std::string want = std::string(g_lines[F.line++]).substr(0, 11); CHECKK("fgets", r == b && want == b, "fgets gave \"%.12s\", expected \"%s\"", r ? b : "(null)", want.c_str()); }
            }
            else if (F.pos == (long)F.bytes.size()) CHECKK("fgets", !r, "fgets gave \"%s\" at the end of the file", b);
            else
            {
                size_t e = F.bytes.find('\n', (size_t)F.pos), n = std::min<size_t>(e == std::string::npos ? 99 : e + 1 - (size_t)F.pos, 11);
                std::string want = F.bytes.substr((size_t)F.pos, n);
                CHECKK("fgets", r == b && want == b, "fgets gave \"%s\", expected \"%s\"", r ? b : "(null)", want.c_str());
                F.pos += (long)want.size();
            }
            CHECKK("fgets", ftell(F.in) == F.pos, "the file is at %ld, expected %ld", ftell(F.in), F.pos);
            F.see("fgets", r != nullptr);
            break;
        }
    case GETS_ARM: case GETS_ARM0: F.lines = op == GETS_ARM ? 3 : 0; F.line = 0; fgetsSetData(g_lines, F.lines); F.fgetsArmed = true; break;
    case GETS_BACK: fgetsRestore(); F.fgetsArmed = false; break;
    }
}
void runOps(u32 from, u32 to, u32 depth)
{
    openFiles();
    u32 n = to - from;
    for (u32 i = 0; i < depth; i++)
    {
        u32 op = from + mc_choose(n, "operation");
        if (mc_tracing()) mc_note("operation %u", op);
        apply(op);
    }
    for (u32 op : {(u32)OPEN, (u32)CLOSE, (u32)SEEK, (u32)TELL, (u32)WRITE, (u32)READ, (u32)GETS}) apply(op);      // nothing else is affected
    mc_outcome(F.h);
    fopenRestore(); fcloseRestore(); fseekRestore(); ftellRestore(); fwriteRestore(); freadRestore(); fgetsRestore();
    F.fopenArmed = F.fcloseArmed = F.fseekArmed = F.ftellArmed = F.fwriteArmed = F.fgetsArmed = false;
    F.fread = F.pass = 0;
    for (u32 op : {(u32)OPEN, (u32)CLOSE, (u32)SEEK, (u32)TELL, (u32)WRITE, (u32)READ, (u32)GETS}) apply(op);      // after restoring everything
    closeFiles();
}
void c31_seek() { runOps(SEEK, TELL, (u32)mc_tier(mc_asan() ? 4 : 5, mc_asan() ? 5 : 6)); }
void c31_read() { runOps(READ, GETS, (u32)mc_tier(mc_asan() ? 4 : 5, mc_asan() ? 5 : 6)); }
void c31_gets() { runOps(GETS, OPS, (u32)mc_tier(mc_asan() ? 5 : 7, mc_asan() ? 7 : 9)); }
void c31_open() { runOps(OPEN, SEEK, (u32)mc_tier(4, 5)); }
void c31_tell() { runOps(TELL, READ, (u32)mc_tier(mc_asan() ? 3 : 4, 5)); }
void c31_all() { runOps(0, OPS, (u32)mc_tier(mc_asan() ? 2 : 3, mc_asan() ? 3 : 4)); }

void c31_counts()     // counts and return values beyond every narrower integer
{
    static const u32 ns[] = {1, 2, 3, 127, 128, 129, 255, 256, 257, 258, 511, 512, 1000, 32767, 32768, 32769, 65535, 65536, 65537, 70000};
    u32 n = mc_pick(ns, "count"), what = mc_choose(6, "injector"), h = 0;
    mc_step();
    if (what == 0)
    {
        u32 kind = mc_choose(3, "malloc, realloc or both");
        MallocFailureInject_FailAllocation(n);
        void* p = nullptr;
        for (u32 i = 1; i <= n + 300; i++)
        {
            bool re = kind == 1 || (kind == 2 && i % 2);
            void* q = re ? hook_realloc(p, 4 + i % 8) : hook_malloc(4);
            CHECKK("allocation", !q == (i == n), "allocation %u %s, armed to fail number %u", i, q ? "succeeded" : "failed", n);
            if (q) { if (!re && p) hook_free(p); p = q; }
        }
        hook_free(p);
        MallocFailureInject_Restore();
        h = n;
    }
    else
    {
        openFiles();
        if (what == 1)
        {
            freadFail(3);
            freadToFail((int)n);
            for (u32 i = 1; i <= n + 300; i++)
            {
                char b[4] = {0};
                cut_fseek(F.in, i % 7, SEEK_SET);
                size_t r = hook_fread(b, 1, 2, F.in);
                if (i == n) CHECKK("fread", r == 3 && !b[0], "read %u returned %zu, armed to fail with 3", i, r);
                else CHECKK("fread", r == 2 && b[0] == F.bytes[i % 7], "read %u returned %zu, armed to fail number %u", i, r, n);
            }
        }
        else if (what == 2)
        {
            fseekSetReturn(-7);
            fseekSetCallsBeforeFailure((int)n);
            for (u32 i = 1; i <= n + 300; i++)
            {
                int r = hook_fseek(F.in, i % 9, SEEK_SET);
                long at = ftell(F.in), want = (long)std::min(i, n) % 9;
                CHECKK("fseek", r == (i > n ? -7 : 0) && at == want, "seek %u returned %d and the file is at %ld; %u should pass", i, r, at, n);
            }
        }
        else if (what == 3)
        {
            std::vector<std::string> text;
            std::vector<const char*> lines;
            for (u32 i = 0; i < n; i++) text.push_back(fmt("%u\n", i));
            for (auto& s : text) lines.push_back(s.c_str());
            fgetsSetData(lines.data(), n);
            for (u32 pass = 0; pass < 2; pass++)
                for (u32 i = 0; i <= n; i++)
                {
                    char b[32] = "?";
                    char* r = hook_fgets(b, sizeof b, F.in);
                    if (i == n) CHECKK("fgets", !r, "line %u of %u was found", i, n);
                    else CHECKK("fgets", r == b && text[i] == b, "line %u of %u is \"%s\"", i, n, r ? b : "(null)");
                }
        }
        else if (what == 5)                                   // the smallest and largest values there are
        {
            static const long vs[] = {0, 1, 2, 4, -1, -2, 0x7FFFFFFF, -0x7FFFFFFFl - 1, 0x7FFFFFFFFFFFFFFF, -0x7FFFFFFFFFFFFFFF - 1};
            if (n != 1) mc_prune();
            long v = mc_pick(vs, "value");
            u32 on = mc_choose(4, "function");
            char b[4] = {0};
            n += 100 + on * 16 + (u32)(v & 0xF);
            if (on == 0) fseekSetReturn((int)v); else if (on == 1) ftellFail(v); else if (on == 2) freadFail((size_t)v); else fwriteFail((size_t)v);
            cut_fseek(F.in, 3, SEEK_SET);
            for (u32 i = 0; i < 3; i++)
            {
                int s = hook_fseek(F.in, on ? 3 : 1, SEEK_SET);
                CHECKK("value", s == (on == 0 ? (int)v : 0) && ftell(F.in) == 3, "fseek returned %d and the file is at %ld, armed with %ld", s, ftell(F.in), on == 0 ? v : 0);
                long l = hook_ftell(F.in);
                CHECKK("value", l == (on == 1 ? v : 3), "ftell returned %ld, armed with %ld", l, on == 1 ? v : 0);
                size_t r = hook_fread(b, 1, 2, F.in);
                CHECKK("value", r == (on == 2 ? (size_t)v : 2) && ftell(F.in) == (on == 2 ? 3 : 5), "fread returned %zu and the file is at %ld, armed with %ld", r, ftell(F.in), on == 2 ? v : 0);
                cut_fseek(F.in, 3, SEEK_SET);
                size_t w = hook_fwrite("xy", 1, 2, F.out);
                if (on != 3) F.written += "xy";
                fflush(F.out);
                CHECKK("value", w == (on == 3 ? (size_t)v : 2) && ftell(F.out) == (long)F.written.size(), "fwrite returned %zu and %ld bytes are written, armed with %ld", w, ftell(F.out), on == 3 ? v : 0);
                fcloseIgnore();
                CHECKK("value", hook_fclose(nullptr) == 0 && hook_fclose(F.in) == 0 && ftell(F.in) == 3, "an ignored fclose did not return 0");
                fcloseRestore();
            }
        }
        else
        {
            size_t big = (size_t)n << 32 | (n * 7 + 1);
            freadFail(big); fwriteFail(big + 1); ftellFail((long)big + 2); fseekSetReturn((int)(n * 32749));
            for (u32 i = 0; i < 3; i++)
            {
                char b[4];
                size_t r = hook_fread(b, 1, 2, F.in), w = hook_fwrite(b, 1, 0, F.out);
                long l = hook_ftell(F.in);
                int s = hook_fseek(F.in, 1, SEEK_SET);
                CHECKK("value", r == big && w == big + 1 && l == (long)big + 2 && s == (int)(n * 32749), "returned fread %zu fwrite %zu ftell %ld fseek %d, armed with %zu %zu %ld %d", r, w, l, s, big, big + 1, (long)big + 2, (int)(n * 32749));
            }
        }
        fopenRestore(); fcloseRestore(); fseekRestore(); ftellRestore(); fwriteRestore(); freadRestore(); fgetsRestore();
        F.pos = 0; cut_fseek(F.in, 0, SEEK_SET);
        for (u32 op : {(u32)OPEN, (u32)CLOSE, (u32)SEEK, (u32)TELL, (u32)WRITE, (u32)READ, (u32)GETS}) apply(op);
        closeFiles();
    }
    mc_state(n * 8 + what);
    mc_outcome(mc_hashi(n * 8 + what, h));
}
void c31_size()       // fgets: every buffer size against every line length
{
    openFiles();
    u32 size = 1 + mc_choose((unsigned)mc_tier(21, 41), "buffer"), len = mc_choose((unsigned)mc_tier(24, 44), "length");
    if (size == (u32)mc_tier(21, 41))                         // large ones
    {
        u32 big = 1u << (5 + mc_choose((unsigned)mc_tier(12, 16), "log2"));
        size = big + mc_choose(5, "buffer delta") - 2;
        static const long d[] = {-1000000, -2, -1, 0, 1, 2, 300};
        len = (u32)std::max(1l, (long)size + d[mc_choose(7, "length delta")]);
    }
    std::string l = pattern(len, 1);
    const char* lines[] = {l.c_str(), "b"};
    fgetsSetData(lines, 2);
    std::vector<char> b(size + 1, '?');
    char* r = hook_fgets(b.data(), (int)size, F.in);
    CHECKK("fgets-overrun", b[size] == '?', "fgets wrote past its buffer of %u", size);
    CHECKK("fgets", r == b.data() && l.substr(0, size - 1) == r, "fgets gave \"%s\" for \"%s\" in a buffer of %u", r ? r : "(null)", l.c_str(), size);
    r = hook_fgets(b.data(), (int)size, F.in);
    CHECKK("fgets", r && std::string("b").substr(0, size - 1) == r && b[size] == '?', "fgets gave \"%s\" for \"b\"", r ? r : "(null)");
    r = hook_fgets(b.data(), (int)size, F.in);
    CHECKK("fgets", !r, "fgets found a third line");
    mc_step(); mc_state(size * 64 + len); mc_outcome(size * 64 + len);
    fgetsRestore();
    closeFiles();
}

// ---------------------------------------------------------------- C32
struct Call { int stream; std::string text; };
int spied(int stream, int form, const std::string& text, int number, std::string& want)
{
    auto say = [&](const char* f, auto... a) { want = fmt(f, a...); mc_step(); return stream ? hook_fprintf(stderr, f, a...) : hook_printf(f, a...); };
    switch (form)
    {
    case 0: return say("%s", text.c_str());
    case 1: return say("%s %d and %08x", text.c_str(), number, (unsigned)number);
    case 2: return say("100%% %c%%d%s", 'q', text.c_str());
    case 3: return say("%.*s|%5s|%-5d|%ld", 3, text.c_str(), "ab", number, (long)number << 33);
    case 4: return say("%d %d %d %d %d %d %d %d %d", 1, 2, 3, 4, 5, 6, 7, 8, number);
    default: return say("%5.2f %g %s %p", number / 3.0, 1e99, text.c_str(), nullptr);
    }
}
void checkSpy(const std::vector<Call>& calls, size_t size)
{
    CHECKK("count", printfSpy_GetCallCount() == calls.size(), "%zu calls were counted, expected %zu", printfSpy_GetCallCount(), calls.size());
    for (size_t n = 1; n <= 4 && n <= calls.size(); n++)
    {
        const Call& c = calls[calls.size() - n];
        const char* p = c.stream ? printfSpy_GetNthErrorOutput(n) : printfSpy_GetNthOutput(n);
        std::string want = c.text.substr(0, size);
        CHECKK("output", p && want == p, "output %zu of %zu on %s is \"%.60s\", expected \"%.60s\" (at most %zu characters)", n, calls.size(), c.stream ? "stderr" : "stdout", p ? p : "(null)", want.c_str(), size);
        const char* q = n == 1 ? (c.stream ? printfSpy_GetLastErrorOutput() : printfSpy_GetLastOutput()) : n == 2 ? (c.stream ? printfSpy_GetPreviousErrorOutput() : printfSpy_GetPreviousOutput()) : p;
        CHECKK("output", q == p, "the functions for the last and previous output disagree");
    }
}
void c32_sizes()
{
    u32 size = mc_choose((unsigned)mc_tier(24, 70), "buffer"), len = mc_choose((unsigned)mc_tier(27, 75), "length"), form = mc_choose(6, "format"), stream = mc_choose(2, "stream");
    std::vector<Call> calls;
    printfSpy_Hook(size);
    std::string want;
    int r = spied(stream, form, pattern(len, 3), (int)(size * 1000 + len), want);
    calls.push_back({(int)stream, want});
    mc_note("buffer of %u, %zu characters -> %d", size, want.size(), r);
    CHECKK("returned", r == (int)want.size(), "printf returned %d, expected %zu", r, want.size());
    checkSpy(calls, size);
    CHECKK("printed", rt_out().empty() && rt_err().empty(), "something was printed while hooked");
    printfSpy_Unhook();
    CHECKK("leak", rt_live_allocs() == 0, "%zu blocks are still allocated after unhooking", rt_live_allocs());
    mc_state(size * 100 + len);
    mc_outcome(mc_hash(want.substr(0, size)));
}
void c32_histories()
{
    u32 depth = (u32)mc_tier(mc_asan() ? 6 : 7, mc_asan() ? 7 : 8);
    bool hooked = false;
    size_t size = 0;
    std::vector<Call> calls;
    std::string out, err;
    uint64_t h = 17;
    for (u32 i = 0; i < depth; i++)
    {
        u32 op = mc_choose(7, "operation");
        if (op < 4)                                           // short or long, stdout or stderr
        {
            std::string want;
            int r = spied((int)op & 1, (int)(i % 2 ? 1 : 0), pattern(op < 2 ? 3 + i : 40, i), (int)i, want);
            mc_note("%s -> %d", want.c_str(), r);
            CHECKK("returned", r == (int)want.size(), "printf returned %d, expected %zu", r, want.size());
            if (hooked) calls.push_back({(int)op & 1, want});
            else (op & 1 ? err : out) += want;
        }
        else if (op < 6) { size = op == 4 ? 10 : 64; printfSpy_Hook(size); hooked = true; calls.clear(); mc_note("hook with %zu", size); }
        else { printfSpy_Unhook(); hooked = false; mc_note("unhook"); CHECKK("leak", rt_live_allocs() == 0, "%zu blocks are still allocated after unhooking", rt_live_allocs()); }
        CHECKK("printed", rt_out() == out && rt_err() == err, "stdout \"%s\", stderr \"%s\", expected \"%s\" and \"%s\"", rt_out().c_str(), rt_err().c_str(), out.c_str(), err.c_str());
        if (hooked) checkSpy(calls, size);
        CHECKK("blocks", rt_live_allocs() <= 8, "%zu blocks are allocated", rt_live_allocs());
        h = mc_hashi(op, h);
        u32 st[3] = {hooked, (u32)calls.size(), (u32)size};
        mc_state(mc_hash(st, sizeof st, mc_hash(calls.empty() ? std::string() : calls.back().text)));
    }
    printfSpy_Unhook();
    CHECKK("leak", rt_live_allocs() == 0, "%zu blocks are still allocated after unhooking", rt_live_allocs());
    mc_outcome(h);
}
void c32_failing()    // calls that printf itself refuses still count; what it returns is passed on
{
    u32 n = 1 + mc_choose(3, "calls"), size = mc_choose(3, "buffer") * 8, stream = mc_choose(2, "stream"), at = mc_choose(4, "failing call"), kind = mc_choose(2, "kind");
    std::vector<Call> calls;
    printfSpy_Hook(size);
    auto bad = [&]
    {
        static const wchar_t odd[] = {0xD800, 0};
        int k = kind == 0 ? 10 : 3;
        mc_step();
        int r = stream ? hook_fprintf(stderr, "%*ls", k, odd) : hook_printf("%*ls", k, odd);
        CHECKK("returned", r < 0, "printf returned %d for something that cannot be printed", r);
    };
    for (u32 i = 0; i <= n; i++)
    {
        if (i == at)
        {
            size_t before = printfSpy_GetCallCount();
            bad();
            CHECKK("count", printfSpy_GetCallCount() == before + 1, "%zu calls were counted, expected %zu", printfSpy_GetCallCount(), before + 1);
            CHECKK("printed", rt_out().empty() && rt_err().empty(), "something was printed while hooked");
            calls.clear();
        }
        std::string want;
        size_t before = printfSpy_GetCallCount();
        int r = spied((int)(stream + i) & 1, (int)i % 3, pattern(4 + i * 3, i), (int)i, want);
        CHECKK("returned", r == (int)want.size(), "printf returned %d, expected %zu", r, want.size());
        CHECKK("count", printfSpy_GetCallCount() == before + 1, "%zu calls were counted, expected %zu", printfSpy_GetCallCount(), before + 1);
        calls.push_back({(int)(stream + i) & 1, want});
        for (size_t k = 1; k <= calls.size() && k <= 4; k++)
        {
            const Call& c = calls[calls.size() - k];
            const char* p = c.stream ? printfSpy_GetNthErrorOutput(k) : printfSpy_GetNthOutput(k);
            CHECKK("output", p && c.text.substr(0, size) == p, "output %zu is \"%.60s\", expected \"%.60s\"", k, p ? p : "(null)", c.text.c_str());
        }
    }
    printfSpy_Unhook();
    CHECKK("leak", rt_live_allocs() == 0, "blocks are still allocated after unhooking");
    CHECKK("count", printfSpy_GetCallCount() == n + 1 + (at <= n), "%zu calls were counted, expected %u", printfSpy_GetCallCount(), n + 1 + (at <= n));
    mc_state(mc_hashi(n * 64 + size * 4 + at, kind * 2 + stream)); mc_outcome(mc_hashi(n * 64 + size * 4 + at, 77));
}
void c32_many()       // far more calls than buffers
{
    u32 n = mc_choose((unsigned)mc_tier(40, 300), "calls"), size = mc_choose(3, "buffer") * 8, how = mc_choose(4, "streams");
    std::vector<Call> calls;
    printfSpy_Hook(size);
    for (u32 i = 0; i < n; i++)
    {
        std::string want;
        int stream = how == 0 ? 0 : how == 1 ? 1 : how == 2 ? (int)i % 2 : i % 3 == 0;
        spied(stream, (int)i % 6, pattern((i * 5) % 30, i), (int)i, want);
        calls.push_back({stream, want});
        checkSpy(calls, size);
    }
    printfSpy_Unhook();
    CHECKK("leak", rt_live_allocs() == 0, "blocks are still allocated after unhooking");
    mc_state(mc_hashi(n, size));
    mc_outcome(mc_hashi(n, how));
}
void c32_wide()       // sizes and counts beyond every narrower integer
{
    static const u32 sizes[] = {0, 1, 127, 128, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537, 100000}, lens[] = {5, 127, 128, 255, 256, 257, 1023, 1024, 4096, 32768, 65535, 65536, 65537, 99999, 100001};
    u32 size = mc_pick(sizes, "buffer"), len = mc_pick(lens, "length"), calls = mc_choose(3, "calls before") * 300;
    std::vector<Call> all;
    printfSpy_Hook(size);
    std::string want;
    for (u32 i = 0; i < calls; i++) { spied((int)i & 1, 1, "x", (int)i, want); all.push_back({(int)i & 1, want}); }
    int r = spied(0, 0, pattern(len, 3), 0, want);
    all.push_back({0, want});
    CHECKK("returned", r == (int)want.size(), "printf returned %d, expected %zu", r, want.size());
    checkSpy(all, size);
    CHECKK("printed", rt_out().empty() && rt_err().empty(), "something was printed while hooked");
    printfSpy_Unhook();
    CHECKK("leak", rt_live_allocs() == 0, "blocks are still allocated after unhooking");
    spied(1, 0, "after", 0, want);
    CHECKK("printed", rt_out().empty() && rt_err() == want, "after unhooking stdout is \"%s\" and stderr \"%s\"", rt_out().c_str(), rt_err().c_str());
    mc_state(mc_hashi(size, len)); mc_outcome(mc_hashi(size, mc_hashi(len, calls)));
}
}

#if defined(PROP_C31)
MODELS(PROP, {"alloc", c31_alloc, "malloc and realloc"}, {"open", c31_open, "fopen and fclose"}, {"seek", c31_seek, "fseek"}, {"read", c31_read, "fread"}, {"gets", c31_gets, "fgets"}, {"tell", c31_tell, "ftell and fwrite"}, {"counts", c31_counts, "large counts and return values"}, {"size", c31_size, "fgets buffer sizes"}, {"all", c31_all, "all injectors together"});
#else
MODELS(PROP, {"sizes", c32_sizes, "buffer sizes and lengths"}, {"failing", c32_failing, "calls that fail"}, {"many", c32_many, "many calls"}, {"wide", c32_wide, "large sizes and counts"}, {"histories", c32_histories, "sequences of calls and hooks"});
#endif
