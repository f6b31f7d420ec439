// C01..C08: the simulated memory, every operation sequence up to a bound in lockstep with RefMem.
#include "memref.h"

namespace
{
typedef uint32_t u32;
typedef uint8_t  u8;
typedef std::vector<u32> addresses;
IMemory* M;
RefMem   R;

void begin() { R = RefMem(); M = MemorySim_Init(); }
void ends()
{
    MemorySim_Uninit(M);
    CHECKK("leak", rt_live_allocs() == 0, "%zu blocks still allocated after the memory was released", rt_live_allocs());
}
const u32 BASES[] = {0x1000, 0x7FFFFFF6, 0, 0xFFFFFFE0};   // around: plain, sign bit, start, end of the address space

int opCreate(u32 base, u32 size)
{
    mc_step();
    int c = cut([&] { MemorySim_CreateRegion(M, base, size); }).code;
    mc_note("create region 0x%X +0x%X -> %d", base, size, c);
    return c;
}
int opAlias(u32 base, u32 to, u32 size)
{
    mc_step();
    int c = cut([&] { MemorySim_CreateAlias(M, base, to, size); }).code;
    mc_note("create alias 0x%X -> 0x%X +0x%X -> %d", base, to, size, c);
    return c;
}
int opRO(u32 addr)
{
    mc_step();
    int c = cut([&] { MemorySim_MakeRegionReadOnly(M, addr); }).code;
    mc_note("make read-only 0x%X -> %d", addr, c);
    return c;
}
void create(u32 base, u32 size)
{
    int c = opCreate(base, size);
    CHECKK("create-failed", c == 0, "creating region 0x%X of %u bytes failed with %d", base, size, c);
    R.create(base, size);
    mc_state(R.hash());
}
void alias(u32 base, u32 to, u32 size)
{
    bool ok = R.alias(base, to, size);
    int  c = opAlias(base, to, size);
    CHECKK("alias-result", c == (ok ? 0 : busErrorException), "alias 0x%X -> 0x%X of %u bytes: exception %d, expected %d", base, to, size, c, ok ? 0 : busErrorException);
    mc_state(R.hash());
}
void makeRO(u32 addr)
{
    bool ok = R.makeRO(addr);
    int  c = opRO(addr);
    CHECKK("ro-result", c == (ok ? 0 : busErrorException), "making 0x%X read-only: exception %d, expected %d", addr, c, ok ? 0 : busErrorException);
    mc_state(R.hash());
}
void writeBoth(u32 addr, u32 size, u32 v)
{
    mc_step();
    v &= mask(size);
    bool ok = R.write(addr, size, v);
    int  c = realWrite(M, addr, size, v);
    mc_note("write%u 0x%X = 0x%X -> %d", size * 8, addr, v, c);
    CHECKK("write-result", c == (ok ? 0 : busErrorException), "%u-byte write at 0x%08X gave exception %d, expected %d", size, addr, c, ok ? 0 : busErrorException);
    mc_state(R.hash());
}
void xmlSame(const char* when)
{
    mc_step();
    const char* p = nullptr;
    int c = cut([&] { p = MemorySim_GetMemoryMapXML(M); }).code;
    CHECKK("xml-failed", c == 0 && p, "%s: no memory map (exception %d)", when, c);
    std::string want = R.xml();
    CHECKK("xml", want == p, "%s: memory map is\n%s\nexpected\n%s", when, p, want.c_str());
    mc_outcome(mc_hash(want));
}

// ---------------------------------------------------------------- C01
struct Reg { u32 off, size; };
const Reg REGS[] = {{2, 8}, {10, 6}, {6, 8}, {4, 0}, {12, 1}, {3, 3}};
void layout(u32 B, int maxRegions)
{
    int n = (int)mc_choose((unsigned)maxRegions + 1, "number of regions");
    for (int i = 0; i < n; i++)
    {
        const Reg& g = mc_pick(REGS, "region");
        create(B + g.off, g.size);
    }
}
void c01_layouts()
{
    begin();
    u32 B = BASES[mc_choose(mc_tier(4, 4), "base")];
    layout(B, 3);
    u32 writes = (u32)mc_tier(1, 2);
    for (u32 i = 0; i < writes; i++)
    {
        u32 size = 1u << mc_choose(3, "write size");
        u32 a = B + mc_choose(18, "write address");
        writeBoth(a, size, 0xC3B2A190u + i * 0x11111111u);
    }
    mc_outcome(compareImage(M, R, B - 2, 24, "after the writes"));
    ends();
}
void c01_pairs()      // two and three overlapping writes to one region
{
    begin();
    u32 B = BASES[mc_choose(2, "base")];
    create(B + 1, 6);
    create(B + 7, 4);
    for (int i = 0, n = mc_tier(2, 3); i < n; i++)
    {
        u32 size = 1u << mc_choose(3, "write size");
        writeBoth(B + mc_choose(12, "write address"), size, 0x81726354u + (u32)i * 0x1F2E3D4Cu);
    }
    mc_outcome(compareImage(M, R, B - 3, 18, "after the writes"));
    ends();
}
void c01_sizes()      // regions of 2^k-1, 2^k, 2^k+1 bytes; their first and last bytes, words and the bytes outside
{
    begin();
    static const u32 bases[] = {0x1000, 0x20000000, 0x7FFF8001, 0xE0000003};
    u32 k = mc_choose((unsigned)mc_tier(18, 23), "log2 size"), d = mc_choose(3, "delta");
    u32 size = (1u << k) - 1 + d;
    u32 B = mc_pick(bases, "base");
    create(B, size);
    compareImage(M, R, B - 5, 10, "fresh memory, start");
    compareImage(M, R, B + size - 5, 10, "fresh memory, end");
    if (size >= 64) compareImage(M, R, B + size / 2 - 8, 16, "fresh memory, middle");
    const u32 offs[] = {0, 1, size / 2, size - 4, size - 2, size - 1, 0xFFFFu, 0x10000u, 0xFFFu, 0x1000u};
    u32 v = 0x9A7B5C3D;
    for (u32 o : offs)
        for (u32 s = 1; s <= 4; s *= 2) writeBoth(B + o, s, v = v * 1664525u + 1013904223u);
    for (u32 o : offs) compareImage(M, R, B + o - 5, 11, "after the edge writes");
    mc_outcome(R.hash());
    ends();
}
void c01_many()       // 1..300 regions, adjacent or with gaps, created upwards or downwards
{
    begin();
    u32 n = 1 + mc_choose((unsigned)mc_tier(130, 300), "regions"), gap = mc_choose(2, "gap") * 4, down = mc_choose(2, "downwards");
    const u32 B = 0x40000000, S = 4;
    for (u32 i = 0; i < n; i++) create(B + (down ? n - 1 - i : i) * (S + gap), S);
    for (u32 i = 0; i < n; i++) writeBoth(B + i * (S + gap), 4, 0x10000u + i * 0x01010101u);
    mc_outcome(compareImage(M, R, B - 4, n * (S + gap) + 8, "after filling all regions"));
    ends();
}
void c01_reuse()      // release and start again: nothing of the first memory is left
{
    for (int round = 0; round < 2; round++)
    {
        begin();
        u32 B = 0x1000;
        int n = (int)mc_choose(3, "regions");
        for (int i = 0; i < n; i++) { const Reg& g = mc_pick(REGS, "region"); create(B + g.off, g.size); }
        bool ro = n && mc_bool("make read-only");
        u32  first = n ? R.r[0].base : 0;
        if (ro && R.r[0].size) makeRO(first);
        compareImage(M, R, B - 2, 22, round ? "second memory" : "first memory");
        for (u32 i = 0; i < 18; i += 3) { bool ok = R.write(B + i, 1, 0x77 + i); (void)ok; realWrite(M, B + i, 1, 0x77 + i); }
        mc_outcome(compareImage(M, R, B - 2, 22, round ? "second memory, written" : "first memory, written"));
        ends();
    }
}

// Regions of up to the whole address space.
struct Big { u32 base, size; };
const Big BIGS[] = {{0, 0x80000000}, {0, 0xFFFFFFFF}, {0x1000, 0x7FFFFFFF}, {0x80000000, 0x80000000}, {0x7FFFFFF1, 0x80000001}, {0x40000000, 0xC0000000}, {1, 0xFFFFFFFE}, {0x20000000, 0x01000001}};
addresses bigSpots(const Big& g)
{   // offsets of interest inside and around the region
    addresses v;
    for (u32 a : {g.base, g.base + g.size / 2, g.base + g.size, 0x80000000u, 0u, 0x7FFFFFFFu, 0xFFFFFFFCu, g.base + 0x10000u, g.base + 0x01000000u})
        if (std::find(v.begin(), v.end(), a) == v.end()) v.push_back(a);
    return v;
}
uint64_t compareBig(const Big& g, const char* when)
{
    uint64_t h = 1;
    for (u32 a : bigSpots(g)) h = mc_hashi(compareImage(M, R, a - 6, 12, when), h);
    return h;
}
void c01_huge()
{
    begin();
    rt_alloc_limit((size_t)5 << 30);
    const Big& g = mc_pick(BIGS, "region");
    create(g.base, g.size);
    addresses spots = bigSpots(g);
    compareBig(g, "fresh memory");
    u32 order = mc_choose(2, "second region");
    if (order) create(0x3FFFFFF0, 0x20);
    u32 s = 1u << mc_choose(3, "write size"), d = mc_choose(7, "write offset");
    for (size_t i = 0; i < spots.size(); i++) writeBoth(spots[i] - 3 + d, s, 0x91827364u + (u32)i * 0x11010101u);
    if (order) for (u32 i = 0; i < 0x24; i += 3) writeBoth(0x3FFFFFEE + i, s, 0x5A5A0000u + i);
    mc_outcome(compareBig(g, "after the writes") ^ compareImage(M, R, 0x3FFFFFEC, 0x28, "after the writes"));
    ends();
}

// Is any page of the address space, or any word of the pages a Cortex-M gives a meaning, unlike the others?
const u32 PAGES[] = {0, 0x1000, 0x08000000, 0x10000000, 0x1FFFF000, 0x20000000, 0x22000000, 0x40000000, 0x42000000, 0x60000000, 0x7FFFF000, 0x80000000, 0xBAADB000, 0xCCCCC000, 0xDEADB000, 0xE0000000, 0xE0001000, 0xE0002000, 0xE000D000, 0xE000E000, 0xE000F000, 0xE0040000, 0xE0042000, 0xE00FF000, 0xFFFFE000, 0xFFFFF000};
void c01_everywhere()
{
    begin();
    rt_alloc_limit((size_t)5 << 30);
    u32 where = mc_choose(256 + (u32)(sizeof PAGES / sizeof PAGES[0]), "part of the address space"), mode = mc_choose(3, "mapped");
    if (mc_asan() && !mc_thorough() && where < 256 && where % 16 != 15) mc_prune();
    u32 base = where < 256 ? where << 24 : PAGES[where - 256], size = where < 256 ? 1u << 24 : 4096, step = where < 256 ? 4096 : 4;
    std::vector<u32> at;
    for (u32 o = 0; o < size; o += step) { at.push_back(base + o); if (step > 4) at.push_back(base + o + 0x128 + (o >> 10 & 0xC00)); }
    auto value = [](u32 a) { return (a ^ 0x9E3779B9u) * 0x01000193u | 1; };
    auto access = [&](u32 a, u32 kind, u32& v) { mc_step(); return kind < 3 ? realRead(M, a, 1u << kind, v) : realWrite(M, a, 1u << (kind - 3), v); };
    auto expect = [&](int c, int want, u32 a, u32 kind) { CHECKK("result", c == want, "%u-byte %s at 0x%08X (%s): exception %d, expected %d", 1u << kind % 3, kind < 3 ? "read" : "write", a, mode == 0 ? "unmapped" : mode == 1 ? "RAM" : "read-only", c, want); };
    if (mode)
    {
        int c = cut([&] { MemorySim_CreateRegion(M, base, size); }).code;
        CHECKK("create-result", c == 0, "creating 0x%08X +0x%X gave exception %d", base, size, c);
        for (u32 a : at) { u32 v = value(a); expect(access(a, 5, v), 0, a, 5); }
    }
    if (mode == 2) { int c = cut([&] { MemorySim_MakeRegionReadOnly(M, base); }).code; CHECKK("protect-result", c == 0, "protecting 0x%08X gave exception %d", base, c); }
    for (u32 a : at)
        for (u32 kind = 0; kind < 6; kind++)
        {
            u32 v = kind < 3 ? 0 : ~value(a);
            if (mode == 1 && kind > 2) v = value(a);
            expect(access(a, kind, v), mode == 0 || (mode == 2 && kind > 2) ? busErrorException : 0, a, kind);
            if (kind < 3 && mode) CHECKK("value", v == (value(a) & mask(1u << kind)), "%u bytes at 0x%08X are 0x%X, expected 0x%X", 1u << kind, a, v, value(a) & mask(1u << kind));
        }
    if (mode)
    {
        const uint8_t* p = nullptr;
        int c = cut([&] { p = (const uint8_t*)MemorySim_MapSimulatedAddressToHostAddressForRead(M, base, size); }).code;
        CHECKK("map-result", c == 0 && p, "host mapping of 0x%08X +0x%X gave exception %d", base, size, c);
        std::vector<uint8_t> want(size);
        for (u32 a : at) { u32 v = value(a); memcpy(&want[a - base], &v, 4); }
        for (u32 i = 0; i < size; i++) if (p[i] != want[i]) { CHECKK("image", false, "the byte at 0x%08X is 0x%02X, expected 0x%02X", base + i, p[i], want[i]); break; }
    }
    if (mode == 2)
        for (u32 a : at)
        {
            u32 n = 0;
            int c = cut([&] { n = MemorySim_GetFlashReadCount(M, a); }).code;
            CHECKK("count", c == 0 && n == 1, "the halfword at 0x%08X was read once, the count is %u (exception %d)", a, n, c);
        }
    mc_state(where * 3 + mode);
    mc_outcome(mode);
    ends();
}

// ---------------------------------------------------------------- C02
void hostMap(u32 addr, u32 size, bool forWrite)
{
    mc_step();
    u32 a = addr;
    int t = R.find(a, size);
    bool ok = t >= 0 && !(forWrite && R.r[(size_t)t].ro);
    const void* p = nullptr;
    int c = cut([&] { p = forWrite ? MemorySim_MapSimulatedAddressToHostAddressForWrite(M, addr, size) : MemorySim_MapSimulatedAddressToHostAddressForRead(M, addr, size); }).code;
    mc_note("host map %s 0x%X +%u -> %d", forWrite ? "write" : "read", addr, size, c);
    CHECKK("map-result", c == (ok ? 0 : busErrorException), "host mapping of 0x%08X +%u for %s: exception %d, expected %d", addr, size, forWrite ? "writing" : "reading", c, ok ? 0 : busErrorException);
    if (!ok) return;
    RefRegion& r = R.r[(size_t)t];
    bool same = true;
    for (u32 i = 0; i < size; i++) same = same && ((const uint8_t*)p)[i] == r.byte(a - r.base + i);
    if (size) CHECKK("map-bytes", same, "host mapping of 0x%08X +%u shows other bytes than the simulated memory", addr, size);
    if (forWrite)
        for (u32 i = 0; i < size; i++) { ((uint8_t*)p)[i] = (uint8_t)(0xB0 + i); r.setByte(a - r.base + i, (uint8_t)(0xB0 + i)); }
}
void c02_protect()
{
    begin();
    u32 B = BASES[mc_choose(4, "base")];
    layout(B, 2);
    size_t regions = R.r.size();
    uint8_t img[8]; for (int i = 0; i < 8; i++) img[i] = (uint8_t)(0x51 + 7 * i);
    for (u32 i = 0; i < 18; i++) { uint8_t b = (uint8_t)(0x40 + i); if (R.poke(B + i, &b, 1, false)) realWrite(M, B + i, 1, b); }
    bool al = mc_bool("alias");
    if (al) alias(B + 0x20000, B + 3 + mc_choose(8, "alias target"), 4);
    int nro = (int)mc_choose(2, "protect") + (mc_thorough() ? (int)mc_choose(2, "protect more") : 0);
    for (int i = 0; i < nro; i++) makeRO(B + 2 + 2 * mc_choose(7, "protected address") + (al ? 0x20000 * 0 : 0));
    switch (mc_choose(5, "attack"))
    {
    case 0:
        for (u32 i = 0; i < 20; i++) for (u32 s = 1; s <= 4; s *= 2) writeBoth(B - 1 + i, s, 0xDEADBE00u + i);
        break;
    case 1:
        for (u32 i = 0; i < 8; i++) for (u32 s = 1; s <= 4; s *= 2) writeBoth(B + 0x20000 - 1 + i, s, 0xFEEDF000u + i);
        break;
    case 2:
        for (u32 i = 0; i < 16; i++) for (u32 s : {0u, 1u, 3u, 4u, 6u, 8u, 9u}) if (s) hostMap(B + i, s, true);
        break;
    case 3:
        for (u32 i = 0; i < 16; i++) for (u32 s : {1u, 3u, 4u, 6u, 8u, 9u}) hostMap(B + i, s, false);
        { bool w = mc_bool("map through the alias for writing"); for (u32 i = 0; i < 6; i++) for (u32 s : {1u, 3u, 4u}) hostMap(B + 0x20000 + i, s, w); }
        break;
    case 4:
        {   // the image loader may fill protected memory
            if (regions > 1) mc_prune();      // overlapping regions: covered by the loader's own checks
            u32 a = B + mc_choose(12, "load address"), n = mc_choose(9, "load size");
            u32 t = a; bool fits = n == 0 || R.find(t, n) >= 0;
            mc_step();
            int c = cut([&] { MemorySim_LoadFromFlashImage(M, a, img, n); }).code;
            mc_note("load 0x%X +%u -> %d", a, n, c);
            if (!fits)
            {   // straddling loads may still succeed piecewise; only the outcome kind is checked
                CHECKK("load-result", c == 0 || c == busErrorException, "loading gave exception %d", c);
                MemorySim_Uninit(M);
                return;
            }
            if (!n && c) return MemorySim_Uninit(M);                     // what loading nothing at an unmapped address gives is not specified
            CHECKK("load-result", c == 0, "loading %u bytes at 0x%08X failed with %d", n, a, c);
            if (n) R.poke(a, img, n, true);
        }
    }
    mc_outcome(compareImage(M, R, B - 2, 24, "at the end") ^ compareImage(M, R, B + 0x20000 - 2, 9, "alias at the end"));
    ends();
}
void c02_large()      // protection covers every byte of regions of any size
{
    begin();
    u32 k = mc_choose((unsigned)mc_tier(13, 17), "log2 size"), d = mc_choose(3, "delta"), size = (1u << k) - 1 + d;
    if (size == 0) mc_prune();
    u32 B = mc_pick(BASES, "base");
    if (B == 0xFFFFFFE0) B = 0u - size;
    create(B, size);
    u32 how = mc_choose(3, "address used to protect");
    makeRO(how == 0 ? B : how == 1 ? B + size - 1 : B + size / 2);
    for (u32 i = 0; i < size; i += 1 + size / 97)
        for (u32 s = 1; s <= 4; s *= 2) writeBoth(B + i, s, 0xFFFFFFFFu);
    for (u32 i = 1; i <= 8 && i <= size; i++)
        for (u32 s = 1; s <= 4; s *= 2) writeBoth(B + size - i, s, 0xFFFFFFFFu);
    mc_outcome(compareImage(M, R, B, size < 64 ? size : 64, "start") ^ compareImage(M, R, B + size - 8, 12, "end"));
    ends();
}
void c02_huge()       // host mappings of up to the whole region
{
    begin();
    rt_alloc_limit((size_t)9 << 30);
    const Big& g = mc_pick(BIGS, "region");
    create(g.base, g.size);
    makeRO(g.base + (mc_bool("protect by last byte") ? g.size - 1 : 0));
    for (u32 a : bigSpots(g)) for (u32 s = 1; s <= 4; s *= 2) for (u32 d = 0; d < 8; d++) writeBoth(a - 4 + d, s, 0xFFFFFFFFu);
    for (u32 n : {1u, 3u, 5u, 0x1000u, 0x00100000u, g.size / 2, g.size - 1, g.size, g.size + 1})
    {
        if (n < g.size / 4) { hostMap(g.base + g.size - n, n, false); hostMap(g.base, n, false); }
        for (u32 d = 0; d < 3; d++) { hostMap(g.base + d, n, true); hostMap(g.base + g.size - n + d - 1, n, true); }
    }
    mc_outcome(compareBig(g, "at the end"));
    ends();
}

// ---------------------------------------------------------------- C03
void c03_alias()
{
    begin();
    u32 B = BASES[mc_choose((unsigned)mc_tier(mc_asan() ? 1 : 2, 4), "base")], A = B + 0x100;
    if (B == 0xFFFFFFE0) A = 0x5000;
    create(B + 2, 6);
    if (mc_bool("second region")) create(B + (mc_tier(0, 1) ? (u32[]){8u, 6u, 12u}[mc_choose(3, "second base")] : 8u), 5);
    u32 ro = mc_choose(3, "read-only");      // none, before, after
    for (u32 i = 0; i < 18; i++) { uint8_t b = (uint8_t)(0x40 + 5 * i); if (R.poke(B + i, &b, 1, false)) realWrite(M, B + i, 1, b); }
    if (ro == 1) makeRO(B + 3);
    static const u32 sizes[] = {4, 1, 0, 6, 7, 100};
    alias(A, B + (mc_thorough() ? mc_choose(14, "target") : (u32[]){2, 3, 6, 7, 8, 1}[mc_choose(6, "target")]), mc_pick(sizes, "size"));
    u32 second = mc_choose(mc_tier(3, 4), "second alias");      // none, chained onto the first, overlapping the first, onto the region
    if (second) alias(second == 2 ? A + 2 : A + 0x40, second == 1 ? A + mc_choose(4, "chain target") : second == 2 ? B + 3 : B + 4, sizes[mc_choose((unsigned)mc_tier(4, 6), "second size")]);
    if (second == 1 && mc_bool("third alias")) alias(A + 0x80, A + 0x40 + mc_choose(3, "third target"), 3);
    if (ro == 2) makeRO(mc_bool("protect through the alias") ? A : B + 3);
    mc_outcome(compareImage(M, R, B - 1, 20, "before") ^ compareImage(M, R, A - 2, 12, "before, alias"));
    u32 s = 1u << mc_choose(3, "write size");
    u32 where = mc_choose(3, "write where");
    for (u32 i = 0; i < 8; i += (s == 1 ? 2 : 3)) writeBoth((where == 0 ? A : where == 1 ? A + 0x40 : B + 2) + i, s, 0xE1D2C3B4u + i * 0x01010101u);
    mc_outcome(compareImage(M, R, B - 1, 20, "after") ^ compareImage(M, R, A - 2, 12, "after, alias") ^ compareImage(M, R, A + 0x3E, 12, "after, second alias") ^ compareImage(M, R, A + 0x7E, 8, "after, third alias"));
    ends();
}
void c03_sizes()      // clipping at every size and offset
{
    begin();
    u32 k = mc_choose((unsigned)mc_tier(12, 16), "log2 region size"), size = 1u << k;
    create(0x20000000, size);
    u32 off = mc_choose(4, "offset"); off = off == 0 ? 0 : off == 1 ? size / 2 : off == 2 ? size - 1 : 1 % size;
    static const int deltas[] = {0, 1, -1, 5000};
    int d = mc_pick(deltas, "alias size relative to what is left");
    int64_t asz = (int64_t)(size - off) + d;
    alias(0x30000000, 0x20000000 + off, (u32)asz);
    for (u32 o : {0u, 1u, size - off - 1, size - off, size / 2, 4096u, 5000u}) writeBoth(0x30000000 + o, 1, 0x80 + o);
    for (u32 o : {0u, 1u, size / 2, size - 1, size}) mc_outcome(compareImage(M, R, 0x20000000 + o - 3, 7, "region") ^ compareImage(M, R, 0x30000000 + o - 3, 7, "alias"));
    compareImage(M, R, 0x30000000 + size - off - 4, 9, "alias end");
    ends();
}
void c03_deep()       // chains of aliases, each shifted against the one before
{
    begin();
    u32 n = 1 + mc_choose((unsigned)mc_tier(10, 40), "chain length"), shift = mc_choose(4, "shift");
    create(0x1000, 64);
    for (u32 i = 0; i < 64; i++) writeBoth(0x1000 + i, 1, 0x30 + 3 * i);
    for (u32 i = 0; i < n; i++) alias(0x2000 + i * 0x100, (i ? 0x2000 + (i - 1) * 0x100 : 0x1000) + shift, 60);
    for (u32 i = 0; i < n; i++) compareImage(M, R, 0x2000 + i * 0x100 - 2, 68, "chain");
    writeBoth(0x2000 + (n - 1) * 0x100 + 1, 2, 0xFACE);
    for (u32 i = 0; i < n; i++) mc_outcome(compareImage(M, R, 0x2000 + i * 0x100 - 2, 68, "chain, written"));
    ends();
}
void c03_huge()       // aliases of up to 4 GB
{
    begin();
    rt_alloc_limit((size_t)9 << 30);
    const Big& g = mc_pick(BIGS, "region");
    create(g.base, g.size);
    for (u32 a : bigSpots(g)) for (u32 i = 0; i < 12; i++) { uint8_t b = (uint8_t)(0x21 + 5 * i + (a >> 24)); if (R.poke(a - 6 + i, &b, 1, false)) realWrite(M, a - 6 + i, 1, b); }
    static const u32 sizes[] = {0xFFFFFFFF, 0x80000000, 0x7FFFFFFF, 8};
    // The alias is placed where the region is not, as far as that is possible.
    u32 to = mc_choose(3, "target"), at = mc_choose(2, "alias address") ? g.base + g.size : 0u;
    u32 target = to == 0 ? g.base : to == 1 ? g.base + g.size / 2 : g.base + g.size - 3;
    alias(at, target, mc_pick(sizes, "size"));
    u32 room = R.r.back().target >= 0 ? R.r.back().size : 0;
    for (u32 o : {0u, 1u, 0x10000u, room / 2, room - 2}) writeBoth(at + o, 2, 0xBEEF ^ o);
    mc_outcome(compareBig(g, "region"));
    for (u32 a : {at, at + room / 2, at + room, g.base + g.size / 2}) mc_outcome(compareImage(M, R, a - 6, 12, "alias"));
    xmlSame("at the end");
    ends();
}

// ---------------------------------------------------------------- C04
void c04_ops()
{
    begin();
    xmlSame("empty memory");
    static const u32 addrs[] = {0x1000, 0, 0xFFFFFFF0, 0x1004, 0x80000000, 0xABCDEF};
    static const u32 sizes[] = {16, 0, 1, 0xFFF, 0xABCD};
    int depth = mc_tier(mc_asan() ? 2 : 3, 4);
    u32 na = (u32)mc_tier(5, 6), ns = (u32)mc_tier(4, 5);
    for (int i = 0; i < depth; i++)
    {
        switch (mc_choose(5, "operation"))
        {
        case 0: i = depth; break;
        case 4: { u32 a = addrs[mc_choose(4, "read address")] + 8; u32 v = 0; R.read(a, 1, v); realRead(M, a, 1, v); mc_note("read 0x%X", a); break; }      // using the memory does not change its map
        case 1: { u32 a = addrs[mc_choose(na, "address")]; create(a, sizes[mc_choose(ns, "size")]); break; }
        case 2: { u32 a = addrs[mc_choose(na, "alias address")]; u32 t = addrs[mc_choose(4, "target")]; alias(a, t, sizes[mc_choose(3, "size")]); break; }
        case 3: makeRO(addrs[mc_choose(4, "read-only address")]); break;
        }
        xmlSame("after an operation");
    }
    xmlSame("again");
    ends();
}
void c04_order()      // using the memory in any way does not change its map
{
    begin();
    u32 n = 1 + mc_choose((unsigned)mc_tier(4, 5), "regions"), first = mc_choose(n, "alias at");
    for (u32 i = 0; i < n; i++)
    {
        u32 base = 0x1000u * (n - i);
        if (i && i == first) alias(base, 0x1000u * n, 8); else create(base, 16);
        if (i % 2) makeRO(base);
    }
    for (u32 k = 0; k < (u32)mc_tier(mc_asan() ? 1 : 2, mc_asan() ? 2 : 3); k++)
    {
        u32 a = 0x1000u * (1 + mc_choose(n + 1, "region")) + 4 * mc_choose(2, "offset"), v = 0;
        switch (mc_choose(8, "use"))
        {
        case 0: R.read(a, 1, v); realRead(M, a, 1, v); break;
        case 1: R.read(a, 2, v); realRead(M, a, 2, v); break;
        case 2: R.read(a, 4, v); realRead(M, a, 4, v); break;
        case 3: R.write(a, 4, 0x11223344); realWrite(M, a, 4, 0x11223344); break;
        case 4: R.write(a, 1, 0x55); realWrite(M, a, 1, 0x55); break;
        case 5: cut([&] { MemorySim_MapSimulatedAddressToHostAddressForRead(M, a, 4); }); break;
        case 6: cut([&] { MemorySim_SetHardwareBreakpoint(M, a, 2); }); break;
        case 7: cut([&] { MemorySim_SetHardwareWatchpoint(M, a, 4, WATCHPOINT_WRITE); }); break;
        }
        xmlSame("after a use");
    }
    ends();
}
void c04_many()
{
    begin();
    u32 kind = mc_choose(5, "kind"), n = mc_choose((unsigned)mc_tier(kind == 3 ? 60 : 300, kind == 3 ? 500 : 1500), "regions");
    for (u32 i = 0; i < n; i++)
    {
        u32 base = kind == 1 ? 0xFFFF0000u + i * 8 : kind == 2 ? i * 4 : 0x20000000u + i * 0x10000u;
        if (kind == 3 && i == 0) { base = 0; rt_alloc_limit((size_t)9 << 30); create(0, 0xFFFFFFFF); makeRO(0); }
        else if (kind == 3) alias(0x40000000u + i * 0x10000u, i * 16, i % 2 ? 0xFFFFFFFF : 0x10000000);     // the longest lines there are
        else create(base, 4);
        if (kind == 0 || kind == 1 || (kind == 4 && i % 3 == 0)) makeRO(base);
        if (i % 64 == 0) xmlSame("while growing");
    }
    xmlSame("many regions");
    ends();
}

// ---------------------------------------------------------------- C05
struct Hits { bool bp, wp; };
Hits expectHits(u32 addr, u32 size, bool write)
{
    Hits h{false, false};
    u32  a = addr;
    int  t = R.find(a, size);
    if (t < 0) return h;
    RefRegion& r = R.r[(size_t)t];
    if (write && r.ro) return h;
    for (auto& w : r.watches)
    {
        bool inside = a >= w.addr && (uint64_t)a + size <= (uint64_t)w.addr + w.size;
        if (!inside) continue;
        if (w.kind == 4) { if (!write && size == 2) h.bp = true; }
        else if (w.kind & (write ? 2 : 1)) h.wp = true;
    }
    return h;
}
void setWatch(bool set, int kind, u32 addr, u32 size)
{
    mc_step();
    int c = cut([&] {
        if (kind == 4) { if (set) MemorySim_SetHardwareBreakpoint(M, addr, size); else MemorySim_ClearHardwareBreakpoint(M, addr, size); }
        else if (set) MemorySim_SetHardwareWatchpoint(M, addr, size, (WatchpointType)kind);
        else MemorySim_ClearHardwareWatchpoint(M, addr, size, (WatchpointType)kind);
    }).code;
    u32 a = addr;
    int t = R.find(a, size);
    mc_note("%s %s 0x%X +%u -> %d", set ? "set" : "clear", kind == 4 ? "breakpoint" : kind == 1 ? "read watchpoint" : kind == 2 ? "write watchpoint" : "access watchpoint", addr, size, c);
    CHECKK("watch-result", c == (t < 0 ? busErrorException : 0), "setting/clearing at 0x%08X +%u gave exception %d, expected %d", addr, size, c, t < 0 ? busErrorException : 0);
    if (t >= 0)
    {
        RefWatch w{kind, a, size};
        if (set) R.r[(size_t)t].watches.insert(w); else R.r[(size_t)t].watches.erase(w);
    }
    mc_state(R.hash());
}
bool wasHit() { int n = 0; cut_code([](void* p) { *(int*)p = MemorySim_WasWatchpointEncountered(M); }, &n); return n != 0; }
uint64_t checkAccess(u32 addr, u32 size, bool write)
{
    Hits want = expectHits(addr, size, write);
    u32  v = 0, rv = 0;
    int  c;
    if (write)
    {
        u32 nv = (addr * 0x9E3779B1u + size) & mask(size);
        bool ok = R.write(addr, size, nv);
        c = realWrite(M, addr, size, nv);
        CHECKK("write-result", c == (ok ? 0 : busErrorException), "%u-byte write at 0x%08X gave exception %d", size, addr, c);
    }
    else
    {
        bool ok = R.read(addr, size, rv);
        c = realRead(M, addr, size, v);
        int wc = !ok ? busErrorException : want.bp ? hardwareBreakpointException : 0;
        CHECKK(want.bp ? "breakpoint-missed" : "breakpoint-result", c == wc, "%u-byte read at 0x%08X gave exception %d, expected %d", size, addr, c, wc);
        if (c == 0) CHECKK("read-value", v == rv, "%u-byte read at 0x%08X returned 0x%X, expected 0x%X", size, addr, v, rv);
    }
    bool hit = wasHit();
    if (!want.bp) CHECKK(want.wp ? "watchpoint-missed" : "watchpoint-false", hit == want.wp, "%u-byte %s at 0x%08X %s a watchpoint, expected %s", size, write ? "write" : "read", addr, hit ? "hit" : "did not hit", want.wp ? "a hit" : "none");
    bool again = wasHit();
    CHECKK("watchpoint-sticky", !again, "the watchpoint hit is still reported after it was read once");
    return (uint64_t)c * 2 + hit;
}
uint64_t checkAll(u32 from, u32 n)
{
    uint64_t h = 3;
    for (u32 i = 0; i < n; i++) for (u32 s = 1; s <= 4; s *= 2) for (int w = 0; w < 2; w++) h = mc_hashi(checkAccess(from + i, s, w), h);
    return h;
}
void c05_sets()
{
    begin();
    static const u32 bases[] = {0x1000, 0xFFFFFFF8};
    u32 B = mc_pick(bases, "base");
    create(B, 8);
    static const Reg ranges[] = {{0, 2}, {0, 4}, {2, 4}, {3, 2}, {4, 4}, {0, 8}};
    int depth = 1 + (int)mc_choose((unsigned)mc_tier(3, 4), "operations");
    int nr = depth >= 4 ? 3 : depth == 3 ? mc_tier(4, 6) : 6;
    for (int i = 0; i < depth; i++)
    {
        bool set = mc_choose(2, "set or clear") == 0;
        if (i == 0 && !set) mc_prune();
        int  kind = 4 - (int)mc_choose(4, "kind");
        const Reg& g = ranges[mc_choose((unsigned)nr, "range")];
        setWatch(set, kind, B + g.off, g.size);
    }
    mc_outcome(checkAll(B, 8));
    ends();
}
void c05_alias()      // set through one name, access through the other; read-only memory; unmapped and straddling ranges
{
    begin();
    create(0x1000, 8);
    create(0x1008, 8);
    u32 ro = mc_choose(2, "read-only");
    if (ro) makeRO(0x1000);
    alias(0x9000, 0x1002, 6);
    static const u32 where[] = {0x1000, 0x9000, 0x1006, 0x0FFE, 0x100C, 0x8FFF, 0x9004};
    for (int i = 0, n = mc_tier(2, 3); i < n; i++)
    {
        bool set = mc_choose(2, "set or clear") == 0;
        int  kind = 4 - (int)mc_choose(4, "kind");
        u32  a = mc_pick(where, "address");
        setWatch(set, kind, a, 2u << mc_choose(2, "size"));
    }
    mc_outcome(checkAll(0x0FFE, 20) ^ checkAll(0x8FFE, 10));
    ends();
}
void c05_many()       // many watchpoints set in several orders, then every other one cleared
{
    begin();
    u32 n = 1 + mc_choose((unsigned)mc_tier(40, 120), "how many"), order = mc_choose(4, "order"), kind = 1 + mc_choose(4, "kind");
    u32 B = mc_choose(2, "base") ? 0u - 2 * n - 4 : 0x2000;
    create(B, 2 * n + 4);
    auto idx = [&](u32 i) { return order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? (i * 7) % n : (i % 2 ? n - 1 - i / 2 : i / 2); };
    for (u32 i = 0; i < n; i++) setWatch(true, (int)(kind == 4 ? 4 : 1 + (kind + i) % 3), B + 2 * idx(i), 2);
    for (u32 i = 0; i < n; i++) setWatch(true, (int)(kind == 4 ? 4 : 1 + (kind + i) % 3), B + 2 * idx(i), 2);     // setting again changes nothing
    mc_outcome(checkAll(B, 2 * n + 4));
    for (u32 i = 0; i < n; i += 2) setWatch(false, (int)(kind == 4 ? 4 : 1 + (kind + i) % 3), B + 2 * idx(i), 2);
    for (u32 i = 0; i < n; i += 2) setWatch(false, (int)(kind == 4 ? 4 : 1 + (kind + i) % 3), B + 2 * idx(i), 2);
    mc_outcome(checkAll(B, 2 * n + 4));
    ends();
}
void c05_one()        // one of many watchpoints cleared, whichever it is
{
    begin();
    static const u32 ns[] = {3, 16, 17, 33, 65, 100, 129, 257};
    u32 n = ns[mc_choose((unsigned)mc_tier(mc_asan() ? 5 : 7, 8), "how many")], which = mc_choose(n, "which"), kind = mc_choose(2, "kind") ? 4 : 3, order = mc_choose(2, "order");
    u32 B = 0x2000;
    create(B, 2 * n);
    for (u32 i = 0; i < n; i++) setWatch(true, (int)kind, B + 2 * (order ? n - 1 - i : i), 2);
    setWatch(false, (int)kind, B + 2 * which, 2);
    mc_outcome(checkAll(B + 2 * (which ? which - 1 : 0), 6));
    setWatch(true, (int)kind, B + 2 * which, 2);
    mc_outcome(checkAll(B + 2 * (which ? which - 1 : 0), 6));
    ends();
}
void c05_latch()      // the hit is remembered until it is asked for
{
    begin();
    create(0x1000, 8);
    setWatch(true, 3, 0x1002, 2);
    bool hit = false;
    for (int i = 0; i < 4; i++)
        switch (mc_choose(8, "step"))
        {
        case 5: hostMap(0x1002, 2, true); break;                // the debugger's own mappings are no accesses
        case 6: hostMap(0x1000, 8, false); hostMap(0x1002, 1, false); hostMap(0x1003, 1, false); break;
        case 7: { u8 b[4] = {1, 2, 3, 4}; R.poke(0x1001, b, 4, true); int c = cut([&] { MemorySim_LoadFromFlashImage(M, 0x1001, b, 4); }).code; CHECKK("load", c == 0, "loading gave exception %d", c); break; }
        case 0: { u32 v; realRead(M, 0x1002, 2, v); hit = true; mc_note("read hit"); break; }
        case 1: { u32 v; realRead(M, 0x1000, 2, v); mc_note("read miss"); break; }
        case 2: R.write(0x1003, 1, 9); realWrite(M, 0x1003, 1, 9); hit = true; mc_note("write hit"); break;
        case 3: { bool h = wasHit(); mc_note("ask -> %d", h); CHECKK("latch", h == hit, "asked for a hit: got %d, expected %d", h, hit); hit = false; break; }
        case 4: setWatch(false, 1, 0x1002, 2); break;
        }
    bool h = wasHit();
    CHECKK("latch", h == hit, "asked for a hit at the end: got %d, expected %d", h, hit);
    mc_outcome(hit);
    ends();
}
void c05_counts()     // any number of hits before the question, from any number of watchpoints
{
    begin();
    static const u32 ns[] = {1, 2, 127, 128, 255, 256, 257, 512, 65535, 65536, 65537};
    static const u32 ks[] = {1, 2, 127, 128, 255, 256, 257, 512};
    u32 n = mc_pick(ns, "hits"), k = mc_pick(ks, "watchpoints"), how = mc_choose(3, "access");
    if (n > 600 && (k > 1 || (how && !mc_thorough()))) mc_prune();
    if (k > 2 && n > 2 && !mc_thorough()) mc_prune();
    create(0x1000, 0x800);
    for (u32 i = 0; i < k; i++)
    {
        mc_step();
        int c = cut([&] { MemorySim_SetHardwareWatchpoint(M, 0x1000, 4 + i, WATCHPOINT_READ_WRITE); }).code;
        CHECKK("watch-result", c == 0, "setting watchpoint %u of %u gave exception %d", i, k, c);
    }
    u32 v = 0;
    for (u32 i = 0; i < n; i++)
    {
        int c = how == 0 ? realRead(M, 0x1000, 2, v) : how == 1 ? realWrite(M, 0x1000, 4, i) : i % 2 ? realRead(M, 0x1001, 1, v) : realWrite(M, 0x1003, 1, i);
        if (c) CHECKK("read-value", false, "access %u gave exception %d", i, c);
    }
    bool hit = wasHit();
    CHECKK("watchpoint-missed", hit, "%u accesses hit %u watchpoints each and none was reported", n, k);
    hit = wasHit();
    CHECKK("watchpoint-sticky", !hit, "a hit is still reported after it was read once");
    for (u32 i = 0; i < k; i++) cut([&] { MemorySim_ClearHardwareWatchpoint(M, 0x1000, 4 + i, WATCHPOINT_READ_WRITE); });
    realRead(M, 0x1000, 4, v); realWrite(M, 0x1000, 4, v);
    hit = wasHit();
    CHECKK("watchpoint-false", !hit, "a hit is reported after all %u watchpoints were cleared", k);
    mc_state(mc_hashi(n, k)); mc_outcome(mc_hashi(n, mc_hashi(k, how)));
    ends();
}
void c04_fresh()      // memories one after the other: each has its own map
{
    static const u32 counts[] = {0, 1, 2, 9, 40};
    for (u32 round = 0; round < 3; round++)
    {
        begin();
        u32 n = mc_pick(counts, "regions");
        if (mc_bool("ask first")) xmlSame("empty memory");
        for (u32 i = 0; i < n; i++) { create(0x10000 * i + round, 0x100 + i); if ((i + round) % 3 == 0) makeRO(0x10000 * i + round); }
        if (mc_bool("ask")) xmlSame("with all regions");
        mc_outcome(mc_hashi(n, round));
        ends();
    }
}
void c05_fresh()      // neither points nor a pending hit outlive their memory
{
    u32 n = (u32)mc_tier(2, mc_asan() ? 2 : 3);
    for (u32 round = 0; round < n; round++)
    {
        begin();
        bool h = round && mc_bool("ask first") ? wasHit() : false;
        CHECKK("stale-hit", !h, "a hit is reported by a fresh memory");
        u32 sz = mc_bool("size") ? 12 : 8;
        create(0x1000, sz);
        if (mc_bool("read-only")) makeRO(0x1000);
        u32 v, kind = mc_choose(4, "point"), use = mc_choose(4, "use");
        if (kind == 1) setWatch(true, 1, 0x1002, 2);          // reads
        if (kind == 2) setWatch(true, 3, 0x1001, 4);          // both
        if (kind == 3) setWatch(true, 4, 0x1002, 2);          // code
        bool ro = R.r[0].ro, hit = false;
        if (use == 1 || use == 3)
        {
            int c = realRead(M, 0x1002, 2, v);
            CHECKK("break", c == (kind == 3 ? (int)hardwareBreakpointException : 0), "a 16-bit read gave exception %d in memory %u", c, round + 1);
            hit = kind == 1 || kind == 2;
        }
        if (use == 2 || use == 3)
        {
            int c = realWrite(M, 0x1002, 2, 0x1234);
            CHECKK("write-result", c == (ro ? (int)busErrorException : 0), "a 16-bit write gave exception %d in memory %u", c, round + 1);
            hit = hit || (kind == 2 && !ro);
        }
        if (mc_bool("ask"))
        {
            h = wasHit();
            CHECKK("latch", h == hit, "memory %u: a hit is %sreported, expected %d", round + 1, h ? "" : "not ", hit);
        }
        mc_outcome(mc_hashi(hit, kind));
        ends();
    }
}
void c05_huge()       // ranges spread over the whole address space
{
    begin();
    rt_alloc_limit((size_t)5 << 30);
    create(0, 0xFFFFFFFF);
    static const Big ranges[] = {{0, 4}, {0x7FFFFFFE, 4}, {0x80000000, 2}, {0xFFFFFFF8, 4}, {0x1000, 0xF0000000}, {0, 0xFFFFFFFF}, {0x00010000, 0x10000}};
    int n = mc_tier(2, 3);
    for (int i = 0; i < n; i++)
    {
        bool set = i == 0 || mc_choose(2, "set or clear") == 0;
        int  kind = 4 - (int)mc_choose(4, "kind");
        const Big& g = mc_pick(ranges, "range");
        setWatch(set, kind, g.base, g.size);
    }
    uint64_t h = 1;
    for (u32 a : {0u, 0x0FFEu, 0xFFFEu, 0x1FFFEu, 0x7FFFFFFCu, 0xF0000FFEu, 0xFFFFFFF6u}) h ^= checkAll(a, 6);
    mc_outcome(h);
    ends();
}

// ---------------------------------------------------------------- C06
void checkCounts(u32 from, u32 n)
{
    for (u32 i = 0; i < n; i++)
    {
        u32 addr = from + i, a = addr, got = 0xEEEE;
        int t = R.find(a, 2);
        bool ok = t >= 0 && R.r[(size_t)t].ro;
        int c = cut([&] { got = MemorySim_GetFlashReadCount(M, addr); }).code;
        CHECKK("count-result", c == (ok ? 0 : busErrorException), "read count at 0x%08X: exception %d, expected %d", addr, c, ok ? 0 : busErrorException);
        if (!ok) continue;
        u32 want = R.r[(size_t)t].count(a - R.r[(size_t)t].base);
        CHECKK("count", got == want, "0x%08X was read %u times as a halfword, reported %u", addr, want, got);
        mc_outcome(((uint64_t)i << 32) | got);
    }
}
void countedRead(u32 addr, u32 size)
{
    mc_step();
    u32 v = 0, want = 0, a = addr;
    bool ok = R.read(addr, size, want);
    int c = realRead(M, addr, size, v);
    mc_note("read%u 0x%X -> %d 0x%X", size * 8, addr, c, v);
    CHECKK("read", c == (ok ? 0 : busErrorException) && (!ok || v == want), "%u-byte read at 0x%08X: exception %d value 0x%X, expected 0x%X", size, addr, c, v, want);
    int t = R.find(a, size);
    if (t >= 0 && size == 2 && R.r[(size_t)t].ro) R.r[(size_t)t].count(a - R.r[(size_t)t].base)++;
    mc_state(R.hash());
}
void c06_counts()
{
    begin();
    u32 B = BASES[mc_choose(4, "base")] + 4 + mc_choose(2, "odd address"), size = 1 + mc_choose((unsigned)mc_tier(7, 9), "flash size");
    create(B, size);
    makeRO(B + size - 1);
    if (mc_bool("RAM next to it")) create(B + size, 5);
    u32 A = 0x90000;
    bool al = size > 2 && mc_bool("alias");
    if (al) alias(A, B + 2, 6);
    for (int i = 0, n = mc_tier(2, 3); i < n; i++)
    {
        u32 op = mc_choose(6, "operation");
        if (op == 0) countedRead(B + mc_choose(size + 2, "address"), 2);
        else if (op == 1) countedRead(B + mc_choose(size, "address"), 1);
        else if (op == 2) countedRead(B + mc_choose(size, "address"), 4);
        else if (op == 3) writeBoth(B + mc_choose(size, "address"), 2, 0x1234);
        else if (op == 4) { if (!al) mc_prune(); countedRead(A + mc_choose(5, "alias address"), 2); }
        else makeRO(B);               // protecting it again must not lose what was counted
    }
    checkCounts(B - 2, size + 9);
    checkCounts(A - 2, 9);
    ends();
}
void c06_many()       // large regions, many reads of one halfword
{
    begin();
    u32 k = mc_choose((unsigned)mc_tier(13, 16), "log2 size"), d = mc_choose(3, "delta"), size = (1u << k) - 1 + d;
    if (size < 2) mc_prune();
    u32 B = 0x8000000;
    create(B, size);
    makeRO(B);
    for (u32 o : {0u, 2u, 3u, size / 2, size - 2, size - 1, 4094u, 4096u, 65534u, 65536u})
        for (u32 i = 0, n = 1 + (o * 31) % 7; i < n; i++) countedRead(B + o, 2);
    for (u32 i = 0; i < 300; i++) countedRead(B, 2);
    checkCounts(B, size < 40 ? size + 2 : 40);
    checkCounts(B + size - 6, 8);
    checkCounts(B + size / 2 - 6, 12);
    if (size > 70000) { checkCounts(B + 4090, 10); checkCounts(B + 65530, 10); }
    ends();
}
void c06_counts2()    // counts beyond every narrower integer
{
    begin();
    static const u32 ns[] = {127, 128, 129, 255, 256, 257, 32767, 32768, 32769, 65535, 65536, 65537, 100000};
    u32 n = mc_pick(ns, "reads"), o = mc_choose(3, "halfword") * 2;
    bool al = mc_bool("through an alias");
    create(0x1000, 8);
    makeRO(0x1000);
    alias(0x3000, 0x1000, 8);
    u32 v = 0, h = 0x1000;
    for (u32 i = 0; i < n; i++) if (realRead(M, (al && i % 2 ? 0x3000 : h) + o, 2, v)) CHECKK("read", false, "read %u failed", i);
    R.r[0].count(o) = n;
    countedRead(0x1000 + (o + 2) % 8, 2);
    checkCounts(0x0FFE, 12);
    ends();
}
void c06_huge()
{
    begin();
    rt_alloc_limit((size_t)9 << 30);
    const Big& g = mc_pick(BIGS, "region");
    create(g.base, g.size);
    makeRO(g.base);
    if (mc_bool("alias")) alias(g.base + g.size, g.base + 1, 0x1000);
    u32 d = mc_choose(8, "offset"), n = 1 + mc_choose(2, "reads");
    for (u32 a : bigSpots(g)) for (u32 i = 0; i < n; i++) countedRead(a - 4 + d, 2);
    for (u32 a : bigSpots(g)) countedRead(a - 4 + d, 4);
    for (u32 a : bigSpots(g)) checkCounts(a - 6, 14);
    ends();
}

// ---------------------------------------------------------------- C07
struct OpResult { int code; };
void c07_faults()
{
    begin();
    uint8_t img[10] = {0x10, 0, 0, 0x10, 1, 2, 3, 4, 5, 6};
    int  depth = mc_tier(3, 4);
    bool flash = false;
    g_fault.mallocBudget = mc_tier(2, 2);
    for (int i = 0; i < depth; i++)
    {
        uint32_t op = mc_choose(i == 0 ? 3 : 8, "operation");
        int before = rt_faults_injected();
        int c = 0; bool refOk = true; RefMem saved = R;
        const char* name = "";
        switch (op)
        {
        case 0: name = "create region"; c = opCreate(0x1000 + 0x10 * (u32)i, 8); R.create(0x1000 + 0x10 * (u32)i, 8); break;
        case 1: if (flash || i > 1) mc_prune(); flash = true; name = "regions from image";
            mc_step();
            c = cut([&] { MemorySim_CreateRegionsFromFlashImage(M, img, sizeof img); }).code;
            mc_note("create regions from flash image -> %d", c);
            R.create(0, sizeof img); R.poke(0, img, sizeof img, true); R.makeRO(0); R.create(0x10000000, 0x10);
            break;
        case 2: name = "memory map"; mc_step(); { const char* p = nullptr; c = cut([&] { p = MemorySim_GetMemoryMapXML(M); }).code; if (!c) CHECKK("xml", R.xml() == p, "memory map is %s", p); } mc_note("memory map -> %d", c); break;
        case 3: { u32 to = mc_bool("alias target") ? 2 : 0x1002; name = "alias"; refOk = R.alias(0x5000 + 0x10 * (u32)i, to, 4); c = opAlias(0x5000 + 0x10 * (u32)i, to, 4); break; }
        case 4: { u32 a = mc_bool("read-only target") ? 2 : 0x1000; name = "read-only"; refOk = R.makeRO(a); c = opRO(a); break; }
        case 5: case 6:
            {
                u32 a = mc_choose(2, "watch address") ? 4 : 0x1002;
                int kind = op == 5 ? 4 : 3;
                name = "watch"; mc_step();
                c = cut([&] { if (kind == 4) MemorySim_SetHardwareBreakpoint(M, a, 2); else MemorySim_SetHardwareWatchpoint(M, a, 2, WATCHPOINT_READ_WRITE); }).code;
                mc_note("set %s 0x%X -> %d", kind == 4 ? "breakpoint" : "watchpoint", a, c);
                u32 x = a; int t = R.find(x, 2); refOk = t >= 0;
                if (refOk) R.r[(size_t)t].watches.insert(RefWatch{kind, x, 2});
                break;
            }
        case 7: name = "write"; { bool ok = R.write(0x1000, 4, 0x01020304u * (u32)(i + 1)); c = realWrite(M, 0x1000, 4, 0x01020304u * (u32)(i + 1)); refOk = ok; mc_note("write -> %d", c); } break;
        }
        bool faulted = rt_faults_injected() > before;
        if (faulted)
        {
            CHECKK("oom-result", c == outOfMemoryException, "%s with a failed allocation gave exception %d instead of out-of-memory", name, c);
            R = saved;                 // the operation must have had no effect
        }
        else
        {
            CHECKK("result", c == (refOk ? 0 : busErrorException), "%s gave exception %d, expected %d", name, c, refOk ? 0 : busErrorException);
            if (!refOk) R = saved;
        }
        mc_state(R.hash());
    }
    g_fault.mallocBudget = 0;
    xmlSame("at the end");
    uint64_t h = 5;
    for (auto f : {0x0FFEu, 0x4FFEu, 0xFFFFFFFEu, 0x10000000u}) for (u32 i = 0; i < (f == 0x0FFE ? 0x2Cu : f == 0xFFFFFFFEu ? 14u : 0x12u); i++) for (u32 s = 1; s <= 4; s *= 2)
    {
        h = mc_hashi(checkAccess(f + i, s, false), h);
        if (s == 2)
        {   // 16-bit reads of protected memory are counted
            u32 a = f + i; int t = R.find(a, 2);
            if (t >= 0 && R.r[(size_t)t].ro) R.r[(size_t)t].count(a - R.r[(size_t)t].base)++;
        }
    }
    checkCounts(0xFFFFFFFE, 14);
    checkCounts(0x0FFE, 14);
    mc_outcome(h);
    ends();
}
void c07_nth()        // the n-th allocation of a fixed session fails, for every n
{
    long n = (long)mc_choose(40, "which allocation fails");
    begin();
    rt_fail_alloc_at(n);
    uint8_t img[9] = {8, 0, 0, 0x20, 1, 2, 3, 4, 5};
    bool failed = false;
    auto did = [&](const char* what, int c) {
        mc_step(); mc_note("%s -> %d", what, c);
        bool nowFailed = rt_faults_injected() > 0;
        CHECKK("oom-result", c == (nowFailed && !failed ? outOfMemoryException : 0), "%s: exception %d", what, c);
        failed = nowFailed;
        return c == 0;
    };
    bool before = mc_bool("a region before the image");
    if (before && did("region", cut([&] { MemorySim_CreateRegion(M, 0x60000000, 4); }).code)) R.create(0x60000000, 4);
    bool image = did("image", cut([&] { MemorySim_CreateRegionsFromFlashImage(M, img, sizeof img); }).code);
    if (image) { R.create(0, 9); R.poke(0, img, 9, true); R.makeRO(0); R.create(0x20000000, 8); }
    for (u32 i = 0; i < 3; i++) if (did("region", cut([&] { MemorySim_CreateRegion(M, 0x30000000 + i * 16, 16); }).code)) R.create(0x30000000 + i * 16, 16);
    u32 b = R.r.back().base;
    if (did("alias", cut([&] { MemorySim_CreateAlias(M, 0x50000000, b, 4); }).code)) R.alias(0x50000000, b, 4);
    if (did("read-only", cut([&] { MemorySim_MakeRegionReadOnly(M, b); }).code)) R.makeRO(b);
    for (u32 i = 0; i < 5; i++) { did("breakpoint", cut([&] { MemorySim_SetHardwareBreakpoint(M, b + 2 * i, 2); }).code); }
    const char* p = nullptr;
    did("map", cut([&] { p = MemorySim_GetMemoryMapXML(M); }).code);
    u32 extra = mc_choose(2, "one more region");
    if (extra && did("region", cut([&] { MemorySim_CreateRegion(M, 0x70000000, 4); }).code)) R.create(0x70000000, 4);
    did("map again", cut([&] { p = MemorySim_GetMemoryMapXML(M); }).code);
    rt_fail_alloc_at(-1);
    xmlSame("at the end");
    mc_state(R.hash());
    ends();
}

// ---------------------------------------------------------------- C08
void c08_image()
{
    begin();
    static const u32 sps[] = {0x10000010, 0x10000000, 0x20000001, 0x2000ABCD, 0, 6, 0x40, 0xF0000020, 0xFFFFFFF0, 0x7FF00004, 0x80000008, 0x100FFFFF, 0xFFFFFFFF, 0x1FFFFFFF, 0xDEADBEEF, 1, 0xE0000000};
    u32 sp = mc_pick(sps, "initial stack pointer");
    u32 n = mc_choose((unsigned)mc_tier(24, 70), "image size");
    std::vector<uint8_t> img(n + 8);
    for (u32 i = 0; i < n; i++) img[i] = i < 4 ? (uint8_t)(sp >> (8 * i)) : (uint8_t)(0x91 + 13 * i);
    uint8_t* host = (uint8_t*)malloc(n ? n : 1);
    memcpy(host, img.data(), n);
    rt_alloc_limit(2 << 20);
    mc_step();
    int c = cut([&] { MemorySim_CreateRegionsFromFlashImage(M, host, n); }).code;
    mc_note("image of %u bytes, stack pointer 0x%08X -> %d", n, sp, c);
    free(host);
    u32 ramBase = sp & 0xF0000000u, ramSize = sp - ramBase;
    if (n < 4) CHECKK("short", c == bufferOverrunException, "an image of %u bytes gave exception %d", n, c);
    else if (ramSize > (2u << 20)) CHECKK("oom", c == outOfMemoryException, "RAM of %u bytes gave exception %d", ramSize, c);
    else
    {
        CHECKK("image", c == 0, "an image of %u bytes with stack pointer 0x%08X gave exception %d", n, sp, c);
        R.create(0, n); R.poke(0, img.data(), n, true); R.makeRO(0);
        R.create(ramBase, ramSize);
    }
    mc_state(R.hash());
    xmlSame("after loading");
    compareImage(M, R, 0xFFFFFFFCu, n + 12, "image");
    if (ramSize <= (2u << 20) && n >= 4)
    {
        compareImage(M, R, ramBase - 4, 12, "start of RAM");
        compareImage(M, R, sp - 8, 14, "end of RAM");
        for (u32 i = 0; i < n + 4; i += 3) writeBoth(i, 1, 0xEE);
        writeBoth(sp - 4, 4, 0x12345678); writeBoth(ramBase, 4, 0x9ABCDEF0); writeBoth(sp - 1, 4, 0x55555555);
        compareImage(M, R, 0xFFFFFFFCu, n + 12, "image after writes");
        compareImage(M, R, sp - 8, 14, "end of RAM after writes");
    }
    mc_outcome(R.hash());
    ends();
}
void c08_load()       // loading any number of bytes at any alignment
{
    begin();
    u32 n = mc_choose((unsigned)mc_tier(70, 300), "bytes"), off = mc_choose(5, "offset"), room = mc_choose(3, "room after");
    u32 B = 0x8000;
    create(B, off + n + room);
    std::vector<uint8_t> src(n);
    for (u32 i = 0; i < n; i++) src[i] = (uint8_t)(1 + 37 * i);
    uint8_t* host = (uint8_t*)malloc(n ? n : 1);
    memcpy(host, src.data(), n);
    mc_step();
    int c = cut([&] { MemorySim_LoadFromFlashImage(M, B + off, host, n); }).code;
    mc_note("load %u bytes at +%u -> %d", n, off, c);
    free(host);
    CHECKK("load", c == 0, "loading %u bytes at offset %u gave exception %d", n, off, c);
    if (n) R.poke(B + off, src.data(), n, true);
    mc_state(R.hash());
    mc_outcome(compareImage(M, R, B - 3, off + n + room + 6, "after loading"));
    ends();
}

// ---------------------------------------------------------------- every operation in one sequence (C01..C06)
int readOnce(u32 addr, u32 size)
{
    Hits want = expectHits(addr, size, false);
    u32  v = 0, rv = 0, a = addr;
    bool ok = R.read(addr, size, rv);
    int  c = realRead(M, addr, size, v), wc = !ok ? busErrorException : want.bp ? hardwareBreakpointException : 0;
    CHECKK("read-result", c == wc, "%u-byte read at 0x%08X gave exception %d, expected %d", size, addr, c, wc);
    if (c == 0) CHECKK("read-value", v == rv, "%u-byte read at 0x%08X returned 0x%X, expected 0x%X", size, addr, v, rv);
    int t = R.find(a, size);
    if (t >= 0 && size == 2 && R.r[(size_t)t].ro) R.r[(size_t)t].count(a - R.r[(size_t)t].base)++;
    return c;
}
bool g_hit;                        // a watchpoint was hit since the last question
void mixedBegin()
{
    begin();
    g_hit = false;
    create(0x1000, 8);
    for (u32 i = 0; i < 8; i++) { R.write(0x1000 + i, 1, 0x51 + i); realWrite(M, 0x1000 + i, 1, 0x51 + i); }
}
void mixedOp(u32 op, bool breakpoints)
{
    static const u8 img[7] = {0xA1, 0xA2, 0xA3, 0xA4, 0xA5, 0xA6, 0xA7};
    bool& hit = g_hit;
    auto access = [&](u32 a, u32 n, bool w) { hit = hit || expectHits(a, n, w).wp; if (w) writeBoth(a, n, 0xC3D4E5F6); else { mc_step(); mc_note("read%u 0x%X -> %d", n * 8, a, readOnce(a, n)); } };
    switch (op)
    {
    case 0: create(0x1006, 8); break;                     // overlaps the first
    case 1: create(0x100E, 6); break;                     // next to it
    case 2: create(0x0FFC, 24); break;                    // around it
    case 3: alias(0x2000, 0x1002, 6); break;
    case 4: alias(0x1008, 0x1000, 4); break;
    case 5: makeRO(0x1000); break;
    case 6: makeRO(0x1009); break;
    case 7: makeRO(0x2001); break;
    case 8: if (!breakpoints) mc_prune(); setWatch(true, 4, 0x1002, 2); break;
    case 9: setWatch(true, 3, 0x1004, 4); break;
    case 10: if (!breakpoints) mc_prune(); setWatch(false, 4, 0x1002, 2); break;
    case 11: setWatch(false, 3, 0x1004, 4); break;
    case 12: access(0x1002, 4, true); break;
    case 13: access(0x2001, 1, true); break;
    case 14: access(0x1004, 2, false); break;
    case 15: access(0x2002, 2, false); break;
    case 16: access(0x100B, 1, true); access(0x0FFF, 2, false); break;
    case 17:
        {
            u32 a = 0x1000; int t = R.find(a, 8);
            if (t != 0) mc_prune();                       // the whole image goes to the first region
            mc_step();
            int c = cut([&] { MemorySim_LoadFromFlashImage(M, 0x1000, img, 7); }).code;
            mc_note("load 7 bytes at 0x1000 -> %d", c);
            CHECKK("load-result", c == 0, "loading gave exception %d", c);
            R.poke(0x1000, img, 7, true);
            break;
        }
    case 18: hostMap(0x1003, 4, true); break;
    case 19: hostMap(0x1001, 5, false); hostMap(0x2001, 4, false); break;
    case 20: xmlSame("in between"); break;
    case 21: { bool h = wasHit(); mc_note("ask -> %d", h); if (breakpoints) CHECKK("latch", h == hit, "asked for a hit: got %d, expected %d", h, hit); hit = false; break; }
    }
}
void mixedEnd()
{
    bool& hit = g_hit;
    (void)hit;
#if defined(PROP_C04)
    xmlSame("at the end");
#elif defined(PROP_C06)
    checkCounts(0x0FFA, 28); checkCounts(0x1FFE, 9);
#elif defined(PROP_C05)
    bool h = wasHit();
    CHECKK("latch", h == hit, "asked for a hit at the end: got %d, expected %d", h, hit);
    mc_outcome(checkAll(0x0FFE, 20) ^ checkAll(0x1FFE, 8));
#else
    uint64_t o = 7;
    for (u32 s = 1; s <= 4; s *= 2) for (u32 i = 0; i < 28; i++) o = mc_hashi((uint64_t)readOnce(0x0FFA + i, s), o);
    for (u32 s = 1; s <= 4; s *= 2) for (u32 i = 0; i < 9; i++) o = mc_hashi((uint64_t)readOnce(0x1FFE + i, s), o);
#if defined(PROP_C02) || defined(PROP_C03)
    for (u32 s = 1; s <= 4; s *= 2) for (u32 i = 0; i < 9; i++) writeBoth(0x1FFE + i, s, 0x77 * i);
    for (u32 s = 1; s <= 4; s *= 2) for (u32 i = 0; i < 28; i++) writeBoth(0x0FFA + i, s, 0x2345678 * i);
    for (u32 s = 1; s <= 4; s *= 4) for (u32 i = 0; i < 28; i++) readOnce(0x0FFA + i, s);
    for (u32 s = 1; s <= 4; s *= 4) for (u32 i = 0; i < 9; i++) readOnce(0x1FFE + i, s);
#endif
    mc_outcome(o);
#endif
    ends();
}
void mixed(bool breakpoints)
{
    mixedBegin();
    int depth = mc_tier(mc_asan() ? 3 : 4, mc_asan() ? 4 : 5);
    for (int i = 0; i < depth; i++) mixedOp(mc_choose(22, "operation"), breakpoints);
    mixedEnd();
}
void often(bool breakpoints)       // one operation any number of times, before it some others, after it another one
{
    static const int before[][4] = {{-1}, {3, -1}, {3, 5, -1}, {5, 9, 3, -1}, {1, 3, 9, -1}, {8, 9, -1}, {2, 4, 5, -1}};
    static const u32 ns[] = {127, 128, 255, 256, 257, 65536, 32768, 65535, 65537};
    u32 n = ns[mc_choose((unsigned)mc_tier(6, 9), "times")], op = mc_choose(22, "operation"), after = mc_choose(23, "after it");
    if (n > 300 && (op < 5 || after != 22)) mc_prune();                // many regions are another matter
    if (mc_asan() && (n != 256 || op < 5) && !mc_thorough()) mc_prune();
    if (op < 5 && !(n == 256 || mc_thorough())) mc_prune();
    mixedBegin();
    for (const int* b = mc_pick(before, "before it"); *b >= 0; b++) mixedOp((u32)*b, breakpoints);
    for (u32 i = 0; i < n; i++) mixedOp(op, breakpoints);
    if (after < 22) mixedOp(after, breakpoints);
    mixedEnd();
}
void mixed_all() { mixed(true); }
void mixed_counts() { mixed(false); }
void often_all() { often(true); }
void often_counts() { often(false); }
}

#if defined(PROP_C01)
MODELS(PROP, {"pairs", c01_pairs, "two overlapping writes to two adjacent regions"}, {"layouts", c01_layouts, "up to three of six overlapping regions at four bases, writes of every size at every address"},
       {"sizes", c01_sizes, "region sizes around every power of two"}, {"many", c01_many, "1..n regions"}, {"reuse", c01_reuse, "two memories one after the other"}, {"everywhere", c01_everywhere, "every page of the address space"}, {"huge", c01_huge, "regions of up to 4 GB"}, {"often", often_all, "operations many times"}, {"mixed", mixed_all, "sequences of all operations"});
#elif defined(PROP_C02)
MODELS(PROP, {"protect", c02_protect, "layouts, protection, every way to write"}, {"large", c02_large, "protected regions around every power of two"}, {"huge", c02_huge, "regions of up to 4 GB"}, {"often", often_all, "operations many times"}, {"mixed", mixed_all, "sequences of all operations"});
#elif defined(PROP_C03)
MODELS(PROP, {"alias", c03_alias, "alias address, target, size, chains, protection"}, {"sizes", c03_sizes, "clipping"}, {"deep", c03_deep, "alias chains"}, {"huge", c03_huge, "regions of up to 4 GB"}, {"often", often_all, "operations many times"}, {"mixed", mixed_all, "sequences of all operations"});
#elif defined(PROP_C04)
MODELS(PROP, {"ops", c04_ops, "operation sequences"}, {"order", c04_order, "uses of the memory"}, {"many", c04_many, "0..n regions"}, {"fresh", c04_fresh, "one memory after the other"}, {"often", often_all, "operations many times"}, {"mixed", mixed_all, "sequences of all operations"});
#elif defined(PROP_C05)
MODELS(PROP, {"latch", c05_latch, "hit reporting"}, {"sets", c05_sets, "set/clear sequences, every access checked"}, {"alias", c05_alias, "aliases, protection, bad ranges"}, {"one", c05_one, "each of many"}, {"many", c05_many, "many watchpoints"}, {"hits", c05_counts, "numbers of hits"}, {"fresh", c05_fresh, "one memory after the other"}, {"huge", c05_huge, "regions of up to 4 GB"}, {"often", often_all, "operations many times"}, {"mixed", mixed_all, "sequences of all operations"});
#elif defined(PROP_C06)
MODELS(PROP, {"counts", c06_counts, "access sequences"}, {"many", c06_many, "large regions"}, {"reads", c06_counts2, "large counts"}, {"huge", c06_huge, "regions of up to 4 GB"}, {"often", often_counts, "operations many times"}, {"mixed", mixed_counts, "sequences of all operations"});
#elif defined(PROP_C07)
MODELS(PROP, {"nth", c07_nth, "each allocation of a session fails"}, {"faults", c07_faults, "operation sequences with up to two failed allocations"});
#elif defined(PROP_C08)
MODELS(PROP, {"image", c08_image, "images and stack pointers"}, {"load", c08_load, "loader sizes and alignments"});
#endif
