// C09, C10: ELF images, compared with an independent reading of the same bytes.
#include "elfref.h"

namespace
{
bool overlapping(const RefMem& m)
{
    for (size_t i = 0; i < m.r.size(); i++)
        for (size_t j = 0; j < i; j++)
            if (m.r[i].base < (uint64_t)m.r[j].base + m.r[j].size && m.r[j].base < (uint64_t)m.r[i].base + m.r[i].size) return true;
    return false;
}
// Load `s` from an exactly sized heap block and compare with the reference.
void load(const std::string& s, bool full)
{
    Verdict v = judge(s);
    mc_state(mc_hash(s));
    IMemory* M = MemorySim_Init();
    char* host = (char*)malloc(s.size() ? s.size() : 1);
    memcpy(host, s.data(), s.size());
    char* h = s.size() ? host : host + 1;
    mc_step();
    rt_alloc_limit(64 << 20);
    Ex e = cut([&] { ElfLoad_FromMemory(M, h, s.size()); });
    bool changed = memcmp(host, s.data(), s.size()) != 0;
    free(host);
    mc_note("loading %zu bytes -> exception %d \"%s\"", s.size(), e.code, e.msg.c_str());
    if (v.format)
    {
        CHECKK("malformed-accepted", e.code == elfFormatException, "a malformed ELF file of %zu bytes gave exception %d (\"%s\") instead of an ELF format error", s.size(), e.code, e.msg.c_str());
        CHECKK("no-message", !e.msg.empty(), "the ELF format error carries no message");
        CHECKK("reason", givesReason(e.msg, v.why), "the ELF format error \"%s\" does not give the reason (%s)", e.msg.c_str(), v.why[0].words.c_str());
    }
    else if (v.bus) CHECKK("wrapped", e.code != 0, "a segment that does not fit below 4 GB was loaded");
    else if (overlapping(v.mem)) {}
    else
    {
        CHECKK("valid-refused", e.code == 0, "a valid ELF file of %zu bytes was refused with exception %d: %s", s.size(), e.code, e.msg.c_str());
        const char* p = nullptr;
        CHECKK("xml", cut([&] { p = MemorySim_GetMemoryMapXML(M); }).code == 0 && v.mem.xml() == p, "memory map after loading is\n%s\nexpected\n%s", p ? p : "(none)", v.mem.xml().c_str());
        for (auto& r : v.mem.r)
        {
            const void* q = nullptr;
            CHECKK("bytes", cut([&] { q = MemorySim_MapSimulatedAddressToHostAddressForRead(M, r.base, r.size); }).code == 0 && !memcmp(q, r.data.data(), r.size), "segment at 0x%08X does not hold its bytes from the file", r.base);
            if (!full) continue;
            compareImage(M, v.mem, r.base - 3, r.size < 24 ? r.size + 6 : 24, "start of segment");
            compareImage(M, v.mem, r.base + r.size - 6, 9, "end of segment");
            for (u32 i : {0u, r.size / 2, r.size - 1}) CHECKK("writable", realWrite(M, r.base + i, 1, 0x5A) == busErrorException, "the segment at 0x%08X is writable", r.base);
        }
    }
    CHECKK("file-changed", !changed, "loading changed the file's bytes");
    mc_outcome(mc_hash(e.msg, v.mem.hash() + (uint64_t)e.code));
    MemorySim_Uninit(M);
    CHECKK("leak", rt_live_allocs() == 0, "%zu blocks still allocated after the memory was released", rt_live_allocs());
}

// ---------------------------------------------------------------- C09
const u32 PADDR[] = {0x00000000, 0x08000000, 0x1FFF0001, 0xF0000000, 0x40000003};
void c09_tables()
{
    u32 n = 1 + mc_choose((unsigned)mc_tier(3, 4), "program headers");
    u32 ent = mc_choose(2, "entry size") ? 47 : 32;
    u32 where = mc_choose(3, "place of the program headers");      // right after the header, after a gap, behind the data
    u32 kinds = n <= 2 ? 9 : n == 3 ? (u32)mc_tier(6, 9) : 5;
    const u32 dataLen = 200;
    u32 dataAt = where == 2 ? 52 : 52 + (where == 1 ? 5 : 0) + n * ent + 15;
    u32 phoff = where == 0 ? 52 : where == 1 ? 57 : 52 + dataLen + 3;
    std::string s = header(phoff, ent, n);
    s.resize(std::max(dataAt + dataLen, phoff + (n - 1) * ent + 32), (char)0xC9);
    for (u32 i = 0; i < dataLen; i++) s[dataAt + i] = (char)(17 + 29 * i);
    for (u32 i = 0; i < n; i++)
    {
        Ph p{1, dataAt + (n - 1 - i) * 37, 0x20000000 + i * 0x1000, PADDR[i], 13 + 3 * i, 13 + 3 * i, 5, 4};
        switch (mc_choose(kinds, "segment"))
        {
        case 0: break;
        case 1: p.memsz += 100; p.flags = 6; break;                  // .data like
        case 2: p.filesz = 0; break;                                 // .bss like
        case 3: p.type = 0x70000001; break;                          // ARM exception index
        case 4: p.memsz = p.filesz - 1; break;
        case 5: p.type = 0; break;
        case 6: p.filesz = p.memsz = 1; p.vaddr = p.paddr; p.flags = 4; break;
        case 7: p.filesz = 4; p.memsz = 0xFFFFFFFF; p.align = 0x10000; break;
        case 8: p.offset = 0; p.filesz = 52; p.memsz = 52; p.type = 1; break;      // the ELF header itself
        }
        if (mc_thorough() && i == 0) p.paddr = PADDR[mc_choose(2, "first address") * 4];
        putPh(s, phoff + i * ent, p);
    }
    load(s, true);
}
void c09_sizes()      // every length and file offset, at the ends of the address space and odd addresses
{
    u32 len = 1 + mc_choose((unsigned)mc_tier(40, 260), "segment size"), skew = mc_choose(5, "file offset");
    u32 a = mc_choose(5, "address");
    u32 paddr = a == 0 ? 0 : a == 1 ? 0u - len : a == 2 ? 0x08000000 : a == 3 ? 0x10000001 : 0x7FFFFFFFu;
    std::string s = header(52, 32, 2);
    u32 at = 52 + 64 + skew;
    putPh(s, 52, Ph{1, at, 0x30000000, paddr, len, len + (skew & 1), 5, 4});
    putPh(s, 84, Ph{1, at + len, 0x30001000, paddr ^ 0x40000000, 3, 3, 6, 4});
    s.resize(at + len + 3);
    for (u32 i = 0; i < len + 3; i++) s[at + i] = (char)(0x80 + 41 * i + i / 256);
    load(s, true);
}
void c09_large()      // sizes around powers of two
{
    u32 k = mc_choose((unsigned)mc_tier(19, 23), "log2 size"), d = mc_choose(3, "delta"), len = (1u << k) - 1 + d;
    if (!len) mc_prune();
    u32 paddr = mc_choose(2, "address") ? 0u - len : 0x08000000;
    std::string s = header(52, 32, 1);
    putPh(s, 52, Ph{1, 84, paddr + 8, paddr, len, len, 5, 4});
    s.resize(84 + len);
    u32 v = 12345;
    for (u32 i = 0; i < len; i++) { v = v * 1664525u + 1013904223u; s[84 + i] = (char)(v >> 24); }
    load(s, true);
}
void c09_many()       // 1..n segments
{
    static const u32 extra[] = {255, 256, 257, 300, 511, 512, 513, 1000, 2050};
    u32 c = mc_choose((unsigned)mc_tier(40, 301), "count"), n = c == 0 ? extra[mc_choose(mc_thorough() ? 9 : 8, "many")] : c;
    u32 ent = mc_choose(2, "entry size") ? 64 : 32, skip = mc_choose(4, "every other one ignored");        // the even ones, the odd ones, only the last one
    if (c == 0 && skip) n = skip == 3 ? n + 1 : n * 2;        // so many loadable ones
    std::string s = header(52, ent, n);
    u32 at = 52 + n * ent;
    s.resize(at + n * 4 + 4);
    for (u32 i = 0; i < n; i++)
    {
        putPh(s, 52 + i * ent, Ph{n > 1 && ((skip == 1 && i % 2 == 0) || (skip == 2 && i % 2) || (skip == 3 && i + 1 == n)) ? 4u : 1u, at + i * 4, 0, 0x1000000 + i * 0x1000, 4, 4, 5, 4});
        p32(s, at + i * 4, 0xA0000000u + i * 0x10101u);
    }
    load(s, false);
}
void c09_distant()    // program headers and segments anywhere in files of up to several MB
{
    u32 k = 6 + mc_choose((unsigned)mc_tier(15, 19), "log2 distance");
    long d[2];
    for (auto& x : d) x = (long)mc_choose(5, "delta") * 13 - 26;
    u32 ph = (u32)((1l << k) + d[0]), n = 1 + mc_choose(3, "headers"), order = mc_choose(3, "order");
    if (ph < 52) mc_prune();
    // order 0: the segments' bytes follow the headers, 1: they lie before them, 2: as far behind them again
    u32 at = order == 0 ? ph + n * 32 + 7 : order == 1 ? (ph > 52 + 96 ? 52 : 0) : (u32)((2l << k) + d[1]);
    if (!at || (order == 2 && at < ph + n * 32) || (order != 2 && d[1] != 0)) mc_prune();
    std::string s = header(ph, 32, n);
    s.resize(std::max(ph + n * 32, at + n * 24 + 5), (char)0x5C);
    for (u32 i = 0; i < n; i++)
    {
        putPh(s, ph + i * 32, Ph{1, at + i * 24, 0, 0x08000000 + i * 0x100000, 21, 21, 5, 4});
        for (u32 j = 0; j < 24; j++) s[at + i * 24 + j] = (char)(1 + i * 50 + j);
    }
    load(s, true);
}
void c09_overlap()    // program headers that begin inside the ELF header
{
    u32 ph = 1 + mc_choose(51, "place"), ent = 60 + mc_choose(3, "entry size") * 7, n = 1 + mc_choose(2, "headers"), first = mc_choose(2, "first header loads");
    std::string s = header(ph, ent, n);
    u32 at = ph + ent * n + 40;
    s.resize(at + 60);
    for (u32 i = 0; i < 60; i++) s[at + i] = (char)(0x91 + 3 * i);
    std::string t = s;
    putPh(t, ph, Ph{1, at, 0x20000000, 0x08000000, 9, 9, 5, 4});
    for (size_t i = 52; i < ph + 32; i++) s[i] = t[i];         // what of it lies behind the ELF header
    if (first)
    {   // its type (and more) inside the ELF header where the fields there are free
        if (ph == 44 && n == 1) { p32(s, 44, 1); p32(s, 48, at); }
        else if (ph == 48) { p32(s, 48, 1); }
        else if (ph == 46) { p32(s, 46, 1); p16(s, 50, at); p16(s, 52, 0); }
        else if (ph == 32 && n == 1) { p32(s, 32, 1); p32(s, 36, at); }
        else if (ph == 20 && n == 1) { p32(s, 20, 1); p32(s, 24, at); p32(s, 32, 0x08000000); p32(s, 36, 9); }
        else mc_prune();
    }
    if (n == 2) putPh(s, ph + ent, Ph{1, at + 20, 0, 0x10000000, 11, 15, 6, 4});
    load(s, true);
}
void c09_neighbours() // segments that are ignored, with the same places as a loaded one
{
    u32 ent = mc_bool("entry size") ? 40 : 32, at = 52 + 3 * ent, loaded = mc_choose(3, "which is loaded"), kind = mc_choose(6, "kind"), other = mc_choose(6, "kind of the other");
    u32 same = mc_choose(8, "same"), second = mc_bool("both are loaded");
    std::string s = header(52, ent, 3);
    s.resize(at + 64);
    for (u32 i = 0; i < 64; i++) s[at + i] = (char)(0x23 + 5 * i);
    for (u32 i = 0; i < 3; i++)
    {
        bool in = i == loaded || (second && i == (loaded + 1) % 3);
        Ph p{1, at + 3, 0x20000000, 0x08000000, 17, 17, 5, 4};
        if (i != loaded)
        {
            if (in || !(same & 1)) p.paddr += 0x1000 * (i + 1);
            if (!(same & 2)) p.offset += 20;
            if (!(same & 4)) { p.vaddr += 0x1000; p.filesz = p.memsz = 13; }
        }
        static const u32 types[] = {0x70000001, 4, 6, 0, 0x6474E551};
        if (!in)
        {
            u32 k = i == (loaded + 2) % 3 ? other : kind;
            if (k == 5) p.filesz = 0; else p.type = types[k];
        }
        putPh(s, 52 + i * ent, p);
    }
    load(s, true);
}
void c09_fields()     // fields that must not matter
{
    std::string s = header(52, 32, 2);
    putPh(s, 52, Ph{1, 116, 0x20000000, 0x08000000, 9, 9, 5, 4});
    putPh(s, 84, Ph{1, 120, 0x20000100, 0x08000100, 7, 20, 6, 8});
    s.resize(140);
    for (u32 i = 0; i < 24; i++) s[116 + i] = (char)(0x31 + 7 * i);
    static const u32 at[] = {6, 7, 8, 15, 18, 20, 24, 32, 36, 40, 46, 48, 50, 52 + 8, 52 + 24, 52 + 28, 84 + 8, 84 + 24, 84 + 28};
    static const int width[] = {1, 1, 4, 1, 2, 4, 4, 4, 4, 2, 2, 2, 2, 4, 4, 4, 4, 4, 4};
    for (int k = 0; k < mc_tier(2, 2); k++)
    {
        u32 f = mc_choose(19, "field");
        static const u32 vals[] = {0, 1, 0xFFFFFFFF, 0x80000000, 3, 0x08000000};
        u32 v = mc_pick(vals, "value");
        if (width[f] == 1) s[at[f]] = (char)v; else if (width[f] == 2) p16(s, at[f], v); else p32(s, at[f], v);
    }
    load(s, true);
}

// ---------------------------------------------------------------- C10
std::string sample(u32 which)
{
    if (which == 0)
    {
        std::string s = header(52, 32, 1);
        putPh(s, 52, Ph{1, 84, 0, 0x08000000, 20, 20, 5, 4});
        for (int i = 0; i < 20; i++) s += (char)(1 + i);
        return s;
    }
    if (which == 1)
    {   // two headers behind the data, big entries
        std::string s = header(80, 40, 2);
        for (int i = 0; i < 28; i++) s += (char)(0x61 + i);
        putPh(s, 80, Ph{1, 60, 0, 0x1000, 8, 12, 5, 4});
        putPh(s, 120, Ph{1, 68, 0, 0x2000, 12, 12, 6, 4});
        return s;
    }
    std::string s = header(52, 32, 3);
    putPh(s, 52, Ph{0x70000001, 0xFFFFFF00, 0, 0, 0x1000, 0x1000, 4, 4});
    putPh(s, 84, Ph{1, 148, 0, 0x0, 6, 6, 5, 4});
    putPh(s, 116, Ph{1, 154, 0, 0x10000000, 10, 400, 6, 4});
    for (int i = 0; i < 16; i++) s += (char)(0xF0 - i);
    return s;
}
void c10_truncated()
{
    std::string s = sample(mc_choose(3, "file"));
    u32 n = mc_choose((unsigned)s.size() + 2, "length");
    if (n > s.size()) s += std::string(1, 'x'); else s.resize(n);
    load(s, false);
}
void c10_bytes()      // every byte of the headers replaced, alone (quick) or in pairs (thorough)
{
    std::string s = sample(mc_choose(3, "file"));
    size_t limit = s.size() < 148 ? s.size() : 148;
    u32 i = mc_choose((unsigned)limit, "byte");
    uint8_t o = (uint8_t)s[i];
    if (mc_thorough() && mc_bool("all values")) s[i] = (char)mc_choose(256, "value");
    else
    {
        const uint8_t v[] = {0, 1, 2, 0x7F, 0x80, 0xFF, (uint8_t)(o ^ 1), (uint8_t)(o ^ 0x80), (uint8_t)(o + 1), (uint8_t)(o - 1), (uint8_t)(o ^ 0x20), 31, 32, 33};
        s[i] = (char)v[mc_choose(14, "value")];
        if (mc_thorough())
        {
            u32 j = mc_choose((unsigned)limit, "second byte");
            static const uint8_t w[] = {0, 1, 0xFF, 0x80, 0x20, 0x10};
            s[j] = (char)w[mc_choose(6, "second value")];
        }
    }
    load(s, false);
}
void c10_fields()     // pairs (thorough: triples) of header fields with extreme values
{
    u32 f = mc_choose(2, "file");
    std::string s = sample(f);
    u32 ph = g32(s, 28), n = (u32)s.size();
    struct F { u32 at; int w; };
    const F fields[] = {{28, 4}, {42, 2}, {44, 2}, {ph + 4, 4}, {ph + 16, 4}, {ph + 20, 4}, {ph, 4}, {ph + 12, 4}};
    const u32 vals[] = {0, 1, 2, 31, 32, 33, 40, 52, n - 33, n - 32, n - 31, n - 20, n - 1, n, n + 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0u - 20, 0u - 32, 0u - 52, 0u - 84, 0xFFFF0000, 0xFFFF, 0xFFFFFFF0, 3, 0xFFFFFFE0 + 20};
    int count = mc_tier(2, 3);
    u32 lo = 0;
    for (int k = 0; k < count; k++)
    {
        u32 i = lo + mc_choose(8 - lo - (u32)(count - 1 - k), "field");
        lo = i + 1;
        u32 v = vals[mc_choose(mc_thorough() && mc_asan() && count == 3 ? 27 : 27, "value")];
        if (fields[i].w == 2) p16(s, fields[i].at, v); else p32(s, fields[i].at, v);
    }
    load(s, false);
}
void c10_wrap()       // offset + size that wraps around 32 bits to every small value
{
    std::string s = sample(mc_choose(3, "file"));
    u32 which = mc_choose(2, "header"), ph = g32(s, 28) + (which ? g16(s, 42) * (g16(s, 44) - 1) : 0);
    u32 off = mc_choose((unsigned)s.size() + 2, "offset"), sum = mc_choose((unsigned)s.size() + 2, "wrapped end");
    p32(s, ph, 1); p32(s, ph + 4, off); p32(s, ph + 16, sum - off); p32(s, ph + 20, 0xFFFFFFFF);
    if (mc_bool("header offset instead"))
    {
        s = sample(0);
        p32(s, 28, 0u - 32 + sum);
    }
    load(s, false);
}
void c10_counts()     // numbers of program headers that only fit in wide counters, and tables cut short
{
    u32 k = 1 + mc_choose(16, "log2 count"), d = mc_choose(3, "delta"), num = (1u << k) - 1 + d;
    if (num > 0xFFFF) mc_prune();
    u32 ent = mc_choose(2, "entry size") ? 41 : 32, kind = mc_choose(6, "kind");
    std::string s = header(52, ent, num);
    u32 end = 52 + (num - 1) * ent + 32;
    s.resize(end + 24, 0);
    for (u32 i = 0; i < num; i++) p32(s, 52 + i * ent, 4);
    Ph real{1, end, 0, 0x08000000, 20, 20, 5, 4};
    if (kind == 1) putPh(s, 52 + (num - 1) * ent, real);                   // only the last one counts
    if (kind == 2) putPh(s, 52, real);                                     // only the first one
    if (kind == 3) { real.filesz = real.memsz = 25; putPh(s, 52 + (num - 1) * ent, real); }      // the last one is cut short
    if (kind == 4) { putPh(s, 52, Ph{1, 52, 0, 0x08000000, 4, 4, 5, 4}); s.resize(end - 1); }      // the table is cut short
    if (kind == 5) { putPh(s, 52, Ph{1, 52, 0, 0x08000000, 4, 4, 5, 4}); s.resize(52 + ent * (num / 2) + 32 - (num == 1)); }
    load(s, false);
}
void chain(int n)     // files loaded one after the other in one process, some of them malformed
{
    for (int i = 0; i < n; i++)
    {
        std::string s = sample(mc_choose(3, "file"));
        u32 ph = g32(s, 28);
        switch (mc_choose(8, "damage"))
        {
        case 0: break;
        case 1: s.resize(s.size() - 1); break;
        case 2: s.resize(ph + 31); break;
        case 3: s.resize(30); break;
        case 4: s[1] = 'F'; break;
        case 5: p16(s, 42, 31); break;
        case 6: p16(s, 44, g16(s, 44) - 1); break;
        case 7: p32(s, ph + 16, g32(s, ph + 16) - 1); break;
        }
        load(s, true);
    }
}
void c10_again() { chain(mc_tier(2, 3)); }
void c09_again() { chain(mc_tier(2, 3)); }
void c10_foreign()    // short texts and other file kinds
{
    static const char* texts[] = {"", "\x7f", "\x7f" "EL", "\x7f" "ELF", "MZ", "cC\3", "63430300", "hello world, this is not an ELF file but it is long enough to hold a whole header"};
    std::string s = texts[mc_choose(8, "text")];
    s += std::string(mc_choose(60, "padding"), (char)(mc_bool("filler") ? 0xFF : 0));
    load(s, false);
}
}

#if defined(PROP_C09)
MODELS(PROP, {"fields", c09_fields, "fields that must not matter"}, {"tables", c09_tables, "program header tables"}, {"sizes", c09_sizes, "segment sizes and alignments"},
       {"large", c09_large, "sizes around powers of two"}, {"many", c09_many, "1..n segments"}, {"overlap", c09_overlap, "headers inside headers"}, {"neighbours", c09_neighbours, "ignored segments beside loaded ones"}, {"distant", c09_distant, "places in large files"}, {"again", c09_again, "several files in one process"});
#else
MODELS(PROP, {"truncated", c10_truncated, "every length"}, {"wrap", c10_wrap, "overflowing ranges"}, {"foreign", c10_foreign, "other files"}, {"again", c10_again, "several files in one process"}, {"counts", c10_counts, "header counts"}, {"bytes", c10_bytes, "byte replacements"}, {"fields", c10_fields, "extreme fields"});
#endif
