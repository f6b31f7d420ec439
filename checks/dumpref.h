// CrashCatcher dumps: builder, encoder and what reading them must yield.
#pragma once
#include "memref.h"

typedef uint32_t u32;
struct Region { u32 start; std::string data; };
struct Dump
{
    int v = 3;
    u32 flags = 0, r[19] = {}, xpsr = 0, f[33] = {};
    std::vector<Region> regions;
    std::string tail;                       // bytes after the last region
    bool fpu() const { return flags & 1; }
};
inline void put32(std::string& s, u32 v) { for (int i = 0; i < 4; i++) s += (char)(v >> (8 * i)); }
inline std::string bytesOf(const Dump& d)
{
    std::string s("cC", 2);
    s += (char)d.v; s += '\0';
    put32(s, d.flags);
    for (int i = 0; i < (d.v == 2 ? 17 : 19); i++) put32(s, d.r[i]);
    put32(s, d.xpsr);
    if (d.fpu()) for (u32 x : d.f) put32(s, x);
    for (auto& g : d.regions) { put32(s, g.start); put32(s, g.start + (u32)g.data.size()); s += g.data; }
    return s + d.tail;
}
inline size_t headLen(const Dump& d) { return 8 + (d.v == 2 ? 17 : 19) * 4 + 4 + (d.fpu() ? 132 : 0); }
inline void fill(Dump& d, u32 seed)
{
    auto next = [&] { seed = seed * 1664525u + 1013904223u; return seed ^ (seed >> 15); };
    for (u32& x : d.r) x = next();
    d.xpsr = next();
    for (u32& x : d.f) x = next();
}
inline std::string pattern(u32 n, u32 seed)
{
    std::string s;
    for (u32 i = 0; i < n; i++) s += (char)(seed + 29 * i + i / 200);
    return s;
}
struct Hexing { int letters = 0; u32 width = 32; const char* eol = "\n"; bool last = true; };    // letters 0 upper 1 lower 2 mixed
inline std::string hexOf(const std::string& b, const Hexing& h)
{
    std::string s;
    u32 col = 0, k = 0;
    for (unsigned char c : b)
        for (int n = 1; n >= 0; n--)
        {
            int  x = n ? c >> 4 : c & 15;
            bool up = h.letters == 0 || (h.letters == 2 && (k++ % 3));
            s += "0123456789abcdef"[x] >= 'a' && up ? (char)("0123456789abcdef"[x] - 32) : "0123456789abcdef"[x];
            if (h.width && ++col == h.width) { s += h.eol; col = 0; }
        }
    if (h.last && (col || !h.width)) s += h.eol;
    return s;
}
struct Got { Ex e; RegisterContext c; std::string xml, mem; };
inline std::string regionBytes(IMemory* M, const RefMem& m)
{
    std::string s;
    for (auto& r : m.r)
    {
        if (!r.size) continue;
        const void* q = nullptr;
        int c = cut([&] { q = MemorySim_MapSimulatedAddressToHostAddressForRead(M, r.base, r.size); }).code;
        CHECKK("region-missing", c == 0, "the region at 0x%08X of %u bytes is not mapped", r.base, r.size);
        s.append((const char*)q, r.size);
    }
    return s;
}
inline RefMem memOf(const Dump& d)
{
    RefMem m;
    for (auto& g : d.regions) { m.create(g.start, (u32)g.data.size()); m.r.back().data.assign(g.data.begin(), g.data.end()); }
    return m;
}
inline RegisterContext contextOf(const Dump& d, const RegisterContext& before)
{
    RegisterContext c = before;
    memset(c.R, 0, sizeof c.R);
    c.flags = d.flags;
    memcpy(c.R, d.r, sizeof d.r);
    if (d.v == 2) c.R[17] = c.R[18] = 0xBAADBAAD;
    c.exceptionPSR = d.xpsr;
    if (d.fpu()) memcpy(c.FPR, d.f, sizeof d.f);
    return c;
}
inline std::string describe(const RegisterContext& want, const RegisterContext& got)
{
    std::string s;
    auto one = [&](const char* n, u32 w, u32 g) { if (w != g) s += fmt("%s is 0x%08X, expected 0x%08X; ", n, g, w); };
    one("flags", want.flags, got.flags);
    for (int i = 0; i < 19; i++) one(fmt("R[%d]", i).c_str(), want.R[i], got.R[i]);
    one("exception PSR", want.exceptionPSR, got.exceptionPSR);
    for (int i = 0; i < 33; i++) one(fmt("FPR[%d]", i).c_str(), want.FPR[i], got.FPR[i]);
    return s;
}
