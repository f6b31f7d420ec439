// Reference model of the simulated memory: a boring list of regions.
#pragma once
#include "cutapi.h"

struct RefWatch { int kind; uint32_t addr, size; };      // kind 1 read, 2 write, 3 both, 4 breakpoint
inline bool operator<(const RefWatch& a, const RefWatch& b) { return std::tie(a.kind, a.addr, a.size) < std::tie(b.kind, b.addr, b.size); }
struct RefRegion
{
    uint32_t base = 0, size = 0;
    int      target = -1;            // index of the real region for an alias
    uint32_t redirect = 0;           // address inside the target
    bool     ro = false;
    std::vector<uint8_t>  data;
    std::vector<uint32_t> counts;    // per halfword, read-only regions
    std::map<uint32_t, uint8_t>  farData;      // the same for regions too large to be stored (0 where absent)
    std::map<uint32_t, uint32_t> farCounts;
    bool     large() const { return size > (16u << 20) && data.empty(); }
    uint8_t  byte(uint32_t i) const { if (!large()) return data[i]; auto x = farData.find(i); return x == farData.end() ? 0 : x->second; }
    void     setByte(uint32_t i, uint8_t b) { if (large()) farData[i] = b; else data[i] = b; }
    uint32_t& count(uint32_t i) { return large() ? farCounts[i / 2] : counts[i / 2]; }
    std::set<RefWatch>    watches;
};
struct RefMem
{
    std::vector<RefRegion> r;
    int find(uint32_t& addr, uint32_t size) const
    {
        for (size_t i = 0; i < r.size(); i++)
            if (addr >= r[i].base && (uint64_t)addr + size <= (uint64_t)r[i].base + r[i].size)
            {
                if (r[i].target < 0) return (int)i;
                addr = addr - r[i].base + r[i].redirect;
                return r[i].target;
            }
        return -1;
    }
    void create(uint32_t base, uint32_t size)
    {
        RefRegion x; x.base = base; x.size = size; if (!x.large()) x.data.assign(size, 0); r.push_back(x);
    }
    bool alias(uint32_t base, uint32_t to, uint32_t size)
    {
        uint32_t a = to;
        int      t = find(a, 1);
        if (t < 0) return false;
        uint32_t room = r[(size_t)t].size - (a - r[(size_t)t].base);
        RefRegion x; x.base = base; x.size = size < room ? size : room; x.target = t; x.redirect = a;
        r.push_back(x);
        return true;
    }
    bool makeRO(uint32_t addr)
    {
        int t = find(addr, 1);
        if (t < 0) return false;
        RefRegion& x = r[(size_t)t];
        if (!x.ro) { x.ro = true; if (!x.large()) x.counts.assign(x.size / 2, 0); }
        return true;
    }
    bool read(uint32_t addr, uint32_t size, uint32_t& v) const
    {
        int t = find(addr, size);
        if (t < 0) return false;
        v = 0;
        for (uint32_t i = 0; i < size; i++) v |= (uint32_t)r[(size_t)t].byte(addr - r[(size_t)t].base + i) << (8 * i);
        return true;
    }
    bool poke(uint32_t addr, const uint8_t* p, uint32_t size, bool force)
    {
        int t = find(addr, size);
        if (t < 0 || (r[(size_t)t].ro && !force)) return false;
        RefRegion& x = r[(size_t)t];
        if (!x.large()) memcpy(x.data.data() + (addr - x.base), p, size);
        else for (uint32_t i = 0; i < size; i++) x.setByte(addr - x.base + i, p[i]);
        return true;
    }
    bool write(uint32_t addr, uint32_t size, uint32_t v) { uint8_t b[4]; for (int i = 0; i < 4; i++) b[i] = (uint8_t)(v >> (8 * i)); return poke(addr, b, size, false); }
    bool isRO(const RefRegion& x) const { return x.target >= 0 ? r[(size_t)x.target].ro : x.ro; }
    std::string xml() const
    {
        std::string s = "<?xml version=\"1.0\"?><!DOCTYPE memory-map PUBLIC \"+//IDN gnu.org//DTD GDB Memory Map V1.0//EN\" \"http://sourceware.org/gdb/gdb-memory-map.dtd\"><memory-map>";
        for (auto& x : r)
            s += isRO(x) ? fmt("<memory type=\"flash\" start=\"0x%X\" length=\"0x%X\"> <property name=\"blocksize\">1</property></memory>", x.base, x.size)
                         : fmt("<memory type=\"ram\" start=\"0x%X\" length=\"0x%X\"></memory>", x.base, x.size);
        return s + "</memory-map>";
    }
    uint64_t hash() const
    {
        uint64_t h = 1;
        for (auto& x : r)
        {
            uint32_t k[6] = {x.base, x.size, (uint32_t)x.target, x.redirect, x.ro, 0};
            h = mc_hash(k, sizeof k, h);
            h = mc_hashv(x.data, h); h = mc_hashv(x.counts, h);
            for (auto& d : x.farData) h = mc_hashi(((uint64_t)d.first << 8) | d.second, h);
            for (auto& d : x.farCounts) h = mc_hashi(((uint64_t)d.first << 32) | d.second, h);
            for (auto& w : x.watches) { uint32_t q[3] = {(uint32_t)w.kind, w.addr, w.size}; h = mc_hash(q, sizeof q, h); }
        }
        return h;
    }
};

// one access on the real code; returns the exception code (0 none)
struct Acc { IMemory* m; uint32_t a, size, v; };
inline int realRead(IMemory* m, uint32_t addr, uint32_t size, uint32_t& v)
{
    Acc x{m, addr, size, 0xEEEEEEEE};
    int c = cut_code([](void* p) { Acc& x = *(Acc*)p; x.v = x.size == 1 ? IMemory_Read8(x.m, x.a) : x.size == 2 ? IMemory_Read16(x.m, x.a) : IMemory_Read32(x.m, x.a); }, &x);
    v = x.v;
    return c;
}
inline int realWrite(IMemory* m, uint32_t addr, uint32_t size, uint32_t v)
{
    Acc x{m, addr, size, v};
    return cut_code([](void* p) { Acc& x = *(Acc*)p; if (x.size == 1) IMemory_Write8(x.m, x.a, (uint8_t)x.v); else if (x.size == 2) IMemory_Write16(x.m, x.a, (uint16_t)x.v); else IMemory_Write32(x.m, x.a, x.v); }, &x);
}
inline uint32_t mask(uint32_t size) { return size == 4 ? 0xFFFFFFFFu : (1u << (8 * size)) - 1; }

// Compare every 8/16/32-bit read in [from, from+n) with the model. Returns a hash of what was seen.
inline uint64_t compareImage(IMemory* m, const RefMem& ref, uint32_t from, uint32_t n, const char* when)
{
    uint64_t h = 7;
    for (uint32_t i = 0; i < n; i++)
        for (uint32_t size = 1; size <= 4; size *= 2)
        {
            uint32_t a = from + i, want = 0, got = 0;
            bool ok = ref.read(a, size, want);
            int  c = realRead(m, a, size, got);
            if (ok)
            {
                CHECKK("read-failed", c == 0, "%s: %u-byte read at 0x%08X failed with exception %d but that memory exists", when, size, a, c);
                CHECKK("read-value", got == want, "%s: %u-byte read at 0x%08X returned 0x%X, expected 0x%X", when, size, a, got, want);
            }
            else CHECKK("read-unmapped", c == busErrorException, "%s: %u-byte read at 0x%08X (outside every region) gave exception %d instead of a bus error (value 0x%X)", when, size, a, c, got);
            h = mc_hashi(((uint64_t)got << 8) | (uint64_t)c, h);
        }
    return h;
}
