// ELF images: builder and independent reading.
#pragma once
#include "memref.h"

typedef uint32_t u32;
inline void p16(std::string& s, size_t at, u32 v) { for (int i = 0; i < 2; i++) s[at + i] = (char)(v >> (8 * i)); }
inline void p32(std::string& s, size_t at, u32 v) { for (int i = 0; i < 4; i++) s[at + i] = (char)(v >> (8 * i)); }
inline u32 g16(const std::string& s, size_t at) { return (uint8_t)s[at] | (u32)(uint8_t)s[at + 1] << 8; }
inline u32 g32(const std::string& s, size_t at) { return g16(s, at) | g16(s, at + 2) << 16; }

struct Ph { u32 type, offset, vaddr, paddr, filesz, memsz, flags, align; };
inline std::string header(u32 phoff, u32 phentsize, u32 phnum)
{
    std::string s(52, 0);
    memcpy(&s[0], "\x7f" "ELF\1\1\1", 7);
    p16(s, 16, 2); p16(s, 18, 40); p32(s, 20, 1); p32(s, 24, 0x10101); p32(s, 28, phoff); p32(s, 32, 0x7777); p32(s, 36, 0x5000200);
    p16(s, 40, 52); p16(s, 42, phentsize); p16(s, 44, phnum); p16(s, 46, 40); p16(s, 48, 9); p16(s, 50, 8);
    return s;
}
inline void putPh(std::string& s, size_t at, const Ph& p)
{
    if (s.size() < at + 32) s.resize(at + 32, (char)0xE7);
    const u32 v[8] = {p.type, p.offset, p.vaddr, p.paddr, p.filesz, p.memsz, p.flags, p.align};
    for (int i = 0; i < 8; i++) p32(s, at + 4 * (size_t)i, v[i]);
}

// Reference: what loading these bytes must do.
struct Why { std::string words; std::vector<u32> numbers; };
struct Verdict { bool format = false; bool bus = false; RefMem mem; std::vector<Why> why; };
// whether a message gives one of the reasons which apply (numbers in any notation)
inline bool givesReason(const std::string& msg, const std::vector<Why>& why)
{
    std::string m = msg;
    for (char& c : m) c = (char)tolower((uint8_t)c);
    auto number = [&](const std::string& d)
    {
        for (size_t at = m.find(d); at != std::string::npos; at = m.find(d, at + 1))
            if ((at == 0 || !isalnum((uint8_t)m[at - 1])) && (at + d.size() == m.size() || !isalnum((uint8_t)m[at + d.size()]))) return true;
        return false;
    };
    for (auto& w : why)
    {
        bool all = m.find(w.words) != std::string::npos;
        for (u32 n : w.numbers)
        {
            char hex[16];
            snprintf(hex, sizeof hex, "0x%x", n);
            all = all && (number(std::to_string(n)) || number(std::to_string((int)n)) || number(hex));
        }
        if (all) return true;
    }
    return false;
}
inline Verdict judge(const std::string& s)
{
    Verdict v;
    auto bad = [&] { v.format = true; return v; };
    auto no = [&](const char* words, std::vector<u32> numbers = {}) { v.why.push_back({words, numbers}); };
    if (s.size() < 52) { no("too short"); return bad(); }
    if (s.compare(0, 4, "\x7f" "ELF", 4)) no("magic");
    if (s[4] != 1) no("32-bit");
    if (s[5] != 1) no("little endian");
    if (g16(s, 16) != 2) no("executable");
    u32 phoff = g32(s, 28), ent = g16(s, 42), num = g16(s, 44);
    if (!phoff) no("offset of 0");
    if (!num) no("count of 0");
    if (ent < 32) no("entry size", {ent, 32});
    if (!v.why.empty()) return bad();
    for (u32 i = 0; i < num; i++)
    {   // all which is wrong with the segments may be given as the reason
        uint64_t at = (uint64_t)phoff + (uint64_t)i * ent;
        if (at + 32 > s.size()) { no("entry", {i, (u32)at}); break; }
        u32 type = g32(s, at), off = g32(s, at + 4), fs = g32(s, at + 16), ms = g32(s, at + 20);
        if (type == 1 && fs && fs <= ms && (uint64_t)off + fs > s.size()) no("offset", {off, off + fs - 1});
    }
    size_t loaded = 0;
    for (u32 i = 0; i < num; i++)
    {
        uint64_t at = (uint64_t)phoff + (uint64_t)i * ent;
        if (at + 32 > s.size()) return bad();
        u32 type = g32(s, at), off = g32(s, at + 4), pa = g32(s, at + 12), fs = g32(s, at + 16), ms = g32(s, at + 20);
        if (type != 1 || fs == 0 || fs > ms) continue;
        if ((uint64_t)off + fs > s.size()) return bad();
        if ((uint64_t)pa + fs > (1ull << 32)) { v.bus = true; return v; }
        v.mem.create(pa, fs);
        v.mem.r.back().data.assign(s.begin() + off, s.begin() + off + fs);
        v.mem.r.back().ro = true;
        loaded++;
    }
    if (!loaded) { no("no entries"); return bad(); }
    return v;
}
