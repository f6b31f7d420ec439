// A GDB client for the scripted console: sends packets one by one, acknowledges answers, records everything.
#pragma once
#include "dumpref.h"

inline std::string packet(const std::string& body)
{
    uint8_t sum = 0;
    for (char c : body) sum = (uint8_t)(sum + (uint8_t)c);
    return "$" + body + "#" + fmt("%02x", sum);
}
inline std::string le32(uint32_t v) { std::string s; for (int i = 0; i < 4; i++) s += fmt("%02x", v >> (8 * i) & 255); return s; }
inline std::string unhex(const std::string& h)
{
    std::string s;
    for (size_t i = 0; i + 1 < h.size(); i += 2) s += (char)strtoul(h.substr(i, 2).c_str(), nullptr, 16);
    return s;
}
struct Reply
{
    std::string acks;                          // '+' and '-' seen before the first packet
    std::vector<std::string> packets;
    std::string last() const { return packets.empty() ? "" : packets.back(); }
    std::string text() const { std::string t; for (auto& p : packets) if (p.size() > 1 && p[0] == 'O' && p != "OK") t += unhex(p.substr(1)); return t; }   // console output
};
struct Rsp
{
    std::vector<std::string> script;           // bytes for the wire, one entry per command
    std::vector<Reply> replies;                // replies[0]: before the first command
    size_t sent = 0, seen = 0;
    int    polls = 0;
    bool   greets = false;                     // the program may speak before GDB's first command
    bool   ended = false;                      // everything was sent and answered, and GDB went away
    std::function<std::string(const Rsp&)> next;   // asked for further commands when the script is used up ("" none)
    void add(const std::string& body) { script.push_back(packet(body)); }
    void parse()
    {
        std::string& o = g_console.out;
        while (seen < o.size())
        {
            char c = o[seen];
            if (c == '+' || c == '-')
            {
                if (replies.back().packets.empty()) replies.back().acks += c;
                else mc_fail("wire-noise", "a stray '%c' between answers", c);
                seen++;
                continue;
            }
            if (c != '$') mc_fail("wire-noise", "byte 0x%02x outside of packets on stdout: %s", (uint8_t)c, hexs(o.data() + seen, std::min<size_t>(o.size() - seen, 40)).c_str());
            size_t e = o.find('#', seen);
            if (e == std::string::npos || e + 2 >= o.size()) return;
            std::string body = o.substr(seen + 1, e - seen - 1);
            if (o.compare(seen, e + 3 - seen, packet(body))) mc_fail("wire-checksum", "bad checksum: %s", o.substr(seen, e + 3 - seen).c_str());
            replies.back().packets.push_back(body);
            seen = e + 3;
            pendingAcks++;
        }
    }
    int pendingAcks = 0;
    bool more()
    {
        parse();
        if (pendingAcks) { pendingAcks--; polls = 0; g_console.in += '+'; return true; }
        if (ended) return false;
        if (g_console.op == 2 && ++polls < 4) return false;            // nothing has arrived yet
        polls = 0;
        if (sent == script.size() && next) { std::string s = next(*this); if (!s.empty()) script.push_back(s); }
        if (sent == script.size()) { ended = true; g_console.eof = true; return false; }
        replies.emplace_back();
        g_console.in += script[sent++];
        return true;
    }
    void attach()
    {
        replies.assign(1, Reply());
        g_console.eof = false;
        g_console.in = "+"; g_console.pos = 0; g_console.out.clear();
        g_console.more = [this] { return more(); };
    }
    // after the session: the answer to the n-th command
    const Reply& answer(size_t n)
    {
        parse();
        if (!greets && (!replies[0].packets.empty() || !replies[0].acks.empty())) mc_fail("unasked", "before GDB's first command it sent %s%s", replies[0].acks.c_str(), replies[0].last().c_str());
        if (n + 1 >= replies.size()) mc_fail("no-answer", "the session ended before command %zu was sent", n);
        return replies[n + 1];
    }
    std::string one(size_t n)                  // ... which must be acknowledged and answered by exactly one packet
    {
        const Reply& r = answer(n);
        if (r.acks != "+" || r.packets.size() != 1) mc_fail("no-answer", "command %zu (%s) got acknowledge \"%s\" and %zu packets", n, script[n].c_str(), r.acks.c_str(), r.packets.size());
        return r.packets[0];
    }
};

// Ends the input of an attached session after n bytes.
inline void cutInput(Rsp& rsp, size_t n)
{
    auto trim = [n] { if (g_console.in.size() > n) g_console.in.resize(n); };
    trim();
    g_console.more = [&rsp, n, trim]
    {
        if (g_console.in.size() >= n) { g_console.eof = true; return false; }
        bool r = rsp.more();
        trim();
        return r;
    };
}

// ---- what a session must say
// GDB's own numbers for the signals; the repository uses the host's, which differ on Linux for two of them (known finding)
struct Signal { const char* name; int gdb, host; };
inline const Signal& signalOf(uint32_t psr)
{
    static const Signal intr{"SIGINT", 2, 2}, segv{"SIGSEGV", 11, 11}, bus{"SIGBUS", 10, 7}, ill{"SIGILL", 4, 4}, trap{"SIGTRAP", 5, 5}, stop{"SIGSTOP", 17, 19};
    switch (psr & 0x1FF)
    {
    case 2: return intr;
    case 3: case 4: return segv;
    case 5: return bus;
    case 6: return ill;
    case 12: return trap;
    default: return stop;
    }
}
// "" when the stop reply is right
inline std::string badStop(const std::string& p, const RegisterContext& c)
{
    const Signal& s = signalOf(c.exceptionPSR);
    std::string rest = fmt("0c:%s;0d:%s;0e:%s;0f:%s;", le32(c.R[12]).c_str(), le32(c.R[13]).c_str(), le32(c.R[14]).c_str(), le32(c.R[15]).c_str());
    if (p == fmt("T%02x", s.gdb) + rest || p == fmt("T%02x", s.host) + rest) return "";
    return fmt("the stop reply is %s, expected T%02x%s (%s)", p.c_str(), s.host, rest.c_str(), s.name);
}
inline std::string shownHex(uint32_t v)
{
    int n = v >> 24 ? 8 : v >> 16 ? 6 : v >> 8 ? 4 : 2;
    return fmt("0x%0*x", n, v);
}
inline std::string faultText(uint32_t psr, const RefMem& m)
{
    static const uint32_t CFSR = 0xE000ED28, HFSR = CFSR + 4, MMFAR = CFSR + 12, BFAR = CFSR + 16;
    std::string out;
    auto section = [&](const char* title, unsigned shift, unsigned width, unsigned validBit, uint32_t far, std::vector<std::pair<unsigned, const char*>> causes)
    {
        uint32_t all = 0;
        if (!m.read(CFSR, 4, all)) return;
        uint32_t bits = all >> shift & ((1u << width) - 1), where = 0;
        if (!bits) return;
        out += fmt("\n**%s Fault**\n  Status Register: %s", title, shownHex(bits).c_str());
        if (validBit < 32 && (bits >> validBit & 1) && m.read(far, 4, where)) out += "\n    Fault Address: " + shownHex(where);
        for (auto& c : causes) if (bits >> c.first & 1) out += std::string("\n    ") + c.second;
    };
    auto mem = [&] { section("MPU", 0, 8, 7, MMFAR, {{5, "FP Lazy Preservation"}, {4, "Stacking Error"}, {3, "Unstacking Error"}, {1, "Data Access"}, {0, "Instruction Fetch"}}); };
    auto bus = [&] { section("Bus", 8, 8, 7, BFAR, {{5, "FP Lazy Preservation"}, {4, "Stacking Error"}, {3, "Unstacking Error"}, {2, "Imprecise Data Access"}, {1, "Precise Data Access"}, {0, "Instruction Prefetch"}}); };
    auto usage = [&] { section("Usage", 16, 16, 99, 0, {{9, "Divide by Zero"}, {8, "Unaligned Access"}, {3, "Coprocessor Access"}, {2, "Invalid Exception Return State"}, {1, "Invalid State"}, {0, "Undefined Instruction"}}); };
    switch (psr & 0x1FF)
    {
    case 3:
        {
            uint32_t h = 0;
            out = "\n**Hard Fault**";
            if (!m.read(HFSR, 4, h)) break;
            out += "\n  Status Register: " + shownHex(h);
            if (h >> 31) out += "\n    Debug Event";
            if (h >> 1 & 1) out += "\n    Vector Table Read";
            if (h >> 30 & 1) { out += "\n    Forced"; mem(); bus(); usage(); }
            break;
        }
    case 4: mem(); break;
    case 5: bus(); break;
    case 6: usage(); break;
    default: return "";
    }
    return out + "\n";
}
inline std::string registersHex(const RegisterContext& c)
{
    std::string s;
    for (int i = 0; i < 19; i++) s += le32(c.R[i]);
    if (c.flags & 1) for (int i = 0; i < 33; i++) s += le32(c.FPR[i]);
    return s;
}
// the bytes the debug core must see for `m addr,len`
inline std::string readable(const RefMem& m, uint32_t a, uint32_t n)
{
    uint32_t v = 0;
    if ((n == 2 || n == 4) && a % n == 0)                     // one access
    {
        if (!m.read(a, n, v)) return "";
        return n == 4 ? le32(v) : le32(v).substr(0, 4);
    }
    std::string s;
    for (uint32_t i = 0; i < n && m.read(a + i, 1, v); i++) s += fmt("%02x", v);
    return s;
}
inline RegisterContext contextFrom(uint32_t seed, uint32_t flags)
{
    RegisterContext c;
    memset(&c, 0, sizeof c);
    auto next = [&] { seed = seed * 1664525u + 1013904223u; return seed ^ (seed >> 15); };
    c.flags = flags;
    for (uint32_t& x : c.R) x = next();
    c.exceptionPSR = next();
    for (uint32_t& x : c.FPR) x = next();
    return c;
}
inline std::string gdbSees(const std::string& bytes)          // 'X' data
{
    std::string s;
    for (char c : bytes) if (c == '#' || c == '$' || c == '}' || c == '*') { s += '}'; s += (char)(c ^ 0x20); } else s += c;
    return s;
}
