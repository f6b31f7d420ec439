// C33: the doubles of the console and of the GDB connection which the unit tests of libCrashDebug use.
#include "mc.h"
#include <algorithm>
extern "C"
{
#include <common.h>
#include <Console.h>
#include <mockConsole.h>
}
#include <mockIComm.h>

namespace
{
typedef uint32_t u32;
std::string pattern(u32 n, u32 seed) { std::string s; for (u32 i = 0; i < n; i++) s += (char)(1 + (seed + i * 31) % 254); return s; }

// ---------------------------------------------------------------- the GDB connection
// "$...#" followed by the checksum of what is between them
std::string checksummed(const std::string& in)
{
    std::string out;
    unsigned sum = 0;
    for (char c : in)
    {
        out += c;
        if (c == '$') sum = 0;
        else if (c == '#') out += fmt("%02x", sum & 255);
        else sum += (unsigned char)c;
    }
    return out;
}
const std::vector<std::string> g_texts = {"", "$", "$#", "+$g#", "$m0,4#$?#", "+", std::string(300, '~') + "#", "$\xFF\x80#", "#", "a#b$c#"};
struct Comm
{
    std::string data[2];
    u32  buffer = 2;                              // 2: nothing left
    size_t pos = 0;
    int  delay = 0;
    bool stop = true, connected = true;           // as the program starts
    bool capturing = false;
    size_t size = 0;
    std::string sent;
    bool has()
    {
        if (delay > 0) { delay--; return false; }
        if (buffer > 1) return false;
        if (pos < data[buffer].size()) return true;
        buffer++; pos = 0;
        return false;
    }
    void receive(const std::string& a, const std::string& b) { data[0] = a; data[1] = b; buffer = 0; pos = 0; delay = 0; }
    bool more() { return (buffer == 0 && (pos < data[0].size() || !data[1].empty())) || (buffer == 1 && pos < data[1].size()); }     // else receiving would wait forever
    uint64_t hash() { std::string s = data[0] + "|" + data[1] + "|" + sent; u32 n[] = {buffer, (u32)pos, (u32)delay, stop, connected, capturing, (u32)size}; return mc_hash(n, sizeof n, mc_hash(s)); }
};
struct Held { std::vector<std::vector<char>> kept; const char* operator()(const std::string& s) { kept.emplace_back(s.begin(), s.end()); kept.back().push_back(0); return kept.back().data(); } };
enum { RAW, SUM, DELAY, HAS, RECEIVE, SEND, CAPTURE, TEXT, FLAGS, QUERY, CHECKSUM, UNINIT, OPS };
struct CommRun
{
    Comm m;
    Held h;
    IComm* p = nullptr;
    uint64_t seen = 1;
    CommRun() { cut([&] { p = mockIComm_Get(); }); h.kept.reserve(3000); }
    void has() { bool want = m.has(), got = false; cut([&] { got = IComm_HasReceiveData(p) != 0; }); mc_note("has data -> %d", got); CHECKK("available", got == want, "data are %s reported as available", want ? "not" : "wrongly"); seen = mc_hashi(got, seen); }
    void receive()
    {
        if (!m.more()) mc_prune();
        while (!m.has()) {}
        int want = (unsigned char)m.data[m.buffer][m.pos++], got = -1;
        cut([&] { got = IComm_ReceiveChar(p); });
        mc_note("receive -> %02x", got & 255);
        CHECKK("received", (got & 255) == want, "received %02x instead of %02x", got & 255, want);
        seen = mc_hashi(got, seen);
    }
    void send(int c) { cut([&] { IComm_SendChar(p, c); }); mc_note("send %02x", c & 255); if (m.capturing && m.sent.size() < m.size) m.sent += (char)c; }
    void text()
    {
        if (!m.capturing) mc_prune();
        const char* t = nullptr;
        cut([&] { t = mockIComm_GetTransmittedData(); });
        CHECKK("sent", t && m.sent.c_str() == std::string(t), "captured \"%.80s\" instead of \"%.80s\"", t ? t : "(null)", m.sent.c_str());
    }
    void query()
    {
        int s = 0, c = 0;
        cut([&] { s = IComm_ShouldStopRun(p); c = IComm_IsGdbConnected(p); });
        CHECKK("flags", (s != 0) == m.stop && (c != 0) == m.connected, "stop %d and connected %d instead of %d and %d", s, c, m.stop, m.connected);
    }
    void init(bool sum, u32 a, u32 b)             // b past the end: no second one
    {
        const char* x = h(g_texts[a]); const char* y = b < g_texts.size() ? h(g_texts[b]) : nullptr;
        mc_note("%s data \"%s\", \"%s\"", sum ? "checksummed" : "raw", x, y ? y : "(none)");
        if (sum) cut([&] { mockIComm_InitReceiveChecksummedData(x, y); }); else cut([&] { mockIComm_InitReceiveData(x, y); });
        std::string sx = g_texts[a], sy = y ? g_texts[b] : "$#00";
        m.receive(sum ? checksummed(sx) : sx, y && sum ? checksummed(sy) : sy);
    }
    void capture(u32 n) { cut([&] { mockIComm_InitTransmitDataBuffer(n); }); m.capturing = true; m.size = n; m.sent.clear(); mc_note("capture %u", n); }
    void sums(u32 a)
    {
        const char* x = h(g_texts[a]); const char* r = nullptr;
        cut([&] { r = mockIComm_ChecksumData(x); });
        CHECKK("checksum", r && checksummed(g_texts[a]) == r, "\"%s\" became \"%s\"", x, r ? r : "(null)");
    }
    void uninit()
    {
        cut([&] { mockIComm_Uninit(); });
        m.data[0].clear(); m.data[1].clear(); m.pos = 0; m.connected = true; m.capturing = false; m.sent.clear();
        CHECKK("released", rt_live_allocs() == 0, "%zu blocks stay allocated", rt_live_allocs());
    }
    void end() { uninit(); for (int i = 0; i < 4; i++) { bool got = true; cut([&] { got = IComm_HasReceiveData(p) != 0; }); if (m.delay-- <= 0) CHECKK("available", !got, "data are available after the end"); } mc_outcome(seen); }
};
void c33_comm()       // all sequences of calls
{
    CommRun r;
    u32 depth = (u32)mc_tier(mc_asan() ? 3 : 4, mc_asan() ? 4 : 5);
    static const u32 first[] = {0, 3, 2}, second[] = {99, 3, 0}, sums[] = {2, 8, 9, 7}, caps[] = {0, 1, 3};
    for (u32 i = 0; i < depth; i++)
    {
        mc_step();
        switch (mc_choose(OPS, "call"))
        {
        case RAW: r.init(false, mc_pick(first, "first"), mc_pick(second, "second")); break;
        case SUM: r.init(true, mc_pick(first, "first"), mc_pick(second, "second")); break;
        case DELAY: { int d = (int)mc_choose(3, "delay"); cut([&] { mockIComm_DelayReceiveData(d); }); r.m.delay = d; break; }
        case HAS: r.has(); break;
        case RECEIVE: r.receive(); break;
        case SEND: r.send(mc_bool("high") ? 0xE5 : 'x'); break;
        case CAPTURE: r.capture(mc_pick(caps, "size")); break;
        case TEXT: r.text(); break;
        case FLAGS: { u32 f = mc_choose(4, "flags"); cut([&] { if (f & 2) mockIComm_SetShouldStopRunFlag(f & 1); else mockIComm_SetIsGdbConnectedFlag(f & 1); }); (f & 2 ? r.m.stop : r.m.connected) = f & 1; break; }
        case QUERY: r.query(); break;
        case CHECKSUM: r.sums(mc_pick(sums, "text")); break;
        case UNINIT: r.uninit(); break;
        }
        mc_state(r.m.hash());
    }
    for (int i = 0; i < 12; i++) { if (r.m.more() && i % 3 == 0) r.receive(); else r.has(); }
    r.query();
    if (r.m.capturing) r.text();
    r.end();
}
void c33_streams()    // whole streams, read in every pattern of polls and reads
{
    CommRun r;
    u32 n = (u32)g_texts.size();
    r.init(mc_bool("checksummed"), mc_choose(n, "first"), mc_choose(n + 1, "second"));
    if (u32 d = mc_choose(4, "delay")) { cut([&] { mockIComm_DelayReceiveData((int)d); }); r.m.delay = (int)d; }
    u32 how = mc_choose(16, "polls");
    for (u32 i = 0; i < 1500 && (r.m.more() || i < 20); i++) { if (how >> i % 4 & 1 || !r.m.more()) r.has(); else r.receive(); }
    mc_step();
    mc_state(r.m.hash());
    r.end();
}
void c33_bytes()      // every byte value and every pair of a checksum
{
    CommRun r;
    u32 a = 1 + mc_choose(255, "byte"), len = 1 + mc_choose((unsigned)mc_tier(40, 300), "length");
    std::string body(len, (char)a), in = "$" + body + "#";
    const char* x = r.h(in); const char* c = nullptr;
    cut([&] { c = mockIComm_ChecksumData(x); });
    CHECKK("checksum", c && checksummed(in) == c, "the checksum of %u times %02x is %s", len, a, c ? c + in.size() : "(null)");
    cut([&] { mockIComm_InitReceiveChecksummedData(x); });
    r.m.receive(checksummed(in), "$#00");
    r.capture(len);
    while (r.m.more()) { r.receive(); r.send((int)a); }
    r.text();
    mc_step();
    mc_state(a * 1000 + len);
    r.end();
}
void c33_sizes()      // captured up to the size asked for, never more
{
    CommRun r;
    static const u32 big[] = {255, 256, 257, 1023, 1024, 65535, 65536, 65537};
    for (int k = 0; k < 2; k++)
    {
        u32 c = mc_choose(24, "size"), n = c < 16 ? c : big[c - 16], over = mc_choose(3, "sent");
        r.capture(n);
        std::string s = pattern(n + over * 2, 5);
        if (over) s.resize(n + (over - 1) * 2);
        else s.resize(n / 2);
        for (char ch : s) r.send(ch);
        r.text();
        mc_step();
    }
    mc_state(r.m.hash());
    r.end();
}

void c33_delays()     // exactly as many polls without data as asked for
{
    CommRun r;
    static const u32 big[] = {127, 128, 129, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537, 100000};
    u32 k = mc_choose(30 + (u32)(sizeof big / sizeof *big), "delay"), d = k < 30 ? k : big[k - 30], how = mc_choose(3, "how");
    r.init(how == 1, 3, 99);
    if (how == 2) r.receive();                                // between two bytes
    cut([&] { mockIComm_DelayReceiveData((int)d); });
    for (u32 i = 0; i <= d; i++)
    {
        bool got = false;
        cut([&] { got = IComm_HasReceiveData(r.p) != 0; });
        CHECKK("available", got == (i == d), "poll %u of %u says %d", i, d, got);
    }
    r.receive();
    mc_step();
    mc_state(mc_hashi(d, how));
    r.end();
}
void c33_sent()       // every byte is captured, whatever its value
{
    CommRun r;
    u32 a = mc_choose(256, "byte"), n = 1 + mc_choose(4, "length"), cap = mc_choose(6, "size");
    r.capture(cap);
    std::string want;
    for (u32 i = 0; i < n; i++) for (u32 c : {a, (u32)'x'}) { r.send((int)c); if (want.size() < cap) want += (char)c; }
    const char* t = nullptr;
    cut([&] { t = mockIComm_GetTransmittedData(); });
    CHECKK("sent", t && !memcmp(t, want.data(), want.size()) && !t[want.size()], "byte %02x was not captured as sent", a);
    mc_step();
    mc_state(a * 64 + n * 8 + cap);
    r.end();
}

// ---------------------------------------------------------------- the console
void c33_values()     // every byte, return value and exception
{
    u32 what = mc_choose(4, "what");
    mc_step();
    if (what == 0)                                            // read
    {
        u32 a = mc_choose(256, "byte"), n = mc_choose(5, "length");
        std::vector<char> in;
        for (u32 i = 0; i < n; i++) in.push_back(i % 2 ? 'x' : (char)a);
        const char* b = in.data();
        char none = 0;
        if (!b) b = &none;
        cut([&] { ConsoleMock_ReadStdIn_SetBuffer(b, n); });
        for (u32 i = 0; i < n + 3; i++)
        {
            int got = 99, want = i < n ? (unsigned char)in[i] : 0;
            int e = cut([&] { got = Console_ReadStdIn(); }).code;
            CHECKK("received", !e && (got & 255) == want && (want > 127 || got == want), "byte %u is %02x instead of %02x (exception %d)", i, got, want, e);
        }
        mc_state(a * 8 + n);
    }
    else if (what == 1)                                       // written
    {
        static const u32 caps[] = {0, 1, 2, 3, 4, 5, 255, 256, 257, 65535, 65536, 65537};
        u32 a = mc_choose(256, "byte"), cap = mc_pick(caps, "size");
        if (cap > 5 && a % 64) mc_prune();
        cut([&] { ConsoleMock_WriteStdOut_SetCaptureBufferSize(cap); });
        std::string want;
        for (u32 i = 0; i < cap + 3; i++) { int c = i % 2 ? 'x' : (int)a; cut([&] { Console_WriteStdOut(c); }); if (want.size() < cap) want += (char)c; }
        const char* t = nullptr;
        cut([&] { t = ConsoleMock_WriteStdOut_GetCapturedText(); });
        CHECKK("sent", t && !memcmp(t, want.data(), want.size()) && !t[want.size()], "byte %02x was not captured as written", a);
        mc_state(3000 + a * 16 + cap % 11);
    }
    else if (what == 2)                                       // return value
    {
        static const int vs[] = {0, 1, 2, -1, -2, 127, 128, 255, 256, 65536, 0x7FFFFFFF, -0x7FFFFFFF - 1};
        int v = mc_pick(vs, "value");
        cut([&] { ConsoleMock_HasStdInDataToRead_SetReturn(v); });
        for (int i = 0; i < 4; i++) { int got = 99; int e = cut([&] { got = Console_HasStdInDataToRead(); }).code; CHECKK("available", !e && got == v, "%d instead of %d", got, v); }
        mc_state(mc_hashi((u32)v, 5));
    }
    else                                                      // exceptions, as often as called
    {
        static const int codes[] = {1, 2, 3, 4, 18, 19, 24, 27, 31, 63, 127, 128, 255, 256, 65536};
        int c = mc_pick(codes, "code");
        u32 on = mc_choose(3, "function");
        cut([&] { if (on == 0) ConsoleMock_HasStdInDataToRead_SetException(c); else if (on == 1) ConsoleMock_ReadStdIn_SetException(c); else ConsoleMock_WriteStdOut_SetException(c); });
        for (int i = 0; i < 4; i++)
            for (u32 f = 0; f < 3; f++)
            {
                int e = cut([&] { if (f == 0) Console_HasStdInDataToRead(); else if (f == 1) Console_ReadStdIn(); else Console_WriteStdOut('x'); }).code;
                CHECKK("exception", e == (f == on ? c : 0), "exception %d instead of %d", e, f == on ? c : 0);
            }
        mc_state((u32)c * 4 + on);
    }
    cut([&] { ConsoleMock_Uninit(); });
    CHECKK("released", rt_live_allocs() == 0, "%zu blocks stay allocated", rt_live_allocs());
    mc_outcome(what);
}
void c33_console()    // all sequences of calls
{
    u32 depth = (u32)mc_tier(mc_asan() ? 4 : 5, mc_asan() ? 5 : 6);
    std::string in, out;
    size_t pos = 0, size = 0;
    bool capturing = false;
    int  has = 0, ex[3] = {0, 0, 0};
    Held h;
    h.kept.reserve(16);
    uint64_t seen = 3;
    auto uninit = [&]
    {
        cut([&] { ConsoleMock_Uninit(); });
        in.clear(); pos = 0; capturing = false; out.clear(); has = 0; ex[0] = ex[1] = ex[2] = 0;
        CHECKK("released", rt_live_allocs() == 0, "%zu blocks stay allocated", rt_live_allocs());
    };
    static const int codes[] = {noException, fileException};
    for (u32 i = 0; i < depth; i++)
    {
        mc_step();
        u32 op = mc_choose(10, "call");
        if (op < 3)
        {
            int e = mc_pick(codes, "exception");
            cut([&] { if (op == 0) ConsoleMock_HasStdInDataToRead_SetException(e); else if (op == 1) ConsoleMock_ReadStdIn_SetException(e); else ConsoleMock_WriteStdOut_SetException(e); });
            ex[op] = e;
        }
        else if (op == 3) { has = (int)mc_choose(3, "return"); cut([&] { ConsoleMock_HasStdInDataToRead_SetReturn(has); }); }
        else if (op == 4) { static const char* t[] = {"b\x7F", "a", "cde"}; in = t[mc_choose(3, "input")]; pos = 0; h.kept.emplace_back(in.begin(), in.end()); auto& v = h.kept.back(); v.reserve(8); const char* b = v.data(); size_t n = in.size(); cut([&] { ConsoleMock_ReadStdIn_SetBuffer(b, n); }); }
        else if (op == 5) { if (capturing) mc_prune(); size = mc_choose(3, "size"); cut([&] { ConsoleMock_WriteStdOut_SetCaptureBufferSize(size); }); capturing = true; out.clear(); }
        else if (op == 6) { int got = 99; int e = cut([&] { got = Console_HasStdInDataToRead(); }).code; CHECKK("exception", e == ex[0], "exception %d instead of %d", e, ex[0]); if (!e) CHECKK("available", got == has, "%d instead of %d", got, has); seen = mc_hashi(got, seen); }
        else if (op == 7) { int got = 99; int e = cut([&] { got = Console_ReadStdIn(); }).code; CHECKK("exception", e == ex[1], "exception %d instead of %d", e, ex[1]); if (!e) { int want = pos < in.size() ? in[pos++] : 0; CHECKK("received", got == want, "read %02x instead of %02x", got, want); } seen = mc_hashi(got, seen); }
        else if (op == 8) { int c = 'A' + (int)i; int e = cut([&] { Console_WriteStdOut(c); }).code; CHECKK("exception", e == ex[2], "exception %d instead of %d", e, ex[2]); if (!e && capturing && out.size() < size) out += (char)c; }
        else uninit();
        if (capturing) { const char* t = nullptr; cut([&] { t = ConsoleMock_WriteStdOut_GetCapturedText(); }); CHECKK("sent", t && out == t, "captured \"%s\" instead of \"%s\"", t ? t : "(null)", out.c_str()); }
        u32 st[] = {(u32)pos, (u32)in.size(), (u32)size, capturing, (u32)has, (u32)ex[0], (u32)ex[1], (u32)ex[2]};
        mc_state(mc_hash(st, sizeof st, mc_hash(out)));
    }
    uninit();
    int got = 99;
    int e = cut([&] { got = Console_ReadStdIn() + Console_HasStdInDataToRead(); Console_WriteStdOut('x'); }).code;
    CHECKK("released", !e && got == 0, "after the end: exception %d, %d", e, got);
    mc_outcome(seen);
}
}
MODELS(PROP, {"comm", c33_comm, "all calls"}, {"streams", c33_streams, "whole streams"}, {"bytes", c33_bytes, "checksums"}, {"sizes", c33_sizes, "capture sizes"}, {"delays", c33_delays, "delays"}, {"sent", c33_sent, "every byte sent"}, {"values", c33_values, "console values"}, {"console", c33_console, "all console calls"});
