// C29: the transport between GDB and the debug core.
#include "session.h"
#include <cerrno>

namespace
{
// Byte values that implementations like to mistake for something else, all different.
const uint8_t g_values[] = {0xFF, 0x00, 0x80, 0x7F, 0x0A, 0x0D, 0x1A, 0x04, 0x03, 0xFE, 0x24, 0x01};
uint8_t valueAt(size_t i) { return i < sizeof g_values ? g_values[i] : (uint8_t)(0x30 + i); }

void c29_bytes()      // every value in both directions, with something before and after it
{
    IComm* comm = StandardIComm_Init();
    static const u32 others[] = {0, 0xFF, 0x41};
    u32 v = mc_choose(256, "value"), other = mc_pick(others, "neighbours");
    g_console.in = std::string{(char)other, (char)v, (char)other, (char)v};
    g_console.eof = true;
    for (u32 i = 0; i < 4; i++)
    {
        int c = -1000;
        mc_step();
        Ex e = cut([&] { c = IComm_ReceiveChar(comm); });
        CHECKK("receive", e.code == 0 && (uint8_t)c == (i % 2 ? v : other), "byte 0x%02x was received as %d (exception %d)", i % 2 ? v : other, c, e.code);
    }
    for (u32 i = 0; i < 3; i++)
    {
        int how = i % 2 ? (int)v : (int)(int8_t)v;            // as the debug core may pass it: 0..255 or a signed char
        Ex e = cut([&] { IComm_SendChar(comm, how); });
        CHECKK("send", e.code == 0 && g_console.out.size() == i + 1 && (uint8_t)g_console.out[i] == v, "0x%02x was sent as %s (exception %d)", v, hexs(g_console.out.data(), g_console.out.size()).c_str(), e.code);
    }
    mc_state(v);
    mc_outcome(mc_hash(g_console.out));
}

void c29_connected()  // connected from the first byte on, whatever it is, and for good
{
    static const u32 values[] = {0, 3, 0xFF, 0x24, 0x2B, 0x2D, 0x1A, 0x0A};
    IComm* comm = StandardIComm_Init();
    u32 a = mc_choose(256, "first byte"), n = mc_choose(4, "bytes after it"), poll = mc_choose(3, "asked first");
    std::string bytes(1, (char)a);
    for (u32 i = 0; i < n; i++) bytes += (char)(i == 0 || mc_thorough() ? values[mc_choose(8, "byte")] : values[(a + i) % 8]);
    g_console.eof = false;
    auto connected = [&](bool want, const char* when) {
        int r = -1000;
        Ex e = cut([&] { r = IComm_IsGdbConnected(comm); });
        CHECKK("exception", e.code == 0, "%s: asking for the connection raised or left exception %d", when, e.code);
        CHECKK("connected", (r != FALSE) == want, "%s: %sconnected (%d)", when, r ? "" : "not ", r);
    };
    auto waiting = [&](bool want, const char* when) {
        int r = -1000;
        Ex e = cut([&] { r = IComm_HasReceiveData(comm); });
        CHECKK("waiting", e.code == 0 && (r != FALSE) == want, "%s: data is %sreported (exception %d)", when, r ? "" : "not ", e.code);
    };
    if (poll > 0) connected(false, "before any byte");
    if (poll > 1) { waiting(false, "before any byte"); connected(false, "before any byte, asked again"); }
    for (size_t i = 0; i < bytes.size(); i++)
    {
        g_console.in += bytes[i];
        if (poll) { connected(true, "with a byte waiting"); waiting(true, "with a byte waiting"); }
        int c = -1000;
        mc_step();
        Ex e = cut([&] { c = IComm_ReceiveChar(comm); });
        CHECKK("receive", e.code == 0 && (uint8_t)c == (uint8_t)bytes[i], "0x%02x was received as %d (exception %d)", (uint8_t)bytes[i], c, e.code);
        connected(true, "with all bytes received");
        waiting(false, "with all bytes received");
        connected(true, "with all bytes received, asked again");
        mc_state(mc_hash(bytes.data(), i + 1, poll));
    }
    g_console.eof = true;
    connected(true, "at the end of input");
    mc_outcome(mc_hash(bytes));
}
void c29_histories()
{
    static const int errnos[] = {EIO, EBADF, EINTR, EAGAIN};
    IComm* comm = StandardIComm_Init();
    u32    depth = (u32)mc_tier(mc_asan() ? 3 : 4, 5), arrived = 0, taken = 0, sent = 0;
    bool   ended = false, connected = false;
    int    fail = 0;                                          // errno for the next call
    uint64_t h = 3;
    g_console.eof = false;
    g_console.error = [&](int, int) { int e = fail; fail = 0; return e; };
    for (u32 i = 0; i < depth; i++)
    {
        u32  op = mc_choose(5, "operation");
        bool failing = op != 4 && mc_bool("fails");
        fail = failing ? errnos[(i + op) % 4] : 0;
        // bytes that arrive just before this call
        u32 n = ended ? 0 : mc_choose(3, "bytes arriving");
        if (op == 4 && n) mc_prune();
        for (u32 k = 0; k < n; k++) g_console.in += (char)valueAt(arrived++);
        if (op == 1 && arrived == taken && !failing)          // would wait for ever, unless a byte or the end comes
        {
            if (ended || mc_bool("input ends")) g_console.eof = ended = true;
            else g_console.in += (char)valueAt(arrived++);
        }
        mc_step();
        int r = -1000;
        Ex  e{0, ""};
        switch (op)
        {
        case 0:
            e = cut([&] { r = IComm_HasReceiveData(comm); });
            CHECKK("exception", e.code == 0, "asking for data raised or left exception %d", e.code);
            if (failing) CHECKK("select-error", r == FALSE, "data reported although select failed");
            else if (arrived > taken) CHECKK("waiting", r != FALSE, "%u waiting bytes are not reported", arrived - taken);
            else if (!ended) CHECKK("waiting", r == FALSE, "data is reported though nothing is waiting");
            break;
        case 1:
            e = cut([&] { r = IComm_ReceiveChar(comm); });
            if (failing || arrived == taken) CHECKK("as-data", e.code == fileException, "%s was delivered as %d (exception %d)", failing ? "a read error" : "the end of input", r, e.code);
            else
            {
                CHECKK("receive", e.code == 0 && (uint8_t)r == valueAt(taken), "byte %u, 0x%02x, was received as %d (exception %d)", taken, valueAt(taken), r, e.code);
                taken++;
                connected = true;
            }
            break;
        case 2:
            e = cut([&] { IComm_SendChar(comm, valueAt(sent)); });
            if (failing) CHECKK("write-error", e.code == fileException, "a failed write gave exception %d", e.code);
            else { CHECKK("send", e.code == 0, "exception %d while sending", e.code); sent++; }
            break;
        case 3:
            e = cut([&] { r = IComm_IsGdbConnected(comm); });
            if (failing && !connected && e.code == fileException) break;
            CHECKK("exception", e.code == 0, "asking for the connection raised or left exception %d", e.code);
            if (connected) CHECKK("connected", r != FALSE, "no longer connected after %u bytes", taken);
            else if (failing) CHECKK("connected", r == FALSE, "connected although select failed and nothing was received");
            else if (arrived > taken) CHECKK("connected", r != FALSE, "not connected with %u bytes waiting", arrived);
            else if (!ended) CHECKK("connected", r == FALSE, "connected before any byte");
            break;
        case 4:
            comm = StandardIComm_Init();
            connected = false;
            break;
        }
        fail = 0;
        r = IComm_ShouldStopRun(comm);
        CHECKK("should-stop", r == FALSE, "the transport asks to stop the run");
        std::string want;
        for (u32 k = 0; k < sent; k++) want += (char)valueAt(k);
        CHECKK("sent", g_console.out == want, "stdout has %s, expected %s", hexs(g_console.out.data(), g_console.out.size()).c_str(), hexs(want.data(), want.size()).c_str());
        mc_note("operation %u%s with %u arrived, %u taken -> %d, exception %d", op, failing ? " failing" : "", arrived, taken, r, e.code);
        h = mc_hashi((uint64_t)(uint32_t)r * 64 + (u32)e.code, h);
        u32 st[6] = {arrived, taken, sent, ended, connected, 0};
        mc_state(mc_hash(st, sizeof st));
    }
    mc_outcome(h);
}

void c29_long()       // any number of bytes, calls and errors
{
    static const u32 ns[] = {127, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 32768, 65535, 65536, 65537, 100000};
    u32 n = mc_pick(ns, "bytes"), how = mc_choose(7, "how"), burst = mc_choose(4, "arriving together");
    static const u32 bursts[] = {1, 3, 300, 1000000};
    IComm* comm = StandardIComm_Init();
    auto at = [](u32 i) { return (uint8_t)(i * 7 + i / 256); };
    g_console.eof = false;
    u32 given = 0;
    std::string want;
    int fail = 0;
    g_console.error = [&](int, int) { int e = fail; fail = 0; return e; };
    for (u32 i = 0; i < n; i++)
    {
        int r = -1000;
        if (given == i) for (u32 k = 0; k < bursts[burst] && given < n; k++) g_console.in += (char)at(given++);
        if (how == 1) { Ex e = cut([&] { r = IComm_HasReceiveData(comm); }); CHECKK("waiting", e.code == 0 && r, "byte %u is not reported as waiting", i); }
        if (how == 2 && i) { Ex e = cut([&] { r = IComm_IsGdbConnected(comm); }); CHECKK("connected", e.code == 0 && r, "not connected after %u bytes", i); }
        if (how == 3) { fail = EIO; Ex e = cut([&] { r = IComm_ReceiveChar(comm); }); CHECKK("as-data", e.code == fileException, "a read error was delivered as %d (exception %d)", r, e.code); }
        if (how == 4) { fail = EIO; Ex e = cut([&] { IComm_SendChar(comm, 'x'); }); CHECKK("write-error", e.code == fileException, "a failed write gave exception %d", e.code); }
        if (how == 5) { fail = EBADF; Ex e = cut([&] { r = IComm_HasReceiveData(comm); }); CHECKK("select-error", e.code == 0 && !r, "data reported although select failed"); }
        mc_step();
        fail = 0;
        Ex e = cut([&] { r = IComm_ReceiveChar(comm); });
        if (e.code || (uint8_t)r != at(i)) CHECKK("receive", false, "byte %u of %u, 0x%02x, was received as %d (exception %d)", i, n, at(i), r, e.code);
        if (how != 6) { e = cut([&] { IComm_SendChar(comm, at(i)); }); want += (char)at(i); CHECKK("send", e.code == 0, "exception %d while sending byte %u", e.code, i); }
    }
    int r = -1000;
    Ex e = cut([&] { r = IComm_HasReceiveData(comm); });
    CHECKK("waiting", e.code == 0 && !r, "data is reported after all %u bytes were taken", n);
    e = cut([&] { r = IComm_IsGdbConnected(comm); });
    CHECKK("connected", e.code == 0 && r, "not connected after %u bytes", n);
    g_console.eof = true;
    for (u32 i = 0; i < 300; i++) { e = cut([&] { r = IComm_ReceiveChar(comm); }); CHECKK("as-data", e.code == fileException, "the end of input was delivered as %d at attempt %u (exception %d)", r, i + 1, e.code); }
    CHECKK("sent", g_console.out == want, "%zu bytes of %zu were sent, or others", g_console.out.size(), want.size());
    mc_state(mc_hashi(n, how)); mc_outcome(mc_hashi(n, how * 4 + burst));
}

// ---- whole sessions
const char* const g_bodies[] = {"?", "g", "m20000000,8", "X20000004,3:a}\x03" "b", "c", "m20000000,8", "qXfer:features:read:target.xml:0,40", "s", "M20000000,1:7e", "vCont?", "Z0,0,2"};
void fill29(Session& s)
{
    s.c = contextFrom(4, 1);
    s.c.exceptionPSR = 0x61000003;
    s.create(0x20000000, pattern(16, 3), false);
    s.create(0xE000ED28, std::string("\x82\x80\x00\x00\x00\x00\x00\x40", 8), false);
    for (auto b : g_bodies) s.rsp.add(b);
}
struct Whole { std::string in, out; long reads = 0, writes = 0, selects = 0; };
const Whole& whole()
{
    static Whole w;
    if (w.in.empty())
    {
        Session s;
        fill29(s);
        Whole x;
        g_console.error = [&](int, int op) { (op == 0 ? x.reads : op == 1 ? x.writes : x.selects)++; return 0; };
        s.run();
        x.in = g_console.in; x.out = g_console.out;
        w = x;
        g_console.error = nullptr;
        MemorySim_Uninit(s.m);
    }
    return w;
}
void ended29(Session& s, const Whole& w, const char* what, size_t n)
{
    s.e = cut([&] { mriPlatform_Init(&s.c, s.m); mriPlatform_Run(StandardIComm_Init()); });
    g_console.more = nullptr;
    mc_note("%s %zu: exception %d after %zu bytes of output", what, n, s.e.code, g_console.out.size());
    CHECKK("not-ended", s.e.code == fileException, "%s %zu: the session ended with exception %d", what, n, s.e.code);
    CHECKK("garbled", w.out.compare(0, g_console.out.size(), g_console.out) == 0, "%s %zu: the output is not the beginning of the undisturbed one", what, n);
    mc_step();
    mc_state(mc_hash(g_console.out));
    mc_outcome(g_console.out.size());
}
void c29_eof()
{
    const Whole w = whole();
    size_t n = mc_choose((unsigned)w.in.size() + 1, "bytes before the end");
    Session s;
    fill29(s);
    s.rsp.attach();
    cutInput(s.rsp, n);
    g_console.budget = 100000;
    ended29(s, w, "end of input after byte", n);
    CHECKK("input-lost", g_console.pos == n, "only %zu of %zu bytes were read", g_console.pos, n);
}
void c29_errors()
{
    const Whole w = whole();
    u32  kind = mc_choose(2, "call");
    size_t n = mc_choose((unsigned)(kind ? w.writes : w.reads), "which");
    int    err = mc_bool("errno") ? EIO : EBADF;
    Session s;
    fill29(s);
    s.rsp.attach();
    long left = (long)n;
    bool lasting = mc_bool("lasting");
    g_console.budget = 100000;
    g_console.error = [&](int, int op) { return op != (int)kind ? 0 : left-- == 0 || (lasting && left < 0) ? err : 0; };
    ended29(s, w, kind ? "write error at write" : "read error at read", n);
    if (kind) CHECKK("output-lost", g_console.out.size() == n, "%zu bytes were written before the failing write %zu", g_console.out.size(), n);
    else CHECKK("input-lost", g_console.pos == n, "%zu bytes were read before the failing read %zu", g_console.pos, n);
}
void c29_select()     // failing selects only say that nothing is there
{
    const Whole w = whole();
    size_t n = mc_choose((unsigned)w.selects, "which");
    bool lasting = mc_bool("lasting");
    Session s;
    fill29(s);
    long left = (long)n;
    g_console.budget = 100000;
    g_console.error = [&](int, int op) { return op != 2 ? 0 : left-- == 0 || (lasting && left < 0) ? EBADF : 0; };
    s.rsp.attach();
    ended29(s, w, "select error at select", n);               // at the latest when the input ends
}
}

MODELS(PROP, {"bytes", c29_bytes, "byte values"}, {"connected", c29_connected, "connection state after each byte"}, {"histories", c29_histories, "arrivals, errors and calls"}, {"eof", c29_eof, "end of input"}, {"long", c29_long, "long streams"}, {"errors", c29_errors, "read and write errors"}, {"select", c29_select, "select errors"});
