// C23..C28: debugging sessions over the console, on the real platform layer, transport and console code.
#include "session.h"
extern "C" void mriPlatform_setWaitForGdbConnect(int setting);
extern "C"
{
// What the debugger core calls to touch the target's memory.
uint32_t __mriPlatform_MemRead32(const void* pv);
uint16_t __mriPlatform_MemRead16(const void* pv);
uint8_t  __mriPlatform_MemRead8(const void* pv);
void     __mriPlatform_MemWrite32(void* pv, uint32_t value);
void     __mriPlatform_MemWrite16(void* pv, uint16_t value);
void     __mriPlatform_MemWrite8(void* pv, uint8_t value);
int      __mriPlatform_WasMemoryFaultEncountered(void);
}

namespace
{
bool isError(const std::string& s) { return s.size() >= 3 && s[0] == 'E'; }

// ---------------------------------------------------------------- C23
RegisterContext regPattern(u32 k, u32 flags)
{
    RegisterContext c = contextFrom(k * 77 + 5, flags);
    if (k == 1 || k == 2) for (u32 i = 0; i < 19; i++) c.R[i] = k == 1 ? 0 : 0xFFFFFFFF;
    if (k == 1 || k == 2) for (u32 i = 0; i < 33; i++) c.FPR[i] = k == 1 ? 0 : 0xFFFFFFFF;
    if (k == 3) for (u32 i = 0; i < 19; i++) c.R[i] = 0x01020304u + i * 0x10101010u;
    if (k == 3) for (u32 i = 0; i < 33; i++) c.FPR[i] = 0xA1B2C3D4u ^ (i * 0x01010101u);
    return c;
}
const u32 g_flags[] = {0, 1, 0xFFFFFFFE, 3, 0x80000001};
std::string upper(std::string s) { for (char& c : s) c = (char)toupper(c); return s; }
void c23_histories()
{
    Session s;
    s.c = regPattern(mc_choose(5, "registers"), mc_pick(g_flags, "flags"));
    RegisterContext want = s.c;
    u32 n = mc_choose((unsigned)mc_tier(4, 5), "commands");
    std::vector<std::string> reads{registersHex(want)};
    std::vector<int> at;
    s.rsp.add("g"); at.push_back(0);
    for (u32 i = 0; i < n; i++)
    {
        u32 op = mc_choose(6, "command");
        RegisterContext x = regPattern(op == 0 ? 1 : op == 1 ? 2 : op == 2 ? 6 : op == 3 ? 7 : 3, want.flags);
        if (op == 4) { s.rsp.add("?"); }
        else if (op == 5) { s.rsp.add("c"); }
        else
        {
            std::string h = registersHex(x);
            s.rsp.add("G" + (op == 3 ? upper(h) : h));
            at.push_back(-(int)s.rsp.script.size());
            memcpy(want.R, x.R, sizeof want.R);
            if (want.flags & 1) memcpy(want.FPR, x.FPR, sizeof want.FPR);
        }
        s.rsp.add("g"); at.push_back((int)s.rsp.script.size() - 1);
        reads.push_back(registersHex(want));
    }
    s.run();
    size_t r = 0;
    for (int a : at)
        if (a < 0) CHECKK("write-refused", s.rsp.one((size_t)-a - 1) == "OK", "writing the registers was answered with %s", s.rsp.one((size_t)-a - 1).c_str());
        else { CHECKK("registers-read", s.rsp.one((size_t)a) == reads[r], "the registers are reported as\n%s\nexpected\n%s", s.rsp.one((size_t)a).c_str(), reads[r].c_str()); r++; }
    s.sameContext(want);
    mc_state(mc_hash(&want, sizeof want));
    mc_outcome(mc_hash(reads.back()));
}
void c23_single()     // one register different from the others: it shows up in its place, and is set alone
{
    Session s;
    u32 fpu = mc_choose(2, "fpu"), n = fpu ? 52 : 19, which = mc_choose(n, "register"), shift = mc_choose(4, "byte"), v = 0xD7u << (8 * shift);
    s.c = regPattern(mc_choose(2, "background") ? 2 : 1, fpu);
    RegisterContext want = s.c;
    u32& x = which < 19 ? want.R[which] : want.FPR[which - 19];
    x = v;
    if (mc_bool("dumped")) s.c = want;
    else s.rsp.add("G" + registersHex(want));
    s.rsp.add("g");
    s.run();
    CHECKK("registers-read", s.rsp.one(s.rsp.script.size() - 1) == registersHex(want), "the registers are reported as %s, expected %s", s.rsp.one(s.rsp.script.size() - 1).c_str(), registersHex(want).c_str());
    s.sameContext(want);
    mc_state(mc_hash(&want, sizeof want));
    mc_outcome(which * 4 + shift);
}
void c23_short()      // writes that end too early, at every length, and writes with extra digits
{
    Session s;
    u32 flags = mc_pick(g_flags, "flags");
    s.c = regPattern(0, flags);
    RegisterContext before = s.c, x = regPattern(6, flags);
    std::string h = registersHex(x);
    bool extra = mc_bool("too long");
    size_t len = extra ? h.size() + 1 + mc_choose(40, "extra") : mc_choose((unsigned)h.size(), "length");
    s.rsp.add("G" + (extra ? h + std::string(len - h.size(), '5') : h.substr(0, len)));
    s.rsp.add("g");
    s.rsp.add("G" + h);
    s.rsp.add("g");
    s.run();
    std::string a = s.rsp.one(0), g = s.rsp.one(1);
    if (!extra) CHECKK("short-write-accepted", isError(a), "a register write of %zu of %zu digits was answered with %s", len, h.size(), a.c_str());
    else CHECKK("registers-read", g == h, "after a write with extra digits the registers are reported as %s", g.c_str());
    CHECKK("length", g.size() == h.size(), "%zu digits instead of %zu", g.size(), h.size());
    CHECKK("write-refused", s.rsp.one(2) == "OK" && s.rsp.one(3) == h, "after a refused write, a good one was answered with %s and the registers are %s", s.rsp.one(2).c_str(), s.rsp.one(3).c_str());
    CHECKK("state", s.c.flags == flags && s.c.exceptionPSR == before.exceptionPSR, "flags or exception PSR changed");
    if (!(flags & 1)) CHECKK("fpr", !memcmp(s.c.FPR, before.FPR, sizeof before.FPR), "floating point registers changed");
    mc_state(mc_hash(h, len));
    mc_outcome(mc_hash(a));
}
void c23_again()      // sessions one after the other, each with its own registers
{
    for (u32 i = 0; i < (u32)mc_tier(2, 3); i++)
    {
        Session s;
        u32 flags = mc_choose(2, "fpu"), k = mc_choose(4, "registers"), op = mc_choose(3, "command");
        s.c = regPattern(k + 10 * i, flags);
        RegisterContext want = s.c;
        if (op == 1)
        {
            RegisterContext x = regPattern(6 + i, flags);
            memcpy(want.R, x.R, sizeof want.R);
            if (flags) memcpy(want.FPR, x.FPR, sizeof want.FPR);
            s.rsp.add("G" + registersHex(x));
        }
        if (op == 2) s.rsp.add("c");
        s.rsp.add("g");
        s.run();
        std::string g = s.rsp.one(s.rsp.script.size() - 1);
        CHECKK("registers-read", g == registersHex(want), "session %u: the registers are reported as %s, expected %s", i + 1, g.c_str(), registersHex(want).c_str());
        s.sameContext(want);
        mc_state(mc_hash(&want, sizeof want, i));
        mc_outcome(mc_hash(g));
        s.close();
    }
}

const u32 g_times[] = {127, 128, 129, 255, 256, 257, 300, 512, 1000, 32768, 65535, 65536, 65537, 70000};
u32 times() { return g_times[mc_choose((unsigned)mc_tier(9, 14), "times")]; }
void c23_long()       // any number of reads and writes in one session
{
    Session s;
    u32 fpu = mc_choose(2, "fpu"), n = times(), how = mc_choose(4, "commands");
    s.c = regPattern(0, fpu);
    RegisterContext want = s.c;
    for (u32 i = 0; i < n; i++)
    {
        if (how == 0) s.rsp.add("g");
        else if (how == 1) s.rsp.add(i % 2 ? "g" : "c");
        else
        {
            RegisterContext x = contextFrom(i + 3, fpu);
            std::string h = registersHex(x);
            if (how == 3 && i % 2) { s.rsp.add("G" + h.substr(0, i % 100)); continue; }
            memcpy(want.R, x.R, sizeof want.R);
            if (fpu) memcpy(want.FPR, x.FPR, sizeof want.FPR);
            s.rsp.add("G" + h);
        }
    }
    if (how == 3) s.rsp.add("G" + registersHex(want));              // what a refused write leaves behind is not specified
    s.rsp.add("g");
    u32 end = (u32)s.rsp.script.size() - 1;
    s.run();
    std::string first = registersHex(want);
    for (u32 i = 0; i <= end; i++)
    {
        bool read = i == end || how == 0 || (how == 1 && i % 2);
        if (read) CHECKK("registers-read", s.rsp.one(i) == first, "command %u of %u: the registers are reported as %s, expected %s", i + 1, n + 1, s.rsp.one(i).c_str(), first.c_str());
        else if (how == 3 && i % 2 && i < n) CHECKK("short-write-accepted", isError(s.rsp.one(i)), "command %u: a register write that is too short was answered with %s", i + 1, s.rsp.one(i).c_str());
        else if (how >= 2) CHECKK("write-refused", s.rsp.one(i) == "OK", "command %u: writing the registers was answered with %s", i + 1, s.rsp.one(i).c_str());
    }
    s.sameContext(want);
    mc_state(mc_hashi(n, how)); mc_outcome(mc_hashi(n, how * 2 + fpu));
    s.close();
}

// ---------------------------------------------------------------- C24
void stop(Session& s, size_t command, const RegisterContext& c)
{
    std::string b = badStop(s.rsp.answer(command).last(), c);
    CHECKK("stop-reply", b.empty(), "exception PSR 0x%08X: %s", c.exceptionPSR, b.c_str());
}
void c24_numbers()    // every exception number with every single other PSR bit
{
    Session s;
    s.c = contextFrom(3, mc_choose(2, "fpu"));
    u32 n = mc_choose(512, "exception number"), bit = mc_choose((unsigned)(mc_asan() && !mc_thorough() ? 4 : 25), "other bits");
    s.c.exceptionPSR = n | (bit == 0 ? 0 : bit == 1 ? 0xFFFFFE00u : 1u << (bit + 7));
    RegisterContext c = s.c;
    s.rsp.add("?"); s.rsp.add("c"); s.rsp.add("?");
    s.run();
    s.rsp.one(0); s.rsp.one(2);
    for (size_t i = 0; i < 3; i++) stop(s, i, c);
    s.sameContext(c);
    mc_state(s.c.exceptionPSR);
    mc_outcome(mc_hash(s.rsp.one(0)));
}
void c24_psr()        // all values of the low bits together with some of the rest
{
    Session s;
    s.c = contextFrom(4, 0);
    static const u32 ns[] = {0, 2, 3, 4, 5, 6, 12, 15, 16, 258, 259, 260, 261, 262, 268, 511};
    u32 hi = mc_choose(1u << (mc_asan() || !mc_thorough() ? 8 : 12), "high bits");
    s.c.exceptionPSR = mc_pick(ns, "exception number") | (mc_bool("placed low") ? hi << 9 : hi << 20);
    s.rsp.add("?");
    s.run();
    s.rsp.one(0);
    stop(s, 0, s.c);
    mc_state(s.c.exceptionPSR);
    mc_outcome(mc_hash(s.rsp.one(0)));
}
void c24_registers()  // r12, sp, lr and pc of the moment
{
    Session s;
    static const u32 ns[] = {3, 5, 12, 0};
    u32 fpu = mc_choose(2, "fpu");
    s.c = contextFrom(9 + mc_choose(3, "pattern"), fpu);
    s.c.exceptionPSR = 0x61000000 | mc_pick(ns, "exception number");
    RegisterContext c = s.c;
    std::vector<RegisterContext> want;
    std::vector<size_t> at;
    u32 n = mc_choose((unsigned)mc_tier(4, 5), "commands");
    for (u32 i = 0; i <= n; i++)
    {
        static const char* ask[] = {"?", "c", "s", "c8000", "S05"};
        u32 k = i == n ? 0 : mc_choose(7, "command");
        if (k >= 5)
        {
            RegisterContext x = contextFrom(100 * i + k, fpu);
            memcpy(c.R, x.R, sizeof c.R); memcpy(c.FPR, fpu ? x.FPR : c.FPR, sizeof c.FPR);
            s.rsp.add("G" + registersHex(c));
        }
        else { s.rsp.add(ask[k]); want.push_back(c); at.push_back(s.rsp.script.size() - 1); }
    }
    s.run();
    for (size_t i = 0; i < at.size(); i++) stop(s, at[i], want[i]);
    mc_state(mc_hash(&c, sizeof c, n));
    mc_outcome(mc_hash(s.rsp.answer(at.back()).last()));
}
void c24_values()     // r12, sp, lr and pc with special values, and msp and psp too
{
    Session s;
    static const u32 vals[] = {0, 1, 4, 0xFFFFFFFF, 0xFFFFFFFD, 0xFFFFFFF9, 0xFFFFFFF1, 0xFFFFFFE9, 0xFFFFFFED, 0xFFFFFFE1, 0xBAADBAAD, 0xDEADBEEF, 0x20000003, 0x08000101, 0x80000000, 0x000000FF, 0x24242424, 0x23237D7D};
    static const u32 ns[] = {3, 12, 0};
    s.c = contextFrom(9, mc_choose(2, "fpu"));
    s.c.exceptionPSR = 0x61000000 | mc_pick(ns, "exception number");
    u32 a = mc_choose(6, "register"), b = mc_choose(6, "second register");
    static const u32 reg[] = {12, 13, 14, 15, 17, 18};
    s.c.R[reg[a]] = mc_pick(vals, "value");
    if (b > a) s.c.R[reg[b]] = mc_pick(vals, "second value");
    else if (b < a) mc_prune();
    RegisterContext c = s.c;
    s.rsp.add("?"); s.rsp.add("c");
    for (u32 i : {12, 13, 14, 15}) s.rsp.add(fmt("c%x", c.R[i]));
    s.rsp.add(fmt("s%x", c.R[14])); s.rsp.add(fmt("c%x", c.R[15] + 2)); s.rsp.add("?");
    s.run();
    for (size_t i = 0; i < 9; i++) stop(s, i, c);
    s.sameContext(c);
    mc_state(mc_hash(&c, sizeof c, 5));
    mc_outcome(mc_hash(s.rsp.answer(0).last()));
    s.close();
}
void c24_protocol()   // the numbers GDB itself uses for the signals
{
    Session s;
    static const u32 ns[] = {2, 3, 4, 5, 6, 12, 0};
    s.c = contextFrom(2, 0);
    s.c.exceptionPSR = mc_pick(ns, "exception number");
    s.rsp.add("?");
    s.run();
    const Signal& g = signalOf(s.c.exceptionPSR);
    int got = (int)strtol(s.rsp.one(0).substr(1, 2).c_str(), nullptr, 16);
    CHECKK(fmt("host-signal-number-%d", got).c_str(), got == g.gdb, "%s is sent to GDB as signal %d; GDB's number for it is %d", g.name, got, g.gdb);
    mc_state(s.c.exceptionPSR);
    mc_outcome((uint64_t)got);
}
void c24_again()      // sessions one after the other, each with its own exception
{
    static const u32 ns[] = {0, 2, 3, 4, 5, 6, 12, 15, 259};
    for (u32 i = 0; i < 3; i++)
    {
        Session s;
        s.c = contextFrom(7 + i, i == 1);
        s.c.exceptionPSR = mc_pick(ns, "exception number") | (i ? 0x61000000 : 0);
        RegisterContext c = s.c;
        bool go = mc_bool("resume");
        s.rsp.add(go ? "c" : "?");
        s.run();
        if (!go) s.rsp.one(0);
        stop(s, 0, c);
        mc_state(c.exceptionPSR);
        mc_outcome(mc_hash(s.rsp.answer(0).last()));
        s.close();
    }
}

void c24_long()       // any number of stop replies in one session
{
    static const u32 ns[] = {0, 3, 5, 12};
    Session s;
    u32 n = times(), how = mc_choose(5, "commands");
    s.c = contextFrom(7, how % 2);
    s.c.exceptionPSR = mc_pick(ns, "exception number");
    RegisterContext c = s.c;
    std::vector<RegisterContext> want;
    static const char* const cmds[] = {"?", "c", "s", "C05", "s20000000"};
    for (u32 i = 0; i < n; i++)
    {
        if (i % 50 == 49)
        {
            RegisterContext x = contextFrom(i, c.flags);
            memcpy(c.R, x.R, sizeof c.R);
            memcpy(c.FPR, c.flags & 1 ? x.FPR : c.FPR, sizeof c.FPR);
            s.rsp.add("G" + registersHex(c));
        }
        else s.rsp.add(cmds[i % 7 == 6 ? 0 : how]);
        want.push_back(c);
    }
    s.run();
    for (u32 i = 0; i < n; i++) if (i % 50 != 49) stop(s, i, want[i]);
    mc_state(mc_hashi(n, c.exceptionPSR)); mc_outcome(mc_hashi(n, how));
    s.close();
}

// ---------------------------------------------------------------- C25
struct Status { u32 cfsr = 0, hfsr = 0, mmfar = 0x20001234, bfar = 0xA; u32 present = 15; int layout = 0; };
void status(Session& s, const Status& t)
{
    auto word = [](u32 v) { std::string b; put32(b, v); return b; };
    if (t.layout == 0 && t.present == 15) { s.create(0xE000ED28, word(t.cfsr) + word(t.hfsr) + word(0x5555AAAA) + word(t.mmfar) + word(t.bfar), false); return; }
    if (t.layout == 2) { s.create(0xE000ED00, std::string(0x28, '\x11') + word(t.cfsr) + word(t.hfsr) + word(0) + word(t.mmfar) + word(t.bfar).substr(0, 3), false); return; }     // BFAR cut off
    if (t.present & 8) s.create(0xE000ED38, word(t.bfar), false);
    if (t.present & 1) s.create(0xE000ED28, word(t.cfsr), false);
    if (t.present & 2) s.create(0xE000ED2C, word(t.hfsr), true);
    if (t.present & 4) s.create(0xE000ED34, word(t.mmfar), false);
}
void explain(u32 number, const Status& t, bool unwaited = false)
{
    Session s;
    s.c = contextFrom(8, 0);
    s.c.exceptionPSR = 0x21000000u | number;
    status(s, t);
    s.create(0x20000000, "memory", false);
    RegisterContext c = s.c;
    if (unwaited) mriPlatform_setWaitForGdbConnect(FALSE);
    s.rsp.greets = unwaited;
    s.rsp.add("c");
    s.rsp.add("m20000000,6");
    s.run();
    std::string want = faultText(c.exceptionPSR, s.ref), got = s.rsp.answer(0).text();
    CHECKK("fault-text", got == want, "exception %u, HFSR 0x%08X CFSR 0x%08X: the user is told\n%s\nexpected\n%s", number, t.hfsr, t.cfsr, got.c_str(), want.c_str());
    const Reply& r = s.rsp.answer(0);
    for (size_t i = 0; i + 1 < r.packets.size(); i++) CHECKK("not-console", r.packets[i][0] == 'O', "packet %s before the stop reply", r.packets[i].c_str());
    std::string b = badStop(r.last(), c);
    CHECKK("stop-reply", b.empty(), "%s", b.c_str());
    if (unwaited)
    {
        CHECKK("fault-text", s.rsp.replies[0].text() == want, "at the start of the session the user is told %s", s.rsp.replies[0].text().c_str());
        CHECKK("stop-reply", badStop(s.rsp.replies[0].last(), c).empty(), "%s", badStop(s.rsp.replies[0].last(), c).c_str());
    }
    CHECKK("later-read", s.rsp.one(1) == "6d656d6f7279", "reading memory afterwards was answered with %s", s.rsp.one(1).c_str());
    s.sameContext(c);
    s.sameMemory();
    mc_state(mc_hash(want, number));
    mc_outcome(mc_hash(got));
    s.close();
}
void surroundings()   // only the exception and its status registers count, not what else the dump says about exceptions
{
    static const u32 ns[] = {0, 1, 2, 3, 4, 5, 6, 7, 11, 12, 14, 15, 16, 40}, ips[] = {0, 2, 3, 4, 5, 6, 12, 0x1FF};
    static const u32 cf[] = {0, 0x00000001, 0x00000082, 0x00008200, 0x00000400, 0x00010000, 0x02000000, 0x03018181}, hf[] = {0, 2, 0x40000000, 0x80000000};
    Session s;
    u32 n = mc_pick(ns, "exception number"), ip = mc_pick(ips, "number in xpsr"), where = mc_choose(6, "other register");
    s.c = contextFrom(8, mc_choose(2, "fpu"));
    s.c.exceptionPSR = 0x21000000u | n;
    s.c.R[16] = (s.c.R[16] & ~0x1FFu) | ip;
    if (mc_bool("return to a thread")) s.c.R[14] = 0xFFFFFFFD;
    u32 cfsr = mc_pick(cf, "CFSR"), hfsr = mc_pick(hf, "HFSR");
    if (where < 5)
    {
        std::string b(0x40, '\0');
        auto set = [&](u32 at, u32 v) { std::string w; put32(w, v); b.replace(at, 4, w); };
        set(0x28, cfsr); set(0x2C, hfsr); set(0x34, 0x20001234); set(0x38, 0x2000ABCC);
        static const u32 at[] = {0x04, 0x24, 0x30, 0x3C};     // ICSR, SHCSR, DFSR, AFSR
        if (where) for (u32 k : {3u, 4u, 5u, 6u, 12u}) if (ip == k) set(at[where - 1], where == 1 ? k : where == 2 ? 0x0007000F : 0x1F);
        s.create(0xE000ED00, b, false);
    }
    else if (cfsr || hfsr) mc_prune();                        // no status registers at all
    RegisterContext c = s.c;
    s.rsp.add("?"); s.rsp.add("c"); s.rsp.add("s");
    s.run();
    std::string want = faultText(c.exceptionPSR, s.ref);
    for (size_t i = 0; i < 3; i++)
    {
        std::string bad = badStop(s.rsp.answer(i).last(), c);
        CHECKK("stop-reply", bad.empty(), "exception %u, number %u in xpsr, CFSR 0x%08X HFSR 0x%08X: %s", n, ip, cfsr, hfsr, bad.c_str());
        if (i) CHECKK("fault-text", s.rsp.answer(i).text() == want, "exception %u, number %u in xpsr, CFSR 0x%08X HFSR 0x%08X: the user is told\n%s\nexpected\n%s", n, ip, cfsr, hfsr, s.rsp.answer(i).text().c_str(), want.c_str());
    }
    s.sameContext(c);
    mc_state(mc_hashi(n * 512 + ip, mc_hashi(cfsr, hfsr + where)));
    mc_outcome(mc_hash(s.rsp.one(0), mc_hash(want)));
}
void c25_again()      // sessions one after the other, each with its own status registers
{
    static const u32 ns[] = {3, 4, 5, 6, 0}, cf[] = {0x01010101, 0x00008282, 0x00000000, 0x03008080, 0x02000000};
    for (u32 i = 0; i < 2; i++)
    {
        Status t;
        u32 n = mc_pick(ns, "exception number");
        t.cfsr = mc_pick(cf, "CFSR");
        static const u32 present[] = {15, 0, 3, 1, 12};
        t.present = mc_pick(present, "registers present");
        if (t.present != 15) t.layout = 1;
        t.hfsr = mc_bool("forced") ? 0x40000002 : 0x80000000;
        t.mmfar += i * 0x100; t.bfar += i * 0x777;
        explain(n, t);
    }
}
void c25_long()       // the same text at each of any number of stops
{
    static const u32 ns[] = {3, 4, 5, 6, 15};
    u32 n = mc_pick(ns, "exception number"), k = times();
    Session s;
    s.c = contextFrom(8, 0);
    s.c.exceptionPSR = 0x21000000u | n;
    RegisterContext c = s.c;
    Status t;
    t.cfsr = 0x03028282; t.hfsr = 0x40000002;
    t.present = mc_bool("some missing") ? 3 : 15;
    if (t.present != 15) t.layout = 1;
    status(s, t);
    for (u32 i = 0; i < k; i++) s.rsp.add(i % 3 == 2 ? "s" : "c");
    s.run();
    std::string want = faultText(c.exceptionPSR, s.ref);
    for (u32 i = 0; i < k; i++)
    {
        std::string got = s.rsp.answer(i).text();
        CHECKK("fault-text", got == want, "exception %u, stop %u: the user is told\n%s\nexpected\n%s", n, i + 1, got.c_str(), want.c_str());
        std::string b = badStop(s.rsp.answer(i).last(), c);
        CHECKK("stop-reply", b.empty(), "stop %u: %s", i + 1, b.c_str());
    }
    s.sameContext(c);
    s.sameMemory();
    mc_state(mc_hashi(n, k)); mc_outcome(mc_hash(want, k));
    s.close();
}
void c25_updated()    // the text follows the status registers when GDB changes them
{
    static const u32 ns[] = {3, 4, 5, 6}, cf[] = {0x01010101, 0x00008282, 0x00000000, 0x03008080, 0x02000000};
    u32 n = mc_pick(ns, "exception number"), k = 1 + mc_choose((unsigned)mc_tier(3, 4), "changes");
    Session s;
    s.c = contextFrom(8, 0);
    s.c.exceptionPSR = 0x21000000u | n;
    RegisterContext c = s.c;
    Status t;
    t.cfsr = mc_pick(cf, "CFSR"); t.hfsr = 0x40000000;
    status(s, t);
    std::vector<std::string> want;
    for (u32 i = 0; i < k; i++)
    {
        u32 which = mc_choose(4, "register"), a = 0xE000ED28 + (which < 2 ? which * 4 : 4 + which * 4);
        u32 v = which == 0 ? mc_pick(cf, "new CFSR") : which == 1 ? (mc_bool("forced") ? 0xC0000002 : 0x80000000) : 0x20000000u + i * 16 + which;
        s.rsp.add(fmt("M%x,4:", a) + le32(v));
        s.rsp.add("c");
        s.ref.write(a, 4, v);
        want.push_back(faultText(c.exceptionPSR, s.ref));
    }
    s.run();
    for (u32 i = 0; i < k; i++)
    {
        CHECKK("write", s.rsp.one(2 * i) == "OK", "writing the status register was answered with %s", s.rsp.one(2 * i).c_str());
        std::string got = s.rsp.answer(2 * i + 1).text();
        CHECKK("fault-text", got == want[i], "after change %u the user is told\n%s\nexpected\n%s", i + 1, got.c_str(), want[i].c_str());
        CHECKK("stop-reply", badStop(s.rsp.answer(2 * i + 1).last(), c).empty(), "%s", badStop(s.rsp.answer(2 * i + 1).last(), c).c_str());
    }
    s.sameContext(c);
    s.sameMemory();
    mc_state(s.ref.hash());
    mc_outcome(mc_hash(want.back()));
}
const u32 g_usage[] = {0, 1, 2, 3, 8, 9};
u32 usageBits(u32 k) { u32 v = 0; for (u32 i = 0; i < 6; i++) if (k >> i & 1) v |= 1u << g_usage[i]; return v; }
void c25_mpu()   { Status t; t.cfsr = mc_choose(256, "MMFSR"); if (mc_bool("others set")) t.cfsr |= 0x030F8200; t.mmfar = mc_bool("address") ? 0xFEDCBA98 : 0; explain(4, t, mc_bool("not waiting")); }
void c25_bus()   { Status t; t.cfsr = mc_choose(256, "BFSR") << 8; if (mc_bool("others set")) t.cfsr |= 0x03080092; t.bfar = mc_bool("address") ? 0x00ABCDEF : 0x100; explain(5, t); }
void c25_usage() { Status t; t.cfsr = (usageBits(mc_choose(64, "UFSR")) | (mc_bool("reserved bits") ? 0xFC00 : 0)) << 16; if (mc_bool("others set")) t.cfsr |= 0x82A1; explain(6, t); }
void c25_hard()
{
    Status t;
    u32 h = mc_choose(16, "HFSR");
    t.hfsr = (h & 1) << 31 | (h >> 1 & 1) << 30 | (h >> 2 & 1) << 1 | (h >> 3 & 1 ? 0x3FFFFFF1u : 0);
    static const u32 eight[] = {0, 1, 2, 4, 8, 16, 32, 64, 128, 0xFF}, six[] = {0, 1, 2, 4, 8, 256, 512, 0xFFFF};
    t.cfsr = mc_pick(eight, "MMFSR") | mc_pick(eight, "BFSR") << 8;
    if (mc_asan() && !mc_thorough()) t.cfsr |= six[mc_choose(2, "UFSR") * 7] << 16;
    else t.cfsr |= mc_pick(six, "UFSR") << 16;
    explain(3, t);
}
void c25_forced()     // pairs of status bytes in full
{
    Status t;
    t.hfsr = 0x40000000;
    u32 which = mc_choose(3, "pair"), k = (u32)mc_tier(32, 128);
    u32 a = mc_choose(k, "first"), b = mc_choose(which == 0 ? k : 64, "second");
    auto spread = [&](u32 x) { return mc_thorough() ? (x & 63) | (x & 64) << 1 : (x & 15) | (x & 16) << 3; };
    if (which == 0) t.cfsr = spread(a) | spread(b) << 8;
    else t.cfsr = (which == 1 ? spread(a) : spread(a) << 8) | usageBits(b) << 16;
    explain(3, t);
}
void c25_missing()    // registers that were not dumped, or only in part
{
    Status t;
    static const u32 ns[] = {3, 4, 5, 6, 2, 0, 12};
    u32 n = mc_pick(ns, "exception number");
    t.present = mc_choose(16, "registers present");
    t.layout = 1 + (int)mc_choose(2, "layout");
    if (t.layout == 2 && t.present != 15) mc_prune();
    static const u32 cf[] = {0x00010101, 0x00008282, 0x03008080, 0, 0xFFFFFFFF};
    t.cfsr = mc_pick(cf, "CFSR");
    t.hfsr = mc_bool("forced") ? 0x40000002 : 0x80000000;
    explain(n, t, mc_bool("not waiting"));
}
void c25_others()     // all other exceptions say nothing, whatever the status registers hold
{
    Status t;
    t.cfsr = t.hfsr = 0xFFFFFFFF;
    u32 n = mc_choose(512, "exception number");
    explain(n, t, mc_bool("not waiting"));
}
void c25_addresses()  // every width of shown numbers
{
    Status t;
    u32 v = 1u << mc_choose(32, "bit") ;
    if (mc_bool("and all below")) v |= v - 1;
    t.cfsr = 0x8180; t.mmfar = t.bfar = v;
    t.hfsr = mc_bool("status") ? v | 0x40000000 : 0x40000000;
    explain(3 + mc_choose(3, "exception number"), t);
}

// ---------------------------------------------------------------- C26, C27
struct Program { u32 pc, instruction, psr; };     // the instruction the program stopped at
void layout26(Session& s, const Program* p)
{
    auto with = [&](u32 base, std::string b) { if (p && p->pc >= base && p->pc - base < b.size()) { u32 at = (p->pc & ~1u) - base; b[at] = (char)p->instruction; b[at + 1] = (char)(p->instruction >> 8); } return b; };
    s.create(0x08000000, with(0x08000000, pattern(16, 40)), true);
    s.create(0x20000000, with(0x20000000, pattern(12, 80)), false);
    s.create(0xE000ED28, pattern(20, 3), false);
    s.alias(0x30000000, 0x20000004, 6);
}
struct Cmd { const char* body; char kind; };      // s stop reply, o OK, e empty, E error, . anything, w explicit write
const std::vector<Cmd> g_cmds = {
    {"s", 's'}, {"c", 's'}, {"?", '?'}, {"Z1,8000002,2", 'o'}, {"Z2,20000000,4", 'o'}, {"Z4,30000000,2", 'o'}, {"z1,8000002,2", 'o'}, {"M20000001,2:aabb", 'w'}, {"G", 'w'}, {"m8000000,4", 'r'}, {"m8000002,2", 'r'},
    {"c8000000", 's'}, {"s20000000", 's'}, {"S0b", 's'}, {"C05;8000004", 's'}, {"Z0,8000000,2", '.'}, {"Z3,20000000,4", 'o'}, {"z3,20000000,4", 'o'}, {"Z1,90000000,2", 'o'}, {"Z1,xyz", 'E'}, {"qSupported:x", '.'}, {"qXfer:features:read:target.xml:0,40", '.'},
    {"qXfer:memory-map:read::0,fff", '.'}, {"vCont?", 'e'}, {"H", 'e'}, {"X20000004,3:abc", 'w'}, {"m90000000,4", 'E'}, {"M8000000,1:55", 'E'}, {"m20000000,c", 'r'}, {"D", '.'}, {"", '.'}, {"F-1,4,C", '.'}, {"qC", '.'}, {"z2,20000000,4", 'o'}, {"Z4,20000002,8", 'o'}, {"C", '.'}, {"Sxx", '.'}};
void c26_session(u32 depth, u32 seed, u32 fpu, const std::vector<u32>* fixed = nullptr, const Program* stopped = nullptr)
{
    Session s;
    static const u32 ns[] = {0x61000003, 0x00000005};
    s.c = contextFrom(seed, fpu);
    s.c.exceptionPSR = ns[fpu];
    if (stopped) { s.c.exceptionPSR = stopped->psr; s.c.R[15] = stopped->pc; }
    layout26(s, stopped);
    RegisterContext c = s.c;
    u32 n = fixed ? (u32)fixed->size() : 1 + mc_choose(depth, "commands");
    u32 count = (u32)g_cmds.size();
    struct Expect { char kind; std::string value; RegisterContext c; };
    std::vector<Expect> want;
    for (u32 i = 0; i < n; i++)
    {
        const Cmd& k = g_cmds[fixed ? (*fixed)[i] : mc_choose(count, "command")];
        std::string body = k.body;
        Expect x{k.kind, "", c};
        if (k.kind == 'r')
        {
            u32 a = 0, len = 0;
            sscanf(k.body, "m%x,%x", &a, &len);
            x.value = readable(s.ref, a, len);
        }
        if (k.kind == 'w')
        {
            if (body == "G")
            {
                RegisterContext r = contextFrom(500 + i, fpu);
                memcpy(c.R, r.R, sizeof c.R);
                if (fpu) memcpy(c.FPR, r.FPR, sizeof c.FPR);
                body += registersHex(c);
            }
            else if (body[0] == 'M') s.ref.poke(0x20000001, (const uint8_t*)"\xAA\xBB", 2, false);
            else s.ref.poke(0x20000004, (const uint8_t*)"abc", 3, false);
        }
        s.rsp.add(body);
        want.push_back(x);
    }
    s.run();
    std::string text = faultText(c.exceptionPSR, s.ref);
    for (u32 i = 0; i < n; i++)
    {
        const Reply& r = s.rsp.answer(i);
        std::string  p = r.last();
        switch (want[i].kind)
        {
        case 's': CHECKK("resume", r.text() == text && badStop(p, want[i].c).empty(), "%s: text \"%s\", %s", g_cmds[0].body, r.text().c_str(), badStop(p, want[i].c).c_str()); break;
        case '?': CHECKK("resume", badStop(s.rsp.one(i), want[i].c).empty(), "%s", badStop(p, want[i].c).c_str()); break;
        case 'o': case 'w': CHECKK("answer", s.rsp.one(i) == "OK", "command %u was answered with %s instead of OK", i, p.c_str()); break;
        case 'e': CHECKK("answer", s.rsp.one(i).empty(), "command %u was answered with %s", i, p.c_str()); break;
        case 'E': CHECKK("answer", isError(s.rsp.one(i)), "command %u was answered with %s instead of an error", i, p.c_str()); break;
        case 'r': CHECKK("read", s.rsp.one(i) == want[i].value, "command %u was answered with %s instead of %s", i, p.c_str(), want[i].value.c_str()); break;
        }
    }
    s.sameContext(c);
    s.sameMemory();
    compareImage(s.m, s.ref, 0x07FFFFFE, 20, "afterwards");          // nothing that was set triggers
    compareImage(s.m, s.ref, 0x1FFFFFFF, 14, "afterwards");
    u32 t = 0;
    for (u32 i = 0; i < 12; i++) { realWrite(s.m, 0x20000000 + i, 1, 0); t |= (u32)cut([&] { CHECKK("watchpoint", MemorySim_WasWatchpointEncountered(s.m) == 0, "a watchpoint was set in the simulated memory"); }).code; }
    mc_state(mc_hash(&c, sizeof c, s.ref.hash()));
    mc_outcome(mc_hash(s.rsp.answer(n - 1).last(), t));
    s.close();
}
void c26_commands() { c26_session((u32)mc_tier(mc_asan() ? 2 : 3, mc_asan() ? 3 : 4), 21, mc_choose(2, "fpu")); }
void c26_again()      // what happened in a session does not matter for the next one
{
    c26_session((u32)mc_tier(1, mc_asan() ? 1 : 2), 21, mc_choose(2, "fpu"));
    c26_session(1, 77, mc_choose(2, "fpu"));
}
void c26_program()    // at whatever instruction the program stopped: breakpoints and semihosting calls do not advance
{
    static const u32 at[] = {0x08000000, 0x08000006, 0x0800000E, 0x20000002, 0x20000003, 0x30000002, 0x90000000}, in[] = {0xBE00, 0xBEAB, 0xBEFF, 0xDFAB, 0xE7FE, 0x0000, 0xFFFF}, ps[] = {12, 3, 0, 0x6100000C};
    Program p{mc_pick(at, "pc"), mc_pick(in, "instruction"), mc_pick(ps, "psr")};
    static const u32 of[] = {0, 1, 13, 14, 11, 2, 30, 8, 7};                  // resuming in every form, and what could count as changing the PC
    std::vector<u32> list;
    u32 n = 1 + mc_choose((unsigned)mc_tier(mc_asan() ? 1 : 3, mc_asan() ? 2 : 4), "commands");
    for (u32 i = 0; i < n; i++) list.push_back(mc_pick(of, "command"));
    list.push_back(0);
    list.push_back(2);
    c26_session(0, 21, mc_asan() ? 0 : mc_choose(2, "fpu"), &list, &p);
}
void c26_long()       // one command any number of times, with another one in between or at the end
{
    u32 n = times(), a = mc_choose((unsigned)g_cmds.size(), "command"), how = mc_choose(3, "how"), b = how ? mc_choose((unsigned)g_cmds.size(), "other") : a, fpu = mc_choose(2, "fpu");
    if (how && n != 256 && !(mc_thorough() && n < 600 && !mc_asan())) mc_prune();
    if (mc_asan() && n > 300 && a > 12) mc_prune();
    std::vector<u32> list;
    for (u32 i = 0; i < n; i++) { list.push_back(a); if (how == 2) list.push_back(b); }
    list.push_back(b);
    list.push_back(0);
    list.push_back(2);
    c26_session(0, 21, fpu, &list);
}

void c26_resumeat()   // continuing or stepping at any address, in every form
{
    Session s;
    u32 fpu = mc_choose(2, "fpu");
    s.c = contextFrom(31, fpu);
    s.c.exceptionPSR = 0x61000003;
    layout26(s, nullptr);
    RegisterContext c = s.c;
    static const u32 more[] = {0, 2, 4, 0xFFFFFFFF, 0xFFFFFFFE, 0x08000000, 0x08000001, 0x20000000, 0x90000000, 0xFFFFFFF9, 0x80000000, 0x30000000};
    u32 k = mc_choose(19 * 4 + 12, "address"), at = k < 76 ? c.R[k / 4] + (k % 4 == 0 ? 0 : k % 4 == 1 ? 2 : k % 4 == 2 ? 1 : 0xFFFFFFFE) : more[k - 76];
    static const char* forms[] = {"c%x", "s%x", "C05;%x", "S0b;%x"};
    u32 n = 1 + mc_choose(2, "times"), f = mc_choose(4, "form"), g = n == 2 ? mc_choose(4, "second form") : f;
    s.rsp.add(fmt(forms[f], at));
    if (n == 2) s.rsp.add(fmt(forms[g], at));
    s.rsp.add("g"); s.rsp.add("c"); s.rsp.add("?");
    s.run();
    for (size_t i = 0; i < n; i++) { std::string b = badStop(s.rsp.answer(i).last(), c); CHECKK("resume", b.empty(), "resuming at 0x%08X: %s", at, b.c_str()); }
    CHECKK("registers-read", s.rsp.one(n) == registersHex(c), "after resuming at 0x%08X the registers are reported as %s", at, s.rsp.one(n).c_str());
    s.sameContext(c);
    s.sameMemory();
    mc_state(mc_hashi(at, f * 4 + g)); mc_outcome(mc_hashi(k, n));
    s.close();
}

void layout27(Session& s, u32 k)
{
    if (k == 0) { s.create(0x20000002, pattern(13, 11), false); s.create(0x2000000F, pattern(6, 99), true); s.alias(0x20000018, 0x20000004, 5); }
    else if (k == 1) { s.create(0xFFFFFFF3, pattern(13, 60), false); s.create(0xFFFFFFE8, pattern(5, 33), true); }
    else if (k == 2) { s.create(0, pattern(7, 2), true); s.create(7, pattern(6, 200), false); s.create(10, pattern(9, 120), false); }
    else { s.create(0x20000004, pattern(4, 70), false); s.create(0x20000008, pattern(4, 5), false); s.create(0x2000000C, pattern(2, 5), true); s.create(0x20000010, pattern(3, 9), false); s.alias(0x20000013, 0x20000010, 99); }
}
const u32 g_from[] = {0x1FFFFFFE, 0xFFFFFFE5, 0, 0x20000000};
const u32 g_span[] = {34, 27, 24, 27};
struct Access { char kind; u32 a, n; u32 data; };
// applies the access to the model; checks the reply later
struct Outcome { bool checked; bool error; std::string value; };
Outcome model(Session& s, const Access& x, std::string& body, std::vector<std::pair<u32, u32>>& loose)
{
    if (x.kind == 'm') { body = fmt("m%x,%x", x.a, x.n); std::string v = readable(s.ref, x.a, x.n); return {x.n != 0, v.empty(), v}; }
    std::string d = pattern(x.n, x.data), h;
    for (char c : d) h += fmt("%02x", (uint8_t)c);
    body = fmt("%c%x,%x:", x.kind, x.a, x.n) + (x.kind == 'M' ? h : gdbSees(d));
    bool ok = true;
    if ((x.n == 2 || x.n == 4) && x.a % x.n == 0) ok = s.ref.poke(x.a, (const uint8_t*)d.data(), x.n, false);
    else
        for (u32 i = 0; i < x.n && ok; i++) ok = s.ref.poke(x.a + i, (const uint8_t*)&d[i], 1, false);
    (void)loose;
    return {true, !ok, "OK"};
}
void check27(Session& s, u32 i, const Outcome& o)
{
    std::string p = s.rsp.one(i);
    if (!o.checked) return;
    if (o.error) CHECKK("access-answer", isError(p), "%s was answered with %s instead of an error", s.rsp.script[i].c_str(), p.c_str());
    else CHECKK("access-answer", p == o.value, "%s was answered with %s instead of %s", s.rsp.script[i].c_str(), p.c_str(), o.value.c_str());
}
void c27_access()
{
    Session s;
    u32 k = mc_choose(4, "layout"), n = 1 + mc_choose((unsigned)mc_tier(mc_asan() ? 1 : 2, 2), "accesses");
    s.c = contextFrom(1, 0);
    RegisterContext c = s.c;
    layout27(s, k);
    std::vector<Outcome> want;
    std::vector<std::pair<u32, u32>> loose;
    for (u32 i = 0; i < n; i++)
    {
        static const char kinds[] = {'m', 'M', 'X'};
        Access x{kinds[mc_choose(3, "kind")], 0, 0, 50 + 100 * i};
        if (i == 0) { x.a = g_from[k] + mc_choose(g_span[k], "address"); x.n = mc_choose(mc_asan() && !mc_thorough() ? 6 : 14, "length"); }
        else if (mc_thorough()) { x.a = g_from[k] + mc_choose(g_span[k], "address"); x.n = 1 + mc_choose(5, "length"); }
        else { static const u32 at[] = {0, 4, 8, 12, 16, 18}, len[] = {1, 4, 9}; x.a = g_from[k] + mc_pick(at, "address"); x.n = mc_pick(len, "length"); }
        std::string body;
        want.push_back(model(s, x, body, loose));
        s.rsp.add(body);
    }
    s.run();
    for (u32 i = 0; i < n; i++) check27(s, i, want[i]);
    s.sameMemory();
    s.sameContext(c);
    mc_state(s.ref.hash());
    mc_outcome(mc_hash(s.rsp.one(n - 1)));
}
void c27_values()     // every byte value, written in both forms, read back
{
    Session s;
    s.c = contextFrom(1, 0);
    s.create(0x20000000, std::string(8, '\0'), false);
    u32 v = mc_choose(256, "value"), n = 1 + mc_choose(6, "length"), at = mc_choose(3, "address");
    bool x = mc_bool("binary");
    std::string d(n, (char)v), h;
    for (u32 i = 1; i < n; i += 2) d[i] = (char)~v;
    for (char c : d) h += fmt("%02x", (uint8_t)c);
    s.rsp.add(x ? fmt("X%x,%x:", 0x20000000 + at, n) + gdbSees(d) : fmt("M%x,%x:", 0x20000000 + at, n) + (v & 1 ? upper(h) : h));
    s.rsp.add(fmt("m%x,%x", 0x20000000 + at, n));
    s.rsp.add("m20000000,8");
    bool ok = s.ref.poke(0x20000000 + at, (const uint8_t*)d.data(), n, false);
    s.run();
    CHECKK("access-answer", ok && s.rsp.one(0) == "OK" && s.rsp.one(1) == h && s.rsp.one(2) == readable(s.ref, 0x20000000, 8), "wrote %s: %s, read %s and %s", h.c_str(), s.rsp.one(0).c_str(), s.rsp.one(1).c_str(), s.rsp.one(2).c_str());
    s.sameMemory();
    mc_state(s.ref.hash());
    mc_outcome(mc_hash(s.rsp.one(2)));
}
void c27_sequences()  // a failure anywhere leaves what comes after alone
{
    Session s;
    s.c = contextFrom(1, 0);
    layout27(s, 3);
    static const Access xs[] = {{'m', 0x20000004, 8, 0}, {'m', 0x20000000, 4, 0}, {'m', 0x20000006, 2, 0}, {'m', 0x2000000E, 2, 0}, {'M', 0x20000004, 4, 1}, {'M', 0x2000000C, 2, 2}, {'X', 0x20000000, 1, 3}, {'X', 0x20000011, 2, 4}, {'M', 0x20000006, 8, 5}, {'m', 0x20000013, 3, 0},
        {'m', 0x20000001, 1, 0}, {'X', 0x20000002, 2, 7}, {'m', 0x2000000C, 2, 0}};
    u32 n = 1 + mc_choose((unsigned)mc_tier(mc_asan() ? 2 : 4, mc_asan() ? 4 : 5), "accesses");
    std::vector<Outcome> want;
    std::vector<std::pair<u32, u32>> loose;
    for (u32 i = 0; i < n; i++)
    {
        std::string body;
        want.push_back(model(s, mc_pick(xs, "access"), body, loose));
        s.rsp.add(body);
    }
    s.run();
    for (u32 i = 0; i < n; i++) check27(s, i, want[i]);
    s.sameMemory();
    mc_state(s.ref.hash());
    mc_outcome(mc_hash(s.rsp.one(n - 1)));
}
void c27_large()      // long reads and writes
{
    Session s;
    s.c = contextFrom(1, 0);
    s.create(0x20000000, pattern(9000, 77), mc_bool("read-only"));
    static const u32 ns[] = {255, 256, 257, 1000, 4096, 8000, 8191};
    u32 n = mc_pick(ns, "length"), a = 0x20000000 + mc_choose(2, "shift") * 1801;
    std::vector<std::pair<u32, u32>> loose;
    std::vector<Outcome> want;
    for (char kind : {'m', 'M', 'm', 'X', 'm'})
    {
        std::string body;
        want.push_back(model(s, {kind, a, kind == 'M' ? n - 50 : n, (u32)kind}, body, loose));
        s.rsp.add(body);
    }
    s.run();
    for (u32 i = 0; i < 5; i++) check27(s, i, want[i]);
    s.sameMemory();
    mc_state(mc_hashi(n, a));
    mc_outcome(mc_hash(s.rsp.one(4)));
}

void c27_long()       // any number of accesses in one session
{
    Session s;
    u32 k = mc_choose(4, "layout"), n = times(), kind = mc_choose(4, "kind"), len = 1 + mc_choose(4, "length"), step = mc_choose(3, "step");
    if (n > 1000 && (k || len == 3)) mc_prune();
    layout27(s, k);
    std::vector<Outcome> want;
    for (u32 i = 0; i < n; i++)
    {
        Access x{"mMXM"[kind == 3 && i % 2 ? 0 : kind], g_from[k] + (step == 0 ? 4 : step == 1 ? i : i * 5) % g_span[k], len, i};
        std::string body;
        std::vector<std::pair<u32, u32>> loose;
        want.push_back(model(s, x, body, loose));
        s.rsp.add(body);
    }
    s.run();
    for (u32 i = 0; i < n; i++) check27(s, i, want[i]);
    s.sameMemory();
    mc_state(s.ref.hash()); mc_outcome(mc_hashi(n, kind * 4 + len));
    s.close();
}
void c27_again()      // sessions one after the other, each with its own memory
{
    for (u32 i = 0; i < 2; i++)
    {
        Session s;
        s.c = contextFrom(1, 0);
        u32 k = mc_choose(4, "layout");
        layout27(s, k);
        static const char kinds[] = {'m', 'M', 'X'};
        Access x{kinds[mc_choose(3, "kind")], 0, 0, 50 + 100 * i};
        static const u32 at[] = {0, 2, 4, 8, 12, 16, 18}, len[] = {1, 2, 4, 9};
        x.a = g_from[mc_bool("from the other layouts") ? (k + 1 + i) % 4 : k] + mc_pick(at, "address");
        x.n = mc_pick(len, "length");
        std::string body;
        std::vector<std::pair<u32, u32>> loose;
        Outcome want = model(s, x, body, loose);
        s.rsp.add(body);
        s.run();
        check27(s, 0, want);
        s.sameMemory();
        mc_state(s.ref.hash());
        mc_outcome(mc_hash(s.rsp.one(0), i));
        s.close();
    }
}
// The calls of the debugger core without the core: any number of accesses between two questions for faults.
void c27_platform()
{
    Session s;
    s.c = contextFrom(1, 0);
    RegisterContext c = s.c;
    layout27(s, 3);
    u32 n = (u32)mc_tier(2, mc_asan() ? 2 : 3);
    bool fault = false;
    int  got = 0;
    bool done = false;        // the call came back; the code of an exception that it caught may still be set
    if (mc_bool("fault before the start")) cut([&] { mriPlatform_Init(&s.c, s.m); __mriPlatform_MemRead8((void*)(uintptr_t)0x10); });
    Ex e = cut([&] { mriPlatform_Init(&s.c, s.m); got = __mriPlatform_WasMemoryFaultEncountered(); done = true; });
    CHECKK("fault-at-start", done && got == 0, "a fault is reported before the first access (exception %d)", e.code);
    for (u32 i = 0; i < n; i++)
    {
        static const u32 at[] = {0x20000004, 0x20000006, 0x20000008, 0x2000000C, 0x2000000E, 0x20000011, 0x20000013, 0xFFFFFFFF};
        static const u32 times[] = {1, 2, 255, 256, 257, 65536};
        u32  kind = mc_choose(7, "call"), size = 1u << (kind % 3), v = 0, want = 0;
        if (kind == 6)
        {
            mc_step();
            e = cut([&] { done = false; got = __mriPlatform_WasMemoryFaultEncountered(); done = true; });
            CHECKK("fault-lost", done && (got != 0) == fault, "after the accesses a fault is %sreported (exception %d)", got ? "" : "not ", e.code);
            fault = false;
            continue;
        }
        u32  a = mc_pick(at, "address"), reps = i == 0 ? times[mc_choose((unsigned)mc_tier(5, 6), "repeat")] : 1, value = 0x8A9BACBDu + i;
        if (reps > 1 && kind > 2) mc_prune();
        bool ok;
        void* p = (void*)(uintptr_t)a;
        mc_step();
        done = false;
        if (kind < 3)
        {
            ok = s.ref.read(a, size, want);
            e = cut([&] { for (u32 k = 0; k < reps; k++) v = size == 1 ? __mriPlatform_MemRead8(p) : size == 2 ? __mriPlatform_MemRead16(p) : __mriPlatform_MemRead32(p); done = true; });
            CHECKK("platform-exception", done, "a read of 0x%08X threw %d into the debugger", a, e.code);
            if (ok) CHECKK("platform-read", v == want, "the %u bytes at 0x%08X were read as 0x%X, they are 0x%X", size, a, v, want);
        }
        else
        {
            ok = s.ref.write(a, size, value);
            e = cut([&] { if (size == 1) __mriPlatform_MemWrite8(p, (uint8_t)value); else if (size == 2) __mriPlatform_MemWrite16(p, (uint16_t)value); else __mriPlatform_MemWrite32(p, value); done = true; });
            CHECKK("platform-exception", done, "a write to 0x%08X threw %d into the debugger", a, e.code);
        }
        fault |= !ok;
        mc_note("%s%u at 0x%08X, %u times: %s", kind < 3 ? "read" : "write", size * 8, a, reps, ok ? "fine" : "fault");
    }
    e = cut([&] { done = false; got = __mriPlatform_WasMemoryFaultEncountered(); done = true; });
    CHECKK("fault-lost", done && (got != 0) == fault, "after the accesses a fault is %sreported", got ? "" : "not ");
    e = cut([&] { done = false; got = __mriPlatform_WasMemoryFaultEncountered(); done = true; });
    CHECKK("fault-stays", done && got == 0, "the same fault is reported twice");
    s.sameMemory();
    s.sameContext(c);
    mc_state(s.ref.hash());
    mc_outcome(s.ref.hash() + fault);
}

bool platformAccess(u32 a, u32 kind, u32& v)     // 0-2 read, 3-5 write 1, 2, 4 bytes; true when no fault is reported
{
    void* p = (void*)(uintptr_t)a;
    int   fault = -1;
    mc_step();
    Ex e = cut([&] {
        switch (kind)
        {
        case 0: v = __mriPlatform_MemRead8(p); break;
        case 1: v = __mriPlatform_MemRead16(p); break;
        case 2: v = __mriPlatform_MemRead32(p); break;
        case 3: __mriPlatform_MemWrite8(p, (uint8_t)v); break;
        case 4: __mriPlatform_MemWrite16(p, (uint16_t)v); break;
        case 5: __mriPlatform_MemWrite32(p, v); break;
        }
        fault = __mriPlatform_WasMemoryFaultEncountered();
    });
    CHECKK("platform-exception", fault >= 0, "a %u-byte %s at 0x%08X threw %d into the debugger", 1u << kind % 3, kind < 3 ? "read" : "write", a, e.code);
    return fault == 0;
}
void c27_everywhere() // no page of the address space and no word of the system area is unlike the others
{
    static const u32 pages[] = {0, 0x08000000, 0x1FFFF000, 0x20000000, 0x22000000, 0x40000000, 0x42000000, 0x7FFFF000, 0x80000000, 0xBAADB000, 0xDEADB000, 0xE0000000, 0xE0001000, 0xE0002000, 0xE000E000, 0xE0042000, 0xE00FF000, 0xFFFFF000};
    u32 where = mc_choose(64 + (u32)(sizeof pages / sizeof pages[0]), "part of the address space"), mode = mc_choose(3, "mapped");
    if (mc_asan() && where < 64 && where % 8 != 7) mc_prune();
    u32 base = where < 64 ? where << 26 : pages[where - 64], size = where < 64 ? 1u << 26 : 4096, step = where < 64 ? 4096 : 4;
    if (where < 64 && mode) mc_prune();
    Session s;
    s.c = contextFrom(1, 0);
    RegisterContext c = s.c;
    if (mode) s.create(base, pattern(size, where), mode == 2);
    Ex e = cut([&] { mriPlatform_Init(&s.c, s.m); });
    for (u32 o = 0; o < size; o += step)
        for (u32 kind = 0; kind < 6; kind++)
        {
            u32 a = base + o + (step > 4 ? (o >> 10 & 0xC00) + 0x28 : 0), n = 1u << kind % 3, v = kind < 3 ? 0 : 0x89ABCDEFu * (o + kind), want = 0;
            bool ok = kind < 3 ? s.ref.read(a, n, want) : s.ref.write(a, n, v);
            bool good = platformAccess(a, kind, v);
            CHECKK("platform-fault", good == ok, "a %u-byte %s at 0x%08X %s", n, kind < 3 ? "read" : "write", a, good ? "succeeded" : "faulted");
            if (kind < 3 && ok) CHECKK("platform-read", v == want, "the %u bytes at 0x%08X were read as 0x%X, they are 0x%X", n, a, v, want);
        }
    s.sameMemory();
    s.sameContext(c);
    mc_state(where * 3 + mode);
    mc_outcome(mode);
}
void c27_small()      // regions of a few bytes anywhere, with and without a neighbour
{
    static const u32 bases[] = {0, 1, 2, 3, 4, 0x7FFFFFFD, 0x20000000, 0xE000ED27, 0xFFFFFFF0, 0xFFFFFFFA};
    u32 base = mc_pick(bases, "base"), size = 1 + mc_choose(9, "size"), mode = mc_choose(3, "kind"), gap = mc_choose(3, "neighbour");
    if ((uint64_t)base + size > 1ull << 32) mc_prune();
    Session s;
    s.c = contextFrom(1, 0);
    RegisterContext c = s.c;
    s.create(base, pattern(size, size + base % 7), mode == 1);
    if (mode == 2) s.alias(base > 0xF0000000 ? 0x1000 : base + 0x10000000, base, size);
    if (gap && (uint64_t)base + size + gap + 3 <= 1ull << 32) s.create(base + size + gap - 1, pattern(4, 77), false);
    u32 seen = mode == 2 ? s.ref.r[1].base : base;
    cut([&] { mriPlatform_Init(&s.c, s.m); });
    for (u32 pass = 0; pass < 2; pass++)
        for (u32 kind = pass ? 3 : 0; kind < (pass ? 6u : 3u); kind++)
            for (u32 i = 0; i < size + 12; i++)
            {
                u32 a = seen - 4 + i, n = 1u << kind % 3, v = pass ? 0x89ABCDEFu * (i + kind) : 0, want = 0;
                bool ok = pass ? s.ref.write(a, n, v) : s.ref.read(a, n, want);
                bool good = platformAccess(a, kind, v);
                CHECKK("platform-fault", good == ok, "a %u-byte %s at 0x%08X %s", n, pass ? "write" : "read", a, good ? "succeeded" : "faulted");
                if (!pass && ok) CHECKK("platform-read", v == want, "the %u bytes at 0x%08X were read as 0x%X, they are 0x%X", n, a, v, want);
            }
    s.sameMemory();
    s.sameContext(c);
    mc_state(s.ref.hash());
    mc_outcome(s.ref.hash());
}

// ---------------------------------------------------------------- C28
// a small XML reader: elements with attributes, checked for balance
struct Element { std::string name; std::map<std::string, std::string> attr; int depth; };
std::vector<Element> parseXml(const std::string& x)
{
    std::vector<Element> all;
    std::vector<std::string> open;
    size_t i = 0;
    while (i < x.size())
    {
        if (x[i] != '<') { i++; continue; }
        size_t e = x.find('>', i);
        CHECKK("xml", e != std::string::npos, "an unfinished tag at %zu of %s", i, x.c_str());
        std::string t = x.substr(i + 1, e - i - 1);
        i = e + 1;
        if (t[0] == '?' || t[0] == '!') continue;
        if (t[0] == '/') { CHECKK("xml", !open.empty() && open.back() == t.substr(1), "</%s> does not match", t.c_str() + 1); open.pop_back(); continue; }
        bool closed = t.back() == '/';
        if (closed) t.pop_back();
        Element el;
        size_t p = t.find_first_of(" \n\t");
        el.name = t.substr(0, p);
        el.depth = (int)open.size();
        while (p != std::string::npos && (p = t.find_first_not_of(" \n\t", p)) != std::string::npos)
        {
            size_t q = t.find("=\"", p);
            CHECKK("xml", q != std::string::npos, "bad attribute in <%s>", t.c_str());
            size_t z = t.find('"', q + 2);
            CHECKK("xml", z != std::string::npos, "bad attribute in <%s>", t.c_str());
            el.attr[t.substr(p, q - p)] = t.substr(q + 2, z - q - 2);
            p = z + 1 < t.size() ? z + 1 : std::string::npos;
        }
        all.push_back(el);
        if (!closed) open.push_back(el.name);
    }
    CHECKK("xml", open.empty(), "<%s> is never closed", open.empty() ? "" : open.back().c_str());
    return all;
}
void c28_fetch(Session& s, const char* what, u32 piece, std::string& doc, u32& requests)
{
    std::string prefix = std::string("qXfer:") + what + ":read:" + (what[0] == 'f' ? "target.xml" : "") + ":";
    std::string name = what;
    requests = 0;
    auto ask = [prefix, piece](u32 at) { return packet(prefix + fmt("%x,%x", at, piece)); };
    s.rsp.script.push_back(ask(0));
    s.rsp.next = [name, piece, ask, &doc, &requests](const Rsp& r) -> std::string
    {
        std::string p = r.replies.back().last();
        requests++;
        if (p.empty() || (p[0] != 'm' && p[0] != 'l')) mc_fail("piece-answer", "a request for %u bytes of %s at %zu was answered with \"%s\"", piece, name.c_str(), doc.size(), p.c_str());
        doc += p.substr(1);
        if (p[0] == 'l') return "";
        CHECKK("no-progress", p.size() > 1, "an empty piece that is not the last");
        CHECKK("piece-size", p.size() - 1 <= piece, "%zu bytes instead of %u", p.size() - 1, piece);
        return ask((u32)doc.size());
    };
}
// which registers GDB puts where, from the description; returns the expected g answer
std::string layoutFrom(const std::string& xml, const RegisterContext& c, bool fpu)
{
    struct R { std::string name; u32 bits, num; };
    std::vector<R> regs;
    u32 next = 0;
    bool target = false;
    for (auto& e : parseXml(xml))
    {
        if (e.name == "target") target = true;
        if (e.name != "reg") continue;
        u32 num = e.attr.count("regnum") ? (u32)atoi(e.attr["regnum"].c_str()) : next;
        next = num + 1;
        regs.push_back({e.attr["name"], (u32)atoi(e.attr["bitsize"].c_str()), num});
    }
    CHECKK("description", target, "no <target> element");
    for (unsigned char ch : xml) CHECKK("description", ch == '\n' || ch == '\t' || ch == '\r' || (ch >= 0x20 && ch < 0x7F), "the description contains the byte %02x", ch);
    CHECKK("description", xml.find_last_not_of(" \n\t\r") == xml.rfind('>'), "text after the last element");
    std::sort(regs.begin(), regs.end(), [](const R& a, const R& b) { return a.num < b.num; });
    std::string s;
    std::set<std::string> names;
    for (auto& r : regs)
    {
        CHECKK("description", names.insert(r.name).second, "register %s is described twice", r.name.c_str());
        std::string v;
        static const char* core[] = {"r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8", "r9", "r10", "r11", "r12", "sp", "lr", "pc", "xpsr", "msp", "psp"};
        for (u32 i = 0; i < 19; i++) if (r.name == core[i]) v = le32(c.R[i]);
        for (u32 i = 0; i < 16; i++) if (r.name == fmt("d%u", i)) v = le32(c.FPR[2 * i]) + le32(c.FPR[2 * i + 1]);
        if (r.name == "fpscr") v = le32(c.FPR[32]);
        CHECKK("description", !v.empty(), "an unknown register %s", r.name.c_str());
        CHECKK("description", v.size() == r.bits / 4, "register %s is described with %u bits", r.name.c_str(), r.bits);
        s += v;
    }
    CHECKK("description", regs.size() == (fpu ? 36u : 19u), "%zu registers are described", regs.size());
    return s;
}
void c28_target()
{
    u32 flags = mc_pick(g_flags, "flags"), size = (u32)mc_tier(1100, 2300);
    u32 piece = 1 + mc_choose((unsigned)(mc_asan() && !mc_thorough() ? 40 : size), "piece");
    if (!mc_thorough() && piece > 64 && (flags > 1 || piece % 4 == 1)) mc_prune();
    Session s;
    s.c = contextFrom(33, flags);
    std::string doc;
    u32 n = 0;
    c28_fetch(s, "features", piece, doc, n);
    auto fetch = s.rsp.next;
    bool asked = false;
    s.rsp.next = [&](const Rsp& r) { if (asked) return std::string(); std::string x = fetch(r); if (x.empty()) { asked = true; return packet("g"); } return x; };
    s.run();
    std::string want = layoutFrom(doc, s.c, flags & 1), got = s.rsp.one(s.rsp.script.size() - 1);
    CHECKK("layout", want == got, "register read returns %s, the description says %s", got.c_str(), want.c_str());
    // the same document whatever the piece size
    Session w;
    w.c = s.c;
    std::string whole;
    c28_fetch(w, "features", 0x3000, whole, n);
    w.run();
    CHECKK("pieces", whole == doc, "in pieces of %u bytes the description is\n%s\ninstead of\n%s", piece, doc.c_str(), whole.c_str());
    mc_state(mc_hashi(piece, flags));
    mc_outcome(mc_hash(doc));
}
void c28_map()
{
    Session s;
    s.c = contextFrom(33, mc_choose(2, "fpu"));
    u32 n = mc_choose((unsigned)(mc_asan() ? 6 : 13), "regions"), req = 0;
    for (u32 i = 0; i < n; i++)
    {
        if (i % 4 == 3) s.alias(0x90000000 + i * 0x1000, 0x10000000u * (i - 2) + 2, 1u << i);
        else s.create(0x10000000u * i + i % 3, pattern((i * 7) % 30 + (i % 5 ? 1 : 0x110) + 5, i), i % 2);
    }
    u32 len = (u32)s.ref.xml().size();
    u32 piece = 1 + mc_choose(len + 3, "piece");
    if (mc_asan() && !mc_thorough() && piece > 30 && piece % 16) mc_prune();
    std::string doc;
    c28_fetch(s, "memory-map", piece, doc, req);
    s.run();
    CHECKK("map", doc == s.ref.xml(), "in pieces of %u bytes the memory map is\n%s\ninstead of\n%s", piece, doc.c_str(), s.ref.xml().c_str());
    parseXml(doc);
    s.sameMemory();
    mc_state(mc_hashi(piece, n));
    mc_outcome(mc_hash(doc));
}
void c28_offsets()    // any piece on its own
{
    Session s;
    bool map = mc_bool("memory map");
    s.c = contextFrom(33, mc_choose(2, "fpu"));
    s.create(0x08000000, pattern(40, 1), true);
    s.create(0x20000000, pattern(50, 1), false);
    std::string prefix = map ? "qXfer:memory-map:read::" : "qXfer:features:read:target.xml:";
    static const u32 ends[] = {0x7FFFFFFF, 0x80000000, 0xFFFFFFFE, 0xFFFFFFFF, 0x3FFE, 0x3FFF, 0x4000, 0x4001};
    u32 at = mc_choose((unsigned)(mc_asan() && !mc_thorough() ? 20 : mc_tier(330, 2400)), "offset");
    if (!mc_thorough() && at > 200) at = (at - 200) * 17 + 200;
    u32 k = mc_choose(14, "length"), n = k < 8 ? ends[k] : k == 8 ? 0 : k - 8;
    if (mc_bool("huge offset")) { if (at >= 8) mc_prune(); at = ends[at]; }
    s.rsp.add(prefix + "0,3000");
    s.rsp.add(prefix + fmt("%x,%x", at, n));
    s.run();
    std::string doc = s.rsp.one(0).substr(1), p = s.rsp.one(1);
    if (map) CHECKK("map", doc == s.ref.xml(), "the memory map is %s", doc.c_str());
    std::string want = at < doc.size() ? doc.substr(at, n) : "";
    bool last = at >= doc.size() || (uint64_t)at + n > doc.size();
    bool exact = (uint64_t)at + n == doc.size();
    CHECKK("piece", !p.empty() && p.substr(1) == want && (exact ? p[0] == 'l' || p[0] == 'm' : p[0] == (last ? 'l' : 'm')), "%u bytes at %u of %zu were answered with \"%s\"", n, at, doc.size(), p.c_str());
    mc_state(mc_hashi(at, n));
    mc_outcome(mc_hash(p));
}
void c28_again()      // sessions one after the other, each with its own map and registers
{
    u32 rounds = (u32)mc_tier(2, 3);
    for (u32 i = 0; i < rounds; i++)
    {
        Session s;
        u32 fpu = mc_choose(2, "fpu"), n = mc_choose(5, "regions"), req = 0;
        s.c = contextFrom(33 + i, fpu);
        for (u32 r = 0; r < n; r++) s.create(0x10000000u * r + 0x1000 * i, pattern(0x11 + (r * 7) % 30, r), (r + i) % 2);
        bool map = mc_bool("memory map");
        std::string doc;
        c28_fetch(s, map ? "memory-map" : "features", mc_bool("small pieces") ? 60 : 0x3000, doc, req);
        s.run();
        if (map) CHECKK("map", doc == s.ref.xml(), "session %u: the memory map is\n%s\ninstead of\n%s", i + 1, doc.c_str(), s.ref.xml().c_str());
        else CHECKK("layout", layoutFrom(doc, s.c, fpu) == registersHex(s.c), "session %u: the description is\n%s", i + 1, doc.c_str());
        mc_state(mc_hashi(n, i * 2 + fpu));
        mc_outcome(mc_hash(doc));
        s.close();
    }
}
void c28_both()       // both documents several times in one session, with other commands in between
{
    Session s;
    s.c = contextFrom(33, mc_choose(2, "fpu"));
    s.create(0x08000000, pattern(40, 1), true);
    s.create(0x20000000, pattern(50, 1), false);
    s.alias(0x30000000, 0x20000004, 16);
    static const char* const between[] = {"", "c", "g", "M20000000,4:01020304", "qSupported:x", "m8000000,20"};
    static const char* const heads[] = {"qXfer:features:read:target.xml:", "qXfer:memory-map:read::"};
    std::string xml = s.ref.xml(), desc;
    u32 n = (u32)mc_tier(3, 4), total = 0, times = mc_choose(2, "many times") ? 150 : 1;
    struct Part { u32 what, at, len; size_t cmd; };
    std::vector<Part> parts;
    std::vector<std::pair<u32, u32>> order;
    for (u32 i = 0; i < n; i++) order.push_back({mc_choose(2, "document"), mc_choose(i == n - 1 || times > 1 ? 2 : 3, "piece")});
    u32 other = mc_choose(times > 1 ? 2 : 6, "command in between");
    s.rsp.add(std::string(heads[0]) + "0,3000");
    for (u32 t = 0; t < times; t++)
        for (auto& o : order)
        {
            u32 piece = o.second == 0 ? 0x3000 : o.second == 1 ? 400 : 37, size = o.first ? (u32)xml.size() : 2200;
            for (u32 at = 0; at < size; at += piece) { parts.push_back({o.first, at, piece, s.rsp.script.size()}); s.rsp.add(heads[o.first] + fmt("%x,%x", at, piece)); total++; }
            if (*between[other]) s.rsp.add(between[other]);
        }
    s.run();
    desc = s.rsp.one(0).substr(1);
    CHECKK("layout", layoutFrom(desc, s.c, s.c.flags & 1) == registersHex(s.c), "the description is\n%s", desc.c_str());
    for (auto& p : parts)
    {
        const std::string& doc = p.what ? xml : desc;
        std::string got = s.rsp.one(p.cmd), want = p.at < doc.size() ? doc.substr(p.at, p.len) : "";
        CHECKK("piece", !got.empty() && got.substr(1) == want, "%u bytes at %u of the %s (%zu bytes) were answered with \"%s\"", p.len, p.at, p.what ? "memory map" : "description", doc.size(), got.c_str());
    }
    mc_state(mc_hashi(total, other)); mc_outcome(mc_hash(desc, total));
    s.close();
}
void c28_many()       // more regions than fit in one packet
{
    Session s;
    s.c = contextFrom(33, 0);
    static const u32 counts[] = {100, 160, 161, 162, 163, 164, 200, 1000};
    u32 n = mc_pick(counts, "regions"), req = 0;
    for (u32 i = 0; i < n; i++) s.create(0x10000000 + 0x100 * i, pattern(1 + i % 20, i), i % 3 == 0);
    static const u32 pieces[] = {0xFFF, 0x1000, 0x3FFB, 0x3FFE, 0x3FFF, 0x4000, 0x4001, 0xFFFFFFFF, 77};
    std::string doc;
    c28_fetch(s, "memory-map", mc_pick(pieces, "piece"), doc, req);
    s.run();
    CHECKK("map", doc == s.ref.xml(), "the memory map with %u regions differs", n);
    mc_state(mc_hashi(req, n));
    mc_outcome(mc_hash(doc));
}
}

#if defined(PROP_C23)
MODELS(PROP, {"single", c23_single, "one register at a time"}, {"short", c23_short, "too short and too long writes"}, {"again", c23_again, "sessions one after the other"}, {"histories", c23_histories, "reads and writes"}, {"long", c23_long, "long sessions"});
#elif defined(PROP_C24)
MODELS(PROP, {"surroundings", surroundings, "other registers about exceptions"}, {"protocol", c24_protocol, "GDB's signal numbers"}, {"values", c24_values, "special register values"}, {"numbers", c24_numbers, "exception numbers"}, {"psr", c24_psr, "other PSR bits"}, {"registers", c24_registers, "registers in the stop reply"}, {"again", c24_again, "sessions one after the other"}, {"long", c24_long, "long sessions"});
#elif defined(PROP_C25)
MODELS(PROP, {"mpu", c25_mpu, "memory management faults"}, {"bus", c25_bus, "bus faults"}, {"usage", c25_usage, "usage faults"}, {"hard", c25_hard, "hard faults"}, {"forced", c25_forced, "forced hard faults"}, {"missing", c25_missing, "registers not dumped"}, {"others", c25_others, "other exceptions"}, {"addresses", c25_addresses, "shown numbers"}, {"surroundings", surroundings, "other registers about exceptions"}, {"again", c25_again, "sessions one after the other"}, {"updated", c25_updated, "status registers changed by GDB"}, {"long", c25_long, "long sessions"});
#elif defined(PROP_C26)
MODELS(PROP, {"again", c26_again, "sessions one after the other"}, {"resumeat", c26_resumeat, "resuming at any address"}, {"program", c26_program, "instructions the program stopped at"}, {"long", c26_long, "long sessions"}, {"commands", c26_commands, "sequences of commands"});
#elif defined(PROP_C27)
MODELS(PROP, {"values", c27_values, "byte values"}, {"large", c27_large, "long accesses"}, {"sequences", c27_sequences, "sequences with failures"}, {"access", c27_access, "accesses and pairs"}, {"small", c27_small, "regions of a few bytes"}, {"everywhere", c27_everywhere, "every page of the address space"}, {"platform", c27_platform, "the platform's own calls"}, {"long", c27_long, "long sessions"}, {"again", c27_again, "sessions one after the other"});
#else
MODELS(PROP, {"offsets", c28_offsets, "single pieces"}, {"many", c28_many, "large maps"}, {"map", c28_map, "memory map in pieces"}, {"both", c28_both, "both documents in one session"}, {"again", c28_again, "sessions one after the other"}, {"target", c28_target, "description in pieces"});
#endif
