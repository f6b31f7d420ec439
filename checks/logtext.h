// Text of GDB logs: memory and register lines, and lines that are neither.
#pragma once
#include "dumpref.h"

typedef uint32_t u32;
// One line of "x/4wx" output.
struct Words { u32 addr; std::vector<u32> v; };
const char* const ADDRSYM[] = {"", " <sym>", " <table+16>", " <std::map<int, A<char> >::x(int, char)+4>", " <(anonymous namespace)::g>"};
const char* const SEPS[] = {"\t", " ", " \t "};
const char* const VALSYM[] = {"", " <main+3>", "<f>", " <<x>>", "\t<t<int, char> >"};
// GDB before 7.0 pads addresses to 8 digits, later ones don't.
enum { PADDED, UPPER, SHORT };
inline std::string line(const Words& w, u32 asym = 0, u32 sep = 0, u32 vsym = 0, u32 form = PADDED)
{
    std::string s = fmt(form == UPPER ? "0x%08X" : form == SHORT ? "0x%x" : "0x%08x", w.addr) + ADDRSYM[asym] + ":";
    for (u32 x : w.v) s += SEPS[sep] + fmt(form == UPPER ? "0x%08X" : "0x%08x", x) + VALSYM[vsym];
    return s;
}
// The memory that a sequence of such lines shows.
inline RefMem shown(const std::vector<Words>& ls)
{
    RefMem m;
    uint64_t next = ~0ull;
    u32 start = 0, size = 0;
    for (auto& l : ls)
    {
        if (l.addr != next) { if (size) m.create(start, size); start = l.addr; size = 0; }
        size += 4 * (u32)l.v.size();
        next = (uint64_t)start + size;
    }
    if (size) m.create(start, size);
    for (auto& l : ls) for (size_t i = 0; i < l.v.size(); i++) m.write(l.addr + 4 * (u32)i, 4, l.v[i]);
    return m;
}
struct Reg { std::string name; size_t off; bool fp; };
inline const std::vector<Reg>& regs()
{
    static std::vector<Reg> r;
    if (r.empty())
    {
        static const char* core[] = {"r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8", "r9", "r10", "r11", "r12", "sp", "lr", "pc", "xpsr", "msp", "psp"};
        for (size_t i = 0; i < 19; i++) r.push_back({core[i], offsetof(RegisterContext, R) + 4 * i, false});
        for (size_t i = 0; i < 32; i++) r.push_back({fmt("s%zu", i), offsetof(RegisterContext, FPR) + 4 * i, true});
        r.push_back({"fpscr", offsetof(RegisterContext, FPR) + 4 * 32, false});
    }
    return r;
}
inline std::string regLine(const Reg& r, u32 v, u32 style)
{
    static const char* floats[] = {"0", "-1.5", "1.40129846e-45", "-nan(0x7fffff)", "inf", "286331153"};
    std::string s = fmt("%-15s", r.name.c_str());
    if (r.fp)
        return s + floats[style % 6] + (style % 4 == 0 ? "\t" : style % 4 == 1 ? " " : style % 4 == 2 ? "                   " : "\t\t") + fmt(style & 1 ? "(raw 0x%08X)" : "(raw 0x%08x)", v);
    switch (style % 6)
    {
    case 0: return s + fmt("0x%x\t%d", v, (int)v);
    case 1: return s + fmt("0x%08X", v);
    case 2: return s + fmt("0x%x\t0x%x <main+4>", v, v);
    case 3: return s + fmt("0x%x               %u", v, v);
    case 4: return s + fmt("0x%08x [ Thumb Z C ]", v);
    default: return s + fmt("%u", v);
    }
}
inline void setReg(RegisterContext& c, const Reg& r, u32 v) { memcpy((char*)&c + r.off, &v, 4); if (r.fp) c.flags |= 1; }
inline const std::vector<std::string>& noise()
{
    static const std::vector<std::string> n = {
        "", " ", "\t", "(gdb) ", "(gdb) x/4wx 0x10000000", "56\tGPIO leds[5] = {", "Program received signal SIGINT, Interrupt.", "main () at main.c:10", "10\t    x = 0x10000000;",
        "$1 = 0x10000000", "$2 = (int *) 0x10000000 <sym>", "Cannot access memory at address 0x10000000", "0x1", "0x", "0", "0x1234567", "0x12345678", "0x12345678:", "0x12345678: ",
        "0x12345678:\tCannot access memory at address 0x12345678", "0x12345678 <sym>:\tCannot access memory at address 0x12345678", "0x12345678 <sym>:", "0x12345678 <sym", "0x12345678 <std::vector<int, char", "0x12345678 <sym> >", "0x12345678 <", "0x12345678 >", "0x12345678 operator<", "0x12345678 in main ()", "0x12345678 in ?? ()", "0x12345678\t56\t    delay = 1;",
        "0x00000abc <main+4>:\tpush\t{r3, lr}", "   0x00000abc <+4>:\tldr\tr3, [pc, #12]", "=> 0x00000abc <+4>:\tldr\tr3, [pc, #12]", " 0x10000000:\t0x11111111", "0x1000000g:\t0x11111111", "0x123456789:\t0x11111111", "0x000000010:\t0x11111111", "0x:\t0x11111111", "0:\t0x11111111", "0x1 <sym+4>", "0x0:", "0X10000000:\t0x11111111", "10000000:\t0x11111111", "-0x10000000:\t0x1",
        "0x10000000:\t\"text\"", "r0", "r0 0x1", "R0             0x1", " r0             0x1", "r13            0x1", "r00            0x1", "r14            0x1", "r15            0x1", "cpsr           0x1", "s32            1\t(raw 0x3f800000)", "S0             1\t(raw 0x3f800000)", "d0             1\t(raw 0x3ff0000000000000)",
        "q0             0\t(raw 0x0)", "control        0x1", "primask        0x1", "basepri        0x1", "faultmask      0x1", "fps            0x1", "pcx            0x1", "xps            0x1", "rip            0x1", "--Type <RET> for more, q to quit--", "#0  0x12345678 in main () at main.c:10", "}", "Continuing.",
        "msp_ns         0x1", "psp_s          0x1", "a5             0x1", "The history is empty.", "monitor reset", "\f", "0x12345678+4:\t0x1", "<sym>:\t0x1", ":", "(raw 0x1)",
        "(gdb) quit", "(gdb) q", "quit", "(gdb) info all-registers", "(gdb) info registers", "(gdb) set logging off", "Copying output to gdb.txt.", "Done logging to gdb.txt.", "A debugging session is active.", "Quit anyway? (y or n) y", "Undefined command: \"foo\".  Try \"help\".",
        "warning: Can not parse XML target description", "[Inferior 1 (Remote target) detached]", "Run till exit", "(gdb) x/4wx 0x10000000 <sym>:", "(gdb) p/x $msp", "End of assembler dump.", "The program is not being run.", "Remote communication error", "--- end ---", "EOF", "END", "# comment", "//", "\\"};
    return n;
}
