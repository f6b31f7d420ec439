// C14, C15, C16: GDB logs.
#include "logtext.h"

namespace
{
struct Log { Ex e; RegisterContext c; std::string xml; IMemory* m = nullptr; };
RegisterContext blank() { RegisterContext c; memset(&c, 0x5C, sizeof c); c.flags = 0x5C5C5C50; return c; }
Log parse(const std::string& text, const RegisterContext& before)
{
    Log l;
    l.c = before;
    std::string p = scratch_file("gdb.log", text);
    l.m = MemorySim_Init();
    rt_alloc_limit(48 << 20);
    mc_step();
    l.e = cut([&] { GdbLogParse(l.m, &l.c, p.c_str()); });
    mc_note("log \"%s\" -> exception %d %s", text.size() < 3000 ? text.c_str() : "(long)", l.e.code, l.e.msg.c_str());
    CHECKK("file-left-open", rt_live_files() == 0, "the log is still open");
    const char* x = nullptr;
    CHECKK("xml-failed", cut([&] { x = MemorySim_GetMemoryMapXML(l.m); }).code == 0, "no memory map");
    l.xml = x;
    return l;
}
void release(Log& l)
{
    MemorySim_Uninit(l.m);
    l.m = nullptr;
    CHECKK("leak", rt_live_allocs() == 0, "%zu blocks still allocated", rt_live_allocs());
}
bool overlaps(const RefMem& m)
{
    for (size_t i = 0; i < m.r.size(); i++) for (size_t j = 0; j < i; j++)
        if (m.r[i].base < (uint64_t)m.r[j].base + m.r[j].size && m.r[j].base < (uint64_t)m.r[i].base + m.r[i].size) return true;
    return false;
}
void expectMemory(Log& l, const std::vector<Words>& ls, const char* refused = "refused", const char* mapkey = "map")
{
    RefMem m = shown(ls);
    CHECKK(refused, l.e.code == 0, "the log was refused with exception %d: %s", l.e.code, l.e.msg.c_str());
    CHECKK(mapkey, l.xml == m.xml(), "memory map is\n%s\nexpected\n%s", l.xml.c_str(), m.xml().c_str());
    for (auto& w : ls)
        for (size_t i = 0; i < w.v.size(); i++)
        {
            u32 a = w.addr + 4 * (u32)i, want = 0, got = 0;
            m.read(a, 4, want);
            int c = realRead(l.m, a, 4, got);
            CHECKK("word", c == 0 && got == want, "the word at 0x%08X is 0x%08X (exception %d), the log shows 0x%08X", a, got, c, want);
        }
    if (!overlaps(m))
        for (auto& r : m.r) { compareImage(l.m, m, r.base - 4, 12, "before and at a region"); compareImage(l.m, m, r.base + r.size - 6, 12, "end of a region"); }
    for (auto& r : m.r) { uint8_t b = 0x77; CHECKK("read-only", m.poke(r.base, &b, 1, false) && realWrite(l.m, r.base, 1, b) == 0, "logged memory at 0x%08X is not writable", r.base); }
    mc_state(m.hash());
    mc_outcome(mc_hash(l.xml, m.hash()));
}
void expectContext(const Log& l, const RegisterContext& want)
{
    CHECKK("registers", !memcmp(&want, &l.c, sizeof want), "%s", describe(want, l.c).c_str());
}
RegisterContext noRegisters() { RegisterContext c = blank(); c.R[17] = c.R[18] = 0xBAADBAAD; return c; }
const char* const EOLS[] = {"\n", "\r\n", ""};
const u32 VALUES[] = {0x11111111, 0, 0xFFFFFFFF, 0x80000000, 0x0000ABCD, 0xdeadbeef, 0x12345678, 0x7FFFFFFF};

// ---------------------------------------------------------------- C14
void c14_line()
{
    static const u32 addrs[] = {0x10000000, 0, 0x2000FFFC, 0xFFFFFFF0, 0xABCDEF00, 0x20000001, 0x10, 0x1FF8, 0xA0000, 0x0FFFFFF4};
    Words w;
    w.addr = mc_pick(addrs, "address");
    u32 n = 1 + mc_choose(4, "words"), shift = mc_choose((unsigned)mc_tier(4, 8), "values");
    for (u32 i = 0; i < n; i++) w.v.push_back(VALUES[(shift + i) % 8]);
    u32 asym = mc_choose(5, "address symbol"), sep = mc_choose(3, "separator"), vsym = mc_choose(5, "value symbols");
    std::string s = line(w, asym, sep, vsym, mc_choose(3, "form")) + EOLS[mc_choose(3, "line end")];
    Log l = parse(s, blank());
    expectMemory(l, {w});
    expectContext(l, noRegisters());
    release(l);
}
void c14_sequence()
{
    u32 n = 1 + mc_choose((unsigned)mc_tier(3, 4), "lines");
    std::vector<Words> ls;
    std::string s;
    u32 at = 0x10000000, asym = mc_choose(2, "symbols") * 3;
    const char* eol = EOLS[mc_choose(2, "line end")];
    for (u32 i = 0; i < n; i++)
    {
        if (i)
            switch (mc_choose(8, "address"))
            {
            case 0: break;                                                  // contiguous
            case 1: at = ls.back().addr; break;                             // the same line again
            case 2: at = ls[0].addr + 0x100; break;
            case 3: at = ls[0].addr - 4; break;                             // just below
            case 4: at = 0xFFFFFFF0; break;
            case 5: at = 0; break;
            case 6: at = ls.back().addr + 4; break;                         // overlapping
            case 7: at += 4; break;                                         // one word left out
            }
        else at = mc_bool("at the end of memory") ? 0xFFFFFFF0 : 0x10000000;
        Words w;
        w.addr = at;
        u32 k = 4 - mc_choose((unsigned)mc_tier(mc_asan() ? 2 : 4, 4), "words");
        for (u32 j = 0; j < k; j++) w.v.push_back(i % 2 && j % 2 == 0 ? 0 : 0x01010101u * (1 + i * 4 + j));
        if ((uint64_t)at + 4 * k > 1ull << 32) mc_prune();
        ls.push_back(w);
        s += line(w, asym, 0, asym) + eol;
        at += 4 * k;
    }
    Log l = parse(s, blank());
    expectMemory(l, ls);
    release(l);
}
void c14_partial()    // GDB shows the words it can read, then why it can't read the next one
{
    static const char* ends[] = {"", "\t", " ", " \t ", "\tCannot access memory at address 0x10000008", " Cannot access memory at address 0x4", "\t<error: Cannot access memory at address 0x10000008>",
                                 " <f", "\t<f>", " <t<int>", "\tfade", "\t(gdb)", "\t--Type <RET> for more, q to quit--", "\t.", "\t#0x1", "\t$1 = 7", "\t\"0x12\"", "\t'a'", "\tx1", "\t-", "\t+", "\t<", "\t>", "\t<sym> Cannot access memory at address 0x1"};
    u32 n = 1 + mc_choose(4, "words"), after = mc_choose(3, "next line"), sym = mc_choose(3, "symbols");
    const char* end = mc_pick(ends, "end of the line");
    std::vector<Words> ls = {{0x10000000, {}}};
    for (u32 i = 0; i < n; i++) ls[0].v.push_back(VALUES[(i + sym) % 8]);
    const char* eol = EOLS[mc_choose(2, "line end")];
    std::string s = line(ls[0], sym, 0, sym) + end;
    if (after) { ls.push_back({after == 1 ? 0x10000000 + 4 * n : 0x20000000, {7, 8, 9, 10}}); s += eol + line(ls[1], sym, 0, sym); }
    if (mc_bool("final line end")) s += eol;
    Log l = parse(s, blank());
    expectMemory(l, ls);
    expectContext(l, noRegisters());
    release(l);
}
void c14_digits()     // addresses of every number of digits and lines across the change of that number
{
    static const u32 starts[] = {0, 4, 8, 0xC, 0x10, 0xF0, 0xF8, 0x100, 0xFF0, 0xFFC, 0x1000, 0xFFF8, 0x10000, 0xFFFF4, 0xABCD0, 0xFFFFF0, 0x1000000, 0xFFFFFF0, 0xFFFFFFC, 0x10000000, 0xFFFFFFE0};
    u32 at = mc_pick(starts, "address"), n = 1 + mc_choose(3, "lines"), asym = mc_choose(3, "symbols"), sep = mc_choose(2, "separator"), back = mc_choose(2, "order");
    std::vector<Words> ls;
    for (u32 i = 0; i < n; i++)
    {
        Words w{at, {}};
        if ((uint64_t)at + 16 > 1ull << 32) mc_prune();
        for (u32 j = 0; j < (i + 1 == n ? 3 : 4); j++) w.v.push_back(0x01010101u * (1 + i * 4 + j));
        ls.push_back(w);
        at += 16;
    }
    if (back) std::reverse(ls.begin(), ls.end());
    std::string s;
    for (auto& w : ls) s += line(w, asym, sep, 0, mc_choose(3, "form")) + "\n";
    Log l = parse(s, blank());
    expectMemory(l, ls);
    expectContext(l, noRegisters());
    release(l);
}
void c14_many()
{
    static const u32 more[] = {999, 1000, 1001, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 8193, 16384, 16385, 20000};
    u32 n = mc_choose((unsigned)mc_tier(60, 400), "lines") * 8 + 1, kind = mc_choose(3, "kind");
    if (n == 1) n = mc_pick(more, "number");
    bool big = n > 900 && n != 400 * 8 + 1;
    if (kind && n > 4097) mc_prune();
    std::vector<Words> ls;
    std::string s;
    u32 v = n;
    for (u32 i = 0; i < n; i++)
    {
        Words w;
        w.addr = kind == 2 ? 0x30000000 - i * 16 : 0x20000000 + i * (kind ? 32 : 16);
        for (u32 j = 0; j < 4; j++) { v = v * 1664525u + 1013904223u; w.v.push_back(v); }
        if (kind && i > 200 && !big) break;
        ls.push_back(w);
        s += line(w) + "\n";
    }
    Log l = parse(s, blank());
    expectMemory(l, ls);
    release(l);
}
// Symbols as GDB shows them (set print asm-demangle on): made by g++ and GDB from small programs.
const char* const SYMBOLS[] = {
    "sym", "table+16", "f2operator<(anonymous namespace)::A>(int)::w", "f_operator<(anonymous namespace)::A>(int)::w+4", "_ZZltRK1AS1_E1w+16", "operator<(A const&, A const&)", "operator<(A const&, A const&)::w", "operator<(A const&, A const&)::w+16", "operator<<(A&, int)::sh+4", "B::operator->() const::cnt",
    "B::operator->*(int)::w+4", "A::operator<< <int>(int)::w", "A::operator< <int>(int) const::w+8", "A::operator><int>(int) const::w", "A::operator>><int>(int)::w", "A::operator>>=(int)::w", "A::operator<<=(int)::w+4",
    "A::operator<=(int)::w", "A::operator>=(int) const::w", "A::operator<=>(A const&) const::w", "A::operator-(int)::w", "A::operator--(int)::w", "A::operator*() const::w", "A::operator=(A const&)::w", "A::operator==(A const&) const::w",
    "A::operator()(int)::w", "A::operator[](int)::w", "A::operator int()::w", "A::operator std::vector<int, std::allocator<int> >()::w+4", "operator new(unsigned int)", "operator delete(void*, unsigned int)+2",
    "std::operator<< <std::char_traits<char> >(std::basic_ostream<char, std::char_traits<char> >&, char const*)+30", "std::less<int>::operator()(int const&, int const&) const::w", "C<A, 8>::v+4", "D<true>::operator->() const::w",
    "l(int)::{lambda(int)#1}::operator()(int) const::w", "(anonymous namespace)::g", "(anonymous namespace)::operator<(A const&, A const&)::w", "vtable for Foo+8", "vtable for std::map<int, A<char> >+8", "guard variable for f()::x",
    "f(int) [clone .constprop.0]+4", "my_operator", "my_operator+4", "operator", "the_operator<int>(int)::w", "my_operator<(E)1>::w", "operators<int>::w", "Foo::f(void (*)(int, int))::w", "Foo<void (*)(int, int)>::w", "std::function<void (int)>::w", "F<&(A::operator<(A const&))>::w",
};
void c14_symbols()
{
    u32 where = mc_choose(4, "where"), sep = mc_choose(3, "separator"), n = 1 + mc_choose(4, "words");
    const char *a = mc_pick(SYMBOLS, "symbol"), *b = "";
    bool second = where == 3;
    if (second) b = mc_pick(SYMBOLS, "second symbol");
    Words w{0x10000000, {}}, w2{w.addr + 4 * n, {5, 6}};
    std::string s = fmt("0x%08x", w.addr) + (where == 0 || where == 3 ? fmt(" <%s>", a) : std::string()) + ":";
    for (u32 i = 0; i < n; i++)
    {
        w.v.push_back(0x11111111 * (i + 1));
        s += SEPS[sep] + fmt("0x%08x", w.v[i]);
        if (where == 1 || (where == 2 && i == 0)) s += fmt(" <%s>", a);
        if (second && i == 0) s += fmt(" <%s>", b);
    }
    Log l = parse(s + EOLS[mc_choose(2, "line end")] + line(w2) + "\n", blank());
    expectMemory(l, {w, w2}, "refused", "map");
    expectContext(l, noRegisters());
    release(l);
}
void c14_deep()       // symbols of templates within templates
{
    static const u32 more[] = {100, 126, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 32767, 32768, 65535, 65536, 70000};
    u32 k = 1 + mc_choose((unsigned)(70 + mc_tier(14, 19)), "depth"), n = k <= 70 ? k : more[k - 71], where = mc_choose(2, "where"), spaces = mc_choose(3, "blanks");
    std::string sym;
    for (u32 i = 0; i < n; i++) sym += spaces == 2 ? "<t " : "<t";
    sym += spaces ? "u v" : "u";
    for (u32 i = 0; i < n; i++) sym += spaces == 2 && i + 1 < n ? "> " : ">";
    Words w{0x10000000, {1, 2, 3, 4}}, w2{0x10000010, {5, 6}};
    std::string s = where ? "0x10000000:\t0x1 " + sym + "\t0x2 " + sym + "\t0x3\t0x4" : "0x10000000 " + sym + ":\t0x1\t0x2\t0x3\t0x4";
    Log l = parse(s + "\n" + line(w2) + "\n", blank());
    expectMemory(l, {w, w2});
    release(l);
}
void c14_long()       // symbols of every length
{
    u32 n = mc_choose((unsigned)mc_tier(1100, 3000), "symbol length"), where = mc_choose(2, "where");
    if (n == 0)                                                // powers of two; the largest ones at few places, as each costs a lot
    {
        static const u32 few[] = {0, 31, 40, 49};
        u32 k = 12 + mc_choose((unsigned)(mc_asan() ? mc_tier(5, 8) : mc_tier(8, 12)), "log2 length");
        n = (1u << k) - 40 + (k < 15 ? mc_choose(50, "delta") : mc_pick(few, "delta"));
        if (mc_bool("one and a half")) n += 1u << (k - 1);
    }
    std::string sym(n, 'a');
    for (u32 i = 20; i < n; i += 20) sym[i] = i % 60 == 20 ? '<' : i % 60 == 40 ? ' ' : '>';
    int depth = 0;
    for (char c : sym) depth += c == '<' ? 1 : c == '>' ? -1 : 0;
    for (; depth > 0; depth--) sym += '>';
    Words w{0x10000000, {1, 2, 3, 4}}, w2{0x10000010, {5, 6}};
    std::string s = where ? "0x10000000:\t0x1 <" + sym + ">\t0x2\t0x3\t0x4" : "0x10000000 <" + sym + ">:\t0x1\t0x2\t0x3\t0x4";
    bool isLong = s.size() + 1 > 1023;
    Log l = parse(s + "\n" + line(w2) + "\n", blank());
    expectMemory(l, {w, w2}, "refused", isLong ? "long-line-split" : "map");
    release(l);
}
void c14_again()      // several logs, one after the other in one process
{
    u32 n = (u32)mc_tier(2, 3);
    for (u32 i = 0; i < n; i++)
    {
        static const u32 at[] = {0x10000000, 0x10000010, 0x10000020, 0xFFFFFFF0};
        std::vector<Words> ls;
        std::string s;
        u32 k = mc_choose(3, "lines");
        for (u32 j = 0; j < k; j++)
        {
            Words w{mc_pick(at, "address"), {}};
            u32 c = mc_choose(2, "words") ? 2 : 4;
            for (u32 q = 0; q < c; q++) w.v.push_back(0x01010101u * (1 + i * 16 + j * 4 + q));
            ls.push_back(w);
            s += line(w) + (j + 1 < k || mc_choose(2, "final line end") == 0 ? "\n" : "");
        }
        Log l = parse(s, blank());
        expectMemory(l, ls);
        expectContext(l, noRegisters());
        release(l);
    }
}

// ---------------------------------------------------------------- C15
void finishRegs(const std::string& s, const RegisterContext& want, const RegisterContext& before)
{
    Log l = parse(s, before);
    CHECKK("refused", l.e.code == 0, "the log was refused with exception %d: %s", l.e.code, l.e.msg.c_str());
    expectContext(l, want);
    CHECKK("map", l.xml == RefMem().xml(), "registers created memory: %s", l.xml.c_str());
    mc_state(mc_hash(&want, sizeof want));
    mc_outcome(mc_hash(&l.c, sizeof l.c));
    release(l);
}
RegisterContext choosePrevious()
{
    RegisterContext c;
    memset(&c, mc_bool("previous values") ? 0x5C : 0, sizeof c);
    c.flags = mc_bool("flag already set") ? 1 : 0;
    return c;
}
void c15_single()
{
    const Reg& r = mc_pick(regs(), "register");
    u32 v = mc_pick(VALUES, "value");
    RegisterContext before = choosePrevious(), want = before;
    want.R[17] = want.R[18] = 0xBAADBAAD;
    setReg(want, r, v);
    u32 style = mc_choose(12, "format");
    finishRegs(regLine(r, v, style) + EOLS[mc_choose(3, "line end")], want, before);
}
void c15_pairs()
{
    const Reg &a = mc_pick(regs(), "first"), &b = mc_pick(regs(), "second");
    u32 va = 0x13579BDF, vb = 0x2468ACE0, sa = mc_choose((unsigned)mc_tier(2, 12), "format");
    RegisterContext before = blank(), want = noRegisters();
    setReg(want, a, va); setReg(want, b, vb);
    std::string s = regLine(a, va, sa) + "\n" + (mc_bool("memory between") ? std::string() : std::string("\n")) + regLine(b, vb, sa + 3) + "\n";
    finishRegs(s, want, before);
}
void c15_all()        // complete listings with one register missing or repeated, in either order
{
    u32 miss = mc_choose((unsigned)regs().size() + 1, "missing"), rep = mc_choose((unsigned)regs().size() + 1, "repeated");
    bool reverse = mc_bool("reverse"), fp = mc_bool("floating point");
    RegisterContext want = noRegisters();
    std::string s;
    u32 n = (u32)regs().size();
    for (u32 k = 0; k < n; k++)
    {
        u32 i = reverse ? n - 1 - k : k;
        const Reg& r = regs()[i];
        if (i == miss || (!fp && i >= 19)) continue;
        u32 v = 0x9E3779B9u * (i + 1);
        setReg(want, r, v);
        s += regLine(r, v, i) + "\n";
    }
    if (rep < n && (fp || rep < 19)) { setReg(want, regs()[rep], 0xCAFED00D); s += regLine(regs()[rep], 0xCAFED00D, 1) + "\n"; }
    finishRegs(s, want, blank());
}
void c15_bits()       // every bit of every register
{
    const Reg& r = mc_pick(regs(), "register");
    u32 v = 1u << mc_choose(32, "bit");
    if (mc_bool("inverted")) v = ~v;
    RegisterContext want = noRegisters();
    setReg(want, r, v);
    finishRegs(regLine(r, v, mc_choose(5, "format")) + "\n", want, blank());
}
void c15_mixed()      // registers and memory in one log do not disturb each other
{
    Words w{0x20000000, {1, 2, 3}};
    const Reg& r = mc_pick(regs(), "register");
    u32 where = mc_choose(3, "order");
    std::string m = line(w) + "\n", q = regLine(r, 0x20000000, mc_choose(6, "format")) + "\n";
    Words w2{0x2000000C, {4}};
    RegisterContext want = noRegisters();
    setReg(want, r, 0x20000000);
    Log l = parse(where == 0 ? q + m + line(w2) : where == 1 ? m + q + line(w2) + "\n" : m + line(w2) + "\n" + q, blank());
    expectContext(l, want);
    expectMemory(l, {w, w2});
    release(l);
}
void c15_again()      // several logs, one after the other in one process
{
    u32 n = (u32)mc_tier(2, 3);
    for (u32 i = 0; i < n; i++)
    {
        std::string s;
        RegisterContext before = choosePrevious(), want = before;
        want.R[17] = want.R[18] = 0xBAADBAAD;
        static const u32 some[] = {0, 13, 15, 17, 18, 19, 50, 51};
        for (u32 j = 0; j < 2; j++)
        {
            u32 q = mc_choose(9, "register");
            if (q == 8) continue;
            u32 v = 0x3C6EF372u * (i * 2 + j + 1);
            setReg(want, regs()[some[q]], v);
            s += regLine(regs()[some[q]], v, i + j) + "\n";
        }
        finishRegs(s, want, before);
    }
}

const u32 g_times[] = {127, 128, 129, 255, 256, 257, 1000, 4096, 65536, 32768, 65535, 65537};
void c15_often()      // the same few register lines any number of times, with different values; memory in between or not
{
    static const u32 some[] = {0, 12, 13, 15, 16, 17, 18, 19, 50, 51};
    u32 n = g_times[mc_choose((unsigned)mc_tier(8, 12), "times")], a = mc_choose(10, "register"), b = mc_choose(10, "other"), mem = mc_choose(2, "memory between");
    if (n > 300 && (mem || !mc_thorough()) && b % 4) mc_prune();
    RegisterContext want = noRegisters();
    std::string s;
    for (u32 i = 0; i < n; i++)
    {
        const Reg& r = regs()[some[i % 2 ? a : b]];
        u32 v = 0x9E3779B9u * (i + 1);
        setReg(want, r, v);
        s += regLine(r, v, i) + "\n";
        if (mem && i % 100 == 0) s += "\n";
    }
    finishRegs(s, want, blank());
}

// ---------------------------------------------------------------- C16
std::vector<std::string> baseLog(u32 k)
{
    std::vector<std::string> b;
    if (k == 0) b = {line({0x10000000, {1, 2, 3, 4}}), line({0x10000010, {5, 6, 7, 8}}), line({0x20000000, {9}})};
    if (k == 1) b = {regLine(regs()[0], 0x11, 0), regLine(regs()[15], 0x22, 2), regLine(regs()[16], 0x33, 0), regLine(regs()[19], 0x44, 0)};
    if (k == 2) b = {regLine(regs()[13], 0x55, 0), line({0x30000000, {1, 2}}, 3, 0, 1), line({0x30000008, {3, 4, 5}}, 2, 0, 2), regLine(regs()[51], 0x66, 0)};
    return b;
}
std::string join(const std::vector<std::string>& v, const char* eol, bool last)
{
    std::string s;
    for (size_t i = 0; i < v.size(); i++) s += v[i] + (i + 1 < v.size() || last ? eol : "");
    return s;
}
std::string memoryBytes(Log& l)
{
    std::string s;
    for (size_t at = 0; (at = l.xml.find("start=\"", at)) != std::string::npos; at++)
    {
        u32 base = (u32)strtoul(l.xml.c_str() + at + 7, nullptr, 16), len = (u32)strtoul(l.xml.c_str() + l.xml.find("length=\"", at) + 8, nullptr, 16);
        for (u32 i = 0; i < len; i++) { u32 v = 0; realRead(l.m, base + i, 1, v); s += (char)v; }
    }
    return s;
}
void sameLog(const std::string& without, const std::string& with, const char* what)
{
    Log a = parse(without, blank());
    std::string ma = memoryBytes(a);
    CHECKK("refused", a.e.code == 0, "the log was refused with exception %d: %s", a.e.code, a.e.msg.c_str());
    release(a);
    Log b = parse(with, blank());
    CHECKK("refused", b.e.code == 0, "with %s the log was refused with exception %d: %s", what, b.e.code, b.e.msg.c_str());
    CHECKK("registers", !memcmp(&a.c, &b.c, sizeof a.c), "%s changed registers: %s", what, describe(a.c, b.c).c_str());
    CHECKK("map", a.xml == b.xml, "%s changed the memory map from\n%s\nto\n%s", what, a.xml.c_str(), b.xml.c_str());
    CHECKK("bytes", memoryBytes(b) == ma, "%s changed memory contents", what);
    mc_state(mc_hash(with));
    mc_outcome(mc_hash(b.xml, mc_hash(&b.c, sizeof b.c)));
    release(b);
}
void c16_noise()
{
    std::vector<std::string> base = baseLog(mc_choose(3, "base log")), with = base;
    const std::string& n = mc_pick(noise(), "noise");
    u32 at = mc_choose((unsigned)base.size() + 1, "position");
    with.insert(with.begin() + at, n);
    const char* eol = EOLS[mc_choose(2, "line end")];
    bool last = mc_choose(2, "final line end") == 0;
    sameLog(join(base, "\n", true), join(with, eol, last), fmt("the line \"%s\"", n.c_str()).c_str());
}
void c16_bytes()      // lines that start with, or consist of, any byte
{
    std::vector<std::string> base = baseLog(mc_choose(3, "base log")), with = base;
    u32 b = 1 + mc_choose(255, "byte"), form = mc_choose(4, "line");
    if (b == '\n') mc_prune();
    std::string c(1, (char)b);
    with.insert(with.begin() + mc_choose((unsigned)base.size() + 1, "position"), form == 0 ? c : form == 1 ? c + c + c : form == 2 ? c + " text" : "text " + c + "0x10000000:\t0x1");
    sameLog(join(base, "\n", true), join(with, "\n", true), fmt("a line with the byte 0x%02X", b).c_str());
}
void c16_two()        // two noise lines, together or apart
{
    std::vector<std::string> base = baseLog(mc_choose((unsigned)mc_tier(1, 3), "base log") + (mc_thorough() ? 0 : 2)), with = base;
    const std::string &n1 = mc_pick(noise(), "noise"), &n2 = mc_pick(noise(), "noise");
    u32 p = mc_choose((unsigned)mc_tier(1, 5), "position") + (mc_thorough() ? 0 : 2), q = mc_choose(2, "apart");
    if (p > base.size()) mc_prune();
    with.insert(with.begin() + p, n2);
    with.insert(with.begin() + (q ? 0 : p), n1);
    sameLog(join(base, "\n", true), join(with, "\n", true), fmt("\"%s\" and \"%s\"", n1.c_str(), n2.c_str()).c_str());
}
void c16_damage()     // a foreign character in the part that makes it a memory or register line
{
    std::vector<std::string> base = baseLog(mc_choose(3, "base log")), with = base, without = base;
    u32 i = mc_choose((unsigned)base.size(), "line");
    bool mem = base[i][0] == '0';
    u32 name = mem ? 10 : (u32)base[i].find(' ');
    u32 at = mc_choose(name, "position");
    static const char cs[] = {'g', 'z', '_', '$', '.', '~', 'G', ':', '<', '(', '\t', '%'};
    char c = mc_pick(cs, "character");
    std::string what = "the line \"" + base[i] + "\" damaged";
    bool insert = mc_bool("insert");
    if (mem && !insert && c == ':' && isspace(base[i][at + 1])) mc_prune();     // shows other memory
    if (insert) with[i].insert(with[i].begin() + at, c);
    else with[i][at] = c;
    without.erase(without.begin() + i);
    sameLog(join(without, "\n", true), join(with, "\n", true), what.c_str());
}
void c16_long()       // long lines of other text which contain something interesting at any place
{
    std::vector<std::string> base = baseLog(2), with = base;
    u32 n = (u32)(mc_thorough() ? 1 + mc_choose(4200, "length") : mc_choose(8, "block") * 250 + 1000 + mc_choose(60, "length")), what = mc_choose(3, "what");
    std::string s(n, '-');
    s += what == 0 ? "r0             0x1" : what == 1 ? "0x10000000:\t0x11111111" : "s1             1\t(raw 0x3f800000)";
    with.insert(with.begin() + 2, s);
    sameLog(join(base, "\n", true), join(with, "\n", true), "a long line");
}
void c16_huge()       // very long lines, around the powers of two where a line buffer or a counter could end
{
    u32 k = 12 + mc_choose((unsigned)mc_tier(7, 12), "log2 length"), kind = mc_choose(3, "what");
    int delta = (int)mc_choose(5, "delta") - 2;
    size_t n = (size_t)((1ll << k) + delta);
    if (mc_bool("one and a half")) n += n / 2;
    std::vector<std::string> base = baseLog(2), with = base;
    std::string s;
    if (kind == 0) s = std::string(n, '-') + "0x10000000:\t0x11111111";
    if (kind == 1) { s = "0x12345678 in "; s.resize(n - 1, 'a'); }
    if (kind == 2) { s = "$1 = "; while (s.size() < n) s += "{0x10000000:\t0x11111111}, "; }
    with.insert(with.begin() + (mc_bool("at the end") ? (long)with.size() : 2), s);
    sameLog(join(base, "\n", true), join(with, "\n", mc_choose(2, "final line end") == 0), fmt("a line of %zu bytes", s.size()).c_str());
}
void c16_often()      // one other line any number of times, at any one place or between all lines
{
    std::vector<std::string> base = baseLog(mc_choose(3, "base log")), with;
    u32 n = g_times[mc_choose((unsigned)mc_tier(8, 12), "times")], at = mc_choose((unsigned)base.size() + 2, "position");
    static const u32 few[] = {0, 2, 3, 5, 9, 11, 19, 26, 35, 54, 58};
    const std::string& x = noise()[few[mc_choose(n > 300 && !mc_thorough() ? 4 : 11, "noise")]];
    std::string many;
    for (u32 i = 0; i < n; i++) many += x + (i + 1 < n ? "\n" : "");
    for (u32 i = 0; i <= base.size(); i++)
    {
        if (at == i || (at == base.size() + 1 && n < 300)) with.push_back(many);
        if (i < base.size()) with.push_back(base[i]);
    }
    sameLog(join(base, "\n", true), join(with, "\n", true), fmt("%u times the line \"%s\"", n, x.c_str()).c_str());
}
void c16_ends()       // line ends and the final newline
{
    std::vector<std::string> base = baseLog(mc_choose(3, "base log"));
    std::string eol = EOLS[mc_choose(2, "line end")];
    if (mc_bool("blank lines")) eol += eol;
    bool last = mc_bool("final line end");
    sameLog(join(base, "\n", true), join(base, eol.c_str(), last), "another line ending");
}
void c16_empty()      // text only
{
    std::string s;
    u32 n = mc_choose(3, "lines");
    for (u32 i = 0; i < n; i++) s += mc_pick(noise(), "noise") + "\n";
    Log l = parse(s, blank());
    CHECKK("refused", l.e.code == 0, "refused with %d", l.e.code);
    expectContext(l, noRegisters());
    CHECKK("map", l.xml == RefMem().xml(), "text created memory: %s", l.xml.c_str());
    release(l);
    mc_outcome(1);
}
}

#if defined(PROP_C14)
MODELS(PROP, {"line", c14_line, "one line in every form"}, {"sequence", c14_sequence, "sequences of lines"}, {"partial", c14_partial, "lines that end early"}, {"many", c14_many, "long logs"}, {"long", c14_long, "symbols of every length"}, {"digits", c14_digits, "addresses of every length"}, {"symbols", c14_symbols, "symbols as GDB shows them"}, {"deep", c14_deep, "templates within templates"}, {"again", c14_again, "several logs in one process"});
#elif defined(PROP_C15)
MODELS(PROP, {"single", c15_single, "each register, value, format"}, {"bits", c15_bits, "each bit"}, {"pairs", c15_pairs, "pairs of lines"}, {"all", c15_all, "whole listings"}, {"mixed", c15_mixed, "with memory"}, {"often", c15_often, "many lines"}, {"again", c15_again, "several logs in one process"});
#else
MODELS(PROP, {"empty", c16_empty, "other text only"}, {"noise", c16_noise, "one other line at every place"}, {"bytes", c16_bytes, "lines of any byte"}, {"two", c16_two, "two other lines"}, {"damage", c16_damage, "damaged lines"}, {"long", c16_long, "long lines"}, {"often", c16_often, "many other lines"}, {"huge", c16_huge, "very long lines"}, {"ends", c16_ends, "line ends"});
#endif
