// C11, C12, C13: CrashCatcher dumps through both readers of the repository.
#include "dumpref.h"

namespace
{
RegisterContext blank() { RegisterContext c; memset(&c, 0x6B, sizeof c); return c; }
Got readFile(const std::string& bytes, bool hex, IMemory** keep = nullptr)
{
    Got g;
    g.c = blank();
    std::string path = scratch_file("dump", bytes);
    IMemory* M = MemorySim_Init();
    rt_alloc_limit(48 << 20);
    mc_step();
    g.e = cut([&] { if (hex) CrashCatcherDump_ReadHex(M, &g.c, path.c_str()); else CrashCatcherDump_ReadBinary(M, &g.c, path.c_str()); });
    mc_note("%s reader, %zu bytes -> exception %d \"%s\"", hex ? "hex" : "binary", bytes.size(), g.e.code, g.e.msg.c_str());
    CHECKK("file-left-open", rt_live_files() == 0, "the dump file is still open (exception %d)", g.e.code);
    const char* p = nullptr;
    CHECKK("xml-failed", cut([&] { p = MemorySim_GetMemoryMapXML(M); }).code == 0, "no memory map");
    g.xml = p;
    if (keep) { *keep = M; return g; }
    MemorySim_Uninit(M);
    CHECKK("leak", rt_live_allocs() == 0, "%zu blocks still allocated", rt_live_allocs());
    return g;
}
void expectDump(const Dump& d, const std::string& file, bool hex)
{
    IMemory* M = nullptr;
    Got g = readFile(file, hex, &M);
    RefMem m = memOf(d);
    RegisterContext want = contextOf(d, blank());
    CHECKK("refused", g.e.code == 0, "a well-formed dump was refused with exception %d: %s", g.e.code, g.e.msg.c_str());
    CHECKK("registers", !memcmp(&want, &g.c, sizeof want), "%s", describe(want, g.c).c_str());
    CHECKK("map", g.xml == m.xml(), "memory map is\n%s\nexpected\n%s", g.xml.c_str(), m.xml().c_str());
    std::string all;
    for (auto& r : d.regions) all += r.data;
    CHECKK("bytes", regionBytes(M, m) == all, "the memory regions do not hold the dumped bytes");
    for (auto& r : m.r)
    {
        compareImage(M, m, r.base - 3, r.size < 20 ? r.size + 6 : 20, "start of region");
        compareImage(M, m, r.base + r.size - 6, 9, "end of region");
        if (r.size) { uint8_t b = (uint8_t)~r.data[0]; CHECKK("read-only", m.poke(r.base, &b, 1, false) && realWrite(M, r.base, 1, b) == 0, "dumped RAM at 0x%08X is not writable", r.base); }
    }
    mc_state(mc_hash(file));
    mc_outcome(mc_hash(&g.c, sizeof g.c, mc_hash(g.xml)));
    MemorySim_Uninit(M);
    CHECKK("leak", rt_live_allocs() == 0, "%zu blocks still allocated", rt_live_allocs());
}
const u32 STARTS[] = {0x10000000, 0x2007C001, 0xACCE55ED, 0xE000ED28, 0xFFFFFF00, 0};
const u32 SIZES[] = {16, 0, 1, 3, 5, 8};
const u32 FLAGS[] = {0, 1, 2, 0xFFFFFFFF, 0x80000001, 0xFFFFFFFE};
Dump chooseDump(int maxRegions, u32 sizes, u32 flags)
{
    Dump d;
    d.v = mc_choose(2, "version") ? 2 : 3;
    d.flags = FLAGS[mc_choose(flags, "flags")];
    fill(d, 7);
    u32 n = mc_choose((unsigned)maxRegions + 1, "regions");
    for (u32 i = 0; i < n; i++)
    {
        u32 k = (i + (n == 1 ? mc_choose(6, "start") : mc_choose(2, "order") * 3)) % 6;
        if (n > 1 && i == 1 && d.regions[0].start == STARTS[k]) k = (k + 1) % 6;
        d.regions.push_back({STARTS[k], pattern(SIZES[mc_choose(sizes, "size")], 0x40 + 64 * i)});
    }
    for (size_t i = 0; i < d.regions.size(); i++) for (size_t j = 0; j < i; j++) if (d.regions[i].start == d.regions[j].start) mc_prune();
    return d;
}

// ---------------------------------------------------------------- C11
void c11_shapes()
{
    Dump d = chooseDump(mc_tier(2, 3), (u32)mc_tier(5, 6), (u32)mc_tier(4, 6));
    bool hex = mc_bool("hex");
    std::string b = bytesOf(d);
    expectDump(d, hex ? hexOf(b, Hexing()) : b, hex);
}
void c11_registers()  // each register, each extreme value, all others different
{
    Dump d;
    d.v = mc_choose(2, "version") ? 2 : 3;
    d.flags = mc_bool("fpu");
    fill(d, 99);
    d.regions.push_back({0x20000000, pattern(4, 1)});
    u32 n = d.fpu() ? 53 : 20;
    u32 i = mc_choose(n, "register");
    if (d.v == 2 && (i == 17 || i == 18)) mc_prune();
    static const u32 vals[] = {0, 0xFFFFFFFF, 0x80000000, 0x7FFFFFFF, 0xBAADBAAD, 0xACCE55ED, 0x0A0D0D0A, 0x1A1A1A1A, 0x000000FF, 0x00330343};
    u32 v = mc_pick(vals, "value");
    (i < 19 ? d.r[i] : i == 19 ? d.xpsr : d.f[i - 20]) = v;
    bool hex = mc_bool("hex");
    std::string b = bytesOf(d);
    expectDump(d, hex ? hexOf(b, Hexing()) : b, hex);
}
void c11_sizes()      // every region size; contents that look like markers, line ends and end-of-file characters
{
    u32 n = mc_choose((unsigned)mc_tier(70, 300), "size"), start = mc_choose(3, "start"), what = mc_choose(3, "contents");
    Dump d;
    d.flags = 0;
    fill(d, n);
    std::string s;
    for (u32 i = 0; i < n; i++) s += what == 0 ? (char)(i * 7) : what == 1 ? "\x0D\x0A\x1A\x00\xFF"[i % 5] : "\xED\x55\xCE\xAC"[i % 4];
    d.regions.push_back({start == 0 ? 0x20000000u : start == 1 ? 0u - n : 0x7FFFFFFDu, s});
    if (start == 1 && n == 0) mc_prune();
    if (mc_bool("second region")) d.regions.push_back({0x30000000, "cC\3"});
    bool hex = mc_bool("hex");
    std::string b = bytesOf(d);
    expectDump(d, hex ? hexOf(b, Hexing()) : b, hex);
}
void c11_large()
{
    u32 k = mc_choose((unsigned)mc_tier(17, 20), "log2 size"), delta = mc_choose(3, "delta"), n = (1u << k) - 1 + delta;
    Dump d;
    fill(d, k);
    std::string s;
    u32 v = k + 1;
    for (u32 i = 0; i < n; i++) { v = v * 1664525u + 1013904223u; s += (char)(v >> 24); }
    static const u32 bases[] = {0x10000000, 0xE0000000, 0, 0x80000000, 0xACCE0000};
    u32 w = mc_choose(6, "place");
    d.regions.push_back({w == 5 ? 0u - n : bases[w], s});
    d.regions.push_back({0x20000000, "tail"});
    if (w && k > 16) mc_prune();
    bool hex = mc_bool("hex");
    std::string b = bytesOf(d);
    expectDump(d, hex ? hexOf(b, Hexing()) : b, hex);
}
void c11_many()       // many regions, adjacent or apart
{
    static const u32 more[] = {99, 100, 255, 256, 257, 512, 999, 1000, 1001, 1023, 1024, 1025, 2049, 4096, 4097};
    u32 n = mc_choose((unsigned)mc_tier(40, 300), "regions");
    if (n == 0) n = mc_pick(more, "number");
    u32 gap = mc_choose(2, "gap") * 12, down = mc_choose(2, "downwards");
    Dump d;
    d.flags = 1;
    fill(d, n);
    for (u32 i = 0; i < n; i++) d.regions.push_back({0x20000000 + (down ? n - i : i) * (4 + gap), pattern(4, i)});
    if (n > 1001 && (!gap || down)) mc_prune();
    bool hex = n <= 1001 && mc_bool("hex");
    std::string b = bytesOf(d);
    expectDump(d, hex ? hexOf(b, Hexing()) : b, hex);
}
void c11_special()    // regions, empty ones too, at special addresses, and others behind them
{
    static const u32 at[] = {0xFFFFFFFF, 0xFFFFFFFE, 0xFFFFFFFC, 0xACCE55ED, 0xED55CEAC, 0, 1, 0xBAADF00D, 0xBAADFEED, 0xDEADBEEF, 0x80000000, 0x7FFFFFFF, 0x03004363, 0x63430300, 0x0A0D0A0D, 0x1A1A1A1A, 0x20000000};
    static const u32 sizes[] = {0, 1, 4, 8, 0x1000, 0x10000};
    Dump d;
    d.v = mc_choose(2, "version") ? 2 : 3;
    d.flags = mc_choose(2, "fpu");
    fill(d, 77);
    u32 a = mc_pick(at, "address"), n = mc_pick(sizes, "size"), where = mc_choose(3, "place"), twice = mc_choose(2, "twice");
    if (n && (uint64_t)a + n > 0xFFFFFFFFull) mc_prune();      // an end of 4 GB cannot be written down
    std::vector<Region> others = {{0x30000000, pattern(5, 1)}, {0x40000000, pattern(9, 2)}};
    for (u32 i = 0; i < 3; i++)
    {
        if (i == where)
            for (u32 j = 0; j <= twice; j++)
                if (!j || !n) d.regions.push_back({a, pattern(n, a)});
        if (i < 2) d.regions.push_back(others[i]);
    }
    bool hex = mc_bool("hex");
    std::string b = bytesOf(d);
    expectDump(d, hex ? hexOf(b, Hexing()) : b, hex);
}
void c11_again()      // several dumps loaded one after the other in one process, the earlier ones possibly cut short
{
    u32 n = (u32)mc_tier(2, 3);
    for (u32 i = 0; i < n; i++)
    {
        Dump d;
        d.v = mc_choose(2, "version") ? 2 : 3;
        d.flags = mc_choose(2, "fpu");
        fill(d, 31 + i);
        if (mc_choose(2, "regions") == 0) d.regions = {{0x20000000 + 0x1000 * i, pattern(6, 5 + i)}, {0x10000000, pattern(3, 8 + i)}};
        bool hex = mc_bool("hex");
        std::string b = bytesOf(d);
        static const int cuts[] = {-1, 3, 7, 40, 90, 140};
        int cutAt = i + 1 < n ? mc_pick(cuts, "cut at") : -1;
        if (cutAt < 0 || (size_t)cutAt >= b.size()) { if (cutAt >= 0) mc_prune(); expectDump(d, hex ? hexOf(b, Hexing()) : b, hex); continue; }
        b.resize((size_t)cutAt);
        std::string s = hex ? hexOf(b, Hexing()) : b;
        if (hex && mc_bool("half a byte")) { while (!isxdigit((uint8_t)s.back())) s.pop_back(); s.pop_back(); }
        readFile(s, hex);
    }
}

// ---------------------------------------------------------------- C12
void same(const Got& a, const Got& b, const std::string& ma, const std::string& mb)
{
    CHECKK("hex-result", a.e.code == b.e.code && a.e.msg == b.e.msg, "binary: exception %d \"%s\"; hex: exception %d \"%s\"", a.e.code, a.e.msg.c_str(), b.e.code, b.e.msg.c_str());
    if (a.e.code) return;
    CHECKK("hex-registers", !memcmp(&a.c, &b.c, sizeof a.c), "hex against binary: %s", describe(a.c, b.c).c_str());
    CHECKK("hex-map", a.xml == b.xml, "binary map %s\nhex map %s", a.xml.c_str(), b.xml.c_str());
    CHECKK("hex-bytes", ma == mb, "the regions hold other bytes than those of the binary dump");
    mc_outcome(mc_hash(a.xml, mc_hash(&a.c, sizeof a.c)));
}
void bothSame(const Dump& d, const std::string& bin, const std::string& hex)
{
    IMemory* M = nullptr;
    RefMem m = memOf(d);
    Got a = readFile(bin, false, &M);
    std::string ma = a.e.code ? "" : regionBytes(M, m);
    MemorySim_Uninit(M);
    Got b = readFile(hex, true, &M);
    std::string mb = b.e.code || a.e.code ? "" : regionBytes(M, m);
    MemorySim_Uninit(M);
    mc_state(mc_hash(hex));
    mc_outcome((uint64_t)a.e.code * 100 + (uint64_t)b.e.code);
    same(a, b, ma, mb);
}
const u32 WIDTHS[] = {32, 0, 1, 2, 3, 7, 8, 64};
const char* const EOLS[] = {"\n", "\r\n", "\r", "\n\n", "\r\r\n\n"};
Hexing chooseHexing()
{
    Hexing h;
    h.letters = (int)mc_choose(3, "letters");
    h.width = WIDTHS[mc_choose((unsigned)mc_tier(6, 8), "line width")];
    h.eol = EOLS[mc_choose((unsigned)mc_tier(3, 5), "line end")];
    h.last = mc_choose(2, "final line end") == 0;
    return h;
}
void c12_encodings()
{
    Dump d = chooseDump(2, (u32)mc_tier(3, 6), 2);
    std::string b = bytesOf(d);
    bothSame(d, b, hexOf(b, chooseHexing()));
}
void c12_truncated()
{
    Dump d;
    d.v = mc_choose(2, "version") ? 2 : 3;
    d.flags = mc_choose(2, "fpu");
    fill(d, 3);
    d.regions.push_back({0x20000000, pattern(6, 9)});
    if (mc_bool("ends in the marker")) put32(d.tail, 0xACCE55ED); else d.regions.push_back({0x30000000, pattern(3, 1)});
    std::string b = bytesOf(d);
    b.resize(mc_choose((unsigned)b.size() + 1, "length"));
    Hexing h;
    h.width = WIDTHS[mc_choose(4, "line width")];
    h.eol = EOLS[mc_choose(2, "line end")];
    h.letters = 2;
    size_t at = headLen(d), keep = 0;                       // only the regions which are still complete
    while (keep < d.regions.size() && at + 8 + d.regions[keep].data.size() <= b.size()) at += 8 + d.regions[keep++].data.size();
    d.regions.resize(keep);
    bothSame(d, b, hexOf(b, h));
}
void c12_large()      // dumps of many lines, with any number of line ends between two digits
{
    static const u32 widths[] = {0, 1, 7, 32, 64, 255, 256, 1023, 4096}, times[] = {1, 2, 127, 128, 255, 256, 257, 1000, 65536};
    u32 k = mc_choose((unsigned)mc_tier(16, 19), "log2 size"), delta = mc_choose(3, "delta"), n = (1u << k) - 1 + delta, w = mc_pick(widths, "line width"), t = mc_pick(times, "line ends"), cr = mc_choose(3, "line end");
    if (t > 1 && (n > 300 || w == 0) && !(t == 2 && w)) mc_prune();
    if (t > 1000 && (n > 4 || w < 64)) mc_prune();
    if (!mc_thorough() && mc_asan() && k > 13) mc_prune();
    Dump d;
    d.flags = 1;
    fill(d, k);
    std::string s, eol;
    u32 v = k + 1;
    for (u32 i = 0; i < n; i++) { v = v * 1664525u + 1013904223u; s += (char)(v >> 24); }
    d.regions = {{0x10000000, s}, {0x20000000, "tail"}};
    for (u32 i = 0; i < t; i++) eol += cr == 0 ? "\n" : cr == 1 ? "\r\n" : "\r";
    Hexing h;
    h.letters = (int)(k % 3);
    h.width = w;
    h.eol = eol.c_str();
    std::string b = bytesOf(d);
    bothSame(d, b, hexOf(b, h));
}
void c12_pairs()      // every byte value in every encoding
{
    Dump d;
    fill(d, 5);
    std::string all;
    u32 first = mc_choose(16, "first") * 16;
    for (u32 i = 0; i < 16; i++) { all += (char)(first + i); all += (char)(255 - first - i); }
    d.regions.push_back({0x20000000, all});
    std::string b = bytesOf(d);
    bothSame(d, b, hexOf(b, chooseHexing()));
}
void c12_foreign()    // a character that is neither a digit nor a line end, at any place
{
    Dump d;
    d.flags = mc_choose(2, "fpu");
    fill(d, 11);
    d.regions.push_back({0x20000000, pattern(3, 0xA0)});
    Hexing h;
    h.letters = 2;
    std::string s = hexOf(bytesOf(d), h);
    static const uint8_t some[] = {'g', 'G', '@', '`', '/', ':', ' ', '\t', 'x', '-', 0, 0xFF, '\v', '\f', 0x8A, 'z', 0x1A, 0xB0, 0xC1, '.'};
    uint8_t c = mc_thorough() ? (uint8_t)mc_choose(256, "character") : some[mc_choose(20, "character")];
    if (isxdigit(c) || c == '\r' || c == '\n') mc_prune();
    u32 at = mc_choose((unsigned)s.size(), "position");
    if (mc_bool("insert")) s.insert(s.begin() + at, (char)c);
    else if (isxdigit((uint8_t)s[at])) s[at] = (char)c;
    else mc_prune();
    if (at + 1 >= s.size() - 1 && !isxdigit((uint8_t)s[s.size() - 1]) && at >= s.size() - 2) mc_prune();      // after the last byte
    Got g = readFile(s, true);
    CHECKK("foreign-accepted", g.e.code == fileFormatException, "a hex dump with character 0x%02X at position %u gave exception %d instead of a file format error", c, at, g.e.code);
    mc_outcome(mc_hash(g.e.msg, at));
}

// ---------------------------------------------------------------- C13
const char* partAt(const Dump& d, size_t n)
{
    if (n < 4) return "signature";
    if (n < 8) return "flags";
    size_t r = 8 + (d.v == 2 ? 17 : 19) * 4;
    if (n < r) return "integer registers";
    if (n < r + 4) return "exception PSR";
    if (n < headLen(d)) return "floating point registers";
    size_t at = headLen(d);
    for (auto& g : d.regions)
    {
        if (n == at) return nullptr;
        if (n < at + 8) return "region header";
        if (n < at + 8 + g.data.size()) return "memory region at";
        at += 8 + g.data.size();
    }
    return n == at ? nullptr : "region header";
}
void verdict(const Dump& d, const std::string& bin, const Got& g, bool oddDigit)
{
    size_t n = bin.size();
    const char* part = partAt(d, n);
    size_t at = headLen(d);
    bool atHeader = n >= 4 && n >= at;
    if (atHeader)
    {
        std::vector<size_t> ends{at};
        for (auto& r : d.regions) ends.push_back(at += 8 + r.data.size());
        for (size_t e : ends)
            if (n == e + 4 && !oddDigit && !memcmp(bin.data() + e, "\xED\x55\xCE\xAC", 4))
            {
                CHECKK("marker", g.e.code == stackOverflowException, "a dump ending in the stack overflow marker gave exception %d: %s", g.e.code, g.e.msg.c_str());
                CHECKK("marker-message", g.e.msg.find("stack overflow") != std::string::npos, "the message \"%s\" does not name the stack overflow", g.e.msg.c_str());
                mc_outcome(2);
                return;
            }
    }
    if (!part && !oddDigit)
    {
        CHECKK("complete-refused", g.e.code == 0, "a complete dump of %zu bytes was refused with %d: %s", n, g.e.code, g.e.msg.c_str());
        mc_outcome(1);
        return;
    }
    if (!part) part = "region header";
    CHECKK("truncated-accepted", g.e.code == fileFormatException, "a dump cut off inside its %s (%zu bytes%s) gave exception %d instead of a file format error", part, n, oddDigit ? " and a half" : "", g.e.code);
    CHECKK("message", g.e.msg.find(part) != std::string::npos, "a dump cut off inside its %s is reported as \"%s\"", part, g.e.msg.c_str());
    if (!strcmp(part, "memory region at"))
    {   // which one: its first address, then its end
        size_t b = headLen(d);
        for (auto& r : d.regions)
        {
            if (n < b + 8 + r.data.size())
            {
                std::string m = g.e.msg;
                for (char& c : m) c = (char)toupper((uint8_t)c);
                size_t s = m.find(fmt("%X", r.start));
                CHECKK("message-address", s != std::string::npos && m.find(fmt("%X", r.start + (u32)r.data.size()), s + 1) != std::string::npos, "the region from 0x%08X to 0x%08X, which is cut off, is reported as \"%s\"", r.start, r.start + (u32)r.data.size(), g.e.msg.c_str());
                break;
            }
            b += 8 + r.data.size();
        }
    }
    mc_outcome(mc_hash(g.e.msg));
}
Dump c13_dump()
{
    Dump d;
    d.v = mc_choose(2, "version") ? 2 : 3;
    d.flags = mc_choose(2, "fpu");
    fill(d, 21);
    u32 shape = mc_choose(6, "regions");
    if (shape == 1) d.regions = {{0x20000000, pattern(9, 1)}};
    if (shape == 2) d.regions = {{0x20000000, pattern(4, 1)}, {0x10000000, pattern(3, 2)}};
    if (shape == 3) d.regions = {{0xACCE55ED, pattern(5, 1)}};                                    // starts like the marker
    if (shape == 4) d.regions = {{0x20000000, ""}, {0x10000000, "\xED\x55\xCE\xAC"}};
    if (shape == 5) d.regions = {{0x20000000, "\xED\x55\xCE\xAC\xED\x55\xCE\xAC"}};
    return d;
}
void c13_truncated()
{
    Dump d = c13_dump();
    bool marker = mc_bool("marker at the end");
    if (marker) put32(d.tail, 0xACCE55ED);
    std::string b = bytesOf(d);
    mc_state(mc_hash(b));
    if (!mc_bool("hex"))
    {
        b.resize(mc_choose((unsigned)b.size() + 1, "length"));
        verdict(d, b, readFile(b, false), false);
        return;
    }
    u32 digits = mc_choose((unsigned)b.size() * 2 + 1, "digits");
    b.resize(digits / 2 + digits % 2);
    Hexing h;
    h.width = mc_bool("short lines") ? 1 : 0;
    h.last = digits % 2 == 0 ? mc_bool("line end") : false;
    std::string s = hexOf(b, h);
    if (digits % 2)
    {
        s.resize(s.size() - (h.width ? 2 : 1));        // drop the last digit
        b.pop_back();
    }
    verdict(d, b, readFile(s, true), digits % 2 != 0);
}
void c13_large()      // cut off somewhere in a large region
{
    u32 k = 6 + mc_choose((unsigned)mc_tier(11, 14), "log2 size"), n = (1u << k) - 1 + mc_choose(3, "delta");
    Dump d;
    d.flags = mc_choose(2, "fpu");
    fill(d, 21);
    d.regions = {{0x20000000, pattern(n, 3)}};
    std::string b = bytesOf(d);
    u32 from = mc_choose(k + 2, "power"), delta = mc_choose(9, "place"), at = headLen(d) + 8;
    int64_t keep = from == k + 1 ? n : from == k ? (int64_t)n / 2 + 1 : 1u << from;          // so many bytes of the region
    if (from < k - 3 && from % 4) mc_prune();
    keep += (int64_t)delta - 4;
    if (keep < 0 || keep > n) mc_prune();
    bool fromFile = mc_bool("of the file");                                                // or so many bytes of the file
    b.resize(fromFile ? std::min<size_t>((size_t)keep, b.size()) : at + (size_t)keep);
    bool hex = mc_bool("hex");
    mc_state(mc_hashi(n, b.size()));
    verdict(d, b, readFile(hex ? hexOf(b, Hexing()) : b, hex), false);
}
void c13_signature()
{
    Dump d;
    d.flags = mc_choose(2, "fpu");
    fill(d, 22);
    std::string b = bytesOf(d);
    u32 i = mc_choose(4, "byte"), v = mc_choose(256, "value");
    b[i] = (char)v;
    u32 j = mc_choose(4, "second byte");
    static const uint8_t w[] = {'c', 'C', 2, 3, 0, 1};
    uint8_t x = w[mc_choose(6, "second value")];
    b[j] = (char)x;
    bool v3 = b.compare(0, 4, std::string("cC\3\0", 4)) == 0, v2 = b.compare(0, 4, std::string("cC\2\0", 4)) == 0;
    if (v2) b.resize(b.size() - 8);
    bool hex = mc_bool("hex");
    Got g = readFile(hex ? hexOf(b, Hexing()) : b, hex);
    if (v3 || v2) CHECKK("signature-refused", g.e.code == 0, "signature %s was refused with %d: %s", hexs(b.data(), 4).c_str(), g.e.code, g.e.msg.c_str());
    else
    {
        CHECKK("signature-accepted", g.e.code == fileFormatException, "signature %s gave exception %d instead of a file format error", hexs(b.data(), 4).c_str(), g.e.code);
        CHECKK("signature-message", g.e.msg.find("signature") != std::string::npos, "a wrong signature is reported as \"%s\"", g.e.msg.c_str());
    }
    mc_state(mc_hash(b));
    mc_outcome(mc_hash(g.e.msg));
}
void c13_tail()       // extra bytes after the last region
{
    Dump d = c13_dump();
    static const char* tails[] = {"\xED\x55\xCE\xAC", "\xED\x55\xCE\xAD", "\xAC\xCE\x55\xED", "\xED\x55\xCE", "\xED\x55\xCE\xAC\xED", "\xED\x55\xCE\xAC\xED\x55\xCE", "cC\3", "\0\0\0\0\0\0\0", "\0", "\xFF\xFF\xFF\xFF", "\0\0\0\0"};
    static const size_t lens[] = {4, 4, 4, 3, 5, 7, 3, 7, 1, 4, 4};
    u32 t = mc_choose(11, "tail");
    d.tail.assign(tails[t], lens[t]);
    std::string b = bytesOf(d);
    bool hex = mc_bool("hex");
    mc_state(mc_hash(b));
    verdict(d, b, readFile(hex ? hexOf(b, Hexing()) : b, hex), false);
}
void c13_regions()    // region headers that lie: end before start, more than the file holds, wrapping around
{
    Dump d;
    fill(d, 23);
    std::string b = bytesOf(d);
    static const u32 vals[] = {0x20000000, 0x20000004, 0, 1, 0xFFFFFFFF, 0xFFFFFFFC, 0x80000000, 0x1FFFFFFF, 0x20000005, 0x7FFFFFFF};
    u32 start = mc_pick(vals, "start"), end = mc_pick(vals, "end"), have = mc_choose(9, "bytes present");
    put32(b, start); put32(b, end);
    b += pattern(have, 3);
    bool hex = mc_bool("hex");
    Got g = readFile(hex ? hexOf(b, Hexing()) : b, hex);
    u32 size = end - start;
    bool wraps = (uint64_t)start + size > (1ull << 32);
    if (size > have || wraps) CHECKK("lying-region", g.e.code != 0, "a region from 0x%08X to 0x%08X with %u bytes in the file was accepted", start, end, have);
    else if (size == have) CHECKK("region-refused", g.e.code == 0, "a region from 0x%08X to 0x%08X with all its bytes was refused with %d: %s", start, end, g.e.code, g.e.msg.c_str());
    else CHECKK("tail-accepted", g.e.code != 0 || have - size == 8, "%u bytes after the last region were accepted", have - size);
    mc_state(mc_hash(b));
    mc_outcome(mc_hash(g.e.msg));
}
void c13_missing()    // no file at all
{
    scratch_remove("dump");
    RegisterContext c = blank();
    bool hex = mc_bool("hex");
    IMemory* M = MemorySim_Init();
    std::string p = scratch_path("dump");
    Ex e = cut([&] { if (hex) CrashCatcherDump_ReadHex(M, &c, p.c_str()); else CrashCatcherDump_ReadBinary(M, &c, p.c_str()); });
    CHECKK("missing-file", e.code == fileException && e.msg.find(p) != std::string::npos, "a missing file gave exception %d \"%s\"", e.code, e.msg.c_str());
    CHECKK("leak", rt_live_allocs() == 0 && rt_live_files() == 0, "something is left");
    mc_outcome(1);
}
}

#if defined(PROP_C11)
MODELS(PROP, {"shapes", c11_shapes, "versions, flags, regions"}, {"registers", c11_registers, "each register, extreme values"}, {"sizes", c11_sizes, "region sizes and contents"},
       {"large", c11_large, "sizes around powers of two"}, {"many", c11_many, "many regions"}, {"special", c11_special, "special addresses"}, {"again", c11_again, "several dumps in one process"});
#elif defined(PROP_C12)
MODELS(PROP, {"encodings", c12_encodings, "line widths, line ends, letter case"}, {"truncated", c12_truncated, "truncated dumps"}, {"pairs", c12_pairs, "all byte values"}, {"large", c12_large, "many lines"}, {"foreign", c12_foreign, "foreign characters"});
#else
MODELS(PROP, {"missing", c13_missing, "no file"}, {"truncated", c13_truncated, "every length"}, {"signature", c13_signature, "signatures"}, {"tail", c13_tail, "trailing bytes"}, {"large", c13_large, "large regions cut off"}, {"regions", c13_regions, "lying region headers"});
#endif
