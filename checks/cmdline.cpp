// C17..C20, C22, C30: command line, loading, failures while loading, the whole program.
#include <sstream>
#include "logtext.h"
#include "elfref.h"
#include "rsp.h"
#include <cerrno>
#include <sys/stat.h>
#include <unistd.h>

extern "C" int cut_main(int argc, const char** argv);

namespace
{
std::string segmented(const std::vector<std::pair<u32, std::string>>& segs, bool extras)
{
    u32 n = (u32)segs.size() + (extras ? 2 : 0), at = 52 + 32 * n + 3;
    std::string s = header(52, 32, n);
    s.resize(at, (char)0xE7);
    u32 i = 0;
    for (auto& g : segs)
    {
        putPh(s, 52 + 32 * i++, Ph{1, (u32)s.size(), 0x20000000, g.first, (u32)g.second.size(), (u32)g.second.size() + 8, 5, 4});
        s += g.second + "pad";
    }
    if (extras) { putPh(s, 52 + 32 * i++, Ph{1, 0, 0x20008000, 0x20008000, 0, 64, 6, 4}); putPh(s, 52 + 32 * i++, Ph{0x70000001, 52, 0x100, 0x100, 8, 8, 4, 4}); }
    return s;
}
std::string logText()
{
    return "0x10000000 <g_a>:\t0x11223344\t0x55667788\n0x10000008:\t0x99aabbcc\nr0             0x12345678\t1\npc             0x8000001\t0x8000001 <main>\nmsp            0x10000008\t0\n";
}
Dump sampleDump(u32 k)
{
    Dump d;
    fill(d, 100 + k);
    d.v = k == 0 ? 2 : 3;
    d.flags = k == 1;
    d.xpsr = (d.xpsr & ~0x1FFu) | (k == 0 ? 6 : k == 1 ? 3 : 5);
    d.regions.push_back({0x10000000, pattern(k == 1 ? 21 : 8, 7 * k + 1)});
    if (k) d.regions.push_back({0xE000ED28, pattern(8, 50)});
    return d;
}
// The files a command line can name.
enum Kind { OTHER, BINARY, HEX, LOG };
struct File { const char* name; std::string bytes; Kind kind; int dump; };
const std::vector<File>& files()
{
    static std::vector<File> f;
    if (f.empty())
    {
        Hexing lower; lower.letters = 1; lower.width = 7; lower.eol = "\r\n";
        f = {{"image.bin", pattern(16, 200), OTHER, -1},
             {"second image", pattern(24, 90) + "tail", OTHER, -1},
             {"a.elf", segmented({{0x08000000, pattern(20, 3)}}, false), OTHER, -1},
             {"b.elf", segmented({{0x00000000, pattern(9, 70)}, {0x08000000, pattern(12, 80)}}, true), OTHER, -1},
             {"crash.dmp", bytesOf(sampleDump(1)), BINARY, 1},
             {"crash.hex", hexOf(bytesOf(sampleDump(2)), lower), HEX, 2},
             {"crash.elf", bytesOf(sampleDump(0)), BINARY, 0},
             {"gdb.txt", logText(), LOG, -1},
             {"dump.bin", hexOf(bytesOf(sampleDump(1)), Hexing()), HEX, 1}};
    }
    return f;
}
std::string pathOf(size_t i) { return scratch_file(files()[i].name, files()[i].bytes); }
const File* fileAt(std::string path)
{
    for (size_t i; (i = path.find("/./")) != std::string::npos;) path.erase(i, 2);
    for (size_t i = 0; i < files().size(); i++) if (path == scratch_path(files()[i].name)) return &files()[i];
    return nullptr;
}
void allFiles() { for (size_t i = 0; i < files().size(); i++) pathOf(i); }

std::string hex0x(u32 v) { return fmt("0x%x", v); }

// ---- reference: what a command line means
struct Alias { u32 base, size, to; };
struct Meaning
{
    int         code = 0;              // 0 accepted
    std::string part;                  // what the message must mention
    bool        badArgs = false;
    std::string elf, bin, dump;
    bool        hasElf = false, hasBin = false, hasDump = false;
    u32         base = 0;
    std::vector<Alias> aliases;
    RefMem          mem;
    RegisterContext context;
};
bool same(std::string a, const char* b)
{
    for (char& c : a) if (c >= 'A' && c <= 'Z') c += 32;
    return a == b;
}
u32 number(const std::string& s)
{
    size_t i = 0;
    bool neg = false;
    if (s[i] == '+' || s[i] == '-') neg = s[i++] == '-';
    uint64_t v = 0;
    int base = 10;
    if (s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X')) { base = 16; i += 2; }
    else if (s[i] == '0') base = 8;
    for (; i < s.size(); i++)
    {
        char c = s[i];
        int  d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99;
        if (d >= base) break;
        v = v * (u32)base + (u32)d;
    }
    return (u32)(neg ? 0 - v : v);
}
Meaning meaning(const std::vector<std::string>& a)
{
    Meaning m;
    memset(&m.context, 0, sizeof m.context);
    auto bad = [&](const std::string& part) { m.code = invalidArgumentException; m.part = part; m.badArgs = true; return m; };
    for (size_t i = 0; i < a.size();)
    {
        size_t left = a.size() - i - 1;
        if (a[i].compare(0, 2, "--")) return bad("--");
        if (same(a[i], "--bin"))
        {
            if (left < 2) return bad("--bin");
            m.hasBin = true; m.bin = a[i + 1]; m.base = number(a[i + 2]); i += 3;
        }
        else if (same(a[i], "--elf"))
        {
            if (left < 1) return bad("--elf");
            m.hasElf = true; m.elf = a[i + 1]; i += 2;
        }
        else if (same(a[i], "--dump"))
        {
            if (left < 1) return bad("--dump");
            m.hasDump = true; m.dump = a[i + 1]; i += 2;
        }
        else if (same(a[i], "--alias"))
        {
            if (left < 3) return bad("--alias");
            m.aliases.push_back({number(a[i + 1]), number(a[i + 2]), number(a[i + 3])}); i += 4;
        }
        else return bad("\"" + a[i] + "\"");
    }
    if (!m.hasBin && !m.hasElf) return bad("--bin or --elf");
    if (!m.hasDump) return bad("--dump");
    auto fail = [&](int code, const std::string& part) { m.code = code; m.part = part; return m; };
    const std::string& image = m.hasElf ? m.elf : m.bin;
    const File* f = fileAt(image);
    if (!f) return fail(fileException, image);
    if (m.hasElf)
    {
        Verdict v = judge(f->bytes);
        if (v.format) return fail(elfFormatException, "");
        m.mem = v.mem;
        for (auto& r : m.mem.r) r.counts.assign(r.size / 2, 0);
    }
    else
    {
        if ((uint64_t)m.base + f->bytes.size() > (1ull << 32)) return fail(busErrorException, fmt("%08X", m.base));
        m.mem.create(m.base, (u32)f->bytes.size());
        m.mem.r[0].data.assign(f->bytes.begin(), f->bytes.end());
        m.mem.makeRO(m.base);
    }
    f = fileAt(m.dump);
    if (!f) return fail(fileException, m.dump);
    if (f->dump >= 0)
    {
        Dump d = sampleDump((u32)f->dump);
        m.context = contextOf(d, m.context);
        for (auto& r : memOf(d).r) m.mem.r.push_back(r);
    }
    else
    {
        m.context.R[17] = m.context.R[18] = 0xBAADBAAD;
        if (f->kind == LOG)
        {
            m.mem.create(0x10000000, 12);
            for (u32 i = 0; i < 3; i++) m.mem.write(0x10000000 + 4 * i, 4, i == 0 ? 0x11223344 : i == 1 ? 0x55667788 : 0x99aabbcc);
            m.context.R[0] = 0x12345678; m.context.R[15] = 0x8000001; m.context.R[17] = 0x10000008;
        }
    }
    for (auto& al : m.aliases)
        if (!m.mem.alias(al.base, al.to, al.size)) return fail(busErrorException, "alias");
    return m;
}
struct Loaded { Ex e; CrashDebugCommandLine cl; std::string err, out; size_t opened; };
Loaded initWith(const std::vector<std::string>& a)
{
    Loaded l;
    memset(&l.cl, 0x5E, sizeof l.cl);
    std::vector<const char*> v;
    std::string all;
    for (auto& s : a) { v.push_back(s.c_str()); all += " '" + s + "'"; }
    v.push_back(nullptr);
    size_t err = rt_err().size(), out = rt_out().size();
    l.opened = (size_t)rt_files_opened();
    mc_step();
    l.e = cut([&] { CrashDebugCommandLine_Init(&l.cl, (int)a.size(), v.data()); });
    l.err = rt_err().substr(err);
    l.out = rt_out().substr(std::min(out, rt_out().size()));
    l.opened = (size_t)rt_files_opened() - l.opened;
    mc_note("arguments%s -> exception %d \"%s\"", all.c_str(), l.e.code, l.e.msg.c_str());
    return l;
}
void failedCleanly(const Loaded& l)
{
    CHECKK("no-error-line", l.err.find("ERROR: " + l.e.msg) != std::string::npos, "stderr has no ERROR line: %s", l.err.c_str());
    CHECKK("no-usage", l.err.find("Usage:") != std::string::npos, "stderr does not show the usage");
    CHECKK("memory-left", l.cl.pMemory == nullptr, "the memory object is still set after the failure");
    CHECKK("leak", rt_live_allocs() == 0, "%zu blocks still allocated after the failure", rt_live_allocs());
    CHECKK("file-left-open", rt_live_files() == 0, "a file is still open after the failure");
}
void checkMeaning(Meaning m, const std::vector<std::string>& a, bool bytes = true)
{
    Loaded l = initWith(a);
    if (m.code)
    {
        CHECKK(m.badArgs ? "bad-arguments-accepted" : "load-failure-accepted", l.e.code == m.code, "exception %d (\"%s\") instead of %d", l.e.code, l.e.msg.c_str(), m.code);
        if (m.part.size() > 900) m.part.resize(900);          // messages may be cut
        CHECKK("message", l.e.msg.find(m.part) != std::string::npos, "the message \"%s\" does not mention %s", l.e.msg.c_str(), m.part.c_str());
        if (m.badArgs) CHECKK("loaded-before-refusal", l.opened == 0, "files were opened although the arguments are wrong");
        failedCleanly(l);
        mc_outcome(mc_hash(m.badArgs ? l.e.msg : m.part, (uint64_t)m.code));
        return;
    }
    CHECKK("refused", l.e.code == 0, "refused with exception %d: %s", l.e.code, l.e.msg.c_str());
    CHECKK("noise", l.err.empty() && l.out.empty(), "accepted, but printed \"%s%s\"", l.err.c_str(), l.out.c_str());
    const char* p = nullptr;
    CHECKK("map", cut([&] { p = MemorySim_GetMemoryMapXML(l.cl.pMemory); }).code == 0 && m.mem.xml() == p, "memory map is\n%s\nexpected\n%s", p ? p : "(none)", m.mem.xml().c_str());
    CHECKK("registers", !memcmp(&m.context, &l.cl.context, sizeof m.context), "%s", describe(m.context, l.cl.context).c_str());
    if (bytes)
        for (auto& r : m.mem.r)
        {
            compareImage(l.cl.pMemory, m.mem, r.base - 4, r.size < 30 ? r.size + 8 : 38, "region");
            if (!r.size) continue;
            bool ro = !m.mem.poke(r.base, (const uint8_t*)"Z", 1, false);
            int  c = realWrite(l.cl.pMemory, r.base, 1, 'Z');
            CHECKK("protection", ro == (c != 0), "a write to 0x%08X gave exception %d, the memory is %s", r.base, c, ro ? "read-only" : "RAM");
        }
    mc_state(m.mem.hash());
    mc_outcome(mc_hash(p, strlen(p), mc_hash(&l.cl.context, sizeof l.cl.context)));
    CHECKK("file-left-open", rt_live_files() == 0, "a file is still open");
    CrashDebugCommandLine_Uninit(&l.cl);
    CHECKK("leak", rt_live_allocs() == 0, "%zu blocks still allocated", rt_live_allocs());
}
void checkVector(const std::vector<std::string>& a, bool bytes = true) { checkMeaning(meaning(a), a, bytes); }
std::string cased(std::string s, u32 how)      // 0 as is, 1 upper, 2/3 alternating
{
    for (size_t i = 2; i < s.size(); i++) if (how == 1 || (how >= 2 && (i + how) % 2)) s[i] = (char)toupper(s[i]);
    return s;
}

// ---------------------------------------------------------------- C17
void c17_vectors()
{
    allFiles();
    std::vector<std::string> tok = {"--dump", "--bin", "--elf", "--alias", pathOf(0), pathOf(2), pathOf(4), "0x20000000", "16", "--nope", "word"};
    if (mc_thorough()) { tok.push_back(pathOf(7)); }
    u32 n = mc_choose((unsigned)mc_tier(mc_asan() ? 5 : 6, 7), "count");
    std::vector<std::string> a;
    for (u32 i = 0; i < n; i++)
    {
        u32 t = mc_choose((unsigned)tok.size(), "token");
        a.push_back(tok[t]);
    }
    checkVector(a, false);
}
void c17_options()    // sequences of whole options, repeated ones too, then perhaps something wrong at the end
{
    allFiles();
    std::vector<std::vector<std::string>> opt = {{"--dump", pathOf(4)}, {"--elf", pathOf(2)}, {"--bin", pathOf(0), "0x20000000"}, {"--alias", "0x30000000", "8", "0x10000000"}, {"--bin", pathOf(1), "010"},
        {"--elf", pathOf(3)}, {"--dump", pathOf(7)}, {"--alias", "0x10000004", "64", "0x30000002"}, {"--dump", "missing file"}};
    u32 n = mc_choose((unsigned)mc_tier(5, 6), "options");
    u32 pat = mc_choose((unsigned)mc_tier(mc_asan() ? 1 : 2, 3), "letter case");
    std::vector<std::string> a;
    u32 lastLen = 0;
    for (u32 i = 0; i < n; i++)
    {
        auto o = opt[mc_choose((unsigned)opt.size(), "option")];
        o[0] = cased(o[0], (i + pat) % 4);
        a.insert(a.end(), o.begin(), o.end());
        lastLen = (u32)o.size();
    }
    switch (mc_choose(n ? 4 : 1, "end"))
    {
    case 1: a.pop_back(); break;
    case 2: a.push_back("extra"); break;
    case 3: if (lastLen < 3) mc_prune(); a.pop_back(); a.pop_back(); break;
    }
    checkVector(a);
}
void c17_case()       // every letter case of every option
{
    allFiles();
    std::vector<std::string> a = {"--alias", "0x30000000", "8", "0x10000000", "--dump", pathOf(4), "--bin", pathOf(0), "0x8000"};
    u32 which = mc_choose(4, "option");
    if (which == 3) a = {"--dump", pathOf(4), "--elf", pathOf(2)};
    std::string& o = which == 0 ? a[0] : which == 1 ? a[4] : which == 2 ? a[6] : a[2];
    u32 bits = mc_choose(1u << (o.size() - 2), "letters");
    for (size_t i = 2; i < o.size(); i++) if (bits >> (i - 2) & 1) o[i] = (char)toupper(o[i]);
    checkVector(a);
}
void c17_numbers()
{
    allFiles();
    static const char* nums[] = {"0", "0x0", "1", "16", "010", "0x10", "0X10", "0xfF00", "4096", "010000", "0x08000000", "134217728", "01000000000", "0x7fffffff", "0x80000000", "2147483648", "020000000000", "0xFFFFFFF0", "4294967280",
        "037777777760", "0xE0000000", "+32", "0x00000000000000010", "00", "0xabcdef"};
    std::string v = mc_pick(nums, "number");
    switch (mc_choose(4, "place"))
    {
    case 0: checkVector({"--bin", pathOf(0), v, "--dump", pathOf(4)}); break;
    case 1: checkVector({"--elf", pathOf(2), "--alias", v, "6", "0x10000002", "--dump", pathOf(4)}); break;
    case 2: checkVector({"--elf", pathOf(2), "--alias", "0x40000000", v, "0x10000002", "--dump", pathOf(4)}); break;
    case 3: checkVector({"--bin", pathOf(0), "0x80", "--alias", "0x40000000", "5", v, "--dump", pathOf(4)}); break;
    }
}
void c17_lookalikes()
{
    allFiles();
    static const char* words[] = {"", "-", "--", "---bin", "-bin", "bin", "--bi", "--binn", "--bin ", " --bin", "--elf=", "--elfs", "--el", "--dum", "--dumps", "-dump", "--aliases", "--alia", "--b", "--help", "-h", "/?", "--bin=image.bin", "\xE2\x80\x93" "dump", "--dump\n", "-- dump", "--%s%n", "--\xFF"};
    static const char* plausible[] = {"--verbose", "--version", "--quiet", "--debug", "--log", "--hex", "--core", "--symbols", "--gdb", "--map", "--ram", "--flash", "--raw", "--image", "--base", "--output", "--file", "--port", "--list", "--print", "--exec", "--axf", "--crash", "--all",
        "--size", "--load", "--mem", "--cpu", "--force", "--no-fpu", "--fpu", "--", "-v", "-q", "-d", "-e", "-b", "-a", "-?", "-V", "-x", "-o", "-f", "/help", "/bin", "/elf", "/dump", "@args", "help", "version", "elf", "dump", "alias", "image.elf", "+elf", "#", ";", "&", "0", "1", "--elf:", "--memory", "--trace", "--batch", "--remote"};
    std::vector<std::string> all(std::begin(words), std::end(words));
    all.insert(all.end(), std::begin(plausible), std::end(plausible));
    for (const char* w : {"--elf=", "--bin=", "--dump=", "--alias="})
        for (size_t file : {size_t(2), size_t(0), size_t(4), size_t(7)}) all.push_back(w + pathOf(file));
    std::string w = all[mc_choose((unsigned)all.size(), "word")];
    std::vector<std::vector<std::string>> parts = {{"--elf", pathOf(2)}, {"--dump", pathOf(4)}, {"--alias", "0x30000000", "8", "0x10000000"}};
    std::vector<std::string> a;
    u32 at = mc_choose(4, "position");
    for (u32 i = 0; i < 3; i++)
    {
        if (i == at) a.push_back(w);
        a.insert(a.end(), parts[i].begin(), parts[i].end());
    }
    if (at == 3) a.push_back(w);
    if (mc_bool("with words after it")) a.insert(a.begin() + (long)(std::find(a.begin(), a.end(), w) - a.begin()) + 1, "0x1");
    checkVector(a);
}
std::string longPath(size_t file, size_t length)      // the same file by a path of this length
{
    std::string p = pathOf(file);
    size_t slash = p.rfind('/') + 1;
    if (length < p.size() || (length - p.size()) % 2) return "";
    std::string dots;
    while (dots.size() < length - p.size()) dots += "./";
    return p.insert(slash, dots);
}
void c17_names()      // file names of any length, words of any length
{
    allFiles();
    u32 len = mc_choose((unsigned)mc_tier(300, 1100), "length");
    if (len == 0) { u32 k = 9 + mc_choose(4, "log2 length"); len = (1u << k) - 2 + mc_choose(4, "delta"); if (len > 4095) mc_prune(); }
    u32 role = mc_choose(3, "role"), what = mc_choose(3, "what");
    std::string p;
    if (what == 0)                                            // there
    {
        size_t f = role == 0 ? 2 : role == 1 ? 0 : 7;
        p = longPath(f, len);
        if (p.empty()) p = longPath(role == 0 ? 3 : role == 1 ? 1 : 4, len);          // names of other lengths
        if (p.empty()) mc_prune();
    }
    else if (what == 1) { p = std::string(len, 'n'); if (len > 40) p[20] = '%'; }     // not there
    std::vector<std::string> a = {"--elf", pathOf(2), "--dump", pathOf(7), "--bin", pathOf(0), "0x20000000"};
    if (what == 2) a.insert(a.begin() + role * 2, (len > 2 ? "--" : "") + std::string(len > 2 ? len - 2 : len, 's'));      // a word that is no option
    else
    {
        a[role == 0 ? 1 : role == 1 ? 5 : 3] = p;
        if (role == 1) a.erase(a.begin(), a.begin() + 2);
    }
    checkVector(a);
}
void c17_oddnames()   // words which could mean something else, as names of files that do not exist
{
    allFiles();
    static const char* names[] = {"-", "--", "", " ", "~", "~root", "$HOME", "*", "?", "\\", "--elf", "--dump", "--bin", "--alias", "-h", "@list", "0", "0x0", "stdin", "NUL", "CON", "http://localhost/x", "file:///x", "x.gz", "image.elf", "image.bin", "a.out", "crash.dmp", "crash.txt", "gdb.txt", "none", "null", "(null)", "\xFF", "%n%s", "a b", "\"a\"", "'", ",", "a,b", "a;b", "a:b", "+x", "/nowhere/x", "./x", "../nowhere/x"};
    std::string w = mc_pick(names, "name");
    switch (mc_choose(4, "place"))
    {
    case 0: checkVector({"--elf", w, "--dump", pathOf(4)}); break;
    case 1: checkVector({"--bin", w, "0x08000000", "--dump", pathOf(4)}); break;
    case 2: checkVector({"--elf", pathOf(2), "--dump", w}); break;
    case 3: checkVector({"--dump", w, "--bin", pathOf(0), "0x20000000"}); break;
    }
}
void c17_long()       // long argument lists: many aliases, or options repeated many times, around 128 and 256 arguments
{
    allFiles();
    u32 n = mc_choose((unsigned)mc_tier(80, 300), "repeats"), what = mc_choose(4, "what");
    std::vector<std::string> a = {"--dump", pathOf(4)}, image = {"--elf", pathOf(2)};
    bool first = mc_bool("image first");
    if (first) a.insert(a.end(), image.begin(), image.end());
    for (u32 i = 0; i < n; i++)
    {
        if (what == 0) for (auto& w : {std::string("--alias"), hex0x(0x30000000 + i * 16), std::string("4"), hex0x(0x10000000 + i % 8)}) a.push_back(w);
        if (what == 1) { a.push_back("--dump"); a.push_back(i + 1 < n ? "missing file" : pathOf(6)); }
        if (what == 2) { a.push_back("--elf"); a.push_back(i + 1 < n || !first ? "missing file" : pathOf(3)); }
        if (what == 3) { a.push_back("--bin"); a.push_back(pathOf(i % 2)); a.push_back(hex0x(0x40000000 + i * 64)); }
    }
    if (!first) a.insert(a.end(), image.begin(), image.end());
    u32 end = mc_choose(3, "end");
    if (end == 1) a.push_back("--alias");
    if (end == 2) a.push_back("word");
    checkVector(a);
}

// ---------------------------------------------------------------- C18, C30
// Images and dumps of many shapes, and what they mean: lengths, flags, versions, forms, numbers of regions, exceptions.
Meaning variety(std::vector<std::string>& a)
{
    Meaning m;
    memset(&m.context, 0, sizeof m.context);
    u32 image = mc_choose((unsigned)mc_tier(mc_asan() ? 10 : 22, 70), "image");
    if (image < 6)
    {
        std::vector<std::pair<u32, std::string>> segs;
        for (u32 i = 0; i < 1 + image % 3; i++) segs.push_back({i == 0 ? 0x08000000 : i == 1 ? 0 : 0x1000000F, pattern(5 + 8 * i, 40 * i + image)});
        std::string b = segmented(segs, image >= 3);
        m.mem = judge(b).mem;
        for (auto& r : m.mem.r) r.counts.assign(r.size / 2, 0);
        a = {"--elf", scratch_file("v.elf", b)};
    }
    else
    {
        u32 n = image - 5;
        std::string b = pattern(n, 77 + n);
        if (n % 7 == 3) b[n - 1] = 0;
        m.mem.create(n % 3 ? 0x08000000 : 0x0800FFFD, n);
        m.mem.r[0].data.assign(b.begin(), b.end());
        a = {"--bin", scratch_file("v.bin", b), n % 3 ? "0x08000000" : "0x0800FFFD"};
        m.mem.makeRO(m.mem.r[0].base);
    }
    u32 kind = mc_choose(3, "dump form");
    std::string text;
    if (kind < 2)
    {
        Dump d;
        static const u32 flags[] = {0, 1, 2, 3, 0x80000000, 0x101, 0xFFFFFFFE};
        fill(d, 500 + image);
        d.v = mc_choose(2, "version") ? 2 : 3;
        d.flags = mc_pick(flags, "flags");
        static const u32 exc[] = {3, 2, 4, 5, 6, 12, 0, 259};
        d.xpsr = (d.xpsr & ~0x1FFu) | mc_pick(exc, "exception");
        u32 n = mc_choose(4, "regions");
        for (u32 i = 0; i < n; i++) d.regions.push_back({0x20000000 + i * 0x10001, pattern(1 + 7 * i + image % 4, 9 + i)});
        if (n == 3) { std::string f; put32(f, 0x00010001u << (image % 9)); put32(f, 0xC0000000u >> (image % 2)); d.regions.push_back({0xE000ED28, f}); }
        m.context = contextOf(d, m.context);
        for (auto& r : memOf(d).r) m.mem.r.push_back(r);
        text = bytesOf(d);
        Hexing h;
        h.letters = (int)(image % 3); h.width = image % 5 ? 32 : 0; h.eol = image % 2 ? "\r\n" : "\n"; h.last = image % 4;
        if (kind == 1) text = hexOf(text, h);
    }
    else
    {
        u32 words = 1 + mc_choose((unsigned)mc_tier(9, 13), "words"), fp = mc_choose(3, "floating point");
        const char* eol = image % 2 ? "\r\n" : "\n";
        text = std::string("(gdb) x/4wx 0x20000000") + eol;
        m.context.R[17] = m.context.R[18] = 0xBAADBAAD;
        m.mem.create(0x20000000, words * 4);
        for (u32 i = 0; i < words; i++)
        {
            u32 v = 0x9E3779B9u * (i + 1 + image);
            if (i % 4 == 0) text += fmt(i % 8 ? "0x%08x <g_x+%u>:" : "0x%08x:", 0x20000000 + 4 * i, i * 4);
            text += fmt("\t0x%08x", v);
            if (i % 4 == 3 || i + 1 == words) text += eol;
            m.mem.write(0x20000000 + 4 * i, 4, v);
        }
        for (u32 i = 0; i < 16; i++) { static const char* n[] = {"r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8", "r9", "r10", "r11", "r12", "sp", "lr", "pc"}; m.context.R[i] = 0x01020304u * (i + 1); text += fmt("%-15s0x%x\t%u%s", n[i], m.context.R[i], m.context.R[i], eol); }
        m.context.R[16] = image % 2 ? 0x41000003 : 0x21000006;                 // the log shows xpsr; the exception comes from the fixed exception PSR
        text += fmt("%-15s0x%x\t%d%s", "xpsr", m.context.R[16], (int)m.context.R[16], eol);
        if (fp) { m.context.flags = 1; for (u32 i = 0; i < (fp == 1 ? 1u : 32u); i++) { m.context.FPR[31 - i] = 0x3F800000 + i; text += fmt("%-15s1\t(raw 0x%08x)%s", fmt("s%u", 31 - i).c_str(), m.context.FPR[31 - i], eol); } }
        text += "(gdb) quit";
    }
    a.push_back("--dump"); a.push_back(scratch_file("v.dump", text));
    bool al = mc_bool("alias");
    if (al) { a.insert(a.end(), {"--alias", "0x60000000", "7", hex0x(m.mem.r[0].base + m.mem.r[0].size / 2)}); m.mem.alias(0x60000000, m.mem.r[0].base + m.mem.r[0].size / 2, 7); }
    return m;
}
// ELF files with segments of every sort, program headers anywhere and of any entry size.
Meaning varietyOfElf(std::vector<std::string>& a)
{
    static const u32 where[] = {0x08000000, 0, 0x0800100F}, ents[] = {32, 40, 56};
    u32 n = 1 + mc_choose(3, "segments"), ent = mc_pick(ents, "entry size");
    bool after = mc_bool("headers behind the data");
    std::string s;
    u32 data = after ? 52 : 52 + ent * n + 1, at = data;
    std::vector<Ph> ph;
    for (u32 i = 0; i < n; i++)
    {
        u32 len = 5 + 9 * i, k = mc_choose(i ? 6 : 3, "segment");
        Ph p{1, at, 0x20000000 + 0x100 * i, where[i], len, len, 5, 4};
        if (k == 1) p.memsz += 0x10000;                       // a data segment with bss
        if (k == 2) { p.vaddr = 0; p.offset = i ? ph[0].offset + 1 : at; p.filesz = p.memsz = 4; }     // shared bytes
        if (k == 3) { p.filesz = 0; p.memsz = 64; }
        if (k == 4) p.memsz = len - 1;
        if (k == 5) { p.type = 0x70000001; p.offset = 0xFFFFFF00; }
        ph.push_back(p);
        at += len;
    }
    s = header(after ? at + 3 : 52, ent, n);
    s.resize(at + 3, (char)0xE7);
    for (u32 i = data; i < at; i++) s[i] = (char)(i * 37 + 11);
    for (u32 i = 0; i < n; i++) putPh(s, (after ? at + 3 : 52) + ent * i, ph[i]);
    Verdict v = judge(s);
    if (v.format || v.bus) mc_prune();
    Meaning m;
    memset(&m.context, 0, sizeof m.context);
    m.mem = v.mem;
    for (auto& r : m.mem.r) r.counts.assign(r.size / 2, 0);
    u32 d = mc_choose(2, "dump");
    m.context = contextOf(sampleDump(d), m.context);
    for (auto& r : memOf(sampleDump(d)).r) m.mem.r.push_back(r);
    a = {"--dump", d ? pathOf(8) : pathOf(6), "--elf", scratch_file("v.elf", s)};
    return m;
}
// Large, many and far away: sizes, numbers and addresses at the limits.
Meaning varietyOfExtremes(std::vector<std::string>& a)
{
    u32 image = mc_choose(7, "image"), dump = mc_choose(9, "dump"), al = mc_choose(3, "aliases");
    bool far = mc_bool("long names");
    Meaning m;
    memset(&m.context, 0, sizeof m.context);
    auto named = [&](const char* name, const std::string& bytes)
    {
        std::string p = scratch_file(name, bytes);
        if (!far) return p;
        size_t slash = p.rfind('/');
        std::string s;
        for (int i = 0; i < 500; i++) s += "/.";
        return p.substr(0, slash) + s + p.substr(slash);
    };
    std::vector<std::string> words;
    if (image < 4)
    {
        static const u32 base[] = {0x80000000, 0xFFFFFFF0, 0, 0x7FFFFFFF}, len[] = {70001, 16, 5, 2};
        std::string b = pattern(len[image], 60 + image);
        m.mem.create(base[image], len[image]);
        m.mem.r[0].data.assign(b.begin(), b.end());
        m.mem.makeRO(base[image]);
        words = {"--bin", named("x.bin", b), image == 0 ? "2147483648" : image == 1 ? "0XFFFFFFF0" : image == 2 ? "0" : "017777777777"};
    }
    else
    {
        std::string s;
        if (image == 4)                                       // many segments, each with bytes of its own
        {
            u32 n = 300;
            s = header(52, 32, n) + std::string(32 * n, 0) + pattern(4 * n, 61);
            for (u32 i = 0; i < n; i++) putPh(s, 52 + 32 * i, Ph{1, 52 + 32 * n + 4 * i, 0x20000000, 0x08000000 + 32 * i, 4, 4, 5, 4});
        }
        else if (image == 5)                                  // a large one, program headers behind it
        {
            s = header(52 + 70001, 32, 1) + pattern(70001, 62) + std::string(32, 0);
            putPh(s, 52 + 70001, Ph{1, 52, 0x20000000, 0x7FFFF000, 70001, 70001, 5, 4});
        }
        else                                                  // more than 2 GB of bss
        {
            s = header(52, 32, 2) + std::string(64, 0) + pattern(10, 63);
            putPh(s, 52, Ph{1, 116, 0x20000000, 0xFFFFFFFC, 4, 0x90000000, 5, 4});
            putPh(s, 84, Ph{1, 120, 0x20000000, 0, 6, 0xFFFFFFFF, 5, 4});
        }
        m.mem = judge(s).mem;
        for (auto& r : m.mem.r) r.counts.assign(r.size / 2, 0);
        words = {"--elf", named("x.elf", s)};
    }
    std::string text;
    if (dump < 6)
    {
        Dump d;
        fill(d, 700 + dump);
        d.flags = dump & 1;
        d.v = dump % 3 == 2 ? 2 : 3;
        d.xpsr = (d.xpsr & ~0x1FFu) | (3 + dump % 4);
        if (dump == 0) d.regions = {{0x10, pattern(16, 1)}, {0xFFFFFFD0, pattern(16, 2)}, {0xA0000000, pattern(9, 3)}};
        if (dump == 1) for (u32 i = 0; i < 300; i++) d.regions.push_back({0x20000000 + 8 * i, pattern(1 + i % 4, i)});
        if (dump == 2 || dump == 3) d.regions = {{0x20000000, pattern(dump == 2 ? 70001 : 300, 4)}, {0x1000, pattern(3, 5)}};
        if (dump == 4) d.regions = {{0xE000ED28, pattern(20, 7)}, {0xFFFFFFFF, pattern(1, 8)}};
        if (dump == 5) d.regions = {{0x20000000, pattern(131073, 6)}};
        m.context = contextOf(d, m.context);
        for (auto& r : memOf(d).r) m.mem.r.push_back(r);
        text = bytesOf(d);
        Hexing h;
        h.letters = 2; h.width = dump == 2 ? 0 : 5; h.eol = "\r\n"; h.last = dump == 3;
        if (dump == 2 || dump == 3) text = hexOf(text, h);
    }
    else
    {
        std::vector<Words> ls;
        if (dump == 6) ls = {{0xFFFFFFC0, {1, 2}}, {0x20, {3}}, {0x90000000, {4, 5, 6, 7}}, {0x90000010, {8}}, {0x24, {9}}};
        if (dump == 7) for (u32 i = 0; i < 2000; i++) ls.push_back({0x20000000 + 16 * i, {i, ~i, i << 16, i * 77}});
        if (dump == 8) ls = {{0x20000000, {1, 2, 3, 4}}, {0x20000010, {5, 6, 7, 8}}};
        for (u32 i = 0; i < ls.size(); i++)
        {
            text += line(ls[i], dump == 7 ? i % 4 : 0) + "\n";
            if (dump == 8 && i == 0) text += "$1 = \"" + std::string(100000, 'x') + "\"\n";
        }
        m.context.R[17] = m.context.R[18] = 0xBAADBAAD;
        for (u32 i = 0; i < regs().size(); i += 1 + dump % 2) { setReg(m.context, regs()[i], 0x80000000u + i); text += regLine(regs()[i], 0x80000000u + i, i) + "\n"; }
        for (auto& r : shown(ls).r) m.mem.r.push_back(r);
    }
    for (size_t i = 0; i < m.mem.r.size() && m.mem.r.size() < 20; i++)
        for (size_t j = 0; j < i; j++)
            if (m.mem.r[i].base < (uint64_t)m.mem.r[j].base + m.mem.r[j].size && m.mem.r[j].base < (uint64_t)m.mem.r[i].base + m.mem.r[i].size) mc_prune();
    words.push_back("--dump"); words.push_back(named("x.dump", text));
    if (al)
    {
        u32 to = m.mem.r[al == 1 ? 0 : m.mem.r.size() - 1].base;
        std::vector<std::string> w = {"--alias", "0x50000000", "0xFFFFFFFF", hex0x(to), "--alias", "0x60000000", "8", "0x50000001"};
        m.mem.alias(0x50000000, to, 0xFFFFFFFF);
        if (!m.mem.alias(0x60000000, 0x50000001, 8)) mc_prune();
        words.insert(al == 1 ? words.begin() : words.end(), w.begin(), w.end());
    }
    a = words;
    return m;
}
// GDB logs with lines of every shape.
Meaning varietyOfLog(std::vector<std::string>& a)
{
    std::vector<std::string> lines = {"(gdb) x/4wx 0x20000000", line({0x20000000, {1, 0x80000002, 3, 4}}), line({0x20000010, {5, 6}})};
    std::vector<Words> mem = {{0x20000000, {1, 0x80000002, 3, 4}}, {0x20000010, {5, 6}}};
    Meaning m;
    memset(&m.context, 0, sizeof m.context);
    m.context.R[17] = m.context.R[18] = 0xBAADBAAD;
    static const u32 some[] = {0, 13, 15, 16};
    for (u32 i : some) { setReg(m.context, regs()[i], 0x21000003u + (i << 4)); lines.push_back(regLine(regs()[i], 0x21000003u + (i << 4), i)); }
    u32 kind = mc_choose(3, "kind of line");
    std::string more;
    size_t at = mc_choose(4, "place") * 2;                    // 0 first, 2 between the memory lines, 4 between registers, 6 nearly last
    if (kind == 0) more = mc_pick(noise(), "other line");
    else if (kind == 1)
    {
        static const u32 addrs[] = {0x20000018, 0x20000000 - 16, 0xE000ED28, 0x10, 0xFFFFFFF0};
        Words w{mc_pick(addrs, "address"), {}};
        for (u32 i = 0, n = 1 + mc_choose(4, "words"); i < n; i++) w.v.push_back(0xC0DE0000u >> i | i);
        u32 asym = mc_choose(5, "symbol"), vsym = mc_choose(5, "value symbols");
        more = line(w, asym, asym % 3, vsym, asym == 1 ? UPPER : asym == 2 ? SHORT : PADDED);
        mem.insert(mem.begin() + (at == 0 ? 0 : at == 2 ? 1 : 2), w);
    }
    else
    {
        u32 r = mc_choose((unsigned)regs().size(), "register"), style = mc_choose(6, "format");
        more = regLine(regs()[r], 0x9E3779B9u * (r + 1), style);
        u32 old = 99;
        for (u32 i = 0; i < 4; i++) if (some[i] == r) old = i;
        if (old == 99 || 3 + old < at) setReg(m.context, regs()[r], 0x9E3779B9u * (r + 1));       // the last one wins
    }
    lines.insert(lines.begin() + (long)at, more);
    const char* eol = mc_bool("CR LF") ? "\r\n" : "\n";
    std::string text;
    for (size_t i = 0; i < lines.size(); i++) text += lines[i] + (i + 1 < lines.size() ? eol : "");
    std::string image = pattern(20, 3);
    m.mem.create(0x08000000, 20);
    m.mem.r[0].data.assign(image.begin(), image.end());
    m.mem.makeRO(0x08000000);
    for (auto& r : shown(mem).r) m.mem.r.push_back(r);
    a = {"--elf", pathOf(2), "--dump", scratch_file("v.log", text)};
    return m;
}
// ---------------------------------------------------------------- C18
const std::vector<std::vector<Alias>>& aliasLists()
{
    static const std::vector<std::vector<Alias>> l = {{}, {{0x30000000, 6, 0x10000002}}, {{0x30000000, 64, 0x08000004}}, {{0x30000000, 4, 0x10000000}, {0x50000000, 4, 0x30000002}}, {{0x50000000, 4, 0x30000002}, {0x30000000, 4, 0x10000000}},
        {{0x10000004, 16, 0x08000000}, {0x60000000, 2, 0x10000006}}, {{0, 4, 0x10000000}}, {{0x30000000, 4, 0x10000000}, {0x30000002, 8, 0x08000000}, {0x70000000, 8, 0x30000000}}, {{0x30000000, 4, 0x99999999}}, {{0xFFFFFFFC, 4, 0x10000000}},
        {{0x10000000, 4, 0x10000000}, {0x08000000, 16, 0x08000000}}, {{0x30000000, 0, 0x10000004}}, {{0x30000000, 0xFFFFFFFF, 0x08000001}, {0x40000000, 0x12345678, 0x10000002}}, {{0x30000000, 4, 0x10000000}, {0x30000000, 4, 0x10000000}, {0x30000000, 8, 0x08000000}}};
    return l;
}
void c18_combinations()
{
    allFiles();
    u32 image = mc_choose(4, "image");
    static const u32 dumps[] = {4, 5, 6, 7, 8};
    u32 dump = mc_pick(dumps, "dump");
    const auto& al = mc_pick(aliasLists(), "aliases");
    std::vector<std::vector<std::string>> parts;
    parts.push_back(image < 2 ? std::vector<std::string>{"--bin", pathOf(image), image ? "0x08000000" : "0x8000000"} : std::vector<std::string>{"--elf", pathOf(image)});
    parts.push_back({"--dump", pathOf(dump)});
    for (auto& x : al) parts.push_back({"--alias", hex0x(x.base), hex0x(x.size), hex0x(x.to)});
    // every interleaving that keeps the aliases in order: choose the places of image and dump
    std::vector<std::string> a;
    std::vector<int> order;
    size_t n = parts.size();
    u32 pi = mc_choose((unsigned)n, "place of the image"), pd = mc_choose((unsigned)n - 1, "place of the dump");
    for (size_t i = 2; i < n; i++) order.push_back((int)i);
    order.insert(order.begin() + pd, 1);
    order.insert(order.begin() + pi, 0);
    for (int i : order) a.insert(a.end(), parts[(size_t)i].begin(), parts[(size_t)i].end());
    checkVector(a);
}
void c18_many()       // many aliases, of memory and of each other
{
    allFiles();
    u32 n = 1 + mc_choose((unsigned)mc_tier(40, 300), "aliases"), how = mc_choose(4, "targets"), dump = 4 + mc_choose(5, "dump"), first = mc_choose(2, "aliases first");
    static const u32 more[] = {127, 128, 129, 255, 256, 257, 300, 512, 1000};
    if (n == 1) n = more[mc_choose(9, "many")];
    if (n > 300 && how == 1) mc_prune();                      // chains that long are another matter
    std::vector<std::string> a, all;
    for (u32 i = 0; i < n; i++)
    {
        u32 to = how == 0 ? 0x10000000 + i % 7 : how == 1 && i ? 0x30000000 + (i - 1) * 16 + i % 2 : how == 2 ? 0x08000000 + i % 5 : i % 3 == 2 ? 0x30000000 + (i - 1) * 16 : 0x10000000 + i % 3;
        for (auto& w : {std::string("--alias"), hex0x(0x30000000 + i * 16), hex0x(1 + i % 9), hex0x(to)}) all.push_back(w);
    }
    a = {"--elf", pathOf(2 + n % 2), "--dump", pathOf(dump)};
    a.insert(first ? a.begin() : a.end(), all.begin(), all.end());
    checkVector(a);
}
void c18_headers()    // the dump format follows from the first four bytes
{
    static const char alpha[] = {'c', 'C', '6', '3', '4', '\3', '\0', '0', '\n', 'r', '\x02', 'B'};
    u32 k = (u32)mc_tier(mc_asan() ? 5 : 8, 12);
    u32 len = 4 - mc_choose(5, "length");
    std::string head;
    u32 near = len == 4 ? mc_choose(3, "near a signature") : 0;
    if (near)
    {   // one byte of a signature takes every value
        head.assign(near == 1 ? "cC\3\0" : "6343", 4);
        u32 at = mc_choose(4, "position");
        head[at] = (char)mc_choose(256, "value");
    }
    else for (u32 i = 0; i < len; i++) head += alpha[mc_choose(k, "byte")];
    u32 body = len == 4 ? mc_choose(4, "rest") : 0;
    Dump d = sampleDump(2);
    std::string b = bytesOf(d);
    std::string s = head + (body == 0 ? "" : body == 1 ? b.substr(4) : body == 2 ? hexOf(b, Hexing()).substr(4) : "\n" + logText());
    static const char* names[] = {"dump", "dump.hex", "dump.log", "cCdump.bin"};
    std::string path = scratch_file(names[(head.empty() ? 0 : (uint8_t)head[0]) % 4], s), image = pathOf(2);
    Kind kind = head.compare(0, 2, "cC") == 0 ? BINARY : head == "6343" ? HEX : LOG;
    // the same file through the reader it must be given to
    IMemory* M = MemorySim_Init();
    RegisterContext c;
    memset(&c, 0, sizeof c);
    rt_alloc_limit(48 << 20);
    pathOf(2);
    Verdict v = judge(files()[2].bytes);
    for (auto& r : v.mem.r) { MemorySim_CreateRegion(M, r.base, r.size); MemorySim_LoadFromFlashImage(M, r.base, r.data.data(), r.size); MemorySim_MakeRegionReadOnly(M, r.base); }
    Ex e = cut([&] { if (kind == BINARY) CrashCatcherDump_ReadBinary(M, &c, path.c_str()); else if (kind == HEX) CrashCatcherDump_ReadHex(M, &c, path.c_str()); else GdbLogParse(M, &c, path.c_str()); });
    std::string xml = e.code ? "" : MemorySim_GetMemoryMapXML(M);
    MemorySim_Uninit(M);                                      // one memory at a time
    Loaded l = initWith({"--elf", image, "--dump", path});
    mc_note("header \"%s\": %s", hexs(head.data(), head.size()).c_str(), kind == BINARY ? "binary" : kind == HEX ? "hex" : "log");
    CHECKK("format-verdict", l.e.code == e.code && l.e.msg == e.msg, "the program gave exception %d \"%s\", the %s reader %d \"%s\"", l.e.code, l.e.msg.c_str(), kind == BINARY ? "binary" : kind == HEX ? "hex" : "log", e.code, e.msg.c_str());
    mc_state(mc_hash(s));
    mc_outcome(mc_hash(e.msg, kind));
    if (e.code == 0)
    {
        CHECKK("format-registers", !memcmp(&c, &l.cl.context, sizeof c), "%s", describe(c, l.cl.context).c_str());
        CHECKK("format-map", xml == MemorySim_GetMemoryMapXML(l.cl.pMemory), "another memory map");
        CrashDebugCommandLine_Uninit(&l.cl);
    }
    CHECKK("leak", rt_live_allocs() == 0 && rt_live_files() == 0, "something is left");
}
void c18_same()       // one file may serve as image and dump; names do not matter
{
    allFiles();
    u32 i = mc_choose((unsigned)files().size(), "image"), j = mc_choose((unsigned)files().size(), "dump");
    if (mc_bool("as elf")) checkVector({"--dump", pathOf(j), "--elf", pathOf(i)});
    else checkVector({"--dump", pathOf(j), "--bin", pathOf(i), "0x40000000"});
}
void c18_names()      // whatever the files are called
{
    static const char* names[] = {"gdb", "gdb2.txt", "gdb.log", "crash.log", "CRASH.LOG", "crash.txt", "x.hex", "X.HEX", "x.bin", "core.elf", "a.out", "image.axf", "dump.dmp", "dump", "crash", "log", "hex", "bin", "elf", "d", "-", "--", "-dump", "--dump", "--elf", "--BIN", "0", "0x10", ".", ".elf",
        "x.", "x.tar.gz", "%s%n%d", "a b", " x", "x ", "\xc3\xbc", "\xff", "crash dump (1).txt", "'x'", "\"x\"", "a\\b", "$HOME", "*", "~", "#", "c:x", "x\ty", "con", "nul", "stdin"};
    allFiles();
    u32 image = mc_choose(3, "image") + 1, dump = 4 + mc_choose(5, "dump");
    const char* n = mc_pick(names, "name");
    if (!strcmp(n, ".")) n = "..x";
    bool forDump = mc_choose(2, "file") == 0;
    auto words = [&](const std::string& i, const std::string& d) { std::vector<std::string> a = image < 2 ? std::vector<std::string>{"--bin", i, "0x08000000"} : std::vector<std::string>{"--elf", i}; a.push_back("--dump"); a.push_back(d); return a; };
    Meaning m = meaning(words(pathOf(image), pathOf(dump)));
    std::string p = scratch_file(n, files()[forDump ? dump : image].bytes);
    checkMeaning(m, forDump ? words(pathOf(image), p) : words(p, pathOf(dump)));
}
void c18_again()      // one load after the other in one process, failed ones among them
{
    allFiles();
    std::string bad = bytesOf(sampleDump(1)), badElf = files()[3].bytes;
    bad.resize(bad.size() - 3);
    std::vector<std::vector<std::string>> v = {{"--elf", pathOf(2), "--dump", pathOf(4)}, {"--bin", pathOf(0), "0x08000000", "--dump", pathOf(5)}, {"--dump", pathOf(6), "--elf", pathOf(3)}, {"--dump", pathOf(7), "--bin", pathOf(1), "0x100"},
        {"--elf", pathOf(2), "--dump", pathOf(4), "--alias", "0x30000000", "4", "0x10000002"}, {"--elf", pathOf(2), "--dump", pathOf(8)}, {"--elf", "missing file", "--dump", pathOf(4)}, {"--elf", pathOf(2), "--dump", "missing file"},
        {"--elf", pathOf(2), "--dump", pathOf(4), "--alias", "0x30000000", "4", "0x99999999"}, {"--dump", pathOf(4)}, {"--elf", pathOf(2)}, {}, {"--elf", pathOf(2), "--nope"}, {"--elf", pathOf(4), "--dump", pathOf(4)}, {"--elf", pathOf(0), "--dump", pathOf(4)},
        {"--bin", pathOf(0)}, {"--dump", pathOf(7), "--elf", pathOf(2), "--alias", "0x50000000", "8", "0x10000004"}};
    u32 n = (u32)mc_tier(mc_asan() ? 2 : 3, mc_asan() ? 3 : 4);
    for (u32 i = 0; i < n; i++) checkVector(mc_pick(v, "arguments"));
}

bool shows(const std::string& text, u32 n)     // is the number in it, in whatever notation?
{
    std::string words;
    for (char c : text) words += isalnum((unsigned char)c) ? c : ' ';
    std::istringstream in(words);
    for (std::string w; in >> w;) if ((u32)strtoul(w.c_str(), nullptr, 0) == n && isdigit((unsigned char)w[0])) return true;
    return false;
}
void c18_contents() { std::vector<std::string> a; Meaning m = variety(a); checkMeaning(m, a); }
void c18_elves() { std::vector<std::string> a; Meaning m = varietyOfElf(a); checkMeaning(m, a); }
void c18_extremes() { std::vector<std::string> a; Meaning m = varietyOfExtremes(a); checkMeaning(m, a); }
void c18_logs() { std::vector<std::string> a; Meaning m = varietyOfLog(a); checkMeaning(m, a); }

// ---------------------------------------------------------------- C20
void c20_bin(u32 base, const std::string& bytes, const char* text)
{
    std::string path = scratch_file("image", bytes), dump;
    Dump d;
    fill(d, 1);
    dump = scratch_file("regs", bytesOf(d));
    rt_alloc_limit(256 << 20);
    Loaded l = initWith({"--bin", path, text ? text : fmt("0x%08x", base), "--dump", dump});
    mc_state(mc_hash(bytes, base));
    if (bytes.empty() || (uint64_t)base + bytes.size() > (1ull << 32))
    {
        CHECKK("unfit-accepted", l.e.code != 0, "an image of %zu bytes at 0x%08X was accepted", bytes.size(), base);
        failedCleanly(l);
        CHECKK("not-named", shows(l.e.msg, base), "the message \"%s\" does not name 0x%X", l.e.msg.c_str(), base);
        mc_outcome(1);
        return;
    }
    CHECKK("refused", l.e.code == 0, "an image of %zu bytes at 0x%08X was refused with %d: %s", bytes.size(), base, l.e.code, l.e.msg.c_str());
    RefMem m;
    m.create(base, (u32)bytes.size());
    m.r[0].data.assign(bytes.begin(), bytes.end());
    m.r[0].ro = true;
    const char* p = MemorySim_GetMemoryMapXML(l.cl.pMemory);
    CHECKK("map", m.xml() == p, "memory map is %s, expected %s", p, m.xml().c_str());
    CHECKK("bytes", regionBytes(l.cl.pMemory, m) == bytes, "the region does not hold the bytes of the file");
    u32 n = (u32)bytes.size();
    compareImage(l.cl.pMemory, m, base - 4, n < 24 ? n + 8 : 24, "start");
    compareImage(l.cl.pMemory, m, base + n - 6, 9, "end");
    for (u32 i : {0u, n / 2, n - 1}) CHECKK("writable", realWrite(l.cl.pMemory, base + i, 1, 1) != 0, "the image is writable at 0x%08X", base + i);
    mc_outcome(mc_hash(p, strlen(p)));
    CrashDebugCommandLine_Uninit(&l.cl);
    CHECKK("leak", rt_live_allocs() == 0 && rt_live_files() == 0, "something is left");
}
void c20_sizes()
{
    u32 n = mc_choose((unsigned)mc_tier(70, 400), "length");
    static const u32 bases[] = {0x08000000, 0, 1, 2, 3, 0x1FFF0001, 0x7FFFFFF0, 0x80000000, 0xFFFFFFFF, 0xFFFFFFF0, 0xFFFFFFE1};
    u32 which = mc_choose(14, "base"), base = which < 11 ? bases[which] : 0u - n + (which - 12);     // the last three: around the end of memory
    c20_bin(base, pattern(n, 7), nullptr);
}
void c20_large()
{
    u32 k = mc_choose((unsigned)mc_tier(25, 28), "log2"), n = (1u << k) - 1 + mc_choose(3, "delta");
    static const u32 bases[] = {0x08000000, 0x00000001, 0};
    u32 base = bases[mc_choose(2, "base")];
    std::string s;
    u32 v = k;
    s.reserve(n);
    for (u32 i = 0; i < n; i++) { v = v * 1664525u + 1013904223u; s += (char)(v >> 24); }
    c20_bin(base, s, nullptr);
}
void c20_contents()   // contents that look like something else
{
    static const std::string cs[] = {segmented({{0x08000000, "segment"}}, false), "\r\n\x1A\r\n", std::string(5, '\0'), std::string(16, '\xFF'), "cC\3", "6343", "0x10000000:\t0x1\n", "r0             0x1\n"};
    u32 i = mc_choose(8, "contents");
    static const char* t[] = {"0x8000", "32768", "0100000"};
    c20_bin(0x8000, cs[i], mc_pick(t, "number"));
}
void c20_huge()       // files of 4 GB and more (sparse)
{
    static const uint64_t sizes[] = {1ull << 32, (1ull << 32) + 1, (1ull << 32) + 16, (1ull << 32) + 4096, (1ull << 33) + 4};
    uint64_t n = mc_pick(sizes, "length");
    u32 base = mc_bool("base") ? 0 : 0x08000000;
    scratch_file("huge", "");
    std::string path = scratch_path("huge");
    Dump d;
    std::string dump = scratch_file("regs", bytesOf(d));
    if (truncate(path.c_str(), (off_t)n)) { mc_prune(); }
    rt_alloc_limit((size_t)1 << 34);
    Loaded l = initWith({"--bin", path, fmt("0x%x", base), "--dump", dump});
    scratch_remove("huge");
    if (l.e.code == 0)
    {
        std::string xml = MemorySim_GetMemoryMapXML(l.cl.pMemory);
        CHECKK("unfit-accepted", base + n <= 1ull << 32, "an image of %llu bytes at 0x%08X was accepted: %s", (unsigned long long)n, base, xml.c_str());
        mc_fail("too-costly", "unexpected: a region of nearly 4 GB was loaded");
    }
    failedCleanly(l);
    mc_state(n);
    mc_outcome((uint64_t)l.e.code);
}

// ---------------------------------------------------------------- C19
int runMain(const std::vector<std::string>& a)
{
    std::vector<const char*> v{"CrashDebug"};
    for (auto& s : a) v.push_back(s.c_str());
    v.push_back(nullptr);
    Rsp rsp;
    rsp.add("?");
    rsp.attach();
    mc_step();
    int rc = cut_main((int)a.size() + 1, v.data());
    g_console.more = nullptr;
    std::string all;
    for (auto& s : a) all += " '" + s + "'";
    mc_note("CrashDebug%s -> %d; stderr \"%s\"", all.c_str(), rc, rt_err().substr(0, 200).c_str());
    return rc;
}
void expectFailure(int rc, const std::string& why)
{
    bool read = why == "fgets" || why == "fread";
    std::string key = why == "fgets" ? "log-read-error-ignored" : read ? "read-error-ignored" : "failure-ignored";
    CHECKK(key.c_str(), g_console.out.empty(), "a session was started after %s failed", why.c_str());
    CHECKK("exit-code", rc != 0, "exit code 0 after %s failed", why.c_str());
    CHECKK("no-error-line", rt_err().find("ERROR: ") != std::string::npos, "no ERROR line after %s failed: %s", why.c_str(), rt_err().c_str());
    CHECKK("no-usage", rt_err().find("Usage:") != std::string::npos, "no usage after %s failed", why.c_str());
    CHECKK("no-reason", rt_err().find("ERROR: \n") == std::string::npos || why == "malloc" || why == "fgets" || why == "reading a wrong digit", "the ERROR line is empty after %s failed", why.c_str());
}
std::string errorLine()
{
    std::string t = rt_err();
    size_t      i = t.find("ERROR: ");
    return i == std::string::npos ? "" : t.substr(i, t.find('\n', i) - i);
}
void expectNamed(const std::string& name)
{
    CHECKK("not-named", errorLine().find(name) != std::string::npos, "\"%s\" does not name %s", errorLine().c_str(), name.c_str());
}
void nothingLeft()
{
    CHECKK("leak", rt_live_allocs() == 0, "%zu blocks still allocated at the end", rt_live_allocs());
    CHECKK("file-left-open", rt_live_files() == 0, "a file is still open at the end");
}
void expectSession()
{
    CHECKK("session", g_console.out.find("$T") != std::string::npos, "no session was started: stdout \"%s\", stderr \"%s\"", g_console.out.c_str(), rt_err().substr(0, 300).c_str());
    CHECKK("noise", rt_err().find("ERROR") == std::string::npos, "an error was printed: %s", rt_err().c_str());
}
std::vector<std::string> loadArgs(u32 image, u32 dump, u32 al)
{
    allFiles();
    std::vector<std::string> a = image < 2 ? std::vector<std::string>{"--bin", pathOf(image), "0x08000000"} : std::vector<std::string>{"--elf", pathOf(image)};
    a.push_back("--dump"); a.push_back(pathOf(dump));
    for (auto& x : aliasLists()[al]) { a.push_back("--alias"); a.push_back(hex0x(x.base)); a.push_back(hex0x(x.size)); a.push_back(hex0x(x.to)); }
    return a;
}
void c19_faults()
{
    u32 image = mc_choose(3, "image") + 1, dump = 4 + mc_choose(4, "dump"), al = mc_choose(3, "aliases");
    if (al) al = al == 1 ? 3 : 12;
    std::vector<std::string> a = loadArgs(image, dump, al);
    g_fault.mallocBudget = g_fault.fopenBudget = g_fault.freadBudget = g_fault.fseekBudget = g_fault.ftellBudget = g_fault.fgetsBudget = g_fault.total = mc_tier(1, 2);
    int rc = runMain(a);
    nothingLeft();
    mc_outcome(mc_hash(rt_err(), mc_hash(std::string(rt_last_fault()))));
    mc_state(mc_hash(std::string(rt_last_fault()), image * 100 + dump));
    if (rt_faults_injected()) expectFailure(rc, rt_last_fault());
    else expectSession();
    if (rt_faults_injected() && !strcmp(rt_last_fault(), "fopen")) expectNamed(rt_not_opened());
    else if (rt_faults_injected() && strcmp(rt_last_fault(), "malloc") && rt_files_opened() == 1) expectNamed(a[1]);       // reading the image
}
void c19_both()       // more than one image or dump: only one of each counts, and the others don't help when it can't be loaded
{
    allFiles();
    static const char* cut[] = {"", "\x7f" "ELF", "text\n", "\x7f" "ELF\1\1\1"};
    u32 bad = mc_choose(7, "bad file");
    std::string p = bad < 4 ? scratch_file("bad", cut[bad]) : bad == 4 ? scratch_path("no such file") : bad == 5 ? scratch_path(".") : scratch_file("bad", files()[2].bytes.substr(0, 70));
    u32 what = mc_choose(5, "what"), at = mc_choose(3, "place of the dump");
    bool fails = what == 0 || what == 2;
    std::vector<std::string> elf = {"--elf", pathOf(2)}, elfBad = {"--elf", p}, bin = {"--bin", pathOf(1), "0x08000000"}, binBad = {"--bin", p, "0"}, dump = {"--dump", pathOf(4 + mc_choose(5, "dump"))}, dumpBad = {"--dump", p};
    std::vector<std::vector<std::string>> o;
    switch (what)
    {
    case 0: o = {elfBad, bin}; break;                         // an ELF image counts, wherever it is given
    case 1: o = {elf, binBad}; break;
    case 2: o = {elf, elfBad}; break;                         // the last one counts
    case 3: o = {elfBad, elf}; break;
    case 4: o = {dumpBad, elf}; break;
    }
    if (what < 2 && mc_bool("the other order")) std::swap(o[0], o[1]);
    if (what == 4 && at == 0) mc_prune();
    o.insert(o.begin() + at, dump);
    std::vector<std::string> a;
    for (auto& x : o) a.insert(a.end(), x.begin(), x.end());
    int rc = runMain(a);
    nothingLeft();
    mc_state(mc_hash(rt_err(), bad * 10 + what));
    mc_outcome(mc_hash(rt_err(), mc_hash(g_console.out)));
    if (!fails) { CHECKK("refused", g_console.out.find("$T") != std::string::npos, "refused because of a file that does not count: %s", rt_err().substr(0, 300).c_str()); return; }
    expectFailure(rc, "loading the image that counts");
    if (bad == 4) expectNamed("\"" + p + "\"");
}
void c19_truncated()  // every prefix of every image and dump
{
    u32 which = mc_choose((unsigned)files().size() - 2, "file") + 2;
    allFiles();
    std::string b = files()[which].bytes;
    b.resize(mc_choose((unsigned)b.size() + 1, "length"));
    std::string p = scratch_file("cut", b);
    bool image = which < 4;
    std::vector<std::string> a = image ? std::vector<std::string>{"--elf", p, "--dump", pathOf(4)} : std::vector<std::string>{"--dump", p, "--elf", pathOf(2)};
    int rc = runMain(a);
    nothingLeft();
    bool bad = false, known = image || files()[which].kind == BINARY;
    if (image) bad = judge(b).format;
    else if (files()[which].kind == BINARY)
    {
        Dump d = sampleDump((u32)files()[which].dump);
        size_t n = b.size(), at = headLen(d);
        bad = n >= 2;                                         // shorter: not recognisable as a dump
        if (n == at) bad = false;
        for (auto& r : d.regions) { at += 8 + r.data.size(); if (n == at) bad = false; }
    }
    mc_state(mc_hash(b));
    mc_outcome(mc_hash(rt_err()));
    if (known && bad) { CHECKK("partial-data", g_console.out.empty(), "a session was started from a file cut off after %zu bytes", b.size()); expectFailure(rc, "a truncated file"); }
    else if (known) expectSession();
    else if (g_console.out.empty()) expectFailure(rc, "a truncated file");
}
void c19_corrupt()    // one byte changed anywhere in a small image or dump: a session or a clean failure
{
    u32 which = mc_choose((unsigned)files().size() - 2, "file") + 2;
    allFiles();
    std::string b = files()[which].bytes;
    u32 at = mc_choose((unsigned)b.size(), "position");
    static const uint8_t xs[] = {0xFF, 0x80, 0x01, 0x20, 0x7F};
    b[at] = (char)(b[at] ^ xs[mc_choose((unsigned)mc_tier(2, 5), "bits")]);
    std::string p = scratch_file("cut", b);
    rt_alloc_limit(8 << 20);
    int rc = runMain(which < 4 ? std::vector<std::string>{"--elf", p, "--dump", pathOf(4)} : std::vector<std::string>{"--dump", p, "--elf", pathOf(2)});
    nothingLeft();
    mc_state(mc_hash(b));
    mc_outcome(mc_hash(rt_err()));
    if (g_console.out.empty()) { CHECKK("silent", rt_err().find("ERROR: ") != std::string::npos && rc != 0, "no session and no error (exit code %d)", rc); CHECKK("no-usage", rt_err().find("Usage:") != std::string::npos, "no usage"); }
    else expectSession();
}
void c19_kinds()      // one file for every reason there is to refuse it, beside a good one: the program ends the same way
{
    allFiles();
    u32 kind = mc_choose(9, "reason"), sample = mc_choose(3, "dump"), hex = mc_choose(2, "hex"), order = mc_choose(2, "order"), image = mc_choose(2, "image");
    Dump d = sampleDump(sample);
    std::string b, why = "loading a dump";
    bool limit = false;
    if (kind < 3) { d.regions.resize(std::min<size_t>(d.regions.size(), kind)); put32(d.tail, 0xACCE55ED); why = "a dump that ends in the stack overflow marker"; }
    else if (kind == 3) { put32(d.tail, 0x30000010); put32(d.tail, 0x30000000); d.tail += "0123"; why = "a region that ends before it starts"; }
    else if (kind == 4) { put32(d.tail, 0x30000000); put32(d.tail, 0xF0000000); d.tail += "0123"; limit = true; why = "a region too large to hold"; }
    else if (kind == 5) { put32(d.tail, 0x30000000); put32(d.tail, 0x30000008); d.tail += "0123"; why = "a region cut short"; }
    b = bytesOf(d);
    if (kind == 6) { b[2] = sample == 0 ? 1 : sample == 1 ? 4 : (char)0xFF; why = "an unknown version"; }
    if (kind == 7) { b[3] = sample == 0 ? 1 : sample == 1 ? 9 : (char)0xFF; why = "an unknown version"; }
    if (hex) { b = hexOf(b, Hexing()); if (kind == 8) b[b.size() - 20 - sample] = sample == 0 ? 'g' : sample == 1 ? ' ' : '-'; if (kind == 8) why = "reading a wrong digit"; }
    else if (kind == 8) mc_prune();
    std::string p = scratch_file("bad", b);
    std::vector<std::string> im = image ? std::vector<std::string>{"--elf", pathOf(2)} : std::vector<std::string>{"--bin", pathOf(1), "0x08000000"}, a = {"--dump", p};
    a.insert(order ? a.end() : a.begin(), im.begin(), im.end());
    if (limit) rt_alloc_limit(8 << 20);
    int rc = runMain(a);
    nothingLeft();
    expectFailure(rc, why);
    mc_state(mc_hashi(kind * 4 + sample, hex * 4 + order * 2 + image));
    mc_outcome(mc_hash(rt_err()));
}
void c19_missing()    // files that are not there or cannot be read
{
    allFiles();
    u32 what = mc_choose(4, "what");
    std::string p = what == 0 ? scratch_path("no such file") : what == 1 ? scratch_path(".") : what == 2 ? scratch_path("no such dir/file") : std::string();
    u32 where = mc_choose(3, "where");
    std::vector<std::string> a = where == 0 ? std::vector<std::string>{"--elf", p, "--dump", pathOf(4)} : where == 1 ? std::vector<std::string>{"--bin", p, "0", "--dump", pathOf(4)} : std::vector<std::string>{"--elf", pathOf(2), "--dump", p};
    int rc = runMain(a);
    nothingLeft();
    expectFailure(rc, what == 1 ? "opening a directory" : "opening a missing file");
    if (what != 1) expectNamed("\"" + p + "\"");
    mc_outcome(mc_hash(rt_err()));
}
void c19_args()       // wrong arguments end the program as well
{
    allFiles();
    static const std::vector<const char*> bad[] = {{}, {"--elf"}, {"--dump"}, {"--elf", "x"}, {"--bin", "x"}, {"--bin", "x", "0"}, {"word"}, {"--zzz"}, {"--alias", "1", "2"}, {"--dump", "x"}};
    auto& b = mc_pick(bad, "arguments");
    std::vector<std::string> a(b.begin(), b.end());
    int rc = runMain(a);
    nothingLeft();
    expectFailure(rc, "reading the arguments");
    CHECKK("opened", rt_files_opened() == 0, "files were opened");
    mc_outcome(mc_hash(rt_err()));
}
void c19_alias()
{
    static const Alias al[] = {{0x30000000, 4, 0x99999999}, {0x30000000, 4, 0}, {0x30000000, 4, 0xFFFFFFFF}, {0x30000000, 0, 0x0FFFFFFF}, {0x99999990, 0x12345, 0x0FFFFFFE}, {5, 123456789, 0xE0000001}};
    Alias x = mc_pick(al, "alias");
    std::vector<std::string> a = loadArgs(1 + mc_choose(2, "image"), 4 + mc_choose(4, "dump"), 0);
    for (int i = 0; i < 2; i++)
    {
        Alias y = i ? x : Alias{0x30000000, 4, 0x10000000};
        if (i == 0 && mc_bool("no good alias first")) continue;
        for (auto& s : {std::string("--alias"), hex0x(y.base), hex0x(y.size), hex0x(y.to)}) a.push_back(s);
    }
    int rc = runMain(a);
    nothingLeft();
    expectFailure(rc, "creating an alias");
    std::string e = errorLine();
    for (u32 n : {x.base, x.size, x.to}) CHECKK("not-named", shows(e, n), "\"%s\" does not show 0x%X (%u)", e.c_str(), n, n);
    mc_outcome(mc_hash(rt_err()));
}

// ---------------------------------------------------------------- C22
void c22_size()
{
    u32 k = mc_choose((unsigned)mc_tier(40, 60), "length");
    static const u32 big[] = {4095, 4096, 4097, 65535, 65536, 1000000, (1u << 20) + 1};
    u32 n = k < 33 ? k : k < 40 ? big[k - 33] : 5000 + k;
    u32 where = mc_choose(5, "position");
    std::string path = scratch_file("f", pattern(n, 3));
    FILE* f = fopen(path.c_str(), "rb");
    long pos = where == 0 ? 0 : where == 1 ? n / 2 : where == 2 ? (long)n : where == 3 ? (long)n + 10 : 1;
    fseek(f, pos, SEEK_SET);
    if (where == 4) fgetc(f);
    if (where == 2) fgetc(f);                                 // end of file flag set
    g_fault.fseekBudget = g_fault.ftellBudget = 1;
    g_fault.total = mc_tier(1, 2);
    long got = -7;
    mc_step();
    Ex e = cut([&] { got = GetFileSize(f); });
    long at = ftell(f);
    int first = fgetc(f);
    fclose(f);
    mc_note("file of %u bytes at position %ld -> %ld, exception %d", n, pos, got, e.code);
    if (rt_faults_injected()) CHECKK("fault-ignored", e.code == fileException, "exception %d although %s failed", e.code, rt_last_fault());
    else
    {
        CHECKK("size", e.code == 0 && got == (long)n, "the size of a file of %u bytes is reported as %ld (exception %d)", n, got, e.code);
        CHECKK("position", at == 0, "the file is left at position %ld", at);
        CHECKK("readable", n ? first == (int)(uint8_t)pattern(n, 3)[0] : first == EOF, "reading after it does not give the first byte");
    }
    mc_state(n);
    mc_outcome(mc_hashi((uint64_t)got, (uint64_t)e.code));
}
void c22_repeated()   // any sequence of calls on two open files: no call has an effect on a later one
{
    static const u32 len[2] = {5, 4099};
    FILE* f[2];
    for (int i = 0; i < 2; i++) f[i] = fopen(scratch_file(i ? "b" : "a", pattern(len[i], 3 + i)).c_str(), "rb");
    bool endless = mc_choose(2, "how many");
    u32  n = endless ? mc_tier(300u, 3000u) : mc_tier(4u, 5u);
    g_fault.fseekBudget = g_fault.ftellBudget = endless ? 0 : 1;
    g_fault.total = 1;
    for (u32 k = 0; k < n; k++)
    {
        u32  c = endless ? k % 6 : mc_choose(6, "file and position"), i = c & 1, where = c >> 1;
        long got = -7;
        fseek(f[i], where == 0 ? 0 : where == 1 ? 2 : (long)len[i], SEEK_SET);
        int before = rt_faults_injected();
        mc_step();
        Ex e = cut([&] { got = GetFileSize(f[i]); });
        if (rt_faults_injected() != before) CHECKK("fault-ignored", e.code == fileException, "call %u: exception %d although %s failed", k, e.code, rt_last_fault());
        else
        {
            CHECKK("size", e.code == 0 && got == (long)len[i], "call %u: the size of a file of %u bytes is reported as %ld (exception %d)", k, len[i], got, e.code);
            CHECKK("position", ftell(f[i]) == 0, "call %u leaves the file at position %ld", k, ftell(f[i]));
            CHECKK("readable", fgetc(f[i]) == (int)(uint8_t)pattern(1, 3 + i)[0], "call %u: reading after it does not give the first byte", k);
        }
        mc_state(mc_hashi(c, k));
    }
    for (FILE* x : f) fclose(x);
    mc_outcome(mc_hashi((uint64_t)rt_faults_injected(), 22));
}
void c22_sparse()     // files beyond 2 and 4 GB
{
    static const uint64_t sizes[] = {(1ull << 31) - 1, 1ull << 31, (1ull << 31) + 1, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 5, 1ull << 36};
    uint64_t n = mc_pick(sizes, "length");
    scratch_file("big", "");
    std::string path = scratch_path("big");
    if (truncate(path.c_str(), (off_t)n)) mc_prune();
    FILE* f = fopen(path.c_str(), "rb");
    long got = -7;
    mc_step();
    Ex e = cut([&] { got = GetFileSize(f); });
    long at = ftell(f);
    fclose(f);
    scratch_remove("big");
    CHECKK("size", e.code == 0 && got == (long)n && at == 0, "the size of a file of %llu bytes is reported as %ld (exception %d, position %ld)", (unsigned long long)n, got, e.code, at);
    mc_state(n);
    mc_outcome(n);
}

// ---------------------------------------------------------------- C30
// The commands a session may consist of; memory commands are derived from the map.
struct Step { char kind; u32 a, n; };      // '?' 'g' 'G' 'c' 's' 'm' 'M' 'X' 'x' memory map, 't' target description, 'u' unknown, 'D' kill
std::vector<Step> steps30(const RefMem& m)
{
    std::vector<Step> v = {{'?', 0, 0}, {'g', 0, 0}, {'G', 0, 0}, {'c', 0, 0}, {'s', 0, 0}, {'x', 0, 0}, {'t', 0, 0}, {'u', 0, 0}, {'m', 0x60006000, 4}};
    for (auto& r : m.r)
    {
        if (!r.size) continue;
        v.push_back({'m', r.base, std::min(r.size, 64u)});
        v.push_back({'m', r.base + r.size - 3, 6});
        v.push_back({'M', r.base + (r.size > 4), 3});
        v.push_back({'X', r.base & ~1u, 2});
    }
    return v;
}
void session30(const Meaning& m0, const std::vector<std::string>& a, const std::vector<Step>& steps)
{
    Meaning m = m0;
    struct Expect { Step s; std::string value; RegisterContext c; };
    std::vector<Expect> want;
    Rsp rsp;
    rsp.add("?");
    for (size_t i = 0; i < steps.size(); i++)
    {
        const Step& s = steps[i];
        Expect x{s, "", m.context};
        std::string d = pattern(s.n, 0x23 + 90 * (u32)i), h, body;      // '#' among the bytes
        for (char c : d) h += fmt("%02x", (uint8_t)c);
        switch (s.kind)
        {
        case '?': body = "?"; break;
        case 'g': body = "g"; x.value = registersHex(m.context); break;
        case 'G':
            {
                RegisterContext r = contextFrom(900 + (u32)i, m.context.flags);
                memcpy(m.context.R, r.R, sizeof r.R);
                if (m.context.flags & 1) memcpy(m.context.FPR, r.FPR, sizeof r.FPR);
                body = "G" + registersHex(m.context);
                x.value = "OK";
                break;
            }
        case 'c': case 's': body = std::string(1, s.kind); x.value = faultText(m.context.exceptionPSR, m.mem); break;
        case 'm': body = fmt("m%x,%x", s.a, s.n); x.value = readable(m.mem, s.a, s.n); break;
        case 'M': case 'X':
            {
                body = fmt("%c%x,%x:", s.kind, s.a, s.n) + (s.kind == 'M' ? h : gdbSees(d));
                bool ok = true;
                if ((s.n == 2 || s.n == 4) && s.a % s.n == 0) ok = m.mem.poke(s.a, (const uint8_t*)d.data(), s.n, false);
                else for (u32 k = 0; k < s.n && ok; k++) ok = m.mem.poke(s.a + k, (const uint8_t*)&d[k], 1, false);
                x.value = ok ? "OK" : "";
                break;
            }
        case 'x':
            {
                std::string xml = m.mem.xml();
                u32 n = s.n ? s.n : 0xFFF;
                body = fmt("qXfer:memory-map:read::%x,%x", s.a, n);
                x.value = (s.a + n >= xml.size() ? "l" : "m") + xml.substr(std::min((size_t)s.a, xml.size()), n);
                break;
            }
        case 't': body = "qXfer:features:read:target.xml:0,40"; break;
        case 'u': body = "vNothing;1"; break;
        }
        rsp.add(body);
        want.push_back(x);
    }
    std::vector<const char*> v{"CrashDebug"};
    for (auto& s : a) v.push_back(s.c_str());
    v.push_back(nullptr);
    rsp.attach();
    mc_step();
    int rc = cut_main((int)a.size() + 1, v.data());
    rsp.parse();
    g_console.more = nullptr;
    if (mc_tracing())
    {
        std::string all;
        for (auto& s : a) all += " '" + s + "'";
        mc_note("CrashDebug%s -> %d", all.c_str(), rc);
        for (size_t i = 0; i < rsp.script.size(); i++) mc_note("gdb: %s -> %s", rsp.script[i].substr(0, 100).c_str(), i + 1 < rsp.replies.size() ? rsp.replies[i + 1].last().substr(0, 160).c_str() : "nothing");
    }
    CHECKK("not-ended", rsp.ended, "the program ended after %zu of %zu commands", rsp.sent, rsp.script.size());
    CHECKK("error-line", rt_out().empty() && rt_err().find("Usage") == std::string::npos, "it printed \"%s%s\"", rt_out().c_str(), rt_err().substr(0, 200).c_str());
    CHECKK("stop", badStop(rsp.one(0), m0.context).empty(), "%s", badStop(rsp.one(0), m0.context).c_str());
    for (size_t i = 0; i < want.size(); i++)
    {
        const Expect& x = want[i];
        const char*   q = rsp.script[i + 1].c_str();
        switch (x.s.kind)
        {
        case '?': CHECKK("stop", badStop(rsp.one(i + 1), x.c).empty(), "%s", badStop(rsp.one(i + 1), x.c).c_str()); break;
        case 'c': case 's':
            {
                const Reply& r = rsp.answer(i + 1);
                CHECKK("fault-text", r.text() == x.value, "%s: the text is \"%s\", expected \"%s\"", q, r.text().c_str(), x.value.c_str());
                CHECKK("stop", badStop(r.last(), x.c).empty(), "%s", badStop(r.last(), x.c).c_str());
                break;
            }
        case 'm': case 'M': case 'X':
            if (x.value.empty()) CHECKK("memory-error", rsp.one(i + 1)[0] == 'E', "%s was answered with %s instead of an error", q, rsp.one(i + 1).c_str());
            else CHECKK("memory", rsp.one(i + 1) == x.value, "%s was answered with %s instead of %s", q, rsp.one(i + 1).c_str(), x.value.c_str());
            break;
        case 't': CHECKK("target", rsp.one(i + 1).compare(0, 6, "m<?xml") == 0, "%s was answered with %s", q, rsp.one(i + 1).c_str()); break;
        case 'u': CHECKK("unknown", rsp.one(i + 1).empty(), "%s was answered with %s", q, rsp.one(i + 1).c_str()); break;
        default: CHECKK("answer", rsp.one(i + 1) == x.value, "%s was answered with\n%s\ninstead of\n%s", q, rsp.one(i + 1).c_str(), x.value.c_str()); break;
        }
    }
    nothingLeft();
    mc_state(mc_hash(&m.context, sizeof m.context, m.mem.hash()));
    mc_outcome(mc_hash(g_console.out));
}
void c30_run(u32 image, u32 dump, u32 al, u32 n)
{
    static std::map<std::array<u32, 3>, std::pair<std::vector<std::string>, Meaning>> cache;
    auto it = cache.find({image, dump, al});
    if (it == cache.end())
    {
        std::vector<std::string> a = loadArgs(image, dump, al);
        it = cache.emplace(std::array<u32, 3>{image, dump, al}, std::make_pair(a, meaning(a))).first;
    }
    const Meaning& m = it->second.second;
    if (m.code) mc_prune();
    std::vector<Step> all = steps30(m.mem), s;
    for (u32 i = 0; i < n; i++) s.push_back(all[mc_choose((unsigned)all.size(), "command")]);
    session30(m, it->second.first, s);
}
void c30_files()
{
    u32 image = mc_choose(4, "image"), dump = 4 + mc_choose(5, "dump"), al = mc_choose((unsigned)aliasLists().size(), "aliases");
    c30_run(image, dump, al, mc_choose((unsigned)mc_tier(mc_asan() ? 2 : 3, mc_asan() ? 3 : 4), "commands"));
}
void c30_sessions()
{
    u32 image = 1 + 2 * mc_choose(2, "image"), dump = 4 + mc_choose(4, "dump"), al = 3 * mc_choose(2, "aliases");
    c30_run(image, dump, al, (u32)mc_tier(mc_asan() ? 1 : 3, mc_asan() ? 3 : 4));
}
void c30_contents()   // other images and dumps: lengths, flags, versions, forms, numbers of regions, exceptions
{
    std::vector<std::string> a;
    Meaning m = variety(a);
    session30(m, a, steps30(m.mem));
}
void c30_elves() { std::vector<std::string> a; Meaning m = varietyOfElf(a); session30(m, a, steps30(m.mem)); }
void c30_extremes()
{
    std::vector<std::string> a;
    Meaning m = varietyOfExtremes(a);
    std::vector<Step> steps;
    for (u32 at = 0; at <= m.mem.xml().size(); at += 0x1000) steps.push_back({'x', at, 0x1000});
    for (auto& r : m.mem.r) for (u32 at = 64; at < r.size && at < 100000; at += 2000) steps.push_back({'m', r.base + at, 2000});
    std::vector<Step> all = steps30(m.mem);
    all.erase(std::remove_if(all.begin(), all.end(), [](const Step& s) { return s.kind == 'x'; }), all.end());
    steps.insert(steps.end(), all.begin(), all.end());
    session30(m, a, steps);
}
void c30_logs() { std::vector<std::string> a; Meaning m = varietyOfLog(a); session30(m, a, steps30(m.mem)); }
void c30_arguments()  // from one to hundreds of arguments
{
    std::vector<std::string> a = loadArgs(1 + mc_choose(2, "image"), 4 + mc_choose(4, "dump"), 0);
    u32 n = mc_choose((unsigned)mc_tier(76, 300), "aliases");
    bool first = mc_bool("aliases first");
    std::vector<std::string> all;
    for (u32 i = 0; i < n; i++)
        for (auto& w : {std::string("--alias"), hex0x(0x30000000 + i * 16), std::string("4"), hex0x(0x10000000 + i % 5)}) all.push_back(w);
    a.insert(first ? a.begin() : a.end(), all.begin(), all.end());
    Meaning m = meaning(a);
    std::vector<Step> s = {{'?', 0, 0}, {'m', 0x10000000, 8}, {'g', 0, 0}};
    if (n) for (u32 i : {0u, n / 2, n - 1}) { s.push_back({'m', 0x30000000 + i * 16, 4}); s.push_back({'M', 0x30000001 + i * 16, 2}); s.push_back({'m', 0x10000000, 8}); s.push_back({'m', 0x30000003 + i * 16, 2}); }
    session30(m, a, s);
}
void c30_long()       // any number of commands in one session
{
    static const u32 ns[] = {127, 128, 255, 256, 257, 300, 1000, 32768, 65536, 65537};
    std::vector<std::string> a = loadArgs(1 + mc_choose(2, "image"), 4 + mc_choose(4, "dump"), 3);
    u32 n = ns[mc_choose((unsigned)mc_tier(7, 10), "commands")];
    Meaning m = meaning(a);
    std::vector<Step> all = steps30(m.mem), s;
    u32 i = mc_choose((unsigned)all.size(), "command"), k = n < 300 ? mc_choose((unsigned)all.size(), "other") : i;
    if (n < 300 && n != 256 && k != i) mc_prune();
    for (u32 j = 0; j < n; j++) s.push_back(all[j % 2 ? k : i]);
    for (auto& x : all) s.push_back(x);
    session30(m, a, s);
}
void c30_ends()       // the input ends, or the console fails, anywhere: the program cleans up and ends
{
    static const u32 dumps[] = {4, 5, 7};
    std::vector<std::string> a = loadArgs(2, mc_pick(dumps, "dump"), 3);
    Rsp rsp;
    for (auto b : {"?", "g", "m10000000,8", "M10000000,1:5a", "c", "qXfer:memory-map:read::0,400", "s"}) rsp.add(b);
    rsp.attach();
    g_console.budget = 100000;
    u32  how = mc_choose(4, "what fails");
    long n = (long)mc_choose(how == 0 ? 260 : how == 1 ? 260 : how == 2 ? (unsigned)mc_tier(400, 2600) : 16, "when"), left = n;
    if (how == 0) cutInput(rsp, (size_t)n);
    int op = (int)how - 1;
    if (how) g_console.error = [&](int, int o) { return o == op && left-- <= 0 ? EIO : 0; };
    std::vector<const char*> v{"CrashDebug"};
    for (auto& s : a) v.push_back(s.c_str());
    v.push_back(nullptr);
    mc_step();
    cut_main((int)a.size() + 1, v.data());
    g_console.more = nullptr;
    mc_note("%s after %ld: %zu bytes were read, %zu written", how == 0 ? "end of input" : how == 1 ? "read error" : how == 2 ? "write error" : "select error", n, g_console.pos, g_console.out.size());
    if (how == 0 && n < 2) CHECKK("unasked", g_console.out.empty(), "without a command from GDB it sent %s", g_console.out.substr(0, 80).c_str());
    if (how == 0) CHECKK("input", g_console.pos == std::min((size_t)n, g_console.in.size()), "it ended before its input");
    nothingLeft();
    mc_state(mc_hashi(how, (uint64_t)n));
    mc_outcome(mc_hash(g_console.out));
}
}

#if defined(PROP_C17)
MODELS(PROP, {"case", c17_case, "letter case"}, {"numbers", c17_numbers, "numbers"}, {"lookalikes", c17_lookalikes, "words that are no option"}, {"names", c17_names, "long names"}, {"oddnames", c17_oddnames, "odd names"}, {"long", c17_long, "long argument lists"}, {"options", c17_options, "sequences of options"}, {"vectors", c17_vectors, "all argument vectors"});
#elif defined(PROP_C18)
MODELS(PROP, {"combinations", c18_combinations, "image, dump, aliases, order"}, {"same", c18_same, "any file in any role"}, {"headers", c18_headers, "first bytes of the dump"}, {"many", c18_many, "many aliases"}, {"contents", c18_contents, "images and dumps"}, {"elves", c18_elves, "ELF images"}, {"logs", c18_logs, "GDB logs"}, {"extremes", c18_extremes, "limits"}, {"names", c18_names, "names of every sort"}, {"again", c18_again, "loads one after the other"});
#elif defined(PROP_C19)
MODELS(PROP, {"args", c19_args, "wrong arguments"}, {"both", c19_both, "several images or dumps"}, {"missing", c19_missing, "missing files"}, {"alias", c19_alias, "bad aliases"}, {"kinds", c19_kinds, "every reason to fail"}, {"faults", c19_faults, "one failed call"}, {"truncated", c19_truncated, "truncated files"}, {"corrupt", c19_corrupt, "damaged files"});
#elif defined(PROP_C20)
MODELS(PROP, {"sizes", c20_sizes, "lengths and bases"}, {"contents", c20_contents, "contents"}, {"large", c20_large, "around powers of two"}, {"huge", c20_huge, "4 GB and more"});
#elif defined(PROP_C30)
MODELS(PROP, {"ends", c30_ends, "end of input, console errors"}, {"contents", c30_contents, "images and dumps"}, {"elves", c30_elves, "ELF images"}, {"logs", c30_logs, "GDB logs"}, {"extremes", c30_extremes, "limits"}, {"arguments", c30_arguments, "many arguments"}, {"long", c30_long, "long sessions"}, {"files", c30_files, "image, dump, aliases, short sessions"}, {"sessions", c30_sessions, "longer sessions"});
#else
MODELS(PROP, {"size", c22_size, "lengths, positions, faults"}, {"repeated", c22_repeated, "sequences of calls on two files"}, {"sparse", c22_sparse, "2 GB and more"});
#endif
