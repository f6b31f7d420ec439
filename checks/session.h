// A debugging session on a memory and registers made by the harness.
#pragma once
#include "rsp.h"

namespace
{
typedef uint32_t u32;
struct Session
{
    RegisterContext c;
    IMemory*        m = nullptr;
    RefMem          ref;
    Rsp             rsp;
    Ex              e{0, ""};
    void create(u32 base, const std::string& data, bool ro)
    {
        MemorySim_CreateRegion(m, base, (u32)data.size());
        MemorySim_LoadFromFlashImage(m, base, data.data(), (u32)data.size());
        ref.create(base, (u32)data.size());
        ref.r.back().data.assign(data.begin(), data.end());
        if (ro) { MemorySim_MakeRegionReadOnly(m, base); ref.makeRO(base); }
    }
    void alias(u32 base, u32 to, u32 size) { MemorySim_CreateAlias(m, base, to, size); ref.alias(base, to, size); }
    Session() { memset(&c, 0, sizeof c); m = MemorySim_Init(); }
    void run()
    {
        IComm* comm = StandardIComm_Init();
        rsp.attach();
        e = cut([&] { mriPlatform_Init(&c, m); mriPlatform_Run(comm); });
        rsp.parse();
        for (size_t i = 0; i < rsp.script.size() && (i < 12 || mc_tracing()); i++)
        {
            mc_step();
            std::string a = i + 1 < rsp.replies.size() ? rsp.replies[i + 1].acks : "?";
            if (mc_tracing() && i + 1 < rsp.replies.size()) for (auto& p : rsp.replies[i + 1].packets) a += " " + p.substr(0, 160);
            mc_note("gdb: %s -> %s", rsp.script[i].substr(0, 160).c_str(), a.c_str());
        }
        CHECKK("not-ended", e.code == fileException && rsp.ended, "the session ended with exception %d after %zu of %zu commands", e.code, rsp.sent, rsp.script.size());
    }
    void close()                                // makes room for another session
    {
        MemorySim_Uninit(m);
        m = nullptr;
        g_console = Console();
    }
    void sameMemory()
    {
        std::string want = ref.xml();
        const char* xml = MemorySim_GetMemoryMapXML(m);
        CHECKK("memory-map-changed", want == xml, "the memory map is %s, expected %s", xml, want.c_str());
        for (auto& r : ref.r)
        {
            if (!r.size || r.target >= 0) continue;
            const uint8_t* p = (const uint8_t*)MemorySim_MapSimulatedAddressToHostAddressForRead(m, r.base, r.size);
            for (u32 i = 0; i < r.size; i++) CHECKK("memory-changed", p[i] == r.data[i], "the byte at 0x%08X is 0x%02X, expected 0x%02X", r.base + i, p[i], r.data[i]);
        }
    }
    void sameContext(const RegisterContext& want) { CHECKK("registers-changed", !memcmp(&want, &c, sizeof c), "%s", describe(want, c).c_str()); }
};
}
