// Public API of the code under test, for the C++ harnesses.
#pragma once
#include "mc.h"
#include <algorithm>
#include <array>
#include <cstdarg>
#include <cstdlib>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <vector>
extern "C"
{
#include <common.h>
#include <Console.h>
#include <CrashCatcherDump.h>
#include <CrashDebugCommandLine.h>
#include <ElfLoad.h>
#include <GdbLogParser.h>
#include <IComm.h>
#include <IMemory.h>
#include <MemorySim.h>
#include <mriPlatform.h>
#include <StandardIComm.h>
#include <try_catch.h>
void mriPlatform_Run(IComm* pComm);
}
#undef __try
#undef __catch
