/* Stand-in for adamgreen/CrashCatcher's include/CrashCatcher.h (an empty submodule in /repo). */
#ifndef _CRASH_CATCHER_H_
#define _CRASH_CATCHER_H_
#include <stdint.h>

#define CRASH_CATCHER_SIGNATURE_BYTE0 'c'
#define CRASH_CATCHER_SIGNATURE_BYTE1 'C'
#define CRASH_CATCHER_VERSION_MAJOR 3
#define CRASH_CATCHER_VERSION_MINOR 0
#define CRASH_CATCHER_FLAGS_FLOATING_POINT (1 << 0)
#define CRASH_CATCHER_STACK_SENTINEL 0xACCE55ED

typedef enum { CRASH_CATCHER_BYTE = 1, CRASH_CATCHER_HALFWORD = 2, CRASH_CATCHER_WORD = 4 } CrashCatcherElementSizes;
typedef enum { CRASH_CATCHER_TRY_AGAIN = 0, CRASH_CATCHER_EXIT = 1 } CrashCatcherReturnCodes;

typedef struct
{
    uint32_t startAddress;
    uint32_t endAddress;
} CrashCatcherMemoryRegionInfo;
#endif
