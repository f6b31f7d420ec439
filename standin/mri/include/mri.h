/* Stand-in for mri/include/mri.h. */
#ifndef _MRI_H_
#define _MRI_H_
#include <stdint.h>
#define MRI_ERROR_INVALID_ARGUMENT          "E01"
#define MRI_ERROR_MEMORY_ACCESS_FAILURE     "E03"
#define MRI_ERROR_BUFFER_OVERRUN            "E04"
#define MRI_ERROR_NO_FREE_BREAKPOINT        "E05"
void __mriInit(const char* pDebuggerParameters);
void __mriDebugException(void);
#endif
