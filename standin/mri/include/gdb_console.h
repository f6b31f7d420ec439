/* Stand-in for mri/include/gdb_console.h. */
#ifndef _GDB_CONSOLE_H_
#define _GDB_CONSOLE_H_
#include <stdint.h>
#define WriteStringToGdbConsole   __mriGdbConsole_WriteString
#define WriteHexValueToGdbConsole __mriGdbConsole_WriteHexValue
void WriteStringToGdbConsole(const char* pString);
void WriteHexValueToGdbConsole(uint32_t Value);
#endif
