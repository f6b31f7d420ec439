/* Stand-in for mri/include/memory.h. */
#ifndef _MRI_MEMORY_H_
#define _MRI_MEMORY_H_
/* mri's memory.h shadows the libc header of the same name on the include path. */
#include_next <memory.h>
#include <stdint.h>
#include <buffer.h>
#define ReadMemoryIntoHexBuffer   __mriMem_ReadMemoryIntoHexBuffer
#define WriteHexBufferToMemory    __mriMem_WriteHexBufferToMemory
#define WriteBinaryBufferToMemory __mriMem_WriteBinaryBufferToMemory
uint32_t ReadMemoryIntoHexBuffer(Buffer* pBuffer, const void* pvMemory, uint32_t readByteCount);
int      WriteHexBufferToMemory(Buffer* pBuffer, void* pvMemory, uint32_t writeByteCount);
int      WriteBinaryBufferToMemory(Buffer* pBuffer, void* pvMemory, uint32_t writeByteCount);
#endif
