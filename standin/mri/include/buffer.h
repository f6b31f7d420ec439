/* Stand-in for mri/include/buffer.h. */
#ifndef _BUFFER_H_
#define _BUFFER_H_
#include <stddef.h>
#include <stdint.h>
#include <try_catch.h>
typedef struct
{
    char* pStart;
    char* pEnd;
    char* pCurrent;
} Buffer;
#define Buffer_Init                                  __mriBuffer_Init
#define Buffer_Reset                                 __mriBuffer_Reset
#define Buffer_SetEndOfBuffer                        __mriBuffer_SetEndOfBuffer
#define Buffer_BytesLeft                             __mriBuffer_BytesLeft
#define Buffer_GetLength                             __mriBuffer_GetLength
#define Buffer_GetArray                              __mriBuffer_GetArray
#define Buffer_OverrunDetected                       __mriBuffer_OverrunDetected
#define Buffer_WriteChar                             __mriBuffer_WriteChar
#define Buffer_ReadChar                              __mriBuffer_ReadChar
#define Buffer_WriteByteAsHex                        __mriBuffer_WriteByteAsHex
#define Buffer_ReadByteAsHex                         __mriBuffer_ReadByteAsHex
#define Buffer_WriteString                           __mriBuffer_WriteString
#define Buffer_WriteSizedString                      __mriBuffer_WriteSizedString
#define Buffer_ReadUIntegerAsHex                     __mriBuffer_ReadUIntegerAsHex
#define Buffer_WriteUIntegerAsHex                    __mriBuffer_WriteUIntegerAsHex
#define Buffer_ReadIntegerAsHex                      __mriBuffer_ReadIntegerAsHex
#define Buffer_WriteIntegerAsHex                     __mriBuffer_WriteIntegerAsHex
#define Buffer_IsNextCharEqualTo                     __mriBuffer_IsNextCharEqualTo
#define Buffer_MatchesString                         __mriBuffer_MatchesString
void     Buffer_Init(Buffer* pBuffer, char* pBufferStart, size_t bufferSize);
void     Buffer_Reset(Buffer* pBuffer);
void     Buffer_SetEndOfBuffer(Buffer* pBuffer);
size_t   Buffer_BytesLeft(Buffer* pBuffer);
size_t   Buffer_GetLength(Buffer* pBuffer);
char*    Buffer_GetArray(Buffer* pBuffer);
int      Buffer_OverrunDetected(Buffer* pBuffer);
void     Buffer_WriteChar(Buffer* pBuffer, char character);
char     Buffer_ReadChar(Buffer* pBuffer);
void     Buffer_WriteByteAsHex(Buffer* pBuffer, uint8_t byte);
uint8_t  Buffer_ReadByteAsHex(Buffer* pBuffer);
void     Buffer_WriteString(Buffer* pBuffer, const char* pString);
void     Buffer_WriteSizedString(Buffer* pBuffer, const char* pString, size_t length);
uint32_t Buffer_ReadUIntegerAsHex(Buffer* pBuffer);
void     Buffer_WriteUIntegerAsHex(Buffer* pBuffer, uint32_t value);
int32_t  Buffer_ReadIntegerAsHex(Buffer* pBuffer);
void     Buffer_WriteIntegerAsHex(Buffer* pBuffer, int32_t value);
int      Buffer_IsNextCharEqualTo(Buffer* pBuffer, char thisChar);
int      Buffer_MatchesString(Buffer* pBuffer, const char* pDesiredString, size_t stringLength);
#endif
