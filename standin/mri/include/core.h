/* Stand-in for mri/include/core.h. */
#ifndef _CORE_H_
#define _CORE_H_
#include <stdint.h>
#include <buffer.h>
#include <token.h>
#include <mri.h>
#define InitBuffer                                   __mriCore_InitBuffer
#define PrepareStringResponse                        __mriCore_PrepareStringResponse
#define WasSuccessfullyInit                          __mriCore_WasSuccessfullyInit
#define WasControlCFlagSentFromGdb                   __mriCore_WasControlCFlagSentFromGdb
#define IsWaitingForGdbToConnect                     __mriCore_IsWaitingForGdbToConnect
#define RecordControlCFlagSentFromGdb                __mriCore_RecordControlCFlagSentFromGdb
#define WasSemihostCallCancelledByGdb                __mriCore_WasSemihostCallCancelledByGdb
#define FlagSemihostCallAsHandled                    __mriCore_FlagSemihostCallAsHandled
#define IsFirstException                             __mriCore_IsFirstException
#define SetSignalValue                               __mriCore_SetSignalValue
#define GetSignalValue                               __mriCore_GetSignalValue
#define SetSemihostReturnValues                      __mriCore_SetSemihostReturnValues
#define GetSemihostReturnCode                        __mriCore_GetSemihostReturnCode
#define GetSemihostErrno                             __mriCore_GetSemihostErrno
#define GetBuffer                                    __mriCore_GetBuffer
#define GetInitializedBuffer                         __mriCore_GetInitializedBuffer
#define SendPacketToGdb                              __mriCore_SendPacketToGdb
#define GdbCommandHandlingLoop                       __mriCore_GdbCommandHandlingLoop
#define PrepareEmptyResponseForUnknownCommand() PrepareStringResponse("")
void    InitBuffer(void);
void    PrepareStringResponse(const char* pErrorString);
int     WasSuccessfullyInit(void);
int     WasControlCFlagSentFromGdb(void);
int     IsWaitingForGdbToConnect(void);
void    RecordControlCFlagSentFromGdb(int controlCFlag);
int     WasSemihostCallCancelledByGdb(void);
void    FlagSemihostCallAsHandled(void);
int     IsFirstException(void);
void    SetSignalValue(uint8_t signalValue);
uint8_t GetSignalValue(void);
void    SetSemihostReturnValues(int returnCode, int err);
int     GetSemihostReturnCode(void);
int     GetSemihostErrno(void);
Buffer* GetBuffer(void);
Buffer* GetInitializedBuffer(void);
void    SendPacketToGdb(void);
void    GdbCommandHandlingLoop(void);
#endif
