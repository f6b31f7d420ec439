/* Stand-in for mri/include/semihost.h. */
#ifndef _SEMIHOST_H_
#define _SEMIHOST_H_
#include <platforms.h>
#define Semihost_IsDebuggeeMakingSemihostCall        __mriSemihost_IsDebuggeeMakingSemihostCall
#define Semihost_HandleSemihostRequest               __mriSemihost_HandleSemihostRequest
#define Semihost_HandleNewlibSemihostRequest         __mriSemihost_HandleNewlibSemihostRequest
#define Semihost_HandleMbedSemihostRequest           __mriSemihost_HandleMbedSemihostRequest
#define Semihost_WriteToFileOrConsole                __mriSemihost_WriteToFileOrConsole
int Semihost_IsDebuggeeMakingSemihostCall(void);
int Semihost_HandleSemihostRequest(void);
int Semihost_HandleNewlibSemihostRequest(PlatformSemihostParameters* pSemihostParameters);
int Semihost_HandleMbedSemihostRequest(PlatformSemihostParameters* pSemihostParameters);
#endif
