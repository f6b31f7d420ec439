/* Stand-in for mri/include/try_catch.h. */
#ifndef _MRI_TRY_CATCH_H_
#define _MRI_TRY_CATCH_H_

#include <stdlib.h>

#define noException                         0
#define bufferOverrunException              1
#define invalidHexDigitException            2
#define invalidValueException               3
#define invalidArgumentException            4
#define timeoutException                    5
#define invalidIndexException               6
#define notFoundException                   7
#define exceededHardwareResourcesException  8
#define invalidDecDigitException            9
#define memFaultException                   10
#define mriMaxException                     15

#ifndef MRI_SKIP_TRY_CATCH_MACRO_DEFINES
extern int __mriExceptionCode;

#undef __try
#undef __catch
#define __throws
#define __try do { clearExceptionCode();
#define __throwing_func(X) X; if (__mriExceptionCode) break;
#define __catch } while (0); if (__mriExceptionCode)
#define __throw(EXCEPTION) return ((void)setExceptionCode(EXCEPTION))
#define __throw_and_return(EXCEPTION, RETURN) return (setExceptionCode(EXCEPTION), (RETURN))
#define __rethrow return
#define __rethrow_and_return(RETURN) return RETURN

static inline int getExceptionCode(void) { return __mriExceptionCode; }
static inline void setExceptionCode(int exceptionCode)
{
    __mriExceptionCode = exceptionCode > __mriExceptionCode ? exceptionCode : __mriExceptionCode;
}
static inline void clearExceptionCode(void) { __mriExceptionCode = noException; }
#endif
#ifndef __throws
#define __throws
#endif
#endif
