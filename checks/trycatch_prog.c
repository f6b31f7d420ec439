/* C21: runs programs of try/catch/throw, made up as they go by the explorer, through the repository's macros. */
#include <stdlib.h>
void prog_debugbreak(void);
void cut_exit(int code);
#define exit(CODE) cut_exit(CODE)
#define __debugbreak() prog_debugbreak()
#include <try_catch.h>
#include "trycatch_prog.h"

int prog_code(void) { return getExceptionCode(); }
const char* prog_message(void) { return getExceptionMessage(); }
int prog_depth(void)
{
    int n = 0;
    const ExceptionHandler* p = g_pExceptionHandlers;
    for (; p && n < 100000; p = p->pPrevious) n++;
    return n;
}

#define KINDS X(undefinedException) X(unpredictableException) X(outOfMemoryException) X(busErrorException) X(alignmentException) X(bkptException) X(badResponseException) X(serialException) \
    X(hardwareBreakpointException) X(hardwareWatchpointException) X(socketException) X(fileException) X(coverageException) X(elfFormatException) X(fileFormatException) X(stackOverflowException) \
    X(bufferOverrunException) X(invalidArgumentException) X(noException)
#define X(N) N,
static const int g_kinds[] = {KINDS};
#undef X
#define X(N) #N,
static const char* const g_kindNames[] = {KINDS};
int prog_kinds(void) { return (int)(sizeof g_kinds / sizeof g_kinds[0]) - 1; }
int prog_kind(int i) { return g_kinds[i]; }
const char* prog_kindName(int i) { return g_kindNames[i]; }
int prog_none(void) { return noException; }

static void block(void);
static __attribute__((noinline)) void called(void) { block(); }
static __attribute__((noinline)) void calledNoThrow(void) { block(); __nothrow; }
static __attribute__((noinline)) int calledNoThrowAndReturn(void) { block(); __nothrow_and_return(prog_returned()); }
static __attribute__((noinline)) void deeper(int n, int code) { if (n) deeper(n - 1, code); else __throw(code); prog_unreachable("after a throw in a called function"); }
static __attribute__((noinline)) void tryBlock(void)
{
    volatile int id = prog_new();
    volatile int canary = id * 1001 + 7;
    __try
    {
        prog_entered(id);
        block();
        prog_finishing(id);
    }
    __catch
    {
        prog_handler(id);
        block();
        prog_handled(id);
    }
    if (canary != id * 1001 + 7) prog_unreachable("with damaged local variables");
    prog_after(id);
}
static __attribute__((noinline)) void sequentialTries(void)        /* two blocks in one function, one in a loop */
{
    volatile int i;
    for (i = 0; i < 2; i++)
    {
        volatile int id = prog_new();
        __try
        {
            prog_entered(id);
            block();
            prog_finishing(id);
        }
        __catch
        {
            prog_handler(id);
            clearExceptionCode();
            prog_cleared();
            prog_handled(id);
        }
        prog_after(id);
    }
}
static void entered(int id) { prog_entered(id); block(); prog_finishing(id); }
static __attribute__((noinline)) void tryAndCatch(void)
{
    volatile int id = prog_new();
    prog_silent(id);
    __try_and_catch( entered(id) );
    prog_after(id);
}
static __attribute__((noinline)) void noBraces(void)
{
    volatile int id = prog_new();
    __try
        entered(id);
    __catch
        prog_handled(prog_handler(id));
    prog_after(id);
}
static void block(void)
{
    for (;;)
        switch (prog_next())
        {
        case PROG_END: return;
        case PROG_TRY: tryBlock(); break;
        case PROG_TWO: sequentialTries(); break;
        case PROG_SILENT: tryAndCatch(); break;
        case PROG_NOBRACES: noBraces(); break;
        case PROG_CALL: called(); break;
        case PROG_NOTHROW: calledNoThrow(); prog_cleared(); break;
        case PROG_NOTHROW_RET: if (calledNoThrowAndReturn() != 7077) prog_unreachable("with a wrong return value"); prog_cleared(); break;
        case PROG_THROW: __throw(prog_throwing(0)); prog_unreachable("after a throw"); break;
        case PROG_THROW_DEEP: deeper(9, prog_throwing(0)); prog_unreachable("after a throw"); break;
        case PROG_THROW_MSG:
            {
                int c = prog_throwing(1);
                __throw_msg(c, "%s%d", prog_text(), prog_number());
                prog_unreachable("after a throw");
                break;
            }
        case PROG_RETHROW: prog_throwing(2); __rethrow; prog_unreachable("after a rethrow"); break;
        case PROG_SET: setExceptionCode(prog_setting()); prog_set(); break;
        case PROG_CLEAR: clearExceptionCode(); prog_cleared(); break;
        }
}
void prog_run(void) { block(); }
