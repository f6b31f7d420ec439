/* Compiled with the repository's own headers: runs a function with the code under test's exceptions caught. */
#include <stdlib.h>
#include <try_catch.h>
int  shim_code;
char shim_message[1024];
void shim_call(void (*fn)(void*), void* arg)
{
    void (* volatile f)(void*) = fn;
    void* volatile             a = arg;
    __try
        f(a);
    __catch
    {
    }
    shim_code = getExceptionCode();
    shim_message[0] = '\0';
    if (shim_code)
        snprintf(shim_message, sizeof(shim_message), "%s", getExceptionMessage());
    clearExceptionCode();
}
