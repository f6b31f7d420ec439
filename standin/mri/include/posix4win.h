/* Stand-in for mri/include/posix4win.h. */
#ifndef _POSIX4WIN_H_
#define _POSIX4WIN_H_
#include <signal.h>
#endif
