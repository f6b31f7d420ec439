/* Between the explorer (trycatch.cpp) and the program it makes up (trycatch_prog.c). */
#pragma once
enum { PROG_END, PROG_THROW, PROG_TRY, PROG_THROW_MSG, PROG_RETHROW, PROG_CLEAR, PROG_SET, PROG_CALL, PROG_NOTHROW, PROG_NOTHROW_RET, PROG_SILENT, PROG_NOBRACES, PROG_TWO, PROG_THROW_DEEP, PROG_OPS };
#ifdef __cplusplus
extern "C" {
#endif
void        prog_run(void);
int         prog_code(void);
const char* prog_message(void);
int         prog_depth(void);
int         prog_kinds(void);
int         prog_kind(int i);
const char* prog_kindName(int i);
int         prog_none(void);
/* called by the program */
int  prog_next(void);
int  prog_new(void);
void prog_entered(int id);
void prog_finishing(int id);
int  prog_handler(int id);
void prog_handled(int id);
void prog_silent(int id);
void prog_after(int id);
int  prog_throwing(int how);        /* 0 code, 1 code and message, 2 again */
const char* prog_text(void);
int  prog_number(void);
int  prog_setting(void);
void prog_set(void);
void prog_cleared(void);
int  prog_returned(void);
void prog_unreachable(const char* where);
void prog_debugbreak(void);
#ifdef __cplusplus
}
#endif
