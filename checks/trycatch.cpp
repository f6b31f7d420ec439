// C21: the exception macros. The program is made up while it runs; a monitor knows where it must arrive next.
#include "mc.h"
#include "trycatch_prog.h"
#include <set>

namespace
{
struct Monitor
{
    std::vector<int> stack;           // active blocks
    int  code = 0;
    std::string msg;
    int  budget = 0, ids = 0;
    char expect = 0;                  // 0 anything, 'h' handler of expectId, 'a' after expectId, 'x' end of the program
    int  expectId = 0;
    bool broke = false;
    int  kind = 0;                    // the exception to throw, 0 for any
    std::vector<int> handling;        // handlers being run, innermost last
    std::set<int> silent;             // blocks whose handler is empty
    std::string text;
    int  number = 0;
    int  blocks = 0;                  // open blocks of statements are closed by the budget
    uint64_t h = 11;
    int  (*op)(Monitor&) = nullptr;
    size_t base = 0;                  // length of the text of throw_msg
} M;
void same(const char* where)
{
    mc_step();
    CHECKK("code", prog_code() == M.code, "%s: the exception code is %d, expected %d", where, prog_code(), M.code);
    CHECKK("message", M.msg == prog_message(), "%s: the message is \"%.60s\" (%zu characters), expected \"%.60s\" (%zu)", where, prog_message(), strlen(prog_message()), M.msg.c_str(), M.msg.size());
    CHECKK("active-blocks", prog_depth() == (int)M.stack.size(), "%s: %d blocks are active, expected %zu", where, prog_depth(), M.stack.size());
    M.h = mc_hash(where, strlen(where), mc_hashi((uint64_t)M.code * 100 + M.stack.size(), M.h));
    mc_state(mc_hash(M.msg, mc_hash(M.stack.data(), M.stack.size() * sizeof(int), mc_hashi((uint64_t)M.code, mc_hashv(M.handling)))));
}
void arrived(char kind, int id, const char* where)
{
    if (M.expect && (M.expect != kind || M.expectId != id))
        mc_fail("wrong-place", "the program arrived %s block %d, but should have %s", where, id, M.expect == 'h' ? fmt("entered the handler of block %d", M.expectId).c_str() : M.expect == 'a' ? fmt("continued after block %d", M.expectId).c_str() : "ended");
    if (!M.expect && kind != '.') mc_fail("wrong-place", "the program arrived %s block %d without reason", where, id);
    M.expect = 0;
}
void leaveTop()
{
    int id = M.stack.back();
    M.stack.pop_back();
    while (!M.handling.empty() && M.handling.back() > id) M.handling.pop_back();
    M.expect = M.code && !M.silent.count(id) ? 'h' : 'a';
    M.expectId = id;
}
int anything(Monitor&)
{
    unsigned k = mc_choose(PROG_OPS, "statement");
    return (int)k;
}
}

extern "C"
{
int prog_next(void)
{
    arrived('.', -1, "at a statement outside of");
    same("at a statement");
    if (M.budget-- <= 0) return PROG_END;
    int op = M.op(M);
    if (op == PROG_RETHROW && !M.code) mc_prune();            // nothing to raise again
    mc_note("%*sstatement %d", (int)M.stack.size() * 2, "", op);
    return op;
}
int prog_new(void) { return ++M.ids; }
void prog_silent(int id) { M.silent.insert(id); }
void prog_entered(int id)
{
    arrived('.', id, "in");
    M.stack.push_back(id);
    M.code = 0; M.msg.clear();
    same("after entering a block");
}
void prog_finishing(int id)
{
    arrived('.', id, "at the end of");
    if (M.stack.empty() || M.stack.back() != id) mc_fail("wrong-place", "the end of block %d was reached though another block is active", id);
    same("at the end of a block");
    leaveTop();
}
int prog_handler(int id)
{
    arrived('h', id, "in the handler of");
    mc_note("%*shandler of block %d, exception %d \"%.40s\"", (int)M.stack.size() * 2, "", id, prog_code(), prog_message());
    same("in a handler");
    M.handling.push_back(id);
    return id;
}
void prog_handled(int id)
{
    arrived('.', id, "at the end of the handler of");
    same("at the end of a handler");
    if (!M.handling.empty() && M.handling.back() == id) M.handling.pop_back();
    M.expect = 'a'; M.expectId = id;
}
void prog_after(int id) { arrived('a', id, "after"); same("after a block"); }
int prog_throwing(int how)
{
    int c = how == 2 ? M.code : M.kind ? M.kind : mc_choose(2, "code") ? 27 : 18;
    if (how == 1)
    {
        M.text.assign(M.base, 'm'); M.number = (int)M.msg.size() % 7 * 1000 + M.ids;
        std::string all = M.text + std::to_string(M.number);
        M.msg = all.substr(0, 1023);
    }
    if (c > M.code) M.code = c;
    if (M.stack.empty()) M.expect = 'x';
    else leaveTop();
    return c;
}
const char* prog_text(void) { return M.text.c_str(); }
int prog_number(void) { return M.number; }
int prog_setting(void)
{
    int c = mc_choose(2, "code") ? 22 : 5;
    if (c > M.code) M.code = c;
    return c;
}
void prog_set(void) { same("after setting the code"); }
void prog_cleared(void) { M.code = 0; same("after clearing the code"); }
int prog_returned(void) { return 7077; }
void prog_unreachable(const char* where) { mc_fail("continued", "the program continued %s", where); }
void prog_debugbreak(void)
{
    if (M.expect != 'x') mc_fail("wrong-end", "the debugger was entered although the exception had a handler");
    M.broke = true;
}
}

namespace
{
void go(int budget, int (*op)(Monitor&), size_t textLength, int kind = 0)
{
    M = Monitor();
    M.kind = kind;
    M.budget = budget;
    M.op = op;
    M.base = textLength;
    try { prog_run(); }
    catch (CutExit& e)
    {
        CHECKK("wrong-end", M.expect == 'x' && M.broke, "the program was ended, but should have %s", M.expect == 'h' ? "entered a handler" : "gone on");
        CHECKK("exit-code", e.code != 0, "an uncaught exception ended the program with code 0");
        CHECKK("code", prog_code() == M.code, "the exception code is %d, expected %d", prog_code(), M.code);
        mc_outcome(mc_hashi(1, M.h));
        return;
    }
    if (M.expect == 'x') mc_fail("uncaught", "the program went on after an exception nobody handles");
    arrived('.', -1, "at the end, outside of");
    same("at the end");
    CHECKK("active-blocks", prog_depth() == 0, "blocks are active after the end");
    mc_outcome(M.h);
}
void c21_programs() { go(mc_tier(mc_asan() ? 4 : 5, mc_asan() ? 6 : 7), anything, 5); }
void c21_nested()     // blocks only, nested up to n deep, each handler one of: nothing, clear, rethrow, throw another
{
    static int depth;
    depth = mc_tier(mc_asan() ? 3 : 4, mc_asan() ? 5 : 6);
    static int left;
    left = 1 + (int)mc_choose((unsigned)depth, "depth");
    go(4 * depth, [](Monitor& m) -> int
    {
        if (left > 0) { left--; return PROG_TRY; }
        if (left == 0) { left = -1; static const int how[] = {PROG_THROW, PROG_THROW_MSG, PROG_THROW_DEEP}; return how[mc_choose(3, "throw")]; }
        if (m.code == 0) return PROG_END;
        static const int h[] = {PROG_END, PROG_CLEAR, PROG_RETHROW, PROG_THROW, PROG_THROW_MSG};
        return h[mc_choose(5, "in the handler")];
    }, 3);
}
void c21_deep()       // many blocks within each other, left in every way
{
    static const int depths[] = {10, 126, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000};
    static int left, inHandler, raise;
    left = depths[mc_choose((unsigned)mc_tier(10, 14), "depth")];
    static const int ends[] = {PROG_END, PROG_CLEAR, PROG_RETHROW, PROG_THROW, PROG_THROW_MSG}, throws[] = {PROG_THROW, PROG_THROW_MSG, PROG_END};
    inHandler = ends[mc_choose(5, "in the handlers")];
    raise = throws[mc_choose(3, "innermost statement")];
    go(5 * left + 20, [](Monitor& m) -> int
    {
        if (left > 0) { left--; return PROG_TRY; }
        if (left == 0) { left = -1; return raise; }
        return m.code == 0 ? PROG_END : inHandler;
    }, 3, 22);
}
void c21_often()      // many blocks one after the other
{
    static const int ns[] = {127, 128, 255, 256, 257, 1000, 32768, 65536, 65537};
    static int left, last, how;
    left = ns[mc_choose((unsigned)mc_tier(6, 9), "times")];
    how = (int)mc_choose(5, "how");
    last = PROG_END;
    go(left * 6 + 20, [](Monitor& m) -> int
    {
        static const int throws[] = {PROG_THROW, PROG_THROW_MSG, PROG_THROW_DEEP, PROG_THROW, PROG_END};
        if (last == PROG_TRY) return last = throws[how];
        if (m.code) return last = how == 3 ? PROG_END : PROG_CLEAR;            // once handled, or left pending until the next block
        if (last == PROG_CLEAR) return last = PROG_END;
        if (left-- == 0) return PROG_END;
        return last = PROG_TRY;
    }, 3, 22);
}
void c21_messages()   // every length of message, seen by the handler and after a rethrow
{
    static int step;
    step = 0;
    unsigned n = mc_choose((unsigned)mc_tier(1100, 2200), "length");
    go(6, [](Monitor&) -> int { static const int p[] = {PROG_TRY, PROG_TRY, PROG_THROW_MSG, PROG_RETHROW, PROG_CLEAR, PROG_END}; return p[step++]; }, n);
}
void c21_kinds()      // every kind of exception is told apart from every other, and from none
{
    static int step;
    step = 0;
    int n = prog_kinds(), i = (int)mc_choose((unsigned)n, "kind"), j = (int)mc_choose((unsigned)n, "other"), none = prog_none();
    CHECKK("kind-none", prog_kind(i) != none, "%s looks like no exception", prog_kindName(i));
    CHECKK("kinds-equal", i == j || prog_kind(i) != prog_kind(j), "%s and %s cannot be told apart", prog_kindName(i), prog_kindName(j));
    go(5, [](Monitor&) -> int { static const int p[] = {PROG_TRY, PROG_TRY, PROG_THROW, PROG_RETHROW, PROG_END, PROG_END}; return p[step++]; }, 1, prog_kind(i));
}
void c21_codes()      // codes far from each other: the larger one stays pending, a smaller one never replaces it
{
    static const int cs[] = {1, 2, 31, 32, 63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537, 0xFFFFFF, 0x1000000, 0x40000000, 0x7FFFFFFE, 0x7FFFFFFF};
    static int step, how;
    step = 0;
    int c = mc_pick(cs, "code");
    how = (int)mc_choose(4, "how");
    go(8, [](Monitor&) -> int
    {
        static const int p[4][8] = {{PROG_TRY, PROG_TRY, PROG_THROW, PROG_RETHROW, PROG_CLEAR, PROG_END}, {PROG_TRY, PROG_TRY, PROG_THROW_MSG, PROG_RETHROW, PROG_END, PROG_END}, {PROG_TRY, PROG_SET, PROG_THROW, PROG_SET, PROG_RETHROW, PROG_END}, {PROG_THROW_DEEP, PROG_END}};
        return step < 8 ? p[how][step++] : PROG_END;
    }, 3, c);
}
}
MODELS(PROP, {"kinds", c21_kinds, "kinds of exceptions"}, {"codes", c21_codes, "large and small codes"}, {"messages", c21_messages, "message lengths"}, {"nested", c21_nested, "nested blocks"}, {"deep", c21_deep, "many nested blocks"}, {"often", c21_often, "many blocks"}, {"programs", c21_programs, "all programs"});
