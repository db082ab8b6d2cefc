/* Contract of free_cell() (storage-gc.c): what a cell owns is released once,
 * and nothing else.  The objects are made by the real constructors. */
#include <config.h>
#include <stdlib.h>
#include <string.h>
#include "sigscheme.h"
#include "sigschemeinternal.h"
typedef unsigned long word;
word nondet_word(void);
#define A(c, n) __CPROVER_assert(c, "OBL " n)

/* ghost: what was released */
static void *g_freed; static int g_n_freed, g_closed, g_destroyed, g_bad;
static void *g_impl; static ScmObj g_obj;
static void rec_free(void *p) { g_freed = p; g_n_freed++; }

/* the unit under contract; its memory management functions are recorded */
#define scm_alloc_cell gc_alloc_cell
#define free rec_free
#include "storage-gc.c"
#undef free
#undef scm_alloc_cell

static ScmCell pool[3] __attribute__((aligned(64)));
static int n_pool;
static ScmCell *fresh(void)
{
    ScmCell *c = &pool[n_pool++];
#if SCM_USE_STORAGE_COMPACT
    c->obj_x = nondet_word(); c->obj_y = nondet_word();
#else
    c->attr.strut.slot0 = nondet_word(); c->attr.strut.slot1 = nondet_word();
    c->obj.strut.slot2 = nondet_word(); c->obj.strut.slot3 = nondet_word();
#endif
    return c;
}
static ScmObj any_obj(void) { word w = nondet_word(); __CPROVER_assume(!(w & 1)); return (ScmObj)w; }
ScmObj scm_alloc_cell(void)
{
    ScmCell *c = fresh(); ScmObj next = any_obj();
    return SCM_CELL_RECLAIM_CELL(c, next);
}
#if SCM_USE_STORAGE_COMPACT
#define CELL(o) ((ScmCell *)((o) & ~(word)7))
#else
#define CELL(o) (o)
#endif
void scm_init_symbol(const ScmStorageConf *conf) { }
void scm_init_continuation(void) { }
void scm_plain_error(const char *msg, ...) { __CPROVER_assume(0); }
void scm_fatal_error(const char *msg) { __CPROVER_assume(0); }
/* a port's resources are released by its close method, which is called once */
static int close_method(ScmCharPort *p) { g_closed++; g_bad |= (void *)p != g_impl; return 0; }
void scm_port_close(ScmObj port) { g_closed++; g_bad |= CELL(port) != CELL(g_obj) || !SCM_PORT_IMPL(port); }
void scm_destruct_continuation(ScmObj cont) { g_destroyed++; g_bad |= cont != g_obj; }

#if SCM_USE_HYGIENIC_MACRO
ScmPackedEnv pe; ScmPackedEnv scm_pack_env(ScmObj env) { return pe; }
void scm_macro_bad_scope(ScmObj sym) { __CPROVER_assume(0); }
#endif
void e_free(void)
{
    word kind = nondet_word(), n = nondet_word();
    void *p = (void *)(nondet_word() << 4);
    static ScmCharPortVTbl vtbl; static ScmCharPort cport;
    ScmObj o; int n_free = 0, n_close = 0, n_destroy = 0;
#if SCM_USE_HYGIENIC_MACRO
    pe = nondet_word() & 0xff;
#endif
    vtbl.close = close_method; cport.vptr = &vtbl; g_impl = &cport;
    __CPROVER_assume((word)p < ((word)1 << 59));
    switch (kind) {
    case 0: o = scm_make_cons(any_obj(), any_obj()); break;
    case 1: o = scm_make_symbol(p, any_obj()); n_free = 1; break;
    case 2: __CPROVER_assume(n < ((word)1 << 40)); o = (nondet_word() & 1) ? scm_make_string(p, n) : scm_make_immutable_string(p, n); n_free = 1; break;
    case 3: __CPROVER_assume(n < ((word)1 << 40)); o = scm_make_vector(p, n); n_free = 1; break;
    case 4: o = scm_make_closure(any_obj(), any_obj()); break;
    case 5: o = scm_make_func(nondet_word() & 0x3f, (ScmFuncType)p); break;
    case 6: o = scm_make_port(&cport, nondet_word() & 3); n_close = 1; break;
    case 7: o = scm_make_port(&cport, nondet_word() & 3); SCM_PORT_SET_IMPL(o, NULL); break;
    case 8: o = scm_make_continuation(); n_destroy = 1; break;
#if SCM_USE_VALUECONS
    case 9: o = SCM_MAKE_VALUEPACKET(SCM_MAKE_CONS(any_obj(), any_obj())); break;
#else
    case 9: o = scm_make_value_packet(any_obj()); break;
#endif
    case 10: o = scm_make_cpointer(p); break;
    case 11: o = scm_make_cfunc_pointer((ScmCFunc)p); break;
#if SCM_USE_STORAGE_FATTY
    case 12: o = scm_make_int(n); break;
    case 13: o = scm_make_char(n & 0xff); break;
#endif
#if SCM_USE_HYGIENIC_MACRO
    case 14: o = scm_make_hmacro(any_obj(), SCM_NULL); break;
    case 15: o = scm_make_farsymbol(scm_make_symbol(NULL, any_obj()), pe); break;
    case 16: o = scm_make_subpat(any_obj(), n & 0xff); break;
#endif
    default: { ScmCell *c = fresh(); ScmObj next = any_obj(); o = SCM_CELL_RECLAIM_CELL(c, next); } break;
    }
    g_obj = o;
    free_cell(CELL(o));
    A(g_n_freed == n_free, "the memory of a symbol, string or vector is released exactly once, and of nothing else");
    A(!n_free || g_freed == p, "the memory released is what the object owns");
    A(g_closed == n_close, "a port is closed exactly once unless it is closed already");
    A(g_destroyed == n_destroy, "a continuation is destroyed exactly once");
    A(!g_bad, "what is released belongs to the object");
    __CPROVER_assert(0, "OBL REACH end of the contract");
}
