/* Contracts of the object representation (storage-compact.h, storage-fatty.h,
 * storage.c), enforced on the real macros and constructors.  Every harness is
 * free of loops; all component values are arbitrary, so the result holds for
 * all of them. */
#include <config.h>
#include <stdlib.h>
#include <string.h>
#include "sigscheme.h"
#include "sigschemeinternal.h"
#ifndef SCM_HMACROP
#define SCM_HMACROP HMACROP
#endif

typedef unsigned long word;
#ifndef NATIVE
word nondet_word(void);
#define REACH __CPROVER_assert(0, "OBL REACH end of the contract")
#else
#include <stdio.h>
#include <setjmp.h>
static word n_state = 88172645463325252UL, n_last[64]; static int n_cnt;
static jmp_buf n_out;
static word nondet_word(void)
{
    word w; int k;
    n_state ^= n_state << 13; n_state ^= n_state >> 7; n_state ^= n_state << 17;
    w = n_state * 2685821657736338717UL; k = (n_state >> 20) % 66;
    if (k < 64) w &= ((word)2 << k) - 1;
    if ((n_state >> 40) % 4 == 0) w = ((word)1 << (k & 63)) - (n_state >> 44) % 2;
    if ((n_state >> 50) % 4 == 0) w = -w;
    n_last[n_cnt++ % 64] = w;
    return w;
}
static const char *n_entry;
#define __CPROVER_assume(c) do { if (!(c)) longjmp(n_out, 1); } while (0)
#define __CPROVER_assert(c, n) do { if (!(c) && strncmp(n, "OBL REACH", 9)) { int i_; \
    printf("FAIL %s obligation=\"%s\" inputs", n_entry, n); for (i_ = 0; i_ < n_cnt; i_++) printf(" 0x%lx", n_last[i_]); printf("\n"); exit(1); } } while (0)
#define REACH
#endif
#define A(c, n) __CPROVER_assert(c, "OBL " n)

/* ------------------------------------------------ the allocator's contract */
static ScmCell pool[4] __attribute__((aligned(64)));
static int n_pool;
#if SCM_USE_STORAGE_COMPACT
#define CELL(o) ((ScmCell *)((o) & ~(word)7))
#else
#define CELL(o) (o)
#endif
static ScmCell *fresh(void)
{
    ScmCell *c = &pool[n_pool++];
#if SCM_USE_STORAGE_COMPACT
    c->obj_x = nondet_word(); c->obj_y = nondet_word();
#else
    c->attr.strut.slot0 = nondet_word(); c->attr.strut.slot1 = nondet_word();
    c->obj.strut.slot2 = nondet_word(); c->obj.strut.slot3 = nondet_word();
#endif
    return c;
}
/* any object: the garbage collector's bit is 0 in every object in use */
static ScmObj any_obj(void)
{
    word w = nondet_word();
    __CPROVER_assume(!(w & 1));
    return (ScmObj)w;
}
/* a recycled cell of arbitrary former contents */
ScmObj scm_alloc_cell(void)
{
    ScmCell *c = fresh(); ScmObj next = any_obj();   /* the macro may evaluate an argument twice */
    return SCM_CELL_RECLAIM_CELL(c, next);
}
void scm_init_gc(const ScmStorageConf *conf) { }
void scm_gc_protect_with_init(ScmObj *var, ScmObj val) { *var = val; }
void scm_init_symbol(const ScmStorageConf *conf) { }
void scm_init_continuation(void) { }
void scm_plain_error(const char *msg, ...) { A(0, "no error"); __CPROVER_assume(0); }

/* ------------------------------------------------ exactly one type */
static void only(ScmObj o, enum ScmObjType t)
{
    A(SCM_TYPE(o) == t, "the type is the one it was made with");
    A(!SCM_CONSP(o) == (t != ScmCons), "pair predicate");
    A(!SCM_INTP(o) == (t != ScmInt), "integer predicate");
    A(!SCM_NUMBERP(o) == (t != ScmInt), "number predicate");
    A(!SCM_CHARP(o) == (t != ScmChar), "character predicate");
    A(!SCM_SYMBOLP(o) == (t != ScmSymbol), "symbol predicate");
    A(!SCM_STRINGP(o) == (t != ScmString), "string predicate");
    A(!SCM_VECTORP(o) == (t != ScmVector), "vector predicate");
    A(!SCM_CLOSUREP(o) == (t != ScmClosure), "closure predicate");
    A(!SCM_FUNCP(o) == (t != ScmFunc), "built-in procedure predicate");
    A(!SCM_SYNTAXP(o) == !(t == ScmFunc && (SCM_FUNC_TYPECODE(o) & SCM_FUNCTYPE_SYNTAX)), "syntax predicate");
    A(!SCM_PROCEDUREP(o) == !((t == ScmFunc && !(SCM_FUNC_TYPECODE(o) & SCM_FUNCTYPE_SYNTAX)) || t == ScmClosure || t == ScmContinuation), "procedure predicate");
    A(!SCM_PORTP(o) == (t != ScmPort), "port predicate");
    A(!SCM_CONTINUATIONP(o) == (t != ScmContinuation), "continuation predicate");
    A(!SCM_VALUEPACKETP(o) == (t != ScmValuePacket), "multiple values predicate");
    A(!SCM_C_POINTERP(o) == (t != ScmCPointer), "C pointer predicate");
    A(!SCM_C_FUNCPOINTERP(o) == (t != ScmCFuncPointer), "C function pointer predicate");
    A(!SCM_CONSTANTP(o) == (t != ScmConstant), "constant predicate");
    A(!SCM_FREECELLP(o) == (t != ScmFreeCell), "free cell predicate");
#if SCM_USE_HYGIENIC_MACRO
    A(!SCM_HMACROP(o) == (t != ScmMacro), "macro predicate");
    A(!SCM_FARSYMBOLP(o) == (t != ScmFarsymbol), "wrapped symbol predicate");
    A(!SCM_SUBPATP(o) == (t != ScmSubpat), "subpattern predicate");
#endif
    if (t != ScmConstant) {
        A(!SCM_NULLP(o) && !SCM_EOFP(o), "not a special constant");
        A(SCM_TRUEP(o), "counts as true");
    }
}
static ScmCell o_before;
static ScmCell *o_cell;
static void other(void) { o_cell = fresh(); memcpy(&o_before, o_cell, sizeof(ScmCell)); }
#if SCM_USE_STORAGE_COMPACT
static int same(const ScmCell *a, const ScmCell *b) { return a->obj_x == b->obj_x && a->obj_y == b->obj_y; }
#define MARKBIT 1
#define CONSISTENT(o, c) A(SCM_TAG_CONSISTENTP(o, *(c)), "the collector recognises a reference to the object")
#define UNDER(x) ((ScmObj)((word)(x) | 1))
#else
static int same(const ScmCell *a, const ScmCell *b)
{
    return a->attr.v.type == b->attr.v.type && a->attr.v.gcmark == b->attr.v.gcmark && a->attr.v.immutable == b->attr.v.immutable
        && a->obj.strut.slot2 == b->obj.strut.slot2 && a->obj.strut.slot3 == b->obj.strut.slot3;
}
#define UNDER(x) (x)
#define CONSISTENT(o, c) (void)0
#endif
#define MISC(c) 1
/* a and b are the same object, disregarding the collector's bit */
#define SAMEG(a, b) (UNDER((ScmObj)(a)) == UNDER((ScmObj)(b)))

static int cell_is(ScmCell *c, enum ScmObjType t)
{
#if SCM_USE_STORAGE_COMPACT
    if (t == ScmCons || t == ScmClosure) return !SCM_CELL_MISCP(*c);
    if (!SCM_CELL_MISCP(*c)) return 0;
    return !SCM_CELL_SYMBOLP(*c) == (t != ScmSymbol) && !SCM_CELL_STRINGP(*c) == (t != ScmString)
        && !SCM_CELL_VECTORP(*c) == (t != ScmVector) && !SCM_CELL_PORTP(*c) == (t != ScmPort)
        && !SCM_CELL_CONTINUATIONP(*c) == (t != ScmContinuation);
#else
    return SCM_TYPE((ScmObj)c) == t;
#endif
}
/* what the collector does to the object; UNDERMARK checks the getters it uses */
#define COLLECT(o, t, UNDERMARK) do { ScmCell *c_ = CELL(o), s_; ScmObj r_, nx_ = any_obj();               \
    memcpy(&s_, c_, sizeof(ScmCell));                                                                       \
    A(!SCM_MARKEDP(o) && !SCM_CELL_MARKEDP(c_), "a new object is not marked");                              \
    A(cell_is(c_, t), "the type is seen from the bare cell");                                               \
    CONSISTENT(o, c_);                                                                                      \
    A(!SCM_CELL_FREECELLP(c_), "an object in use is not taken for a free cell");                            \
    SCM_MARK(o);                                                                                            \
    A(SCM_MARKEDP(o) && SCM_CELL_MARKEDP(c_), "a marked object is marked");                                 \
    A(SCM_MARKEDP(UNDER(o)), "a reference read from a marked object finds the mark");                       \
    A(!SCM_CELL_FREECELLP(c_), "a marked object is not taken for a free cell");                             \
    only(o, t);                                                                                             \
    { UNDERMARK; }                                                                                          \
    SCM_CELL_UNMARK(c_);                                                                                    \
    A(!SCM_MARKEDP(o) && !SCM_CELL_MARKEDP(c_), "an unmarked object is not marked");                        \
    A(same(c_, &s_), "marking and unmarking leave the object as it was");                                   \
    only(o, t);                                                                                             \
    A(same(o_cell, &o_before), "no other object is changed");                                               \
    r_ = SCM_CELL_RECLAIM_CELL(c_, nx_);                                                                    \
    A(SCM_FREECELLP(r_) && SCM_CELL_FREECELLP(c_) && SCM_TYPE(r_) == ScmFreeCell, "a reclaimed cell is free"); \
    A(!SCM_CELL_MARKEDP(c_), "a reclaimed cell is not marked");                                             \
    A(SCM_FREECELL_NEXT(r_) == nx_, "a reclaimed cell is chained to the list");                             \
    A(CELL(r_) == c_, "the reclaimed cell is the cell of the object");                                      \
    only(r_, ScmFreeCell);                                                                                  \
    A(same(o_cell, &o_before), "reclaiming changes no other cell");                                         \
    REACH; } while (0)
#define STEP(what) A(same(o_cell, &o_before), what " changes no other object"); A(!SCM_MARKEDP(o), what " does not mark")

#if defined(ENTRY_e_cons) || defined(NATIVE)
void e_cons(void)
{
    ScmObj a = any_obj(), d = any_obj(), a2 = any_obj(), d2 = any_obj(), o; ScmRef r; int m = 1;
    other();
#if SCM_HAS_IMMUTABLE_CONS
    m = nondet_word() & 1;
    o = m ? SCM_MAKE_CONS(a, d) : SCM_MAKE_IMMUTABLE_CONS(a, d);
#else
    o = SCM_MAKE_CONS(a, d);
#endif
    only(o, ScmCons);
    A(SCM_CONS_CAR(o) == a && SCM_CONS_CDR(o) == d && SCM_CAR(o) == a && SCM_CDR(o) == d, "pair: components of cons");
    A(!SCM_CONS_MUTABLEP(o) == !m, "pair: mutability");
    STEP("cons");
    SCM_CONS_SET_CAR(o, a2); only(o, ScmCons);
    A(SCM_CONS_CAR(o) == a2 && SCM_CONS_CDR(o) == d && !SCM_CONS_MUTABLEP(o) == !m, "pair: set car"); STEP("set car");
    SCM_CONS_SET_CDR(o, d2); only(o, ScmCons);
    A(SCM_CONS_CAR(o) == a2 && SCM_CONS_CDR(o) == d2 && !SCM_CONS_MUTABLEP(o) == !m, "pair: set cdr"); STEP("set cdr");
    r = SCM_REF_CAR(o); A(SCM_DEREF(r) == a2, "pair: reference to car");
    SCM_SET(r, a); only(o, ScmCons); A(SCM_CONS_CAR(o) == a && SCM_CONS_CDR(o) == d2, "pair: set through reference to car");
    r = SCM_REF_CDR(o); A(SCM_DEREF(r) == d2, "pair: reference to cdr");
    SCM_SET(r, d); only(o, ScmCons); A(SCM_CONS_CAR(o) == a && SCM_CONS_CDR(o) == d, "pair: set through reference to cdr");
    STEP("set through reference");
    r = SCM_REF_OFF_HEAP(a2); SCM_SET(r, d2); A(a2 == d2 && SCM_DEREF(r) == d2, "reference to a variable");
    A(SCM_CONS_CAR(o) == a && SCM_CONS_CDR(o) == d, "pair: set of a variable");
#if SCM_HAS_IMMUTABLE_CONS
    SCM_CONS_SET_IMMUTABLE(o); A(!SCM_CONS_MUTABLEP(o) && SCM_CONS_CAR(o) == a && SCM_CONS_CDR(o) == d, "pair: set immutable");
    SCM_CONS_SET_MUTABLE(o); A(SCM_CONS_MUTABLEP(o) && SCM_CONS_CAR(o) == a && SCM_CONS_CDR(o) == d, "pair: set mutable");
    only(o, ScmCons); STEP("set mutable");
#endif
    COLLECT(o, ScmCons, A(SAMEG(SCM_CONS_CAR(o), a) && SCM_CONS_CDR(o) == d, "pair: components of a marked pair"));
}
#endif
#if defined(ENTRY_e_closure) || defined(NATIVE)
void e_closure(void)
{
    ScmObj a = any_obj(), d = any_obj(), a2 = any_obj(), d2 = any_obj(), o;
    other();
    o = SCM_MAKE_CLOSURE(a, d); only(o, ScmClosure);
    A(SCM_CLOSURE_EXP(o) == a && SCM_CLOSURE_ENV(o) == d, "closure: components"); STEP("make closure");
    SCM_CLOSURE_SET_EXP(o, a2); only(o, ScmClosure);
    A(SCM_CLOSURE_EXP(o) == a2 && SCM_CLOSURE_ENV(o) == d, "closure: set code"); STEP("set code");
    SCM_CLOSURE_SET_ENV(o, d2); only(o, ScmClosure);
    A(SCM_CLOSURE_EXP(o) == a2 && SCM_CLOSURE_ENV(o) == d2, "closure: set environment"); STEP("set environment");
    COLLECT(o, ScmClosure, A(SAMEG(SCM_CLOSURE_EXP(o), a2) && SCM_CLOSURE_ENV(o) == d2, "closure: components of a marked closure"));
}
#endif
#if defined(ENTRY_e_symbol) || defined(NATIVE)
void e_symbol(void)
{
    word w = nondet_word(), w2 = nondet_word();
    ScmObj v = any_obj(), v2 = any_obj(), o; char *n = (char *)w, *n2 = (char *)w2;
    __CPROVER_assume(!(w & 15) && !(w2 & 15));
    other();
    o = scm_make_symbol(n, v); only(o, ScmSymbol);
    A(SCM_SYMBOL_NAME(o) == n && SCM_SYMBOL_VCELL(o) == v, "symbol: components"); STEP("make symbol");
    SCM_SYMBOL_SET_VCELL(o, v2); only(o, ScmSymbol);
    A(SCM_SYMBOL_NAME(o) == n && SCM_SYMBOL_VCELL(o) == v2, "symbol: set value"); STEP("set value");
    SCM_SYMBOL_SET_NAME(o, n2); only(o, ScmSymbol);
    A(SCM_SYMBOL_NAME(o) == n2 && SCM_SYMBOL_VCELL(o) == v2, "symbol: set name"); STEP("set name");
    COLLECT(o, ScmSymbol, A(SAMEG(SCM_SYMBOL_VCELL(o), v2) && SCM_SYMBOL_NAME(o) == n2, "symbol: components of a marked symbol"));
}
#endif
#if defined(ENTRY_e_string) || defined(NATIVE)
void e_string(void)
{
    word w = nondet_word(), w2 = nondet_word(); int m = nondet_word() & 1;
    scm_int_t l = (scm_int_t)nondet_word(), l2 = (scm_int_t)nondet_word(); char *s = (char *)w, *s2 = (char *)w2; ScmObj o;
    __CPROVER_assume(!(w & 1) && !(w2 & 1) && w && w2 && l >= 0 && l <= SCM_STRLEN_MAX && l2 >= 0 && l2 <= SCM_STRLEN_MAX);
    other();
    o = m ? SCM_MAKE_STRING(s, l) : SCM_MAKE_IMMUTABLE_STRING(s, l); only(o, ScmString);
#define STR(s_, l_, m_) (SCM_STRING_STR(o) == (s_) && SCM_STRING_LEN(o) == (l_) && !SCM_STRING_MUTABLEP(o) == !(m_))
    A(STR(s, l, m), "string: components"); STEP("make string");
    SCM_STRING_SET_STR(o, s2); only(o, ScmString); A(STR(s2, l, m), "string: set characters"); STEP("set characters");
    SCM_STRING_SET_LEN(o, l2); only(o, ScmString); A(STR(s2, l2, m), "string: set length"); STEP("set length");
    if (nondet_word() & 1) SCM_STRING_SET_STR(o, s);
    else s = s2;
    A(STR(s, l2, m), "string: characters may be set again");
    SCM_STRING_SET_IMMUTABLE(o); only(o, ScmString); A(STR(s, l2, 0), "string: set immutable"); STEP("set immutable");
    if (nondet_word() & 1) { SCM_STRING_SET_LEN(o, l); l2 = l; A(STR(s, l, 0), "string: length of an immutable string"); }
    if (m) { SCM_STRING_SET_MUTABLE(o); only(o, ScmString); A(STR(s, l2, 1), "string: set mutable"); STEP("set mutable"); }
    COLLECT(o, ScmString, A(SCM_STRING_LEN(o) == l2, "string: length of a marked string"));
}
#endif
#if defined(ENTRY_e_vector) || defined(NATIVE)
void e_vector(void)
{
    word w = nondet_word(), w2 = nondet_word(); int m = nondet_word() & 1;
    scm_int_t l = (scm_int_t)nondet_word(), l2 = (scm_int_t)nondet_word(); ScmObj *s = (ScmObj *)w, *s2 = (ScmObj *)w2; ScmObj o;
    __CPROVER_assume(!(w & 1) && !(w2 & 1) && l >= 0 && l <= SCM_VECLEN_MAX && l2 >= 0 && l2 <= SCM_VECLEN_MAX);
    other();
    o = m ? SCM_MAKE_VECTOR(s, l) : SCM_MAKE_IMMUTABLE_VECTOR(s, l); only(o, ScmVector);
#define VEC(s_, l_, m_) (SCM_VECTOR_VEC(o) == (s_) && SCM_VECTOR_LEN(o) == (l_) && !SCM_VECTOR_MUTABLEP(o) == !(m_))
    A(VEC(s, l, m), "vector: components"); STEP("make vector");
    SCM_VECTOR_SET_VEC(o, s2); only(o, ScmVector); A(VEC(s2, l, m), "vector: set elements"); STEP("set elements");
    SCM_VECTOR_SET_LEN(o, l2); only(o, ScmVector); A(VEC(s2, l2, m), "vector: set length"); STEP("set length");
    SCM_VECTOR_SET_IMMUTABLE(o); only(o, ScmVector); A(VEC(s2, l2, 0), "vector: set immutable"); STEP("set immutable");
    if (nondet_word() & 1) { SCM_VECTOR_SET_LEN(o, l); l2 = l; A(VEC(s2, l, 0), "vector: length of an immutable vector"); }
    if (m) { SCM_VECTOR_SET_MUTABLE(o); only(o, ScmVector); A(VEC(s2, l2, 1), "vector: set mutable"); STEP("set mutable"); }
    COLLECT(o, ScmVector, A(SCM_VECTOR_LEN(o) == l2 && SAMEG(SCM_VECTOR_VEC(o), s2), "vector: components of a marked vector"));
}
#endif
#if defined(ENTRY_e_func) || defined(NATIVE)
void e_func(void)
{
    word w = nondet_word(), w2 = nondet_word(), t = nondet_word(), t2 = nondet_word(); ScmObj o;
    ScmFuncType f = (ScmFuncType)w, f2 = (ScmFuncType)w2;
    __CPROVER_assume(t <= 0xffff && t2 <= 0xffff);
    other();
    o = SCM_MAKE_FUNC((enum ScmFuncTypeCode)t, f); only(o, ScmFunc);
    A(SCM_FUNC_CFUNC(o) == f && (word)SCM_FUNC_TYPECODE(o) == t, "built-in procedure: components"); STEP("make procedure");
    SCM_FUNC_SET_CFUNC(o, f2); only(o, ScmFunc);
    A(SCM_FUNC_CFUNC(o) == f2 && (word)SCM_FUNC_TYPECODE(o) == t, "built-in procedure: set function"); STEP("set function");
    SCM_FUNC_SET_TYPECODE(o, (enum ScmFuncTypeCode)t2); only(o, ScmFunc);
    A(SCM_FUNC_CFUNC(o) == f2 && (word)SCM_FUNC_TYPECODE(o) == t2, "built-in procedure: set type code"); STEP("set type code");
    COLLECT(o, ScmFunc, );
}
#endif
#if defined(ENTRY_e_port) || defined(NATIVE)
void e_port(void)
{
    word w = nondet_word(), w2 = nondet_word(), t = nondet_word(), t2 = nondet_word(); ScmObj o;
    struct ScmCharPort_ *p = (struct ScmCharPort_ *)w, *p2 = (struct ScmCharPort_ *)w2;
    __CPROVER_assume(!(w & 1) && !(w2 & 1) && t <= 0xff && t2 <= 0xff);
    other();
    o = SCM_MAKE_PORT(p, (enum ScmPortFlag)t); only(o, ScmPort);
    A(SCM_PORT_IMPL(o) == p, "port: implementation"); STEP("make port");
    A((word)SCM_PORT_FLAG(o) == (t | (t & SCM_PORTFLAG_INPUT ? SCM_PORTFLAG_LIVE_INPUT : 0) | (t & SCM_PORTFLAG_OUTPUT ? SCM_PORTFLAG_LIVE_OUTPUT : 0)), "port: a new port is open in its directions");
    SCM_PORT_SET_FLAG(o, (enum ScmPortFlag)t2); only(o, ScmPort);
    A(SCM_PORT_IMPL(o) == p && (word)SCM_PORT_FLAG(o) == t2, "port: set flags"); STEP("set flags");
    SCM_PORT_SET_IMPL(o, p2); only(o, ScmPort);
    A(SCM_PORT_IMPL(o) == p2 && (word)SCM_PORT_FLAG(o) == t2, "port: set implementation"); STEP("set implementation");
    COLLECT(o, ScmPort, A((word)SCM_PORT_FLAG(o) == t2, "port: flags of a marked port"));
}
#endif
#if defined(ENTRY_e_continuation) || defined(NATIVE)
void e_continuation(void)
{
    word w = nondet_word(); scm_int_t g = (scm_int_t)nondet_word(); ScmObj o;
    __CPROVER_assume(!(w & 1) && g >= 0 && g <= (SCM_INT_MAX >> 4));
    other();
    o = SCM_MAKE_CONTINUATION(); only(o, ScmContinuation);
    A(SCM_CONTINUATION_TAG(o) == 0, "continuation: no tag"); STEP("make continuation");
    SCM_CONTINUATION_SET_OPAQUE(o, (void *)w); only(o, ScmContinuation);
    A(SCM_CONTINUATION_OPAQUE(o) == (void *)w && SCM_CONTINUATION_TAG(o) == 0, "continuation: set frame"); STEP("set frame");
    SCM_CONTINUATION_SET_TAG(o, g); only(o, ScmContinuation);
    A(SCM_CONTINUATION_OPAQUE(o) == (void *)w && SCM_CONTINUATION_TAG(o) == g, "continuation: set tag"); STEP("set tag");
    COLLECT(o, ScmContinuation, A(SCM_CONTINUATION_TAG(o) == g, "continuation: tag of a marked continuation"));
}
#endif
#if defined(ENTRY_e_values) || defined(NATIVE)
void e_values(void)
{
    ScmObj v = any_obj(), v2 = any_obj(), o;
    other();
#if SCM_USE_VALUECONS
    {   /* the list itself is retyped, and becomes a list again on access; the empty list has an object of its own */
        ScmObj l = SCM_MAKE_CONS(v, v2);
        scm_null_values = SCM_MAKE_CONS(SCM_NULL, SCM_NULL); SCM_ENTYPE(scm_null_values, ScmValuePacket);
        A(SCM_MAKE_VALUEPACKET(SCM_NULL) == scm_null_values, "multiple values: no values"); only(scm_null_values, ScmValuePacket);
        A(SCM_VALUEPACKET_VALUES(scm_null_values) == SCM_NULL && SCM_VALUEPACKETP(scm_null_values), "multiple values: list of no values");
        o = SCM_MAKE_VALUEPACKET(l); only(o, ScmValuePacket); STEP("make values");
        A(o == l, "multiple values: the list");
        l = SCM_VALUEPACKET_VALUES(o);
        A(l == o && SCM_CONS_CAR(l) == v && SCM_CONS_CDR(l) == v2, "multiple values: elements"); only(l, ScmCons); STEP("get values");
        REACH; return;
    }
#else
    o = SCM_MAKE_VALUEPACKET(v); only(o, ScmValuePacket);
    A(SCM_VALUEPACKET_VALUES(o) == v, "multiple values: list"); STEP("make values");
    SCM_VALUEPACKET_SET_VALUES(o, v2); only(o, ScmValuePacket);
    A(SCM_VALUEPACKET_VALUES(o) == v2, "multiple values: set list"); STEP("set list");
    COLLECT(o, ScmValuePacket, A(SAMEG(SCM_VALUEPACKET_VALUES(o), v2), "multiple values: list of a marked packet"));
#endif
}
#endif
#if defined(ENTRY_e_cpointer) || defined(NATIVE)
void e_cpointer(void)
{
    word w = nondet_word(), w2 = nondet_word(); ScmObj o;
    other();
    o = SCM_MAKE_C_POINTER((void *)w); only(o, ScmCPointer);
    A(SCM_C_POINTER_VALUE(o) == (void *)w, "C pointer: value"); STEP("make pointer");
    SCM_C_POINTER_SET_VALUE(o, (void *)w2); only(o, ScmCPointer);
    A(SCM_C_POINTER_VALUE(o) == (void *)w2, "C pointer: set value"); STEP("set value");
    COLLECT(o, ScmCPointer, );
}
#endif
#if defined(ENTRY_e_cfuncpointer) || defined(NATIVE)
void e_cfuncpointer(void)
{
    word w = nondet_word(), w2 = nondet_word(); ScmObj o;
    other();
    o = SCM_MAKE_C_FUNCPOINTER((ScmCFunc)w); only(o, ScmCFuncPointer);
    A(SCM_C_FUNCPOINTER_VALUE(o) == (ScmCFunc)w, "C function pointer: value"); STEP("make pointer");
    SCM_C_FUNCPOINTER_SET_VALUE(o, (ScmCFunc)w2); only(o, ScmCFuncPointer);
    A(SCM_C_FUNCPOINTER_VALUE(o) == (ScmCFunc)w2, "C function pointer: set value"); STEP("set value");
    COLLECT(o, ScmCFuncPointer, );
}
#endif
#if defined(ENTRY_e_int) || defined(NATIVE)
void e_int(void)
{
    scm_int_t i = (scm_int_t)nondet_word(), j = (scm_int_t)nondet_word(); ScmObj o, p;
    __CPROVER_assume(i >= SCM_INT_MIN && i <= SCM_INT_MAX && j >= SCM_INT_MIN && j <= SCM_INT_MAX);
    other();
    o = SCM_MAKE_INT(i); p = SCM_MAKE_INT(j); only(o, ScmInt); only(p, ScmInt);
    A(SCM_INT_VALUE(o) == i && SCM_INT_VALUE(p) == j, "integer: value");
#if SCM_HAS_IMMEDIATE_INT_ONLY
    A(SCM_EQ(o, p) == (i == j), "integer: equal integers are one object");
    A(SCM_IMMP(o) && SCM_IMMP(UNDER(o)), "integer: never marked");
#else
    COLLECT(o, ScmInt, );
    A(SCM_INT_VALUE(p) == j, "integer: reclaiming another");
#endif
    A(same(o_cell, &o_before), "making integers changes no other object");
    REACH;
}
#endif
#if defined(ENTRY_e_char) || defined(NATIVE)
void e_char(void)
{
    scm_ichar_t i = (scm_ichar_t)nondet_word(), j = (scm_ichar_t)nondet_word(); ScmObj o, p;
    __CPROVER_assume(i >= 0 && j >= 0);
    other();
    o = SCM_MAKE_CHAR(i); p = SCM_MAKE_CHAR(j); only(o, ScmChar); only(p, ScmChar);
    A(SCM_CHAR_VALUE(o) == i && SCM_CHAR_VALUE(p) == j, "character: value");
#if SCM_HAS_IMMEDIATE_CHAR_ONLY
    A(SCM_EQ(o, p) == (i == j), "character: equal characters are one object");
    A(SCM_IMMP(o) && SCM_IMMP(UNDER(o)), "character: never marked");
#else
    COLLECT(o, ScmChar, );
    A(SCM_CHAR_VALUE(p) == j, "character: reclaiming another");
#endif
    A(same(o_cell, &o_before), "making characters changes no other object");
    REACH;
}
#endif
#if defined(ENTRY_e_constant) || defined(NATIVE)
void e_constant(void)
{
    word i = nondet_word(), j = nondet_word(); ScmObj o, p;
    __CPROVER_assume(i < 6 && j < 6 && i != j);
    scm_init_storage(NULL);
#define CONST(i) ((i) == 0 ? SCM_NULL : (i) == 1 ? SCM_TRUE : (i) == 2 ? SCM_FALSE : (i) == 3 ? SCM_EOF : (i) == 4 ? SCM_UNBOUND : SCM_UNDEF)
    o = CONST(i); p = CONST(j);
    only(o, ScmConstant);
    A(!SCM_EQ(o, p), "constants: all different");
    A(!SCM_EQ(o, SCM_INVALID), "constants: none is the invalid object");
    A(!SCM_NULLP(o) == (i != 0) && !SCM_EOFP(o) == (i != 3) && !SCM_FALSEP(o) == (i != 2) && !SCM_TRUEP(o) == (i == 2), "constants: their predicates");
#if SCM_USE_STORAGE_COMPACT
    A(SCM_IMMP(o) && SCM_IMMP(UNDER(o)), "constants: never marked");
#endif
    REACH;
}
#endif
#if SCM_USE_HYGIENIC_MACRO
#define WIDE(e) ((e) >= -((scm_int_t)1 << 54) && (e) <= ((scm_int_t)1 << 54))
#if defined(ENTRY_e_macro) || defined(NATIVE)
void e_macro(void)
{
    ScmObj a = any_obj(), a2 = any_obj(), o; scm_int_t e2 = (scm_int_t)nondet_word(), e;
    __CPROVER_assume(WIDE(e2));
    other();
    e = scm_pack_env(SCM_NULL);
    o = SCM_MAKE_HMACRO(a, SCM_NULL); only(o, ScmMacro);
    A(SCM_HMACRO_RULES(o) == a && SCM_HMACRO_ENV(o) == e, "macro: components"); STEP("make macro");
    SCM_HMACRO_SET_RULES(o, a2); only(o, ScmMacro);
    A(SCM_HMACRO_RULES(o) == a2 && SCM_HMACRO_ENV(o) == e, "macro: set rules"); STEP("set rules");
    SCM_HMACRO_SET_ENV(o, e2); only(o, ScmMacro);
    A(SCM_HMACRO_RULES(o) == a2 && SCM_HMACRO_ENV(o) == e2, "macro: set environment"); STEP("set environment");
    COLLECT(o, ScmMacro, A(SAMEG(SCM_HMACRO_RULES(o), a2), "macro: rules of a marked macro"));
}
#endif
ScmPackedEnv pe; ScmPackedEnv scm_pack_env(ScmObj env) { return pe; }
#if defined(ENTRY_e_farsymbol) || defined(NATIVE)
void e_farsymbol(void)
{
    ScmObj a, a2 = any_obj(), o; scm_int_t e = (scm_int_t)nondet_word(), e2 = (scm_int_t)nondet_word();
    __CPROVER_assume(WIDE(e) && WIDE(e2));
    a = SCM_NULL;
    other();
    o = SCM_MAKE_FARSYMBOL(a, e); only(o, ScmFarsymbol);
    A(SCM_FARSYMBOL_SYM(o) == a && SCM_FARSYMBOL_ENV(o) == e, "wrapped symbol: components"); STEP("make wrapped symbol");
    SCM_FARSYMBOL_SET_SYM(o, a2); only(o, ScmFarsymbol);
    A(SCM_FARSYMBOL_SYM(o) == a2 && SCM_FARSYMBOL_ENV(o) == e, "wrapped symbol: set symbol"); STEP("set symbol");
    SCM_FARSYMBOL_SET_ENV(o, e2); only(o, ScmFarsymbol);
    A(SCM_FARSYMBOL_SYM(o) == a2 && SCM_FARSYMBOL_ENV(o) == e2, "wrapped symbol: set environment"); STEP("set environment");
    COLLECT(o, ScmFarsymbol, A(SAMEG(SCM_FARSYMBOL_SYM(o), a2), "wrapped symbol: symbol of a marked one"));
}
#endif
#if defined(ENTRY_e_subpat) || defined(NATIVE)
void e_subpat(void)
{
    ScmObj a = any_obj(), a2 = any_obj(), o; scm_int_t e = (scm_int_t)nondet_word(), e2 = (scm_int_t)nondet_word();
    __CPROVER_assume(WIDE(e) && WIDE(e2));
    other();
    o = SCM_MAKE_SUBPAT(a, e); only(o, ScmSubpat);
    A(SCM_SUBPAT_OBJ(o) == a && SCM_SUBPAT_META(o) == e, "subpattern: components"); STEP("make subpattern");
    SCM_SUBPAT_SET_OBJ(o, a2); only(o, ScmSubpat);
    A(SCM_SUBPAT_OBJ(o) == a2 && SCM_SUBPAT_META(o) == e, "subpattern: set object"); STEP("set object");
    SCM_SUBPAT_SET_META(o, e2); only(o, ScmSubpat);
    A(SCM_SUBPAT_OBJ(o) == a2 && SCM_SUBPAT_META(o) == e2, "subpattern: set meta"); STEP("set meta");
    COLLECT(o, ScmSubpat, A(SAMEG(SCM_SUBPAT_OBJ(o), a2), "subpattern: object of a marked one"));
}
#endif
#endif
#ifdef NATIVE
#define TRY(e) do { for (k = 0; k < 400000; k++) { n_entry = #e; n_cnt = n_pool = 0; if (!setjmp(n_out)) e(); } } while (0)
#pragma weak scm_init_continuation
int main(void)
{
    long k;
    scm_init_storage(NULL);
    TRY(e_int); TRY(e_char); TRY(e_constant); TRY(e_cons); TRY(e_closure); TRY(e_symbol); TRY(e_string); TRY(e_vector);
    TRY(e_func); TRY(e_port); TRY(e_continuation); TRY(e_values); TRY(e_cpointer); TRY(e_cfuncpointer);
#if SCM_USE_HYGIENIC_MACRO
    TRY(e_macro); TRY(e_farsymbol); TRY(e_subpat);
#endif
    printf("OK\n");
    return 0;
}
#endif
