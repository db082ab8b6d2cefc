/* Verification view of the Storage Abstraction Layer (SAL).
 *
 * Force-included before every translation unit handed to the VC generator.
 * The real sigscheme headers are included first; then the *accessor* macros
 * of the storage implementation are replaced by calls to functions whose
 * contracts the verifier knows (sal.py).  Everything above the SAL -- i.e.
 * all of the C code in /repo/src except the storage-*.h accessor macros --
 * is the text that runs.  The replaced macros themselves are proved against
 * the same contracts, for both storage implementations, by property S01. */
#include <config.h>
#include <stddef.h>
#include "sigscheme.h"
#include "sigschemeinternal.h"
#ifndef VSAL_H
#define VSAL_H

extern int     __sal_type(ScmObj o);
#define F(rt, name) extern rt __sal_get_##name(ScmObj o); extern void __sal_set_##name(ScmObj o, rt v)
F(scm_int_t, int); F(scm_ichar_t, char); F(ScmObj, car); F(ScmObj, cdr);
F(char *, symname); F(ScmObj, vcell);
F(char *, str); F(scm_int_t, strlen); F(ScmObj *, vec); F(scm_int_t, veclen);
F(int, mutable);
F(int, functype); F(ScmFuncType, cfunc);
F(ScmObj, exp); F(ScmObj, env);
F(int, portflag); F(struct ScmCharPort_ *, portimpl);
F(void *, contopaque); F(scm_int_t, conttag);
F(ScmObj, values); F(ScmObj, vcar); F(ScmObj, vcdr); F(void *, cptr); F(ScmCFunc, cfptr);
F(ScmObj, hrules); F(scm_int_t, henv); F(ScmObj, fsym); F(scm_int_t, fenv);
F(ScmObj, spobj); F(scm_int_t, spmeta);
F(int, marked); F(ScmObj, freenext); F(ScmObj, freeslot);
#undef F
extern ScmRef  __sal_ref_car(ScmObj o);
extern ScmRef  __sal_ref_cdr(ScmObj o);
extern ScmObj  __sal_deref(ScmRef r);
extern void    __sal_setref(ScmRef r, ScmObj o);
extern ScmObj  __sal_make_int(scm_int_t v);
extern ScmObj  __sal_make_char(scm_ichar_t v);
extern ScmObj  __sal_make_values(ScmObj v);
extern ScmObj  __sal_reclaim(ScmCell *c, ScmObj next);

#undef SCM_SAL_TYPE
#define SCM_SAL_TYPE(o) ((enum ScmObjType)__sal_type(o))

#undef SCM_SAL_INTP
#undef SCM_SAL_NUMBERP
#undef SCM_SAL_INT_VALUE
#undef SCM_SAL_INT_SET_VALUE
#undef SCM_SAL_MAKE_INT
#define SCM_SAL_INTP(o) (__sal_type(o) == ScmInt)
#define SCM_SAL_NUMBERP(o) (__sal_type(o) == ScmInt)
#define SCM_SAL_INT_VALUE(o) __sal_get_int(o)
#define SCM_SAL_INT_SET_VALUE(o, v) __sal_set_int((o), (v))
#define SCM_SAL_MAKE_INT __sal_make_int

#undef SCM_SAL_CHARP
#undef SCM_SAL_CHAR_VALUE
#undef SCM_SAL_CHAR_SET_VALUE
#undef SCM_SAL_MAKE_CHAR
#define SCM_SAL_CHARP(o) (__sal_type(o) == ScmChar)
#define SCM_SAL_CHAR_VALUE(o) __sal_get_char(o)
#define SCM_SAL_CHAR_SET_VALUE(o, v) __sal_set_char((o), (v))
#define SCM_SAL_MAKE_CHAR __sal_make_char

#undef SCM_SAL_CONSP
#undef SCM_SAL_CONS_CAR
#undef SCM_SAL_CONS_CDR
#undef SCM_SAL_CONS_SET_CAR
#undef SCM_SAL_CONS_SET_CDR
#define SCM_SAL_CONSP(o) (__sal_type(o) == ScmCons)
#define SCM_SAL_CONS_CAR(o) __sal_get_car(o)
#define SCM_SAL_CONS_CDR(o) __sal_get_cdr(o)
#define SCM_SAL_CONS_SET_CAR(o, v) __sal_set_car((o), (v))
#define SCM_SAL_CONS_SET_CDR(o, v) __sal_set_cdr((o), (v))
#undef SCM_SAL_CONS_MUTABLEP
#undef SCM_SAL_CONS_SET_MUTABLE
#undef SCM_SAL_CONS_SET_IMMUTABLE
#if SCM_HAS_IMMUTABLE_CONS
#define SCM_SAL_CONS_MUTABLEP(o) (__sal_get_mutable(o))
#else
#define SCM_SAL_CONS_MUTABLEP(o) scm_true
#endif
#define SCM_SAL_CONS_SET_MUTABLE(o) __sal_set_mutable((o), 1)
#define SCM_SAL_CONS_SET_IMMUTABLE(o) __sal_set_mutable((o), 0)

#undef SCM_SAL_SYMBOLP
#undef SCM_SAL_SYMBOL_NAME
#undef SCM_SAL_SYMBOL_SET_NAME
#undef SCM_SAL_SYMBOL_VCELL
#undef SCM_SAL_SYMBOL_SET_VCELL
#define SCM_SAL_SYMBOLP(o) (__sal_type(o) == ScmSymbol)
#define SCM_SAL_SYMBOL_NAME(o) __sal_get_symname(o)
#define SCM_SAL_SYMBOL_SET_NAME(o, v) __sal_set_symname((o), (v))
#define SCM_SAL_SYMBOL_VCELL(o) __sal_get_vcell(o)
#define SCM_SAL_SYMBOL_SET_VCELL(o, v) __sal_set_vcell((o), (v))

#undef SCM_SAL_STRINGP
#undef SCM_SAL_STRING_STR
#undef SCM_SAL_STRING_SET_STR
#undef SCM_SAL_STRING_LEN
#undef SCM_SAL_STRING_SET_LEN
#undef SCM_SAL_STRING_MUTABLEP
#undef SCM_SAL_STRING_SET_MUTABLE
#undef SCM_SAL_STRING_SET_IMMUTABLE
#define SCM_SAL_STRINGP(o) (__sal_type(o) == ScmString)
#define SCM_SAL_STRING_STR(o) __sal_get_str(o)
#define SCM_SAL_STRING_SET_STR(o, v) __sal_set_str((o), (v))
#define SCM_SAL_STRING_LEN(o) __sal_get_strlen(o)
#define SCM_SAL_STRING_SET_LEN(o, v) __sal_set_strlen((o), (v))
#define SCM_SAL_STRING_MUTABLEP(o) (__sal_get_mutable(o))
#define SCM_SAL_STRING_SET_MUTABLE(o) __sal_set_mutable((o), 1)
#define SCM_SAL_STRING_SET_IMMUTABLE(o) __sal_set_mutable((o), 0)

#undef SCM_SAL_FUNCP
#undef SCM_SAL_FUNC_TYPECODE
#undef SCM_SAL_FUNC_SET_TYPECODE
#undef SCM_SAL_FUNC_CFUNC
#undef SCM_SAL_FUNC_SET_CFUNC
#define SCM_SAL_FUNCP(o) (__sal_type(o) == ScmFunc)
#define SCM_SAL_FUNC_TYPECODE(o) ((enum ScmFuncTypeCode)__sal_get_functype(o))
#define SCM_SAL_FUNC_SET_TYPECODE(o, v) __sal_set_functype((o), (v))
#define SCM_SAL_FUNC_CFUNC(o) __sal_get_cfunc(o)
#define SCM_SAL_FUNC_SET_CFUNC(o, v) __sal_set_cfunc((o), (v))

#undef SCM_SAL_CLOSUREP
#undef SCM_SAL_CLOSURE_EXP
#undef SCM_SAL_CLOSURE_SET_EXP
#undef SCM_SAL_CLOSURE_ENV
#undef SCM_SAL_CLOSURE_SET_ENV
#define SCM_SAL_CLOSUREP(o) (__sal_type(o) == ScmClosure)
#define SCM_SAL_CLOSURE_EXP(o) __sal_get_exp(o)
#define SCM_SAL_CLOSURE_SET_EXP(o, v) __sal_set_exp((o), (v))
#define SCM_SAL_CLOSURE_ENV(o) __sal_get_env(o)
#define SCM_SAL_CLOSURE_SET_ENV(o, v) __sal_set_env((o), (v))

#undef SCM_SAL_VECTORP
#undef SCM_SAL_VECTOR_VEC
#undef SCM_SAL_VECTOR_SET_VEC
#undef SCM_SAL_VECTOR_LEN
#undef SCM_SAL_VECTOR_SET_LEN
#undef SCM_SAL_VECTOR_MUTABLEP
#undef SCM_SAL_VECTOR_SET_MUTABLE
#undef SCM_SAL_VECTOR_SET_IMMUTABLE
#define SCM_SAL_VECTORP(o) (__sal_type(o) == ScmVector)
#define SCM_SAL_VECTOR_VEC(o) __sal_get_vec(o)
#define SCM_SAL_VECTOR_SET_VEC(o, v) __sal_set_vec((o), (v))
#define SCM_SAL_VECTOR_LEN(o) __sal_get_veclen(o)
#define SCM_SAL_VECTOR_SET_LEN(o, v) __sal_set_veclen((o), (v))
#define SCM_SAL_VECTOR_MUTABLEP(o) (__sal_get_mutable(o))
#define SCM_SAL_VECTOR_SET_MUTABLE(o) __sal_set_mutable((o), 1)
#define SCM_SAL_VECTOR_SET_IMMUTABLE(o) __sal_set_mutable((o), 0)

#undef SCM_SAL_PORTP
#undef SCM_SAL_PORT_FLAG
#undef SCM_SAL_PORT_SET_FLAG
#undef SCM_SAL_PORT_IMPL
#undef SCM_SAL_PORT_SET_IMPL
#define SCM_SAL_PORTP(o) (__sal_type(o) == ScmPort)
#define SCM_SAL_PORT_FLAG(o) ((enum ScmPortFlag)__sal_get_portflag(o))
#define SCM_SAL_PORT_SET_FLAG(o, v) __sal_set_portflag((o), (v))
#define SCM_SAL_PORT_IMPL(o) __sal_get_portimpl(o)
#define SCM_SAL_PORT_SET_IMPL(o, v) __sal_set_portimpl((o), (v))

#undef SCM_SAL_CONTINUATIONP
#undef SCM_SAL_CONTINUATION_OPAQUE
#undef SCM_SAL_CONTINUATION_SET_OPAQUE
#undef SCM_SAL_CONTINUATION_TAG
#undef SCM_SAL_CONTINUATION_SET_TAG
#define SCM_SAL_CONTINUATIONP(o) (__sal_type(o) == ScmContinuation)
#define SCM_SAL_CONTINUATION_OPAQUE(o) __sal_get_contopaque(o)
#define SCM_SAL_CONTINUATION_SET_OPAQUE(o, v) __sal_set_contopaque((o), (v))
#define SCM_SAL_CONTINUATION_TAG(o) __sal_get_conttag(o)
#define SCM_SAL_CONTINUATION_SET_TAG(o, v) __sal_set_conttag((o), (v))

#if !SCM_USE_VALUECONS
#undef SCM_SAL_VALUEPACKETP
#undef SCM_SAL_VALUEPACKET_VALUES
#undef SCM_SAL_VALUEPACKET_SET_VALUES
#undef SCM_SAL_MAKE_VALUEPACKET
#define SCM_SAL_VALUEPACKETP(o) (__sal_type(o) == ScmValuePacket)
#define SCM_SAL_VALUEPACKET_VALUES(o) __sal_get_values(o)
#define SCM_SAL_VALUEPACKET_SET_VALUES(o, v) __sal_set_values((o), (v))
#define SCM_SAL_MAKE_VALUEPACKET __sal_make_values
#else
#undef SCM_SAL_VALUECONS_CAR
#undef SCM_SAL_VALUECONS_CDR
#define SCM_SAL_VALUECONS_CAR(o) __sal_get_vcar(o)
#define SCM_SAL_VALUECONS_CDR(o) __sal_get_vcdr(o)
#endif

#undef SCM_SAL_CONSTANTP
#define SCM_SAL_CONSTANTP(o) (__sal_type(o) == ScmConstant)

#undef SCM_SAL_C_POINTERP
#undef SCM_SAL_C_POINTER_VALUE
#undef SCM_SAL_C_POINTER_SET_VALUE
#undef SCM_SAL_C_FUNCPOINTERP
#undef SCM_SAL_C_FUNCPOINTER_VALUE
#undef SCM_SAL_C_FUNCPOINTER_SET_VALUE
#define SCM_SAL_C_POINTERP(o) (__sal_type(o) == ScmCPointer)
#define SCM_SAL_C_POINTER_VALUE(o) __sal_get_cptr(o)
#define SCM_SAL_C_POINTER_SET_VALUE(o, v) __sal_set_cptr((o), (v))
#define SCM_SAL_C_FUNCPOINTERP(o) (__sal_type(o) == ScmCFuncPointer)
#define SCM_SAL_C_FUNCPOINTER_VALUE(o) __sal_get_cfptr(o)
#define SCM_SAL_C_FUNCPOINTER_SET_VALUE(o, v) __sal_set_cfptr((o), (v))

#if SCM_USE_HYGIENIC_MACRO
#undef SCM_SAL_HMACROP
#undef SCM_SAL_HMACRO_RULES
#undef SCM_SAL_HMACRO_SET_RULES
#undef SCM_SAL_HMACRO_ENV
#undef SCM_SAL_HMACRO_SET_ENV
#undef SCM_SAL_FARSYMBOLP
#undef SCM_SAL_FARSYMBOL_SYM
#undef SCM_SAL_FARSYMBOL_SET_SYM
#undef SCM_SAL_FARSYMBOL_ENV
#undef SCM_SAL_FARSYMBOL_SET_ENV
#undef SCM_SAL_SUBPATP
#undef SCM_SAL_SUBPAT_OBJ
#undef SCM_SAL_SUBPAT_META
#undef SCM_SAL_SUBPAT_SET_OBJ
#undef SCM_SAL_SUBPAT_SET_META
#define SCM_SAL_HMACROP(o) (__sal_type(o) == ScmMacro)
#define SCM_SAL_HMACRO_RULES(o) __sal_get_hrules(o)
#define SCM_SAL_HMACRO_SET_RULES(o, v) __sal_set_hrules((o), (v))
#define SCM_SAL_HMACRO_ENV(o) __sal_get_henv(o)
#define SCM_SAL_HMACRO_SET_ENV(o, v) __sal_set_henv((o), (v))
#define SCM_SAL_FARSYMBOLP(o) (__sal_type(o) == ScmFarsymbol)
#define SCM_SAL_FARSYMBOL_SYM(o) __sal_get_fsym(o)
#define SCM_SAL_FARSYMBOL_SET_SYM(o, v) __sal_set_fsym((o), (v))
#define SCM_SAL_FARSYMBOL_ENV(o) __sal_get_fenv(o)
#define SCM_SAL_FARSYMBOL_SET_ENV(o, v) __sal_set_fenv((o), (v))
#define SCM_SAL_SUBPATP(o) (__sal_type(o) == ScmSubpat)
#define SCM_SAL_SUBPAT_OBJ(o) __sal_get_spobj(o)
#define SCM_SAL_SUBPAT_META(o) __sal_get_spmeta(o)
#define SCM_SAL_SUBPAT_SET_OBJ(o, v) __sal_set_spobj((o), (v))
#define SCM_SAL_SUBPAT_SET_META(o, v) __sal_set_spmeta((o), (v))
#endif

#undef SCM_SAL_REF_CAR
#undef SCM_SAL_REF_CDR
#undef SCM_SAL_DEREF
#undef SCM_SAL_SET
#define SCM_SAL_REF_CAR(k) __sal_ref_car(k)
#define SCM_SAL_REF_CDR(k) __sal_ref_cdr(k)
#define SCM_SAL_DEREF(r) __sal_deref(r)
#define SCM_SAL_SET(r, v) __sal_setref((r), (v))

/* GC */
#undef SCM_ISAL_MARKEDP
#undef SCM_ISAL_MARK
#undef SCM_ISAL_CELL_MARKEDP
#undef SCM_ISAL_CELL_UNMARK
#undef SCM_ISAL_CELL_FREECELLP
#undef SCM_ISAL_CELL_RECLAIM_CELL
#undef SCM_SAL_FREECELLP
#undef SCM_SAL_AS_FREECELL
#undef SCM_SAL_FREECELL_NEXT
#undef SCM_SAL_FREECELL_FREESLOT
#undef SCM_SAL_FREECELL_SET_NEXT
#undef SCM_SAL_FREECELL_SET_FREESLOT
#undef SCM_SAL_FREECELL_CLEAR_FREESLOT
extern int __sal_cell_markedp(ScmCell *c);
extern void __sal_cell_unmark(ScmCell *c);
extern int __sal_cell_freep(ScmCell *c);
#define SCM_ISAL_MARKEDP(o) __sal_get_marked(o)
#define SCM_ISAL_MARK(o) __sal_set_marked((o), 1)
#define SCM_ISAL_CELL_MARKEDP(c) __sal_cell_markedp(c)
#define SCM_ISAL_CELL_UNMARK(c) __sal_cell_unmark(c)
#define SCM_ISAL_CELL_FREECELLP(c) __sal_cell_freep(c)
#define SCM_ISAL_CELL_RECLAIM_CELL(c, next) __sal_reclaim((c), (next))
#define SCM_SAL_FREECELLP(o) (__sal_type(o) == ScmFreeCell)
#define SCM_SAL_AS_FREECELL(o) (o)
#define SCM_SAL_FREECELL_NEXT(o) __sal_get_freenext(o)
#define SCM_SAL_FREECELL_FREESLOT(o) __sal_get_freeslot(o)
#define SCM_SAL_FREECELL_SET_NEXT(o, v) __sal_set_freenext((o), (v))
#define SCM_SAL_FREECELL_SET_FREESLOT(o, v) __sal_set_freeslot((o), (v))
#define SCM_SAL_FREECELL_CLEAR_FREESLOT(o) __sal_set_freeslot((o), SCM_FALSE)

#if SCM_USE_STORAGE_COMPACT
#undef SCM_TAG_CONSISTENTP
#if SCM_USE_HYGIENIC_MACRO
extern int __sal_wrapperp(ScmObj o);
extern ScmObj __sal_get_wrapped(ScmObj o);
#undef SCM_WRAPPERP
#undef SCM_WRAPPER_OBJ
#define SCM_WRAPPERP(o) __sal_wrapperp(o)
#define SCM_WRAPPER_OBJ(o) __sal_get_wrapped(o)
#endif
extern int __sal_tag_consistentp(ScmObj o, ScmCell *c);
#define SCM_TAG_CONSISTENTP(o, c) __sal_tag_consistentp((o), &(c))
#endif

#if SCM_USE_STORAGE_FATTY
/* special constants: distinct addresses, as bound by initialize_special_constants() */
#undef SCM_SAL_NULL
#undef SCM_SAL_TRUE
#undef SCM_SAL_FALSE
#undef SCM_SAL_EOF
#undef SCM_SAL_UNBOUND
#undef SCM_SAL_UNDEF
#define SCM_SAL_NULL ((ScmObj)0x5f00000001e0)
#define SCM_SAL_TRUE ((ScmObj)0x5f0000000200)
#define SCM_SAL_FALSE ((ScmObj)0x5f0000000220)
#define SCM_SAL_EOF ((ScmObj)0x5f0000000240)
#define SCM_SAL_UNBOUND ((ScmObj)0x5f0000000260)
#define SCM_SAL_UNDEF ((ScmObj)0x5f0000000280)
#endif
#undef SCM_SAL_EQ
#define SCM_SAL_EQ(a, b) ((a) == (b))

/* constants for the verifier */
#ifdef VSAL_CONSTS
#define C(x) long vc_##x = (long)(x)
C(ScmInt); C(ScmCons); C(ScmSymbol); C(ScmChar); C(ScmString); C(ScmFunc); C(ScmClosure);
C(ScmVector); C(ScmPort); C(ScmContinuation); C(ScmConstant); C(ScmValuePacket); C(ScmFreeCell);
C(ScmCPointer); C(ScmCFuncPointer); C(ScmMacro); C(ScmFarsymbol); C(ScmSubpat);
C(SCM_INT_MAX); C(SCM_INT_MIN); C(SCM_CHAR_MAX);
C(SCM_NULL); C(SCM_TRUE); C(SCM_FALSE); C(SCM_EOF); C(SCM_UNBOUND); C(SCM_UNDEF); C(SCM_INVALID);
C(SCM_FUNCTYPE_SYNTAX); C(SCM_FUNCTYPE_FIXED); C(SCM_FUNCTYPE_VARIADIC); C(SCM_FUNCTYPE_TAILREC); C(SCM_FUNCTYPE_MAND_MAX); C(SCM_REDUCTION_OPERATOR);
C(SCM_REDUCE_0); C(SCM_REDUCE_1); C(SCM_REDUCE_PARTWAY); C(SCM_REDUCE_LAST); C(SCM_REDUCE_STOP);

#endif
#endif
