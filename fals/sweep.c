/* Replay of defects of sweeping on the real code: what unreachable objects own is released, once; their cells are used again. */
#include <config.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
#include "sigscheme.h"
#include "sigschemeinternal.h"
static void fail(const char *w) { printf("FAIL %s\n", w); fflush(stdout); exit(1); }
#define NP 3000
static ScmCharPortVTbl vtbl;
static ScmCharPort cp[NP]; static int closes[NP], extra;
static int cl(ScmCharPort *p) { long i = p - cp; if (i < 0 || i >= NP) extra++; else closes[i]++; return 0; }
static int kind, len, base, hs;
static void *mk(void *arg)
{
    int i, k;
    for (i = 0; i < *(int *)arg; i++) switch (kind) {
    case 0: { char *s = malloc(len + 1); memset(s, 'x', len); s[len] = 0; (i & 1) ? scm_make_string(s, len) : scm_make_immutable_string(s, len); } break;
    case 1: { ScmObj *v = scm_malloc((len ? len : 1) * sizeof(ScmObj)); for (k = 0; k < len; k++) v[k] = SCM_FALSE; (i & 1) ? scm_make_vector(v, len) : scm_make_immutable_vector(v, len); } break;
    case 2: cp[(base + i) % NP].vptr = &vtbl; scm_make_port(&cp[(base + i) % NP], (i & 1) ? SCM_PORTFLAG_INPUT : SCM_PORTFLAG_OUTPUT); break;
    case 3: CONS(SCM_NULL, SCM_NULL); break;
    case 4: scm_make_closure(SCM_NULL, SCM_NULL); break;
    case 5: scm_make_continuation(); break;
    }
    return NULL;
}
static ScmObj one; static void *mkone(void *a) { one = CONS(SCM_NULL, SCM_NULL); return NULL; }
static void round_(int k, int l, int n, const char *what)
{
    size_t a, b; char msg[100];
    kind = k; len = l;
    scm_call_with_gc_ready_stack(mk, &n); scm_call_with_gc_ready_stack(mk, &n);
    a = mallinfo2().uordblks;
    scm_call_with_gc_ready_stack(mk, &n); scm_call_with_gc_ready_stack(mk, &n);
    b = mallinfo2().uordblks;
    if (b > a + 3 * (size_t)hs * (l * (k == 1 ? sizeof(ScmObj) : 1) + 40)) { printf("%d of %s (size %d): %lu bytes in use grew to %lu\n", 2 * n, what, l, (unsigned long)a, (unsigned long)b); fail("what unreachable objects own is released"); }
}
int main(int argc, char **argv)
{
    ScmStorageConf conf; int i, n;
    static const int sizes[] = { 700, 512, 4096 };
    static const int lens[] = { 0, 1, 2, 3, 7, 8, 15, 16, 63, 64, 255, 256, 1023, 1024, 4095, 4096, 5000 };
    hs = sizes[argc > 1 ? atoi(argv[1]) : 0];
    conf.heap_size = hs; conf.heap_alloc_threshold = hs / 2; conf.n_heaps_max = 40000 / hs; conf.n_heaps_init = 1; conf.symbol_hash_size = 0x100;
    { static const char *av[] = { "sscm", NULL }; scm_initialize(&conf, (const char **)av); }
    setvbuf(stdout, NULL, _IONBF, 0);
    vtbl.close = cl;
    for (i = 0; i < (int)(sizeof lens / sizeof *lens); i++) { round_(0, lens[i], 20000, "strings"); round_(1, lens[i], 20000, "vectors"); }
    for (i = 3; i < 6; i++) round_(i, 0, 60000, "objects");
    n = NP; kind = 2; scm_call_with_gc_ready_stack(mk, &n); kind = 3; n = 60000; scm_call_with_gc_ready_stack(mk, &n);
    { int left = 0; for (i = 0; i < NP; i++) { if (closes[i] > 1) fail("a port is closed once"); left += !closes[i]; } if (left > 20 || extra) { printf("%d of %d ports not closed\n", left, NP); fail("unreachable ports are closed"); } }
    /* collections while cells are free do not lose those */
    for (i = 0; i < 300; i++) { kind = 3; n = 2 * hs; scm_call_with_gc_ready_stack(mk, &n); scm_call_with_gc_ready_stack(mkone, NULL); scm_gc_protectedp(one); }
    n = 20000; for (i = 0; i < 50; i++) scm_call_with_gc_ready_stack(mk, &n);
    scm_finalize();
    for (i = 0; i < NP; i++) if (closes[i] != 1) fail("every port is closed once in the end");
    printf("OK\n");
    return 0;
}
