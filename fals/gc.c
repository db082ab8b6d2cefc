/* Replay of collector defects on the real code: small heaps, so that collections are frequent.
 * Prints the first expectation which fails. */
#include <config.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "sigscheme.h"
#include "sigschemeinternal.h"

static unsigned long seed = 88172645463325252UL;
static unsigned rnd(unsigned n) { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return (seed >> 20) % n; }
static int bad;
static void fail(const char *w) { printf("FAIL %s\n", w); fflush(stdout); exit(1); }

static const char *progs[] = {
    /* what, program which yields #t */
    "the components of nested lists survive", "(let loop ((i 0) (l '())) (if (< i 3000) (loop (+ i 1) (cons (list i (vector i (list i) (string-append \"s\" (number->string i)))) l)) (let chk ((i 2999) (l l)) (or (null? l) (and (equal? (car l) (list i (vector i (list i) (string-append \"s\" (number->string i))))) (chk (- i 1) (cdr l)))))))",
    "long lists survive", "(let loop ((i 0) (l '())) (if (< i 20000) (loop (+ i 1) (cons i l)) (let chk ((i 19999) (l l)) (or (null? l) (and (eqv? (car l) i) (chk (- i 1) (cdr l)))))))",
    "car-linked lists survive", "(let loop ((i 0) (l '())) (if (< i 3000) (loop (+ i 1) (cons l i)) (let chk ((i 2999) (l l)) (or (null? l) (and (eqv? (cdr l) i) (chk (- i 1) (car l)))))))",
    "vectors of vectors survive", "(let ((v (make-vector 40))) (let f ((i 0)) (if (< i 40) (begin (vector-set! v i (make-vector (+ 1 i) (list i))) (f (+ i 1))))) (let f ((i 0)) (if (< i 5000) (begin (list i i i) (f (+ i 1))))) (let g ((k 0)) (or (= k 40) (and (= (vector-length (vector-ref v k)) (+ k 1)) (let h ((j 0)) (or (> j k) (and (equal? (vector-ref (vector-ref v k) j) (list k)) (h (+ j 1))))) (g (+ k 1))))))",
    "distinct elements of a large vector survive", "(let ((v (make-vector 3000))) (let f ((i 0)) (if (< i 3000) (begin (vector-set! v i (list i)) (f (+ i 1))))) (let f ((i 0)) (if (< i 5000) (begin (list i i i) (f (+ i 1))))) (let g ((k 0)) (or (= k 3000) (and (equal? (vector-ref v k) (list k)) (g (+ k 1))))))",
    "closures and their variables survive", "(let loop ((i 0) (l '())) (if (< i 2000) (loop (+ i 1) (cons (let ((x (list i)) (y (string #\\a))) (lambda (z) (list x y z))) l)) (let chk ((i 1999) (l l)) (or (null? l) (and (equal? ((car l) 'q) (list (list i) \"a\" 'q)) (chk (- i 1) (cdr l)))))))",
    "the bodies of closures survive", "(let loop ((i 0) (l '())) (if (< i 300) (loop (+ i 1) (cons (eval (list 'lambda (list 'z) (list 'list (list 'quote (list i i)) 'z)) (interaction-environment)) l)) (let g ((n 0)) (if (< n 5000) (begin (list n n) (g (+ n 1))) (let chk ((i 299) (l l)) (or (null? l) (and (equal? ((car l) 'q) (list (list i i) 'q)) (chk (- i 1) (cdr l)))))))))",
    "global variables survive", "(begin (define %a (list 1 (vector 2 3) \"x\")) (define %b (lambda (x) (cons x %a))) (let f ((i 0)) (if (< i 9000) (begin (list i i i) (f (+ i 1))))) (equal? (%b 5) (list 5 1 (vector 2 3) \"x\")))",
    "many global variables survive", "(begin (let f ((i 0)) (if (< i 500) (begin (eval (list 'define (string->symbol (string-append \"%gv\" (number->string i))) (list 'list i i)) (interaction-environment)) (f (+ i 1))))) (let f ((i 0)) (if (< i 9000) (begin (list i i i) (f (+ i 1))))) (let f ((i 0)) (or (= i 500) (and (equal? (eval (string->symbol (string-append \"%gv\" (number->string i))) (interaction-environment)) (list i i)) (f (+ i 1))))))",
    "multiple values survive", "(let loop ((i 0)) (or (= i 800) (and (call-with-values (lambda () (let ((a (list i)) (b (string #\\b))) (let f ((i 0)) (if (< i 30) (begin (list i i) (f (+ i 1))))) (values a b (vector i)))) (lambda (a b c) (let f ((i 0)) (if (< i 30) (begin (list i i) (f (+ i 1))))) (equal? (list a b c) (list (list i) \"b\" (vector i))))) (loop (+ i 1)))))",
    "multiple values survive an exit action", "(let loop ((i 0)) (or (= i 20) (and (call-with-values (lambda () (dynamic-wind (lambda () #f) (lambda () (values (list i) (vector i) (list i i))) (lambda () (let f ((i 0)) (if (< i 2000) (begin (list i i i) (f (+ i 1)))))))) (lambda (a b c) (equal? (list a b c) (list (list i) (vector i) (list i i))))) (loop (+ i 1)))))",
    "promises survive", "(let* ((x (list 1 2)) (p (delay (cons 0 x)))) (let f ((i 0)) (if (< i 9000) (begin (list i i i) (f (+ i 1))))) (force p) (let f ((i 0)) (if (< i 9000) (begin (list i i i) (f (+ i 1))))) (equal? (force p) '(0 1 2)))",
    "escapes survive", "(let loop ((i 0)) (or (= i 500) (and (equal? (call/cc (lambda (k) (let ((l (list i (list i)))) (let f ((j 0)) (if (< j 40) (begin (list j j) (f (+ j 1))))) (k l)))) (list i (list i))) (loop (+ i 1)))))",
    "strings survive", "(let loop ((i 0) (l '())) (if (< i 3000) (loop (+ i 1) (cons (make-string (modulo i 50) #\\x) l)) (let chk ((i 2999) (l l)) (or (null? l) (and (= (string-length (car l)) (modulo i 50)) (chk (- i 1) (cdr l)))))))",
    "cyclic structures survive and are left", "(let ((c (list 1 2 3)) (v (make-vector 3))) (set-cdr! (cddr c) c) (vector-set! v 0 v) (vector-set! v 1 c) (let f ((i 0)) (if (< i 9000) (begin (let ((x (list i i))) (set-cdr! (cdr x) x)) (f (+ i 1))))) (and (eq? (vector-ref v 0) v) (eq? (vector-ref v 1) c) (eqv? (cadddr c) 1)))",
    NULL
};

static void *stackobjs(void *arg)
{
    ScmObj o[64]; int i, r;
    for (i = 0; i < 64; i++) o[i] = CONS(MAKE_INT(i), LIST_1(MAKE_INT(i)));
    for (r = 0; r < 4000; r++) CONS(MAKE_INT(r), SCM_NULL);
    for (i = 0; i < 64; i++)
        if (!CONSP(o[i]) || SCM_INT_VALUE(CAR(o[i])) != i || !CONSP(CDR(o[i])) || SCM_INT_VALUE(CAR(CDR(o[i]))) != i) fail("objects held by the C stack survive");
    return NULL;
}
#define NV 60
static ScmObj vars[NV]; static int reg[NV], val[NV];
static void *protects(void *arg)
{
    int r, i;
    for (r = 0; r < 20000; r++) {
        i = rnd(NV);
        if (reg[i]) {
            if (!CONSP(vars[i]) || !CONSP(CAR(vars[i])) || SCM_INT_VALUE(CAR(CAR(vars[i]))) != val[i]) fail("the object in a registered variable survives");
            if (rnd(3) == 0) { scm_gc_unprotect(&vars[i]); reg[i] = 0; vars[i] = SCM_FALSE; }
            else { val[i] = r; vars[i] = CONS(LIST_1(MAKE_INT(r)), SCM_NULL); }
        } else { val[i] = r; vars[i] = SCM_FALSE; scm_gc_protect_with_init(&vars[i], CONS(LIST_1(MAKE_INT(r)), SCM_NULL)); reg[i] = 1; }
        if (rnd(8) == 0) scm_gc_unprotect((ScmObj *)&bad);      /* not registered */
    }
    for (i = 0; i < NV; i++) if (reg[i]) { scm_gc_unprotect(&vars[i]); reg[i] = 0; }
    return NULL;
}
static ScmObj big;
static void *fillbig(void *arg)
{
    int n = *(int *)arg, i; ScmObj *e = malloc((n + 1) * sizeof(ScmObj));
    for (i = 0; i < n; i++) e[i] = SCM_FALSE;
    big = scm_make_vector(e, n);
    for (i = 0; i < n; i++) SCM_VECTOR_VEC(big)[i] = CONS(MAKE_INT(i), SCM_NULL);
    return NULL;
}
static void *churn(void *arg) { int i; for (i = 0; i < *(int *)arg; i++) CONS(MAKE_INT(i), SCM_NULL); return NULL; }
static void bigs(int total)
{
    static const int extra[] = { 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 2050, 2051, 4095, 4097, 4099, 8191, 8195, 20001 };
    int k, n, i;
    scm_gc_protect_with_init(&big, SCM_FALSE);
    for (k = 1; k < 70 + (int)(sizeof extra / sizeof *extra); k++) {
        int c = total + 3 * (n = k < 70 ? k : extra[k - 70]);
        scm_call_with_gc_ready_stack(fillbig, &n);
        scm_call_with_gc_ready_stack(churn, &c); scm_call_with_gc_ready_stack(churn, &c);
        for (i = 0; i < n; i++) { ScmObj e = SCM_VECTOR_VEC(big)[i]; if (!CONSP(e) || SCM_INT_VALUE(CAR(e)) != i) { printf("vector of %d elements: element %d\n", n, i); fail("all elements of a vector survive"); } }
    }
    scm_gc_unprotect(&big);
}
static ScmObj many[3000];
static void *mkmany(void *a) { int i; for (i = 0; i < 3000; i++) many[i] = CONS(MAKE_INT(i), SCM_NULL); return NULL; }
static void *mkthird(void *a) { int i; for (i = 2; i < 3000; i += 3) scm_gc_protect_with_init(&many[i], CONS(MAKE_INT(i), SCM_NULL)); return NULL; }
static void manyvars(int total)
{
    int i, r;
    for (r = 0; r < 3; r++) {
        for (i = 0; i < 3000; i++) scm_gc_protect_with_init(&many[i], SCM_FALSE);
        scm_call_with_gc_ready_stack(mkmany, NULL);
        scm_call_with_gc_ready_stack(churn, &total);
        for (i = 0; i < 3000; i++) if (!CONSP(many[i]) || SCM_INT_VALUE(CAR(many[i])) != i) fail("the objects in 3000 registered variables survive");
        for (i = 2999; i >= 0; i -= 3) scm_gc_unprotect(&many[i]);
        scm_call_with_gc_ready_stack(mkthird, NULL);
        scm_call_with_gc_ready_stack(churn, &total);
        for (i = 0; i < 3000; i++) if (!CONSP(many[i]) || SCM_INT_VALUE(CAR(many[i])) != i) fail("the objects in 3000 registered variables survive");
        for (i = 0; i < 3000; i++) scm_gc_unprotect(&many[(i * 7) % 3000]);
    }
}
static void *lits(void *arg)
{
    /* all cells of a heap can be used, and those of unreachable objects again */
    int r; for (r = 0; r < 300000; r++) CONS(MAKE_INT(r), SCM_NULL);
    for (r = 0; r < 3000; r++) { char *s = malloc(3000); memset(s, 'x', 2999); s[2999] = 0; scm_make_string(s, 2999); }
    for (r = 0; r < 3000; r++) { ScmObj *v = malloc(300 * sizeof(ScmObj)); int i; for (i = 0; i < 300; i++) v[i] = SCM_FALSE; scm_make_vector(v, 300); }
    return NULL;
}
int main(int argc, char **argv)
{
    ScmStorageConf conf; int i, hs;
    static const int sizes[] = { 700, 512, 4096 };
    hs = sizes[argc > 1 ? atoi(argv[1]) : 0];
    conf.heap_size = hs; conf.heap_alloc_threshold = hs / 2; conf.n_heaps_max = 600000 / hs; conf.n_heaps_init = 1; conf.symbol_hash_size = 0x100;
    { static const char *av[] = { "sscm", NULL }; scm_initialize(&conf, (const char **)av); }
    for (i = 0; progs[i]; i += 2) {
        ScmObj r = scm_eval_c_string(progs[i + 1]);
        if (!EQ(r, SCM_TRUE)) fail(progs[i]);
    }
    scm_call_with_gc_ready_stack(stackobjs, NULL);
    scm_call_with_gc_ready_stack(protects, NULL);
    scm_call_with_gc_ready_stack(lits, NULL);
    bigs(3000);
    manyvars(60000);
    for (i = 0; progs[i]; i += 2) {
        ScmObj r = scm_eval_c_string(progs[i + 1]);
        if (!EQ(r, SCM_TRUE)) fail(progs[i]);
    }
    scm_finalize();
    printf("OK\n");
    return 0;
}
