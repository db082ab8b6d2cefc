/* Contracts of the character codecs (encoding.c), enforced on the real code
 * through the public codec table.  CODEC selects the encoding. */
#include <config.h>
#include <stdlib.h>
#include <string.h>
#include "sigscheme.h"
#include "sigschemeinternal.h"
#include "encoding.h"

typedef unsigned char u8;
#ifndef NATIVE
size_t nondet_size(void);
scm_ichar_t nondet_ichar(void);
#define FILL(buf, n)
#else
/* replay on the natively compiled code: the same contracts, enumerated inputs */
#include <stdio.h>
static u8 n_buf[8]; static size_t n_size; static long n_ch; static int n_enc;
static size_t nondet_size(void) { return n_size; }
static scm_ichar_t nondet_ichar(void) { return n_ch; }
#define FILL(buf, n) memcpy(buf, n_buf, n)
#define __CPROVER_assume(c) do { if (!(c)) return; } while (0)
static void n_fail(const char *what)
{
    size_t i;
    printf("FAIL codec=%d obligation=\"%s\" input=", CODEC, what);
    if (n_enc) printf("char 0x%lx\n", n_ch);
    else { for (i = 0; i < n_size; i++) printf("%02x ", n_buf[i]); printf("\n"); }
    exit(1);
}
#define __CPROVER_assert(c, n) do { if (!(c) && strncmp(n, "OBL REACH", 9)) n_fail(n); } while (0)
#endif

#define UTF8 1
#define EUCJP 2
#define EUCCN 3
#define EUCKR 4
#define SJIS 5
#define UNIBYTE 6

#if CODEC == UTF8
#define NAME "UTF-8"
#elif CODEC == EUCJP
#define NAME "EUC-JP"
#elif CODEC == EUCCN
#define NAME "EUC-CN"
#elif CODEC == EUCKR
#define NAME "EUC-KR"
#elif CODEC == SJIS
#define NAME "Shift_JIS"
#else
#define NAME "ISO-8859-1"
#endif
#define A(c, n) __CPROVER_assert(c, "OBL " n)

enum { OK, ERR_, INC };
#define GR94(c) (0xA1 <= (c) && (c) <= 0xFE)
#define GR96(c) (0xA0 <= (c))

/* the specification: classification and length of the first char, written
 * from the standards (RFC 3629, ISO-2022/EUC, JIS X 0213 Shift_JIS) */
static int spec_scan(const u8 *b, size_t size, size_t *len)
{
    u8 b0 = b[0];
    size_t i;
    *len = 1;
#if CODEC == UTF8
    if (b0 < 0x80) return OK;
    if (b0 < 0xC2 || b0 > 0xF4) {
        /* never a well-formed lead byte: error, or incomplete while the
         * sequence it announces is not wholly present */
        return ERR_;
    }
    *len = b0 < 0xE0 ? 2 : b0 < 0xF0 ? 3 : 4;
    for (i = 1; i < 4; i++) {
        if (i >= *len) break;
        if (size <= i) return INC;
        if ((b[i] & 0xC0) != 0x80) return ERR_;
    }
    if (b0 == 0xE0 && b[1] < 0xA0) return ERR_;
    if (b0 == 0xED && b[1] > 0x9F) return ERR_;
    if (b0 == 0xF0 && b[1] < 0x90) return ERR_;
    if (b0 == 0xF4 && b[1] > 0x8F) return ERR_;
    return OK;
#elif CODEC == EUCJP
    if (b0 < 0x80) return OK;
    if (GR94(b0) || b0 == 0x8E) {
        if (size < 2) return INC;
        if (!GR96(b[1])) return ERR_;
        *len = 2;
        return OK;
    }
    if (b0 == 0x8F) {
        if (size < 2) return INC;
        if (b[1] == 0xA0 || b[1] == 0xFF) { *len = 2; return OK; }
        if (!GR94(b[1])) return ERR_;
        if (size < 3) return INC;
        if (!GR94(b[2])) return ERR_;
        *len = 3;
        return OK;
    }
    return ERR_;
#elif CODEC == EUCCN || CODEC == EUCKR
    if (b0 < 0x80) return OK;
    if (GR94(b0)) {
        if (size < 2) return INC;
        if (!GR96(b[1])) return ERR_;
        *len = 2;
        return OK;
    }
    return ERR_;
#elif CODEC == SJIS
    if ((0x81 <= b0 && b0 <= 0x9F) || (0xE0 <= b0 && b0 <= 0xFC)) {
        if (size < 2) return INC;
        if (!(0x40 <= b[1] && b[1] <= 0xFC && b[1] != 0x7F)) return ERR_;
        *len = 2;
        return OK;
    }
    return OK;
#else
    return OK;
#endif
}

static long spec_value(const u8 *b, size_t n)
{
#if CODEC == UTF8
    switch (n) {
    case 1: return b[0];
    case 2: return (b[0] - 0xC0L) * 64 + (b[1] - 0x80L);
    case 3: return ((b[0] - 0xE0L) * 64 + (b[1] - 0x80L)) * 64 + (b[2] - 0x80L);
    default: return (((b[0] - 0xF0L) * 64 + (b[1] - 0x80L)) * 64 + (b[2] - 0x80L)) * 64 + (b[3] - 0x80L);
    }
#else
    return n == 1 ? b[0] : n == 2 ? b[0] * 256L + b[1] : (b[0] * 256L + b[1]) * 256L + b[2];
#endif
}

/* is ch a character of this coded character set (as the scanner yields them)? */
static int spec_charp(long ch)
{
    u8 b[3]; size_t l;
    if (ch < 0) return 0;
#if CODEC == UTF8
    return ch <= 0x10FFFF && !(0xD800 <= ch && ch <= 0xDFFF);
#else
    if (ch <= 0xFF) { b[0] = ch; return spec_scan(b, 1, &l) == OK; }
#if CODEC == UNIBYTE
    return 0;
#endif
    if (ch <= 0xFFFF) { b[0] = ch >> 8; b[1] = ch; return spec_scan(b, 2, &l) == OK && l == 2; }
    if (ch <= 0xFFFFFF) { b[0] = ch >> 16; b[1] = ch >> 8; b[2] = ch; return spec_scan(b, 3, &l) == OK && l == 3; }
    return 0;
#endif
}

static ScmCharCodec *codec(void)
{
    ScmCharCodec *c = scm_mb_find_codec(NAME);
    A(c != NULL, "find-codec: the encoding " NAME " is available");
#ifndef NATIVE
    __CPROVER_assume(c != NULL);
#endif
    A(!strcmp(SCM_CHARCODEC_ENCODING(c), NAME), "encoding-name");
    A(!SCM_CHARCODEC_STATEFULP(c), "stateless");
    return c;
}

#if defined(ENTRY_decode) || defined(NATIVE)
/* scan_char + str2int + int2str + char_len on an arbitrary buffer of any size */
void decode(void)
{
    ScmCharCodec *c = codec();
    size_t size = nondet_size(), len;
    ScmMultibyteString mbs;
    ScmMultibyteCharInfo inf;
    char *buf, out[SCM_MB_CHAR_BUF_SIZE + 3], *end;
    scm_ichar_t ch;
    int cls, i;

    __CPROVER_assume(1 <= size && size <= ((size_t)1 << 40));
    buf = malloc(size);               /* exactly size bytes: any over-read fails */
    __CPROVER_assume(buf != NULL);
    FILL(buf, size);
    SCM_MBS_INIT2(mbs, buf, size);
    inf = SCM_CHARCODEC_SCAN_CHAR(c, mbs);
    cls = spec_scan((u8 *)buf, size, &len);
    A(SCM_MBCINFO_GET_SIZE(inf) >= 1, "scan: progress (at least one byte is consumed)");
    A(SCM_MBCINFO_GET_SIZE(inf) <= size, "scan: never consumes beyond the end");
    A(SCM_MBCINFO_GET_SIZE(inf) <= SCM_MB_MAX_LEN, "scan: at most 4 bytes per char");
    if (cls == OK) {
        A(!SCM_MBCINFO_ERRORP(inf) && !SCM_MBCINFO_INCOMPLETEP(inf), "scan: accepts every well-formed sequence");
        A(SCM_MBCINFO_GET_SIZE(inf) == len, "scan: byte length of a well-formed char");
    } else if (cls == INC) {
        A(SCM_MBCINFO_INCOMPLETEP(inf) || SCM_MBCINFO_ERRORP(inf), "scan: truncated sequence is not accepted");
    } else {
        /* an ill-formed sequence that is also truncated may be reported either way */
        A(SCM_MBCINFO_ERRORP(inf) || (SCM_MBCINFO_INCOMPLETEP(inf) && size < SCM_MB_MAX_LEN),
          "scan: rejects every ill-formed sequence");
    }
    if (cls == OK) {
        ch = SCM_CHARCODEC_STR2INT(c, buf, len, SCM_MB_STATELESS);
        A(ch == spec_value((u8 *)buf, len), "str2int: value of the char");
        for (i = 0; i < sizeof(out); i++)
            out[i] = 0x55;
        end = SCM_CHARCODEC_INT2STR(c, out, ch, SCM_MB_STATELESS);
        A(end == out + len, "int2str: re-encodes a decoded char to the same length");
        for (i = 0; i < 4; i++)
            if (i < len)
                A(out[i] == buf[i], "int2str: re-encodes a decoded char to the same bytes");
        A(out[len] == '\0', "int2str: terminator");
        for (i = 2; i < sizeof(out); i++)
            if (i > len)
                A(out[i] == 0x55, "int2str: frame (nothing beyond the terminator is written)");
        if (ch)
            A(SCM_CHARCODEC_CHAR_LEN(c, ch) == len, "char_len: agrees with the encoded length");
        A(0, "REACH decode-ok");
    }
    A(0, "REACH decode-end");
#ifdef NATIVE
    free(buf);
#endif
}

#endif
#if defined(ENTRY_encode) || defined(NATIVE)
/* int2str then scan_char + str2int on an arbitrary char value */
void encode(void)
{
    ScmCharCodec *c = codec();
    scm_ichar_t ch = nondet_ichar();
    char out[SCM_MB_CHAR_BUF_SIZE + 3], *end;
    ScmMultibyteString mbs;
    ScmMultibyteCharInfo inf;
    size_t n;
    int i;

    __CPROVER_assume(0 <= ch);
    for (i = 0; i < sizeof(out); i++)
        out[i] = 0x55;
    end = SCM_CHARCODEC_INT2STR(c, out, ch, SCM_MB_STATELESS);
    A((end != NULL) == (spec_charp(ch) != 0), "int2str: encodes exactly the chars of the coded character set");
    if (ch)
        A(SCM_CHARCODEC_CHAR_LEN(c, ch) == (end ? end - out : 0), "char_len: agrees with int2str");
    if (end) {
        n = end - out;
        A(1 <= n && n <= SCM_MB_MAX_LEN, "int2str: 1 to 4 bytes");
        A(*end == '\0', "int2str: terminator");
        for (i = 2; i < sizeof(out); i++)
            if (i > n)
                A(out[i] == 0x55, "int2str: frame");
        SCM_MBS_INIT2(mbs, out, n);
        inf = SCM_CHARCODEC_SCAN_CHAR(c, mbs);
        A(SCM_MBCINFO_GET_SIZE(inf) == n && !SCM_MBCINFO_ERRORP(inf) && !SCM_MBCINFO_INCOMPLETEP(inf),
          "scan: accepts what int2str wrote");
        A(SCM_CHARCODEC_STR2INT(c, out, n, SCM_MB_STATELESS) == ch, "str2int: inverse of int2str");
        A(0, "REACH encode-ok");
    }
    A(0, "REACH encode-end");
}
#endif

#ifdef NATIVE
int main(void)
{
    static const u8 edge[] = { 0x00, 0x20, 0x3f, 0x40, 0x41, 0x7e, 0x7f, 0x80, 0x81, 0x8e, 0x8f, 0x90, 0x9f,
                               0xa0, 0xa1, 0xbf, 0xc0, 0xfc, 0xfd, 0xfe, 0xff };
    int a, b, c, d;
    n_enc = 1;
    for (n_ch = 0; n_ch <= 0x1fffff; n_ch++) encode();
    for (n_ch = 0x8f0000; n_ch <= 0x8fffff; n_ch++) encode();
    for (a = 0; a < 31; a++) for (b = -2; b <= 2; b++) { n_ch = (1L << a) + b; encode(); }
    n_ch = 0x7fffffff; encode();
    n_enc = 0;
    for (a = 0; a < 256; a++) {
        n_buf[0] = a; n_size = 1; decode();
        for (b = 0; b < 256; b++) {
            n_buf[1] = b; n_size = 2; decode();
            for (c = 0; c < sizeof(edge); c++) {
                n_buf[2] = edge[c]; n_size = 3; decode();
                if (a >= 0xe0)
                    for (d = 0; d < sizeof(edge); d++) {
                        n_buf[3] = edge[d]; n_size = 4; decode(); n_size = 6; decode();
                    }
            }
        }
    }
    printf("OK\n");
    return 0;
}
#endif
