import env, cbmc, os

NAMES = {1: "UTF-8", 2: "EUC-JP", 3: "EUC-CN", 4: "EUC-KR", 5: "Shift_JIS", 6: "ISO-8859-1"}
H = os.path.join(env.VERIF, "cbmc", "codec.c")

def setup(ctx, codecs):
    ctx.trust("CBMC 6.11 (goto-cc, symex, MiniSat)", "clang/gcc-compatible C semantics of goto-cc, 64-bit little-endian",
              "the C specification in cbmc/codec.c (spec_scan, spec_value, spec_charp)")
    ctx.assume("malloc returns a block of exactly the requested size",
               "char values are non-negative (established by the reader, integer->char and the decoders)",
               "buffer sizes are at most 2^40 bytes (object-size limit of the memory model)")
    ctx.func(*["%s codec: scan_char" % NAMES[k] for k in codecs], *["%s codec: str2int" % NAMES[k] for k in codecs],
             *["%s codec: int2str" % NAMES[k] for k in codecs], *["%s codec: char_len" % NAMES[k] for k in codecs],
             "scm_mb_find_codec")
    ctx.checker_cmds.append("goto-cc cbmc/codec.c /repo/src/encoding.c; cbmc --bounds-check --pointer-check --div-by-zero-check --unwind 20 --unwinding-assertions")
    for k in codecs:
        for e in ("decode", "encode"):
            ctx.task(cbmc.harness, ctx.prop, NAMES[k], [H, "encoding.c"], e, defs=["-DCODEC=%d" % k], unwind=20)
    def fals(ctx, failed):
        for k in codecs:
            if not any("/%s/" % NAMES[k] in o.name for o in failed): continue
            exe = os.path.join(env.scratch(), "codec%d" % k)
            env.run(["gcc", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-w", *env.cppflags("compact"),
                     "-DNATIVE", "-DCODEC=%d" % k, H, env.SRC + "/encoding.c", "-Wl,--unresolved-symbols=ignore-all", "-o", exe])
            p = env.run([exe], check=False, timeout=200)
            if p.returncode or "OK" not in p.stdout:
                return "replay: cbmc/codec.c compiled natively (-DNATIVE -DCODEC=%d, ASan) with /repo/src/encoding.c\n%s\n%s" % (
                    k, p.stdout[-600:], p.stderr[:1500])
    ctx.falsifier(fals)
