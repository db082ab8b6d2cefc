import env, cbmc, os
LEVEL = "proof"
H = os.path.join(env.VERIF, "cbmc", "storage.c")
E = ["e_int", "e_char", "e_constant", "e_cons", "e_closure", "e_symbol", "e_string", "e_vector", "e_func", "e_port", "e_continuation", "e_values", "e_cpointer", "e_cfuncpointer"]
HY = ["e_macro", "e_farsymbol", "e_subpat"]

def setup(ctx):
    ctx.trust("CBMC 6.11 (goto-cc, symex, MiniSat)", "C semantics of goto-cc, 64-bit little-endian; conversions between pointers and integers keep the bits")
    ctx.assume("cells are aligned to their size and pointers stored in objects are even (8-byte aligned for symbol names), as the allocator provides",
               "string and vector lengths and integers are within the layout's documented range; macro environments and subpattern data are within 55 bits; procedure type codes below 2^16",
               "references stored in objects in use have the collector's bit clear")
    for v in ("compact", "fatty", "hygienic"):
        for e in E + (HY if v == "hygienic" else []):
            if v == "hygienic" and e in E and e not in ("e_symbol", "e_string"): continue
            ctx.func("%s: constructor, accessors, predicates, mark, unmark, reclaim of %s" % (v, e[2:]))
            ctx.task(cbmc.harness, "S01", v, [H, "storage.c", "alloc.c"], e, variant=v, unwind=2, extra=("--drop-unused-functions",))
    ctx.checker_cmds.append("goto-cc cbmc/storage.c /repo/src/storage.c /repo/src/alloc.c; cbmc --unwind 2 --unwinding-assertions")
    def fals(ctx, failed):
        for v in ("compact", "fatty", "hygienic"):
            if not any("/%s/" % v in o.name for o in failed): continue
            exe = os.path.join(env.scratch(), "storage-" + v)
            env.run(["gcc", "-O1", "-g", "-w", *env.cppflags(v), "-DNATIVE", H, env.SRC + "/storage.c", env.SRC + "/alloc.c", "-Wl,--unresolved-symbols=ignore-all", "-o", exe])
            p = env.run([exe], check=False, timeout=200)
            if p.returncode or "OK" not in p.stdout:
                return "replay: cbmc/storage.c compiled natively (-DNATIVE, %s layout) with /repo/src/storage.c\n%s\n%s" % (v, p.stdout[-1500:], p.stderr[:1500])
    ctx.falsifier(fals)
