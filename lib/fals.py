"""Replay on the real code: Scheme expressions with the result an independent
oracle expects, run on the natively built interpreter.  Used only to confirm a
failed obligation with a concrete input."""
import os, re, subprocess, tempfile
import env

PRELUDE = '(use srfi-34)\n(use srfi-60)\n(define (%%run n th) (display n) (display ":") (write (guard (e (#t (quote ERR))) (th))) (display "\\n"))\n'

def lit(v):
    if v is True: return "#t"
    if v is False: return "#f"
    return str(v)

def run(cases, variant="compact", prelude="", batch=400, timeout=60, args=(), exe=None, native=True):
    """cases: [(expression, expected text or None)]; first mismatch as text, or None"""
    exe = exe or env.native(variant)
    for b in range(0, len(cases), batch):
        part = cases[b:b + batch]
        src = PRELUDE + prelude + "\n"
        for i, (x, w) in enumerate(part):
            src += "(%%%%run %d (lambda () %s))\n" % (i, x)
        f = tempfile.NamedTemporaryFile("wb", suffix=".scm", dir=env.scratch(), delete=False)
        f.write(src.encode("utf-8")); f.close()
        try:
            p = subprocess.run([exe, "--system-load-path", os.path.join(env.REPO, "lib"), *args, f.name],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=timeout)
            rc, out = p.returncode, p.stdout
        except subprocess.TimeoutExpired as e:
            rc, out = 124, e.stdout or b""
        os.unlink(f.name)
        got = {}
        for l in out.decode("utf-8", "replace").split("\n"):
            m = re.match(r"(\d+):(.*)$", l)
            if m and int(m[1]) == len(got): got[int(m[1])] = m[2]
        for i, (x, w) in enumerate(part):
            g = got.get(i)
            if g is None:
                return "%s build: %s\n  expected: %s\n  got: the interpreter %s\n%s" % (variant, x, w,
                    "hangs" if rc == 124 else "dies (exit status %d)" % rc, out[-300:].decode("utf-8", "replace"))
            if w is not None and g != w:
                return "%s build: %s\n  expected: %s\n  got: %s" % (variant, x, w, g)
    return None

def both(gen, **kw):
    """gen(variant) -> cases"""
    def f(ctx, failed):
        vs = [v for v in ("compact", "fatty") if any("[%s]" % v in o.name for o in failed)] or ["compact", "fatty"]
        for v in vs:
            c = gen(v)
            pre = ""
            if isinstance(c, tuple): pre, c = c
            r = run(c, v, prelude=pre, **kw)
            if r: return "replay: sscm built from /repo/src (%s layout)\n%s" % (v, r)
        return None
    f.gen = gen
    return f
