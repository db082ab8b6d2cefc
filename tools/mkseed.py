#!/usr/bin/env python3
"""mkseed.py: write seeded/<id>/ from (file, old, new) replacements. Input: a python file defining SEEDS."""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def make(id, prop, edits, needs, breaks, demo, files={}):
    d = os.path.join(V, "seeded", id); os.makedirs(d, exist_ok=True)
    patch = ""
    for f in sorted({e[0] for e in edits}):
        src = open("/repo/" + f, encoding="latin-1").read(); new = src
        for e in edits:
            if e[0] != f: continue
            if new.count(e[1]) != (e[3] if len(e) > 3 else 1): sys.exit("%s: %d matches for %r" % (id, new.count(e[1]), e[1]))
            new = new.replace(e[1], e[2])
        with tempfile.TemporaryDirectory() as t:
            for n, s in (("a", src), ("b", new)):
                p = os.path.join(t, n, f); os.makedirs(os.path.dirname(p)); open(p, "w", encoding="latin-1").write(s)
            patch += subprocess.run(["diff", "-u", "a/" + f, "b/" + f], cwd=t, capture_output=True).stdout.decode("latin-1")
    open(os.path.join(d, "patch.diff"), "w", encoding="latin-1").write(patch)
    open(os.path.join(d, "demo.sh"), "w").write("#!/bin/bash\n" + demo); os.chmod(os.path.join(d, "demo.sh"), 0o755)
    for n, s in files.items(): open(os.path.join(d, n), "w").write(s)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
CDEMO = '''set -e
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -r "$t"' EXIT
gcc -w -DHAVE_CONFIG_H -DSCM_COMPILING_LIBSSCM=1 -DNDEBUG -DPKGDATADIR='""' -DSCMLIBDIR='""' -I_build/compact/src -I_build/compact/src/sigscheme -I_build/compact -Isrc -I_build/compact/include -Iinclude "$here/demo.c" %s -Wl,--unresolved-symbols=ignore-all -o "$t/demo"
"$t/demo"
'''
SDEMO = '''here=$(cd "$(dirname "$0")" && pwd)
out=$(timeout 120 ./_build/%s/src/sscm --system-load-path /repo/lib "$here/demo.scm" 2>&1)
echo "$out"
case "$out" in *FAIL*) exit 1;; *DONE*) exit 0;; *) exit 1;; esac
'''
SPRE = '''(use srfi-34)
(define (check what ok) (if (not ok) (begin (display "FAIL ") (display what) (newline))))
(define (err? thunk) (guard (e (#t #t)) (thunk) #f))
'''
def scm(id, prop, edits, needs, breaks, body, variant="compact"):
    make(id, prop, edits, needs, breaks, SDEMO % variant, {"demo.scm": SPRE + body + '\n(display "DONE")\n'})
def c(id, prop, edits, needs, breaks, src, body):
    make(id, prop, edits, needs, breaks, (CDEMO.replace("_build/compact", "_build/fatty") if "_build/fatty" in src else CDEMO) % src, {"demo.c": body})
if __name__ == "__main__":
    exec(open(sys.argv[1]).read())
