"""CBMC back end: goto-cc compiles the working tree's sources together with a
contract harness; every assertion and memory-safety condition is one obligation."""
import json, os, re, time
from concurrent.futures import ThreadPoolExecutor
import env

class Obl:
    def __init__(self, name, ok, detail="", backend="cbmc-sat", secs=0.0, cex=None, kind="post"):
        self.name, self.ok, self.detail, self.backend, self.secs, self.cex, self.kind = name, ok, detail, backend, secs, cex, kind

def harness(prop, tag, files, entry, variant="compact", defs=(), unwind=None, timeout=300,
            checks=("--bounds-check", "--pointer-check", "--div-by-zero-check"), extra=(),
            bounded=None, opaque=()):
    """files: harness + repo sources.  Returns list of Obl; raises ToolError on
    anything which is not a verdict."""
    d = env.scratch()
    gb = os.path.join(d, "%s-%s-%s.gb" % (prop, tag, entry))
    srcs = [f if f.startswith("/") else os.path.join(env.SRC, f) for f in files]
    env.run(["goto-cc", "--function", entry, "-o", gb, *env.cppflags(variant), "-w", "-DENTRY_"+entry, *defs, *srcs], timeout=120)
    cmd = ["cbmc", gb, "--json-ui", "--trace", *checks, *extra, "--unwinding-assertions"]
    if unwind:
        cmd += ["--unwind", str(unwind)]
    t0 = time.time()
    p = env.run(cmd, timeout=timeout, check=False)
    dt = time.time() - t0
    try:
        out = json.loads(p.stdout)
    except ValueError:
        raise env.ToolError("cbmc gave no JSON (rc %d): %s" % (p.returncode, (p.stdout + p.stderr)[-800:]))
    res = None
    for m in out:
        if "result" in m:
            res = m["result"]
        if m.get("messageType") == "ERROR":
            raise env.ToolError("cbmc: " + m.get("messageText", ""))
    if res is None:
        raise env.ToolError("cbmc: no result section (rc %d)" % p.returncode)
    obls, reach = [], []
    for r in res:
        desc, st = r["description"], r["status"]
        if st == "UNKNOWN" and any(x["status"] == "FAILURE" for x in res):
            pass                                     # behind another failed obligation
        elif st not in ("SUCCESS", "FAILURE"):
            raise env.ToolError("cbmc: status %s for %s" % (st, desc))
        if desc.startswith("OBL REACH"):
            reach.append((desc, st)); continue
        loc = r.get("sourceLocation", {})
        fn = loc.get("function", "?")
        if desc.startswith("OBL "):
            name = "%s/%s/%s: %s" % (prop, tag, entry, desc[4:])
            kind = "post"
        else:
            if "unwinding" in r["property"]:
                kind = "unwind"
            else:
                kind = "safety"
            name = "%s/%s/%s: %s [%s in %s]" % (prop, tag, entry, desc, r["property"], fn)
        cex = None
        if st == "FAILURE":
            cex = trace_inputs(r.get("trace", []))
        obls.append(Obl(name, {"SUCCESS": True, "FAILURE": False}.get(st), desc, "cbmc-sat", dt / max(1, len(res)), cex, kind))
    for desc, st in reach:
        if st == "SUCCESS" and all(x["status"] == "SUCCESS" for x in res if not x["description"].startswith("OBL REACH")):
            raise env.ToolError("vacuity: %s is unreachable in %s" % (desc, tag))
    if not reach:
        raise env.ToolError("vacuity: harness %s/%s has no reachability guard" % (tag, entry))
    if not obls:
        raise env.ToolError("vacuity: no obligations in " + tag)
    bad = [o for o in obls if o.kind == "unwind" and not o.ok]
    if bad and not bounded:
        # unwinding incomplete: not a verdict about the property by itself
        for o in bad:
            o.ok = None
    return obls

def trace_inputs(tr):
    out = []
    for s in tr:
        if s.get("stepType") == "assignment" and not s.get("hidden"):
            v = s.get("value", {})
            if "data" in v:
                out.append((s.get("lhs"), v["data"], (s.get("sourceLocation") or {}).get("function")))
    return out[-400:]
