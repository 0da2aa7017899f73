"""Runs TLC on the session machine (spec/Session.tla).

Every behaviour TLC explores is judged by the property's own definition in
spec/Judge.tla (the design check) and printed as a program for the driver."""
import json, os, re, subprocess, time

LIMIT = {"quick": 240, "thorough": 420}


def explore(prop, tier, seed, work, java, ToolError):
    tmp = os.path.join(work, "model")
    os.makedirs(tmp, exist_ok=True)
    out = os.path.join(tmp, "out.txt")
    t0 = time.time()
    p = java(tmp, "-workers", "8", "-metadir", tmp, "-noGenerateSpecTE", "-config", "Session.cfg", "Session.tla",
             heap="8g", env={"PROP": prop, "TIER": tier, "SEED": str(seed), "TRACE": "", "DRIFT": "0"}, out=out)
    cut = False
    try:
        p.wait(timeout=LIMIT[tier])
    except subprocess.TimeoutExpired:
        cut = True          # what was explored so far still counts
        p.kill()
        p.wait()
    setup, programs, other = None, [], []
    for l in open(out, errors="replace"):
        if l.startswith('"SETUP '):
            try:
                setup = json.loads(l)[6:]
            except ValueError:
                pass
        elif l.startswith('"[['):
            try:
                programs.append(json.loads(l))
            except ValueError:
                if not cut:
                    other.append(l)
        else:
            other.append(l)
    log = "".join(other)
    stats = {"programs": len(programs), "seconds": round(time.time() - t0, 1), "complete": not cut}
    m = re.findall(r"([\d,]+) states generated[^\n]*?([\d,]+) distinct states", log)
    if m:
        stats["transitions"], stats["states"] = (int(x.replace(",", "")) for x in m[-1])
    if "Invariant NoFails is violated" in log:
        i = log.index("Invariant NoFails is violated")
        w = re.findall(r"/\\ fails = (\{.+?\})\s", log[i:], re.S)
        q = re.findall(r"/\\ prog = (<<.*?>>)\n", log[i:], re.S)
        stats["design_violation"] = "%s after %s" % (w[-1] if w else "?", re.sub(r"\s+", " ", q[-1]) if q else "?")
    elif not cut and p.returncode != 0:
        i = log.find("Error:")
        raise ToolError("TLC failed on the session machine: " + log[i:i + 800])
    if setup is None or not programs:
        raise ToolError("the session machine printed no programs")
    path = os.path.join(work, "programs.txt")
    with open(path, "w") as f:
        f.write(setup + "\n")
        f.write("\n".join(programs) + "\n")
    step = max(1, len(programs) // 2)
    stats["samples"] = [[{"op": s[0], "args": s[1]} for s in json.loads(q)] for q in programs[step // 2::step][:2]]
    return path, stats
