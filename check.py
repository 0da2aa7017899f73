#!/usr/bin/env python3
"""Checks one property of /repo against the TLA+ specification in spec/.

  check.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]

1. TLC explores the session machine (spec/Session.tla) for the property: its
   design invariants are checked and its behaviours are written as programs.
2. The driver in harness/ is built against /repo's working tree, executes those
   programs and further seeded sessions on the real library, and records every
   step.
3. TLC validates the recorded steps against spec/Trace.tla.
"""
import argparse, glob, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
WORK = os.path.join(HERE, ".work")
REPO = "/repo"
JARS = ":".join(sorted(glob.glob("/opt/veriftools/tla/*.jar"), key=lambda p: ("tla2tools" not in p, p)))
SHARDS = 8

# property -> seeded sessions of the quick tier
ROOTS = {"C01": 3000, "C02": 2500, "C03": 3000, "C04": 3500, "C05": 2500, "C06": 3000, "C07": 5000, "C08": 3000,
         "C09": 3000, "C10": 4000, "C11": 4000, "C12": 500, "C13": 3000, "C14": 2500, "C15": 2200, "C16": 5000,
         "C17": 6000, "C18": 6000, "C19": 3500, "C20": 2500}
THOROUGH_S = 660          # how long the thorough tier explores
QUICK_S = 120             # no quick stage goes on longer than this


class ToolError(Exception):
    pass


def say(*a):
    print(*a, flush=True)


def load_known():
    known = []
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(C\d\d) op=(\S+) input=(.*?) => (.*)$", l.strip())
            if m:
                known.append(m.groups())
    return known


def build():
    target = os.path.join(WORK, "target")
    os.makedirs(target, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
    t0 = time.time()
    # cargo trusts mtimes: look at /repo's files again even if one was put back with an old mtime
    for f in glob.glob(os.path.join(target, "debug/.fingerprint/ncas-*")):
        shutil.rmtree(f, ignore_errors=True)
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(HERE, "harness/Cargo.toml")],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        say(r.stdout[-4000:])
        raise ToolError("the driver does not build against /repo")
    return os.path.join(target, "debug", "ncas-harness"), time.time() - t0


def java(work, *args, heap="2g", env=None, out=None):
    cmd = ["java", "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss64m", "-Dfile.encoding=UTF-8", "-Djava.io.tmpdir=" + work, "-cp", JARS, "tlc2.TLC"] + list(args)
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=open(out, "w"), stderr=subprocess.STDOUT)


# ------------------------------------------------------------------ driver
def dictionary():
    """literals of the library's sources (tests aside); they only steer the generation of inputs"""
    ints, floats, labels = set(), set(), set()
    for f in glob.glob(os.path.join(REPO, "src", "**", "*.rs"), recursive=True):
        t = open(f, errors="replace").read()
        if f.endswith("_test.rs"):
            continue
        t = re.split(r"#\[cfg\(test\)\]\s*mod\s+\w+\s*\{", t)[0]
        t = re.sub(r"//[^\n]*|/\*.*?\*/", " ", t, flags=re.S)
        labels.update(m.group(1) for m in re.finditer(r'"((?:[^"\\]|\\.)*)"', t))
        t = re.sub(r'"(?:[^"\\]|\\.)*"', " ", t)
        for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|\d[\d_]*)(\.\d[\d_]*)?(?:[eE]([-+]?\d+))?", t):
            w = m.group(0).replace("_", "")
            if m.group(2) or m.group(3):
                floats.add(repr(float(w)))
            else:
                n = int(m.group(1).replace("_", ""), 0 if m.group(1).startswith("0x") else 10)
                ints.add(n)
    ints = sorted(n for n in ints if n > 2)
    labels = sorted(l for l in labels if len(l) < 16 and all(31 < ord(c) < 127 and c not in '"\\' for c in l))
    return json.dumps([[str(n) for n in ints[:400]], sorted(floats)[:200], labels[:200]])


def drive(exe, d, prop, seed, roots, deep, replay=None, deadline_ms=0, only=None, cold=False, words=None):
    os.makedirs(d)
    cmd = [exe, "run", "--dir", d, "--prop", prop, "--seed", str(seed), "--roots", str(roots), "--W", str(SHARDS),
           "--deep", "1" if deep else "0"]
    if replay:
        cmd += ["--replay", replay]
    if deadline_ms:
        cmd += ["--deadline_ms", str(deadline_ms)]
    if cold:
        cmd += ["--cold", "1"]
    if only is not None:
        cmd += ["--only", str(only)]
    def limit():            # code that allocates without end dies by itself
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=limit,
                       env=dict(os.environ, NCAS_DICT=words or dictionary()))
    if r.returncode != 0:
        raise ToolError("driver failed: " + r.stderr[-500:])


def again(d1, d2):
    """C14: what the same operation gave in a process of its own becomes part of the first log."""
    for w in range(SHARDS):
        p1, p2 = (os.path.join(d, "shard%d.ndjson" % w) for d in (d1, d2))
        other, roots = {}, set()
        for l in open(p2):
            e = json.loads(l)
            roots.add(e["g"])
            if e["o"] == "det":
                other.setdefault((e["g"], e.get("op"), tuple(e["a"])), []).append(e)
        out = []
        for l in open(p1):
            e = json.loads(l)
            if e["o"] == "det" and e["bad"] == "" and e["g"] in roots:
                o = other.get((e["g"], e["op"], tuple(e["a"])), [])
                e["again"] = o.pop(0).get("rs", []) if o else []
                l = json.dumps(e, separators=(",", ":"), ensure_ascii=False) + "\n"
            out.append(l)
        open(p1, "w").writelines(out)


# ------------------------------------------------------------------ trace validation
def validate(d, prop, drift=False, drifts=None):
    procs = []
    for w in range(SHARDS):
        f = os.path.join(d, "shard%d.ndjson" % w)
        if os.path.getsize(f) == 0:
            continue
        tmp = os.path.join(d, "t%d" % w)
        os.makedirs(tmp)
        out = os.path.join(d, "out%d.txt" % w)
        procs.append((w, out, java(tmp, "-workers", "1", "-metadir", tmp, "-config", "Trace.cfg", "Trace.tla",
                                   env={"TRACE": f, "PROP": prop, "DRIFT": "1" if drift else "0"}, out=out)))
    rejects, counts = [], {"lines": 0, "states": 0, "own": 0, "known": 0, "values": 0, "predicted": 0, "same": 0, "tower": 0}
    for w, out, p in procs:
        p.wait()
        txt = open(out).read()
        got = False
        for l in txt.splitlines():
            if l.startswith('"REJECT '):
                r = json.loads(json.loads(l)[7:])
                r["shard"] = w
                rejects.append(r)
            elif l.startswith('"DRIFT '):
                if drifts is not None:
                    drifts.append(json.loads(json.loads(l)[6:]))
            elif l.startswith('"COUNTS '):
                got = True
                for k, v in json.loads(json.loads(l)[7:]).items():
                    counts[k] += v
        if p.returncode != 0 or not got:
            keep = os.path.join(WORK, "tlc-error.txt")
            os.makedirs(WORK, exist_ok=True)
            shutil.copy(out, keep)
            i = txt.find("Error:")
            raise ToolError("TLC failed on shard %d (%s): %s" % (w, keep, txt[i:i + 600]))
    return rejects, counts


def text(t):
    k = t[0]
    if k == "I":
        return str(t[1])
    if k == "J":
        return ("-" if t[1] < 0 else "") + "".join("%04d" % x for x in t[2]).lstrip("0")
    if k in ("R", "S"):
        n, e = (t[1], t[2]) if k == "R" else (t[1] * int("".join("%04d" % x for x in t[2])), t[3])
        if n == 0:
            return "-0.0" if e == -1 else "0.0"
        try:
            return repr(float(n) * 2.0 ** e) if -1000 < e < 900 else "%dp%d" % (n, e)
        except OverflowError:
            return "%dp%d" % (n, e)
    if k in ("X", "V"):
        return t[1]
    if k == "+":
        return "(" + " + ".join(map(text, t[1])) + ")"
    if k == "*":
        return "(" + " * ".join(map(text, t[1])) + ")"
    if k == "^":
        return "pow(%s, %s)" % (text(t[1]), text(t[2]))
    if k == "L":
        return "log(%s, %s)" % (text(t[1]), text(t[2]))
    return "%s(%s)" % (k, text(t[1]))


def describe(d, r):
    """the recorded steps that lead to a rejected one"""
    log = open(os.path.join(d, "shard%d.ndjson" % r["shard"])).read().splitlines()
    chain, k = [], r["line"]
    while k:
        e = json.loads(log[k - 1])
        chain.append(e)
        k = e["p"]
    chain.reverse()
    regs, steps = [], []
    for e in chain:
        appends = e["bad"] == "" and "r" in e and (e["o"] in ("load", "add", "sub", "mul", "div", "neg", "sum", "prod", "pow", "log", "expand", "simplify")
                                                  or e["o"].startswith("rule."))
        st = {"op": e["o"], "args": [regs[i - 1] if 0 < i <= len(regs) else "?" for i in e["a"]]}
        if appends:
            regs.append(text(e["r"]))
            st["result"] = regs[-1]
        if e["bad"]:
            st["no_result"] = e["bad"]
        st["record"] = {k: v for k, v in e.items() if k not in ("p", "g", "o", "a", "k", "bad", "r")}
        steps.append(st)
    return steps


# ------------------------------------------------------------------ model stage
def model(prop, tier, seed, work):
    """TLC on the session machine: returns (programs file or None, statistics)"""
    import model as m
    return m.explore(prop, tier, seed, work, java, ToolError)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--roots", type=int)
    ap.add_argument("--no-model", action="store_true")
    a = ap.parse_args()
    sys.path.insert(0, HERE)
    prop = a.prop
    if prop not in ROOTS:
        say("unknown property", prop)
        return 2
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="ncas-%s-" % prop)
    try:
        return run(prop, a, work, t0)
    except ToolError as e:
        say("ERROR", e)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(prop, a, work, t0):
    tier = "thorough" if a.tier == "thorough" else "quick"
    known = load_known()
    exe, build_s = build()
    say("built the driver in %.1fs" % build_s)
    if a.replay:
        r = json.load(open(a.replay))
        rounds = [(r["seed"], r["roots"], r["deep"], r["root"], r.get("programs"), r.get("words"))]
        stats = {}
    else:
        programs, stats = (None, {}) if a.no_model else model(prop, tier, a.seed, work)
        if stats:
            say("session machine: " + json.dumps({k: v for k, v in stats.items() if k != "samples"}))
        rounds = None
    total = {"lines": 0, "states": 0, "own": 0, "known": 0, "values": 0, "predicted": 0, "same": 0, "tower": 0}
    traces = nrounds = 0
    samples, findings, hits = [], [], []
    drift = {"predicted": 0, "same": 0}
    n = 0
    while True:
        if rounds is not None:
            if n >= len(rounds):
                break
            seed, roots, deep, only, progs, words = rounds[n]
            if progs:
                pf = os.path.join(work, "programs.txt")
                open(pf, "w").write(progs)
                progs = pf
        else:
            if n > 0 and (tier == "quick" or time.time() - t0 > THOROUGH_S):
                break
            seed, only, words = a.seed + 1000 * n, None, dictionary()
            roots = a.roots or (ROOTS[prop] * (1 if tier == "quick" else 2))
            deep = tier == "thorough" and n % 2 == 1
            progs = programs if n == 0 else None
        d = os.path.join(work, "run%d" % n)
        drive(exe, d, prop, seed, roots, deep, progs, deadline_ms=QUICK_S * 1000, only=only, words=words)
        if prop == "C14":
            drive(exe, d + "b", prop, seed, roots, deep, progs, deadline_ms=QUICK_S * 2000, only=only, cold=True, words=words)
            again(d, d + "b")
        rejects, counts = validate(d, prop)
        nrounds += 1
        for k in total:
            total[k] += counts[k]
        for w in range(SHARDS):
            traces += sum('"k":[]' in l for l in open(os.path.join(d, "shard%d.ndjson" % w)))
        if progs:
            drift = model_drift(d)
            say("the design predicted %d results, %d of them to the letter" % (drift["predicted"], drift["same"]))
        if len(samples) < 3:
            samples += some_samples(d, 3 - len(samples))
        for r in rejects[:60]:
            steps = describe(d, r)
            last = steps[-1]
            inp = " ; ".join(last["args"])
            kf = [k for k in known if k[0] == prop and k[1] == last["op"] and k[2] == inp]
            if kf:
                line = "KNOWN-FINDING: property=%s %s" % (prop, kf[0][3])
                if line not in hits:
                    hits.append(line)
                continue
            root, own = localise(progs, r["root"])
            findings.append({"property": prop, "why": r["why"], "op": last["op"], "steps": steps, "seed": seed, "roots": roots,
                             "deep": deep, "root": root, "programs": own, "words": words})
        extra = max(0, len(rejects) - 60)
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(d + "b", ignore_errors=True)
        n += 1
        if findings:
            break
    wall = time.time() - t0
    if not a.replay:
        write_evidence(prop, tier, a.seed, stats, total, traces, nrounds, samples, findings, drift, wall)
    for h in hits:
        say(h)
    say("validated %d recorded steps (%d behaviours, %d judged steps; %d of %d values and %d tower values known) in %.0fs"
        % (total["lines"], traces, total["own"], total["known"], total["values"], total["tower"], wall))
    if stats.get("design_violation"):
        say("ERROR the specification's own design check failed: " + stats["design_violation"])
        if not findings:
            return 2
    if findings:
        f = findings[0]
        rd = os.path.join(HERE, "replays")
        os.makedirs(rd, exist_ok=True)
        h = hashlib.sha1(json.dumps(f["steps"]).encode()).hexdigest()[:10]
        path = os.path.join(rd, "%s-%s.json" % (prop, h))
        json.dump(f, open(path, "w"), indent=1)
        for f in findings[:5]:
            s = f["steps"][-1]
            say("  %s: %s(%s)%s%s" % ("; ".join(f["why"]), s["op"], ", ".join(s["args"])[:600],
                                     " = " + s["result"][:600] if "result" in s else "", " " + s.get("no_result", "")))
        say("  %d step(s) not allowed by the specification" % len(findings))
        say("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if a.replay:
        say("the replayed behaviour is allowed")
    return 0


def localise(progs, root):
    """the part of the programs file one root executes"""
    if not progs:
        return root, None
    lines = open(progs).read().splitlines()
    groups = {}
    for l in lines[1:]:
        groups.setdefault(json.dumps(json.loads(l)[0][:2]), []).append(l)
    groups = list(groups.values())
    if root >= len(groups):
        return root - len(groups), None
    return 0, "\n".join([lines[0]] + groups[root]) + "\n"


def model_drift(d):
    """how often the recorded result is the very one the design predicted (information only)"""
    p = same = 0
    first = None
    for w in range(SHARDS):
        for l in open(os.path.join(d, "shard%d.ndjson" % w)):
            if '"w":' not in l:
                continue
            e = json.loads(l)
            if e.get("w") and "r" in e:
                p += 1
                if e["w"] == e["r"]:
                    same += 1
                elif first is None:
                    first = {"op": e["o"], "design": text(e["w"]), "recorded": text(e["r"])}
    out = {"predicted": p, "same": same}
    if first:
        out["first_difference"] = first
    return out


def some_samples(d, n):
    out = []
    for w in range(SHARDS):
        log = [json.loads(l) for l in open(os.path.join(d, "shard%d.ndjson" % w)).read().splitlines()[:400]]
        leaves = [i for i, e in enumerate(log) if not e["k"] and e["o"] != "load" and e["bad"] == ""]
        if not leaves:
            continue
        steps = describe(d, {"shard": w, "line": leaves[len(leaves) // 2] + 1})
        out.append([{k: (v if k != "record" else {a: b for a, b in v.items() if len(json.dumps(b)) < 200}) for k, v in s.items()}
                    for s in steps[-5:]])
        if len(out) >= n:
            break
    return out


def write_evidence(prop, tier, seed, stats, total, traces, nrounds, samples, findings, drift, wall):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    cov = {
        "states": stats.get("states", 0) + total["states"],
        "transitions": stats.get("transitions", 0) + total["lines"],
        "traces_validated_against_impl": traces,
        "samples": samples + stats.get("samples", [])[:2],
        "design_exploration": {k: v for k, v in stats.items() if k != "samples"},
        "recorded_steps": total["lines"],
        "judged_steps": total["own"],
        "values_determined_by_the_specification": total["known"],
        "values_compared": total["values"],
        "steps_with_a_value_in_the_tower_semantics": total["tower"],
        "rounds": nrounds,
        "agreement_with_the_predicted_results": drift,
        "explanation": "states/transitions: those TLC visited in the session machine (design check) plus those of the trace "
                       "validation, one per recorded step; traces: recorded behaviours of the real library, each validated to its end.",
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": ["Values are compared modulo a 16-bit prime under three assignments of positive integers to the variables; "
                          "values the specification cannot determine (irrational powers, out-of-domain powers) are not compared.",
                          "Operand sizes are bounded by the generators in harness/src/gen.rs."],
          "wall_s": round(wall, 2), "violations": len(findings)}
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)


if __name__ == "__main__":
    sys.exit(main())
