#!/usr/bin/env python3
"""Shows that the trace validation is bound to what was recorded: corrupts recorded
outcomes and counts the corrupted steps the specification rejects.

  corrupt.py C01 [--seed N] [--roots N] [--per-shard N]

Every corruption keeps the shape of a log (terms stay terms, flags stay flags), as a
changed library could have produced it; the specification must judge each of them,
and must never stop with an error.
"""
import argparse, copy, json, os, random, shutil, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import check

TAGS = {"I", "J", "R", "S", "X", "V", "+", "*", "^", "L", "sin", "cos"}
KEEP = {"p", "g", "o", "a", "k", "bad", "x", "y", "n", "op", "wx", "wy"}


def is_term(t):
    return isinstance(t, list) and len(t) > 1 and isinstance(t[0], str) and t[0] in TAGS


def places(v, path=()):
    """paths of the terms, numbers and strings inside a value"""
    if is_term(v):
        yield path, "term"
        kids = v[1] if v[0] in "+*" else None
        if kids is not None:
            for i in range(len(kids)):
                yield from places(kids[i], path + (1, i))
        elif v[0] in ("^", "L"):
            yield from places(v[1], path + (1,))
            yield from places(v[2], path + (2,))
        elif v[0] in ("sin", "cos"):
            yield from places(v[1], path + (1,))
    elif isinstance(v, list):
        if v:
            yield path, "list"
        for i in range(len(v)):
            yield from places(v[i], path + (i,))
    elif isinstance(v, bool) or v is None:
        return
    elif isinstance(v, int):
        yield path, "int"
    elif isinstance(v, str):
        yield path, "str"


def other_term(t, rnd):
    k = rnd.randrange(24)
    kids = copy.deepcopy(t[1]) if t[0] in "+*" else None
    if kids is not None and k < 8:
        if k < 2 and kids:
            del kids[rnd.randrange(len(kids))]
        elif k < 4 and kids:
            kids.append(copy.deepcopy(rnd.choice(kids)))
        elif k < 6:
            return ["*" if t[0] == "+" else "+", kids]
        else:
            kids.append(["V", "a"])
        return [t[0], kids]
    if t[0] in ("^", "L") and k < 6:
        return rnd.choice([[t[0], t[2], t[1]], t[1], t[2], [t[0], t[1], ["I", rnd.randrange(-3, 4)]]])
    if t[0] == "I" and k < 10:
        return ["I", t[1] + rnd.choice([1, -1, 2, 10])] if rnd.random() < .7 else ["I", -t[1]]
    if t[0] == "V" and k < 6:
        return ["V", rnd.choice(["b", "x", "nothing", ""])]
    return rnd.choice([
        ["I", 0], ["I", 1], ["I", -1], ["V", "b"], ["X", "nan"], ["X", "inf"], ["X", "-inf"], ["+", []], ["*", []],
        ["+", [t]], ["*", [t]], ["+", [t, t]], ["*", [["I", 0], t]], ["*", [["I", 1], t]], ["*", [["I", -1], t]], ["+", [t, ["I", 1]]],
        ["^", t, ["I", 0]], ["^", t, ["I", -1]], ["^", t, ["I", 2]], ["^", t, ["I", -7]], ["^", t, ["J", 1, [99, 9999, 9999, 9999]]],
        ["^", t, ["J", -1, [99, 9999, 9999, 9999]]], ["^", t, ["^", ["I", 2], ["I", -1]]], ["^", t, ["R", 1, -1]], ["^", t, ["V", "x"]],
        ["^", ["I", 0], ["I", -1]], ["^", ["I", 0], t], ["^", ["I", -1], t], ["L", t, ["I", 1]], ["L", ["I", 0], t], ["L", t, t],
        ["L", ["I", -8], ["I", 2]], ["R", 1, -1], ["R", 0, -1], ["R", 0, 0], ["R", 1, 900], ["R", -3, -1074],
        ["S", -1, [45, 359, 9627, 3704, 9600], -40], ["J", -1, [99, 9999, 9999, 9999]], ["J", 1, [10, 7374, 1824]], ["I", 46337], ["I", 92674],
        ["*", [["I", 46337], t]], ["^", ["+", [["V", "a"], ["V", "b"]]], ["I", 2]], ["*", [t, ["+", [["V", "a"], ["V", "b"]]]]], ["sin", t], ["cos", t]])


def corrupt(e, rnd):
    fields = [f for f in e if f not in KEEP]
    rnd.shuffle(fields)
    for f in fields:
        ps = list(places(e[f]))
        if not ps:
            continue
        path, kind = rnd.choice(ps)
        holder, key = e, f
        for s in path:
            holder, key = holder[key], s
        v = holder[key]
        if kind == "term":
            new = other_term(v, rnd)
        elif kind == "int":
            new = rnd.choice([0, 1, -1] if v in (0, 1, -1) else [v + 1, 0])
            if e["o"] not in ("order", "items") and new == -1:
                new = 0
        elif kind == "str":
            new = rnd.choice([v + " ", v[1:], v.replace("a", "b"), v.replace(" + ", " * ")])
        else:
            if f in ("cmp", "pc", "eq", "ne", "hs", "lt", "xy", "yx", "xx", "bz", "want", "wr") or kind == "list" and f in ("reals",) and e["o"] == "show":
                continue        # tables of a fixed shape
            new = list(v)
            if rnd.random() < .5:
                del new[rnd.randrange(len(new))]
            else:
                new.append(copy.deepcopy(rnd.choice(new)))
        if new != v:
            holder[key] = new
            return f, kind
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--roots", type=int, default=800)
    ap.add_argument("--per-shard", type=int, default=150)
    ap.add_argument("--show", type=int, default=0)
    a = ap.parse_args()
    exe, _ = check.build()
    work = tempfile.mkdtemp(prefix="ncas-corrupt-")
    rnd = random.Random(a.seed)
    try:
        d = os.path.join(work, "run")
        check.drive(exe, d, a.prop, a.seed, a.roots, False)
        base, _ = check.validate(d, a.prop)
        own = None
        done, stat = {}, {}
        txt = open(os.path.join(check.SPEC, "Judge.tla")).read()
        for w in range(check.SHARDS):
            p = os.path.join(d, "shard%d.ndjson" % w)
            log = [json.loads(l) for l in open(p)]
            # leaves only: a corrupted step then changes no other
            idx = [i for i, e in enumerate(log) if e["o"] != "load" and e["bad"] == "" and e["o"] in OWN[a.prop]]
            leaves = [i for i in idx if not log[i]["k"]] or idx
            for i in rnd.sample(leaves, min(a.per_shard, len(leaves))):
                before = json.dumps(log[i])
                c = corrupt(log[i], rnd)
                if c:
                    done[(w, i + 1)] = (c, log[i]["o"], before, json.dumps(log[i]))
            open(p, "w").writelines(json.dumps(e, separators=(",", ":")) + "\n" for e in log)
            for f in ("t%d" % w,):
                shutil.rmtree(os.path.join(d, f), ignore_errors=True)
        rejects, _ = check.validate(d, a.prop)
        hit = {(r["shard"], r["line"]) for r in rejects}
        for k, (c, o, b, n) in done.items():
            s = stat.setdefault((o,) + c, [0, 0])
            s[1] += 1
            s[0] += k in hit
        for k in sorted(stat):
            print("%-16s %-8s %-5s %4d of %4d rejected" % (k + tuple(stat[k])))
        missed = [k for k in done if k not in hit]
        for k in missed[:a.show]:
            print("MISSED", done[k][0], "\n   was", done[k][2][:600], "\n   now", done[k][3][:600])
        print("%s: %d corrupted steps, %d rejected; %d rejected before corruption" % (a.prop, len(done), len(done) - len(missed), len(base)))
    finally:
        shutil.rmtree(work, ignore_errors=True)


ARI = {"add", "sub", "mul", "div", "neg", "sum", "prod"}
OPS = ARI | {"pow", "log", "expand", "simplify"}
RULES = {"rule." + r for r in ("addends", "factors", "ratadd", "ratmul", "denominator", "invpowlog", "distribute", "powsum", "powprod")}
OWN = {"C01": ARI, "C02": {"pow", "log"}, "C03": {"expand"}, "C04": {"expand"}, "C05": {"simplify"}, "C06": {"simplify", "same"},
       "C07": {"simplify"}, "C08": {"acsum", "acprod"}, "C09": OPS | RULES, "C10": {"order", "items"}, "C11": {"preds"},
       "C12": OPS | {"iadd", "isub", "imul", "idiv", "igcd", "ipow", "imisc"}, "C13": OPS | RULES, "C14": {"det"}, "C15": RULES,
       "C16": {"qfrom", "qadd", "qsub", "qmul", "qdiv", "qeq", "qexpr", "qconv"}, "C17": {"query"}, "C18": {"show"},
       "C19": {"simplify", "copies", "selfdiff"}, "C20": ARI | {"pow", "log", "fadd", "fsub", "fmul", "fdiv", "fcmp"}}
if __name__ == "__main__":
    main()
