"""Loads the MIR dump made by the driver."""
import json


class Crate:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]
        self.adts = d["adts"]
        self.fns = {f["def"]: f for f in d["fns"]}
        for f in d["fns"]:
            f["cfg"] = None

    def ty(self, i):
        return self.types[i]


def fmt_place(p):
    s = "_%d" % p["l"]
    for e in p["p"]:
        if e[0] == "deref":
            s = "(*%s)" % s
        elif e[0] == "field":
            s += ".%d" % e[1]
        elif e[0] == "index":
            s += "[_%d]" % e[1]
        elif e[0] == "downcast":
            s += " as v%d" % e[1]
        else:
            s += str(e)
    return s


def fmt_op(o):
    if o["o"] in ("copy", "move"):
        return ("" if o["o"] == "copy" else "move ") + fmt_place(o["p"])
    if o["o"] == "const":
        c = o["c"]
        if c["c"] == "fn":
            return "fn " + c["f"]["s"] + (" => " + c["f"]["resolved"]["def"] if c["f"]["resolved"] else "")
        return "const " + str(c.get("s") or c.get("text"))
    return str(o)


def fmt_rv(r):
    k = r["r"]
    if k == "use":
        return fmt_op(r["o"])
    if k in ("ref", "reborrow"):
        return "&" + ("mut " if r.get("mut") else "") + fmt_place(r["p"])
    if k == "bin":
        return "%s(%s, %s)" % (r["op"], fmt_op(r["a"]), fmt_op(r["b"]))
    if k == "un":
        return "%s(%s)" % (r["op"], fmt_op(r["a"]))
    if k == "cast":
        return "%s as [%s] %d" % (fmt_op(r["o"]), r["kind"], r["ty"])
    if k == "discr":
        return "discr(%s)" % fmt_place(r["p"])
    if k == "agg":
        kk = r["k"]
        return "%s(%s)" % (kk.get("def", kk["a"]) + ("::v%d" % kk["v"] if "v" in kk else ""), ", ".join(map(fmt_op, r["ops"])))
    return str(r)


def show(c, f):
    out = ["%s (%s:%d)" % (f["def"], f["file"], f["line"])]
    b = f["body"]
    for i, l in enumerate(b["locals"]):
        out.append("  _%d%s: %s%s" % (i, " arg" if 1 <= i <= b["argc"] else "", c.types[l["ty"]]["s"], " // " + l["name"] if l["name"] else ""))
    for i, bb in enumerate(b["blocks"]):
        if bb["cleanup"]:
            continue
        out.append(" bb%d:" % i)
        for s in bb["st"]:
            if s["s"] == "assign":
                out.append("    %s = %s" % (fmt_place(s["p"]), fmt_rv(s["r"])))
            elif s["s"] not in ("live", "dead"):
                out.append("    " + str(s))
        t = bb["t"]
        if t["t"] == "call":
            out.append("    %s = %s(%s) -> bb%s" % (fmt_place(t["dest"]), fmt_op(t["f"]), ", ".join(map(fmt_op, t["args"])), t["to"]))
        elif t["t"] == "switch":
            out.append("    switch %s %s else bb%d" % (fmt_op(t["d"]), ["%s:bb%d" % (a, x) for a, x in t["ts"]], t["else"]))
        elif t["t"] == "drop":
            out.append("    drop %s -> bb%d" % (fmt_place(t["p"]), t["to"]))
        elif t["t"] == "assert":
            out.append("    assert %s == %s (%s) -> bb%d" % (fmt_op(t["c"]), t["exp"], t["msg"], t["to"]))
        else:
            out.append("    " + str(t))
    return "\n".join(out)


if __name__ == "__main__":
    import sys
    c = Crate("/verif/build/k.json")
    for f in c.fns.values():
        if any(f["def"].endswith(a) or f["path"].endswith(a) for a in sys.argv[1:]):
            print(show(c, f))
