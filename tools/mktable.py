"""Prints the tables of DESIGN.md: coverage and cost from the evidence files, planted changes from seeded/."""
import glob, json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def short(n):
    return "%.1fM" % (n / 1e6) if n >= 1e6 else "%dk" % (n // 1000) if n >= 10000 else str(n)


def coverage():
    out = ["| check | states | transitions | executions compared | steps of the implementation | all of the bounded space | seconds (8 cores, with build) |", "|---|---|---|---|---|---|---|"]
    for f in sorted(glob.glob(V + "/evidence/C*.json")):
        d = json.load(open(f))
        c = d["coverage"]
        out.append("| %s | %s | %s | %s | %s | %s | %.0f |" % (d["property"], short(c["states"]), short(c["transitions"]), short(c["traces_validated_against_impl"]),
                                                                 short(c["implementation_steps"]), "yes" if c["exhaustive"] else "no", d["wall_s"]))
    return "\n".join(out)


def seeded():
    out = ["| planted change | caught by | needs |", "|---|---|---|"]
    rows = []
    for f in glob.glob(V + "/seeded/*/meta.json"):
        d = json.load(open(f))
        rows.append((d["property"], os.path.basename(os.path.dirname(f)), d["needs"]))
    for p, i, n in sorted(rows):
        out.append("| %s | %s | %s |" % (i, p, n))
    return "\n".join(out)


if __name__ == "__main__":
    p = V + "/DESIGN.md"
    s = open(p).read()
    for k, t in (("coverage", coverage()), ("seeded", seeded())):
        a, b = "<!-- %s -->\n" % k, "<!-- end of %s -->" % k
        i, j = s.index(a) + len(a), s.index(b)
        s = s[:i] + t + "\n" + s[j:]
    open(p, "w").write(s)
