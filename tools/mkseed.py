"""mkseed.mk(id, property, needs, breaks, [(file, old, new), ...]): writes seeded/<id>/patch.diff and meta.json."""
import difflib, json, os
S = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
def mk(id, prop, needs, breaks, edits):
    d = os.path.join(S, id); os.makedirs(d, exist_ok=True)
    cur = {}
    for f, o, n in edits:
        s = cur.get(f) or open("/repo/" + f, newline='').read()
        assert s.count(o) == 1, (f, o, s.count(o))
        cur[f] = s.replace(o, n)
    out = ""
    for f, s in cur.items():
        out += "".join(difflib.unified_diff(open("/repo/" + f, newline='').read().splitlines(True), s.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w", newline='').write(out)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
