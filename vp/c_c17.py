import random
from . import base, gram as R, tspar, valc, valgen


def exact(rnd):
    """Sentences whose parse needs a number of steps around the budget."""
    out = []
    for k, (text, start, pre, unit, post) in enumerate([
            ("S -> a S | b", "S", "", "a ", "b"),
            ("S -> S a | b", "S", "b ", "a ", ""),
            ("S -> ( S ) | x", "S", "", None, ""),
            ("L -> L , I | I\nI -> x | y", "L", "x ", ", y ", ""),
            ("P -> L\nL -> I L | I\nI -> J\nJ -> x", "P", "", "x ", "x")]):
        g = R.parse_simple(text, start)
        ins = []
        for n in range(1, 30):
            if unit is None:
                s = "( " * n + "x " + ") " * n
            else:
                s = pre + unit * n + post
            ins.append(s)
        out.append(("exact%d" % k, g, ins))
    return out


def main():
    chk = base.Check("C17")
    rnd = random.Random("C17-%d" % base.SEED)
    known = set(tspar.known_chars(chk))
    gs = valc.grammars(rnd, known, base.scale(110, 900), base.scale(70, 600))
    # several codings of one grammar
    gs += [(c + "-again", {"prods": [dict(p, bodies=[dict(b, syms=[dict(s) for s in b["syms"]]) for b in p["bodies"]]) for p in g["prods"]]})
           for c, g in gs[:base.scale(30, 40)]]
    ex = exact(rnd) + [("ladder", valc.ladder(), ["a " * n + "b" for n in range(2, 48, 1)])] + [("kf-eof-literal", R.parse_simple("S -> a EOF | a", "S"), ["a EOF"])]
    extra = {c: ins for c, _, ins in ex}
    gs += [(c, g) for c, g, _ in ex]
    for _, g in gs:
        valgen.decorate(g, rnd)
    valgen.decorate(ex[-1][1], random.Random(2))
    valc.run(chk, gs, "value", lambda cid, g: extra.get(cid) or valc.sentences(g, rnd, base.scale(10, 30)), rnd)
    chk.assumptions = ["TypeScript 5.9 evaluates the types", "mapping code of the kinds generated: literals, tuples with spreads, objects, property access, template literals",
                       "derivations are unique: only grammars without conflicts are judged"]
    return chk.finish()
