import random
from . import base, gram as R, parsec, tspar, valc, valgen


def main():
    chk = base.Check("C22")
    rnd = random.Random("C22-%d" % base.SEED)
    known = set(tspar.known_chars(chk))
    gs = valc.grammars(rnd, known, base.scale(110, 900), base.scale(50, 500))
    gs.append(("kf-eof-literal", R.parse_simple("S -> a EOF b", "S")))
    gs.append(("ladder", valc.ladder()))        # flat sentences: every position up to the budget
    for _, g in gs:
        valgen.decorate(g, rnd)

    def ins(cid, g):
        if cid == "kf-eof-literal":
            return ["a EOF b"]
        if cid == "ladder":
            return [s for n in range(1, 48) for s in ("a " * n + "b", "a " * n + "b b", "a " * n)]
        out = parsec.inputs(g, rnd, base.scale(6, 16), base.scale(24, 90), 12)
        out = [s for s in out if set(base.codes(s)) <= known or rnd.random() < .3]
        return out if len(out) <= base.scale(36, 120) else out[:2] + rnd.sample(out[2:], base.scale(34, 118))
    # the Rust parser also reads characters that the type-level table does not hold
    valc.run(chk, gs, "reject", ins, rnd)
    chk.assumptions = ["TypeScript 5.9 evaluates the types", "only grammars without conflicts are judged"]
    return chk.finish()
