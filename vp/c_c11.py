import random
from . import base, lalrc


def main():
    chk = base.Check("C11")
    rnd = random.Random("C11-%d" % base.SEED)
    cases = lalrc.case_set(rnd, base.scale(500, 6000), base.scale(60, 500), base.scale(1, 5))
    lalrc.run(chk, cases + lalrc.small(rnd, base.scale(600, None)), "conflict")
    return chk.finish()
