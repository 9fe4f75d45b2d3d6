import random
from . import base, lalrc


def main():
    chk = base.Check("C10")
    rnd = random.Random("C10-%d" % base.SEED)
    cases = lalrc.case_set(rnd, base.scale(500, 6000), base.scale(60, 500), base.scale(1, 5))
    lalrc.run(chk, cases + lalrc.small(rnd, base.scale(250, None)), "tables")
    return chk.finish()
