from . import hier


def gen(rng, tier, index):
    return hier.gen(rng, tier, index, "C01")


run = hier.run
