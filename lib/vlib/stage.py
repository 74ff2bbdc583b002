"""Runs stages of the program in a process of its own, with a perturbed environment.
usage: stage.py <json>: {"listing": int, "noise": int, "stages": [[kind, {args}], ...]}"""
import sys, json, os, random


def main():
    spec = json.loads(sys.argv[1])
    L = spec.get("listing", 0)
    if L:
        import glob
        import builtins
        rl, rg, rs = os.listdir, glob.glob, os.scandir
        rng = random.Random(L)

        def listdir(*a, **k):
            x = rl(*a, **k)
            rng.shuffle(x)
            return x

        def gl(*a, **k):
            x = rg(*a, **k)
            rng.shuffle(x)
            return x
        os.listdir, glob.glob = listdir, gl
    if spec.get("noise"):
        import numpy
        random.seed(spec["noise"])
        numpy.random.seed(spec["noise"])
        [object() for _ in range(spec["noise"] % 1000)]
    from vlib.run import enum, makestr
    for kind, args in spec["stages"]:
        (enum if kind == "enum" else makestr)(**args)


main()
