"""Reconstructions: every recorded step equals the step taken with the published
reconstruction; isolated by using one well-checked flux per equation family."""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from vf import build, conform, ref, report

FLUX = {"burgers": ["rusanov", "godunov"], "buckleyleverett": ["rusanov"], "cubic": ["rusanov"], "linear": ["rusanov", "upwind"],
        "euler1": ["hll3", "hll"], "euler2": ["hll3", "hll"], "euler3": ["hll3", "hll"]}


def body(ck):
    b = build.ensure()
    rng = random.Random("C04-%d" % ck.seed)
    cs = []
    for rep in range(5 if ck.thorough else 1):
        for eq in FLUX:
            for r in ref.GHOST:
                if r == "wenof2" and not eq.startswith("euler"): continue
                kinds = ["noise", "shock", "smooth", "mixed", "spike"]
                if eq == "euler3" and not ck.thorough: kinds = rng.sample(kinds, 3)
                if eq.startswith("euler"): kinds = kinds + (["strong"] if eq != "euler3" or ck.thorough else [])
                for kd in kinds:
                    cs.append(conform.make(ck, "%s-%s-%s-%d" % (eq, r, kd, rep), rng, eq=eq, flux=rng.choice(FLUX[eq]), recon=r, kind=kd,
                                           boundary=rng.choice(["periodic", "neumann"]), integ=rng.choice(["forwardeuler", "forwardeuler", "rungekutta2"]),
                                           cfl=.02 if kd == "strong" else .1, steps=6 if ck.thorough else 3))
    conform.sweep(ck, b, cs)


if __name__ == "__main__":
    report.main(report.Check("C04", rule="one recorded step compared cell by cell with the step the named reconstruction gives"), body)
