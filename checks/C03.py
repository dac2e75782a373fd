"""Numerical fluxes: every step of forward Euler runs without reconstruction equals
the step taken with the published flux formula, for hostile states."""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from vf import build, conform, ref, report

KINDS = {"e": ["noise", "shock", "strong", "super", "contact", "mixed", "uniform", "spike"],
         "s": ["noise", "shock", "mixed", "uniform", "spike"]}


def body(ck):
    b = build.ensure()
    rng = random.Random("C03-%d" % ck.seed)
    cs = []
    for rep in range(4 if ck.thorough else 1):
        for eq, fluxes in ref.FLUXES.items():
            for f in fluxes:
                kinds = KINDS["e" if eq.startswith("euler") else "s"]
                if not ck.thorough and eq == "euler3": kinds = rng.sample(kinds, 4)
                for kd in kinds:
                    cs.append(conform.make(ck, "%s-%s-%s-%d" % (eq, f, kd, rep), rng, eq=eq, flux=f, kind=kd,
                                           boundary=rng.choice(["periodic", "neumann"]), gamma=rng.choice([None, 1.67, 1.2]) if eq.startswith("euler") else None,
                                           cfl=.02 if kd in ("super", "strong") else .2, steps=8 if ck.thorough else 4))
    conform.sweep(ck, b, cs)


if __name__ == "__main__":
    report.main(report.Check("C03", rule="one recorded step of the production executable compared cell by cell with the step the published flux gives"), body)
