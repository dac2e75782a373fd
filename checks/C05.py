"""Time integrators: every recorded step equals the named scheme applied to the
semi-discrete operator, stage by stage."""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from vf import build, conform, ref, report

SPACE = [("burgers", "rusanov", 1), ("burgers", "godunov", 2), ("cubic", "rusanov", 3), ("linear", "upwind", 2), ("buckleyleverett", "rusanov", 1),
         ("burgers", "godunov4", 1), ("euler1", "hll3", 1), ("euler2", "hll", 2), ("euler3", "hll3", 3), ("euler2", "tecno4", 2), ("euler1", "tecno6", 1)]


def body(ck):
    b = build.ensure()
    rng = random.Random("C05-%d" % ck.seed)
    cs = []
    for rep in range(6 if ck.thorough else 1):
        for eq, f, nd in SPACE:
            for it in ("auto", "forwardeuler", "rungekutta2", "rungekutta3", "rungekutta4"):
                for bc in ("periodic", "neumann"):
                    for kd in (("noise", "smooth") if nd < 3 or ck.thorough else ("noise",)):
                        r = rng.choice(["none", "mc", "mm", "eno2", "weno2", "weno3", "eno3"]) if ref.flux_width(f) == 2 else "none"
                        dif = None
                        if f.startswith("tecno"): dif = ("tecnorusanov", "none")
                        cs.append(conform.make(ck, "%s-%s-%s-%s-%s-%d" % (eq, f, it, bc, kd, rep), rng, eq=eq, flux=f, nd=nd, recon=r, diff=dif, kind=kd,
                                               boundary=bc, integ=it, cfl=rng.choice([.1, .2, .05]), steps=5 if ck.thorough else 3)
                                  if not eq.startswith("euler") else
                                  conform.make(ck, "%s-%s-%s-%s-%s-%d" % (eq, f, it, bc, kd, rep), rng, eq=eq, flux=f, recon=r, diff=dif, kind=kd,
                                               boundary=bc, integ=it, cfl=rng.choice([.1, .2, .05]), steps=5 if ck.thorough else 3))
    conform.sweep(ck, b, cs)


if __name__ == "__main__":
    report.main(report.Check("C05", rule="one recorded step compared cell by cell with all stages of the named integrator"), body)
