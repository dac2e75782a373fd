"""Random draws of complete configurations."""
from . import conform, ref

SCHEMES = {"burgers": ["godunov", "rusanov", "roe", "central", "tecno1", "tecno4", "tecno6", "godunov4", "godunov6"],
           "buckleyleverett": ["godunov", "rusanov", "central"], "cubic": ["rusanov", "roe", "central"], "linear": ["upwind", "rusanov", "roe", "central"],
           "euler1": ["hll", "hll3", "central", "tecno1", "tecno4", "tecno6"], "euler2": ["hll", "hll3", "central", "tecno1", "tecno4", "tecno6"],
           "euler3": ["hll", "hll3", "central", "tecno1", "tecno4"]}
INTEG = ["forwardeuler", "rungekutta2", "rungekutta3", "rungekutta4", "auto"]


def draw(ck, key, rng, eq=None, **fix):
    eq = eq or rng.choice(list(SCHEMES))
    f = fix.pop("flux", None) or rng.choice(SCHEMES[eq])
    k = dict(eq=eq, flux=f, integ=rng.choice(INTEG), boundary="periodic", cfl=rng.choice([.05, .1, .2]), steps=4)
    wide = ref.flux_width(f) > 2
    recs = ["none"] if wide else [r for r in ref.GHOST if r != "wenof2" or eq.startswith("euler")]
    k["recon"] = "none" if rng.random() < .25 else rng.choice(recs)
    if (f.startswith("tecno")) and rng.random() < .7:
        k["diff"] = (rng.choice(["tecnoroe", "tecnorusanov"]), rng.choice(["none", "eno2", "eno3", "eno4"]))
        k["recon"] = "none"
    euler = eq.startswith("euler")
    k["kind"] = rng.choice(["noise", "shock", "smooth", "mixed", "spike"])
    if euler and k["recon"] != "none" and k["kind"] in ("noise", "mixed"): k["cfl"] = .05
    if not euler: k["nd"] = rng.choice([1, 2, 3])
    if euler: k["gamma"] = rng.choice([None, 1.67, 1.2])
    k.update(fix)
    if f == "central": k["kind"] = "smooth"       # no dissipation: rough data blows up
    return conform.make(ck, key, rng, **k)
