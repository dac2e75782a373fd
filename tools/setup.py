"""setup_cmd: checks that the framework can build /repo (each check builds again,
incrementally where the build directory survives)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from vf import build
build.ensure(("alsvinncli", "alsuqcli", "alsrec", "alsmon", "alspmpi", "alsdist", "alsio", "alsgomp"))
build.ensure(("alsvinncli", "alsuqcli", "alsrec", "alsmon", "alspmpi", "alsio"), "asan")
build.ensure(("alsvinncli", "alsuqcli", "alsrec", "alsmon", "alspmpi", "alsio", "alsgomp"), "tsan")
