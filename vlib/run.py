"""python -m vlib.run checks.cNN  -- standard driver of a check made of one stage on the plain build"""
import importlib
import sys

from vlib import build
from vlib.core import Runner


def main(modname):
    # the checks import implicit only in the workers; here only their metadata is wanted
    mod = importlib.import_module(modname)
    r = Runner(mod.PROP, level=getattr(mod, "LEVEL", "exploration"), rule=mod.RULE,
               assumptions=getattr(mod, "ASSUMPTIONS", ()), need=getattr(mod, "NEED", ()))
    try:
        if hasattr(mod, "drive"):
            mod.drive(r)
        else:
            r.stage(modname, build.build("plain"))
    except build.BuildError as e:
        print("INCONCLUSIVE: the tree does not build\n%s" % e)
        sys.exit(2)
    r.finish()


if __name__ == "__main__":
    main(sys.argv[1])
