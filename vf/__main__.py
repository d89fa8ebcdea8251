import sys
from . import core


def find(prop):
    from . import checks, checks2
    for m in (checks, checks2):
        f = getattr(m, prop.lower(), None)
        if f:
            return f
    raise SystemExit('unknown property ' + prop)


sys.exit(core.main(find(sys.argv[1]), sys.argv[1].upper()))
