"""Import z3 from the verification tools' site-packages without letting any
other package of that directory shadow the interpreter's own."""
import sys

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def load():
    if "z3" not in sys.modules:
        sys.path.append(_VT)
        try:
            import z3  # noqa
        finally:
            sys.path.remove(_VT)
    return sys.modules["z3"]


z3 = load()
