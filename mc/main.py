import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc.circom import FormatError
from mc.cxxrun import CxxError
from mc.wasmrun import WasmError


def main():
    pid = sys.argv[1]
    mod = None
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks")
    for f in sorted(os.listdir(d)):
        if f.startswith(pid.lower() + "_") and f.endswith(".py"):
            mod = importlib.import_module("checks." + f[:-3])
    if mod is None:
        print("no such check", pid)
        sys.exit(2)
    try:
        mod.main()
    except SystemExit:
        raise
    except BaseException as e:
        # An output that is missing, cannot be read, compiled or loaded, or that the oracle cannot interpret, is a violation (the
        # unchanged compiler never produces one); a check that cannot be built or run gives no answer, unless it already has one.
        from mc.report import Check
        ck = Check.last
        unusable = isinstance(e, (FormatError, CxxError, WasmError, LookupError, ValueError, TypeError, AttributeError, ArithmeticError, AssertionError))
        if ck is not None and (ck.viol or unusable):
            ck.cov.setdefault("states", 1)
            ck.cov.setdefault("transitions", 1)
            ck.cov.setdefault("traces_validated_against_impl", 1)
            if unusable:
                ck.violation("unusable output: %s" % type(e).__name__, {"error": traceback.format_exc()[-4000:]})
            traceback.print_exc()
            ck.finish()
        traceback.print_exc()
        sys.exit(2)


if __name__ == "__main__":
    main()
