import importlib, os, runpy, signal, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
import explore


def load(pid):
    return importlib.import_module(pid.lower())


def main():
    if sys.argv[1] == "--replay":
        r = runpy.run_path(sys.argv[2])
        m = load(r["PROPERTY"])
        fam = [f for f in m.families(r["TIER"]) if f.name == r["FAMILY"]][0]
        signal.signal(signal.SIGPROF, explore._on_alarm)
        errs = [explore.run_case(fam, r["CASE"], explore.Recorder()) for _ in range(2)]
        if errs[0] != errs[1]:
            print("non-deterministic replay: %r / %r" % tuple(errs))
        print("replayed: %s" % errs[0])
        sys.exit(1 if errs[0] else 0)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    m = load(pid)
    sys.exit(explore.run_check(pid, m.families(tier), tier, seed, m.ASSUMPTIONS, getattr(m, "KNOWN", None)))


try:
    main()
except Exception:
    import traceback
    traceback.print_exc()
    sys.exit(3)                       # an error of the harness is not a verdict
