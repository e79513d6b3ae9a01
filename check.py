#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decides property ID statically on /repo's current tree."""
import importlib, os, sys, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import rep, extract

    mod = importlib.import_module("rules." + pid.lower())
    r = rep.Report(pid, tier, seed, mod.RULE)
    try:
        mod.run(r)
    except extract.BuildError as e:
        r.bad("build", str(e))
    except Exception:
        # no verdict is not a violation: recorded as undecided, visible here and in the evidence
        print("ANALYSIS INCOMPLETE: " + traceback.format_exc()[-1500:])
        r.undecided("analysis", "the analysis could not be completed on this tree:\n" + traceback.format_exc()[-1500:])
    return rep.finish(r)


if __name__ == "__main__":
    sys.exit(main())
