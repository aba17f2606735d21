import argparse, importlib, os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import harness


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.selftest:
        from mc import impl, selftest  # noqa: F401  (imports smolgp and jax)

        selftest.main()

        print("ready:", importlib.import_module("smolgp").__file__)
        return 0
    mod = importlib.import_module(f"mc.checks.{a.prop.lower()}")
    if a.replay:
        return harness.replay(a.prop, mod, a.replay)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    return harness.main(a.prop, mod, a.tier, seed, a.jobs, a.v, a.only)


if __name__ == "__main__":
    sys.exit(main())
