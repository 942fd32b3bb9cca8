"""C01: round-to-integer family."""

from common import *

MODE = {"ceil": "ceil", "floor": "floor", "trunc": "trunc", "round": "away", "roundeven": "even", "rint": "even"}


def obligations(tier):
    obs = []
    for cfg in ("arch", "soft", "intrinsics"):
        for n, mode in MODE.items():
            for w, s in SUF.items():
                obs.append(Ob(f"{n}{s}[{cfg}] == {mode}", n + s, lambda x, r, mode=mode: same(r[0], B.frint(x[0], mode)), config=cfg))
    return obs


if __name__ == "__main__":
    sys.exit(lib.main("C01", obligations, "other", "all bit patterns of f16/f32/f64/f128"))
