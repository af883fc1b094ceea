"""Generated Palmer inputs: a calibration climate followed by months whose precipitation is
chosen so that Z takes a wanted course."""
import numpy as np
from hypothesis import strategies as st

import refpalmer

CLIMATES = ["humid", "humid", "dry", "seasonal", "mixed", "extreme", "equal"]
MODES = ["random", "random", "hover", "abate", "teeter", "runs", "edge", "deep"]


@st.composite
def palmer_case(draw, crafted=True, max_cal=12, max_tail=14):
    before = draw(st.sampled_from([0, 0, 1, 3]))
    cal = draw(st.integers(2, max_cal))
    after = draw(st.integers(1 if crafted else 0, max_tail))
    return {
        "before": before, "cal": cal, "after": after,
        "partial": draw(st.sampled_from([0, 0, 0, 1, 5, 11])),
        "first": draw(st.sampled_from([1895, 1950, 2000])),
        "awc": draw(st.sampled_from([0.3, 0.999, 1.0, 1.001, 2.0, 4.5, 6.0, 9.5, 14.0]) | st.floats(0.1, 15.0).map(lambda x: round(x, 3))),
        "climate": draw(st.sampled_from(CLIMATES)),
        "seed": draw(st.integers(0, 2**32 - 1)),
        "modes": draw(st.lists(st.sampled_from(MODES), min_size=1, max_size=5)) if crafted else [],
        "edits": draw(st.lists(st.tuples(st.integers(0, 11), st.sampled_from([0.0, 0.0, 25.0])).map(list), max_size=2)),
    }


def climate(kind, n, rng):
    m = np.arange(n) % 12
    warm = np.clip(3.0 + 3.0 * np.sin(2 * np.pi * (m / 12.0 - rng.random())) + rng.normal(0, 0.3, n), 0.0, None)
    if kind == "humid":
        p, e = rng.gamma(4.0, 1.6, n), 0.9 * warm
    elif kind == "dry":
        p, e = rng.gamma(0.8, 0.7, n) * (rng.random(n) > 0.3), 1.3 * warm
    elif kind == "seasonal":
        p, e = rng.gamma(2.0, 1.5, n) * (1.0 + 0.9 * np.cos(2 * np.pi * m / 12.0)), warm
    elif kind == "mixed":
        p, e = rng.gamma(1.3, 2.4, n), warm * rng.uniform(0.7, 1.3, n)
    elif kind == "extreme":
        p, e = rng.gamma(0.5, 8.0, n), np.where(rng.random(n) < 0.2, 0.0, 1.5 * warm)
    else:
        p = np.round(rng.gamma(3.0, 1.2, n) * 2) / 2
        e = np.round(warm * 2) / 2
    return np.round(p, 3), np.round(e, 3)


def wanted(mode, s, rng):
    """Next Z given the spell state."""
    if mode == "random":
        return rng.normal(0, rng.choice([0.3, 1.5, 4.0]))
    if mode == "hover":  # keep X1 and X2 both alive without starting a spell
        return rng.choice([-1, 1]) * rng.uniform(0.05, 1.1)
    if mode == "runs":
        return rng.choice([-2.0, 2.0]) + rng.normal(0, 1.0)
    if mode == "teeter":  # aim at a threshold of the incipient indices
        target = rng.choice([-1.0, 1.0, 0.0]) + rng.choice([-0.02, 0.02, 0.2, -0.2])
        return 3.0 * (target - 0.897 * (s.x1 if target > 0 else s.x2))
    if mode == "edge":
        return rng.choice([-0.15, 0.15]) + rng.choice([-0.03, 0.03])
    if mode == "deep":  # a severe spell, one strong counter month, then a long undecided abatement
        sign = 1.0 if s.x3 > 0 else -1.0 if s.x3 < 0 else rng.choice([-1.0, 1.0])
        if s.prob not in (0, 100):
            return sign * (0.15 + rng.uniform(-0.02, rng.choice([0.04, 0.15, 0.4])))
        if abs(s.x3) < rng.choice([2.0, 4.0, 8.0]):
            return sign * rng.uniform(2.0, 6.0)
        return -sign * rng.uniform(0.2, 0.95) * (2.691 * abs(s.x3) - 1.5)
    # abate: weaken an established spell slowly, or nothing
    if s.x3 > 0:
        return 0.15 - rng.uniform(0.0, 0.5) if rng.random() < 0.85 else rng.uniform(0.2, 1.0)
    if s.x3 < 0:
        return -0.15 + rng.uniform(0.0, 0.5) if rng.random() < 0.85 else -rng.uniform(0.2, 1.0)
    return rng.choice([-1.0, 1.0]) * rng.uniform(1.0, 4.0)


def window(case):
    """Calibration years as indices."""
    return case["before"], case["before"] + case["cal"] - 1


def build(case):
    """(precipitation, PET, calibration) of the case, or None if the calibration is undetermined."""
    rng = np.random.Generator(np.random.PCG64(case["seed"]))
    y0, y1 = window(case)
    n = (y1 + 1 + case["after"]) * 12
    if case["partial"] and case["after"]:
        n -= 12 - case["partial"]
    p, e = climate(case["climate"], n, rng)
    for i, x in case["edits"]:
        p[min(n - 1, i + 12 * y0)] = x
    cal = refpalmer.Calibration(p, e, case["awc"], y0, y1)
    if not cal.determined:
        return None
    if case["modes"]:
        soil, s = refpalmer.Soil(case["awc"]), refpalmer.Spells()
        switch = max(1, (n - 12 * (y1 + 1)) // len(case["modes"]))
        for t in range(n):
            st_, pr, pl = soil.potentials(e[t])
            expected = cal.cafec(t % 12, e[t], st_, pr, pl)
            k = cal.k[t % 12]
            if t >= 12 * (y1 + 1):
                mode = case["modes"][min(len(case["modes"]) - 1, (t - 12 * (y1 + 1)) // switch)]
                p[t] = max(0.0, expected + wanted(mode, s, rng) / k)
            s.step(k * (p[t] - expected))
            soil.month(p[t], e[t])
    return p, e, cal
