"""Case descriptions (JSON-able, drawn and shrunk by Hypothesis) and the arrays they stand
for. Bulk values come from a numpy generator seeded with a drawn integer, so a case
description determines its arrays completely."""
import numpy as np
from hypothesis import strategies as st

CLIMATES = [
    "gamma", "seasonal", "arid", "ties", "tiny", "big", "negskew", "normal",
    "outlier", "trend", "lumpy", "wide",
]


def rain(kind, n, per, seed, first_year_trend=True):
    """n non-negative values, `per` steps per year."""
    rng = np.random.Generator(np.random.PCG64(seed))
    step = np.arange(n) % per
    season = 1.0 + 0.8 * np.sin(2 * np.pi * (step / per + rng.random()))
    if kind == "gamma":
        return rng.gamma(1.7, 30.0, n)
    if kind == "seasonal":
        return rng.gamma(2.5, 20.0, n) * season
    if kind == "arid":
        v = rng.gamma(0.8, 12.0, n) * season
        v[rng.random(n) < 0.15 + 0.6 * (step % 5 == 0)] = 0.0
        return v
    if kind == "ties":
        return rng.integers(0, 6, n).astype(float)
    if kind == "tiny":
        return rng.gamma(1.5, 0.004, n)
    if kind == "big":
        return rng.gamma(3.0, 4.0e4, n)
    if kind == "negskew":
        return 120.0 * rng.beta(6.0, 1.3, n)
    if kind == "normal":
        return np.abs(rng.normal(100.0, 22.0, n))
    if kind == "outlier":
        v = rng.gamma(2.0, 25.0, n)
        v[rng.random(n) < 0.04] *= 40.0
        return v
    if kind == "trend":
        return rng.gamma(2.0, 15.0, n) * (1.0 + np.arange(n) / (4.0 * per))
    if kind == "lumpy":
        v = np.round(rng.gamma(0.6, 30.0, n), 0)
        v[rng.random(n) < 0.25] = 0.0
        return v
    if kind == "wide":
        return np.exp(rng.normal(2.0, 1.8, n))
    raise ValueError(kind)


NAN_PATTERNS = ["none", "none", "none", "some", "trailing", "leading", "column", "year", "gap", "mixed"]


def punch(v, kind, per, seed):
    """Missing values; returns a copy."""
    v = np.array(v, dtype=float)
    n = v.size
    rng = np.random.Generator(np.random.PCG64(seed + 7919))
    if kind == "none" or n == 0:
        return v
    if kind in ("some", "mixed"):
        v[rng.random(n) < 0.03 + 0.1 * rng.random()] = np.nan
    if kind == "trailing":
        v[n - int(rng.integers(1, max(2, min(n, per + 3)))):] = np.nan
    if kind == "leading":
        v[: int(rng.integers(1, max(2, min(n, per + 3))))] = np.nan
    if kind == "column":
        v[int(rng.integers(0, per)):: per] = np.nan
    if kind in ("year", "mixed"):
        y = int(rng.integers(0, max(1, n // per)))
        v[y * per: (y + 1) * per] = np.nan
    if kind == "gap":
        a = int(rng.integers(0, n))
        v[a: a + int(rng.integers(1, 5))] = np.nan
    return v


@st.composite
def record(draw, per=12, min_years=2, max_years=30, climates=CLIMATES, nans=NAN_PATTERNS, negatives=True,
           partial=True, max_edits=4, units=(1.0,)):
    years = draw(st.integers(min_years, max_years))
    if max_years >= 15 and draw(st.integers(0, 15)) == 7:
        years += draw(st.sampled_from([40, 71, 100, 130]))  # as long as instrumental records get
    extra = draw(st.sampled_from([0, 0, 1, per // 2, per - 1]) | st.integers(0, per - 1)) if partial else 0
    case = {
        "per": per,
        "n": years * per + extra,
        "climate": draw(st.sampled_from(climates)),
        "seed": draw(st.integers(0, 2**32 - 1)),
        "nan": draw(st.sampled_from(nans)),
        "neg": draw(st.sampled_from([0, 0, 1, 3])) if negatives else 0,
        "unit": draw(st.sampled_from(list(units))),
    }
    n_edits = draw(st.integers(0, max_edits))
    case["edits"] = [
        [draw(st.integers(0, case["n"] - 1)), draw(st.sampled_from([0.0, 0.0, 0.25, 1.0, 7.5, 60.0, 333.0]))]
        for _ in range(n_edits)
    ]
    return case


def build(case):
    """The record described by a case."""
    v = rain(case["climate"], case["n"], case["per"], case["seed"]) * case.get("unit", 1.0)
    v = punch(v, case["nan"], case["per"], case["seed"])
    for i, x in case["edits"]:
        v[i] = x
    if case["neg"]:
        rng = np.random.Generator(np.random.PCG64(case["seed"] + 31))
        for i in rng.integers(0, case["n"], case["neg"]):
            if not np.isnan(v[i]):
                v[i] = -float(rng.choice([0.001, 1.0, 5.5, 99.9]))
    return v


@st.composite
def window(draw, first, n, per, kinds=None, min_len=1):
    """A calibration period, often inside the record (years `first`..)."""
    years = -(-n // per)
    last = first + years - 1
    kinds = kinds or ["full", "inside", "inside", "head", "tail", "past_end", "before", "outside", "huge"]
    kind = draw(st.sampled_from(kinds))
    min_len = min(min_len, years)
    if kind == "full":
        return [first, last]
    if kind == "inside":
        a = draw(st.integers(first, last - min_len + 1))
        return [a, draw(st.integers(a + min_len - 1, last))]
    if kind == "head":
        return [first, draw(st.integers(first + min_len - 1, last))]
    if kind == "tail":
        return [draw(st.integers(first, last - min_len + 1)), last]
    if kind == "past_end":
        return [draw(st.integers(first, last)), last + draw(st.sampled_from([1, 1, 2, 7]))]
    if kind == "before":
        return [first - draw(st.sampled_from([1, 1, 2, 9])), draw(st.integers(first, last))]
    if kind == "outside":
        return draw(st.sampled_from([[last + 1, last + 10], [first - 10, first - 1]]))
    return [first - 400, last + 400]


UNITS = [1.0] * 8 + [1e-9, 1e-5, 1.0 / 25.4, 1e6]

scales_monthly = st.sampled_from([1, 1, 2, 3, 6, 9, 12, 24]) | st.integers(1, 30)
scales_daily = st.sampled_from([1, 1, 7, 30, 60, 90, 365, 366]) | st.integers(1, 400)
start_years = st.sampled_from([1895, 1900, 1948, 1981, 1999, 2000, 2001, 2016]) | st.integers(1800, 2100)


def effective_window(first, n, per, cal):
    """SPI/SPEI: the full record unless the period lies fully inside it."""
    years = -(-n // per)
    last = first + years - 1
    if cal[0] < first or cal[1] > last:
        return first, last
    return cal[0], cal[1]
