"""Reference implementations written from the published methods (numpy/scipy of the
generator side). They share no code with the library."""
import calendar
import math

import numpy as np
from scipy import special

LIMIT = 3.09


def sliding_sums(v, scale):
    """Sum of the last `scale` values; missing where the window is incomplete."""
    v = np.asarray(v, dtype=float)
    out = np.full(v.size, np.nan)
    if scale <= v.size:
        out[scale - 1:] = np.lib.stride_tricks.sliding_window_view(v, scale).sum(axis=1)
    return out


def by_year(v, per):
    v = np.asarray(v, dtype=float)
    years = -(-v.size // per)
    out = np.full(years * per, np.nan)
    out[: v.size] = v
    return out.reshape(years, per)


def clip_negatives(v):
    return np.where(v < 0, 0.0, v)


def _cal(table, first, cal):
    return table[cal[0] - first: cal[1] - first + 1]


def gamma_fit(table, first, cal):
    """(alpha, beta, a) per calendar step: Thom's estimates from the non-zero values of the
    calibration years; `a` is Thom's statistic, used to recognise degenerate columns."""
    c = _cal(table, first, cal)
    use = ~np.isnan(c) & (c != 0)
    n = use.sum(axis=0)
    with np.errstate(all="ignore"):
        mean = np.where(use, c, 0.0).sum(axis=0) / n
        mean_log = np.where(use, np.log(np.where(use, c, 1.0)), 0.0).sum(axis=0) / n
        a = np.log(mean) - mean_log
        alpha = (1.0 + np.sqrt(1.0 + 4.0 * a / 3.0)) / (4.0 * a)
        beta = mean / alpha
    return alpha, beta, a


def degenerate_gamma(a):
    """Columns whose fit is not numerically determined (no spread)."""
    with np.errstate(all="ignore"):
        return ~np.isnan(a) & ~(a > 1e-7)


def gamma_transform(table, alpha, beta):
    zero = table == 0
    p0 = zero.sum(axis=0) / table.shape[0]
    with np.errstate(all="ignore"):
        g = special.gammainc(alpha, table / beta)
        p = p0 + (1.0 - p0) * g
        z = special.ndtri(p)
    z[zero] = np.nan
    return np.clip(z, -LIMIT, LIMIT)


def lmoments(sample):
    """First two sample L-moments and the L-skewness (unbiased, via PWMs)."""
    x = np.sort(np.asarray(sample, dtype=float))
    n = x.size
    j = np.arange(1, n + 1)
    b0 = math.fsum(x) / n
    b1 = math.fsum((j - 1) / (n - 1) * x) / n
    b2 = math.fsum((j - 1) * (j - 2) / ((n - 1) * (n - 2)) * x) / n
    l1, l2, l3 = b0, 2 * b1 - b0, 6 * b2 - 6 * b1 + b0
    return l1, l2, (l3 / l2 if l2 != 0 else np.nan)


def pearson_from_lmoments(l1, l2, t3):
    """Hosking's PELPE3: (loc, scale, skew)."""
    t = abs(t3)
    if t <= 1e-6:
        return l1, l2 * math.sqrt(math.pi), 0.0
    if t < 1.0 / 3.0:
        q = 3.0 * math.pi * t * t
        alpha = (1.0 + 0.2906 * q) / (q + 0.1882 * q**2 + 0.0442 * q**3)
    else:
        q = 1.0 - t
        alpha = (0.36067 * q - 0.59567 * q**2 + 0.25361 * q**3) / (
            1.0 - 2.78861 * q + 2.56096 * q**2 - 0.77045 * q**3
        )
    scale = l2 * math.sqrt(math.pi * alpha) * math.exp(math.lgamma(alpha) - math.lgamma(alpha + 0.5))
    skew = math.copysign(2.0 / math.sqrt(alpha), t3)
    return l1, scale, skew


def pearson_fit(table, first, cal):
    """p0, loc, scale, skew per calendar step and a code: 0 fitted, 1 too few non-zero
    values (all parameters zero), 2 no spread (rejected), 3 numerically delicate."""
    c = _cal(table, first, cal)
    per = c.shape[1]
    p0, loc, scale, skew = (np.zeros(per) for _ in range(4))
    code = np.zeros(per, dtype=int)
    for k in range(per):
        x = c[:, k]
        x = x[~np.isnan(x)]
        zeros = int((x == 0).sum())
        if x.size - zeros < 4:
            code[k] = 1
            continue
        l1, l2, t3 = lmoments(x)
        size = max(abs(x).max(), 1e-300)
        if not l2 > 1e-9 * size or abs(t3) >= 1 - 1e-9:
            code[k] = 2
            continue
        if abs(abs(t3) - 1.0 / 3.0) < 1e-8 or abs(abs(t3) - 1e-6) < 1e-9 or l2 < 1e-6 * size:
            code[k] = 3
        p0[k] = zeros / x.size
        loc[k], scale[k], skew[k] = pearson_from_lmoments(l1, l2, t3)
        if 0 < abs(skew[k]) < 1e-3:
            code[k] = 3  # the published formula loses digits (difference of large lgammas)
    return p0, loc, scale, skew, code


def pearson_cdf(x, loc, scale, skew):
    """CDF of the Pearson III distribution by its gamma representation."""
    x, loc, scale, skew = np.broadcast_arrays(x, loc, scale, skew)
    with np.errstate(all="ignore"):
        z = (x - loc) / scale
        normal = np.abs(skew) < 1.6e-5
        s = np.where(normal, 1.0, skew)
        alpha = 4.0 / s**2
        y = np.maximum(alpha + 2.0 * z / s, 0.0)
        p = np.where(s > 0, special.gammainc(alpha, y), special.gammaincc(alpha, y))
        p = np.where(normal, special.ndtr(z), p)
        return np.where(np.isnan(z), np.nan, p)


def pearson_transform(table, p0, loc, scale, skew):
    """(index, delicate): the index and the entries at a rule's switch-over point."""
    with np.errstate(all="ignore"):
        bound = loc - 2.0 * scale / skew
        p = pearson_cdf(table, loc, scale, skew)
        nan = np.isnan(table) | ~(scale > 0)
        low = table < 0.0005
        p = np.where(low, np.where(p0 > 0, 0.0, 0.0005), p)
        p = np.where((skew > 0) & (table <= bound), 0.0005, p)
        p = np.where((skew < 0) & (table >= bound), 0.9995, p)
        near = np.abs(table - bound) < 1e-7 * np.maximum(np.abs(table) + np.abs(loc), scale)
        near &= np.abs(skew) > 0
        near |= (np.abs(table - 0.0005) < 1e-9)
        z = special.ndtri(np.clip(p0 + (1.0 - p0) * p, 0.0, 1.0))
    z = np.where(nan, np.nan, z)
    return np.clip(z, -LIMIT, LIMIT), near & ~nan


def standardise(series, scale, dist, first, cal, per):
    """Expected SPI/SPEI of a series of per-step values: (index, ignore, info). `cal` must lie
    inside the record. `ignore` marks entries whose value is not numerically determined;
    info["reject"] says that a calendar step has no spread, so that the fit is refused."""
    table = by_year(sliding_sums(series, scale), per)
    n = np.size(series)
    info = {"reject": False, "table": table}
    if dist == "gamma":
        alpha, beta, a = gamma_fit(table, first, cal)
        bad = degenerate_gamma(a)
        z = gamma_transform(table, alpha, beta)
        ignore = np.broadcast_to(bad, table.shape)
    else:
        p0, loc, scale_, skew, code = pearson_fit(table, first, cal)
        info["reject"] = bool((code == 2).any())
        z, near = pearson_transform(table, p0, loc, scale_, skew)
        ignore = near | (code >= 2)
        info["code"] = code
    info["fitted"] = ~ignore
    return z.ravel()[:n], ignore.ravel()[:n], info


# --------------------------------------------------------------------------- PET

MONTH_DAYS = {False: [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31],
              True: [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]}


def _declination(day):
    return 0.409 * math.sin(2.0 * math.pi * day / 365.0 - 1.39)


def _sunset_angle(lat, day):
    c = -math.tan(lat) * math.tan(_declination(day))
    return math.acos(max(-1.0, min(1.0, c)))


_daylight_cache = {}


def month_daylight(latitude, leap):
    key = (latitude, leap)
    if key not in _daylight_cache:
        lat, day, out = math.radians(latitude), 1, []
        for days in MONTH_DAYS[leap]:
            hours = [24.0 / math.pi * _sunset_angle(lat, d) for d in range(day, day + days)]
            out.append(math.fsum(hours) / days)
            day += days
        if len(_daylight_cache) > 5000:
            _daylight_cache.clear()
        _daylight_cache[key] = out
    return _daylight_cache[key]


def thornthwaite(temps, latitude, first_year):
    t = by_year(temps, 12)
    t = np.where(t < 0, 0.0, t)
    means = [math.fsum(c[~np.isnan(c)]) / (~np.isnan(c)).sum() for c in t.T]
    heat = math.fsum((m / 5.0) ** 1.514 for m in means)
    a = 6.75e-7 * heat**3 - 7.71e-5 * heat**2 + 1.792e-2 * heat + 0.49239
    out = np.full(t.shape, np.nan)
    for y in range(t.shape[0]):
        leap = calendar.isleap(first_year + y)
        daylight = month_daylight(latitude, leap)
        for m in range(12):
            if np.isnan(t[y, m]):
                continue
            if t[y, m] == 0:
                out[y, m] = 0.0
            else:
                out[y, m] = (16.0 * (daylight[m] / 12.0) * (MONTH_DAYS[leap][m] / 30.0)
                             * (10.0 * t[y, m] / heat) ** a)
    return out.ravel()[: np.size(temps)]


def hargreaves(tmin, tmax, tmean, latitude):
    tmin, tmax, tmean = (np.ravel(x) for x in (tmin, tmax, tmean))
    lat = math.radians(latitude)
    ra = np.empty(366)
    for day in range(1, 367):
        dec = _declination(day)
        ws = _sunset_angle(lat, day)
        dr = 1.0 + 0.033 * math.cos(2.0 * math.pi * day / 365.0)
        ra[day - 1] = 24.0 * 60.0 / math.pi * 0.0820 * dr * (
            ws * math.sin(lat) * math.sin(dec) + math.cos(lat) * math.cos(dec) * math.sin(ws)
        )
    r = ra[np.arange(tmean.size) % 366]
    with np.errstate(all="ignore"):
        return 0.0023 * 0.408 * r * (tmean + 17.8) * np.sqrt(tmax - tmin)


# --------------------------------------------------------------------------- calendars


def to_366(v, first_year, years):
    """Whole Gregorian years to 366-day years, date by date."""
    import datetime

    out = []
    values = {}
    i = 0
    for y in range(first_year, first_year + years):
        for doy in range(366 if calendar.isleap(y) else 365):
            if i < len(v):
                d = datetime.date(y, 1, 1) + datetime.timedelta(days=doy)
                values[(y, d.month, d.day)] = v[i]
            i += 1
    for y in range(first_year, first_year + years):
        for m in range(1, 13):
            for d in range(1, MONTH_DAYS[True][m - 1] + 1):
                if (m, d) == (2, 29) and not calendar.isleap(y):
                    a, b = values.get((y, 2, 28), np.nan), values.get((y, 3, 1), np.nan)
                    out.append((a + b) / 2.0)
                else:
                    out.append(values.get((y, m, d), np.nan))
    return np.array(out)


def to_gregorian(v, first_year):
    out = []
    for k in range(len(v) // 366):
        year = list(v[366 * k: 366 * (k + 1)])
        if not calendar.isleap(first_year + k):
            del year[59]
        out.extend(year)
    return np.array(out)
