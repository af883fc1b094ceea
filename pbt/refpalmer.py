"""Reference Palmer method: the soil water balance, CAFEC coefficients, Z index and the NCEI
spell rules, written from the method's description. Independent of the library's code."""
import math

import numpy as np

TOP = 1.0  # capacity of the surface layer, inches


class Soil:
    """Two-layer soil bookkeeping; both layers start full."""

    def __init__(self, awc):
        self.awc = awc
        self.cap = max(awc - TOP, 0.0)
        self.top, self.low = TOP, self.cap
        self.tie = False  # a layer was just filled or emptied, give or take rounding

    def potentials(self, pet):
        """Before the month: (stored, potential recharge, potential loss)."""
        stored = self.top + self.low
        if self.top >= pet:
            loss = pet
        else:
            loss = min(stored, self.top + (pet - self.top) * self.low / (self.cap + TOP))
        return stored, self.cap + TOP - stored, loss

    def _near(self, a, b):
        if abs(a - b) < 1e-9 and max(a, b) > 0:
            self.tie = True

    def month(self, p, pet):
        """(evapotranspiration, recharge, loss, runoff) of the month; updates the layers."""
        if p >= pet:
            left = p - pet
            self._near(left, TOP - self.top)
            up = min(left, TOP - self.top)
            self._near(left - up, self.cap - self.low)
            down = min(left - up, self.cap - self.low)
            self.top = TOP if up < left else self.top + up
            self.low = self.cap if down < left - up else self.low + down
            return pet, up + down, 0.0, left - up - down
        need = pet - p
        self._near(need, self.top)
        from_top = min(self.top, need)
        from_low = min(self.low, (need - from_top) * self.low / self.awc)
        self.top -= from_top
        self.low -= from_low
        return p + from_top + from_low, 0.0, from_top + from_low, 0.0


def ratio(a, b, both_zero):
    return np.array([x / y if y != 0 else (both_zero if x == 0 else 0.0) for x, y in zip(a, b)])


class Calibration:
    """Coefficients and weights from the calibration years (indices y0..y1, inclusive)."""

    def __init__(self, p, pet, awc, y0, y1, coefficients=None):
        soil = Soil(awc)
        total = {k: np.zeros(12) for k in ("p", "pet", "et", "r", "l", "ro", "s", "pr", "pl")}
        rows = []
        for t in range((y1 + 1) * 12):
            s, pr, pl = soil.potentials(pet[t])
            et, r, l, ro = soil.month(p[t], pet[t])
            if t // 12 >= y0:
                m = t % 12
                for k, x in zip(("p", "pet", "et", "r", "l", "ro", "s", "pr", "pl"), (p[t], pet[t], et, r, l, ro, s, pr, pl)):
                    total[k][m] += x
                rows.append((m, p[t], pet[t], s, pr, pl))
        if coefficients is None:
            self.alpha = ratio(total["et"], total["pet"], 1.0)
            self.beta = ratio(total["r"], total["pr"], 1.0)
            self.gamma = ratio(total["ro"], total["s"], 1.0)
            self.delta = ratio(total["l"], total["pl"], 0.0)
        else:
            self.alpha, self.beta, self.gamma, self.delta = (np.asarray(c, float) for c in coefficients)
        demand = total["pet"] + total["r"] + total["ro"]
        supply = total["p"] + total["l"]
        departures = np.zeros(12)
        for m, pp, e, s, pr, pl in rows:
            departures[m] += abs(pp - self.cafec(m, e, s, pr, pl))
        mean = departures / (y1 - y0 + 1)
        # dryness of the calibration, used to recognise undetermined cases
        self.determined = bool((supply > 1e-6).all() and (mean > 1e-6).all())
        for k in ("pr", "s", "pl"):
            # whether a month has no potential recharge, storage or loss at all is left to rounding
            if (soil.tie and (total[k] < 1e-9).any()) or ((total[k] < 1e-9) & (total[k] != 0)).any():
                self.determined = False
        self.k = np.full(12, np.nan)
        if self.determined:
            khat = 1.5 * np.log10((demand / supply + 2.8) / mean) + 0.5
            norm = float((mean * khat).sum())
            self.determined = abs(norm) > 1e-3
            self.k = 17.67 * khat / norm
            # months whose weight is lost in cancellation
            self.scale = np.abs(self.k)

    def cafec(self, m, pet, s, pr, pl):
        return self.alpha[m] * pet + self.beta[m] * pr + self.gamma[m] * s - self.delta[m] * pl


def z_index(p, pet, awc, cal):
    """(Z, size): Z per month and the size of the terms its value is the difference of."""
    soil = Soil(awc)
    z, size = np.empty(len(p)), np.empty(len(p))
    for t in range(len(p)):
        m = t % 12
        s, pr, pl = soil.potentials(pet[t])
        expected = cal.cafec(m, pet[t], s, pr, pl)
        z[t] = cal.k[m] * (p[t] - expected)
        size[t] = abs(cal.k[m]) * (abs(p[t]) + abs(pet[t]) + s + pr + pl)
        soil.month(p[t], pet[t])
    return z, size


class Spells:
    """NCEI's spell rules, month by month."""

    MARGIN = 1e-9

    def __init__(self):
        self.x1 = self.x2 = self.x3 = self.v = self.prob = 0.0
        self.waiting = []  # months whose X is not determined yet
        self.last_wait = []  # the latest stretch of such months
        self.months = []  # (prob, x1, x2, x3, x) of every month
        self.pdsi, self.phdi, self.pmdi = [], [], []
        self.delicate = False
        self.labels = set()
        self.longest = 0

    def _near(self, a, b):
        if abs(a - b) < self.MARGIN * max(1.0, abs(b)):
            self.delicate = True

    def copy(self):
        other = Spells()
        other.x1, other.x2, other.x3, other.v, other.prob = self.x1, self.x2, self.x3, self.v, self.prob
        return other

    @staticmethod
    def weighted(prob, x1, x2, x3):
        """Palmer's modified index."""
        if x3 == 0:
            return x1 if abs(x1) > abs(x2) else x2
        if prob <= 0 or prob >= 100:
            return x3
        f = prob / 100.0
        return (1 - f) * x3 + f * (x1 if x3 < 0 else x2)

    def step(self, z):
        settled = self.prob in (0, 100)
        if settled:
            self._near(abs(self.x3), 0.5)
        if settled and abs(self.x3) <= 0.5:
            self.labels.add("no spell")
            return self._incipient(z, 0.0, 0.0, 0.0)
        if not settled:
            self._near(self.x3, 0.0)
        wet = self.x3 > 0
        sign = 1.0 if wet else -1.0
        if settled:
            self._near(sign * z, 0.15)
            if sign * z >= 0.15:
                self.labels.add("intensifies")
                return self._confirm(z)
        effect = sign * z - 0.15  # negative: weakens the spell
        v = sign * self.v
        total = effect + min(v, 0.0)
        self._near(total, 0.0)
        if total >= 0:
            self.labels.add("abatement fizzles")
            return self._confirm(z)
        end = -2.691 * abs(self.x3) + 1.5
        q = end if self.prob == 100 else end + v
        self._near(q, 0.0)
        if self.delicate and q == 0:
            q = 1e-300
        prob = total / q * 100
        self._near(prob, 100.0)
        if prob >= 100:
            self.labels.add("spell ends")
            return self._incipient(z, sign * total, 100.0, 0.0)
        self.labels.add("wet abates" if wet else "dry abates")
        return self._incipient(z, sign * total, prob, 0.897 * self.x3 + z / 3.0)

    def _confirm(self, z):
        x3 = 0.897 * self.x3 + z / 3.0
        if self.waiting:
            self.labels.add("reinstated")
        for t in self.waiting:
            self._final(t, self.months[t][3])
        self._close(0.0, 0.0, 0.0, 0.0, x3, x3)

    def _incipient(self, z, v, prob, x3):
        a = 0.897 * self.x1 + z / 3.0
        b = 0.897 * self.x2 + z / 3.0
        if self.x1 != 0:
            self._near(a, 0.0)
        if self.x2 != 0:
            self._near(b, 0.0)
        x1, x2 = max(0.0, a), 0.0
        if x3 == 0:
            self._near(x1, 1.0)
        if x1 >= 1 and x3 == 0:
            self.labels.add("wet spell starts")
            self._backtrack(wet=True)
            return self._close(v, prob, 0.0, 0.0, x1, x1)
        x2 = min(0.0, b)
        if x3 == 0:
            self._near(x2, -1.0)
        if x2 <= -1 and x3 == 0:
            self.labels.add("drought starts")
            self._backtrack(wet=False)
            return self._close(v, prob, x1, 0.0, x2, x2)
        if x3 == 0 and x1 == 0:
            self._backtrack(wet=False)
            return self._close(v, prob, x1, x2, x3, x2)
        if x3 == 0 and x2 == 0:
            self._backtrack(wet=True)
            return self._close(v, prob, x1, x2, x3, x1)
        self.labels.add("undetermined")
        t = len(self.months)
        self.waiting = self.waiting + [t]
        self.last_wait = self.waiting
        self.longest = max(self.longest, len(self.waiting))
        self._record(v, prob, x1, x2, x3, x3)
        self.pdsi.append(math.nan)
        self.phdi.append(math.nan)
        self.pmdi.append(math.nan)

    def _backtrack(self, wet):
        if self.waiting:
            self.labels.add("backtracked")
        for t in reversed(self.waiting):
            _, x1, x2, _, _ = self.months[t]
            chosen = x1 if wet else x2
            if chosen == 0:
                wet = not wet
                chosen = x1 if wet else x2
                self.labels.add("switches while backtracking")
            self._final(t, chosen)

    def _final(self, t, x):
        prob, x1, x2, x3, _ = self.months[t]
        if x3 == 0 and x1 != 0:
            self._near(x1, -x2)
        self.pdsi[t] = x
        self.phdi[t] = x3 if x3 != 0 else x
        self.pmdi[t] = self.weighted(prob, x1, x2, x3)

    def _record(self, v, prob, x1, x2, x3, x):
        self.months.append((prob, x1, x2, x3, x))
        self.v, self.prob, self.x1, self.x2, self.x3 = v, prob, x1, x2, x3

    def _close(self, v, prob, x1, x2, x3, x):
        self._record(v, prob, x1, x2, x3, x)
        self.waiting = []
        for series in (self.pdsi, self.phdi, self.pmdi):
            series.append(math.nan)
        self._final(len(self.months) - 1, x)

    def finish(self):
        """Provisional values at the end of the record. NCEI applies them to the latest stretch of
        undetermined months, in which the first place is taken by a later determined month."""
        rewritten = self.last_wait
        if rewritten and rewritten[-1] + 2 < len(self.months):
            rewritten = rewritten[1:]
        last = self.months[-1] if self.months else None
        if last and last[3] == 0 and last[1] != 0:
            self._near(last[1], -last[2])
        for t in rewritten:
            _, _, _, x3, x = self.months[t]
            self.pdsi[t] = x
            self.phdi[t] = x3 if x3 != 0 else x
            self.pmdi[t] = self.weighted(*last[:4])
        return np.array(self.pdsi), np.array(self.phdi), np.array(self.pmdi)


def run_spells(z):
    s = Spells()
    for x in z:
        s.step(float(x))
    return s
