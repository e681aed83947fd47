"""Do two cells describe the same crystal (up to isometry)?  Distance-based."""
from .exact import fingerprint, det3


def gap_cutoff(envs, lo, hi, width=0.02):
    """A cutoff in [lo, hi] that no distance is near."""
    ds = sorted(set(round(d, 4) for _, row in envs for _, d in row if lo <= d <= hi))
    pts = [lo] + ds + [hi]
    best = max(zip(pts, pts[1:]), key=lambda p: p[1] - p[0])
    if best[1] - best[0] < width:
        return None
    return (best[0] + best[1]) / 2


def classes(envs, tol):
    out = []
    for z, row in envs:
        for c in out:
            if same_env(c[0], (z, row), tol):
                c[1] += 1
                break
        else:
            out.append([(z, row), 1])
    return out


def same_env(a, b, tol):
    if a[0] != b[0] or len(a[1]) != len(b[1]):
        return False
    for (s, x), (t, y) in zip(a[1], b[1]):
        if s != t or abs(x - y) > tol:
            return False
    return True


class Same(object):
    """Reference crystal; .mismatch(basis, frac, nums) is None or a reason."""

    def __init__(self, basis, frac, nums, tol=3e-3, target=40):
        self.tol = tol
        self.n = len(nums)
        self.vol = abs(det3(basis)) / self.n
        # radius that holds about `target` neighbours
        r = (target * self.vol * 3 / 4 / 3.14159) ** (1 / 3.)
        envs = fingerprint(basis, frac, nums, r + 0.6)
        rc = gap_cutoff(envs, max(r - 0.6, 0.3), r + 0.6, 4 * tol) or r
        self.rcut = rc
        self.envs = [(z, [p for p in row if p[1] < rc]) for z, row in envs]
        self.cls = classes(self.envs, tol)
        self.counts = {}
        for z in nums:
            self.counts[z] = self.counts.get(z, 0) + 1

    def mismatch(self, basis, frac, nums, dist_tol=None):
        tol = dist_tol or self.tol
        n = len(nums)
        if n == 0:
            return 'no atoms'
        v = abs(det3(basis)) / n
        if abs(v - self.vol) > 2e-3 * self.vol * max(1, tol / 3e-3):
            return 'volume per atom %.5f instead of %.5f' % (v, self.vol)
        cnt = {}
        for z in nums:
            cnt[z] = cnt.get(z, 0) + 1
        for z in set(cnt) | set(self.counts):
            if cnt.get(z, 0) * self.n != self.counts.get(z, 0) * n:
                return 'composition %r instead of the proportions of %r' % (cnt, self.counts)
        got = fingerprint(basis, frac, nums, self.rcut)
        hit = [0] * len(self.cls)
        for e in got:
            for k, c in enumerate(self.cls):
                if same_env(c[0], e, tol):
                    hit[k] += 1
                    break
            else:
                return 'an atom (Z=%d) has surroundings that do not occur in the original' % e[0]
        for k, c in enumerate(self.cls):
            if hit[k] * self.n != c[1] * n:
                return 'surroundings occur in other proportions'
        return None


class Matching(object):
    """One-to-one assignment of items to targets, grown one item at a time; fits(item, target) is asked lazily.
    A target taken earlier is handed on when its holder fits another, so the outcome does not depend on the order."""

    def __init__(self, targets, fits):
        self.targets, self.fits = list(targets), fits
        self.holder, self.known = {}, {}

    def ok(self, i, t):
        if (i, t) not in self.known:
            self.known[(i, t)] = bool(self.fits(i, self.targets[t]))
        return self.known[(i, t)]

    def place(self, i, seen=None):
        """True when item i (and all placed before) can have a target each."""
        seen = set() if seen is None else seen
        for t in range(len(self.targets)):
            if t not in self.holder and self.ok(i, t):
                self.holder[t] = i
                return True
        for t in range(len(self.targets)):
            if t not in seen and t in self.holder and self.ok(i, t):
                seen.add(t)
                if self.place(self.holder[t], seen):
                    self.holder[t] = i
                    return True
        return False

    def left(self):
        return [x for t, x in enumerate(self.targets) if t not in self.holder]
