"""Exact crystallography oracle.

Everything here is decided over the integers: a crystal is a rational metric
tensor (integers over a common denominator), sites on a 1/D grid and species
numbers.  No code of /repo and no spglib is used.  The module is the reference
the monitors compare the observed executions against.
"""
from itertools import product, combinations
from math import sqrt, gcd, floor, ceil


# ---------------------------------------------------------------- linear algebra
def mat_mul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(len(b)))
             for j in range(len(b[0]))] for i in range(len(a))]


def mat_vec(a, v):
    return [sum(a[i][k] * v[k] for k in range(len(v))) for i in range(len(a))]


def transpose(a):
    return [list(r) for r in zip(*a)]


def det3(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1])
            - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def adj3(m):
    """Adjugate: m * adj3(m) == det3(m) * I."""
    c = [[0] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(3):
            a, b = [k for k in range(3) if k != i]
            p, q = [k for k in range(3) if k != j]
            minor = m[a][p] * m[b][q] - m[a][q] * m[b][p]
            c[j][i] = minor if (i + j) % 2 == 0 else -minor
    return c


def inv3(m):
    d = float(det3(m))
    return [[x / d for x in row] for row in adj3(m)]


def norm(v):
    return sqrt(sum(x * x for x in v))


# ---------------------------------------------------------------- lattices
def cholesky(g):
    """Rows b_i with b_i . b_j == g_ij (floats)."""
    l = [[0.0] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(i + 1):
            s = sum(l[i][k] * l[j][k] for k in range(j))
            if i == j:
                l[i][j] = sqrt(g[i][i] - s)
            else:
                l[i][j] = (g[i][j] - s) / l[j][j]
    return l


def random_rotation(rng):
    """A random proper rotation from a quaternion."""
    while True:
        q = [rng.gauss(0, 1) for _ in range(4)]
        n = norm(q)
        if n > 0.1:
            break
    w, x, y, z = [c / n for c in q]
    return [[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
            [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
            [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]


def short_basis(g):
    """Integer P, det 1 in size, with P^T g P a metric of short vectors (pairwise reduction), and its inverse."""
    g = [list(r) for r in g]
    P = [[int(i == j) for j in range(3)] for i in range(3)]
    Q = [[int(i == j) for j in range(3)] for i in range(3)]
    moved = True
    while moved:
        moved = False
        for i in range(3):
            for j in range(3):
                if i == j:
                    continue
                k = (2 * g[i][j] + g[j][j]) // (2 * g[j][j])
                # b_i -= k b_j, only when that makes it strictly shorter
                if k and g[i][i] - 2 * k * g[i][j] + k * k * g[j][j] < g[i][i]:
                    for r in range(3):
                        P[r][i] -= k * P[r][j]
                    for c in range(3):
                        Q[j][c] += k * Q[i][c]
                    for c in range(3):
                        g[i][c] -= k * g[j][c]
                    for r in range(3):
                        g[r][i] -= k * g[r][j]
                    moved = True
    return g, P, Q


_HOL = {}


def holohedry(g):
    """All integer W (acting on column fractional coordinates) with W^T g W == g, found in a basis of short vectors."""
    key = tuple(tuple(r) for r in g)
    if key not in _HOL:
        if len(_HOL) > 200:
            _HOL.clear()
        gs, P, Q = short_basis(g)
        _HOL[key] = sorted(tuple(tuple(r) for r in mat_mul(mat_mul(P, W), Q)) for W in _holohedry(gs))
    return _HOL[key]


def _holohedry(g):
    """All integer W (acting on column fractional coordinates) with
    W^T g W == g; g an integer symmetric positive definite matrix."""
    dg = det3(g)
    ag = adj3(g)
    cand = []
    for i in range(3):
        lim = [int(floor(sqrt(g[i][i] * ag[k][k] / float(dg)) + 1e-9)) for k in range(3)]
        vs = []
        for v in product(*[range(-m, m + 1) for m in lim]):
            gv = mat_vec(g, v)
            if sum(a * b for a, b in zip(v, gv)) == g[i][i]:
                vs.append((v, gv))
        cand.append(vs)
    out = []
    for v0, _ in cand[0]:
        for v1, gv1 in cand[1]:
            if sum(a * b for a, b in zip(v0, gv1)) != g[0][1]:
                continue
            for v2, gv2 in cand[2]:
                if sum(a * b for a, b in zip(v0, gv2)) != g[0][2]:
                    continue
                if sum(a * b for a, b in zip(v1, gv2)) != g[1][2]:
                    continue
                # columns of W are the images of the basis vectors
                out.append(tuple(tuple(r) for r in zip(v0, v1, v2)))
    return out


class Crystal(object):
    """g: integer metric (times 1/gden), D: grid denominator,
    pos: integer triples (coordinates times D, reduced mod D), nums: species."""

    def __init__(self, g, gden, D, pos, nums):
        self.g = [list(r) for r in g]
        self.gden = gden
        self.D = D
        self.pos = [tuple(c % D for c in p) for p in pos]
        self.nums = list(nums)
        self._ops = None

    @property
    def n(self):
        return len(self.pos)

    def basis(self, rot=None):
        b = cholesky([[x / float(self.gden) for x in r] for r in self.g])
        return b if rot is None else mat_mul(b, rot)

    def frac(self):
        return [[c / float(self.D) for c in p] for p in self.pos]

    def volume(self):
        return sqrt(det3(self.g) / float(self.gden) ** 3)

    def with_nums(self, nums):
        return Crystal(self.g, self.gden, self.D, self.pos, nums)

    def ops(self):
        """List of (W, t, perm): site i goes to site perm[i]."""
        if self._ops is None:
            D = self.D
            index = {(p, s): i for i, (p, s) in enumerate(zip(self.pos, self.nums))}
            cnt = {}
            for s in self.nums:
                cnt[s] = cnt.get(s, 0) + 1
            rare = min(sorted(cnt), key=lambda s: cnt[s])
            i0 = self.nums.index(rare)
            js = [j for j, s in enumerate(self.nums) if s == rare]
            res = []
            for W in holohedry(self.g):
                img = [tuple(mat_vec(W, p)) for p in self.pos]
                for j in js:
                    t = tuple((a - b) % D for a, b in zip(self.pos[j], img[i0]))
                    perm = []
                    for q, s in zip(img, self.nums):
                        k = index.get(((
                            (q[0] + t[0]) % D, (q[1] + t[1]) % D, (q[2] + t[2]) % D), s))
                        if k is None:
                            break
                        perm.append(k)
                    else:
                        res.append((W, t, tuple(perm)))
            self._ops = res
        return self._ops

    def perms(self):
        return sorted(set(p for _, _, p in self.ops()))

    def rotations(self):
        return sorted(set(W for W, _, _ in self.ops()))

    def n_translations(self):
        """Order of the pure-translation subgroup (1 for a primitive cell)."""
        I = ((1, 0, 0), (0, 1, 0), (0, 0, 1))
        return sum(1 for W, _, _ in self.ops() if W == I)

    def is_primitive(self):
        return self.n_translations() == 1

    # -------------------------------------------------- derived descriptions
    def change_basis(self, U):
        """U unimodular, new basis rows = U * old rows."""
        g = mat_mul(mat_mul(U, self.g), transpose(U))
        # x_new (row) = x_old * U^-1
        Ui = adj3(U)
        d = det3(U)
        Ui = [[x // d for x in r] for r in Ui]
        pos = [tuple(sum(p[k] * Ui[k][j] for k in range(3)) for j in range(3))
               for p in self.pos]
        return Crystal(g, self.gden, self.D, pos, self.nums)

    def shift(self, t, D2=None):
        return Crystal(self.g, self.gden, self.D,
                       [tuple(a + b for a, b in zip(p, t)) for p in self.pos], self.nums)

    def supercell(self, H):
        """H integer 3x3 with positive determinant, rows = new basis."""
        n = det3(H)
        assert n > 0
        A = adj3(H)                      # H^-1 = A / n
        g = mat_mul(mat_mul(H, self.g), transpose(H))
        D2 = self.D * n
        reps = coset_reps(H)
        pos, nums = [], []
        for p, s in zip(self.pos, self.nums):
            for r in reps:
                x = [p[k] + self.D * r[k] for k in range(3)]        # units 1/D, old basis
                y = tuple(sum(x[k] * A[k][j] for k in range(3)) % D2 for j in range(3))
                pos.append(y)
                nums.append(s)
        return Crystal(g, self.gden, D2, pos, nums).simplify()

    def simplify(self):
        k = self.D
        for p in self.pos:
            for c in p:
                k = gcd(k, c)
        if k > 1:
            return Crystal(self.g, self.gden, self.D // k,
                           [tuple(c // k for c in p) for p in self.pos], self.nums)
        return self


def hnf_rows(H):
    """Canonical (row) Hermite form of the lattice spanned by the rows of H."""
    m = [list(r) for r in H]
    r = 0
    for c in range(3):
        while True:
            nz = [i for i in range(r, 3) if m[i][c] != 0]
            if not nz:
                break
            p = min(nz, key=lambda i: abs(m[i][c]))
            m[r], m[p] = m[p], m[r]
            if m[r][c] < 0:
                m[r] = [-x for x in m[r]]
            done = True
            for i in range(r + 1, 3):
                q = m[i][c] // m[r][c]
                if q:
                    m[i] = [a - q * b for a, b in zip(m[i], m[r])]
                if m[i][c]:
                    done = False
            if done:
                break
        if r < 3 and m[r][c] != 0:
            for i in range(r):
                q = m[i][c] // m[r][c]
                m[i] = [a - q * b for a, b in zip(m[i], m[r])]
            r += 1
    return tuple(tuple(x) for x in m)


def coset_reps(H):
    """Representatives of Z^3 / (row lattice of H)."""
    h = hnf_rows(H)
    return [(i, j, k) for i in range(h[0][0]) for j in range(h[1][1]) for k in range(h[2][2])]


def reduce_mod(v, h):
    """Reduce integer vector v modulo the row lattice with Hermite form h."""
    v = list(v)
    for c in range(3):
        q = v[c] // h[c][c]
        if q:
            v = [a - q * b for a, b in zip(v, h[c])]
    return tuple(v)


def all_hnfs(n):
    """Every sublattice of Z^3 of index n, as canonical Hermite forms."""
    out = []
    for a in range(1, n + 1):
        if n % a:
            continue
        for c in range(1, n // a + 1):
            if (n // a) % c:
                continue
            f = n // a // c
            for b in range(c):
                for d in range(f):
                    for e in range(f):
                        out.append(((a, b, d), (0, c, e), (0, 0, f)))
    return out


def sublattice_classes(n, rotations, twod=False):
    """Partition of the index-n sublattices into orbits under the rotations.
    A rotation W maps a row vector h to h * W^T.  Returns dict hnf -> class id,
    and the number of classes.  twod: only sublattices containing c and with
    in-plane a, b (classes still under 3D rotations)."""
    subs = [h for h in all_hnfs(n)]
    if twod:
        subs = [h for h in subs if h[2] == (0, 0, 1) and h[0][2] == 0 and h[1][2] == 0]
    cls = {}
    k = 0
    WT = [transpose(W) for W in rotations]
    for h in subs:
        if h in cls:
            continue
        for w in WT:
            cls.setdefault(hnf_rows(mat_mul(h, w)), k)
        k += 1
    return cls, k, subs


# ---------------------------------------------------------------- decorations
def canon(cfg, perms):
    """Smallest image of a decoration under a permutation group."""
    best = None
    for p in perms:
        t = tuple([cfg[i] for i in p])
        if best is None or t < best:
            best = t
    return best


def orbits(cfgs, perms):
    """Set of canonical representatives of the given decorations."""
    seen = {}
    reps = set()
    for c in cfgs:
        if c in seen:
            continue
        best = c
        imgs = set(tuple([c[i] for i in p]) for p in perms)
        best = min(imgs)
        for im in imgs:
            seen[im] = best
        reps.add(best)
    return reps, seen


def substitutions(nums, idx, k, z):
    """All decorations obtained from nums by setting k of the sites idx to z."""
    out = []
    for comb in combinations(idx, k):
        c = list(nums)
        for i in comb:
            c[i] = z
        out.append(tuple(c))
    return out


# ---------------------------------------------------------------- periodic geometry (floats)
def images_needed(basis, r):
    """Per-axis image range that surely covers every vector shorter than r
    between two points whose fractional difference is reduced to [0, 1)."""
    inv = inv3(basis)
    # height of the cell along axis k = 1 / |column k of inv|
    rng = []
    for k in range(3):
        h = 1.0 / norm([inv[i][k] for i in range(3)])
        rng.append(int(ceil(r / h)) + 1)
    return rng


def to_cart(f, basis):
    return [f[0] * basis[0][j] + f[1] * basis[1][j] + f[2] * basis[2][j] for j in range(3)]


def reduced_basis(basis):
    """A short basis of the same lattice (greedy pair reduction); returns rows."""
    b = [list(r) for r in basis]
    for _ in range(1000):
        changed = False
        for i in range(3):
            for j in range(3):
                if i == j:
                    continue
                d = sum(x * y for x, y in zip(b[i], b[j]))
                n2 = sum(x * x for x in b[j])
                q = int(round(d / n2))
                if q:
                    nb = [x - q * y for x, y in zip(b[i], b[j])]
                    if norm(nb) < norm(b[i]) - 1e-12:
                        b[i] = nb
                        changed = True
        for s in ((1, 1), (1, -1), (-1, 1), (-1, -1)):
            nb = [b[0][k] + s[0] * b[1][k] + s[1] * b[2][k] for k in range(3)]
            i = max(range(3), key=lambda t: norm(b[t]))
            if norm(nb) < norm(b[i]) - 1e-12:
                b[i] = nb if i == 0 else [x * (1 if i == 0 else s[i - 1]) for x in nb]
                changed = True
        if not changed:
            break
    return b


def distances_within(d_frac, basis, r):
    """Every distance < r from the origin to images of the fractional vector."""
    cart = to_cart([x - floor(x) for x in d_frac], basis)
    rb = reduced_basis(basis)
    ri = inv3(rb)
    f = [sum(cart[i] * ri[i][k] for i in range(3)) for k in range(3)]
    f = [x - floor(x) for x in f]
    nr = images_needed(rb, r)
    out = []
    r2 = r * r
    for a in range(-nr[0], nr[0] + 1):
        for b in range(-nr[1], nr[1] + 1):
            for c in range(-nr[2], nr[2] + 1):
                v = to_cart([f[0] + a, f[1] + b, f[2] + c], rb)
                d2 = v[0] * v[0] + v[1] * v[1] + v[2] * v[2]
                if d2 < r2:
                    out.append(sqrt(d2))
    return out


def min_image(d_frac, basis, rb=None, skip_zero=False):
    """Length of the shortest periodic image of a fractional difference."""
    if rb is None:
        rb = reduced_basis(basis)
    cart = to_cart(d_frac, basis)
    ri = inv3(rb)
    f = [sum(cart[i] * ri[i][k] for i in range(3)) for k in range(3)]
    f = [x - floor(x + 0.5) for x in f]
    best = None
    (p0, p1, p2), (q0, q1, q2), (r0, r1, r2) = rb
    for a in (-2, -1, 0, 1, 2):
        u = f[0] + a
        u0, u1, u2 = u * p0, u * p1, u * p2
        for b in (-2, -1, 0, 1, 2):
            v = f[1] + b
            v0, v1, v2 = u0 + v * q0, u1 + v * q1, u2 + v * q2
            for c in (-2, -1, 0, 1, 2):
                w = f[2] + c
                x, y, z = v0 + w * r0, v1 + w * r1, v2 + w * r2
                d2 = x * x + y * y + z * z
                if skip_zero and d2 < 1e-12:
                    continue
                if best is None or d2 < best:
                    best = d2
    return sqrt(best)


def fingerprint(basis, frac, nums, rcut):
    """Isometry invariant of a crystal: for every ordered species pair, the
    sorted list of (distance, multiplicity per atom of the first species)."""
    rb = reduced_basis(basis)
    ri = inv3(rb)
    nr = images_needed(rb, rcut)
    carts = [to_cart(f, basis) for f in frac]
    r2 = rcut * rcut
    pts = []
    for c in carts:
        f = [sum(c[i] * ri[i][k] for i in range(3)) for k in range(3)]
        pts.append([x - floor(x) for x in f])
    shifts = [(a, b, c) for a in range(-nr[0], nr[0] + 1)
              for b in range(-nr[1], nr[1] + 1) for c in range(-nr[2], nr[2] + 1)]
    atoms = []
    for i, p in enumerate(pts):
        row = []
        for j, q in enumerate(pts):
            f0 = [q[k] - p[k] for k in range(3)]
            for (a, b, c) in shifts:
                v = to_cart([f0[0] + a, f0[1] + b, f0[2] + c], rb)
                d2 = v[0] * v[0] + v[1] * v[1] + v[2] * v[2]
                if 1e-12 < d2 < r2:
                    row.append((nums[j], sqrt(d2)))
        row.sort()
        atoms.append((nums[i], row))
    return atoms
