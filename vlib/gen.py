"""Workload generators: exact crystals and the float descriptions handed to
the code under test.  Every random choice comes from the rng passed in."""
from math import sqrt
from .exact import (Crystal, inv3, holohedry, mat_vec, mat_mul, det3, all_hnfs,
                    cholesky, to_cart, norm, reduced_basis, floor)

# species that exist in the library's table, chosen with distinct numbers
SPECIES = [1, 3, 5, 6, 7, 8, 12, 13, 14, 16, 22, 26, 28, 29, 30, 31, 33, 47, 50, 55, 79, 82]

# every element of the library's table (it has no lanthanides and nothing after Ra)
TABLE = list(range(1, 57)) + list(range(72, 89))


# whole cells a coordinate may lie away
FAR = [-12, -7, -5, -4, -3, -2, 2, 3, 4, 6, 9, 15]


# integer metrics (Angstrom^2 times gden)
def lattice_metric(rng, family=None, slab=False):
    fam = family or rng.choice([
        'cP', 'cF', 'cI', 'tP', 'tI', 'oP', 'oC', 'oF', 'oI', 'hP', 'hR', 'mP', 'mC', 'aP',
        'cP', 'cF', 'cI', 'hP', 'tP'])
    sq = [9, 12, 16, 20, 26, 33]
    a, b, c = rng.sample(sq, 3)
    if slab and fam in ('tP', 'oP', 'hP', 'mP') and rng.random() < 0.12:
        c *= rng.choice([16, 36, 64, 144])    # a slab in vacuum: 12 to 70 Angstrom
    if fam == 'cP':
        g = [[a, 0, 0], [0, a, 0], [0, 0, a]]
    elif fam == 'cF':
        a *= 2                       # a here is the squared conventional edge / 2
        g = [[2 * a, a, a], [a, 2 * a, a], [a, a, 2 * a]]
        return fam, [[x for x in r] for r in g], 4
    elif fam == 'cI':
        g = [[3 * a, -a, -a], [-a, 3 * a, -a], [-a, -a, 3 * a]]
        return fam, g, 4
    elif fam == 'tP':
        g = [[a, 0, 0], [0, a, 0], [0, 0, c]]
    elif fam == 'tI':                # a1, a2, (a1+a2+c)/2
        g = [[4 * a, 0, 2 * a], [0, 4 * a, 2 * a], [2 * a, 2 * a, 2 * a + c]]
        return fam, g, 4
    elif fam == 'oP':
        g = [[a, 0, 0], [0, b, 0], [0, 0, c]]
    elif fam == 'oC':                # (a-b)/2, (a+b)/2, c
        g = [[a + b, a - b, 0], [a - b, a + b, 0], [0, 0, 4 * c]]
        return fam, g, 4
    elif fam == 'oF':
        g = [[b + c, c, b], [c, a + c, a], [b, a, a + b]]
        return fam, g, 2
    elif fam == 'oI':
        g = [[a + b + c, -a - b + c, -a + b - c],
             [-a - b + c, a + b + c, a - b - c],
             [-a + b - c, a - b - c, a + b + c]]
        return fam, g, 4
    elif fam == 'hP':
        g = [[2 * a, -a, 0], [-a, 2 * a, 0], [0, 0, 2 * c]]
        return fam, g, 2
    elif fam == 'hR':
        d = rng.choice([-2, 1, 2, 3])
        g = [[a, d, d], [d, a, d], [d, d, a]]
    elif fam == 'mP':
        d = rng.choice([-3, -2, 1, 2, 3])
        g = [[a, 0, d], [0, b, 0], [d, 0, c]]
    elif fam == 'mC':
        d = rng.choice([-3, -2, 1, 2, 3])
        g = [[a + b, a - b, 2 * d], [a - b, a + b, 2 * d], [2 * d, 2 * d, 4 * c]]
        return fam, g, 4
    else:
        fam = 'aP'
        g = [[a, rng.choice([1, 2, -1]), rng.choice([-2, 3])],
             [0, b, rng.choice([1, -3])], [0, 0, c]]
        g[1][0], g[2][0], g[2][1] = g[0][1], g[0][2], g[1][2]
    return fam, g, 1


def random_unimodular(rng, steps=2):
    U = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    for _ in range(steps):
        i, j = rng.sample(range(3), 2)
        k = rng.choice([-1, 1])
        U[i] = [x + k * y for x, y in zip(U[i], U[j])]
    if rng.random() < 0.3:
        i, j = rng.sample(range(3), 2)
        U[i], U[j] = U[j], [-x for x in U[i]]
    if rng.random() < 0.15:          # left-handed
        i, j = rng.sample(range(3), 2)
        U[i], U[j] = U[j], U[i]
    return U


def _group_closure(gens, D, cap):
    I = ((1, 0, 0), (0, 1, 0), (0, 0, 1))
    els = {(I, (0, 0, 0))}
    frontier = list(els)
    while frontier:
        new = []
        for (W, t) in frontier:
            for (V, s) in gens:
                X = tuple(tuple(r) for r in mat_mul(V, W))
                u = tuple((a + b) % D for a, b in zip(mat_vec(V, t), s))
                e = (X, u)
                if e not in els:
                    els.add(e)
                    new.append(e)
                    if len(els) > cap:
                        return None
        frontier = new
    return sorted(els)


def min_pair_dist(cr):
    """Shortest distance between distinct sites (images included, rough)."""
    from .exact import min_image
    b = cr.basis()
    rb = reduced_basis(b)
    f = cr.frac()
    best = min(norm(r) for r in rb)
    for i in range(len(f)):
        for j in range(i):
            d = min_image([x - y for x, y in zip(f[i], f[j])], b, rb)
            best = min(best, d)
    return best


def crystal_orbits(rng, nmax, family=None, D=None):
    """Sites = orbits of random points under a random space group."""
    for _ in range(200):
        fam, g, gden = lattice_metric(rng, family, True)
        H = holohedry(g)
        d = D or rng.choice([12, 24, 16, 48, 20, 36, 1000])
        half = [0, d // 2]
        gens = []
        for _ in range(rng.randint(1, 3)):
            W = rng.choice(H)
            if rng.random() < 0.5:
                t = (0, 0, 0)
            else:
                t = tuple(rng.choice(half) for _ in range(3))
            gens.append((W, t))
        G = _group_closure(gens, d, 96)
        if G is None:
            continue
        pos, nums = [], []
        for k in range(rng.randint(1, 3)):
            s = rng.choice(SPECIES)
            typ = rng.random()
            if typ < 0.25:
                p = tuple(rng.choice([0, d // 2, d // 4]) for _ in range(3))
            elif typ < 0.5:
                u = rng.randrange(d)
                p = tuple(rng.choice([0, u, -u, d // 2]) for _ in range(3))
            else:
                p = tuple(rng.randrange(d) for _ in range(3))
            if pos and rng.random() < 0.1:       # a close neighbour of a site that is there
                o = [0, 0, 0]
                ax = rng.choice([0, 1, 2, 2])
                edge = sqrt(g[ax][ax] / float(gden))
                o[ax] = max(1, int(round(rng.uniform(0.47, 0.9) / edge * d)))
                p = tuple((x + y) % d for x, y in zip(rng.choice(pos), o))
            orb = sorted(set(tuple((a + b) % d for a, b in zip(mat_vec(W, p), t))
                             for W, t in G))
            if len(pos) + len(orb) > nmax:
                continue
            if any(q in pos for q in orb):
                continue
            pos += orb
            nums += [s] * len(orb)
        if not pos:
            continue
        cr = Crystal(g, gden, d, pos, nums)
        if min_pair_dist(cr) < 0.45:
            continue
        cr.tag = 'orbits-' + fam
        return cr
    return crystal_super(rng, nmax)


def crystal_random(rng, nmax, family=None):
    for _ in range(200):
        fam, g, gden = lattice_metric(rng, family, True)
        d = rng.choice([7, 12, 24, 50])
        n = rng.randint(1, nmax)
        pos = set()
        while len(pos) < n:
            pos.add(tuple(rng.randrange(d) for _ in range(3)))
        pos = sorted(pos)
        rng.shuffle(pos)
        sp = rng.sample(SPECIES, rng.randint(1, 3))
        cr = Crystal(g, gden, d, pos, [rng.choice(sp) for _ in pos])
        if min_pair_dist(cr) < 0.45:
            continue
        cr.tag = 'random-' + fam
        return cr
    return crystal_super(rng, nmax)


PROTO = {
    # name: (family, D, [(pos, species slot)])
    'sc': ('cP', 1, [((0, 0, 0), 0)]),
    'fcc': ('cF', 1, [((0, 0, 0), 0)]),
    'bcc': ('cI', 1, [((0, 0, 0), 0)]),
    'diamond': ('cF', 4, [((0, 0, 0), 0), ((1, 1, 1), 0)]),
    'zincblende': ('cF', 4, [((0, 0, 0), 0), ((1, 1, 1), 1)]),
    'rocksalt': ('cF', 2, [((0, 0, 0), 0), ((1, 1, 1), 1)]),
    'fluorite': ('cF', 4, [((0, 0, 0), 0), ((1, 1, 1), 1), ((3, 3, 3), 1)]),
    'heusler': ('cF', 4, [((0, 0, 0), 0), ((1, 1, 1), 1), ((2, 2, 2), 2)]),
    'cscl': ('cP', 2, [((0, 0, 0), 0), ((1, 1, 1), 1)]),
    'perovskite': ('cP', 2, [((0, 0, 0), 0), ((1, 1, 1), 1), ((0, 1, 1), 2),
                             ((1, 0, 1), 2), ((1, 1, 0), 2)]),
    'l12': ('cP', 2, [((0, 0, 0), 0), ((0, 1, 1), 1), ((1, 0, 1), 1), ((1, 1, 0), 1)]),
    'hcp': ('hP', 12, [((4, 8, 3), 0), ((8, 4, 9), 0)]),
    'graphene': ('hP', 3, [((1, 2, 0), 0), ((2, 1, 0), 0)]),
    'bn': ('hP', 6, [((2, 4, 0), 0), ((4, 2, 0), 1), ((2, 4, 3), 1), ((4, 2, 3), 0)]),
    'kagome': ('hP', 2, [((1, 0, 0), 0), ((0, 1, 0), 0), ((1, 1, 0), 0)]),
    'tri': ('hP', 1, [((0, 0, 0), 0)]),
    'tet': ('tP', 1, [((0, 0, 0), 0)]),
    'tet2': ('tP', 2, [((0, 0, 0), 0), ((1, 1, 1), 1)]),
    'bct': ('tI', 1, [((0, 0, 0), 0)]),
    'ortho': ('oP', 1, [((0, 0, 0), 0)]),
    'rhomb': ('hR', 1, [((0, 0, 0), 0)]),
    'mono': ('mP', 2, [((0, 0, 0), 0), ((1, 0, 1), 1)]),
    'pyrite': ('cP', 1000, None),
    'wurtzite': ('hP', 24, [((8, 16, 0), 0), ((16, 8, 12), 0), ((8, 16, 9), 1), ((16, 8, 21), 1)]),
    'cadmiumiodide': ('hP', 12, [((0, 0, 0), 0), ((4, 8, 3), 1), ((8, 4, 9), 1)]),
}


def proto(rng, name=None):
    name = name or rng.choice(sorted(PROTO))
    fam, d, atoms = PROTO[name]
    _, g, gden = lattice_metric(rng, fam)
    sp = rng.sample(SPECIES, 3)
    if name == 'pyrite':
        g = [[26, 0, 0], [0, 26, 0], [0, 0, 26]]
        gden = 1
        u = rng.choice([380, 385, 374, 383])
        h = 500
        S = [(u, u, u), (h - u, -u, h + u), (-u, h + u, h - u), (h + u, h - u, -u)]
        S = S + [tuple(-x for x in s) for s in S]
        pos = [(0, 0, 0), (0, h, h), (h, 0, h), (h, h, 0)] + S
        nums = [sp[0]] * 4 + [sp[1]] * 8
        cr = Crystal(g, gden, 1000, pos, nums)
    else:
        cr = Crystal(g, gden, d, [a[0] for a in atoms], [sp[a[1]] for a in atoms])
    cr.tag = 'proto-' + name
    return cr


def crystal_super(rng, nmax, name=None, twod=False):
    """A superlattice of a prototype (the library's own bread and butter)."""
    for _ in range(50):
        cr = proto(rng, name)
        if cr.n > nmax:
            continue
        k = rng.randint(1, max(1, nmax // cr.n))
        H = rng.choice(all_hnfs(k))
        s = cr.supercell(H)
        s.tag = '%s-x%d' % (cr.tag, k)
        return s
    cr = proto(rng, 'sc')
    return cr


def crystal_cubic(rng, nmax):
    """A diagonal supercell of a cubic or hexagonal prototype: a group of several hundred operations."""
    for _ in range(50):
        cr = proto(rng, rng.choice(['sc', 'sc', 'fcc', 'bcc', 'diamond', 'rocksalt', 'zincblende', 'cscl', 'hcp', 'tri', 'graphene']))
        k = rng.choice([2, 2, 3])
        if cr.n * k ** 3 > nmax:
            continue
        s = cr.supercell([[k, 0, 0], [0, k, 0], [0, 0, k]])
        s.tag = '%s-diag%d' % (cr.tag, k)
        return s
    return crystal_super(rng, nmax)


def crystal_decorated(rng, nmax):
    cr = crystal_super(rng, nmax)
    z = [s for s in SPECIES if s not in cr.nums]
    nums = list(cr.nums)
    for _ in range(rng.randint(1, 2)):
        nums[rng.randrange(len(nums))] = rng.choice(z[:3])
    if rng.random() < 0.2:
        nums[rng.randrange(len(nums))] = 0       # a vacancy
    elif rng.random() < 0.08:                    # mostly vacancies
        keep = set(rng.sample(range(len(nums)), min(len(nums), rng.choice([1, 1, 2, 3]))))
        nums = [x if k in keep else 0 for k, x in enumerate(nums)]
    c = cr.with_nums(nums)
    c.tag = cr.tag + '-dec'
    return c


def crystal_distorted(rng, nmax):
    """A symmetric crystal with one site moved by a few thousandths of an
    Angstrom: far outside the library's tolerance, close to coarser ones."""
    cr = rng.choice([crystal_super, crystal_super, crystal_orbits])(rng, nmax)
    return displaced(rng, cr, rng.choice([0.004, 0.005, 0.006, 0.008, 0.01, 0.02]), 1e-3)


def displaced(rng, cr, amp, step):
    """The crystal with one site moved by about amp, on a grid of about step (Angstrom)."""
    b = cr.basis()
    K = max(1, int(max(norm(r) for r in b) / cr.D / step))
    D = cr.D * K
    pos = [[x * K for x in p] for p in cr.pos]
    k = rng.randrange(cr.n)
    inv = inv3(b)
    v = [rng.uniform(-1, 1) for _ in range(3)]
    v = [x * amp / norm(v) for x in v]
    f = [sum(v[i] * inv[i][j] for i in range(3)) for j in range(3)]
    pos[k] = [(x + int(round(y * D))) % D for x, y in zip(pos[k], f)]
    out = Crystal(cr.g, cr.gden, D, [tuple(p) for p in pos], cr.nums)
    out.tag = 'distorted-' + str(getattr(cr, 'tag', '?'))
    return out


def crystal_any(rng, nmax):
    x = rng.random()
    if nmax > 1 and rng.random() < 0.07:
        return crystal_distorted(rng, nmax)
    if x < 0.45:
        return crystal_super(rng, nmax)
    if x < 0.6:
        return crystal_decorated(rng, nmax)
    if x < 0.88:
        return crystal_orbits(rng, nmax)
    return crystal_random(rng, nmax)


# ---------------------------------------------------------------- float descriptions
class Desc(object):
    """What is handed to the code: plain lists, plus the exact crystal and, for
    each listed site, its index in the exact crystal."""

    def __init__(self, cr, basis, frac, order, nums):
        self.cr, self.basis, self.frac, self.order, self.nums = cr, basis, frac, order, nums

    def as_dict(self):
        return {'tag': getattr(self.cr, 'tag', '?'), 'lattice': self.basis,
                'positions': self.frac, 'numbers': self.nums}


def describe(cr, rng, rotate=True, shuffle=True, wrap=0.3, noise=0.0, scale=1.0, mirror=False):
    from .exact import random_rotation
    rot = random_rotation(rng) if rotate else None
    basis = [[x * scale for x in r] for r in cr.basis(rot)]
    if mirror:                       # a left-handed set of lattice vectors
        basis = [[r[0], r[1], -r[2]] for r in basis]
    order = list(range(cr.n))
    if shuffle:
        rng.shuffle(order)
    frac = []
    base = cr.frac()
    for i in order:
        f = list(base[i])
        for k in range(3):
            if rng.random() < wrap:
                f[k] += rng.choice([-1, 1, 0]) if rng.random() < 0.9 else rng.choice(FAR)
            if noise:
                f[k] += rng.uniform(-noise, noise)
        frac.append(f)
    return Desc(cr, basis, frac, order, [cr.nums[i] for i in order])


def unambiguous(cr, basis, frac, order, lo, hi):
    """True when every symmetry of the exact crystal holds on the float
    description within lo (Angstrom) and no further candidate operation comes
    within hi: then any symmetry finder whose tolerance lies in between has to
    return exactly the exact group.  Also demands that distinct sites are more
    than 0.3 apart, so nearest-site matching is well defined."""
    from .exact import min_image
    rb = reduced_basis(basis)
    ri = inv3(rb)
    inv_h = [sqrt(sum(ri[u][v] ** 2 for u in range(3))) for v in range(3)]
    n = cr.n
    pos = [None] * n
    for k, i in enumerate(order):
        pos[i] = frac[k]
    exact = set((W, t) for W, t, _ in cr.ops())
    D = cr.D
    cnt = {}
    for s in cr.nums:
        cnt[s] = cnt.get(s, 0) + 1
    rare = min(sorted(cnt), key=lambda s: cnt[s])
    i0 = cr.nums.index(rare)
    js = [j for j, s in enumerate(cr.nums) if s == rare]
    for W in holohedry(cr.g):
        img = [mat_vec(W, p) for p in pos]
        img_e = mat_vec(W, cr.pos[i0])
        for j in js:
            t = [a - b for a, b in zip(pos[j], img[i0])]
            te = tuple((a - b) % D for a, b in zip(cr.pos[j], img_e))
            is_exact = (W, te) in exact
            worst = 0.0
            for i in range(n):
                q = [a + b for a, b in zip(img[i], t)]
                best = 1e9
                for m in range(n):
                    if cr.nums[m] != cr.nums[i]:
                        continue
                    f = [a - b for a, b in zip(q, pos[m])]
                    f = [x - floor(x + 0.5) for x in f]
                    # quick lower-cost test before the true minimum image
                    if max(abs(x) for x in f) > 0.25:
                        continue
                    d = norm(to_cart(f, basis))
                    if d > hi:
                        # the shortest image is at least as far as any pair of lattice planes puts it
                        c = to_cart(f, basis)
                        e = [sum(c[u] * ri[u][v] for u in range(3)) for v in range(3)]
                        if any(abs(e[v] - floor(e[v] + 0.5)) > hi * inv_h[v] + 1e-9 for v in range(3)):
                            d = max(d, 1e8)
                        else:
                            d = min_image(f, basis, rb)
                    if d < best:
                        best = d
                worst = max(worst, best)
                if worst > hi:
                    break
            if is_exact and worst > lo:
                return False
            if not is_exact and worst <= hi:
                return False
    return True
