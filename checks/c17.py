"""Grid enumeration on named lattices and the speckle-contact test."""
from math import factorial
from itertools import combinations, product

from vlib import ab
from vlib.exact import Crystal, orbits, reduced_basis, min_image, norm, det3

ID = 'C17'
QUICK, THOROUGH = 1200, 20000
NEED = ['scc', 'fcc', 'bcc', 'triflat', 'disjunct_true', 'disjunct_false', 'classes_matched', 'contact_through_boundary',
        'near_threshold', 'grids_equal', 'grids_unequal',
        'large_grids_equal', 'large_grids_unequal']
RULE = ('a case is a named lattice, a grid size, two species and a number of speckles: the enumeration is compared '
        'with the exact orbits, and contact verdicts of many grids with exact periodic distances; non-trivial: '
        'several classes; distinct by (lattice, size, number)')
ASSUMPTIONS = ['grids of at most 24 sites and 800 decorations for enumeration']
EXACT = {'scc': ([[1, 0, 0], [0, 1, 0], [0, 0, 1]], 1),
         'fcc': ([[2, 1, 1], [1, 2, 1], [1, 1, 2]], 4),
         'bcc': ([[3, -1, -1], [-1, 3, -1], [-1, -1, 3]], 4),
         'triflat': ([[800, 0, 0], [0, 2, 1], [0, 1, 2]], 2)}
ZS = [0, 1, 5, 6, 13, 29, 31, 55, 82]
_MOTHER = {}


def setup():
    global np, spglib, gen_nodup_cstru, lat_dict, is_speckle_disjunct, is_stru_equal, CStru, SitesGrid
    import spglib
    import numpy as np
    from ababe.stru.sogen import gen_nodup_cstru, lat_dict, is_speckle_disjunct, is_stru_equal
    from ababe.stru.scaffold import CStru, SitesGrid


def mother(name, size):
    """Exact crystal of the empty grid; sites in C order."""
    key = (name, size)
    if key not in _MOTHER:
        g, gd = EXACT[name]
        G = [[g[a][b] * size[a] * size[b] for b in range(3)] for a in range(3)]
        D = size[0] * size[1] * size[2]
        pos = [tuple(p[k] * D // size[k] for k in range(3)) for p in product(*map(range, size))]
        cr = Crystal(G, gd, D, pos, [1] * len(pos))
        _MOTHER[key] = (cr, cr.perms())
    return _MOTHER[key]


def nCk(n, k):
    return factorial(n) // factorial(k) // factorial(n - k)


def gram(name, lat):
    return [[sum(x * y for x, y in zip(lat[a], lat[b])) for b in range(3)] for a in range(3)]


def case(ctx, i):
    rng = ctx.rng
    name = rng.choice(sorted(EXACT))
    lat = lat_dict(name)
    g, gd = EXACT[name]
    ctx.check(all(abs(gram(name, lat)[a][b] - g[a][b] / float(gd)) < 1e-6
                  for a in range(3) for b in range(3)), 'lattice %s has another shape' % name, got=lat)
    while True:
        size = tuple(rng.randint(1, 4) for _ in range(3))
        if rng.random() < 0.15:
            size = [1, rng.choice([1, 1, 2]), rng.randint(5, 14)]
            rng.shuffle(size)
            size = tuple(size)
        n = size[0] * size[1] * size[2]
        ks = [k for k in range(n + 1) if nCk(n, k) <= (800 if rng.random() < 0.1 else 300)]
        if n <= 28 and ks:
            break
    if max(size) > 4:
        ctx.obs('long_grids')
    k = rng.choice(ks[1:] or ks)
    a, b = rng.sample(ZS, 2)
    ctx.note['input'] = {'lattice': name, 'size': size, 'number': k, 'sea': a, 'speckle': b}
    ctx.obs(name)
    if i % 2 == 0:
        enumerate_(ctx, rng, name, lat, size, n, k, a, b)
    else:
        contact(ctx, rng, name, lat)
    if rng.random() < 0.15:
        equality(ctx, rng, name, lat)
    if i % 60 == 7:
        big_equality(ctx, rng, name, lat)


def enumerate_(ctx, rng, name, lat, size, n, k, a, b):
    cr, perms = mother(name, size)
    raw = []
    for c in combinations(range(n), k):
        x = [a] * n
        for j in c:
            x[j] = b
        raw.append(tuple(x))
    reps, rep_of = orbits(raw, perms)
    sz = rng.choice([size, list(size)])
    found = {}
    for s in ab.drain(ctx, gen_nodup_cstru(lat, ab.specie(a), sz, ab.specie(b), k), len(raw), 'grid enumeration'):
        arr = np.array(s.get_array())
        ctx.check(arr.shape == size and np.allclose(np.array(s.m), np.array(lat)), 'enumerated structure has another grid')
        cfg = tuple(arr.flatten().tolist())
        r = rep_of.get(cfg)
        if r is None:
            ctx.fail('not such a decoration', got=arr)
        if r in found:
            ctx.fail('two equivalent grids were produced', a=found[r], b=cfg)
        found[r] = cfg
    ctx.check(set(found) == reps, '%d of %d classes are missing' % (len(reps - set(found)), len(reps)),
              missing=sorted(reps - set(found))[:2])
    ctx.obs('classes_matched', len(reps))
    ctx.peak('classes', len(reps))
    if len(reps) > 1:
        ctx.sig(name, size, k)
        ctx.sample({'input': ctx.note['input'], 'classes': len(reps), 'decorations': len(raw)})


def equality(ctx, rng, name, lat):
    """Two grids are equal when one of the given operations carries one onto the other."""
    size = tuple(rng.choice([1, 2, 2, 3, 3, 4]) for _ in range(3))
    if size[0] * size[1] * size[2] > 27:
        size = (size[0], size[1], 1)
    P = list(product(*map(range, size)))
    n = len(P)
    a, b, c = rng.sample(ZS, 3)

    def grid(cfg):
        return CStru(lat, SitesGrid([[[ab.specie(cfg[(x * size[1] + y) * size[2] + z]) for z in range(size[2])]
                                      for y in range(size[1])] for x in range(size[0])]))
    sym = spglib.get_symmetry(grid([6] * n).get_cell(), symprec=1e-3)
    ops = list(zip(sym['rotations'], sym['translations']))
    where = {p: k for k, p in enumerate(P)}
    maps = []
    for r, t in ops:
        m = []
        for p in P:
            q = [sum(int(r[u][v]) * p[v] / size[v] for v in range(3)) + float(t[u]) for u in range(3)]
            q = tuple(int(round(x * size[u])) % size[u] for u, x in enumerate(q))
            m.append(where[q])
        maps.append(m)
    if rng.random() < 0.5:
        keep = rng.sample(range(len(ops)), rng.randint(1, min(len(ops), 12)))
        ops, maps = [ops[k] for k in keep], [maps[k] for k in keep]
    pool = [a, a, b] if rng.random() < 0.5 else [a, b, c]
    for _ in range(3):
        A = [rng.choice(pool) for _ in P]
        B = list(A)
        x = rng.random()
        if x < 0.6:
            m = rng.choice(maps)
            A = [None] * n
            for j in range(n):
                A[m[j]] = B[j]
        if x > 0.4 and n > 1:
            j, k = rng.sample(range(n), 2)
            B[j], B[k] = B[k], B[j]
        want = any(all(A[m[j]] == B[j] for j in range(n)) for m in maps)
        got = is_stru_equal(grid(A), grid(B), ops)
        ctx.note['input'] = {'lattice': name, 'size': size, 'A': A, 'B': B, 'operations': len(ops)}
        ctx.check(bool(got) == want, 'two grids are said to be %sequal' % ('' if got else 'un'), rotations=[o[0] for o in ops][:4])
        ctx.obs('grids_equal' if want else 'grids_unequal')


def big_equality(ctx, rng, name, lat):
    """The same on grids of more than a thousand sites: inversion and translations of the grid."""
    size = list(rng.choice([(5, 14, 15), (8, 9, 14), (10, 10, 11), (1, 32, 33), (3, 12, 30), (2, 2, 260)]))
    rng.shuffle(size)
    n = size[0] * size[1] * size[2]
    P = list(product(*map(range, size)))
    where = {p: k for k, p in enumerate(P)}
    a, b, c = rng.sample(ZS, 3)

    def grid(cfg):
        sp = {z: ab.specie(z) for z in (a, b, c)}
        return CStru(lat, SitesGrid([[[sp[cfg[(x * size[1] + y) * size[2] + z]] for z in range(size[2])]
                                      for y in range(size[1])] for x in range(size[0])]))
    ops, maps = [], []
    for _ in range(rng.randint(1, 3)):
        e = rng.choice([1, -1])
        t = [rng.randrange(m) for m in size]
        ops.append((np.array([[e, 0, 0], [0, e, 0], [0, 0, e]]), np.array([t[u] / float(size[u]) for u in range(3)])))
        maps.append([where[tuple((e * p[u] + t[u]) % size[u] for u in range(3))] for p in P])
    B = [a] * n
    for j in rng.sample(range(n), rng.choice([1, 2, 3, 20])):
        B[j] = rng.choice([b, c])
    m = rng.choice(maps)
    A = [None] * n
    for j in range(n):
        A[m[j]] = B[j]
    if rng.random() < 0.6:
        j = rng.choice([j for j in range(n) if B[j] != a])
        k = rng.choice([k for k in range(n) if B[k] != B[j]])
        B[j], B[k] = B[k], B[j]
    want = any(all(A[m[j]] == B[j] for j in range(n)) for m in maps)
    got = is_stru_equal(grid(A), grid(B), ops)
    ctx.note['input'] = {'lattice': name, 'size': size, 'A': [(P[j], z) for j, z in enumerate(A) if z != a],
                         'B': [(P[j], z) for j, z in enumerate(B) if z != a], 'operations': [(int(r[0][0]), list(t)) for r, t in ops]}
    ctx.check(bool(got) == want, 'two grids are said to be %sequal' % ('' if got else 'un'))
    ctx.obs('large_grids_equal' if want else 'large_grids_unequal')


def contact(ctx, rng, name, lat):
    named = lat
    for _ in range(8):
        lat = named
        if rng.random() < 0.4:
            # the contact test takes any lattice: neighbours near the contact distance, or a free shape
            if rng.random() < 0.6:
                s = rng.choice([1.005, 1.0095, 1.0105, 1.015, 1.02, 1.05, 0.99, 0.5, 0.75, 2.0, 0.7142, 0.715])
                lat = [[x * s for x in v] for v in named]
            else:
                lat = [[rng.uniform(-0.6, 0.6) + (rng.uniform(0.4, 1.5) if p == q else 0) for p in range(3)] for q in range(3)]
                if abs(det3(lat)) < 0.2:
                    continue
        size = tuple(rng.randint(1, 6) for _ in range(3))
        if rng.random() < 0.1:
            size = (rng.randint(1, 3), rng.randint(1, 3), rng.randint(7, 12))
        P = list(product(*map(range, size)))
        ns = rng.choice([0, 1, 2, 2, 3, 4, rng.randint(0, len(P))])
        # start from far apart speckles so that both verdicts occur
        a, b = rng.sample(ZS, 2)
        sp = rng.sample(P, min(ns, len(P)))
        if len(sp) > 1 and rng.random() < 0.3:
            sp = [sp[0]]
            for k in range(3):
                if rng.random() < 0.7 and size[k] > 2:
                    q = list(sp[0])
                    q[k] = (q[k] + 2) % size[k]
                    sp.append(tuple(q))
            sp = sorted(set(sp))
        arr = np.zeros(size, dtype=int) + a
        for p in sp:
            arr[p] = b
        ctx.note['contact'] = {'size': size, 'speckles': sp, 'sea': a, 'speckle': b}
        basis = [[x * size[k] for x in lat[k]] for k in range(3)]
        rb = reduced_basis(basis)
        dmin = 9e9
        if sp:
            dmin = min(norm(r) for r in rb)
        inside = 9e9
        for p, q in combinations(sp, 2):
            f = [(p[k] - q[k]) / float(size[k]) for k in range(3)]
            dmin = min(dmin, min_image(f, basis, rb))
            inside = min(inside, norm([sum((p[k] - q[k]) * lat[k][c] for k in range(3)) for c in range(3)]))
        pool = [q for p in sp for q in product(*[[x] if x else [0, size[k]] for k, x in enumerate(p)])]
        layer = 9e9
        for p, q in combinations(pool, 2):
            layer = min(layer, norm([sum((p[k] - q[k]) * lat[k][c] for k in range(3)) for c in range(3)]))
        # judged only where the repeated boundary layer and full periodicity agree
        if abs(dmin - 1.01) < 1e-6 or lat is not named and (layer > 1.01) != (dmin > 1.01):
            ctx.obs('left_unjudged')
            continue
        want = dmin > 1.01
        ctx.obs('near_threshold', 0.99 < dmin < 1.03 and abs(dmin - 1) > 1e-6)
        s = CStru(lat, SitesGrid.from_array(arr))
        got = is_speckle_disjunct(s, ab.specie(b))
        ctx.check(bool(got) == want, 'speckles %.4f apart, called %s' % (dmin, 'disjunct' if got else 'in contact'), lattice=lat)
        ctx.obs('disjunct_true' if want else 'disjunct_false')
        if not want and inside > 1.01:
            ctx.obs('contact_through_boundary')
