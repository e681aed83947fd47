"""Site grids behave as independent arrays; grid, array and cell forms agree."""
from math import factorial
from itertools import product

from vlib import gen, ab

ID = 'C16'
QUICK, THOROUGH = 1600, 30000
NEED = ['grid_writes', 'deep_copies', 'array_round_trips', 'sea', 'random_fill', 'speckle_grids', 'cells', 'gcells', 'grids_2d',
        'equal_verdicts', 'unequal_verdicts', 'copies_diverged', 'speckle_strus', 'large_grids']
RULE = ('a case is a random sequence of operations on a pool of site grids (create, copy, write, convert, compare) '
        'mirrored by plain dictionaries, followed by conversions to cells; non-trivial: a copy was written after '
        'copying; distinct by (shape, operation trace)')
ASSUMPTIONS = ['grids of at most 4x4x4 sites, one in forty up to 9x9x9; whole-grid speckle enumerations of at most 500 members']
ZS = [0, 1, 5, 6, 13, 29, 31, 55, 82]


def setup():
    global np, SitesGrid, CStru, SitesGrid2d, CStru2d, GeneralCell
    import numpy as np
    from ababe.stru.scaffold import SitesGrid, CStru, GeneralCell
    from ababe.stru.scaffold2d import SitesGrid2d, CStru2d


def same(ctx, g, model, shape, what):
    ctx.check((g.depth, g.width, g.length) == shape, '%s: size %s instead of %s' % (what, (g.depth, g.width, g.length), shape))
    for p in product(*map(range, shape)):
        if g[p].Z != model[p]:
            ctx.fail('%s: site %s holds %s instead of %s' % (what, p, g[p].Z, model[p]))
    arr = np.array(g.to_array())
    ctx.check(arr.shape == shape and all(arr[p] == model[p] for p in model), '%s: array form differs' % what,
              got=arr, want=sorted(model.items()))


def trace(ctx, rng, shape):
    P = list(product(*map(range, shape)))
    pool, ops = [], []
    diverged = False
    copied = set()
    for step in range(rng.randint(5, 25)):
        op = rng.choice(['sea', 'array', 'fill', 'copy', 'copy', 'set', 'set', 'set', 'set', 'eq', 'back'])
        if not pool and op not in ('sea', 'array', 'fill'):
            op = rng.choice(['sea', 'array'])
        ops.append(op)
        if op == 'sea':
            z = rng.choice(ZS)
            if z == 0 and rng.random() < 0.5:
                g = SitesGrid.sea(*shape)
            else:
                g = SitesGrid.sea(shape[0], shape[1], shape[2], ab.specie(z))
            pool.append([g, {p: z for p in P}])
            ctx.obs('sea')
        elif op == 'array':
            m = {p: rng.choice(ZS) for p in P}
            arr = np.array([m[p] for p in P]).reshape(shape)
            keep = arr.copy()
            g = SitesGrid.from_array(arr)
            pool.append([g, m])
            ctx.check((arr == keep).all(), 'from_array changed its argument')
            arr[...] = 79                       # the grid has its own storage
            ctx.obs('array_round_trips')
        elif op == 'fill':
            a, b = rng.sample(ZS, 2)
            np.random.seed(rng.randrange(2 ** 31))
            g = SitesGrid.random_fill(ab.specie(a), shape, ab.specie(b))
            m = {p: g[p].Z for p in P}
            if not set(m.values()) <= {a, b}:
                ctx.fail('random_fill(%d, %d) placed %s' % (a, b, sorted(set(m.values()))))
            pool.append([g, m])
            ctx.obs('random_fill')
        elif op == 'copy':
            k = rng.randrange(len(pool))
            g, m = pool[k]
            pool.append([g.deepCopy(), dict(m)])
            copied.update([k, len(pool) - 1])
            ctx.obs('deep_copies')
        elif op == 'set':
            k = rng.randrange(len(pool))
            g, m = pool[k]
            p = rng.choice(P)
            z = rng.choice(ZS)
            g[p] = ab.specie(z)
            m[p] = z
            ctx.obs('grid_writes')
            if k in copied:
                diverged = True
                ctx.obs('copies_diverged')
        elif op == 'back':
            k = rng.randrange(len(pool))
            g, m = pool[k]
            h = SitesGrid.from_array(g.to_array())
            ctx.check(h == g and g == h, 'a grid differs from its own array form read back')
            pool.append([h, dict(m)])
        else:
            a, b = rng.choice(pool), rng.choice(pool)
            got = (a[0] == b[0])
            ctx.check(bool(got) == (a[1] == b[1]), 'grid equality says %s' % got, a=sorted(a[1].items()), b=sorted(b[1].items()))
            ctx.obs('equal_verdicts' if got else 'unequal_verdicts')
            ctx.check(not (a[0] == None), 'a grid equals None')       # noqa: E711
        ctx.note['ops'] = ops
        if len(pool) > 6:
            pool.pop(0)
            copied = set(k - 1 for k in copied if k)
        for g, m in pool:
            for p in P:
                if g[p].Z != m[p]:
                    ctx.fail('after %s: site %s of a grid holds %s instead of %s' % (ops, p, g[p].Z, m[p]))
    for g, m in pool:
        same(ctx, g, m, shape, 'at the end of %s' % ops)
    if diverged:
        ctx.sig(shape, tuple(ops), tuple(sorted(pool[-1][1].items())))
    return pool


def cells(ctx, rng, shape, g, m):
    lat = [[rng.choice([0, 0.5, rng.uniform(-0.6, 0.6)]) + (rng.uniform(2, 4) if a == b else 0) for b in range(3)] for a in range(3)]
    cs = CStru(lat, g)
    want = [[x * shape[a] for x in lat[a]] for a in range(3)]
    bas, pos, num = cs.get_cell()
    ctx.check(np.allclose(np.array(bas), np.array(want), atol=1e-9), 'cell lattice is not the grid lattice times the size',
              got=bas, want=want)
    P = list(product(*map(range, shape)))
    ctx.check(len(pos) == len(num) == len(P), 'cell has %d sites' % len(pos))
    at = {}
    for f, z in zip(np.array(pos).tolist(), np.array(num).tolist()):
        key = tuple(int(round(f[k] * shape[k])) for k in range(3))
        if any(abs(f[k] * shape[k] - key[k]) > 1e-9 for k in range(3)):
            ctx.fail('a site of the cell is off the grid', got=f)
        at[tuple(key[k] % shape[k] for k in range(3))] = z
    ctx.check(at == m, 'cell sites carry other species than the grid', got=sorted(at.items()), want=sorted(m.items()))
    idm = np.array(CStru.get_id_matrix(cs.get_cell(), *shape))
    ctx.check(idm.shape == shape and all(idm[p] == m[p] for p in P), 'id matrix differs from the grid')
    ctx.check(np.allclose(cs.get_lattice(), want, atol=1e-9) and np.allclose(cs.get_positions(), pos)
              and np.array_equal(cs.get_atoms(), num), 'lattice/positions/atoms differ from the cell')
    ctx.check(tuple(cs.get_midpoint()) == tuple(x // 2 for x in shape), 'midpoint %s of %s' % (cs.get_midpoint(), shape))
    ctx.check(np.array_equal(np.array(cs.get_array()), np.array([m[p] for p in P]).reshape(shape)), 'structure array differs')
    c2 = CStru.from_array(lat, cs.get_array())
    ctx.check(cs == c2 and not (cs == None), 'structure differs from its array form')      # noqa: E711
    if len(set(m.values())) > 0:
        h = g.deepCopy()
        p = rng.choice(P)
        h[p] = ab.specie([z for z in ZS if z != m[p]][0])
        ctx.check(not (cs == CStru(lat, h)), 'structures with different grids are equal')
        lat2 = [list(r) for r in lat]
        lat2[rng.randrange(3)][rng.randrange(3)] += 0.5
        ctx.check(not (cs == CStru(lat2, g)), 'structures with different lattices are equal')
    ctx.obs('cells')
    gc = cs.get_gcell()
    at = {}
    for f, z in zip(gc.positions.tolist(), gc.numbers.tolist()):
        at[tuple(int(round(f[k] * shape[k])) % shape[k] for k in range(3))] = z
    ctx.check(at == m and np.allclose(gc.lattice, want, atol=1e-9), 'general cell differs from the grid')
    ctx.obs('gcells')


def speckles(ctx, rng):
    while True:
        shape = tuple(rng.randint(1, 3) for _ in range(3))
        n = shape[0] * shape[1] * shape[2]
        k = rng.randint(0, n)
        c = factorial(n) // factorial(k) // factorial(n - k)
        if c <= 500:
            break
    a, b = rng.sample(ZS, 2)
    ctx.note['speckle'] = [shape, k, a, b]
    lat = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    as_stru = rng.random() < 0.5
    if as_stru:
        it = CStru.gen_speckle(lat, ab.specie(a), shape, ab.specie(b), k)
    else:
        it = SitesGrid.gen_speckle(ab.specie(a), shape, ab.specie(b), k)
    seen = set()
    for g in ab.drain(ctx, it, c, 'speckle enumeration'):
        if as_stru:
            ctx.check(g.m == lat, 'speckle structure has another lattice')
            arr = g.get_array()
            ctx.obs('speckle_strus')
        else:
            arr = g.to_array()
            ctx.obs('speckle_grids')
        arr = np.array(arr)
        flat = tuple(arr.flatten().tolist())
        if arr.shape != shape or set(flat) - {a, b} or flat.count(b) != k or flat in seen:
            ctx.fail('speckle enumeration: wrong or repeated member', got=arr)
        seen.add(flat)
    ctx.check(len(seen) == c, 'speckle enumeration gave %d of %d' % (len(seen), c))


def twod(ctx, rng):
    shape = (rng.randint(1, 5), rng.randint(1, 5))
    P = list(product(*map(range, shape)))
    m = {p: rng.choice(ZS) for p in P}
    arr = np.array([m[p] for p in P]).reshape(shape)
    g = SitesGrid2d.from_array(arr)
    h = SitesGrid2d([[ab.specie(m[(x, y)]) for y in range(shape[1])] for x in range(shape[0])])
    ctx.check((g.width, g.length) == shape and np.array_equal(np.array(g.get_array()), arr), '2d grid differs from its array')
    ctx.check(g == h and not (g == None), '2d grid differs from the same sites listed')        # noqa: E711
    p = rng.choice(P)
    arr2 = arr.copy()
    arr2[p] = [z for z in ZS if z != m[p]][0]
    ctx.check(not (g == SitesGrid2d.from_array(arr2)), 'different 2d grids are equal')
    z = rng.choice(ZS)
    s = SitesGrid2d.sea(shape[0], shape[1], ab.specie(z))
    ctx.check((s.width, s.length) == shape and (np.array(s.get_array()) == z).all(), '2d sea is not uniform')
    s0 = SitesGrid2d.sea(*shape)
    ctx.check((np.array(s0.get_array()) == 0).all(), '2d sea without a species is not empty')
    lat = [[2, 0], [1, 1.732]]
    c = CStru2d(lat, g)
    ctx.check((c.width, c.length) == shape and c.m == lat and np.array_equal(np.array(c.get_array()), arr),
              '2d structure differs from its grid')
    ctx.check(tuple(c.get_midpoint()) == (shape[0] // 2, shape[1] // 2), '2d midpoint')
    ctx.obs('grids_2d')


def case(ctx, i):
    rng = ctx.rng
    if i % 4 == 3:
        speckles(ctx, rng)
        twod(ctx, rng)
        return
    shape = tuple(rng.randint(1, 4) for _ in range(3))
    if i % 40 == 6:
        shape = tuple(rng.choice([1, 2, 5, 6, 7, 9]) for _ in range(3))
        ctx.obs('large_grids')
    pool = trace(ctx, rng, shape)
    g, m = rng.choice(pool)
    cells(ctx, rng, shape, g, m)
    ctx.sample({'shape': shape, 'ops': ctx.note['ops']})
    if i % 40 == 0:
        # every site takes both species over repeated fills
        a, b = rng.sample(ZS, 2)
        seen = {p: set() for p in product(*map(range, shape))}
        for _ in range(60):
            g = SitesGrid.random_fill(ab.specie(a), shape, ab.specie(b))
            for p in seen:
                seen[p].add(g[p].Z)
        ctx.check(all(s == {a, b} for s in seen.values()), 'random_fill never varies some sites', got=sorted(seen.items())[:5])
