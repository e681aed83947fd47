"""Minimum-distance restriction is exact under periodic boundary conditions."""
from vlib import ab, gen
from vlib.exact import min_image, reduced_basis, norm

ID = 'C09'
QUICK, THOROUGH = 6000, 40000
NEED = ['satisfied', 'violated', 'just_below', 'just_above', 'skewed_cells', 'no_target', 'single_target',
        'self_image_decides', 'radius_beyond_cell', 'exactly_at_the_limit', 'one_restriction_many_cells',
        'after_reassignment', 'many_sites']
RULE = ('a case is a random cell (compact, elongated or strongly skewed), an element of it and radii drawn at '
        'random, just below and just above the exact shortest distance between atoms of the element, images '
        'included; non-trivial: at least one atom of the element; distinct by (lattice, sites, species, radius); one case in twelve keeps one restriction object '
        'over several structures whose species are reassigned in between')
ASSUMPTIONS = ['radii closer than 2e-7 (relative) to the exact shortest distance are not judged, unless exact in binary floating point']


def setup():
    global np, MinDistanceRestriction, GeneralCell
    import numpy as np
    from ababe.stru.restriction import MinDistanceRestriction
    from ababe.stru.scaffold import GeneralCell


def make(ctx, rng):
    """lattice rows, fractional sites, numbers"""
    if rng.random() < 0.5:
        cr = gen.crystal_any(rng, rng.choice([1, 2, 6, 12]))
        s = rng.choice([0, 0, 1, 2, 3, 4])
        if s:
            cr = cr.change_basis(gen.random_unimodular(rng, s))
        if s >= 2:
            ctx.obs('skewed_cells')
        d = gen.describe(cr, rng, wrap=0.3)
        return d.basis, d.frac, d.nums
    b = [[rng.uniform(-0.6, 0.6) for _ in range(3)] for _ in range(3)]
    for k in range(3):
        b[k][k] += rng.choice([1.5, 3, 3, 6, 15])
    if rng.random() < 0.4:
        U = gen.random_unimodular(rng, rng.choice([2, 3, 4]))
        b = [[sum(U[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
        ctx.obs('skewed_cells')
    n = rng.randint(1, 10)
    if rng.random() < 0.03:
        n = rng.randint(20, 60)
        ctx.obs('many_sites')
    frac = [[rng.uniform(-0.5, 1.5) for _ in range(3)] for _ in range(n)]
    return b, frac, [rng.choice([5, 6, 6, 29, 0]) for _ in range(n)]


def touching(ctx, rng):
    '''Distances that binary floating point represents exactly: a pair at exactly
    the limit is not further apart than it.'''
    a = [float(rng.choice([2, 4, 8])) for _ in range(3)]
    ax = rng.randrange(3)
    den = rng.choice([2, 4, 8])
    p = [rng.randrange(8) / 8.0 for _ in range(3)]
    q = list(p)
    q[ax] = p[ax] + rng.choice([-1, 1]) * rng.randint(1, den // 2) / float(den)
    single = rng.random() < 0.3
    frac, nums = ([p], [6]) if single else ([p, q], [6, 6])
    r = min(a) if single else min(min(a), abs(q[ax] - p[ax]) * a[ax])
    lat = [[a[k] if k == j else 0.0 for j in range(3)] for k in range(3)]
    ctx.note['input'] = {'lattice': lat, 'positions': frac, 'numbers': nums}
    cell = GeneralCell(np.array(lat), np.array(frac), np.array(nums))
    for rad, want in ((r, False), (r + 2.0 ** -30, False), (r - 2.0 ** -30, True)):
        got = MinDistanceRestriction((ab.specie(6), rad)).is_satisfied(cell)
        ctx.check(bool(got) == want, 'minimum distance exactly %r, asked for more than %r, answer %s' % (r, rad, got))
    ctx.obs('exactly_at_the_limit')


def shortest(b, frac, nums, z):
    """Exact shortest distance between atoms of z, images included; None without any."""
    rb = reduced_basis(b)
    t = [k for k in range(len(nums)) if nums[k] == z]
    if not t:
        return None
    best = min_image([0, 0, 0], b, rb, skip_zero=True)
    for x in range(len(t)):
        for y in range(x):
            best = min(best, min_image([p - q for p, q in zip(frac[t[x]], frac[t[y]])], b, rb))
    return best


def reused(ctx, rng):
    """One restriction object, several structures, some of them changed and asked again."""
    z = rng.choice([5, 6, 29])
    stock = []
    for _ in range(rng.randint(2, 4)):
        b, frac, nums = make(ctx, rng)
        if len(nums) > 20:
            continue
        nums = [rng.choice([z, z, 14, 0]) for _ in nums]
        stock.append([b, frac, nums])
    if not stock:
        return
    known = [d for d in (shortest(*s, z=z) for s in stock) if d]
    r = rng.choice(known) * rng.choice([0.999, 1.001]) if known else 2.0
    ctx.note['input'] = [{'lattice': b, 'positions': f, 'numbers': n} for b, f, n in stock]
    ctx.note['restriction'] = {'element': z, 'radius': r}
    rst = MinDistanceRestriction((ab.specie(z), r))
    cells = [GeneralCell(np.array(b), np.array(f), np.array(n)) for b, f, n in stock]
    # a cell lists its sites in its own order; species are assigned in that order
    stock = [[s[0], c.positions.tolist(), [int(z) for z in c.numbers]] for s, c in zip(stock, cells)]
    for _ in range(rng.randint(3, 8)):
        k = rng.randrange(len(stock))
        if rng.random() < 0.5:
            stock[k][2] = rng.sample(stock[k][2], len(stock[k][2])) if rng.random() < 0.6 else \
                [rng.choice([z, 14]) for _ in stock[k][2]]
            cells[k].numbers = np.array(stock[k][2])
            ctx.obs('after_reassignment')
        d = shortest(*stock[k], z=z)
        if d is not None and abs(d - r) < 2e-7 * d:
            continue
        want = d is None or d > r
        got = rst.is_satisfied(cells[k])
        ctx.check(bool(got) == want, 'a restriction used on several structures: shortest distance %r, limit %r, answer %s'
                  % (d, r, got), numbers=stock[k][2], which=k)
        ctx.obs('one_restriction_many_cells')
        ctx.sig(stock[k], z, r)


def case(ctx, i):
    rng = ctx.rng
    if i % 50 == 3:
        return touching(ctx, rng)
    if i % 12 == 7:
        return reused(ctx, rng)
    b, frac, nums = make(ctx, rng)
    n = len(nums)
    ctx.note['input'] = {'lattice': b, 'positions': frac, 'numbers': nums}
    cell = GeneralCell(np.array(b), np.array(frac), np.array(nums))
    rb = reduced_basis(b)
    z = rng.choice(nums) if rng.random() < 0.95 else 88
    t = [k for k in range(n) if nums[k] == z]
    if not t:
        r = rng.uniform(0, 5)
        ctx.check(MinDistanceRestriction((ab.specie(z), r)).is_satisfied(cell) == True,   # noqa
                  'a restriction on an element the cell lacks is not satisfied', r=r)
        ctx.obs('no_target')
        return
    own = min_image([0, 0, 0], b, rb, skip_zero=True)
    pair = None
    for x in range(len(t)):
        for y in range(x):
            m = min_image([p - q for p, q in zip(frac[t[x]], frac[t[y]])], b, rb)
            pair = m if pair is None or m < pair else pair
    if pair is None:
        ctx.obs('single_target')
    dmin = own if pair is None else min(own, pair)
    if pair is None or own < pair:
        ctx.obs('self_image_decides')
    radii = [('just_below', dmin * (1 - rng.choice([1e-6, 1e-4, 1e-2]))),
             ('just_above', dmin * (1 + rng.choice([1e-6, 1e-4, 1e-2]))),
             ('random', rng.uniform(0, 2 * dmin)), ('random', rng.uniform(0, 8))]
    if rng.random() < 0.2:
        radii.append(('random', rng.uniform(5, 14)))
    for name, r in radii:
        if abs(r - dmin) < 2e-7 * dmin:
            continue
        want = dmin > r
        got = MinDistanceRestriction((ab.specie(z), r)).is_satisfied(cell)
        ctx.check(bool(got) == want, 'minimum distance %.8g, asked for more than %.8g, answer %s' % (dmin, r, got),
                  element=z, radius=r, exact=dmin)
        ctx.obs(name)
        ctx.obs('satisfied' if want else 'violated')
        if r > max(norm(x) for x in rb):
            ctx.obs('radius_beyond_cell')
        ctx.sig(b, frac, nums, z, r)
    ctx.sample({'input': ctx.note['input'], 'element': z, 'shortest': dmin})
