"""A cell keeps what it was given, in an order that does not depend on the listing."""
import json
import os
from collections import Counter

import vlib
from vlib import ab, gen

ID = 'C05'
QUICK, THOROUGH = 1500, 40000
NEED = ['listings_compared', 'ids_compared', 'assignments', 'element_selections', 'ghost_cells', 'colliding_ids', 'integer_types', 'many_sites', 'in_place', 'permuted_assignments']
RULE = ('a case is a crystal or a generic set of sites listed in two orders with coordinates moved by '
        'whole cells; non-trivial: at least 3 sites and 2 species; distinct by (sites, species)')
ASSUMPTIONS = ['for the order claim: sites whose coordinates differ by more than 0.002 or are equal, and that '
               'do not sit on a rounding boundary of the third decimal']
SYM = None


def setup():
    global np, GeneralCell, Specie, COLLIDE, SYM
    import numpy as np
    from ababe.stru.scaffold import GeneralCell
    from ababe.stru.element import Specie
    import vlib.exact
    COLLIDE = json.load(open(os.path.join(os.path.dirname(vlib.__file__), 'collide.json')))
    SYM = {0: 'G', 1: 'H', 3: 'Li', 5: 'B', 6: 'C', 7: 'N', 8: 'O', 12: 'Mg', 13: 'Al', 14: 'Si', 16: 'S',
           22: 'Ti', 26: 'Fe', 28: 'Ni', 29: 'Cu', 30: 'Zn', 31: 'Ga', 33: 'As', 47: 'Ag', 50: 'Sn',
           55: 'Cs', 79: 'Au', 82: 'Pb'}


def safe(v):
    """v*1000 away from a half-integer and v away from 0/1 seams"""
    return abs((v * 1000) % 1 - 0.5) > 0.05


def case(ctx, i):
    rng = ctx.rng
    if rng.random() < 0.5:
        cr = gen.crystal_any(rng, rng.choice([1, 3, 8, 16, 32]))
        d = gen.describe(cr, rng, wrap=0.0)
        lat, frac, nums = d.basis, d.frac, list(d.nums)
    else:
        n = rng.randint(1, 30)
        q = rng.choice([10, 40, 200, 997])
        pts = set(tuple(rng.randrange(q) for _ in range(3)) for _ in range(n))
        frac = [[x / float(q) for x in p] for p in sorted(pts)]
        sp = rng.sample(sorted(SYM), rng.randint(1, 5))
        nums = [rng.choice(sp) for _ in frac]
        lat = [[rng.uniform(-1, 1) for _ in range(3)] for _ in range(3)]
        for k in range(3):
            lat[k][k] += 5
    n = len(frac)
    if rng.random() < 0.2:
        nums[rng.randrange(n)] = 0
    if 0 in nums:
        ctx.obs('ghost_cells')
    ctx.note['input'] = {'lattice': lat, 'positions': frac, 'numbers': nums}
    L, P, N = np.array(lat), np.array(frac), np.array(nums)
    c = GeneralCell(L, P, N)
    basic(ctx, c, L, P, N)
    if n >= 3 and len(set(nums)) >= 2:
        ctx.sig(frac, nums)
        ctx.sample(ctx.note['input'])
    # the same sites listed differently
    order = list(range(n))
    rng.shuffle(order)
    P2 = np.array([[x + (rng.choice([0, 0, 1, -1, 2]) if rng.random() < 0.8 else rng.choice(gen.FAR)) for x in frac[k]] for k in order])
    N2 = np.array([nums[k] for k in order])
    c2 = GeneralCell(L, P2, N2)
    basic(ctx, c2, L, P2, N2)
    ok = all(safe(x % 1) for f in frac for x in f)
    if ok:
        for k in range(3):
            xs = sorted(set(f[k] % 1 for f in frac))
            if any(b - a < 2e-3 for a, b in zip(xs, xs[1:])) or (xs and xs[-1] > 1 - 2e-3):
                ok = False
    if ok:
        a = c.positions - c2.positions
        same = np.allclose(a, np.rint(a), atol=1e-6) and c.numbers.tolist() == c2.numbers.tolist()
        ctx.check(same, 'site order depends on the order of the input', a=c.positions, b=c2.positions)
        ctx.check(c.id == c2.id, 'identifier depends on the order of the input')
        ctx.obs('listings_compared')
        # a single swapped pair changes the identifier, any other occupation too
        for _ in range(3):
            M = list(nums)
            if rng.random() < 0.5 and n > 1:
                x, y = rng.sample(range(n), 2)
                M[x], M[y] = M[y], M[x]
            else:
                M[rng.randrange(n)] = rng.choice(sorted(SYM))
            c3 = GeneralCell(L, P, np.array(M))
            ctx.check((c3.id == c.id) == (M == nums),
                      'identifier %s for %s occupations' % (('equal', 'different') if c3.id == c.id
                                                            else ('differs', 'equal')), a=nums, b=M)
            ctx.obs('ids_compared')
    many_ids(ctx, rng, L, P, nums)
    if i % 50 == 17:
        nb = rng.randint(60, 260)
        pts = np.array([[k / 300.0, rng.random(), rng.random()] for k in range(nb)])
        big = [rng.choice([6, 6, 6, 6, 6, 5, 31]) for _ in range(nb)]
        many_ids(ctx, rng, L, pts, big)
        big = GeneralCell(L, pts, np.array(big))
        basic(ctx, big, L, pts, big.numbers.copy())
        scalars(ctx, big, big.numbers.tolist())
        ctx.obs('many_sites')
    # assigning an occupation
    M = [rng.choice(sorted(SYM)) for _ in range(n)]
    before = c.positions.copy()
    c.numbers = np.array(M)
    ctx.check(c.numbers.tolist() == M, 'assigned occupation not stored')
    ctx.check(np.array_equal(c.positions, before), 'assigning an occupation moved sites')
    fresh = GeneralCell(L, before.copy(), np.array(M))
    ctx.check(fresh.positions.tolist() == before.tolist(), 'rebuilding a cell from its own sites reorders them')
    ctx.check(c.id == fresh.id and c.comment == fresh.comment, 'identifier or formula stale after assignment')
    ctx.check(c.get_spacegroup() == fresh.get_spacegroup() if n <= 8 else True,
              'space group stale after assignment')
    scalars(ctx, c, M)
    by_element(ctx, c)
    if n > 1 and rng.random() < 0.5:
        # the same species, elsewhere
        M = M[1:] + M[:1]
        c.numbers = np.array(M)
        scalars(ctx, c, M)
        by_element(ctx, c)
        ctx.check(c.id == GeneralCell(L, before.copy(), np.array(M)).id, 'identifier stale after assignment')
        ctx.obs('permuted_assignments')
    ctx.obs('assignments')
    # writing into the cell's own species array (a cell that hands out copies ignores it)
    x = rng.randrange(n)
    M[x] = rng.choice([z for z in sorted(SYM) if z != M[x]])
    c.numbers[x] = M[x]
    if c.numbers.tolist() == M:
        ctx.obs('in_place')
        fresh = GeneralCell(L, before.copy(), np.array(M))
        ctx.check(c.id == fresh.id and c.comment == fresh.comment, 'identifier or formula stale after a change in place')
        scalars(ctx, c, M)
        by_element(ctx, c)
    if i % 50 == 3:
        key = rng.choice([k for k in sorted(COLLIDE) if k.endswith('-24')])
        pts = np.array([[(k % 4) / 4.0, (k // 4 % 3) / 3.0, k // 12 / 2.0] for k in range(24)])
        for a, b in COLLIDE[key]:
            ids = []
            for s in (a, b):
                cc = GeneralCell(L, pts, np.array([6] * 24))
                x = np.array([6] * 24)
                x[s] = 5
                cc.numbers = x
                ids.append(cc.id)
            ctx.check(ids[0] != ids[1], 'two occupations share an identifier', a=a, b=b)
        ctx.obs('colliding_ids')


def many_ids(ctx, rng, L, P, nums):
    '''Many related occupations of the same sites: permuted, shifted, compensating, merged.'''
    n = len(nums)
    zs = sorted(SYM)
    occ = set([tuple(nums)])
    base = [rng.choice(zs) for _ in range(n)]
    for _ in range(24):
        src = list(rng.choice([nums, base, list(rng.choice(sorted(occ)))]))
        x = rng.random()
        if x < 0.15:
            rng.shuffle(src)
        elif x < 0.3:
            src = src[::-1] if rng.random() < 0.5 else src[1:] + src[:1]
        elif x < 0.75 and n > 1:
            i, j = rng.sample(range(n), 2) if rng.random() < 0.6 else (lambda k: (k, k + 1))(rng.randrange(n - 1))
            q = rng.choice([1, 2, 4, 8, 10, 16, 32, 64, 64])
            src[i] += q
            src[j] -= q
        elif x < 0.9:
            src[rng.randrange(n)] += rng.choice([-64, -32, -16, -10, -1, 1, 10, 16, 32, 64])
        else:
            src[rng.randrange(n)] = 0
        if all(s in SYM for s in src):
            occ.add(tuple(src))
    ids = {}
    cell = GeneralCell(L, P, np.array(nums))
    for o in sorted(occ):
        cell.numbers = np.array(o)
        k = cell.id
        ctx.check(k not in ids, 'two occupations share an identifier', a=ids.get(k), b=o)
        ids[k] = o
        ctx.obs('ids_compared')
    for dt in (np.int32, np.int16, np.int8, np.uint8):
        cell.numbers = np.array(o, dtype=dt)
        ctx.check(cell.id == k, 'identifier depends on the integer type of the species array', type=str(dt))
        ctx.obs('integer_types')
    wide = np.zeros((n, 2), dtype=int)
    wide[:, 0] = o
    cell.numbers = wide[:, 0]
    ctx.check(cell.id == k, 'identifier depends on the memory layout of the species array')


def basic(ctx, c, L, P, N):
    n = len(N)
    ctx.check(np.array_equal(np.array(c.lattice), L), 'lattice changed')
    have = sorted((tuple(p), int(s)) for p, s in zip(c.positions.tolist(), c.numbers.tolist()))
    want = sorted((tuple(p), int(s)) for p, s in zip(P.tolist(), N.tolist()))
    if len(have) == len(want) and have != want:
        # a cell may store coordinates reduced into [0, 1)
        red = lambda l: sorted((tuple(round(x % 1, 9) % 1 for x in p), s) for p, s in l)
        have, want = red(have), red(want)
    ctx.check(have == want, 'sites and species are not those given', got=have, want=want)
    scalars(ctx, c, [int(x) for x in N])
    spg = c.spg_cell
    ctx.check(np.array_equal(spg[0], c.lattice) and np.array_equal(spg[1], c.positions)
              and np.array_equal(spg[2], c.numbers), 'the cell handed to symmetry analysis differs from the cell')
    lat = np.array(c.lattice)
    cart = np.array(c.get_cartesian())
    want = [[sum(p[k] * lat[k][j] for k in range(3)) for j in range(3)] for p in c.positions.tolist()]
    ctx.check(cart.shape == (n, 3) and np.allclose(cart, want, atol=1e-9), 'cartesian coordinates are wrong')
    by_element(ctx, c, want)


def by_element(ctx, c, want=None):
    n = len(c.numbers)
    if want is None:
        lat = np.array(c.lattice).tolist()
        want = [[sum(p[k] * lat[k][j] for k in range(3)) for j in range(3)] for p in c.positions.tolist()]
    for z in sorted(set(c.numbers.tolist())):
        sel = np.array(c.get_cartesian(ab.specie(z)))
        w = [want[k] for k in range(n) if c.numbers[k] == z]
        ctx.check(sel.shape == (len(w), 3) and np.allclose(sel, w, atol=1e-9),
                  'cartesian coordinates of one element are wrong', z=z)
        ctx.obs('element_selections')


def scalars(ctx, c, nums):
    cnt = Counter(nums)
    ctx.check(c.num_count == len(nums), 'atom count %s for %d sites' % (c.num_count, len(nums)))
    for z in list(cnt) + [88]:
        ctx.check(c.get_speckle_num(ab.specie(z)) == cnt.get(z, 0), 'wrong count of an element',
                  z=z, got=c.get_speckle_num(ab.specie(z)), want=cnt.get(z, 0))
    want = ''.join('%s%d' % (SYM[z], cnt[z]) for z in sorted(cnt) if z != 0)
    ctx.check(c.comment == want, 'formula %r instead of %r' % (c.comment, want))
