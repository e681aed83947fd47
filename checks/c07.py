"""Superlattice enumeration: one Hermite form per symmetry class, nothing lost."""
from vlib import ab, gen
from vlib.exact import hnf_rows, sublattice_classes, all_hnfs, det3, mat_mul, transpose

ID = 'C07'
QUICK, THOROUGH = 480, 8000
NEED = ['enumerations_3d', 'enumerations_2d', 'classes_matched', 'equal_pairs', 'unequal_pairs',
        'different_volume_pairs', 'raw_lists', 'large_raw_lists',
        'after_reassignment', 'reassigned_other_group']
RULE = ('a case is a random unit cell (all lattice families, decorated so that the point group varies) and a '
        'volume factor; the returned Hermite forms are compared with the exact orbits of all sublattices under '
        'the exact point group; non-trivial: fewer classes than sublattices; distinct by (metric, sites, '
        'species, factor)')
ASSUMPTIONS = ['unambiguous symmetry of the unit cell', 'volume factor at most 9 in three dimensions and 24 in the plane, 16 and 90 for the unfiltered listings']


def setup():
    global np, SuperLatticeCell, SuperLatticeGenerator, SuperLatticeGenerator2D
    import numpy as np
    from ababe.stru.grid import SuperLatticeCell, SuperLatticeGenerator, SuperLatticeGenerator2D


def plane_hnfs(n):
    return [((a, b, 0), (0, n // a, 0), (0, 0, 1)) for a in range(1, n + 1) if n % a == 0 for b in range(n // a)]


def case(ctx, i):
    rng = ctx.rng
    x = rng.random()
    if x < 0.5:
        kind = lambda r, n: gen.proto(r)
    elif x < 0.75:
        kind = lambda r, n: gen.crystal_orbits(r, n)
    else:
        kind = gen.crystal_decorated
    cr, d = ab.pick(ctx, 5, kind=kind, noise=rng.choice([0, 1e-6]))
    if rng.random() < 0.3:
        U = gen.random_unimodular(rng, 1)
        cr2 = cr.change_basis(U)
        d2 = gen.describe(cr2, rng)
        if gen.unambiguous(cr2, d2.basis, d2.frac, d2.order, ab.LO, ab.HI):
            cr, d = cr2, d2
            ctx.note['input'] = d.as_dict()
    cell = ab.gcell(d)
    rots = cr.rotations()
    twod = rng.random() < 0.45
    if twod:
        n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9] if ctx.tier == 'quick' else range(1, 15))
        if rng.random() < 0.08:
            n = rng.choice([10, 12, 13, 15, 16, 18, 20, 24])
        G = SuperLatticeGenerator2D
    else:
        top = 4 if len(rots) > 16 else 6
        n = rng.choice(range(1, top + 1))
        if rng.random() < 0.06:
            n = rng.choice([6, 7, 8, 8, 9])
        if ctx.tier == 'thorough' and rng.random() < 0.1:
            n = rng.choice([8, 9, 10])
        G = SuperLatticeGenerator
    if rng.random() < 0.12:
        # the unfiltered listing for larger volumes
        big = rng.randint(10, 90) if twod else rng.choice([9, 10, 11, 12, 13, 14, 15, 16])
        want = [h for h in all_hnfs(big)] if not twod else plane_hnfs(big)
        raw = ab.drain(ctx, G.hnfs_from_n_dups(cell, big), len(want), 'list of all superlattices')
        ctx.check(sorted(hnf_rows(s.lat_coeff.tolist()) for s in raw) == sorted(hnf_rows(h) for h in want),
                  'the list of all superlattices of volume %d is not every sublattice once' % big)
        ctx.obs('large_raw_lists')
        ctx.peak('raw_factor', big)
    cls, k, subs = sublattice_classes(n, rots, twod)
    raw = ab.drain(ctx, G.hnfs_from_n_dups(cell, n), len(subs), 'list of all superlattices')
    got = [hnf_rows(s.lat_coeff.tolist()) for s in raw]
    ctx.check(sorted(got) == sorted(subs), 'the list of all superlattices of volume %d is not every sublattice once' % n)
    ctx.obs('raw_lists')
    res = ab.drain(ctx, G.hnfs_from_n(cell, n), len(subs), 'superlattice enumeration')
    seen = {}
    for s in res:
        H = s.lat_coeff.tolist()
        if det3(H) != n:
            ctx.fail('a superlattice of another volume', got=H, n=n)
        c = cls.get(hnf_rows(H))
        if c is None or hnf_rows(H) not in subs:
            ctx.fail('not one of the sublattices asked for', got=H)
        if c in seen:
            ctx.fail('two symmetry-equivalent superlattices', a=seen[c], b=H)
        seen[c] = H
    ctx.check(len(seen) == k, 'superlattice enumeration missed %d of %d classes (factor %d)' % (k - len(seen), k, n),
              found=sorted(seen.values()))
    ctx.obs('classes_matched', k)
    ctx.obs('enumerations_2d' if twod else 'enumerations_3d')
    ctx.peak('factor', n)
    if k < len(subs):
        ctx.sig(cr.g, cr.pos, cr.nums, n, twod)
        ctx.sample({'input': ctx.note['input'], 'factor': n, '2d': twod, 'sublattices': len(subs), 'classes': k})
    # another occupation assigned to the same unit cell
    if n <= 4 and cr.n > 1 and rng.random() < 0.4:
        a = [rng.choice(sorted(set(cr.nums)) + [88]) for _ in cr.nums]
        c2 = cr.with_nums(a)
        if gen.unambiguous(c2, d.basis, d.frac, d.order, ab.LO, ab.HI):
            m = ab.site_map(cell.positions, ab.exact_order(d))
            old = cell.numbers
            cell.numbers = np.array([a[j] for j in m])
            cls2, k2, subs2 = sublattice_classes(n, c2.rotations(), twod)
            got = [hnf_rows(s.lat_coeff.tolist()) for s in G.hnfs_from_n(cell, n)]
            ctx.check(len(got) == k2 and set(cls2[h] for h in got) == set(cls2[h] for h in subs2),
                      'after assigning another occupation %d superlattices, %d classes exist' % (len(got), k2), numbers=a)
            cell.numbers = old
            ctx.obs('after_reassignment')
            ctx.obs('reassigned_other_group', int(k2 != k))
    # the equality relation itself, also between different volumes
    pool = [(h, n) for h in rng.sample(subs, min(4, len(subs)))]
    n2 = rng.choice([x for x in (1, 2, 3, 4, 2 * n) if x != n])
    if n2 <= 12:
        pool += [(h, n2) for h in (rng.sample(all_hnfs(n2), 2) if n2 > 1 else all_hnfs(1))]
    cells = [(SuperLatticeCell(cell, np.array(h)), h, m) for h, m in pool]
    WT = [transpose(W) for W in rots]
    for _ in range(5):
        a, b = rng.choice(cells), rng.choice(cells)
        w = a[2] == b[2] and b[1] in set(hnf_rows(mat_mul(a[1], t)) for t in WT)
        ctx.check(bool(a[0] == b[0]) == w, 'superlattices compare %s' % ('unequal' if w else 'equal'), a=a[1], b=b[1])
        ctx.obs('equal_pairs' if w else 'unequal_pairs')
        if a[2] != b[2]:
            ctx.obs('different_volume_pairs')
