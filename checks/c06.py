"""Supercells and superlattices repeat the parent crystal and nothing else."""
from vlib import ab, gen
from vlib.exact import det3, coset_reps, adj3, mat_mul

ID = 'C06'
QUICK, THOROUGH = 2400, 15000
NEED = ['supercell', 'superlattice', 'off_diagonal', 'large_off_diagonal', 'nested', 'sites_matched', 'large_determinant', 'full_triangles', 'fine_fractions']
RULE = ('a case is a random crystal or generic set of sites and an integer non-negative triangular scaling; '
        'every site of the result is matched one to one with the exact tiling; non-trivial: determinant > 1 '
        'and an off-diagonal entry; distinct by (sites, species, matrix)')
ASSUMPTIONS = ['scaling matrices are triangular with non-negative entries and positive diagonal (the form '
               'the library documents)', 'at most 12 parent sites and determinant 125']


def setup():
    global np, SuperLatticeCell, SuperLatticeGenerator
    import numpy as np
    from ababe.stru.grid import SuperLatticeCell, SuperLatticeGenerator


def matrix(rng, nmax):
    n = rng.randint(1, nmax)
    a = rng.choice([x for x in range(1, n + 1) if n % x == 0])
    c = rng.choice([x for x in range(1, n // a + 1) if (n // a) % x == 0])
    f = n // a // c
    kind = rng.random()
    if kind < 0.2:
        return [[a, 0, 0], [0, c, 0], [0, 0, f]]
    if kind < 0.8:
        return [[a, rng.randrange(c), rng.randrange(f)], [0, c, rng.randrange(f)], [0, 0, f]]
    if kind < 0.92:
        return [[a, rng.randrange(5), rng.randrange(5)], [0, c, rng.randrange(5)], [0, 0, f]]
    return [[a, 0, 0], [rng.randrange(4), c, 0], [rng.randrange(4), rng.randrange(4), f]]


def case(ctx, i):
    rng = ctx.rng
    cr = gen.crystal_any(rng, rng.choice([1, 2, 4, 8, 12]))
    d = gen.describe(cr, rng, wrap=0.3, noise=rng.choice([0, 0, 1e-6]), rotate=rng.random() < 0.7)
    ctx.note['input'] = d.as_dict()
    H = matrix(rng, 12 if cr.n <= 3 else 6)
    if rng.random() < 0.06 and cr.n <= 4:
        H = matrix(rng, 48)
        if max(map(max, H)) > 16:
            H = [[4, rng.randrange(3), rng.randrange(4)], [0, 3, rng.randrange(4)], [0, 0, 4]]
    elif rng.random() < 0.03 and cr.n <= 4:
        # every entry near the largest one: the cell reaches three times as far along an axis
        m = rng.randint(3, 5)
        q = lambda: rng.choice([m, m, m, m - 1])
        H = [[q(), rng.choice([0, 0, q()]), q()], [0, q(), q()], [0, 0, q()]]
        if rng.random() < 0.3:
            H = [r[::-1] for r in H[::-1]]
        ctx.obs('full_triangles')
    elif rng.random() < 0.04 and cr.n <= 2:
        # more than a hundred lattice points along one line
        while True:
            a, c, f = (rng.randint(3, 10) for _ in range(3))
            if 100 < a * c * f <= (300 if rng.random() < 0.7 else 900):
                break
        H = [[a, rng.choice([1, 1, 2, c - 1]), rng.choice([0, 1, f - 1])], [0, c, rng.choice([1, 1, f - 1])], [0, 0, f]]
        ctx.obs('fine_fractions')
    ctx.note['matrix'] = H
    cell = ab.gcell(d)
    parent = (np.array(cell.lattice), cell.positions.copy(), cell.numbers.copy())
    M = np.array(H)
    which = rng.choice(['supercell', 'superlattice'])
    keep = M.copy()
    if which == 'supercell':
        s = cell.supercell(M)
    else:
        s = SuperLatticeCell(cell, M).to_general_cell()
    ctx.check(np.array_equal(keep, M), 'the scaling matrix was modified')
    ctx.check(all(np.array_equal(a, b) for a, b in zip(parent, (cell.lattice, cell.positions, cell.numbers))),
              '%s: the parent was modified' % which)
    match(ctx, d.basis, d.frac, d.nums, H, s, which)
    ctx.obs(which)
    off = any(H[a][b] for a in range(3) for b in range(3) if a != b)
    if off:
        ctx.obs('off_diagonal')
        if max(H[0][1], H[0][2], H[1][2]) >= max(H[0][0], H[1][1], H[2][2]):
            ctx.obs('large_off_diagonal')
    if off and det3(H) > 1:
        ctx.sig(cr.pos, cr.nums, H)
        ctx.sample({'input': ctx.note['input'], 'matrix': H, 'atoms': int(s.numbers.size)})
    ctx.peak('determinant', det3(H))
    if det3(H) > 12:
        ctx.obs('large_determinant')
    if rng.random() < 0.25 and det3(H) * cr.n <= 24:
        H2 = matrix(rng, 3)
        s2 = s.supercell(np.array(H2))
        match(ctx, np.array(s.lattice).tolist(), s.positions.tolist(), s.numbers.tolist(), H2, s2, 'nested')
        # and the composition is one scaling of the parent
        match(ctx, d.basis, d.frac, d.nums, mat_mul(H2, H), s2, 'nested')
        ctx.obs('nested')


def match(ctx, basis, frac, nums, H, s, what):
    n = det3(H)
    A = adj3(H)
    want_lat = mat_mul(H, basis)
    ctx.check(np.allclose(np.array(s.lattice), np.array(want_lat), atol=1e-8), '%s: wrong lattice' % what,
              got=s.lattice, want=want_lat)
    ref, sp = [], []
    for p, z in zip(frac, nums):
        for r in coset_reps(H):
            x = [p[k] + r[k] for k in range(3)]
            ref.append([sum(x[k] * A[k][j] for k in range(3)) / float(n) for j in range(3)])
            sp.append(z)
    ctx.check(len(s.numbers) == len(ref), '%s: %d atoms instead of %d' % (what, len(s.numbers), len(ref)))
    m = ab.site_map(s.positions, ref, tol=1e-4)
    if m is None:
        ctx.fail('%s: the sites are not the repeated sites of the parent' % what, got=s.positions, want=ref)
    bad = [k for k, j in enumerate(m) if int(s.numbers[k]) != sp[j]]
    ctx.check(not bad, '%s: wrong species on %d sites' % (what, len(bad)))
    ctx.obs('sites_matched', len(ref))
