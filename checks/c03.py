"""Symmetry permutations are the exact crystal group; equivalence agrees with it."""
from vlib import ab, gen
from vlib.exact import mat_vec, canon, floor

ID = 'C03'
QUICK, THOROUGH = 1100, 25000
NEED = ['groups_matched', 'equivalent_pairs', 'inequivalent_pairs', 'after_reassignment',
        'rounding_boundary_sites', 'operations_checked', 'noisy_inputs', 'large_groups', 'many_sites',
        'in_place']
RULE = ('a case is a random crystal in a random description; the reported permutations, operations and '
        'pairwise equivalence verdicts are compared with the exact integer group; non-trivial: the group '
        'moves at least one site; distinct by (metric, sites, species)')
ASSUMPTIONS = ['inputs whose symmetry group is the same for every tolerance in [3e-4, 6e-3] A',
               'at most 72 sites']


def setup():
    global np, OccupyGenerator, GeneralCell
    import numpy as np
    from ababe.stru.sogen import OccupyGenerator
    from ababe.stru.scaffold import GeneralCell


def group_of(ctx, cell, d, what):
    m = ab.site_map(cell.positions, ab.exact_order(d))
    if m is None:
        ctx.fail('the cell does not sit on its own sites', got=cell.positions)
    n = len(m)
    out = set()
    perms = cell.get_symmetry_permutation()
    for p in perms:
        p = [int(x) for x in p]
        if sorted(p) != list(range(n)):
            ctx.fail('%s: not a permutation of the sites' % what, got=p)
        q = [None] * n
        for a, b in enumerate(p):
            q[m[a]] = m[b]
        out.add(tuple(q))
    ctx.obs('permutations_observed', len(perms))
    return out


def case(ctx, i):
    rng = ctx.rng
    kind = None
    if rng.random() < 0.2:
        D = rng.choice([16, 48, 80, 32, 2000, 400])
        kind = lambda r, n: gen.crystal_orbits(r, n, D=D)
    if i % 40 == 11:
        cr, d = ab.pick(ctx, 32, kind=gen.crystal_cubic)
        ctx.obs('large_groups', len(cr.ops()) > 192)
    elif i % 160 == 31:
        cr, d = ab.pick(ctx, 72, kind=gen.crystal_super, want=lambda c: c.n > 40)
        ctx.obs('many_sites', cr.n > 40)
    else:
        cr, d = ab.pick(ctx, rng.choice([2, 4, 8, 12, 16, 24, 32]), kind=kind)
    if any(1e-9 < abs(x * cr.D - round(x * cr.D)) for f in d.frac for x in f):
        ctx.obs('noisy_inputs')
    if any(abs((x * 1000) % 1 - 0.5) < 1e-4 for f in d.frac for x in f):
        ctx.obs('rounding_boundary_sites')
    cell = ab.gcell(d)
    want = set(cr.perms())
    got = group_of(ctx, cell, d, 'symmetry permutations')
    ctx.check(got == want, 'symmetry permutations: %d reported, %d exist, %d wrong, %d missing'
              % (len(got), len(want), len(got - want), len(want - got)))
    ctx.obs('groups_matched')
    ctx.peak('group_order', len(cr.ops()))
    if len(want) > 1:
        ctx.sig(cr.g, cr.pos, cr.nums)
        ctx.sample({'input': ctx.note['input'], 'permutations': len(want), 'operations': len(cr.ops())})
    # the operations themselves
    sym = cell.get_symmetry()
    ops = set()
    D = cr.D
    ref = ab.exact_order(d)
    for r, t in zip(sym['rotations'].tolist(), sym['translations'].tolist()):
        # translation on the exact grid via the image of site 0
        im = [a + b for a, b in zip(mat_vec(r, ref[0]), t)]
        hit = None
        for j, q in enumerate(ref):
            f = [x - y for x, y in zip(im, q)]
            if max(abs(x - floor(x + 0.5)) for x in f) < 2e-3:
                hit = j
        if hit is None:
            ctx.fail('a reported symmetry operation does not map the crystal onto itself', r=r, t=t)
        e = mat_vec(r, cr.pos[0])
        te = tuple((a - b) % D for a, b in zip(cr.pos[hit], e))
        ops.add((tuple(tuple(x) for x in r), te))
    wops = set((W, t) for W, t, _ in cr.ops())
    ctx.check(ops == wops, 'symmetry operations: %d reported, %d exist' % (len(ops), len(wops)))
    ctx.obs('operations_checked', len(ops))

    # equivalence of decorations
    og = OccupyGenerator(cell)
    m = ab.site_map(cell.positions, ref)
    n = cr.n
    plist = sorted(want)
    cfgs = []
    sp = rng.sample([0, 5, 6, 14, 31], 2)
    for _ in range(4):
        if rng.random() < 0.3:
            sp = rng.sample([0, 5, 6, 14, 31], 3)
        a = [rng.choice(sp) for _ in range(n)]
        cfgs.append(a)
        if rng.random() < 0.7:
            p = rng.choice(plist)
            cfgs.append([a[p[j]] for j in range(n)])
        if rng.random() < 0.5 and n > 1:
            b = list(a)
            x, y = rng.sample(range(n), 2)
            b[x], b[y] = b[y], b[x]
            cfgs.append(b)
    cells = []
    for a in cfgs:
        # the decorated cell may list the same sites in any order
        order = list(range(n))
        rng.shuffle(order)
        pos = np.array([cell.positions[k] for k in order])
        num = np.array([a[m[k]] for k in order])
        cells.append(GeneralCell(np.array(cell.lattice), pos, num))
    can = [canon(a, plist) for a in cfgs]
    for _ in range(10):
        x, y = rng.randrange(len(cfgs)), rng.randrange(len(cfgs))
        w = can[x] == can[y]
        g = og.is_equivalent(cells[x], cells[y])
        ctx.check(bool(g) == w, 'equivalence verdict %s, exact answer %s' % (g, w), a=cfgs[x], b=cfgs[y])
        ctx.obs('equivalent_pairs' if w else 'inequivalent_pairs')

    # another occupation assigned to the same cell object
    if rng.random() < 0.4 and n > 1:
        a = rng.choice(cfgs)
        cr2 = cr.with_nums(a)
        d2 = gen.Desc(cr2, d.basis, d.frac, d.order, [a[j] for j in d.order])
        if gen.unambiguous(cr2, d2.basis, d2.frac, d2.order, ab.LO, ab.HI):
            new = np.array([a[j] for j in m])
            if rng.random() < 0.4:
                # written into the cell's own array; a cell that hands out copies ignores this
                cell.numbers[:] = new
            if np.array_equal(cell.numbers, new):
                ctx.obs('in_place')
            else:
                cell.numbers = new
            got = group_of(ctx, cell, d2, 'symmetry permutations after reassignment')
            ctx.check(got == set(cr2.perms()),
                      'symmetry permutations after assigning another occupation: %d reported, %d exist'
                      % (len(got), len(set(cr2.perms()))), numbers=a)
            og2 = OccupyGenerator(cell)
            ctx.check(set(og2.is_equivalent(cell, cell) for _ in [0]) == {True}, 'not equivalent to itself')
            ctx.obs('after_reassignment')
