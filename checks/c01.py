"""Direct occupation enumeration: one structure per symmetry class."""
from math import factorial

from vlib import ab, gen
from vlib.exact import orbits, substitutions, canon
from itertools import combinations

ID = 'C01'
QUICK, THOROUGH = 900, 12000
NEED = ['unitary', 'element', 'wyckoff', 'ternary', 'ternary_of_element', 'interleaved',
        'classes_matched', 'noisy_inputs', 'raw_lists', 'stream', 'colliding_ids', 'large_enumerations', 'many_sites', 'mixed_integer_types']
RULE = ('a case is a random crystal (prototype superlattice, orbits of a random space group, '
        'decorated or random), a random description of it and random substitution requests; '
        'non-trivial: the request has more decorations than symmetry classes and at least 2 classes; '
        'distinct by (species pattern, group order, request)')
ASSUMPTIONS = ['inputs whose symmetry group is the same for every tolerance in [3e-4, 6e-3] A',
               'at most 50 sites and 9000 decorations per request (40000 in the thorough tier)',
               'Wyckoff letters themselves are taken from spglib; only their use is judged']


def setup():
    global np, spglib, OccupyGenerator, COLLIDE
    import json
    import os
    import vlib
    COLLIDE = json.load(open(os.path.join(os.path.dirname(vlib.__file__), 'collide.json')))
    import numpy as np
    import spglib
    from ababe.stru.sogen import OccupyGenerator


def nCk(n, k):
    return 0 if k < 0 or k > n else factorial(n) // factorial(k) // factorial(n - k)


def stream_case(ctx, rng, collide):
    '''The duplicate filter on an arbitrary stream of decorated cells.'''
    from ababe.stru.scaffold import GeneralCell
    if collide:
        cr, d = ab.pick(ctx, 24, kind=crystal24, noise=0)
    else:
        cr, d = ab.pick(ctx, rng.choice([6, 12, 16]))
    cell = ab.gcell(d)
    og = OccupyGenerator(cell)
    perms = cr.perms()
    n = cr.n
    m = ab.site_map(cell.positions, ab.exact_order(d))
    cfgs = []                                  # in the cell's own site order
    if collide:
        key = rng.choice(sorted(k for k in COLLIDE if k.endswith('-24')))
        for a, b in COLLIDE[key]:
            for c in (a, b):
                x = [6] * 24
                for j in c:
                    x[j] = 5
                cfgs.append(x)
        ctx.obs('colliding_ids')
    sp = [0, 5, 6] + list(cr.nums[:1])
    for _ in range(rng.randint(3, 40)):
        cfgs.append([rng.choice(sp) for _ in range(n)])
        if rng.random() < 0.5 and perms:       # an equivalent image of an earlier one
            src = rng.choice(cfgs)
            ex = [None] * n
            for k, j in enumerate(m):
                ex[j] = src[k]
            p = rng.choice(perms)
            cfgs.append([ex[p[m[k]]] for k in range(n)])
    if rng.random() < 0.5:
        rng.shuffle(cfgs)
    types = [np.int64] if rng.random() < 0.7 else [np.int64, np.int32, np.int16]
    if len(types) > 1:
        ctx.obs('mixed_integer_types')
    stream = [GeneralCell(cell.lattice, cell.positions, np.array(c, dtype=rng.choice(types))) for c in cfgs]
    exact = []
    for c in cfgs:
        ex = [None] * n
        for k, j in enumerate(m):
            ex[j] = c[k]
        exact.append(tuple(ex))
    reps, rep_of = orbits(exact, perms)
    found = {}
    for c in ab.drain(ctx, og.gen_2nodup_gen(iter(stream)), len(stream), 'duplicate filter'):
        cfg = ab.decode(ctx, c, d)
        if cfg not in rep_of:
            ctx.fail('the duplicate filter invented a structure', got=cfg)
        if rep_of[cfg] in found:
            ctx.fail('the duplicate filter passed two equivalent structures', a=found[rep_of[cfg]], b=cfg)
        found[rep_of[cfg]] = cfg
    ctx.check(set(found) == reps, 'the duplicate filter lost %d classes of its input' % len(reps - set(found)),
              lost=sorted(reps - set(found))[:3])
    ctx.obs('stream')
    ctx.obs('classes_matched', len(reps))
    if len(reps) < len(set(exact)):
        ctx.sig('stream', tuple(cr.nums), len(perms), len(reps), tuple(exact[0]))


def crystal24(rng, nmax):
    while True:
        cr = gen.proto(rng, rng.choice(['ortho', 'mono', 'sc', 'tet', 'tri', 'hcp', 'diamond']))
        k = 24 // cr.n
        if rng.random() < 0.5:
            s = cr.supercell(rng.choice(gen.all_hnfs(k)))
        else:
            s = gen.crystal_random(rng, 24)
        if s.n == 24:
            s.tag = 'n24'
            return s


def case(ctx, i):
    rng = ctx.rng
    if i % 8 == 5:
        return stream_case(ctx, rng, rng.random() < 0.3)
    big = rng.random() < 0.12
    huge = i % 64 == 9
    wide = i % 64 == 41
    if wide:
        # many sites, few substitutions
        cr, d = ab.pick(ctx, 50, kind=rng.choice([gen.crystal_super, gen.crystal_super, gen.crystal_orbits]), want=lambda c: c.n >= 33)
        if cr.n >= 33:
            ctx.obs('many_sites')
        ctx.peak('sites', cr.n)
    else:
        cr, d = ab.pick(ctx, 28 if big or huge else rng.choice([4, 8, 12, 16]), want=(lambda c: c.n >= 10) if huge else None)
    if any(abs(x * cr.D - round(x * cr.D)) > 1e-7 for f in d.frac for x in f):
        ctx.obs('noisy_inputs')
    cell = ab.gcell(d)
    perms = cr.perms()
    og = OccupyGenerator(cell)
    n = cr.n
    nums = tuple(cr.nums)
    # request pool
    reqs = []
    if huge:
        ctx.obs('large_enumerations')
        reqs.append(request(ctx, rng, cell, d, cr, nums, 9000 if ctx.tier == 'quick' else 40000))
    elif wide:
        reqs.append(request(ctx, rng, cell, d, cr, nums, 1300))
    else:
        for _ in range(3):
            reqs.append(request(ctx, rng, cell, d, cr, nums))
    reqs = [r for r in reqs if r]
    if not reqs:
        return
    if len(reqs) >= 2 and rng.random() < 0.5:
        # two enumerations of one generator object, consumed alternately
        ctx.obs('interleaved')
        runs = [(r, iter(r['make'](og)), []) for r in reqs[:2]]
        live = list(runs)
        while live:
            r = rng.choice(live)
            try:
                c = next(r[1])
            except StopIteration:
                live.remove(r)
                continue
            r[2].append(c)
            if len(r[2]) > r[0]['cap']:
                ctx.fail('%s produced more structures than decorations exist' % r[0]['name'])
        for r, _, got in runs:
            judge(ctx, cr, d, perms, r, got)
        reqs = reqs[2:]
    for r in reqs:
        got = ab.drain(ctx, r['make'](og), r['cap'], r['name'])
        judge(ctx, cr, d, perms, r, got)
        if rng.random() < 0.15:
            # asking again must give the full answer again
            got = ab.drain(ctx, r['make'](og), r['cap'], r['name'] + ' (asked again)')
            judge(ctx, cr, d, perms, r, got)
            ctx.obs('asked_again')


def request(ctx, rng, cell, d, cr, nums, lim=None):
    n = len(nums)
    LIM = lim or (1500 if rng.random() < 0.1 else 400)
    z = rng.choice([0, 5, 22, 29, rng.choice(nums), rng.choice(gen.SPECIES)])
    kind = rng.choice(['unitary', 'element', 'element', 'wyckoff', 'ternary', 'ternary_of_element'])

    def pick_k(m):
        ks = [k for k in range(0, m + 1) if nCk(m, k) <= LIM]
        if rng.random() < 0.06:
            return m + 1
        big = [k for k in ks if nCk(m, k) > (lim or 8) // 8]
        return rng.choice(big or ks)

    if kind == 'unitary':
        k = pick_k(n)
        idx = list(range(n))
        raw = substitutions(nums, idx, k, z)
        make = lambda og: og.gen_nodup_unitary(k, ab.specie(z))
        mraw = lambda og: og.gen_dup_unitary(k, ab.specie(z))
    elif kind == 'element':
        e = rng.choice(nums) if rng.random() < 0.95 else 88
        idx = [j for j, s in enumerate(nums) if s == e]
        k = pick_k(len(idx))
        raw = substitutions(nums, idx, k, z)
        make = lambda og: og.gen_nodup_of_ele(ab.specie(e), k, ab.specie(z))
        mraw = lambda og: og.gen_dup_of_ele(ab.specie(e), k, ab.specie(z))
    elif kind == 'wyckoff':
        letters = spglib.get_symmetry_dataset(
            (np.array(cell.lattice), np.array(cell.positions), np.array(cell.numbers)),
            symprec=1e-3)['wyckoffs']
        got = list(cell.get_wyckoffs())
        ctx.check(got == list(letters), 'Wyckoff letters of the cell changed', got=got, want=letters)
        m = ab.site_map(cell.positions, ab.exact_order(d))
        w = rng.choice(list(letters))
        idx = sorted(m[q] for q, l in enumerate(letters) if l == w)
        # letters are constant on symmetry orbits: checked against the exact group
        for p in cr.perms():
            if sorted(p[j] for j in idx) != idx:
                ctx.fail('sites of one symmetry orbit carry different Wyckoff letters', letters=letters)
        k = pick_k(len(idx))
        raw = substitutions(nums, idx, k, z)
        # a fresh string object with the same letter
        wy = ''.join([w, ''])
        make = lambda og: og.gen_nodup(wy, k, ab.specie(z))
        mraw = lambda og: og.gen_dup(wy, k, ab.specie(z))
    else:
        z2 = rng.choice([s for s in [0, 13, 31, 47, rng.choice(nums)] if s != z] or [79])
        if kind == 'ternary':
            e = None
            idx = list(range(n))
        else:
            e = rng.choice(nums)
            idx = [j for j, s in enumerate(nums) if s == e]
        m = len(idx)
        opts = [(a, b) for a in range(0, m + 1) for b in range(0, m - a + 1)
                if nCk(m, a) * nCk(m - a, b) <= LIM]
        good = [(a, b) for a, b in opts if a and b and (not lim or nCk(m, a) * nCk(m - a, b) > lim // 8)]
        if not opts:
            return None
        n1, n2 = rng.choice(good or opts)
        raw = []
        for c1 in combinations(idx, n1):
            rest = [j for j in idx if j not in c1]
            for c2 in combinations(rest, n2):
                c = list(nums)
                for j in c1:
                    c[j] = z
                for j in c2:
                    c[j] = z2
                raw.append(tuple(c))
        k = (n1, n2)
        if e is None:
            make = lambda og: og.gen_nodup_trinary_alloy(ab.specie(z), n1, ab.specie(z2), n2)
        else:
            make = lambda og: og.gen_nodup_trinary_alloy(ab.specie(z), n1, ab.specie(z2), n2, ab.specie(e))
        mraw = None
    return {'name': '%s k=%s z=%s' % (kind, k, z), 'kind': kind, 'raw': raw, 'make': make,
            'mraw': mraw, 'cap': len(set(raw)), 'k': k}


def judge(ctx, cr, d, perms, r, got):
    reps, seen_rep = orbits(set(r['raw']), perms)
    ctx.obs(r['kind'])
    found = {}
    for c in got:
        cfg = ab.decode(ctx, c, d)
        ctx.obs('structures_observed')
        rep = seen_rep.get(cfg)
        if rep is None or cfg not in seen_rep:
            ctx.fail('%s produced a structure that is not such a substitution' % r['name'], got=cfg)
        if rep in found:
            ctx.fail('%s produced two symmetry-equivalent structures' % r['name'],
                     first=found[rep], second=cfg)
        found[rep] = cfg
    missing = reps - set(found)
    ctx.check(not missing, '%s missed %d of %d symmetry classes' % (r['name'], len(missing), len(reps)),
              missing=sorted(missing)[:3], sites=cr.pos, D=cr.D)
    ctx.obs('classes_matched', len(reps))
    if len(reps) >= 2 and len(set(r['raw'])) > len(reps):
        ctx.sig(tuple(cr.nums), len(perms), r['name'], len(reps))
        ctx.sample({'input': ctx.note['input'], 'request': r['name'], 'decorations': len(r['raw']),
                    'classes': len(reps)})
    ctx.peak('classes', len(reps))
    ctx.peak('group_order', len(perms))
    if r['mraw'] and len(r['raw']) <= 150:
        og = OccupyGenerator(ab.gcell(d))
        lst = [ab.decode(ctx, c, d) for c in ab.drain(ctx, r['mraw'](og), len(r['raw']), 'raw ' + r['name'])]
        ctx.check(sorted(lst) == sorted(r['raw']), 'raw list of %s is not every choice once' % r['name'])
        ctx.obs('raw_lists')
