"""Answers do not depend on how the crystal is written down (metamorphic monitor)."""
from vlib import ab, gen
from vlib.exact import canon, substitutions, random_rotation, mat_mul, min_image, reduced_basis
from checks.c01 import nCk

ID = 'C04'
QUICK, THOROUGH = 900, 12000
NEED = ['site_order', 'lattice_translations', 'origin', 'basis', 'orientation', 'scale', 'relabelled',
        'complement', 'enumerations_compared', 'scalar_answers_compared', 'other_enumerations_compared',
        'superlattice_counts_compared', 'plane_superlattice_counts_compared']
RULE = ('a case is one crystal described twice (reordered sites, coordinates moved by whole cells, '
        'shifted origin, another lattice basis, rotated, rescaled, species renamed) and the same questions '
        'asked of both; non-trivial: the enumeration has at least 2 classes; distinct by (crystal, '
        'transformations, request)')
ASSUMPTIONS = ['both descriptions have unambiguous symmetry (tolerance window [3e-4, 6e-3] A)']


def setup():
    global np, OccupyGenerator, MinDistanceRestriction, SpaceGroupRestriction, SuperLatticeGenerator, SuperLatticeGenerator2D
    import numpy as np
    from ababe.stru.sogen import OccupyGenerator
    from ababe.stru.restriction import MinDistanceRestriction, SpaceGroupRestriction
    from ababe.stru.grid import SuperLatticeGenerator, SuperLatticeGenerator2D


TR = ['site_order', 'lattice_translations', 'origin', 'basis', 'orientation', 'scale', 'relabelled']


def case(ctx, i):
    rng = ctx.rng
    cr, d = ab.pick(ctx, rng.choice([4, 8, 12]), mirror=0)
    for _ in range(10):
        trs = rng.sample(TR, rng.choice([1, 1, 2, 3]))
        cr2, ren, scale = cr, {}, 1.0
        if 'origin' in trs:
            k = rng.choice([1, 2, 3, 37])
            cr2 = gen.Crystal(cr2.g, cr2.gden, cr2.D * k, [tuple(x * k for x in p) for p in cr2.pos], cr2.nums)
            cr2 = cr2.shift(tuple(rng.randrange(cr2.D) for _ in range(3)))
        if 'basis' in trs:
            cr2 = cr2.change_basis(gen.random_unimodular(rng, rng.choice([1, 1, 2])))
        if 'scale' in trs:
            scale = rng.choice([0.6, 0.8, 1.25, 1.5, 2.0, 4.0])
        if 'relabelled' in trs:
            old = sorted(set(cr.nums))
            ren = dict(zip(old, rng.sample([s for s in gen.SPECIES if s not in (5, 0)], len(old))))
            cr2 = cr2.with_nums([ren[s] for s in cr2.nums])
        d2 = gen.describe(cr2, rng, rotate='orientation' in trs, shuffle='site_order' in trs,
                          wrap=0.6 if 'lattice_translations' in trs else 0.0, scale=scale)
        if gen.unambiguous(cr2, d2.basis, d2.frac, d2.order, ab.LO, ab.HI):
            break
    else:
        return
    ctx.note['second'] = d2.as_dict()
    ctx.note['transformations'] = trs
    for t in trs:
        ctx.obs(t)
    f = lambda s: ren.get(s, s)
    c1, c2 = ab.gcell(d), ab.gcell(d2)
    perms = cr.perms()
    # scalar answers
    pr = (c1.is_primitive(), c2.is_primitive())
    ctx.check(bool(pr[0]) == bool(pr[1]), 'primitive verdict depends on the description: %s / %s' % pr)
    sg = (c1.get_spacegroup().split('(')[-1], c2.get_spacegroup().split('(')[-1])
    ctx.check(sg[0] == sg[1], 'space group depends on the description: %s / %s' % sg)
    num = int(sg[0].strip(' )'))
    for lst in ([num], [num + 1, num - 1], [1, 2, 225, 12]):
        ctx.check(bool(SpaceGroupRestriction(lst).is_satisfied(c1)) == bool(SpaceGroupRestriction(lst).is_satisfied(c2)),
                  'space-group verdict depends on the description', allowed=lst)
    ctx.check(len(c1.get_symmetry_permutation()) == len(c2.get_symmetry_permutation()),
              'number of symmetry operations depends on the description')
    z = rng.choice(cr.nums)
    b = cr.basis()
    rb = reduced_basis(b)
    for _ in range(2):
        r = rng.uniform(0.8, 5.0)
        ans = (MinDistanceRestriction((ab.specie(z), r)).is_satisfied(c1),
               MinDistanceRestriction((ab.specie(f(z)), r * scale)).is_satisfied(c2))
        if ans[0] != ans[1]:
            # not counted when a distance sits on the threshold
            fr = cr.frac()
            ds = [min_image([x - y for x, y in zip(fr[p], fr[q])], b, rb, skip_zero=True)
                  for p in range(cr.n) for q in range(cr.n) if cr.nums[p] == z == cr.nums[q]]
            if min(abs(x - r) for x in ds) > 1e-3:
                ctx.fail('minimum-distance verdict depends on the description', r=r, answers=ans)
        ctx.obs('oracle_verdicts')
    ctx.obs('scalar_answers_compared')
    if cr.n <= 4 and cr.is_primitive() and rng.random() < 0.5:
        nn = rng.choice([2, 3, 4])
        a = len(SuperLatticeGenerator.hnfs_from_n(c1, nn))
        bb = len(SuperLatticeGenerator.hnfs_from_n(c2, nn))
        ctx.check(a == bb, 'number of superlattices depends on the description: %d / %d' % (a, bb))
        ctx.obs('superlattice_counts_compared')
    if cr.n <= 4 and 'basis' not in trs and rng.random() < 0.3:
        nn = rng.choice([2, 3, 4, 6])
        a = len(SuperLatticeGenerator2D.hnfs_from_n(c1, nn))
        bb = len(SuperLatticeGenerator2D.hnfs_from_n(c2, nn))
        ctx.check(a == bb, 'number of in-plane superlattices depends on the description: %d / %d' % (a, bb))
        ctx.obs('plane_superlattice_counts_compared')
    if rng.random() < 0.35 and cr.n <= 8:
        # the other enumerations: any site, two species
        og1, og2 = OccupyGenerator(c1), OccupyGenerator(c2)
        inv = {v: q for q, v in ren.items()}
        e = rng.choice(cr.nums)
        me = cr.nums.count(e)
        u, v = [s for s in (88, 87, 86, 85, 84, 83) if s not in cr.nums and s not in ren.values()][:2]
        k = rng.randint(1, min(2, cr.n))
        for what, q in (('any', lambda og, h: og.gen_nodup_unitary(k, ab.specie(u))),
                        ('ternary', lambda og, h: og.gen_nodup_trinary_alloy(ab.specie(u), 1, ab.specie(v), k)),
                        ('element ternary', lambda og, h: og.gen_nodup_trinary_alloy(ab.specie(u), 1, ab.specie(v), 1, ab.specie(h(e))))):
            if what == 'ternary' and cr.n < k + 1 or what == 'element ternary' and me < 2:
                continue
            cap = cr.n ** 3
            s1 = classes(ctx, q(og1, lambda x: x), d, perms, {}, cap)
            s2 = classes(ctx, q(og2, f), d2, perms, inv, cap)
            ctx.check(s1 == s2, '%s enumeration depends on the description: %d / %d classes' % (what, len(s1), len(s2)))
            ctx.obs('other_enumerations_compared')
    # enumeration
    e = rng.choice(cr.nums)
    idx = [j for j in range(cr.n) if cr.nums[j] == e]
    ks = [k for k in range(0, len(idx) + 1) if nCk(len(idx), k) <= 300]
    good = [k for k in ks if 0 < k < len(idx)]
    k = rng.choice(good or ks)
    w = 5 if 5 not in cr.nums else 88
    og1, og2 = OccupyGenerator(c1), OccupyGenerator(c2)
    cap = nCk(len(idx), k)
    s1 = classes(ctx, og1.gen_nodup_of_ele(ab.specie(e), k, ab.specie(w)), d, perms, {}, cap)
    inv = {v: q for q, v in ren.items()}
    s2 = classes(ctx, og2.gen_nodup_of_ele(ab.specie(f(e)), k, ab.specie(w)), d2, perms, inv, cap)
    ctx.check(s1 == s2, 'enumeration depends on the description: %d / %d classes' % (len(s1), len(s2)),
              element=e, k=k, only_first=sorted(s1 - s2)[:2], only_second=sorted(s2 - s1)[:2])
    ctx.obs('enumerations_compared')
    if len(s1) >= 2:
        ctx.sig(cr.g, cr.pos, cr.nums, trs, e, k)
        ctx.sample({'first': ctx.note['input'], 'second': ctx.note['second'], 'transformations': trs,
                    'request': [e, k, w], 'classes': len(s1)})
    # replacing k or all but k is the same question
    if len(idx) > 1:
        s3 = classes(ctx, og2.gen_nodup_of_ele(ab.specie(f(e)), len(idx) - k, ab.specie(w)), d2, perms, inv, cap)
        flip = lambda c: tuple((w if x == e else e) if j in sidx else x for j, x in enumerate(c))
        sidx = set(idx)
        s4 = set(canon(flip(c), perms) for c in s3)
        ctx.check(s4 == s1, 'replacing %d and all but %d atoms give different answers: %d / %d classes'
                  % (k, k, len(s1), len(s4)))
        ctx.obs('complement')


def classes(ctx, g, d, perms, inv, cap):
    out = set()
    for c in ab.drain(ctx, g, cap, 'enumeration'):
        cfg = tuple(inv.get(x, x) for x in ab.decode(ctx, c, d))
        r = canon(cfg, perms)
        if r in out:
            ctx.fail('enumeration repeats a class in one of the descriptions', got=cfg)
        out.add(r)
    return out
