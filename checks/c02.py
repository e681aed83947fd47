"""Level-by-level enumeration, under every consumption order of its streams."""
from vlib import ab, gen
from vlib.exact import orbits, substitutions
from checks import c01
from checks.c01 import nCk

ID = 'C02'
QUICK, THOROUGH = 1200, 12000
NEED = ['unitary', 'element', 'wyckoff', 'schedule_sequential', 'schedule_reverse',
        'schedule_interleaved', 'schedule_last_only', 'levels_matched', 'preoccupied', 'empty_levels',
        'levels_vs_direct', 'growth_steps', 'colliding_ids', 'schedule_partial', 'asked_again', 'other_request_before', 'large_levels', 'many_sites']
RULE = ('a case is a random crystal, a target (all sites, an element, a Wyckoff letter), a species, a '
        'top count and a consumption schedule of the level streams (in order, reversed, interleaved at '
        'random, only the last, partly drained first); non-trivial: at least two levels with at least '
        'two classes; distinct by (species pattern, group order, request, schedule)')
ASSUMPTIONS = ['as C01: unambiguous symmetry, at most 16 sites and 4000 decorations per level (15000 in the thorough tier)',
               'the consumer does not modify the structures it receives']


def setup():
    global np, spglib, OccupyGenerator
    c01.setup()
    import numpy as np
    import spglib
    from ababe.stru.sogen import OccupyGenerator


def step_case(ctx, rng, collide):
    '''One growth step on an arbitrary stream: every child exactly once.'''
    from ababe.stru.scaffold import GeneralCell
    if not collide and rng.random() < 0.1:
        cr, d = ab.pick(ctx, 72, kind=gen.crystal_super, want=lambda c: c.n > 40)
        ctx.obs('many_sites', cr.n > 40)
    else:
        cr, d = ab.pick(ctx, 24, kind=c01.crystal24, noise=0) if collide else ab.pick(ctx, rng.choice([5, 9, 14]))
    cell = ab.gcell(d)
    og = OccupyGenerator(cell)
    n = cr.n
    m = ab.site_map(cell.positions, ab.exact_order(d))
    letters = list(cell.get_wyckoffs())
    z = 5
    parents = []
    if collide:
        key = rng.choice(sorted(k for k in c01.COLLIDE if k.endswith('-24')))
        for a, b in c01.COLLIDE[key]:
            for c in (a, b):
                x = [6] * 24
                for j in c[1:]:
                    x[j] = z
                parents.append(x)
        ctx.obs('colliding_ids')
    for _ in range(rng.randint(1, 6)):
        parents.append([rng.choice([6, 6, 5, 0, 31]) for _ in range(n)])
    if rng.random() < 0.3:
        parents.append(list(rng.choice(parents)))
    for again in range(rng.choice([1, 1, 2])):
        kind = rng.choice(['unitary', 'element', 'wyckoff'])
        stream = (GeneralCell(cell.lattice, cell.positions, np.array(c)) for c in parents)
        if kind == 'unitary':
            ok = lambda c, j: c[j] != z
            out = og.gen_add_one_speckle_unitary(stream, ab.specie(z))
        elif kind == 'element':
            ok = lambda c, j: c[j] == 6
            out = og.gen_add_one_speckle_of_ele(stream, ab.specie(6), ab.specie(z))
        else:
            w = rng.choice(letters)
            ok = lambda c, j: c[j] != z and letters[j] == w
            out = og.gen_add_one_speckle(stream, ''.join([w, '']), ab.specie(z))
        want = set()
        for c in parents:
            for j in range(n):
                if ok(c, j):
                    x = list(c)
                    x[j] = z
                    ex = [None] * n
                    for k, q in enumerate(m):
                        ex[q] = x[k]
                    want.add(tuple(ex))
        got = [ab.decode(ctx, c, d) for c in ab.drain(ctx, out, len(want), 'growth step')]
        ctx.check(len(set(got)) == len(got), 'a growth step repeated a structure')
        ctx.check(set(got) == want, 'a growth step lost %d and invented %d structures'
                  % (len(want - set(got)), len(set(got) - want)), lost=sorted(want - set(got))[:2])
        if again:
            ctx.obs('asked_again')
        parents = parents[::-1]
    ctx.obs('growth_steps')
    ctx.obs('children_matched', len(want))


def case(ctx, i):
    rng = ctx.rng
    if i % 10 == 7:
        return step_case(ctx, rng, rng.random() < 0.5)
    huge = i % 150 == 4
    lim = 900 if not huge else 4000 if ctx.tier == 'quick' else 15000
    cr, d = ab.pick(ctx, 16 if huge else rng.choice([4, 6, 8, 12, 16]), want=(lambda c: c.n >= 12) if huge else None,
                    kind=gen.crystal_decorated if rng.random() < 0.3 and not huge else None)
    if huge:
        ctx.obs('large_levels')
    cell = ab.gcell(d)
    perms = cr.perms()
    nums = tuple(cr.nums)
    n = cr.n
    og = OccupyGenerator(cell)
    kind = rng.choice(['unitary', 'element', 'wyckoff'])
    z = rng.choice([0, 5, 29, 31, rng.choice(nums)])
    if kind == 'unitary':
        idx = list(range(n))
        mk = lambda top: og.all_speckle_gen_unitary(top, ab.specie(z))
        direct = lambda k: og.gen_nodup_unitary(k, ab.specie(z))
    elif kind == 'element':
        e = rng.choice(nums)
        idx = [j for j in range(n) if nums[j] == e]
        mk = lambda top: og.all_speckle_gen_of_ele(top, ab.specie(e), ab.specie(z))
        direct = lambda k: og.gen_nodup_of_ele(ab.specie(e), k, ab.specie(z))
    else:
        letters = list(cell.get_wyckoffs())
        m = ab.site_map(cell.positions, ab.exact_order(d))
        w = rng.choice(letters)
        idx = sorted(m[q] for q, l in enumerate(letters) if l == w)
        mk = lambda top: og.all_speckle_gen(top, ''.join([w, '']), ab.specie(z))
        direct = lambda k: og.gen_nodup(''.join([w, '']), k, ab.specie(z))
    free = [j for j in idx if nums[j] != z]
    n0 = sum(1 for s in nums if s == z)
    if n0:
        ctx.obs('preoccupied')
    # levels n0+1 .. top
    kmax = 0
    while kmax < len(free) and nCk(len(free), kmax + 1) <= lim:
        kmax += 1
    if kmax == 0:
        top = n0 + rng.choice([0, 1])
    else:
        top = n0 + (kmax if huge else rng.randint(1, kmax))
        if kmax == len(free) and rng.random() < 0.3:
            top = n0 + kmax + rng.randint(1, 2)         # more than there are sites
    if rng.random() < 0.05:
        top = rng.randint(0, n0)                        # nothing to do
    ctx.note['request'] = '%s z=%d up to %d (has %d)' % (kind, z, top, n0)
    counts = list(range(n0 + 1, top + 1))
    want = []
    for c in counts:
        k = c - n0
        raw = set(substitutions(nums, free, k, z)) if k <= len(free) else set()
        reps, rep_of = orbits(raw, perms)
        want.append((c, raw, reps, rep_of))
        if not raw:
            ctx.obs('empty_levels')
    x = rng.random()
    pending = None
    if x < 0.2 and not huge:
        # the same object was asked other things before, or is still being asked
        z2 = rng.choice([z, z, 13, 5])
        e2 = rng.choice(nums)
        pending = rng.choice([lambda: og.all_speckle_gen_unitary(2, ab.specie(z2)),
                              lambda: og.all_speckle_gen_of_ele(2, ab.specie(e2), ab.specie(z2)),
                              lambda: mk(min(top, n0 + 2))])()
        pending = [g for g in pending]
        stop = rng.choice([1, 3, 10 ** 6])
        for g in pending:
            for c, _ in enumerate(g):
                if c >= stop:
                    break
        ctx.obs('other_request_before')
    for again in range(2 if x > 0.7 and not huge else 1):
        sched = rng.choice(['sequential', 'sequential', 'reverse', 'interleaved', 'last_only', 'partial'])
        ctx.note['schedule'] = sched
        if again:
            ctx.note['again'] = True
            ctx.obs('asked_again')
        got = consume(ctx, rng, mk(top), sched, [len(w[2]) for w in want])
        judged = judge(ctx, rng, d, kind, sched, want, got, z, n0, direct)
    if judged >= 2:
        ctx.sig(nums, len(perms), ctx.note['request'], sched)
        ctx.sample({'input': ctx.note['input'], 'request': ctx.note['request'], 'schedule': sched,
                    'levels': [[w[0], len(w[2])] for w in want]})
    ctx.peak('levels', len(counts))


def judge(ctx, rng, d, kind, sched, want, got, z, n0, direct):
    ctx.obs(kind)
    ctx.obs('schedule_' + sched)
    judged = 0
    for lv, (c, raw, reps, rep_of) in enumerate(want):
        if got[lv] is None:
            continue
        found = {}
        for s in got[lv]:
            cfg = ab.decode(ctx, s, d)
            ctx.obs('structures_observed')
            if sum(1 for x in cfg if x == z) != c:
                ctx.fail('level %d holds a structure with another count' % c, got=cfg)
            rep = rep_of.get(cfg)
            if rep is None:
                ctx.fail('level %d holds a structure that is not such a substitution' % c, got=cfg)
            if rep in found:
                ctx.fail('level %d holds two symmetry-equivalent structures' % c, first=found[rep], second=cfg)
            found[rep] = cfg
        miss = reps - set(found)
        ctx.check(not miss, 'level %d missed %d of %d classes' % (c, len(miss), len(reps)),
                  missing=sorted(miss)[:3])
        ctx.obs('levels_matched')
        ctx.obs('classes_matched', len(reps))
        judged += len(reps) >= 2
        if rng.random() < 0.1 and reps:
            ctx.obs('levels_vs_direct')
            free_ok = n0 == 0
            if free_ok:
                dd = set(rep_of.get(ab.decode(ctx, x, d)) for x in
                         ab.drain(ctx, direct(c), len(reps) + 1, 'direct'))
                ctx.check(dd == set(found), 'direct and level-by-level enumeration disagree at %d' % c)
    return judged


def consume(ctx, rng, outer, sched, sizes):
    nl = len(sizes)

    def full(g, lv):
        return ab.drain(ctx, g, sizes[lv], 'level stream %d' % lv)

    got = [None] * nl
    if sched == 'sequential':
        k = 0
        for g in outer:
            if k >= nl:
                ctx.fail('more levels than requested', levels=nl)
            got[k] = full(g, k)
            k += 1
        if k != nl:
            ctx.fail('%d levels instead of %d' % (k, nl))
        return got
    gens = []
    acc = [[] for _ in range(nl)]
    for g in outer:
        gens.append(g)
        if len(gens) > nl:
            ctx.fail('more levels than requested', levels=nl)
        if sched == 'partial':
            # read a little of a level before the next one is even asked for
            for _ in range(rng.randint(0, 3)):
                try:
                    acc[len(gens) - 1].append(next(g))
                except StopIteration:
                    break
    if len(gens) != nl:
        ctx.fail('%d levels instead of %d' % (len(gens), nl))
    if sched == 'reverse':
        for lv in reversed(range(nl)):
            got[lv] = full(gens[lv], lv)
    elif sched == 'last_only':
        if nl:
            got[nl - 1] = full(gens[nl - 1], nl - 1)
    else:
        live = list(range(nl))
        if sched == 'partial':
            for lv in live:
                for _ in range(rng.randint(0, 2)):
                    try:
                        acc[lv].append(next(gens[lv]))
                    except StopIteration:
                        break
        while live:
            lv = rng.choice(live)
            for _ in range(rng.randint(1, 3)):
                try:
                    acc[lv].append(next(gens[lv]))
                except StopIteration:
                    live.remove(lv)
                    got[lv] = acc[lv]
                    break
                if len(acc[lv]) > sizes[lv]:
                    ctx.fail('level stream %d produced more structures than classes exist' % lv)
    return got
