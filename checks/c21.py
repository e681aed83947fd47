"""Fullerene enumeration: one decoration per class of the icosahedral group."""
from math import factorial
from itertools import combinations

from vlib import ab

ID = 'C21'
QUICK, THOROUGH = 260, 2400
CPU_LIMIT = 400
NEED = ['group_checked', 'full_levels', 'decorated_starts', 'streams', 'colliding_ids', 'one_more_streams', 'raw_lists', 'classes_matched',
        'interleaved_levels', 'mixed_starts', 'nearly_full_starts', 'filled_molecules', 'partial_space_symmetries']
RULE = ('a case is an enumeration level, a stream of decorations (with symmetric images and with pairs whose 32-bit '
        'hashes collide) or a one-more-substitution stream; classes are compared with those of the 120 isometries '
        'computed from the coordinates; non-trivial: equivalent decorations were present; distinct by decorations')
ASSUMPTIONS = ['full enumeration up to 4 substitutions (5 in the thorough tier) of the undecorated molecule']


def setup():
    global np, Structure, PERMS, COLLIDE, BASE
    import json
    import os
    import vlib
    import numpy as np
    from ababe.stru.buckyball import Structure
    COLLIDE = json.load(open(os.path.join(os.path.dirname(vlib.__file__), 'collide.json')))
    BASE = Structure([6] * 60)
    PERMS = isometries()


def cart():
    lat, pos, _ = BASE.spg_cell
    lat, pos = np.array(lat).tolist(), np.array(pos).tolist()
    return [[sum(p[k] * lat[k][c] for k in range(3)) for c in range(3)] for p in pos]


def isometries():
    """All permutations of the 60 atoms that keep every distance (tolerance 2e-2 A)."""
    X = cart()
    n = len(X)
    D = [[sum((a - b) ** 2 for a, b in zip(X[i], X[j])) ** 0.5 for j in range(n)] for i in range(n)]
    nb = [[j for j in range(n) if j != i and D[i][j] < 1.7] for i in range(n)]
    if n != 60 or any(len(b) != 3 for b in nb):
        return None
    base = [0, nb[0][0], nb[0][1], nb[0][2]]
    out = []
    for i0 in range(n):
        for i1 in nb[i0]:
            for i2 in nb[i0]:
                for i3 in nb[i0]:
                    if len({i1, i2, i3}) < 3:
                        continue
                    img = [i0, i1, i2, i3]
                    if any(abs(D[base[a]][base[b]] - D[img[a]][img[b]]) > 2e-2 for a in range(4) for b in range(a)):
                        continue
                    perm = []
                    for k in range(n):
                        c = [m for m in range(n) if all(abs(D[k][base[a]] - D[m][img[a]]) < 2e-2 for a in range(4))]
                        if len(c) != 1:
                            break
                        perm.append(c[0])
                    if len(perm) == n and len(set(perm)) == n:
                        out.append(tuple(perm))
    return sorted(set(out))


def canon(cfg):
    return min(tuple(cfg[p[k]] for k in range(60)) for p in PERMS)


_C2 = {}


def canon_set(idx):
    """Canonical form of a set of substituted sites (two-colour decorations)."""
    best = None
    for p in PERMS:
        t = tuple(sorted(p[k] for k in idx))
        if best is None or t < best:
            best = t
    return best


def orbit_size(idx):
    return len(set(tuple(sorted(p[k] for k in idx)) for p in PERMS))


def nCk(n, k):
    return factorial(n) // factorial(k) // factorial(n - k)


def case(ctx, i):
    rng = ctx.rng
    if i == 0:
        return group(ctx)
    if i == 1 or (i == 2 and ctx.tier == 'thorough'):
        return full(ctx, {1: 4, 2: 5}[i], 5, 6)
    k = i % 5
    if k == 0:
        sea, z = rng.choice([(6, 5), (6, 7), (5, 6), (6, 0), (31, 13)])
        full(ctx, 2 if i % 3 else 3, z, sea)
    elif k == 1:
        start(ctx, rng)
    elif k in (2, 3):
        stream(ctx, rng, rng.random() < 0.35)
    else:
        one_more(ctx, rng)


def group(ctx):
    ctx.check(PERMS is not None and len(PERMS) == 120, 'the molecule does not have 120 isometries', got=PERMS and len(PERMS))
    got = [tuple(int(x) for x in p) for p in BASE.get_symmetry_permutation()]
    ctx.check(sorted(got) == PERMS, 'the permutation table is not the isometry group of the molecule')
    s2 = ab.specie
    spatial(ctx, ctx.rng, [tuple([6] * 60)])
    ctx.obs('group_checked')
    for k in (0, 1, 2, 58, 59, 60):
        raw = [tuple(x.tolist()) for x in ab.drain(ctx, Structure.gen_speckle(s2(5), k), nCk(60, k), 'raw list')]
        ctx.check(len(set(raw)) == len(raw) == nCk(60, k) and all(set(x) <= {5, 6} and x.count(5) == k for x in raw),
                  'raw list of %d substitutions' % k)
        ctx.obs('raw_lists')


def box_group():
    """Isometries that the cubic box of the molecule shares: they permute and flip the axes."""
    if not BOX:
        lat, pos, _ = BASE.spg_cell
        X = cart()
        mid = [sum(x[k] for x in X) / 60 for k in range(3)]
        Y = [[x[k] - mid[k] for k in range(3)] for x in X]
        for p in PERMS:
            ok = True
            for a in range(3):
                rows = [b for b in range(3) for s in (1, -1) if all(abs(Y[p[k]][a] - s * Y[k][b]) < 1e-2 for k in range(60))]
                ok = ok and len(rows) == 1
            if ok:
                BOX.append(p)
    return BOX


BOX = []


def spatial(ctx, rng, cfgs):
    """The space symmetry reported for a decoration is that of the box that keeps it."""
    box = box_group()
    for c in cfgs:
        want = sorted(p for p in box if all(c[p[k]] == c[k] for k in range(60)))
        s = Structure(list(c) if rng.random() < 0.5 else np.array(c))
        sym = s.get_symmetry()
        pos = np.array(s.spg_cell[1])
        got = []
        for r, t in zip(np.array(sym['rotations']), np.array(sym['translations'])):
            new = pos.dot(np.array(r).T) + t
            d = new[:, None, :] - pos[None, :, :]
            d -= np.rint(d)
            d = (d ** 2).sum(axis=2)
            got.append(tuple(int(x) for x in d.argmin(axis=1)))
            ctx.check(float(d.min(axis=1).max()) < 1e-6, 'a reported operation does not carry the molecule onto itself')
        ctx.check(sorted(got) == want, '%d space operations reported for a decoration that has %d' % (len(got), len(want)), decoration=c)
        g = s.get_spacegroup()
        ctx.check((g.split()[0] == 'P1') == (len(want) == 1), 'space group %s for %d operations' % (g, len(want)))
        ctx.obs('space_symmetries')
        if 1 < len(want) < 24:
            ctx.obs('partial_space_symmetries')


def symmetric_cfg(rng):
    """A decoration kept by one or two operations of the box."""
    gens = rng.sample(box_group(), rng.choice([1, 1, 2]))
    x = [6] * 60
    for _ in range(rng.choice([1, 2, 4])):
        todo, orb, z = [rng.randrange(60)], set(), rng.choice([5, 7, 0, 5])
        while todo:
            k = todo.pop()
            if k not in orb:
                orb.add(k)
                todo += [g[k] for g in gens]
        for k in orb:
            x[k] = z
    return tuple(x)


def full(ctx, nmax, z, sea):
    ctx.note['input'] = {'sea': sea, 'speckle': z, 'up to': nmax}
    st = Structure([sea] * 60)
    lev = 0
    for lev, gen in enumerate(Structure.all_speckle_gen(st, nmax, ab.specie(z))):
        seen = {}
        total = 0
        for a in ab.drain(ctx, gen, nCk(60, lev), 'level %d' % lev):
            a = np.array(a).tolist()
            idx = [k for k in range(60) if a[k] == z]
            if len(a) != 60 or len(idx) != lev or any(x not in (z, sea) for x in a):
                ctx.fail('level %d holds another decoration' % lev, got=a)
            c = canon_set(idx)
            if c in seen:
                ctx.fail('level %d lists two equivalent decorations' % lev, a=seen[c], b=idx)
            seen[c] = idx
            total += orbit_size(idx)
        ctx.check(total == nCk(60, lev), 'level %d misses classes: they cover %d of %d decorations' % (lev, total, nCk(60, lev)))
        ctx.obs('classes_matched', len(seen))
        ctx.peak('classes', len(seen))
    ctx.check(lev == nmax, 'enumeration up to %d ended at %d' % (nmax, lev))
    ctx.obs('full_levels', lev + 1)
    ctx.sig('full', nmax, z, sea)
    ctx.sample(ctx.note['input'])


def start(ctx, rng):
    """Levels from an already decorated molecule."""
    nums = [6] * 60
    other = rng.sample(range(60), rng.randint(0, 4))
    for k in other:
        nums[k] = rng.choice([5, 7, 5])
    z = 5
    if rng.random() < 0.5:
        # most sites are taken: only a few are left to substitute
        left = rng.sample(range(60), rng.choice([1, 2, 3, 3, 4, 20, 30]))
        nums = [(nums[k] if nums[k] != 6 else rng.choice([6, 6, 7])) if k in left else 5 for k in range(60)]
        ctx.obs('nearly_full_starts')
    n0 = nums.count(5)
    up = rng.choice([1, 1, 2]) if len(other) else 2
    if n0 > 50:
        up = min(up + rng.choice([0, 1, 2]), 60 - n0)
    ctx.note['input'] = {'start': nums, 'speckle': z, 'up to': n0 + up}
    st = Structure(list(nums) if rng.random() < 0.5 else np.array(nums))
    ctx.check(st.get_speckle_num(ab.specie(5)) == n0 and st.get_speckle_num(ab.specie(7)) == nums.count(7), 'speckle count')
    ctx.check(np.array_equal(np.array(st.spg_cell[2]), np.array(nums)), 'the structure carries other species')
    gens = list(Structure.all_speckle_gen(st, n0 + up, ab.specie(z)))
    ctx.check(len(gens) == up + 1, '%d levels instead of %d' % (len(gens), up + 1))
    order = list(range(len(gens)))
    if rng.random() < 0.4:
        rng.shuffle(order)
        ctx.obs('interleaved_levels')
    got = {}
    for k in order:
        got[k] = [tuple(np.array(a).tolist()) for a in ab.drain(ctx, gens[k], 5000, 'level %d' % k)]
    cfgs = {tuple(nums)}
    for k in range(up + 1):
        if k:
            nxt = set()
            for c in cfgs:
                for j in range(60):
                    if c[j] != z:
                        nxt.add(c[:j] + (z,) + c[j + 1:])
            cfgs = nxt
        want = set(canon(c) for c in cfgs)
        have = [canon(c) for c in got[k]]
        ctx.check(len(set(have)) == len(have), 'level %d lists two equivalent decorations' % k)
        ctx.check(set(have) == want, 'level %d: %d classes, expected %d' % (k, len(have), len(want)))
        ctx.obs('classes_matched', len(want))
    ctx.obs('decorated_starts')
    if n0 + up == 60:
        ctx.obs('filled_molecules')
    if 7 in nums and 5 in nums:
        ctx.obs('mixed_starts')
    ctx.sig(tuple(nums), up)


def stream(ctx, rng, collide):
    cfgs = []
    if collide:
        key = rng.choice(sorted(k for k in COLLIDE if k.endswith('-60')))
        for pair in COLLIDE[key]:
            for c in pair:
                x = [6] * 60
                for j in c:
                    x[j] = 5
                cfgs.append(tuple(x))
        ctx.obs('colliding_ids')
    sp = rng.choice([[5, 6], [5, 6, 7], [0, 6]])
    for _ in range(rng.randint(3, 25)):
        x = [6] * 60
        for j in rng.sample(range(60), rng.choice([1, 2, 3, 6, 30])):
            x[j] = rng.choice(sp)
        cfgs.append(tuple(x))
        if rng.random() < 0.6:
            src = rng.choice(cfgs)
            p = rng.choice(PERMS)
            cfgs.append(tuple(src[p[k]] for k in range(60)))
    if rng.random() < 0.5:
        rng.shuffle(cfgs)
    ctx.note['input'] = cfgs
    can = {c: canon(c) for c in set(cfgs)}
    out = [tuple(np.array(a).tolist()) for a in
           ab.drain(ctx, BASE.to_nodup_generator(iter([np.array(c) for c in cfgs])), len(cfgs), 'duplicate filter')]
    if any(c not in can for c in out):
        ctx.fail('the duplicate filter invented a decoration')
    have = [can[c] for c in out]
    ctx.check(len(set(have)) == len(have), 'the duplicate filter passed two equivalent decorations')
    ctx.check(set(have) == set(can.values()), 'the duplicate filter lost %d of %d classes'
              % (len(set(can.values())) - len(have), len(set(can.values()))))
    ctx.obs('classes_matched', len(have))
    spatial(ctx, rng, [symmetric_cfg(rng), symmetric_cfg(rng), rng.choice(cfgs)])
    names = [Structure(list(c)).get_name() for c in sorted(can)]
    ctx.check(len(set(names)) == len(names), 'different decorations share a name')
    ctx.check(Structure(list(cfgs[0])).get_name() == Structure(np.array(cfgs[0])).get_name(), 'one decoration has two names')
    ctx.obs('streams')
    if len(have) < len(can):
        ctx.sig(tuple(sorted(can)))


def one_more(ctx, rng):
    """Every distinct one-more decoration of a stream, once each."""
    z = rng.choice([5, 7, 0])
    cfgs = []
    if rng.random() < 0.4:
        z = 5
        key = rng.choice(sorted(k for k in COLLIDE if k.endswith('-60')))
        for c in COLLIDE[key][0]:
            x = [6] * 60
            for j in c[1:]:
                x[j] = 5
            cfgs.append(tuple(x))
        ctx.obs('colliding_ids')
    for _ in range(rng.randint(1, 4)):
        x = [6] * 60
        for j in rng.sample(range(60), rng.choice([0, 1, 2, 30, 59, 60])):
            x[j] = rng.choice([z, z, 5, 7])
        cfgs.append(tuple(x))
        if rng.random() < 0.5:
            y = list(x)
            y[rng.randrange(60)] = rng.choice([z, 6])
            cfgs.append(tuple(y))
    ctx.note['input'] = {'stream': cfgs, 'speckle': z}
    want = set()
    for c in cfgs:
        for j in range(60):
            if c[j] != z:
                want.add(c[:j] + (z,) + c[j + 1:])
    arrs = [np.array(c) for c in cfgs]
    out = [tuple(np.array(a).tolist()) for a in
           ab.drain(ctx, BASE.add_one_speckle_generator(iter(arrs), ab.specie(z)), len(want), 'one-more stream')]
    ctx.check(len(set(out)) == len(out), 'the one-more stream repeats a decoration')
    ctx.check(set(out) == want, 'the one-more stream: %d decorations instead of %d' % (len(out), len(want)))
    ctx.check(all(tuple(a.tolist()) == c for a, c in zip(arrs, cfgs)), 'the stream members were modified')
    h = [tuple(x) for x in Structure.help_add_one_speckle(list(cfgs[0]), ab.specie(z))]
    c = cfgs[0]
    ctx.check(sorted(h) == sorted(c[:j] + (z,) + c[j + 1:] for j in range(60) if c[j] != z), 'one-more list of one decoration')
    ctx.obs('one_more_streams')
    ctx.sig(tuple(cfgs), z)
