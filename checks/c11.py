"""Removing atoms near a centre is exact under periodic boundary conditions."""
from vlib import ab, gen
from vlib.exact import min_image, reduced_basis
from checks.c09 import make

ID = 'C11'
QUICK, THOROUGH = 6000, 30000
NEED = ['by_element_centres', 'by_point_centres', 'with_element_filter', 'without_filter', 'removed_sites',
        'kept_sites', 'through_image', 'skewed_cells', 'searches', 'centres_removed_each_other', 'empty_centres', 'exactly_at_the_radius',
        'one_clarifier_many_cells', 'applied_again', 'many_sites']
RULE = ('a case is a random cell, a set of centres (sites of an element, or arbitrary points), a radius and an '
        'optional element; the surviving and removed sites are compared with exact shortest-image distances; '
        'non-trivial: some sites removed and some kept; distinct by (lattice, sites, species, request); one case in twelve applies one clarifier object to several structures and to '
        'its own results')
ASSUMPTIONS = ['requests where a distance is within 1e-7 of the radius are not judged, unless exact in binary floating point']


def setup():
    global np, ModifiedCell, AtomRemoveClarifier, VerboseAtomRemoveClarifier
    import numpy as np
    from ababe.stru.scaffold import ModifiedCell
    from ababe.stru.clarifier import AtomRemoveClarifier, VerboseAtomRemoveClarifier


def touching(ctx, rng):
    '''A site at exactly the radius (all numbers exact in binary) is kept.'''
    a = [float(rng.choice([4, 8, 16])) for _ in range(3)]
    lat = [[a[k] if k == j else 0.0 for j in range(3)] for k in range(3)]
    ax = rng.randrange(3)
    p = [rng.randrange(8) / 8.0 for _ in range(3)]
    q = list(p)
    q[ax] = p[ax] + rng.choice([-1, 1]) * rng.randint(1, 3) / 8.0
    r = abs(q[ax] - p[ax]) * a[ax]
    ctx.note['input'] = {'lattice': lat, 'positions': [p, q], 'numbers': [6, 5]}
    for rad, want in ((r, [6, 5]), (r - 2.0 ** -30, [6, 5]), (r + 2.0 ** -30, [6])):
        for cl in (AtomRemoveClarifier([p], rad, ab.specie(5)), VerboseAtomRemoveClarifier(ab.specie(6), rad, ab.specie(5))):
            mc = cl.clarify(ModifiedCell(np.array(lat), np.array([p, q]), np.array([6, 5])))
            ctx.check([s.element.Z for s in mc] == want, 'a site at distance %r of a centre, radius %r: left %r'
                      % (r, rad, [s.element.Z for s in mc]))
    ctx.obs('exactly_at_the_radius')


def reused(ctx, rng):
    """One clarifier object over several structures, and again over its own result."""
    verbose = rng.random() < 0.5
    ce = rng.choice([5, 6, 29])
    filt = rng.choice([None, None, ce, 6, 14])
    fs = None if filt is None else ab.specie(filt)
    r = rng.uniform(0.3, 4)
    pts = [[rng.uniform(-0.3, 1.3) for _ in range(3)] for _ in range(rng.choice([1, 2, 3]))]
    cl = VerboseAtomRemoveClarifier(ab.specie(ce), r, fs) if verbose else AtomRemoveClarifier(pts, r, fs)
    ctx.note['request'] = {'centres': ce if verbose else pts, 'radius': r, 'element': filt}
    hist = ctx.note['input'] = []
    for _ in range(rng.randint(2, 3)):
        b, frac, nums = make(ctx, rng)
        if len(nums) > 20:
            continue
        nums = [rng.choice([ce, 6, 14]) for _ in nums]
        rb = reduced_basis(b)
        hist.append({'lattice': b, 'positions': frac, 'numbers': nums})
        mc = ModifiedCell(np.array(b), np.array(frac), np.array(nums))
        sites = list(zip(frac, nums))
        for turn in range(rng.randint(1, 2)):
            centers = [p for p, z in sites if z == ce] if verbose else pts
            keep = []
            for p, z in sites:
                ds = [min_image([x - y for x, y in zip(p, c)], b, rb) for c in centers]
                if any(abs(d - r) < 1e-7 for d in ds):
                    return
                if not (any(d < r for d in ds) and (filt is None or z == filt)):
                    keep.append((p, z))
            mc = cl.clarify(mc)
            left = [(tuple(s.position), s.element.Z) for s in mc]
            ctx.check(left == [(tuple(p), z) for p, z in keep], 'a clarifier used again left %d sites, exact answer %d'
                      % (len(left), len(keep)), got=left, want=keep, turn=turn)
            sites = keep
            ctx.obs('one_clarifier_many_cells')
            if turn:
                ctx.obs('applied_again')
        ctx.sig(b, frac, nums, r, filt, ce)


def case(ctx, i):
    rng = ctx.rng
    if i % 50 == 3:
        return touching(ctx, rng)
    if i % 12 == 7:
        return reused(ctx, rng)
    b, frac, nums = make(ctx, rng)
    n = len(nums)
    rb = reduced_basis(b)
    ctx.note['input'] = {'lattice': b, 'positions': frac, 'numbers': nums}
    mc = ModifiedCell(np.array(b), np.array(frac), np.array(nums))
    verbose = rng.random() < 0.5
    filt = rng.choice([None] + nums + [88])
    if verbose:
        ce = rng.choice(nums + [88]) if rng.random() < 0.9 else 88
        centers = [frac[k] for k in range(n) if nums[k] == ce]
    else:
        centers = [[rng.uniform(-0.3, 1.3) for _ in range(3)] for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        if rng.random() < 0.4:
            centers.append(list(rng.choice(frac)))
    dist = [[min_image([p - q for p, q in zip(frac[k], c)], b, rb) for c in centers] for k in range(n)]
    flat = sorted(x for row in dist for x in row if x > 1e-6)
    x = rng.random()
    if flat and x < 0.5:
        q = rng.choice(flat[:6])
        r = q * (1 + rng.choice([-1, 1]) * rng.choice([1e-6, 1e-3, 0.05]))
    elif x < 0.9:
        r = rng.uniform(0, 6)
    else:
        r = 0
    if any(abs(y - r) < 1e-7 for row in dist for y in row if r > 0):
        return
    if not centers:
        ctx.obs('empty_centres')
    ctx.note['request'] = {'centres': centers, 'radius': r, 'element': filt}
    fs = None if filt is None else ab.specie(filt)
    # the search itself, one centre at a time
    for c, col in zip(centers[:2], range(2)):
        got = mc.get_points_incell_insphere(c, r, fs) if filt is not None or rng.random() < 0.5 else \
            mc.get_points_incell_insphere(c, r)
        want = set(k for k in range(n) if dist[k][col] < r and (filt is None or nums[k] == filt))
        ctx.check(set(got) == want, 'sphere search found sites %s, exact answer %s' % (sorted(got), sorted(want)),
                  centre=c)
        for k, s in got.items():
            ctx.check(tuple(s.position) == tuple(frac[k]) and s.element.Z == nums[k],
                      'sphere search pairs an index with another site')
        ctx.obs('searches')
    gone = set(k for k in range(n) if any(y < r for y in dist[k]) and (filt is None or nums[k] == filt))
    if verbose and any(nums[k] == ce for k in gone):
        ctx.obs('centres_removed_each_other')
    for k in gone:
        j = min(range(len(centers)), key=lambda t: dist[k][t])
        plain = np.linalg.norm(np.matmul(np.array(frac[k]) - np.array(centers[j]), np.array(b)))
        if plain > r:
            ctx.obs('through_image')
    cl = VerboseAtomRemoveClarifier(ab.specie(ce), r, fs) if verbose else AtomRemoveClarifier(centers, r, fs)
    out = cl.clarify(mc)
    left = [(tuple(s.position), s.element.Z) for s in out]
    want = [(tuple(frac[k]), nums[k]) for k in range(n) if k not in gone]
    ctx.check(left == want, 'removal left %d sites, exact answer %d' % (len(left), len(want)), got=left, want=want)
    ctx.check(np.array_equal(np.array(out.lattice), np.array(b)), 'removal changed the lattice')
    ctx.obs('by_element_centres' if verbose else 'by_point_centres')
    ctx.obs('without_filter' if filt is None else 'with_element_filter')
    ctx.obs('removed_sites', len(gone))
    ctx.obs('kept_sites', len(want))
    if gone and want:
        ctx.sig(b, frac, nums, centers, r, filt)
        ctx.sample({'input': ctx.note['input'], 'request': ctx.note['request'], 'removed': sorted(gone)})
