"""Displacements are exactly as long as asked; fractional and cartesian agree."""
from math import sqrt
from vlib import ab, gen
from vlib.exact import inv3, to_cart, norm, distances_within, floor
from checks.c09 import make

ID = 'C12'
QUICK, THOROUGH = 3000, 40000
NEED = ['perturbed_sites', 'translated_sites', 'conversions', 'skewed_cells', 'zero_distance', 'large_distance',
        'reused_vectors', 'second_perturbations', 'hundreds_of_sites']
RULE = ('a case is a random cell, a random translation of one site, a perturbation of all sites and coordinate '
        'conversions; every displacement is measured with an independent inverse; non-trivial: non-orthogonal '
        'lattice and more than one site; distinct by (lattice, sites)')
ASSUMPTIONS = ['lengths are compared to 1e-7 relative plus 1e-9 A', 'direction statistics (whole run): every '
               'octant of directions occurs between 5 and 20 percent of the time; consecutive sites share an '
               'octant less than 25 percent of the time']


def setup():
    global np, ModifiedCell, Site, GeneralCell
    import numpy as np
    from ababe.stru.scaffold import ModifiedCell, GeneralCell
    from ababe.stru.site import Site


def moved(ctx, before, after, b, want_vec=None, want_len=None, what=''):
    """Displacement judged modulo whole-cell moves."""
    diff = [y - x for x, y in zip(before, after)]
    vec = to_cart(diff, b)
    if want_vec is not None:
        d2 = [v - w for v, w in zip(vec, want_vec)]
        inv = inv3(b)
        f = [sum(d2[i] * inv[i][k] for i in range(3)) for k in range(3)]
        r = [x - floor(x + 0.5) for x in f]
        ctx.check(norm(to_cart(r, b)) < 1e-7 * (1 + norm(want_vec)), '%s: moved by another vector' % what,
                  got=vec, want=want_vec)
        return vec
    tol = 1e-7 * want_len + 1e-9
    if abs(norm(vec) - want_len) > tol:
        # allow the stored coordinate to be another image of the same point
        ds = distances_within(diff, b, want_len + 2 * tol)
        ok = any(abs(x - want_len) <= tol for x in ds)
        ctx.check(ok, '%s: moved by %.9g instead of %.9g' % (what, norm(vec), want_len))
    else:
        ctx.obs('oracle_verdicts')
    return vec


def case(ctx, i):
    rng = ctx.rng
    b, frac, nums = make(ctx, rng)
    if i % 200 == 9:
        m = rng.randint(70, 260)
        frac = [[rng.uniform(-0.5, 1.5) for _ in range(3)] for _ in range(m)]
        nums = [rng.choice([5, 6, 29]) for _ in frac]
        ctx.obs('hundreds_of_sites')
    n = len(nums)
    ctx.note['input'] = {'lattice': b, 'positions': frac, 'numbers': nums}
    mc = ModifiedCell(np.array(b), np.array(frac), np.array(nums))
    # conversions
    for _ in range(3):
        f = [rng.uniform(-2, 2) for _ in range(3)]
        c = np.array(mc.get_cartesian_from_frac(np.array(f)))
        w = to_cart(f, b)
        ctx.check(np.allclose(c, w, atol=1e-9), 'fractional to cartesian is wrong', got=c, want=w)
        back = np.array(mc.get_frac_from_cart(np.array(w)))
        ctx.check(np.allclose(back, f, atol=1e-7), 'cartesian to fractional is not the inverse', got=back, want=f)
        ctx.obs('conversions')
    many = np.array(frac)
    ctx.check(np.allclose(mc.get_cartesian_from_frac(many), [to_cart(f, b) for f in frac], atol=1e-9),
              'fractional to cartesian is wrong for many sites')
    # translate one site
    k = rng.randrange(n)
    v = [rng.uniform(-3, 3) for _ in range(3)]
    va = np.array(v)
    mc.translate_sites(k, va)
    ctx.check(va.tolist() == v, 'translating a site changed the vector it was given')
    for j in range(n):
        p = list(mc[j].position)
        if j == k:
            moved(ctx, frac[j], p, b, want_vec=v, what='translation of a site')
        else:
            ctx.check(tuple(p) == tuple(frac[j]), 'translating one site moved another')
        ctx.check(mc[j].element.Z == nums[j], 'translation changed an element')
    ctx.obs('translated_sites')
    if rng.random() < 0.5:
        # the same vector again, on another site or the same one
        k = rng.randrange(n)
        f = list(mc[k].position)
        mc.translate_sites(k, va)
        moved(ctx, f, list(mc[k].position), b, want_vec=v, what='second translation')
        ctx.obs('reused_vectors')
    # perturb all
    before = [list(s.position) for s in mc]
    x = rng.random()
    if x < 0.1:
        dist = 0.0
        ctx.obs('zero_distance')
    elif x < 0.75:
        dist = rng.choice([0.2, 0.01, 1e-4, rng.uniform(0, 1)])
    else:
        dist = rng.uniform(1, 12)
        ctx.obs('large_distance')
    default = rng.random() < 0.1
    if default:
        dist = 0.2
        mc.perturb()
    elif rng.random() < 0.5:
        mc.perturb(dist)
    else:
        mc.perturb(distance=dist)
    ctx.check(len(mc) == n, 'perturbation changed the number of sites')
    ctx.check(np.array_equal(np.array(mc.lattice), np.array(b)), 'perturbation changed the lattice')
    prev = None
    vecs = []
    for j in range(n):
        vec = moved(ctx, before[j], list(mc[j].position), b, want_len=dist, what='perturbation')
        ctx.check(mc[j].element.Z == nums[j], 'perturbation changed an element')
        if 1e-3 < dist < 1 and abs(norm(vec) - dist) < 1e-6:
            o = sum((vec[q] > 0) << q for q in range(3))
            ctx.obs('octant_%d' % o)
            for q in range(3):
                if abs(vec[q]) > 0.8 * dist:
                    ctx.obs('cap_%d' % q)
            for u in vecs:
                if norm([p - q for p, q in zip(u, vec)]) < 1e-5 * dist:
                    ctx.fail('two sites of a cell are perturbed in the same direction', at=vec)
            vecs.append(vec)
            if prev is not None:
                ctx.obs('neighbours_same' if prev == o else 'neighbours_differ')
            prev = o
        ctx.obs('perturbed_sites')
    # the same structure perturbed once more, and perturbed further: other directions every time
    if 1e-3 < dist < 1 and rng.random() < 0.3:
        twin = ModifiedCell(np.array(b), np.array(before), np.array(nums)) if rng.random() < 0.6 else mc
        start = [list(s.position) for s in twin]
        twin.perturb(dist)
        for j in range(n):
            vec = moved(ctx, start[j], list(twin[j].position), b, want_len=dist, what='second perturbation')
            for u in vecs:
                if norm([p - q for p, q in zip(u, vec)]) < 1e-5 * dist:
                    ctx.fail('a second perturbation moves a site in a direction of the first', at=vec)
        ctx.obs('second_perturbations')
    if n > 1 and any(abs(sum(b[p][q] * b[r][q] for q in range(3))) > 1e-3 for p, r in ((0, 1), (0, 2), (1, 2))):
        ctx.sig(b, frac)
        ctx.sample({'input': ctx.note['input'], 'translation': [k, v], 'distance': dist})


def finish(ctx):
    tot = sum(ctx.counts.get('octant_%d' % o, 0) for o in range(8))
    if tot >= 2000:
        for o in range(8):
            f = ctx.counts.get('octant_%d' % o, 0) / float(tot)
            if not 0.05 < f < 0.20:
                ctx.fail('perturbation directions are not spread over space: octant %d has %.3f of %d' % (o, f, tot))
        # a uniform direction has each coordinate beyond 0.8 of the length with probability 0.2
        for q in range(3):
            f = ctx.counts.get('cap_%d' % q, 0) / float(tot)
            if abs(f - 0.2) > 0.018 + 5 * (0.16 / tot) ** 0.5:
                ctx.fail('perturbation directions are not uniform: axis %d is approached by %.3f of %d, expected 0.200' % (q, f, tot))
        s, t = ctx.counts.get('neighbours_same', 0), ctx.counts.get('neighbours_differ', 0)
        if s + t > 1000 and s > 0.25 * (s + t):
            ctx.fail('sites of one cell are perturbed in the same direction (%d of %d)' % (s, s + t))
