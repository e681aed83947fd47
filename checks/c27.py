"""The symmetry tolerance given to a cell is the one its answers use."""
import re
from itertools import product

from vlib import ab, gen
from vlib.exact import reduced_basis, norm, canon, to_cart, sublattice_classes, hnf_rows
from checks.c03 import group_of

ID = 'C27'
QUICK, THOROUGH = 1200, 20000
NEED = ['finer_than_distortion', 'coarser_than_distortion', 'undistorted', 'groups_matched', 'primitive_true',
        'primitive_false', 'classes_matched', 'answers_differ', 'default_tolerance', 'superlattices_matched']
RULE = ('a case is a crystal with one site displaced by a chosen amount, given to a cell with a tolerance well below '
        'or well above the displacement; permutations, operations, space group, primitivity, derived cells and '
        'enumerated classes are compared with the exact group of the displaced or the undisplaced crystal; '
        'non-trivial: the two groups differ; distinct by (metric, sites, species, tolerance)')
ASSUMPTIONS = ['the group is the same for every tolerance from 0.3 to 6 times the one given', 'tolerances from 1e-6 to 0.06 A']


def setup():
    global np, spglib, GeneralCell, OccupyGenerator, SuperLatticeGenerator, SuperLatticeGenerator2D
    import numpy as np
    import spglib
    from ababe.stru.scaffold import GeneralCell
    from ababe.stru.sogen import OccupyGenerator
    from ababe.stru.grid import SuperLatticeGenerator, SuperLatticeGenerator2D
    import checks.c03
    checks.c03.setup()


def plain_metric(cr, hi):
    """No change of basis nearly preserves the lengths and angles of the primitive lattice without doing so exactly
    (a tolerance coarse enough would have to call such a lattice more symmetric than it is)."""
    b = cr.basis()
    if cr.n_translations() > 1:
        b = spglib.find_primitive((np.array(b), np.array(cr.frac()), np.array(cr.nums)), symprec=1e-5)[0].tolist()
    b = reduced_basis(b)
    dot = lambda u, v: u[0] * v[0] + u[1] * v[1] + u[2] * v[2]
    vecs = [to_cart(f, b) for f in product((-1, 0, 1), repeat=3) if any(f)]
    lens = [norm(r) for r in b]
    near = [[v for v in vecs if abs(norm(v) - lens[k]) < hi] for k in range(3)]
    for u in near[0]:
        for v in near[1]:
            e1 = abs(dot(u, v) - dot(b[0], b[1])) / max(lens[0], lens[1])
            if e1 > hi:
                continue
            for w in near[2]:
                e = max(e1, abs(dot(u, w) - dot(b[0], b[2])) / max(lens[0], lens[2]),
                        abs(dot(v, w) - dot(b[1], b[2])) / max(lens[1], lens[2]),
                        abs(norm(u) - lens[0]), abs(norm(v) - lens[1]), abs(norm(w) - lens[2]))
                if 1e-7 < e < hi:
                    return False
    return True


def number(text):
    return int(re.findall(r'\((\d+)\)\s*$', text)[0])


def case(ctx, i):
    rng = ctx.rng
    for _ in range(40):
        par = rng.choice([gen.crystal_super, gen.crystal_super, gen.crystal_orbits])(rng, rng.choice([2, 4, 8, 12]))
        mode = rng.choice(['finer', 'coarser', 'coarser', 'undistorted'])
        if mode == 'undistorted':
            cr, amp = par, 0
            tol = rng.choice([1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.03, 0.06])
        else:
            amp = rng.choice([2e-5, 1e-4, 1e-3, 3e-3, 0.01, 0.03])
            if mode == 'finer':
                tol = amp / rng.choice([15, 30, 100])
            else:
                tol = min(0.06, amp * rng.choice([8, 12, 20]))
            cr = gen.displaced(rng, par, amp, amp / 8)
            cr.tag = 'displaced-%g' % amp
        if rng.random() < 0.3:
            # another basis of the same lattice
            U = gen.random_unimodular(rng, 1)
            par, cr = par.change_basis(U), cr.change_basis(U)
        d = gen.describe(cr, rng, rotate=rng.random() < 0.7)
        judge = par if mode == 'coarser' else cr
        if min(norm(r) for r in reduced_basis(d.basis)) < 15 * tol:
            continue
        if not plain_metric(judge, 12 * tol):
            ctx.obs('descriptions_rejected_ambiguous')
            continue
        if gen.unambiguous(judge, d.basis, d.frac, d.order, 0.3 * tol, 6 * tol):
            break
        ctx.obs('descriptions_rejected_ambiguous')
    else:
        return
    ctx.note['input'] = dict(d.as_dict(), tolerance=tol, displaced_by=amp)
    ctx.obs({'finer': 'finer_than_distortion', 'coarser': 'coarser_than_distortion'}.get(mode, mode))
    L, P, N = ab.arrays(d)
    if tol == 1e-3 and rng.random() < 0.5:
        cell = GeneralCell(L, P, N)
        ctx.obs('default_tolerance')
    elif rng.random() < 0.5:
        cell = GeneralCell(L, P, N, tol)
    else:
        cell = GeneralCell(L, P, N, symprec=tol)
    want = set(judge.perms())
    differ = mode != 'undistorted' and len(judge.ops()) != len((cr if judge is par else par).ops())
    ctx.obs('answers_differ', int(differ))

    def look(when):
        got = group_of(ctx, cell, d, 'symmetry permutations' + when)
        ctx.check(got == want, 'symmetry permutations%s at tolerance %g: %d reported, %d exist'
                  % (when, tol, len(got), len(want)))
        n = len(cell.get_symmetry()['rotations'])
        ctx.check(n == len(judge.ops()), 'symmetry operations%s at tolerance %g: %d reported, %d exist'
                  % (when, tol, n, len(judge.ops())))
        # the space group of the crystal meant, without any displacement to argue about
        ref = spglib.get_symmetry_dataset((np.array(judge.basis()), np.array(judge.frac()), np.array(judge.nums)),
                                          symprec=min(1e-5, tol))
        own = spglib.get_spacegroup((L, P, N), symprec=tol)
        if number(own) != int(ref['number']):
            ctx.obs('spglib_contradicts_itself')
            return
        ctx.check(number(cell.get_spacegroup()) == int(ref['number']), 'space group%s at tolerance %g: %s, is %d'
                  % (when, tol, cell.get_spacegroup(), ref['number']))
        ctx.obs('groups_matched')

    look('')
    nt = judge.n_translations()
    ctx.check(bool(cell.is_primitive()) == (nt == 1), 'primitive verdict %s at tolerance %g, the cell holds %d primitive cells'
              % (cell.is_primitive(), tol, nt))
    ctx.obs('primitive_true' if nt == 1 else 'primitive_false')
    m = len(cell.get_refined_pcell().numbers)
    ctx.check(m * nt == judge.n, 'primitive cell at tolerance %g has %d atoms, %d expected' % (tol, m, judge.n // nt))
    m = len(cell.get_refined_cell().numbers)
    ctx.check(m * nt % judge.n == 0, 'refined cell at tolerance %g has %d atoms' % (tol, m))
    m = len(cell.get_shaped_cell().numbers)
    ctx.check(m == judge.n, 'reshaped cell at tolerance %g has %d atoms, %d expected' % (tol, m, judge.n))
    # sites that the group connects carry one Wyckoff letter
    w = list(cell.get_wyckoffs())
    sm = ab.site_map(cell.positions, ab.exact_order(d))
    letter = dict((s, w[k]) for k, s in enumerate(sm))
    for p in want:
        for a, b in enumerate(p):
            if letter[a] != letter[b]:
                ctx.fail('equivalent sites carry the letters %s and %s at tolerance %g' % (letter[a], letter[b], tol))
    # enumeration under that group
    n = judge.n
    if n > 1:
        k = rng.randint(1, min(n, 3))
        og = OccupyGenerator(cell)
        sp = ab.specie(88)
        plist = sorted(want)
        seen = {}
        total = set()
        from itertools import combinations
        for c in combinations(range(n), k):
            x = list(judge.nums)
            for j in c:
                x[j] = 88
            total.add(canon(x, plist))
        for s in ab.drain(ctx, og.gen_nodup_unitary(k, sp), len(total) * 3 + 40, 'enumeration'):
            r = canon(list(ab.decode(ctx, s, d)), plist)
            if r in seen:
                ctx.fail('two equivalent structures at tolerance %g' % tol)
            seen[r] = 1
        ctx.check(set(seen) == total, '%d classes at tolerance %g, %d exist' % (len(seen), tol, len(total)))
        ctx.obs('classes_matched', len(total))
    # superlattices under that group
    if rng.random() < 0.4:
        twod = rng.random() < 0.5
        vol = rng.choice([2, 3, 4] if twod or len(judge.rotations()) <= 16 else [2, 3])
        cls, k, subs = sublattice_classes(vol, judge.rotations(), twod)
        G = SuperLatticeGenerator2D if twod else SuperLatticeGenerator
        got = [cls.get(hnf_rows(s.lat_coeff.tolist())) for s in ab.drain(ctx, G.hnfs_from_n(cell, vol), len(subs), 'superlattices')]
        ctx.check(None not in got and len(got) == k and len(set(got)) == k,
                  '%d superlattices of volume %d at tolerance %g, %d classes exist' % (len(got), vol, tol, k))
        ctx.obs('superlattices_matched', k)
    # the tolerance survives another occupation and back
    if rng.random() < 0.3:
        keep = cell.numbers.copy()
        cell.numbers = np.array([88] * n)
        cell.get_spacegroup()
        cell.numbers = keep
        look(' after an occupation and back')
    if differ:
        ctx.sig(cr.g, cr.pos, cr.nums, tol)
        ctx.sample(ctx.note['input'])
