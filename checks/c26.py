"""Asking does not change: queries and enumerations leave structures alone and repeat their answers."""
import io
import sys

from vlib import ab, gen, files

ID = 'C26'
QUICK, THOROUGH = 900, 15000
NEED = ['queries', 'repeat_answers', 'snapshots_compared', 'handed_out_structures', 'numbers_assigned', 'caller_arrays_checked', 'copies_checked',
        'modified_cell_ops', 'own_tolerance']
RULE = ('a case is a random cell object taken through a random history of queries, enumerations, conversions and writes; '
        'after every step the object, the arrays it was built from and all structures handed out so far are compared with '
        'snapshots, and each answer with that of a fresh object; non-trivial: at least 8 steps; distinct by (cell, history)')
ASSUMPTIONS = ['callers do not write into arrays they obtained from a structure']


def setup():
    global np, GeneralCell, ModifiedCell, OccupyGenerator, SLG, SLG2, MinD, SpgR, VO, YO, GeneralIO, Clar
    import numpy as np
    from ababe.stru.scaffold import GeneralCell, ModifiedCell
    from ababe.stru.sogen import OccupyGenerator
    from ababe.stru.grid import SuperLatticeGenerator as SLG, SuperLatticeGenerator2D as SLG2
    from ababe.stru.restriction import MinDistanceRestriction as MinD, SpaceGroupRestriction as SpgR
    from ababe.io.vasp import VaspOutput as VO
    from ababe.io.yaml import YamlOutput as YO
    from ababe.io.io import GeneralIO
    from ababe.stru.clarifier import AtomRemoveClarifier as Clar


def snap(c):
    return (np.array(c.lattice).tolist(), np.array(c.positions).tolist(), np.array(c.numbers).tolist(), getattr(c, 'symprec', None))


def plain(x):
    if isinstance(x, dict):
        return sorted((k, plain(v)) for k, v in x.items() if k in ('rotations', 'translations'))
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if hasattr(x, 'positions'):
        return snap(x)
    if hasattr(x, 'tolist'):
        return x.tolist()
    return x


def queries(rng, nums):
    e = rng.choice(nums)
    H = rng.choice([np.diag([1, 2, 1]), np.diag([2, 1, 1]), np.array([[1, 1, 0], [0, 2, 0], [0, 0, 1]])])
    dist = rng.choice([1.0, 2.5, 4.0])
    sp = ab.specie
    return {
        'symmetry': lambda c: c.get_symmetry(),
        'permutations': lambda c: c.get_symmetry_permutation(),
        'wyckoffs': lambda c: list(c.get_wyckoffs()),
        'spacegroup': lambda c: c.get_spacegroup(),
        'is_primitive': lambda c: c.is_primitive(),
        'refined': lambda c: c.get_refined_cell(),
        'pcell': lambda c: c.get_refined_pcell(),
        'shaped': lambda c: c.get_shaped_cell(),
        'cartesian': lambda c: c.get_cartesian(),
        'cartesian_of': lambda c: c.get_cartesian(sp(e)),
        'supercell': lambda c: c.supercell(H),
        'comment': lambda c: c.comment,
        'id': lambda c: c.id,
        'count': lambda c: (c.num_count, c.get_speckle_num(sp(e))),
        'min_distance': lambda c: MinD((sp(e), dist)).is_satisfied(c),
        'spacegroup_in': lambda c: SpgR([1, 2, 225, 221, 123]).is_satisfied(c),
        'poscar': lambda c: VO(c).get_string(),
        'poscar_cartesian': lambda c: VO(c).get_string(direct=False),
        'yaml': lambda c: YO(c).get_string(),
        'spg_cell': lambda c: [np.array(x).tolist() for x in c.spg_cell],
        'modified': lambda c: snap(ModifiedCell.from_gcell(c).to_gcell()),
        'printed': printed,
        'superlattices': lambda c: [s.lat_coeff.tolist() for s in SLG2.hnfs_from_n(c, 2)],
        'superlattice_cells': lambda c: [snap(s.to_general_cell()) for s in SLG2.hnfs_from_n_dups(c, 2)],
        'cleared': lambda c: snap(Clar([[0.0, 0.0, 0.0]], 1.5).clarify(ModifiedCell.from_gcell(c))),
        'sphere': lambda c: sorted(ModifiedCell.from_gcell(c).get_points_incell_insphere([0.1, 0.2, 0.3], 2.5)),
    }


def printed(c):
    old, sys.stdout = sys.stdout, io.StringIO()
    try:
        GeneralIO(c).write_file(fname=None, fmt='yaml')
        return sys.stdout.getvalue()
    finally:
        sys.stdout = old


def fresh(s):
    return GeneralCell(np.array(s[0]), np.array(s[1]), np.array(s[2]), symprec=s[3])


def case(ctx, i):
    rng = ctx.rng
    if i % 4 == 3:
        return modified(ctx, rng)
    cr, d = ab.pick(ctx, rng.choice([2, 4, 8]), noise=0)
    arr = ab.arrays(d)
    mine = [a.copy() for a in arr]
    prec = rng.choice([None, None, 1e-2, 1e-4, 1e-5])
    cell = GeneralCell(*arr) if prec is None else GeneralCell(*arr, symprec=prec)
    if prec is not None:
        ctx.obs('own_tolerance')
    base = snap(cell)
    nums = list(cr.nums)
    Q = queries(rng, nums)
    names = sorted(Q)
    hist = []
    handed = []
    asked = set()
    ctx.note['history'] = hist
    og = None
    for step in range(rng.randint(6, 16)):
        x = rng.random()
        if x < 0.62:
            q = rng.choice(names)
            hist.append(q)
            try:
                got = plain(Q[q](cell))
            except ValueError:
                got = 'ValueError'
            try:
                want = plain(Q[q](fresh(base)))
            except ValueError:
                want = 'ValueError'
            ctx.check(got == want, 'after %s: %s answers differently from a fresh object' % (hist[:-1], q), got=got, want=want)
            ctx.obs('queries')
            if q in asked:
                ctx.obs('repeat_answers')
            asked.add(q)
        elif x < 0.9:
            z = rng.choice([5, 22, 0])
            k = rng.choice([1, 1, 2])
            if og is None or rng.random() < 0.5:
                og = OccupyGenerator(cell)
            e = rng.choice(list(cell.numbers.tolist()))
            kind = rng.choice(['unitary', 'element', 'ternary', 'levels'])
            hist.append(kind)
            if kind == 'unitary':
                it = og.gen_nodup_unitary(k, ab.specie(z))
            elif kind == 'element':
                it = og.gen_nodup_of_ele(ab.specie(e), k, ab.specie(z))
            elif kind == 'ternary':
                it = og.gen_nodup_trinary_alloy(ab.specie(z), 1, ab.specie(13), 1)
            else:
                it = (c for lev in og.all_speckle_gen_unitary(cell.get_speckle_num(ab.specie(z)) + 2, ab.specie(z)) for c in lev)
            stop = rng.choice([1, 3, 10 ** 6])
            for c in it:
                handed.append((c, snap(c), hist[-1]))
                ctx.obs('handed_out_structures')
                if len(handed) > 400 or stop <= 1:
                    break
                stop -= 1
        else:
            # assigning species: every later answer is about the new structure
            hist.append('numbers')
            new = np.array([rng.choice(nums + [13]) for _ in nums])
            keep = new.tolist()
            cell.numbers = new
            base = (base[0], base[1], keep, base[3])
            og = None
            asked.clear()
            ctx.obs('numbers_assigned')
        ctx.check(snap(cell) == base, 'after %s the structure itself is different' % hist, got=snap(cell), want=base)
        ctx.obs('snapshots_compared')
        for a, b in zip(arr, mine):
            ctx.check(np.array_equal(a, b), 'after %s the arrays of the caller are different' % hist)
        ctx.obs('caller_arrays_checked')
        for c, s, h in handed[-60:]:
            if snap(c) != s:
                ctx.fail('a structure handed out earlier by %s changed during %s' % (h, hist), was=s, now=snap(c))
    if len(hist) >= 8:
        ctx.sig(tuple(hist), tuple(map(tuple, base[1])))
        ctx.sample({'input': ctx.note['input'], 'history': hist})


def modified(ctx, rng):
    """Editable cells: conversions give independent objects."""
    cr, d = ab.pick(ctx, rng.choice([2, 5, 8]), noise=0)
    g = ab.gcell(d)
    g0 = snap(g)
    m = ModifiedCell.from_gcell(g)
    m0 = snap(m)
    ctx.check(m0[:3] == g0[:3], 'the editable form differs from the cell')
    out = m.to_gcell()
    o0 = snap(out)
    ctx.check(o0[:3] == g0[:3], 'the editable form converted back differs', got=o0, want=g0)
    cp = m.copy()
    hist = []
    ctx.note['history'] = hist
    tgt, other = (m, cp) if rng.random() < 0.5 else (cp, m)
    for _ in range(rng.randint(2, 6)):
        op = rng.choice(['perturb', 'translate', 'remove', 'append', 'element', 'clear', 'position'])
        hist.append(op)
        if op == 'perturb':
            tgt.perturb(0.3)
        elif op == 'translate' and len(tgt):
            tgt.translate_sites(rng.randrange(len(tgt)), np.array([0.1, 0.2, -0.3]))
        elif op == 'remove' and len(tgt) > 1:
            tgt.remove_sites([rng.randrange(len(tgt))])
        elif op == 'append':
            from ababe.stru.site import Site
            tgt.append_site(Site((rng.random(), 0.1, 0.2), 13))
        elif op == 'element' and len(tgt):
            tgt[rng.randrange(len(tgt))].element = ab.specie(47)
        elif op == 'position' and len(tgt):
            tgt[rng.randrange(len(tgt))].position = (0.123, 0.4, 0.5)
        elif op == 'clear':
            r = Clar([[0.0, 0.0, 0.0]], 0.9).clarify(tgt)
        ctx.obs('modified_cell_ops')
        ctx.check(snap(g) == g0, 'editing an editable form (%s) changed the cell it came from' % hist)
        ctx.check(snap(out) == o0, 'editing an editable form (%s) changed the cell made from it' % hist)
        ctx.check(snap(other) == m0, 'editing a copy (%s) changed the original or the reverse' % hist)
        ctx.obs('copies_checked')
    ctx.check(not (tgt == other) or snap(tgt) == snap(other) or np.allclose(tgt.positions, other.positions), 'equality')
    ctx.sig('m', tuple(hist), tuple(map(tuple, d.frac)))
