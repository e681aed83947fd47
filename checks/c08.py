"""Standardised, primitive and reshaped cells describe the same crystal."""
from vlib import ab, gen
from vlib.exact import det3
from vlib.iso import Same

ID = 'C08'
QUICK, THOROUGH = 2000, 12000
NEED = ['primitive_true', 'primitive_false', 'refined', 'pcell', 'shaped', 'nonprimitive_reduced', 'skewed_inputs',
        'ghost_cells', 'many_sites', 'reassigned']
RULE = ('a case is a random crystal in a random (possibly non-primitive, skewed, rotated) cell; the three derived '
        'cells are compared with it by volume per atom, composition and per-atom distance environments; '
        'non-trivial: more than one atom and a cell that is not already the result; distinct by '
        '(metric, sites, species)')
ASSUMPTIONS = ['unambiguous symmetry', 'sameness is decided on distances up to about 40 neighbours per atom, '
               'so it does not tell a crystal from its mirror image']


def setup():
    global np, spglib
    import numpy as np
    import spglib


def case(ctx, i):
    rng = ctx.rng
    if i % 100 == 41:
        cr, d = ab.pick(ctx, 64, kind=rng.choice([gen.crystal_super, bravais]), want=lambda c: c.n > 30, noise=0)
        ctx.obs('many_sites', cr.n > 30)
    else:
        cr, d = ab.pick(ctx, rng.choice([2, 4, 8, 16]), noise=rng.choice([0, 0, 1e-6]))
    if cr.n <= 30 and rng.random() < 0.4:
        cr2 = cr.change_basis(gen.random_unimodular(rng, rng.choice([1, 2])))
        d2 = gen.describe(cr2, rng)
        if gen.unambiguous(cr2, d2.basis, d2.frac, d2.order, ab.LO, ab.HI):
            cr, d = cr2, d2
            ctx.note['input'] = d.as_dict()
            ctx.obs('skewed_inputs')
    if 0 in cr.nums:
        ctx.obs('ghost_cells')
    cell = ab.gcell(d)
    keep = (np.array(cell.lattice).tolist(), cell.positions.tolist(), cell.numbers.tolist())
    nt = cr.n_translations()
    prim = cell.is_primitive()
    ctx.check(bool(prim) == (nt == 1), 'primitive verdict %s, the cell holds %d primitive cells' % (prim, nt))
    ctx.obs('primitive_true' if nt == 1 else 'primitive_false')
    ref = Same(d.basis, d.frac, d.nums)
    spg = cell.get_spacegroup()
    out = {}
    for name, f in (('refined', cell.get_refined_cell), ('pcell', cell.get_refined_pcell),
                    ('shaped', cell.get_shaped_cell)):
        c = f()
        out[name] = c
        nums = [int(x) for x in c.numbers]
        if len(nums) != len(c.positions):
            ctx.fail('%s: %d species for %d sites' % (name, len(nums), len(c.positions)))
        why = ref.mismatch(np.array(c.lattice).tolist(), c.positions.tolist(), nums)
        ctx.check(why is None, '%s cell is another crystal: %s' % (name, why), lattice=c.lattice,
                  positions=c.positions, numbers=nums)
        ctx.obs(name)
        ctx.obs('environments_compared', len(nums))
    ctx.check(len(out['pcell'].numbers) * nt == cr.n, 'primitive cell has %d atoms, %d expected'
              % (len(out['pcell'].numbers), cr.n // nt))
    ctx.check(bool(out['pcell'].is_primitive()), 'the primitive cell is not primitive')
    ctx.check(len(out['shaped'].numbers) == cr.n, 'reshaping changed the number of atoms')
    ctx.check(len(out['refined'].numbers) * nt % cr.n == 0, 'the refined cell is not a multiple of the primitive one')
    for name in ('refined', 'pcell'):
        # spglib itself now and then misjudges a cell it has just standardised
        std = spglib.standardize_cell(cell.spg_cell, to_primitive=name == 'pcell', no_idealize=False, symprec=1e-3)
        if spglib.get_spacegroup(std, symprec=1e-3) != spglib.get_spacegroup(cell.spg_cell, symprec=1e-3):
            ctx.obs('spglib_contradicts_itself')
            continue
        ctx.check(out[name].get_spacegroup() == spg, '%s cell has space group %s, the original %s'
                  % (name, out[name].get_spacegroup(), spg))
    if nt > 1:
        ctx.obs('nonprimitive_reduced')
    now = (np.array(cell.lattice).tolist(), cell.positions.tolist(), cell.numbers.tolist())
    ctx.check(keep == now, 'deriving a cell modified the original')
    if cr.n <= 16 and rng.random() < 0.35:
        reassigned(ctx, rng, cell, cr, d)
    if cr.n > 1:
        ctx.sig(cr.g, cr.pos, cr.nums)
        ctx.sample({'input': ctx.note['input'], 'space group': spg, 'primitive cells inside': nt,
                    'atoms': {k: len(v.numbers) for k, v in out.items()}})


def reassigned(ctx, rng, cell, cr, d):
    """The same questions after another occupation was assigned."""
    zs = sorted(set(cr.nums))
    if rng.random() < 0.3:
        c2 = cr.with_nums([rng.choice(zs)] * cr.n)
    else:
        c2 = cr.with_nums([rng.choice(zs + [88]) for _ in cr.nums])
    if not gen.unambiguous(c2, d.basis, d.frac, d.order, ab.LO, ab.HI):
        return
    m = ab.site_map(cell.positions, ab.exact_order(d))
    if m is None:
        return
    listed = [c2.nums[j] for j in m]
    cell.numbers = np.array(listed)
    nt = c2.n_translations()
    ctx.check(bool(cell.is_primitive()) == (nt == 1), 'primitive verdict %s after another occupation was assigned, the cell '
              'holds %d primitive cells' % (cell.is_primitive(), nt), numbers=listed)
    ref = Same(np.array(cell.lattice).tolist(), cell.positions.tolist(), listed)
    for name, f in (('refined', cell.get_refined_cell), ('pcell', cell.get_refined_pcell), ('shaped', cell.get_shaped_cell)):
        c = f()
        why = ref.mismatch(np.array(c.lattice).tolist(), c.positions.tolist(), [int(x) for x in c.numbers])
        ctx.check(why is None, '%s cell is another crystal after another occupation was assigned: %s' % (name, why), numbers=listed)
        if name == 'pcell':
            ctx.check(len(c.numbers) * nt == cr.n, 'primitive cell has %d atoms, %d expected' % (len(c.numbers), cr.n // nt))
    ctx.obs('reassigned')


def bravais(rng, nmax):
    """One atom per primitive cell: every site of the supercell is a lattice point."""
    return gen.crystal_super(rng, nmax, rng.choice(['sc', 'fcc', 'bcc', 'tri']))
