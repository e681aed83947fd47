"""Space-group restriction decides by the group of the crystal, whatever its cell."""
from vlib import ab, gen
from vlib.exact import det3

ID = 'C10'
QUICK, THOROUGH = 1500, 25000
NEED = ['prototypes', 'generic', 'accepted', 'rejected', 'multi_digit_groups', 'symbol_digit_traps', 'nonprimitive_inputs',
        'one_restriction_many_cells', 'after_reassignment', 'same_species_other_lattice']
RULE = ('a case is a prototype of known space group, or a random crystal whose group number is computed by spglib '
        'on the bare input, in a random description (supercell, basis, origin, orientation), and lists of allowed '
        'groups with and without the right one; non-trivial: group number above 1; distinct by (group, '
        'metric, sites)')
ASSUMPTIONS = ['unambiguous symmetry', 'for crystals that are not prototypes the group number itself is spglib\'s; '
               'for prototypes it is tabulated here']
# tabulated, independent of any code
NUMBER = {'sc': 221, 'fcc': 225, 'bcc': 229, 'diamond': 227, 'zincblende': 216, 'rocksalt': 225, 'fluorite': 225,
          'heusler': 216, 'cscl': 221, 'perovskite': 221, 'l12': 221, 'hcp': 194, 'graphene': 191, 'bn': 194,
          'kagome': 191, 'tri': 191, 'tet': 123, 'tet2': 123, 'bct': 139, 'ortho': 47, 'rhomb': 166, 'mono': 10,
          'pyrite': 205, 'wurtzite': 186, 'cadmiumiodide': 164}
import re


def setup():
    global np, spglib, SpaceGroupRestriction, GeneralCell
    import numpy as np
    import spglib
    from ababe.stru.restriction import SpaceGroupRestriction
    from ababe.stru.scaffold import GeneralCell


def case(ctx, i):
    rng = ctx.rng
    if rng.random() < 0.5:
        name = rng.choice(sorted(NUMBER))
        for _ in range(20):
            cr = gen.proto(rng, name)
            k = rng.choice([1, 1, 2, 3, 4])
            tag = cr.tag
            if k > 1 and cr.n * k <= 16:
                cr = cr.supercell(rng.choice(gen.all_hnfs(k)))
                ctx.obs('nonprimitive_inputs')
            if rng.random() < 0.5:
                cr = cr.change_basis(gen.random_unimodular(rng, rng.choice([1, 2])))
            cr = cr.shift([rng.randrange(cr.D) for _ in range(3)])
            cr.tag = tag
            d = gen.describe(cr, rng, noise=rng.choice([0, 1e-6]))
            if gen.unambiguous(cr, d.basis, d.frac, d.order, ab.LO, ab.HI):
                break
        else:
            return
        want = NUMBER[name]
        ctx.note['input'] = d.as_dict()
        ctx.obs('prototypes')
    else:
        cr, d = ab.pick(ctx, rng.choice([3, 6, 12]), kind=rng.choice([None, gen.crystal_orbits]))
        L, P, N = ab.arrays(d)
        want = int(spglib.get_symmetry_dataset((L, P, N), symprec=1e-3)['number'])
        ctx.obs('generic')
    cell = ab.gcell(d)
    sg = cell.get_spacegroup()
    ctx.check(int(re.findall(r'\((\d+)\)\s*$', sg)[0]) == want, 'space group reported as %s, is %d' % (sg, want))
    if want >= 10:
        ctx.obs('multi_digit_groups')
    digits = set(int(x) for x in re.findall(r'\d+', sg.split('(')[0])) | set(int(c) for c in sg.split('(')[0] if c.isdigit())
    traps = sorted(digits - {want}) + [want // 10, want % 10, want % 100, want + 1, want - 1]
    if digits - {want}:
        ctx.obs('symbol_digit_traps')
    others = [x for x in set(traps + rng.sample(range(1, 231), 10)) if 1 <= x <= 230 and x != want]
    for lst in ([want], others + [want], sorted(others + [want]), list(range(1, 231)), tuple([want])):
        ctx.check(bool(SpaceGroupRestriction(lst).is_satisfied(cell)) is True,
                  'a crystal of group %d (%s) was rejected although listed' % (want, sg), allowed=lst)
        ctx.obs('accepted')
    for lst in ([], others, [x for x in range(1, 231) if x != want], others[:1]):
        ctx.check(bool(SpaceGroupRestriction(lst).is_satisfied(cell)) is False,
                  'a crystal of group %d (%s) was accepted although not listed' % (want, sg), allowed=lst)
        ctx.obs('rejected')
    # one restriction object over this crystal, a changed one and this one again
    keep = SpaceGroupRestriction([want])
    sp = sorted(set(cr.nums))
    for _ in range(4):
        nn = [rng.choice(sp + [88]) for _ in cr.nums]
        c2 = cr.with_nums(nn)
        if gen.unambiguous(c2, d.basis, d.frac, d.order, ab.LO, ab.HI):
            break
    else:
        c2 = None
    ctx.check(bool(keep.is_satisfied(cell)) is True, 'a kept restriction rejects a crystal of its group')
    if c2 is not None:
        # species are assigned in the order in which the cell lists its sites
        m = ab.site_map(cell.positions, ab.exact_order(d))
        ctx.check(m is not None, 'the cell does not sit on the given sites')
        listed = [nn[j] for j in m]
        L, P, N = np.array(d.basis), np.array(cell.positions), np.array(cell.numbers)
        other = int(spglib.get_symmetry_dataset((L, P, np.array(listed)), symprec=1e-3)['number'])
        cell.numbers = np.array(listed)
        ctx.check(bool(keep.is_satisfied(cell)) == (other == want),
                  'group %d after assigning another occupation, restriction to %d answers otherwise' % (other, want), numbers=listed)
        ctx.check(bool(SpaceGroupRestriction([other]).is_satisfied(cell)) is True,
                  'group %d after assigning another occupation is not recognised' % other, numbers=listed)
        cell.numbers = N
        ctx.check(bool(keep.is_satisfied(cell)) is True, 'a kept restriction rejects a crystal of its group')
        ctx.obs('after_reassignment')
        if other != want:
            ctx.obs('one_restriction_many_cells')
    # the same species on the same fractional sites of another lattice, listed alike: another crystal
    for _ in range(2):
        L = np.array([[rng.uniform(-1, 1) + (rng.uniform(3, 6) if p == q else 0) for q in range(3)] for p in range(3)])
        P, N = np.array(cell.positions), np.array(cell.numbers)
        data = spglib.get_symmetry_dataset((L, P, N), symprec=1e-3)
        if data is None:
            continue
        other = int(data['number'])
        twin = GeneralCell(L, P.copy(), N.copy())
        if rng.random() < 0.5:
            twin.numbers = N.copy()
        ctx.check(bool(keep.is_satisfied(twin)) == (other == want) and bool(SpaceGroupRestriction([other]).is_satisfied(twin)),
                  'a restriction to %d answers otherwise for a crystal of group %d with the species of an earlier one' % (want, other),
                  lattice=L)
        ctx.check(bool(keep.is_satisfied(cell)) is True, 'a kept restriction rejects a crystal of its group')
        if other != want:
            ctx.obs('same_species_other_lattice')
    if want > 1:
        ctx.sig(want, cr.g, cr.pos)
        ctx.sample({'input': ctx.note['input'], 'group': sg})
    ctx.obs('group_%03d' % want)
