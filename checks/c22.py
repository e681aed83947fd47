"""Occupation commands write one file per qualifying symmetry class."""
import os
import random
import re

from vlib import ab, gen, cli, files
from vlib.exact import orbits, substitutions, reduced_basis, min_image, norm
from vlib.iso import Same, Matching
from itertools import combinations
from math import factorial

ID = 'C22'
QUICK, THOROUGH = 1000, 20000
BUDGET = {'quick': 600, 'thorough': 3400}
NEED = ['ocumaker', 'ocubiter', 'ocutenter', 'ocumakert', 'files_checked', 'refined_files', 'unrefined_files', 'vasp_files', 'yaml_files',
        'restricted', 'restriction_rejects', 'nonprimitive_rejected', 'nonprimitive_kept', 'vacancies', 'default_number', 'repeated_runs',
        'stuttering_names', 'zoom_option', 'zoom_in_file', 'default_element', 'several_elements', 'a_later_restriction_decides',
        'species_already_there', 'completed_to_nonprimitive', 'eight_equivalent_sites', 'one_atom_defaults', 'input_elsewhere', 'hundreds_of_files']
RULE = ('a case is one run of an occupation command (random crystal, element, species, counts, distance restriction, '
        'refined or not, output format) in a scratch directory; the files written are matched one to one with the exact '
        'symmetry classes that qualify; non-trivial: at least 2 classes; distinct by (command, crystal, options)')
ASSUMPTIONS = ['input numbers have 4 decimals; symmetry is unambiguous at the tolerance used',
               'for enumerations up to a count the new species do not occur in the input', 'refined files are matched by interatomic distances']


def setup():
    global np, CMD
    import numpy as np
    from ababe.cmdline.runabalib import exec_from_cmdline as CMD


def nCk(n, k):
    return 0 if k < 0 or k > n else factorial(n) // factorial(k) // factorial(n - k)


def ternary(nums, idx, n1, z1, n2, z2):
    out = []
    for c1 in combinations(idx, n1):
        rest = [j for j in idx if j not in c1]
        for c2 in combinations(rest, n2):
            c = list(nums)
            for j in c1:
                c[j] = z1
            for j in c2:
                c[j] = z2
            out.append(tuple(c))
    return out


def part_done(rng, nmax):
    """A supercell with some translates of one atom already substituted."""
    for _ in range(30):
        cr = gen.crystal_super(rng, nmax)
        tr = [p for W, t, p in cr.ops() if W == ((1, 0, 0), (0, 1, 0), (0, 0, 1))]
        if len(tr) > 1 and 0 not in cr.nums:
            k = rng.randrange(cr.n)
            orb = sorted(set(p[k] for p in tr))
            q = rng.sample(orb, max(1, len(orb) - rng.choice([1, 1, 2])))
            nums = list(cr.nums)
            for j in q:
                nums[j] = 47
            return cr.with_nums(nums)
    return gen.crystal_super(rng, nmax)


def cube(rng):
    return gen.proto(rng, rng.choice(['fcc', 'fcc', 'bcc', 'sc'])).supercell([[2, 0, 0], [0, 2, 0], [0, 0, 2]])


def lowsym(rng, nmax):
    """Ten to twelve sites of one element and hardly any symmetry: hundreds of classes."""
    for _ in range(200):
        cr = gen.crystal_random(rng, nmax)
        if cr.n >= 11:
            e = rng.choice(cr.nums)
            c = cr.with_nums([e if e else 6] * cr.n)
            if len(c.perms()) <= 2:
                c.tag = cr.tag
                return c
    return gen.crystal_super(rng, nmax)


def min_dist(cfg, z, basis, ref, rb):
    sel = [k for k in range(len(cfg)) if cfg[k] == z]
    if not sel:
        return 9e9
    best = min(norm(r) for r in rb)
    for a, b in combinations(sel, 2):
        best = min(best, min_image([x - y for x, y in zip(ref[a], ref[b])], basis, rb))
    return best


def case(ctx, i):
    rng = ctx.rng
    cmd = ['ocumaker', 'ocubiter', 'ocutenter', 'ocumakert'][i % 4]
    nmax = {'ocumaker': 10, 'ocubiter': 12, 'ocutenter': 9, 'ocumakert': 6}[cmd]
    low = rng.choice([1, 2, 2, 4, 4, 4, 4])
    kind = (lambda r, n: gen.crystal_orbits(r, n, D=r.choice([4, 8, 16, 20]))) if rng.random() < 0.25 else None
    almost = cmd in ('ocubiter', 'ocutenter') and rng.random() < 0.25
    if almost:
        kind = part_done
    roomy = cmd == 'ocumakert' and not kind and rng.random() < 0.05
    if roomy:
        # eight equivalent sites: the only way to large counts with few classes
        kind = lambda r, n: cube(r)
    many = i % 125 in (61, 122) and not almost
    if many:
        kind, low, nmax = lowsym, 10, 12
    cr, d = cli.pick4(ctx, nmax, kind=kind, want=lambda c: c.n >= low and (low > 1 or c.n < 3))
    if cr is None:
        return
    nums = tuple(cr.nums)
    perms = cr.perms()
    e = rng.choice(nums)
    idx = [k for k in range(cr.n) if nums[k] == e]
    m = len(idx)
    free = [z for z in [0, 5, 13, 22, 31, 47, 79] if z not in nums]
    z, z2 = rng.sample(free, 2)
    if rng.random() < 0.4 and 0 in free:
        z = 0
        z2 = rng.choice([y for y in free if y])
    if almost:
        # the species asked for is already there, on sites the substitution may complete
        have = [y for y in set(nums) if y != e]
        if have:
            z = rng.choice(sorted(have))
            z2 = rng.choice([y for y in free if y != z])
            ctx.obs('species_already_there')
    args = []
    default_e = len(set(nums)) == 1 and rng.random() < (0.5 if cr.n > 1 else 0.8)
    long_ = rng.random() < 0.5
    if not default_e:
        args += (['--element'] if long_ or cmd in ('ocutenter', 'ocumakert') else ['-e']) + [files.NAMES[e]]
    else:
        ctx.obs('default_element')
        if cr.n == 1:
            ctx.obs('one_atom_defaults')
    if len(set(nums)) > 1:
        ctx.obs('several_elements')
    # what is asked for
    if cmd == 'ocumaker':
        if z == 0 and rng.random() < 0.5:
            pass
        else:
            args += [rng.choice(['-s', '--speckle']), files.NAMES[z]]
        if rng.random() < 0.4 and not many:
            nmx = m - 1
            ctx.obs('default_number')
        else:
            nmx = rng.choice([3, 4, 4]) if many else rng.randint(1, m)
            args += [rng.choice(['-n', '--number-speckle']), str(nmx)]
        raw = []
        for k in range(1, nmx + 1):
            raw += substitutions(nums, idx, k, z)
        need_prim = True
    elif cmd == 'ocubiter':
        if not (z == 0 and rng.random() < 0.5):
            args += [rng.choice(['-s', '--speckle']), files.NAMES[z]]
        if rng.random() < 0.4 and not many:
            k = m // 2 + 1
            ctx.obs('default_number')
        else:
            k = rng.randint(3, 4) if many else rng.randint(1, min(m, 4))
            args += [rng.choice(['-n', '--number-speckle']), str(k)]
        raw = substitutions(nums, idx, k, z)
        need_prim = rng.random() < 0.5
        args += [] if need_prim and rng.random() < 0.5 else [rng.choice(['-S', '--move-supercell'] if need_prim else ['-N', '--no-move-supercell'])]
    elif cmd == 'ocutenter':
        n1 = rng.randint(1, max(1, m - 1))
        n2 = rng.randint(1, max(1, m - n1))
        if many:
            n1, n2 = rng.choice([(1, 2), (2, 1)])
        args += ['--speckle', files.NAMES[z], files.NAMES[z2], rng.choice(['-n', '--number-speckle']), str(n1), str(n2)]
        raw = ternary(nums, idx, n1, z, n2, z2)
        need_prim = rng.random() < 0.5
        args += [] if need_prim and rng.random() < 0.5 else [rng.choice(['-S', '--move-supercell'] if need_prim else ['-N', '--no-move-supercell'])]
    else:
        args += ['--speckle', files.NAMES[z], files.NAMES[z2]]
        raw = []
        for n1 in range(1, m - 1):
            for n2 in range(1, m - n1):
                raw += ternary(nums, idx, n1, z, n2, z2)
        need_prim = True
    if roomy:
        ctx.obs('eight_equivalent_sites')
    if len(raw) > (7000 if roomy else 1000 if many else 700):
        ctx.obs('requests_too_large')
        return
    # never ask for a structure without atoms
    if any(all(x == 0 for x in c) for c in raw):
        return
    basis = d.basis
    ref = ab.exact_order(d)
    rb = reduced_basis(basis)
    reps, rep_of = orbits(set(raw), perms)
    if almost and not all(gen.unambiguous(cr.with_nums(c), d.basis, d.frac, d.order, ab.LO, ab.HI) for c in sorted(reps)):
        # completing a pattern may add symmetry that the rounded input hardly has
        ctx.obs('requests_ambiguous')
        return
    restrict = []
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2]) if raw else 0):
        rz = rng.choice([z, z, z2 if cmd.startswith('ocut') or cmd == 'ocumakert' else e])
        ds = sorted(set(round(min_dist(c, rz, basis, ref, rb), 6) for c in reps))
        ds = [x for x in ds if x < 1e3]
        if ds:
            dist = round(rng.choice([ds[0] + 0.05, ds[-1] - 0.05, ds[-1] + 0.05, ds[0] - 0.05, ds[len(ds) // 2] + 0.02]), 4)
            if dist > 0 and all(abs(x - dist) > 5e-3 for x in ds):
                restrict.append((rz, dist))
                args += [rng.choice(['-r', '--dist-restrict']), files.NAMES[rz], repr(dist)]
                ctx.obs('restricted')
    expect = []
    for c in sorted(reps):
        prim = cr.with_nums(c).is_primitive()
        if need_prim and not prim:
            ctx.obs('nonprimitive_rejected')
            if almost and z in nums:
                ctx.obs('completed_to_nonprimitive')
            continue
        held = [min_dist(c, rz, basis, ref, rb) > dist for rz, dist in restrict]
        if not all(held):
            ctx.obs('restriction_rejects')
            if held[0]:
                ctx.obs('a_later_restriction_decides')
            continue
        if not prim:
            ctx.obs('nonprimitive_kept')
        expect.append(c)
    if len(expect) > (400 if roomy else 900 if many else 90):
        ctx.obs('requests_too_large')
        return
    if len(expect) > 150:
        ctx.obs('hundreds_of_files')
    refined = rng.random() < 0.5 and not many
    if not refined or rng.random() < 0.5:
        args += ['--refined' if refined else '--no-refined']
    mode = rng.choice(['vasp', 'yaml'])
    if mode == 'yaml' or rng.random() < 0.5:
        args += ['--outmode', mode]
    # input file
    comment = None
    if rng.random() < 0.4:
        comment = rng.choice(['abc', 'run_1', 'x.y'])
        args += ['--comment', comment]
    if cmd in ('ocumaker', 'ocubiter'):
        if rng.random() < 0.5:
            fn, text = rng.choice(['in.vasp', 'POSCAR', 'POSCAR_x']), cli.poscar(rng, d)
        else:
            fn, text = rng.choice(['in.yaml', 'a.b.yaml']), cli.yaml(d)
        comment = comment or files.formula(nums)
    else:
        fn = rng.choice(['setting.yaml', 'in', 'set.txt'])
        scale = rng.choice([1, 1, 2.0, 0.5])
        zin = rng.choice([scale, None]) if scale == 1 else scale
        cm = rng.choice(['mycomment', None])
        if rng.random() < 0.4:
            args += ['--zoom', repr(float(scale))]
            zin = rng.choice([None, 3, zin])
            ctx.obs('zoom_option')
        elif zin not in (None, 1):
            ctx.obs('zoom_in_file')
        text = cli.yaml(d, zoom=zin, comment=cm, scale=scale)
        comment = comment or cm or 'default'
    rng.random()
    away = rng.random() < 0.2
    if away:
        # input elsewhere: the result still goes to the current directory
        fn = 'in.d/' + fn
        ctx.obs('input_elsewhere')
    argv = [cmd] + ([fn] + args if rng.random() < 0.5 else args + [fn])
    ctx.note['argv'] = argv
    ctx.note['file'] = text
    ctx.obs(cmd)
    with cli.scratch() as tmp:
        if away:
            os.makedirs('in.d')
        with open(fn, 'w') as f:
            f.write(text)
        st = rng.random() < 0.4
        if st:
            ctx.obs('stuttering_names')
        twice = rng.random() < 0.15
        before = {}
        for rnd in range(2 if twice else 1):
            random.seed(i)                     # a second run draws the same names
            with cli.stutter(rng, st):
                r = cli.invoke(CMD, argv)
            ctx.check(r.exit_code == 0, 'the command failed with status %s' % r.exit_code, output=r.output[-500:])
            now = cli.tree(tmp)
            for k, v in before.items():
                ctx.check(now.get(k) == v, 'a second run changed or removed %s of the first' % k)
            ctx.check(now.get(fn) == text.encode(), 'the command changed its input file')
            new = [k for k in now if k not in before and k != fn]
            dirs = set(os.path.dirname(k) for k in new)
            made = [x for x in os.listdir(tmp) if x != 'in.d' and os.path.isdir(os.path.join(tmp, x))]
            ctx.check(len(made) == rnd + 1, '%d output directories after %d runs' % (len(made), rnd + 1), got=made)
            ctx.check(all(x.startswith('STRUCTURES_%s_' % comment) for x in made), 'output directory %s' % made, comment=comment)
            ctx.check(len(dirs) <= 1, 'files in several places', got=sorted(dirs))
            judge(ctx, cr, d, tmp, new, expect, mode, refined, cmd, m)
            before = now
            if rnd:
                ctx.obs('repeated_runs')
    if len(expect) >= 2:
        ctx.sig(cmd, tuple(cr.pos), nums, tuple(args))
        ctx.sample({'argv': argv, 'file': text, 'classes': len(expect)})
    ctx.peak('files', len(expect))


def judge(ctx, cr, d, tmp, new, expect, mode, refined, cmd, m):
    ctx.check(len(new) == len(expect), '%d files for %d qualifying structures' % (len(new), len(expect)), files=sorted(new)[:5])
    perms = cr.perms()
    _, rep_of = orbits(set(expect), perms)
    refs, sizes, held = {}, {}, []

    def fits(k, c):
        lat, frac, nz, refined, orb = held[k]
        if not refined:
            return c in orb
        if c not in refs:
            keep = [k for k in range(cr.n) if mode == 'yaml' or c[k] != 0]
            base = ab.exact_order(d)
            refs[c] = Same(d.basis, [base[k] for k in keep], [c[k] for k in keep], tol=6e-3)
            sizes[c] = len(keep), cr.with_nums(c).n_translations()
        # distances alone do not always tell two structures apart, so the size of the cell decides along with them
        kept, cells = sizes[c]
        return len(nz) * cells == kept and refs[c].mismatch(lat, frac, nz) is None
    pairs = Matching(expect, fits)
    for name in sorted(new):
        if not name.endswith('.' + mode):
            ctx.fail('file %s in %s mode' % (name, mode))
        got = cli.load(ctx, os.path.join(tmp, name), mode)
        lat, frac, nz = got[:3]
        ctx.obs('files_checked')
        ctx.obs(mode + '_files')
        bn = os.path.basename(name)
        if cmd in ('ocumaker', 'ocubiter'):
            f = re.match(r'STRUCTURE_(.*)_[A-Z0-9]+\.', bn)
            ctx.check(f is not None and f.group(1) == files.formula(nz), 'file %s holds %s' % (bn, files.formula(nz)))
        if refined:
            ctx.obs('refined_files')
            held.append((lat, frac, nz, True, None))
            if not pairs.place(len(held) - 1):
                left = pairs.left()
                why = [refs[c].mismatch(lat, frac, nz) if c in refs else None for c in left[:4]]
                sized = [(c, sizes[c][0] // sizes[c][1]) for c in refs if sizes[c][0] != len(nz) * sizes[c][1]
                         and refs[c].mismatch(lat, frac, nz) is None]
                if sized and not any(pairs.known.get((len(held) - 1, t)) for t in range(len(expect))):
                    ctx.fail('file %s: %d atoms, a primitive cell has %d' % (bn, len(nz), sized[0][1]))
                ctx.fail('file %s is none of the remaining expected structures' % bn, text=open(os.path.join(tmp, name)).read(),
                         left=len(left), why=why)
        else:
            ctx.obs('unrefined_files')
            ctx.check(all(abs(a - b) < 2e-6 for r, s in zip(lat, d.basis) for a, b in zip(r, s)), 'file %s has another lattice' % bn,
                      got=lat, want=d.basis)
            base = ab.exact_order(d)
            cfg = [0] * cr.n
            used = set()
            for f, z in zip(frac, nz):
                k = near(f, base)
                if k is None or k in used:
                    ctx.fail('file %s: atom off the sites' % bn, got=f)
                used.add(k)
                cfg[k] = z
            cfg = tuple(cfg)
            orb = set(tuple(cfg[p[k]] for k in range(cr.n)) for p in perms)
            held.append((lat, frac, nz, False, orb))
            if not pairs.place(len(held) - 1):
                ctx.fail('file %s is none of the remaining expected structures' % bn, got=cfg, left=pairs.left()[:3])
    for c in expect:
        if 0 in c:
            ctx.obs('vacancies')
        if refined and c in sizes and sizes[c][1] > 1:
            ctx.obs('reduced_files')
        ctx.obs('oracle_verdicts')


def near(f, base):
    for k, g in enumerate(base):
        if all(abs(x - y - round(x - y)) < 1e-4 for x, y in zip(f, g)):
            return k
    return None
