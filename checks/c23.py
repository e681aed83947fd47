"""The superlattice command writes one file per class of superlattices."""
import os
import random

from vlib import ab, gen, cli, files
from vlib.exact import sublattice_classes, mat_mul, det3
from vlib.iso import Same, Matching

ID = 'C23'
QUICK, THOROUGH = 420, 8000
BUDGET = {'quick': 600, 'thorough': 3400}
NEED = ['runs_3d', 'runs_2d', 'files_checked', 'vasp_files', 'yaml_files', 'refused_nonprimitive', 'repeated_runs', 'earlier_results', 'default_volume',
        'default_comment', 'stuttering_names', 'bystanders_untouched', 'input_elsewhere']
RULE = ('a case is one run of the superlattice command on a random primitive crystal (or on a non-primitive one, which it '
        'must refuse) in a scratch directory; files are matched with the exact classes of sublattices and with the '
        'crystal itself; non-trivial: at least 2 classes; distinct by (crystal, factor, plane)')
ASSUMPTIONS = ['input numbers have 4 decimals; symmetry is unambiguous at the tolerance used',
               'a file is matched with a sublattice by the lengths of about 40 lattice vectors']


def setup():
    global np, CMD
    import numpy as np
    from ababe.cmdline.runabalib import exec_from_cmdline as CMD


def kind(r, n):
    x = r.random()
    if x < 0.5:
        return gen.proto(r)
    if x < 0.75:
        return gen.crystal_orbits(r, n, D=r.choice([4, 8, 16, 20]))
    return gen.crystal_decorated(r, n)


def write_input(rng, d):
    if rng.random() < 0.5:
        return rng.choice(['in.vasp', 'POSCAR', 'POSCAR_x']), cli.poscar(rng, d)
    return rng.choice(['in.yaml', 'a.b.yaml']), cli.yaml(d)


def real(c):
    return 0 not in c.nums


def case(ctx, i):
    rng = ctx.rng
    if i % 8 == 7:
        return refused(ctx, rng)
    cr, d = cli.pick4(ctx, 5, kind=kind, want=lambda c: c.is_primitive() and real(c))
    if cr is None:
        return
    twod = rng.random() < 0.4
    rots = cr.rotations()
    n = rng.choice([1, 2, 3, 4, 5, 6, 7] if twod else ([1, 2, 3, 4] if len(rots) > 12 else [1, 2, 3, 3]))
    if ctx.tier == 'thorough' and rng.random() < 0.2:
        n += rng.choice([1, 2, 3])
    elif rng.random() < 0.06:
        n = rng.choice([8, 9, 10, 12] if twod else [5, 6, 7] if len(rots) > 12 else [4, 5])
        ctx.obs('large_factors')
    args = []
    if n != 1 or rng.random() < 0.5:
        args += [rng.choice(['-v', '--volumn']), str(n)]
    else:
        ctx.obs('default_volume')
    args += [rng.choice(['-L', '--ld'])] if twod else rng.choice([[], ['--no-ld']])
    mode = rng.choice(['vasp', 'yaml'])
    if mode == 'vasp' or rng.random() < 0.5:
        args += [rng.choice(['-o', '--outmode']), mode]
    comment = 'default'
    if rng.random() < 0.6:
        comment = rng.choice(['abc', 'x_1', 'k.v'])
        args += [rng.choice(['-c', '--comment']), comment]
    else:
        ctx.obs('default_comment')
    cls, k, subs = sublattice_classes(n, rots, twod)
    fn, text = write_input(rng, d)
    if rng.random() < 0.2:
        fn = 'in.d/' + fn
        ctx.obs('input_elsewhere')
    argv = ['suplat'] + ([fn] + args if rng.random() < 0.5 else args + [fn])
    ctx.note['argv'], ctx.note['file'] = argv, text
    crystal = Same(d.basis, d.frac, d.nums, tol=6e-3)
    one = {}
    for h in subs:
        one.setdefault(cls[h], h)
    want = [(h, Same(mat_mul([list(r) for r in h], d.basis), [[0, 0, 0]], [1], tol=6e-3)) for h in sorted(one.values())]
    with cli.scratch() as tmp:
        if '/' in fn:
            os.makedirs('in.d')
        with open(fn, 'w') as f:
            f.write(text)
        # files the command has no business with
        os.makedirs('SUPLAT_other')
        os.makedirs('STRUCTURES_%s_AAAA' % comment)
        keep = ['SUPLAT_other/a.yaml', 'STRUCTURES_%s_AAAA/b.vasp' % comment, 'SUPLAT_%s.txt' % comment, fn]
        for p in keep[:3]:
            with open(p, 'w') as f:
                f.write('keep me\n')
        if rng.random() < 0.25:
            # results of an earlier run, in whatever format, do not stay among the new ones
            os.makedirs('SUPLAT_' + comment)
            for p in ('SUPLAT_7_OLD1.yaml', 'SUPLAT_7_OLD2.vasp'):
                with open(os.path.join('SUPLAT_' + comment, p), 'w') as f:
                    f.write('old\n')
            ctx.obs('earlier_results')
        st = rng.random() < 0.5
        if st:
            ctx.obs('stuttering_names')
        for rnd in range(2 if rng.random() < 0.2 else 1):
            random.seed(i)
            with cli.stutter(rng, st):
                r = cli.invoke(CMD, argv)
            ctx.check(r.exit_code == 0, 'the command failed with status %s' % r.exit_code, output=r.output[-500:])
            now = cli.tree(tmp)
            ctx.check(all(now.get(p) == b'keep me\n' for p in keep[:3]) and now.get(fn) == text.encode(),
                      'the command changed files that are not its output', files=sorted(now))
            ctx.obs('bystanders_untouched')
            new = sorted(p for p in now if p not in keep)
            ctx.check(all(os.path.dirname(p) == 'SUPLAT_' + comment for p in new), 'output outside SUPLAT_%s' % comment, files=new)
            judge(ctx, tmp, new, mode, crystal, want, n, cr.n)
            if rnd:
                ctx.obs('repeated_runs')
    ctx.obs('runs_2d' if twod else 'runs_3d')
    ctx.peak('classes', k)
    if k > 1:
        ctx.sig(cr.g, cr.pos, cr.nums, n, twod)
        ctx.sample({'argv': argv, 'file': text, 'classes': k})


def judge(ctx, tmp, new, mode, crystal, want, n, natoms):
    ctx.check(len(new) == len(want), '%d files for %d superlattices' % (len(new), len(want)), files=new)
    lattices = []
    pairs = Matching(want, lambda k, t: t[1].mismatch(lattices[k], [[0, 0, 0]], [1]) is None)
    for name in new:
        ctx.check(name.endswith('.' + mode), 'file %s in %s mode' % (name, mode))
        lat, frac, nz = cli.load(ctx, os.path.join(tmp, name), mode)[:3]
        ctx.check(len(nz) == n * natoms, '%d atoms in a superlattice of factor %d of %d atoms' % (len(nz), n, natoms))
        why = crystal.mismatch(lat, frac, nz)
        ctx.check(why is None, 'a file does not hold the input crystal: %s' % why, text=open(os.path.join(tmp, name)).read())
        lattices.append(lat)
        if not pairs.place(len(lattices) - 1):
            ctx.fail('file %s holds none of the remaining superlattices' % name, lattice=lat, left=[t[0] for t in pairs.left()])
        ctx.obs('files_checked')
        ctx.obs(mode + '_files')


def refused(ctx, rng):
    cr, d = cli.pick4(ctx, 8, want=lambda c: not c.is_primitive())
    if cr is None:
        return
    fn, text = write_input(rng, d)
    ctx.note['file'] = text
    with cli.scratch() as tmp:
        with open(fn, 'w') as f:
            f.write(text)
        os.makedirs('SUPLAT_default')
        with open('SUPLAT_default/old.yaml', 'w') as f:
            f.write('keep me\n')
        try:
            argv = ['suplat', fn] + rng.choice([['-v', '2'], ['-v', '1'], [], ['-v', '3'], ['-v', '5', '--ld']])
            ctx.note['argv'] = argv
            r = cli.invoke(CMD, argv)
            ctx.check(r.exit_code != 0, 'a non-primitive cell was accepted')
        except ValueError:
            pass
        ctx.check(sorted(cli.tree(tmp)) == sorted([fn, 'SUPLAT_default/old.yaml']), 'a refused run changed files', files=sorted(cli.tree(tmp)))
        ctx.obs('refused_nonprimitive')
