"""The single-structure commands: supercell, primitive cell, clearing, perturbing."""
import os

from vlib import ab, gen, cli, files
from vlib.exact import Crystal, det3, to_cart, distances_within, mat_mul, norm
from vlib.iso import Same
from checks.c23 import write_input

ID = 'C24'
QUICK, THOROUGH = 1200, 25000
BUDGET = {'quick': 600, 'thorough': 3400}
NEED = ['supcell', 'pcell', 'atclear', 'perturb', 'to_stdout', 'to_vasp', 'to_yaml', 'atoms_removed', 'cleared_refined', 'cleared_unrefined',
        'same_species_cleared', 'same_species_wide', 'nothing_removed', 'reduced_cells', 'default_radius', 'sites_moved', 'removed_through_boundary', 'long_supercells', 'earlier_output']
RULE = ('a case is one run of a single-structure command on a random crystal in a scratch directory; the structure it writes '
        'or prints is compared with the exact result; non-trivial: the result differs from the input; distinct by '
        '(command, crystal, options)')
ASSUMPTIONS = ['input numbers have 4 decimals; radii stay 1e-3 away from any interatomic distance',
               'refined results are matched by interatomic distances']


def setup():
    global np, CMD
    import numpy as np
    from ababe.cmdline.runatilib import exec_from_cmdline as CMD


def exact_sites(ctx, what, got, lat, frac, nums, tol=3e-6):
    gl, gf, gn = got[:3]
    ctx.check(all(abs(a - b) < tol for r, s in zip(gl, lat) for a, b in zip(r, s)), '%s: lattice' % what, got=gl, want=lat)
    ctx.check(len(gn) == len(nums), '%s: %d atoms instead of %d' % (what, len(gn), len(nums)))
    used = set()
    for f, z in zip(gf, gn):
        for k in range(len(nums)):
            if k not in used and nums[k] == z and all(abs(x - y - round(x - y)) < tol for x, y in zip(f, frac[k])):
                used.add(k)
                break
        else:
            ctx.fail('%s: atom Z=%d at %s should not be there' % (what, z, f), want=list(zip(nums, frac)))
    ctx.obs('oracle_verdicts')


def collect(ctx, r, tmp, fn, text, name, mode):
    """The structure written or printed, and nothing else on disk."""
    ctx.check(r.exit_code == 0, 'the command failed with status %s' % r.exit_code, output=r.output[-500:])
    now = cli.tree(tmp)
    ctx.check(now.pop(fn, None) == text.encode(), 'the command changed its input file')
    if mode == 'stdio':
        ctx.check(not now, 'printing left files', files=sorted(now))
        out = r.output
        lines = [l for l in out.split('\n')]
        if lines and lines[0].startswith('PROCESSING'):
            lines = lines[1:]
        ctx.obs('to_stdout')
        txt = '\n'.join(lines).rstrip('\n') + '\n'
        try:
            return files.parse_poscar(txt)
        except (files.Bad, ValueError, IndexError) as e:
            ctx.fail('what was printed is no POSCAR: %s' % e, text=out)
    ctx.check(sorted(now) == [name], 'output files %s instead of %s' % (sorted(now), name))
    ctx.obs('to_' + mode)
    return cli.load(ctx, os.path.join(tmp, name), mode)


def case(ctx, i):
    rng = ctx.rng
    cmd = ['supcell', 'pcell', 'atclear', 'perturb'][i % 4]
    kind = rng.choice([gen.crystal_super, gen.crystal_decorated, lambda r, n: gen.crystal_orbits(r, n, D=r.choice([4, 8, 16, 20]))])
    many = cmd == 'atclear' and rng.random() < 0.85
    cr, d = cli.pick4(ctx, rng.choice([3, 8, 12]) if not many else 12, kind=kind,
                      want=lambda c: 0 not in c.nums and (not many or len(set(c.nums)) > 1))
    if cr is None:
        return
    fn, text = write_input(rng, d)
    base = fn.split('.')[0]
    ctx.obs(cmd)
    with cli.scratch() as tmp:
        with open(fn, 'w') as f:
            f.write(text)
        path = fn
        if rng.random() < 0.3:
            # input elsewhere: the result goes to the current directory
            os.makedirs('in.d')
            os.rename(fn, 'in.d/' + fn)
            path = 'in.d/' + fn
        run(ctx, rng, cmd, cr, d, tmp, path, text, base)


def earlier(ctx, rng, name):
    """Now and then the output file is there from an earlier, longer run."""
    if rng.random() < 0.3 and not name.endswith('stdio'):
        with open(name, 'w') as f:
            f.write('an earlier result\n' * 400)
        ctx.obs('earlier_output')


def run(ctx, rng, cmd, cr, d, tmp, path, text, base):
    ctx.note['file'] = text
    if cmd in ('supcell', 'pcell'):
        mode = rng.choice(['vasp', 'yaml', 'stdio'])
        args = ['--outmode', mode] if mode != 'stdio' or rng.random() < 0.5 else []
    if cmd == 'supcell':
        s = [rng.choice([1, 1, 2, 3, 4]) for _ in range(3)]
        if rng.random() < 0.2:
            s = [1, 1, rng.choice([5, 6, 7, 9, 11, 13])]
            rng.shuffle(s)
            ctx.obs('long_supercells')
        if s[0] * s[1] * s[2] * cr.n > 120:
            s = [1, 2, 1]
        argv = ['supcell', path, rng.choice(['-s', '--scale'])] + [str(x) for x in s] + args
        ctx.note['argv'] = argv
        earlier(ctx, rng, base + '_SUPC.' + mode)
        got = collect(ctx, cli.invoke(CMD, argv), tmp, path, text, base + '_SUPC.' + mode, mode)
        lat = [[x * s[a] for x in d.basis[a]] for a in range(3)]
        frac, nums = [], []
        for f, z in zip(d.frac, d.nums):
            for a in range(s[0]):
                for b in range(s[1]):
                    for c in range(s[2]):
                        frac.append([(f[0] + a) / s[0], (f[1] + b) / s[1], (f[2] + c) / s[2]])
                        nums.append(z)
        exact_sites(ctx, 'supercell', got, lat, frac, nums)
        if max(s) > 1:
            ctx.sig('supcell', cr.g, cr.pos, cr.nums, s)
    elif cmd == 'pcell':
        argv = ['pcell', path] + args
        ctx.note['argv'] = argv
        earlier(ctx, rng, base + '_PRIMC.' + mode)
        got = collect(ctx, cli.invoke(CMD, argv), tmp, path, text, base + '_PRIMC.' + mode, mode)
        t = cr.n_translations()
        ctx.check(len(got[2]) == cr.n // t, '%d atoms in the primitive cell instead of %d' % (len(got[2]), cr.n // t))
        why = Same(d.basis, d.frac, d.nums, tol=6e-3).mismatch(*got[:3])
        ctx.check(why is None, 'the primitive cell is another crystal: %s' % why, got=got[:3])
        if t > 1:
            ctx.obs('reduced_cells')
            ctx.sig('pcell', cr.g, cr.pos, cr.nums)
    elif cmd == 'atclear':
        clear(ctx, rng, cr, d, tmp, path, text, base)
    else:
        r = rng.choice([0.01, 0.1, 0.15, 0.3, 0.6, 1.3, 2.5])
        argv = ['perturb', path]
        if rng.random() < 0.15:
            r = 0
            ctx.obs('default_radius')
        else:
            argv += [rng.choice(['-r', '--radius']), repr(r)]
        ctx.note['argv'] = argv
        earlier(ctx, rng, base + '_PURB.vasp')
        got = collect(ctx, cli.invoke(CMD, argv), tmp, path, text, base + '_PURB.vasp', 'vasp')
        moved(ctx, d, got, r)
        if r:
            ctx.sig('perturb', cr.g, cr.pos, cr.nums, r)
    ctx.sample({'argv': ctx.note.get('argv'), 'file': text}, cap=1)


def moved(ctx, d, got, r):
    lat, frac, nums = got[:3]
    ctx.check(all(abs(a - b) < 2e-6 for x, y in zip(lat, d.basis) for a, b in zip(x, y)), 'perturbing changed the lattice')
    ctx.check(sorted(nums) == sorted(d.nums), 'perturbing changed the composition')
    # one to one: every new site lies at the asked distance of an old one (augmenting paths)
    tol = 1e-6 * (sum(norm(x) for x in d.basis) + 5)
    cand = []
    for f, z in zip(frac, nums):
        row = []
        for k in range(len(d.nums)):
            if d.nums[k] == z:
                ds = distances_within([x - y for x, y in zip(f, d.frac[k])], d.basis, r + 2 * tol)
                if any(abs(x - r) < tol for x in ds):
                    row.append(k)
        cand.append(row)
    owner = {}

    def place(j, seen):
        for k in cand[j]:
            if k in seen:
                continue
            seen.add(k)
            if k not in owner or place(owner[k], seen):
                owner[k] = j
                return True
        return False
    for j in range(len(frac)):
        ctx.check(place(j, set()), 'a site is not at distance %g of its old place' % r, got=[nums[j], frac[j]])
        ctx.obs('sites_moved')


def clear(ctx, rng, cr, d, tmp, path, text, base):
    cen = rng.choice(d.nums)
    ele = rng.choice([z for z in d.nums if z != cen] or d.nums) if rng.random() < 0.85 else cen
    if rng.random() < 0.1:
        cen = rng.choice([z for z in (22, 47, 79) if z not in d.nums])
    if cen == ele:
        ctx.obs('same_species_cleared')
    cens = [k for k in range(cr.n) if d.nums[k] == cen]
    near = {}
    for k in range(cr.n):
        if d.nums[k] != ele:
            continue
        best = 9e9
        for c in cens:
            ds = distances_within([x - y for x, y in zip(d.frac[k], d.frac[c])], d.basis, 7.0)
            if k == c:
                ds = list(ds) + [0.0]
            if ds:
                best = min(best, min(ds))
        near[k] = best
    vals = sorted(set(near.values()))
    if cen == ele and cens:
        # radii that reach other elements, which have to stay
        far = [min(distances_within([x - y for x, y in zip(d.frac[k], d.frac[c])], d.basis, 7.0) or [1e9])
               for k in range(cr.n) for c in cens if d.nums[k] != ele]
        vals = sorted(set(vals + far))
    opts = [0.0] + [round(v + rng.choice([-0.02, 0.02, 0.3]), 3) for v in vals if v < 1e3]
    r = rng.choice([o for o in opts if o > 0] or [0.0]) if rng.random() < 0.85 else 0.0
    if any(abs(v - r) < 1e-3 for v in vals) and r > 0:
        return
    gone = [k for k in near if near[k] < r]
    keep = [k for k in range(cr.n) if k not in gone]
    if not keep:
        return
    refined = rng.random() < 0.5
    argv = ['atclear', path, rng.choice(['-c', '--center-element']), files.NAMES[cen], rng.choice(['-e', '--element-remove']), files.NAMES[ele]]
    if r > 0 or rng.random() < 0.5:
        argv += [rng.choice(['-r', '--radius']), repr(r)]
    else:
        ctx.obs('default_radius')
    if not refined or rng.random() < 0.5:
        argv += ['--refined' if refined else '--no-refined']
    ctx.note['argv'] = argv
    inside = []
    for k in gone:
        if not any(norm(to_cart([x - y for x, y in zip(d.frac[k], d.frac[c])], d.basis)) < r for c in cens):
            inside.append(k)
    earlier(ctx, rng, base + '_ACLR.vasp')
    got = collect(ctx, cli.invoke(CMD, argv), tmp, path, text, base + '_ACLR.vasp', 'vasp')
    lat, frac, nums = d.basis, [d.frac[k] for k in keep], [d.nums[k] for k in keep]
    if refined:
        why = Same(lat, frac, nums, tol=6e-3).mismatch(*got[:3])
        ctx.check(why is None, 'cleared structure is another one: %s' % why, got=got[:3], want=[lat, frac, nums])
        ctx.obs('cleared_refined')
        sub = sorted(d.order[k] for k in keep)
        rest = Crystal(cr.g, cr.gden, cr.D, [cr.pos[j] for j in sub], [cr.nums[j] for j in sub])
        if gen.unambiguous(rest, lat, frac, [sub.index(d.order[k]) for k in keep], ab.LO, ab.HI):
            ctx.check(len(got[2]) * rest.n_translations() == len(keep), 'cleared structure: %d atoms, a primitive cell has %d'
                      % (len(got[2]), len(keep) // rest.n_translations()))
            if rest.n_translations() > 1:
                ctx.obs('cleared_reduced')
    else:
        exact_sites(ctx, 'cleared structure', got, lat, frac, nums)
        ctx.obs('cleared_unrefined')
    ctx.obs('atoms_removed', len(gone))
    if inside:
        ctx.obs('removed_through_boundary')
    if cen == ele and gone and r > 0.5:
        ctx.obs('same_species_wide')
    if not gone:
        ctx.obs('nothing_removed')
    else:
        ctx.sig('atclear', cr.g, cr.pos, cr.nums, cen, ele, r)
