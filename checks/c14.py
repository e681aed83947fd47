"""What is written can be read back as the same structure; files are well formed."""
import os
import shutil
import tempfile
import io
import sys

from vlib import ab, gen, files
from vlib.exact import det3

ID = 'C14'
QUICK, THOROUGH = 1500, 25000
NEED = ['poscar_texts', 'poscar_cartesian', 'poscar_zoomed', 'yaml_texts', 'yaml_zoomed', 'general_vasp', 'general_yaml',
        'ghost_structures', 'read_back', 'to_stdout', 'chained_round_trips', 'large_structures',
        'overwritten_files', 'reread_files']
RULE = ('a case is a random structure (1 to 20 sites, one in thirty 60 to 160; up to 30 species of the whole table and vacancies, coordinates outside the cell, '
        'long lattices) written by every writer and read by an independent strict parser and by the library; '
        'non-trivial: at least 2 species; distinct by (lattice, sites, species)')
ASSUMPTIONS = ['written numbers are judged to 6 decimals, numbers read by the library to 4 decimals (its documented '
               'rounding), times the scale factor', 'structures have at least one real atom']


def setup():
    global np, GeneralCell, VO, VI, YO, YI, VP, YP, GeneralIO
    import numpy as np
    from ababe.stru.scaffold import GeneralCell
    from ababe.io.vasp import VaspOutput as VO, VaspInput as VI
    from ababe.io.yaml import YamlOutput as YO, YamlInput as YI
    from ababe.stru.io import VaspPOSCAR as VP, YamlOutput as YP
    from ababe.io.io import GeneralIO


def structure(rng):
    if rng.random() < 0.4:
        cr = gen.crystal_any(rng, rng.choice([1, 4, 12]))
        d = gen.describe(cr, rng, wrap=0.3)
        lat, frac, nums = d.basis, d.frac, list(d.nums)
    else:
        s = rng.choice([2, 5, 12, 40, 150, 150, 1000])
        lat = [[rng.uniform(-0.4, 0.4) * s + (s if a == b else 0) for b in range(3)] for a in range(3)]
        for a in range(3):
            if rng.random() < 0.2:
                lat[a] = [-x for x in lat[a]]
        big = rng.random() < 0.05
        n = rng.randint(60, 160) if big else rng.randint(1, 20)
        frac = [[rng.choice([0, 0.5, 0.25, rng.uniform(-1.2, 2.2), rng.random()]) for _ in range(3)] for _ in range(n)]
        sp = rng.sample(gen.TABLE, rng.randint(1, 30 if big else 5))
        nums = [rng.choice(sp) for _ in range(n)]
    if rng.random() < 0.3 and len(nums) > 1:
        for _ in range(rng.randint(1, 2)):
            nums[rng.randrange(len(nums))] = 0
    if all(z == 0 for z in nums):
        nums[0] = 29
    return lat, frac, nums


def compare(ctx, what, got, want, ltol, ptol, ghosts):
    """got/want: lattice, frac, nums; sites as an unordered collection of exact coordinates."""
    gl, gp, gn = [np.array(x).tolist() for x in got[:3]]
    wl, wp, wn = want
    if not ghosts:
        keep = [k for k in range(len(wn)) if wn[k] != 0]
        wp, wn = [wp[k] for k in keep], [wn[k] for k in keep]
    ctx.check(all(abs(a - b) <= ltol for r, s in zip(gl, wl) for a, b in zip(r, s)) and len(gl) == 3,
              '%s: lattice changed' % what, got=gl, want=wl)
    ctx.check(len(gp) == len(wp) and len(gn) == len(wn), '%s: %d sites instead of %d' % (what, len(gp), len(wp)))
    used = [False] * len(wp)
    for p, z in zip(gp, gn):
        hit, best = None, None
        for j in range(len(wp)):
            if used[j] or wn[j] != z:
                continue
            e = 0
            for a, b in zip(p, wp[j]):
                x = abs(a - b)
                x = min(x, abs(x - round(x)))      # an equivalent image is fine
                e = max(e, x)
            if e <= ptol and (best is None or e < best):
                hit, best = j, e
        if hit is None:
            ctx.fail('%s: an atom (Z=%s) at %s is not in the structure' % (what, z, p), want=list(zip(wn, wp)))
        used[hit] = True
    ctx.obs('sites_matched', len(wp))
    ctx.obs('oracle_verdicts')


def case(ctx, i):
    rng = ctx.rng
    lat, frac, nums = structure(rng)
    ctx.note['input'] = {'lattice': lat, 'positions': frac, 'numbers': nums}
    if len(nums) >= 60:
        ctx.obs('large_structures')
    if 0 in nums:
        ctx.obs('ghost_structures')
    cell = GeneralCell(np.array(lat), np.array(frac), np.array(nums))
    W = (lat, frac, nums)
    form = files.formula(nums)
    T6 = 5.2e-7
    if len(set(nums)) > 1:
        ctx.sig(lat, frac, nums)

    def want(z):
        return ([[x * z for x in r] for r in lat], frac, nums)

    invn = max(sum(abs(x) for x in col) for col in zip(*np.linalg.inv(np.array(lat)).tolist()))
    # POSCAR writers
    for name, Wr in (('vasp', VO), ('poscar', VP)):
        zoom = rng.choice([1, 1, 1, 2, 0.5, 1.5, 3.0, 0.529177, 3.5625, 3.8765432, 5.43098765])
        w = Wr(cell, zoom=zoom) if zoom != 1 or rng.random() < 0.3 else Wr(cell)
        for direct in (True, False):
            text = w.get_string(direct=direct) if not direct or rng.random() < 0.5 else w.get_string()
            try:
                got = files.parse_poscar(text)
            except (files.Bad, ValueError, IndexError) as e:
                ctx.fail('%s writer: malformed POSCAR: %s' % (name, e), text=text)
            ctx.check((got[4] == 'direct') == direct, '%s writer: asked for %s, got %s'
                      % (name, 'direct' if direct else 'cartesian', got[4]))
            ctx.check(got[3] == form, '%s writer: comment %r instead of %r' % (name, got[3], form))
            ctx.check(got[2] == sorted(got[2]), '%s writer: species not in order' % name)
            pt = T6 if direct else T6 * 3 * invn + T6 * 60 * invn
            compare(ctx, name + ' writer', got, want(zoom), T6 * max(1, zoom) * 1.01, pt, False)
            ctx.obs('poscar_texts')
            if not direct:
                ctx.obs('poscar_cartesian')
            if zoom != 1:
                ctx.obs('poscar_zoomed')
            r = VI.from_string(text)
            compare(ctx, name + ' written and read', r, want(zoom), 5.1e-5 * max(1, zoom),
                    (5.1e-5 if direct else 5.1e-5 + 3e-4 * invn * max(max(abs(x) for x in f) for f in frac + [[1]]) * 3), False)
            ctx.obs('read_back')
        ctx.check(str(w) == w.get_string() == repr(w), '%s writer: printed form differs' % name)
        ctx.sample({'input': ctx.note['input'], 'text': w.get_string()}, cap=1)
    # YAML writers
    for name, Wr in (('yaml', YO), ('yaml(stru)', YP)):
        zoom = 1
        if Wr is YP:
            zoom = rng.choice([1, 2, 0.5, 1.25, 0.529177, 3.5625, 3.8765432])
            w = Wr(cell, zoom) if zoom != 1 else Wr(cell)
        else:
            w = Wr(cell)
        text = w.get_string()
        try:
            got = files.parse_yaml(text)
        except (files.Bad, ValueError, KeyError, TypeError) as e:
            ctx.fail('%s writer: malformed file: %s' % (name, e), text=text)
        ctx.check(got[3] == form, '%s writer: comment %r instead of %r' % (name, got[3], form))
        compare(ctx, name + ' writer', got, want(zoom), T6 * max(1, zoom), T6, True)
        ctx.obs('yaml_texts')
        if zoom != 1:
            ctx.obs('yaml_zoomed')
        r = YI.from_string(text)
        compare(ctx, name + ' written and read', r, want(zoom), 5.2e-5, 5.2e-5, True)
        ctx.obs('read_back')
        ctx.check(str(w) == text, '%s writer: printed form differs' % name)
    # through files
    tmp = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH'))
    try:
        through_files(ctx, rng, cell, W, tmp, T6)
    finally:
        shutil.rmtree(tmp)


def through_files(ctx, rng, cell, W, tmp, T6):
    fmt = rng.choice(['vasp', 'yaml'])
    named = {'vasp': ['a.vasp', 'x.VASP', 'POSCAR', 'POSCAR_1', 'my.POSCAR.old', 'b.c.vasp'],
             'yaml': ['a.yaml', 'X.YAML', 's.yaml.bak', 'b.c.yaml']}[fmt]
    x = rng.random()
    if x < 0.6:
        fn, arg = rng.choice(named), None
    else:
        fn, arg = rng.choice(['plain', 'data.txt', 'POSCAR_2', 'c.yaml', 'd.vasp']), rng.choice([fmt, fmt.upper()])
    sub = rng.choice(['', 'dir', 'run.yaml', 'POSCAR_dir', 'v.vasp'])
    d = os.path.join(tmp, sub)
    if sub:
        os.makedirs(d)
    path = os.path.join(d, fn)
    x = rng.random()
    if x < 0.15:
        with open(path, 'w') as f:
            f.write('stale contents\n' * rng.choice([50, 1000]))
        ctx.obs('overwritten_files')
    elif x < 0.35:
        # another, larger structure was written and read here before
        k = len(W[2]) + rng.randint(2, 9)
        other = GeneralCell(np.array(W[0]) * 1.25, np.array([[rng.random() for _ in range(3)] for _ in range(k)]),
                            np.array([rng.choice([6, 29, 82]) for _ in range(k)]))
        GeneralIO(other).write_file(path, fmt=arg)
        back = GeneralIO.from_file(path, fmt=arg)
        ctx.check(len(back.numbers) == k, 'file read back with %d sites instead of %d' % (len(back.numbers), k))
        ctx.obs('overwritten_files')
        ctx.obs('reread_files')
    io_ = GeneralIO(cell)
    ctx.note['file'] = [sub, fn, arg]
    if arg is None and rng.random() < 0.5:
        io_.write_file(path)
    else:
        io_.write_file(fname=path, fmt=arg)
    ctx.check(os.listdir(d) == [fn], 'writing one file left %s' % os.listdir(d))
    text = open(path).read()
    try:
        got = (files.parse_poscar if fmt == 'vasp' else files.parse_yaml)(text)
    except (files.Bad, ValueError, KeyError, TypeError, IndexError) as e:
        ctx.fail('the file %s is not a %s file: %s' % (fn, fmt, e), text=text)
    compare(ctx, 'file ' + fn, got, W, T6, T6, fmt == 'yaml')
    ctx.obs('general_' + fmt)
    back = GeneralIO.from_file(path, fmt=arg) if arg or rng.random() < 0.5 else GeneralIO.from_file(path)
    compare(ctx, 'file %s read back' % fn, (back.lattice, back.positions, back.numbers), W, 5.2e-5, 5.2e-5, fmt == 'yaml')
    ctx.obs('read_back')
    # a second generation, in the other format, stays put
    real = [np.array(back.lattice).tolist(), back.positions.tolist(), back.numbers.tolist()]
    p2 = os.path.join(tmp, 'second.' + rng.choice(['vasp', 'yaml']))
    GeneralIO(back).write_file(p2)
    b2 = GeneralIO.from_file(p2)
    compare(ctx, 'second round trip', (b2.lattice, b2.positions, b2.numbers), real, 2e-6, 2e-6, p2.endswith('yaml'))
    ctx.obs('chained_round_trips')
    # classes with their own write methods
    p3 = os.path.join(tmp, 'third')
    k = rng.choice([0, 1, 2, 3])
    if rng.random() < 0.3:
        with open(p3, 'w') as f:
            f.write('stale contents\n' * (20 + 10 * len(W[2])))
    if k == 0:
        VP(cell).write(p3)
    elif k == 1:
        YP(cell).write(p3)
    elif k == 2:
        VO(cell).write_file(p3)
    else:
        YO(cell).write_file(p3)
    got = files.parse_any(open(p3).read())
    compare(ctx, 'writer method', got, W, T6, T6, got[4] == 'yaml')
    rd = (YI if got[4] == 'yaml' else VI)(p3).get_cell()
    compare(ctx, 'reader class', (rd.lattice, rd.positions, rd.numbers), W, 5.2e-5, 5.2e-5, got[4] == 'yaml')
    # printing instead of writing
    if rng.random() < 0.3:
        old, sys.stdout = sys.stdout, io.StringIO()
        try:
            GeneralIO(cell).write_file(fname=None, fmt=fmt)
            text = sys.stdout.getvalue()
        finally:
            sys.stdout = old
        got = files.parse_any(text.rstrip('\n') + '\n')
        ctx.check((got[4] == 'yaml') == (fmt == 'yaml'), 'printed in another format')
        compare(ctx, 'printed', got, W, T6, T6, fmt == 'yaml')
        ctx.obs('to_stdout')
