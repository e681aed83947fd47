"""Structure files written by other tools are read as what they mean."""
import os
import shutil
import tempfile

from vlib import gen, files
from vlib.exact import det3
from checks.c14 import compare as _compare
import checks.c14 as c14

ID = 'C15'
QUICK, THOROUGH = 4000, 80000
NEED = ['scaled', 'volume_scaled', 'left_handed', 'cartesian', 'cartesian_scaled', 'blank_lines', 'crlf', 'tabs', 'labels',
        'repeated_groups', 'unsorted_groups', 'yaml_files', 'yaml_zoomed', 'yaml_ghosts', 'by_name', 'by_format', 'format_against_name',
        'misleading_directory', 'coarse_lattice', 'fine_lattice', 'large_files', 'changed_files']
RULE = ('a case is a POSCAR or YAML text composed by an independent writer from a known structure (scale factor or '
        'volume, direct or cartesian, species groups in any order, stray whitespace, labels) and read by the library; '
        'non-trivial: scaled, cartesian or with several species groups; distinct by text')
ASSUMPTIONS = ['VASP 5 files without selective dynamics and without trailing blocks; the comment line is not blank',
               'lattice entries are judged to the 4 decimals the reader keeps']


def setup():
    c14.setup()
    global np, VI, YI, GeneralIO
    import numpy as np
    from ababe.io.vasp import VaspInput as VI
    from ababe.io.yaml import YamlInput as YI
    from ababe.io.io import GeneralIO


def num(rng, x, dec):
    k = rng.random()
    if k < 0.2 and x == int(x):
        return '%d' % x
    if k < 0.35:
        return '%+.*f' % (dec, x)
    if k < 0.45:
        return '%.*e' % (dec + 8, x)
    return '%.*f' % (dec, x)


def structure(rng):
    dec = rng.choice([1, 2, 4, 4, 8])
    s = rng.choice([1, 3, 5, 11])
    while True:
        lat = [[round(rng.choice([0, rng.uniform(-0.35, 0.35)]) * s + (s * rng.uniform(0.8, 1.3) if a == b else 0), dec)
                for b in range(3)] for a in range(3)]
        if rng.random() < 0.25:
            lat[0], lat[1] = lat[1], lat[0]
        if abs(det3(lat)) > 0.4 * s ** 3:
            break
    big = rng.random() < 0.04
    ng = rng.randint(8, 20) if big else rng.choice([1, 1, 2, 3, 4])
    groups = []
    pool = rng.sample(gen.TABLE, 15 if big else 4)
    for k in range(ng):
        z = rng.choice(pool)
        if groups and groups[-1][0] == z:
            continue
        groups.append((z, rng.choice([1, 1, 2, 3, 5] + ([12, 20] if big else []))))
    n = sum(c for _, c in groups)
    pd = rng.choice([4, 4, 6, 10])
    seen, frac = set(), []
    while len(frac) < n:
        f = [round(rng.choice([0, 0.5, 0.25, -0.25, rng.random(), rng.uniform(-1.5, 1.5)]), pd) for _ in range(3)]
        key = tuple(round(x % 1, 2) % 1 for x in f)
        if key not in seen:
            seen.add(key)
            frac.append(f)
    return lat, frac, groups, dec, pd


def poscar(ctx, rng):
    lat, frac, groups, dec, pd = structure(rng)
    ctx.obs('fine_lattice' if dec > 4 else 'coarse_lattice')
    if len(groups) >= 8:
        ctx.obs('large_files')
    L = []
    tab = rng.random() < 0.3
    if tab:
        ctx.obs('tabs')

    def join(xs):
        sep = rng.choice(['\t', ' \t ']) if tab else rng.choice([' ', '  ', '    '])
        return rng.choice(['', ' ', '   ']) + sep.join(xs) + rng.choice(['', ' ', '  '])
    L.append(rng.choice(['made by hand', 'POSCAR 1 2 3', 'Ga1 N1', ' x ', '# direct', 'Cartesian']))
    vol = abs(det3(lat))
    x = rng.random()
    scale, ztext = 1.0, rng.choice(['1', '1.0', ' 1.00000 '])
    if x < 0.35:
        scale = rng.choice([0.5, 2.0, 3.57, 1.25, 10, 57.31, 120.7, 0.0625])
        ztext = rng.choice(['%r', ' %r ', '%.6f', '%.3e']) % scale
        ctx.obs('scaled')
    elif x < 0.55:
        v = round(vol * rng.choice([1, 1.7, 0.4, 8]), 3)
        scale = (v / vol) ** (1 / 3.)
        ztext = '-%r' % v if rng.random() < 0.7 else ' -%.4f ' % v
        ctx.obs('volume_scaled')
    if det3(lat) < 0:
        ctx.obs('left_handed')
    L.append(ztext)
    for r in lat:
        L.append(join([num(rng, a, dec) for a in r]))
    L.append(join([files.NAMES[z] for z, _ in groups]))
    L.append(join([str(c) for _, c in groups]))
    zs = [z for z, _ in groups]
    if len(set(zs)) < len(zs):
        ctx.obs('repeated_groups')
    if zs != sorted(zs):
        ctx.obs('unsorted_groups')
    cart = rng.random() < 0.45
    if cart:
        L.append(rng.choice(['Cartesian', 'cartesian', 'C', 'c', 'CART', 'Kartesian', 'k', 'K', '  Cartesian  ', 'cart.']))
        ctx.obs('cartesian')
        if scale != 1:
            ctx.obs('cartesian_scaled')
    else:
        L.append(rng.choice(['Direct', 'direct', 'D', 'd', 'DIRECT', '  Direct ', 'fractional', 'Dir 1']))
    nums = []
    for z, c in groups:
        nums += [z] * c
    lab = rng.random() < 0.3
    if lab:
        ctx.obs('labels')
    for f, z in zip(frac, nums):
        v = f
        if cart:
            v = [sum(f[i] * lat[i][k] for i in range(3)) for k in range(3)]
        txt = [num(rng, a, 10 if cart else pd) for a in v]
        if lab:
            txt.append(files.NAMES[z])
        L.append(join(txt))
    if rng.random() < 0.3:
        ctx.obs('blank_lines')
        for _ in range(rng.randint(1, 3)):
            L.insert(rng.randint(1, len(L)), rng.choice(['', '  ', '\t']))
    nl = '\n'
    if rng.random() < 0.2:
        nl = '\r\n'
        ctx.obs('crlf')
    text = nl.join(L) + rng.choice(['', nl, nl + nl])
    if len(groups) > 1 or scale != 1 or cart:
        ctx.sig(text)
    want = ([[a * scale for a in r] for r in lat], frac, nums)
    lt = (1e-7 if dec <= 4 else 5.1e-5) * max(1, scale) + 1e-6
    if dec > 4 and ztext.strip().startswith('-'):
        lt += 5e-5 * 30 * max(1, scale)
    pt = 5.1e-5
    if cart and dec > 4:
        # the rounded lattice shifts the fractional coordinates a little
        inv = np.abs(np.linalg.inv(np.array(lat))).sum(axis=0).max()
        pt += 5.1e-5 * 3 * 2 * inv
    return text, want, lt, pt


def yamltext(ctx, rng):
    lat, frac, groups, dec, pd = structure(rng)
    zoom = rng.choice([1, 1, 2, 0.5, 3.57, 61.7])
    if zoom != 1:
        ctx.obs('yaml_zoomed')
    nums = []
    for z, c in groups:
        nums += [z] * c
    rng.shuffle(nums)
    if rng.random() < 0.2:
        nums[0] = 0
        ctx.obs('yaml_ghosts')
    flow = rng.random() < 0.6
    ints = rng.random() < 0.2
    if ints:
        lat = [[round(x) if a != b else max(1, round(abs(x))) for b, x in enumerate(r)] for a, r in enumerate(lat)]
        if abs(det3(lat)) < 0.5:
            lat = [[3, 0, 0], [0, 4, 0], [1, 0, 5]]

    def block(m):
        out = []
        for r in m:
            out.append('  - [%s]' % ', '.join(repr(x) for x in r))
        return out
    parts = {'comment': ['comment: %s' % rng.choice(['Ga1', '"x y"', 'hello there'])],
             'lattice': ['lattice:'] + block(lat), 'positions': ['positions:'] + block(frac),
             'numbers': (['numbers: [%s]' % ', '.join(map(str, nums))] if flow else ['numbers:'] + ['  - %d' % z for z in nums]),
             'zoom': ['zoom: %r' % zoom]}
    keys = sorted(parts)
    rng.shuffle(keys)
    L = []
    for k in keys:
        L += parts[k]
        if rng.random() < 0.15:
            L.append('')
        if rng.random() < 0.1:
            L.append('# a note')
    text = '\n'.join(L) + '\n'
    ctx.obs('yaml_files')
    if len(set(nums)) > 1 or zoom != 1:
        ctx.sig(text)
    return text, ([[a * zoom for a in r] for r in lat], frac, nums), 5.2e-5, 5.2e-5


def case(ctx, i):
    rng = ctx.rng
    fmt = 'vasp' if rng.random() < 0.7 else 'yaml'
    text, want, lt, pt = poscar(ctx, rng) if fmt == 'vasp' else yamltext(ctx, rng)
    ctx.note['text'] = text
    ctx.sample({'text': text}, cap=1)
    got = (VI if fmt == 'vasp' else YI).from_string(text)
    _compare(ctx, 'text', got, want, lt, pt, True)
    tmp = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH'))
    try:
        sub = rng.choice(['', '', 'run.yaml', 'POSCAR_dir', 'v.vasp'])
        if sub:
            os.makedirs(os.path.join(tmp, sub))
            ctx.obs('misleading_directory')
        arg = None
        if rng.random() < 0.55:
            fn = rng.choice({'vasp': ['a.vasp', 'x.VASP', 'POSCAR', 'POSCAR_1', 'old.POSCAR', 'b.c.vasp', 'CPOSCARS'],
                             'yaml': ['a.yaml', 'X.YAML', 's.yaml.bak', 'b.c.yaml']}[fmt])
            ctx.obs('by_name')
        else:
            arg = rng.choice([fmt, fmt.upper(), fmt.title()])
            fn = rng.choice(['plain', 'data.txt', 'POSCAR_2', 'c.yaml', 'd.vasp', 'in put'])
            ctx.obs('by_format')
            if (fmt == 'yaml') != ('yaml' in fn) and fn in ('POSCAR_2', 'c.yaml', 'd.vasp'):
                ctx.obs('format_against_name')
        path = os.path.join(tmp, sub, fn)
        ctx.note['file'] = [sub, fn, arg]
        if rng.random() < 0.15:
            # the file held something else when it was read before
            with open(path, 'w') as f:
                f.write('old\n1.0\n3 0 0\n0 3 0\n0 0 3\nAg\n1\ndirect\n0.25 0.5 0.75\n' if fmt == 'vasp' else
                        'comment: old\nlattice: [[3, 0, 0], [0, 3, 0], [0, 0, 3]]\npositions: [[0.25, 0.5, 0.75]]\nnumbers: [47]\nzoom: 1\n')
            c = GeneralIO.from_file(path) if arg is None else GeneralIO.from_file(path, fmt=arg)
            ctx.check(c.comment == 'Ag1', 'formula of the structure read is %r' % c.comment)
            ctx.obs('changed_files')
        with open(path, 'wb') as f:
            f.write(text.encode())
        c = GeneralIO.from_file(path) if arg is None else GeneralIO.from_file(path, fmt=arg)
        _compare(ctx, 'file', (c.lattice, c.positions, c.numbers), want, lt, pt, True)
        ctx.check(c.comment == files.formula(want[2]), 'formula of the structure read is %r' % c.comment)
        ctx.check(open(path, 'rb').read() == text.encode(), 'reading changed the file')
    finally:
        shutil.rmtree(tmp)
