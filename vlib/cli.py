"""Running the command line programs in a scratch directory, and composing their input."""
import os
import random
import shutil
import tempfile
from contextlib import contextmanager

from . import gen, ab, files


@contextmanager
def scratch():
    tmp = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH'))
    old = os.getcwd()
    os.chdir(tmp)
    try:
        yield tmp
    finally:
        os.chdir(old)
        shutil.rmtree(tmp)


@contextmanager
def stutter(rng, on=True):
    """random.choices repeats itself half of the time: name collisions become common."""
    if not on:
        yield
        return
    real = random.choices
    last = {}

    def choices(population, *a, **k):
        key = k.get('k', 1)
        if key in last and rng.random() < 0.5:
            return list(last[key])
        r = real(population, *a, **k)
        last[key] = list(r)
        return r
    random.choices = choices
    try:
        yield
    finally:
        random.choices = real


def r4(desc):
    """The description with every number cut to 4 decimals."""
    d = gen.Desc(desc.cr, [[round(x, 4) + 0.0 for x in r] for r in desc.basis],
                 [[round(x, 4) + 0.0 for x in f] for f in desc.frac], desc.order, desc.nums)
    return d


def pick4(ctx, nmax, kind=None, want=None, tries=60, proto='sc', wrap=0.2):
    """Like ab.pick, with numbers of 4 decimals and coarse coordinates."""
    rng = ctx.rng
    for _ in range(tries):
        cr = (kind or gen.crystal_super)(rng, nmax)
        if cr.D > 64 or (want is not None and not want(cr)):
            continue
        d = r4(gen.describe(cr, rng, rotate=rng.random() < 0.4, wrap=wrap,
                            mirror=rng.random() < 0.12))
        if not gen.unambiguous(cr, d.basis, d.frac, d.order, ab.LO, ab.HI):
            ctx.obs('descriptions_rejected_ambiguous')
            continue
        ctx.note['input'] = d.as_dict()
        return cr, d
    return None, None


def poscar(rng, d, scale=1.0):
    order = sorted(range(len(d.nums)), key=lambda k: (d.nums[k], rng.random()))
    zs = sorted(set(d.nums))
    L = ['input', repr(scale)]
    L += [' '.join('%.4f' % (x / scale) for x in r) for r in d.basis]
    L.append(' '.join(files.NAMES[z] for z in zs))
    L.append(' '.join(str(d.nums.count(z)) for z in zs))
    L.append('Direct')
    L += [' '.join('%.4f' % x for x in d.frac[k]) for k in order]
    return '\n'.join(L) + '\n'


def yaml(d, zoom=1, comment='mycomment', scale=1.0):
    L = ['comment: %s' % comment] if comment else []
    L += ['lattice:'] + ['- [%s]' % ', '.join(repr(x / scale) for x in r) for r in d.basis]
    L += ['positions:'] + ['- [%s]' % ', '.join(repr(x) for x in f) for f in d.frac]
    L += ['numbers: [%s]' % ', '.join(map(str, d.nums))]
    if zoom is not None:
        L += ['zoom: %r' % zoom]
    return '\n'.join(L) + '\n'


def invoke(group, args):
    """Runs one command in this process; exceptions come out."""
    from click.testing import CliRunner
    r = CliRunner().invoke(group, args, catch_exceptions=False)
    return r


def tree(path):
    out = {}
    for base, _, names in os.walk(path):
        for n in names:
            p = os.path.join(base, n)
            out[os.path.relpath(p, path)] = open(p, 'rb').read()
    return out


def load(ctx, path, mode):
    text = open(path).read()
    try:
        return (files.parse_poscar if mode == 'vasp' else files.parse_yaml)(text)
    except (files.Bad, ValueError, KeyError, TypeError, IndexError) as e:
        ctx.fail('the file %s is not a proper %s file: %s' % (os.path.basename(path), mode, e), text=text)
