"""Bridge between the exact oracle and the library's public objects."""
import numpy as np

from . import gen
from .exact import min_image, reduced_basis, floor

LO, HI = 3e-4, 6e-3           # Angstrom; the library's symmetry tolerance is 1e-3


def arrays(desc):
    # arrays come in several integer types and memory layouts, as callers have them
    v = (sum(desc.nums) + len(desc.nums)) % 6
    n = np.array(desc.nums, dtype=[np.int64, np.int32, np.int64, np.int64, np.int16, np.int64][v])
    p = np.array(desc.frac, dtype=float)
    return (np.array(desc.basis, dtype=float), np.asfortranarray(p) if v == 2 else p, n)


def gcell(desc):
    from ababe.stru.scaffold import GeneralCell
    return GeneralCell(*arrays(desc))


def pick(ctx, nmax, kind=None, noise=None, tries=40, want=None, rotate=True, wrap=0.3, mirror=0.12):
    """A random crystal and a float description of it whose symmetry is the
    same for every tolerance between LO and HI."""
    rng = ctx.rng
    for _ in range(tries):
        cr = (kind or gen.crystal_any)(rng, nmax)
        if want is not None and not want(cr):
            continue
        nz = noise if noise is not None else rng.choice([0, 0, 0, 1e-9, 1e-6, 1e-5])
        d = gen.describe(cr, rng, rotate=rotate and rng.random() < 0.7, noise=nz, wrap=wrap,
                         mirror=rng.random() < mirror)
        if not gen.unambiguous(cr, d.basis, d.frac, d.order, LO, HI):
            ctx.obs('descriptions_rejected_ambiguous')
            continue
        ctx.note['input'] = d.as_dict()
        return cr, d
    # always available fallback
    cr = gen.proto(rng, 'sc')
    d = gen.describe(cr, rng, rotate=False, wrap=0)
    ctx.note['input'] = d.as_dict()
    return cr, d


def site_map(positions, ref_frac, tol=2e-3):
    """For each listed position the index of the reference site it coincides
    with modulo lattice translations, or None when the lists do not match
    one to one.  tol in fractional units (max norm)."""
    pos = positions.tolist() if hasattr(positions, 'tolist') else [list(p) for p in positions]
    if len(pos) != len(ref_frac):
        return None
    used = [False] * len(ref_frac)
    out = []
    for p in pos:
        best, bj = tol, None
        for j, q in enumerate(ref_frac):
            if used[j]:
                continue
            m = 0.0
            for k in range(3):
                x = p[k] - q[k]
                x = abs(x - floor(x + 0.5))
                if x > m:
                    m = x
                    if m >= best:
                        break
            if m < best:
                best, bj = m, j
        if bj is None:
            return None
        used[bj] = True
        out.append(bj)
    return out


def exact_order(desc):
    """Fractional coordinates of the description in exact-site order."""
    ref = [None] * len(desc.order)
    for k, i in enumerate(desc.order):
        ref[i] = desc.frac[k]
    return ref


def decode(ctx, cell, desc, what='structure'):
    """Decoration (tuple over exact sites) shown by a cell that must sit on the
    lattice and sites of desc."""
    lat = np.array(cell.lattice)
    if lat.shape != (3, 3) or not np.allclose(lat, np.array(desc.basis), atol=1e-9, rtol=0):
        ctx.fail('%s has another lattice' % what, got=lat, want=desc.basis)
    m = site_map(cell.positions, exact_order(desc))
    if m is None:
        ctx.fail('%s does not sit on the original sites' % what, got=cell.positions)
    nums = [int(x) for x in cell.numbers]
    if len(nums) != len(m):
        ctx.fail('%s has %d species numbers for %d sites' % (what, len(nums), len(m)))
    out = [None] * len(m)
    for k, j in enumerate(m):
        out[j] = nums[k]
    return tuple(out)


def specie(z):
    from ababe.stru.element import Specie, GhostSpecie
    return GhostSpecie() if z == 0 else Specie.from_num(z)


def drain(ctx, it, cap, what):
    """List of a generator that must not produce more than cap items."""
    out = []
    for x in it:
        out.append(x)
        if len(out) > cap:
            ctx.fail('%s produced more than the %d structures that exist' % (what, cap))
    return out
