"""Independent strict readers of the files the library writes."""
import re
from .exact import det3, inv3

SYMBOLS = {'G': 0, 'H': 1, 'He': 2, 'Li': 3, 'Be': 4, 'B': 5, 'C': 6, 'N': 7, 'O': 8, 'F': 9, 'Ne': 10, 'Na': 11,
           'Mg': 12, 'Al': 13, 'Si': 14, 'P': 15, 'S': 16, 'Cl': 17, 'Ar': 18, 'K': 19, 'Ca': 20, 'Sc': 21, 'Ti': 22,
           'V': 23, 'Cr': 24, 'Mn': 25, 'Fe': 26, 'Co': 27, 'Ni': 28, 'Cu': 29, 'Zn': 30, 'Ga': 31, 'Ge': 32,
           'As': 33, 'Se': 34, 'Br': 35, 'Kr': 36, 'Rb': 37, 'Sr': 38, 'Y': 39, 'Zr': 40, 'Nb': 41, 'Mo': 42,
           'Tc': 43, 'Ru': 44, 'Rh': 45, 'Pd': 46, 'Ag': 47, 'Cd': 48, 'In': 49, 'Sn': 50, 'Sb': 51, 'Te': 52,
           'I': 53, 'Xe': 54, 'Cs': 55, 'Ba': 56, 'La': 57, 'Ce': 58, 'Pr': 59, 'Nd': 60, 'Pm': 61, 'Sm': 62,
           'Eu': 63, 'Gd': 64, 'Tb': 65, 'Dy': 66, 'Ho': 67, 'Er': 68, 'Tm': 69, 'Yb': 70, 'Lu': 71, 'Hf': 72,
           'Ta': 73, 'W': 74, 'Re': 75, 'Os': 76, 'Ir': 77, 'Pt': 78, 'Au': 79, 'Hg': 80, 'Tl': 81, 'Pb': 82,
           'Bi': 83, 'Po': 84, 'At': 85, 'Rn': 86, 'Fr': 87, 'Ra': 88}
NAMES = {v: k for k, v in SYMBOLS.items()}


def formula(nums):
    cnt = {}
    for z in nums:
        if z:
            cnt[z] = cnt.get(z, 0) + 1
    return ''.join('%s%d' % (NAMES[z], cnt[z]) for z in sorted(cnt))


class Bad(Exception):
    pass


def parse_poscar(text):
    """VASP 5 POSCAR -> (lattice, fractional, numbers, comment, mode)."""
    if not text.endswith('\n'):
        raise Bad('the file does not end with a newline')
    lines = text.split('\n')[:-1]
    if len(lines) < 8:
        raise Bad('only %d lines' % len(lines))
    comment = lines[0]
    scale = float(lines[1])
    lat = []
    for l in lines[2:5]:
        f = l.split()
        if len(f) != 3:
            raise Bad('lattice line %r' % l)
        lat.append([float(x) for x in f])
    syms = lines[5].split()
    cnts = [int(x) for x in lines[6].split()]
    if len(syms) != len(cnts) or not syms:
        raise Bad('%d symbols, %d counts' % (len(syms), len(cnts)))
    if len(set(syms)) != len(syms):
        raise Bad('a symbol is listed twice')
    if any(c <= 0 for c in cnts):
        raise Bad('non-positive count')
    if scale < 0:
        scale = (-scale / abs(det3(lat))) ** (1 / 3.)
    mode = lines[7].strip().lower()
    if mode[:1] not in ('d', 'c', 'k'):
        raise Bad('coordinate mode %r' % lines[7])
    cart = mode[0] in 'ck'
    rest = lines[8:]
    if len(rest) != sum(cnts):
        raise Bad('%d coordinate lines for %d atoms' % (len(rest), sum(cnts)))
    nums = []
    for s, c in zip(syms, cnts):
        if s not in SYMBOLS or s == 'G':
            raise Bad('unknown element %r' % s)
        nums += [SYMBOLS[s]] * c
    frac = []
    inv = inv3(lat)
    for l, z in zip(rest, nums):
        f = l.split()
        x = [float(v) for v in f[:3]]
        if len(f) > 3 and f[3] != NAMES[z]:
            raise Bad('an atom labelled %s is in the %s block' % (f[3], NAMES[z]))
        if cart:
            x = [sum(x[i] * inv[i][k] for i in range(3)) for k in range(3)]
        frac.append(x)
    lat = [[x * scale for x in r] for r in lat]
    return lat, frac, nums, comment, ('cartesian' if cart else 'direct')


def parse_yaml(text):
    import yaml
    d = yaml.safe_load(text)
    for k in ('lattice', 'positions', 'numbers', 'zoom', 'comment'):
        if k not in d:
            raise Bad('no %s' % k)
    lat = [[float(x) * d['zoom'] for x in r] for r in d['lattice']]
    pos = [[float(x) for x in r] for r in d['positions']]
    nums = [int(x) for x in d['numbers']]
    if len(pos) != len(nums):
        raise Bad('%d positions, %d numbers' % (len(pos), len(nums)))
    return lat, pos, nums, d['comment'], 'yaml'


def parse_any(text):
    """Tell the two formats apart by content."""
    if re.search(r'^(lattice|numbers|positions):', text, re.M):
        return parse_yaml(text)
    return parse_poscar(text)
