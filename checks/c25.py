"""The element table is consistent in both directions and with chemistry."""
from vlib import files

ID = 'C25'
QUICK, THOROUGH = 400, 4000
NEED = ['elements', 'equal_pairs', 'unequal_pairs', 'vacancy', 'sites', 'foreign_comparisons', 'sites_and_foreign', 'unknown_refused']
RULE = ('a case is a random selection of elements and sites pushed through every conversion between symbol, number and '
        'species object, compared with an independent periodic table; non-trivial: always; distinct by selection')
ASSUMPTIONS = ['elements up to Ra (Z=88); an element missing from the table must be refused, not renamed']


def setup():
    global np, Specie, GhostSpecie, Site
    import numpy as np
    from ababe.stru.element import Specie, GhostSpecie
    from ababe.stru.site import Site


def known(z):
    try:
        Specie(files.NAMES[z])
        return True
    except KeyError:
        return False


MUST = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35,
        36, 37, 38, 39, 40, 41, 42, 47, 48, 49, 50, 51, 52, 53, 55, 56, 74, 78, 79, 80, 82, 83]


def num(rng, z):
    return rng.choice([z, z, np.int64(z), np.array([z])[0], np.int32(z)])


def case(ctx, i):
    rng = ctx.rng
    if i == 0:
        for z in range(1, 89):
            if known(z):
                element(ctx, rng, z)
            else:
                for f in (Specie.from_num, Specie.to_name):
                    try:
                        r = f(z)
                    except (IndexError, KeyError, ValueError):
                        ctx.obs('unknown_refused')
                    else:
                        ctx.fail('number %d, absent from the table, became %r' % (z, getattr(r, 'name', r)))
        missing = [z for z in MUST if not known(z)]
        ctx.check(not missing, 'elements missing from the table', got=[files.NAMES[z] for z in missing])
    g = GhostSpecie()
    ctx.check(g.Z == 0 and g.name == 'G' and Specie('G').Z == 0 and Specie.from_num(num(rng, 0)).Z == 0
              and Specie.to_name(num(rng, 0)) == 'G' and Specie.from_num(0) == g and g == Specie('G') and Specie('G') == g, 'vacancy')
    ctx.obs('vacancy')
    pool = [z for z in rng.sample(range(1, 89), 12) if known(z)] + [rng.choice([0, 6, 7])]
    for z in pool:
        if z:
            element(ctx, rng, z)
    for _ in range(20):
        a, b = rng.choice(pool), rng.choice(pool)
        x = mk(rng, a)
        y = mk(rng, b)
        ctx.check((x == y) == (a == b) and (x != y) == (a != b), 'species %d and %d compare wrongly' % (a, b))
        ctx.obs('equal_pairs' if a == b else 'unequal_pairs')
    for o in (None, 6, 'C', 0, [], 6.0):
        x = mk(rng, rng.choice([6, 0]))
        ctx.check(not (x == o) and x != o, 'a species equals %r' % (o,))
        ctx.obs('foreign_comparisons')
    for bad in (-1, -6, -rng.randint(1, 88), 119, 120 + rng.randrange(200), 1000):
        for f in (Specie.from_num, Specie.to_name):
            try:
                r = f(num(rng, bad))
            except (IndexError, KeyError, ValueError):
                ctx.obs('unknown_refused')
            else:
                ctx.fail('number %d became %r' % (bad, getattr(r, 'name', r)))
    for bad in ('Xx', 'ga', '', 'GA'):
        try:
            s = Specie(bad)
        except (KeyError, ValueError):
            ctx.obs('unknown_refused')
        else:
            ctx.fail('%r became element %r' % (bad, s.Z))
    # sites
    z = rng.choice(pool)
    p = [rng.uniform(-1, 2) for _ in range(3)]
    forms = [Site(p, mk(rng, z)), Site(tuple(p), z), Site(np.array(p), files.NAMES[z])]
    for s in forms:
        ctx.check(s.element.Z == z and tuple(s.position) == tuple(p), 'site holds %s at %s' % (s.element.Z, s.position))
    ctx.check(forms[0] == forms[1] and forms[1] == forms[2], 'one site written three ways differs')
    for o in (None, z, files.NAMES[z], 0.5, tuple(p), (tuple(p), z), [], mk(rng, z)):
        x = rng.choice(forms)
        ctx.check(not (x == o) and x != o and not (o == x), 'a site equals %r' % (o,))
        ctx.obs('sites_and_foreign')
    x = mk(rng, z)
    ctx.check(not (x == forms[0]) and not (forms[0] == x), 'a species equals a site')
    z2 = rng.choice([y for y in pool if y != z])
    ctx.check(not (forms[0] == Site(p, z2)), 'sites of different elements are equal')
    q = list(p)
    q[rng.randrange(3)] += 0.25
    ctx.check(not (forms[0] == Site(q, z)), 'sites at different places are equal')
    for step in (1e-9, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 0.01, 1.0, -1.0):
        t = list(p)
        t[rng.randrange(3)] += step
        ctx.check(not (forms[0] == Site(t, z)) and forms[1] != Site(t, z), 'sites %g apart are equal' % step)
    s = Site(p, z)
    s.position = q
    s.element = mk(rng, z2)
    ctx.check(tuple(s.position) == tuple(q) and s.element.Z == z2 and s == Site(q, z2), 'a site does not keep what is assigned')
    ctx.obs('sites', 4)
    ctx.sig(tuple(pool))
    ctx.sample({'elements': [files.NAMES[z] for z in pool]})


def mk(rng, z):
    if z == 0:
        return rng.choice([GhostSpecie, lambda: Specie('G'), lambda: Specie.from_num(0)])()
    return Specie(files.NAMES[z]) if rng.random() < 0.5 else Specie.from_num(num(rng, z))


def element(ctx, rng, z):
    n = files.NAMES[z]
    s = Specie(n)
    ctx.check(s.Z == z and s.name == n and s.symbol == n, '%s has number %r and name %r' % (n, s.Z, s.name))
    t = Specie.from_num(num(rng, z))
    ctx.check(t.Z == z and t.name == n and t == s, 'number %d became %s' % (z, t.name))
    ctx.check(Specie.to_name(num(rng, z)) == n, 'number %d is named %s' % (z, Specie.to_name(z)))
    ctx.obs('elements')
