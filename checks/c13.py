"""A modifiable cell behaves as a list of sites (model-based trace monitor)."""
import signal
from contextlib import contextmanager

from vlib import ab, gen

ID = 'C13'
QUICK, THOROUGH = 3000, 40000
NEED = ['op_append', 'op_insert', 'op_pop', 'op_extend', 'op_del', 'op_set', 'op_slice', 'op_remove_site',
        'op_remove_sites', 'op_append_site', 'op_append_sites', 'op_reverse', 'op_move', 'op_iadd', 'op_element',
        'op_with_itself', 'op_by_value', 'op_clear', 'op_steps',
        'copies', 'conversions', 'equal_pairs', 'unequal_pairs', 'rearranged_unequal',
        'rearranged_lattices', 'large_conversions', 'copied_lattices']
RULE = ('a case is a random history of 5 to 40 list operations on a modifiable cell, mirrored on a plain list and '
        'compared after every step, with copies taken along the way and checked for independence at the end; '
        'non-trivial: at least 5 operations that change the sites; distinct by history')
ASSUMPTIONS = ['sites are compared by position and atomic number', 'conversions are made for non-empty cells']


def setup():
    global np, ModifiedCell, GeneralCell, Site
    import numpy as np
    from ababe.stru.scaffold import ModifiedCell, GeneralCell
    from ababe.stru.site import Site


def rsite(rng):
    return [rng.choice([0, 0.25, 0.5, rng.random()]) for _ in range(3)], rng.choice(gen.SPECIES[:8] + [0])


def mk(rng, p, z):
    f = rng.choice([0, 1, 2])
    if f == 0:
        return Site(p, int(z))
    if f == 1 and z:
        return Site(tuple(p), ab.specie(z).name)
    return Site(np.array(p), ab.specie(z))


def view(mc):
    return [(tuple(float(x) for x in s.position), s.element.Z) for s in mc]


def key(p, z):
    return (tuple(float(x) for x in p), z)


@contextmanager
def bounded(ctx, what, seconds=2):
    """Processor time for one operation that takes no time unless it runs on for ever."""
    def stop(*a):
        raise RuntimeError('no end')
    old = signal.signal(signal.SIGVTALRM, stop)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
    try:
        yield
    except (RuntimeError, MemoryError):
        ctx.fail(what)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def case(ctx, i):
    rng = ctx.rng
    lat = [[rng.uniform(-1, 1) + (5 if a == b else 0) for b in range(3)] for a in range(3)]
    init = [rsite(rng) for _ in range(rng.randint(1, 6))]
    L = np.array(lat)
    P, N = np.array([p for p, _ in init], dtype=float), np.array([z for _, z in init])
    mc = ModifiedCell(L, P, N)
    model = [key(p, z) for p, z in init]
    hist = [('new', list(model))]
    ctx.note['history'] = hist
    snaps = []
    changed = 0

    def same(what):
        got = view(mc)
        ctx.check(got == model, 'after %s the cell holds other sites than a list would' % what, got=got, want=model)
        ctx.check(len(mc) == len(model), 'length after %s' % what)
        if model:
            ctx.check(np.array_equal(mc.positions, np.array([m[0] for m in model]))
                      and mc.numbers.tolist() == [m[1] for m in model],
                      'coordinate or species arrays after %s' % what, positions=mc.positions, numbers=mc.numbers)

    same('construction')
    for _ in range(rng.randint(5, 40)):
        op = rng.choice(['append', 'insert', 'pop', 'extend', 'del', 'set', 'slice', 'remove_site', 'remove_sites',
                         'append_site', 'append_sites', 'reverse', 'move', 'iadd', 'element', 'copy', 'look',
                         'with_itself', 'by_value', 'clear', 'steps'])
        n = len(model)
        p, z = rsite(rng)
        if op in ('pop', 'del', 'set', 'remove_site', 'move', 'element') and n == 0:
            continue
        if op in ('append', 'append_site'):
            r = getattr(mc, op)(mk(rng, p, z))
            model.append(key(p, z))
            if op == 'append_site':
                ctx.check(r is mc, 'append_site does not return the cell')
        elif op == 'insert':
            k = rng.randint(-n - 1, n + 1)
            mc.insert(k, mk(rng, p, z))
            model.insert(k, key(p, z))
        elif op == 'pop':
            k = rng.randint(-n, n - 1)
            if rng.random() < 0.3:
                s, want = mc.pop(), model.pop()
            else:
                s, want = mc.pop(k), model.pop(k)
            ctx.check(view_site(s) == want, 'pop returned another site')
        elif op in ('extend', 'append_sites', 'iadd'):
            add = [rsite(rng) for _ in range(rng.randint(0, 3))]
            ss = [mk(rng, a, b) for a, b in add]
            if op == 'extend':
                mc.extend(ss if rng.random() < 0.5 else iter(ss))
            elif op == 'append_sites':
                ctx.check(mc.append_sites(ss) is mc, 'append_sites does not return the cell')
            else:
                mc += ss
            model.extend(key(a, b) for a, b in add)
        elif op == 'with_itself':
            if n > 40:
                continue
            with bounded(ctx, 'a cell extended by itself does not come to an end'):
                x = rng.random()
                if x < 0.3:
                    mc.extend(mc)
                elif x < 0.6:
                    mc += mc
                else:
                    mc.append_sites(mc)
            model.extend(list(model))
            same(op)
            for k in range(n, 2 * n):
                # sites of their own from here on
                mc[k] = mk(rng, *model[k])
        elif op == 'by_value':
            known = rng.choice(model) if n and rng.random() < 0.8 else key(p, z)
            s = mk(rng, *known)
            ctx.check((s in mc) == (known in model) and mc.count(s) == model.count(known), 'membership or count of a site')
            if known in model:
                ctx.check(mc.index(s) == model.index(known), 'index of a site')
                if rng.random() < 0.4:
                    mc.remove(s)
                    model.remove(known)
        elif op == 'clear':
            if rng.random() < 0.25:
                mc.clear()
                model = []
        elif op == 'steps':
            sl = slice(rng.choice([None, rng.randint(-n - 1, n + 1)]), rng.choice([None, rng.randint(-n - 1, n + 1)]),
                       rng.choice([None, 1, 2, 3, -1, -2]))
            ctx.check([view_site(s) for s in mc[sl]] == model[sl], 'a slice with steps holds other sites')
            x = rng.random()
            if x < 0.3:
                del mc[sl]
                del model[sl]
            elif x < 0.6:
                new = [rsite(rng) for _ in model[sl]]
                mc[sl] = [mk(rng, a, b) for a, b in new]
                model[sl] = [key(a, b) for a, b in new]
            ctx.check([view_site(s) for s in reversed(mc)] == model[::-1], 'reversed iteration')
        elif op == 'del':
            k = rng.randint(-n, n - 1)
            del mc[k]
            del model[k]
        elif op == 'set':
            k = rng.randint(-n, n - 1)
            mc[k] = mk(rng, p, z)
            model[k] = key(p, z)
        elif op == 'slice':
            a, b = sorted([rng.randint(0, n), rng.randint(0, n)])
            x = rng.random()
            if x < 0.4:
                ctx.check([view_site(s) for s in mc[a:b]] == model[a:b], 'a slice holds other sites')
            elif x < 0.7:
                del mc[a:b]
                del model[a:b]
            else:
                mc[a:b] = [mk(rng, p, z)]
                model[a:b] = [key(p, z)]
        elif op == 'remove_site':
            k = rng.randint(-n, n - 1)
            if rng.random() < 0.3:
                r, k = mc.remove_site(), -1
            else:
                r = mc.remove_site(k)
            ctx.check(r is mc, 'remove_site does not return the cell')
            model.pop(k)
        elif op == 'remove_sites':
            ks = [rng.randrange(n + 2) for _ in range(rng.randint(0, 4))]
            kk = rng.choice([list, tuple, set])(ks)
            ctx.check(mc.remove_sites(kk) is mc, 'remove_sites does not return the cell')
            model = [m for q, m in enumerate(model) if q not in ks]
        elif op == 'reverse':
            mc.reverse()
            model.reverse()
        elif op == 'move':
            k = rng.randrange(n)
            mc[k].position = p
            model[k] = key(p, model[k][1])
        elif op == 'element':
            k = rng.randrange(n)
            mc[k].element = ab.specie(z)
            model[k] = (model[k][0], z)
        elif op == 'copy':
            snaps.append((mc.copy(), list(model)))
            ctx.obs('copies')
            if rng.random() < 0.3 and snaps[-1][1]:
                # changing the copy must not reach the original
                c, m = snaps[-1]
                c[0].position = (9.0, 9.0, 9.0)
                m[0] = ((9.0, 9.0, 9.0), m[0][1])
                c.append(mk(rng, p, z))
                m.append(key(p, z))
                # nor a change of its lattice (a cell that hands out copies ignores it)
                own = np.array(c.lattice)
                try:
                    c.lattice[0][0] += 0.5
                except (TypeError, ValueError):
                    pass
                ctx.check(np.array_equal(np.array(mc.lattice), np.array(lat)), 'changing the lattice of a copy changed the original')
                try:
                    c.lattice[0][0] = own[0][0]
                except (TypeError, ValueError):
                    pass
                ctx.obs('copied_lattices')
        else:
            k = rng.randint(-n, n - 1) if n else None
            if n:
                ctx.check(view_site(mc[k]) == model[k], 'indexing returned another site')
                ctx.check(mk(rng, *model[k]) in mc, 'a held site is not found')
                ctx.check(mc.index(mk(rng, *model[k])) == model.index(model[k]), 'a held site is found elsewhere')
                ctx.check(mc.count(mk(rng, *model[k])) == model.count(model[k]), 'a held site is counted wrongly')
            ctx.check((mk(rng, p, z) in mc) == (key(p, z) in model), 'membership')
            if n:
                q = list(model[k][0])
                q[rng.randrange(3)] += rng.choice([1e-3, -1e-3, 1.0, -1.0])
                ctx.check((mk(rng, q, model[k][1]) in mc) == (key(q, model[k][1]) in model),
                          'membership of a site near a held one')
            ctx.check([view_site(s) for s in reversed(mc)] == model[::-1], 'backward iteration')
        hist.append((op, list(model)[-3:]))
        if op not in ('copy', 'look'):
            changed += 1
            ctx.obs('op_' + op)
        same(op)
    ctx.check(np.array_equal(np.array(mc.lattice), np.array(lat)), 'the lattice changed')
    for c, m in snaps:
        ctx.check(view(c) == m, 'a copy changed with the original (or the other way round)', got=view(c), want=m)
        ctx.check(np.array_equal(np.array(c.lattice), np.array(lat)), 'the copy has another lattice')
        eq = len(m) == len(model) and all(a[1] == b[1] and np.allclose(a[0], b[0]) for a, b in zip(m, model))
        ctx.check(bool(c == mc) == eq, 'cells compare %s' % ('unequal' if eq else 'equal'), a=m, b=model)
        ctx.obs('equal_pairs' if eq else 'unequal_pairs')
    # lattice takes part in equality
    other = ModifiedCell(np.array(lat) * 1.01, P, N)
    ctx.check(bool(ModifiedCell(L, P, N) == other) is False, 'cells with different lattices compare equal')
    ctx.check(bool(ModifiedCell(L, P, N) == ModifiedCell(L.copy(), P.copy(), N.copy())) is True, 'equal cells compare unequal')
    x = rng.randrange(len(init))
    P3 = P.copy()
    P3[x, rng.randrange(3)] += rng.choice([-1, 1]) * rng.choice([5e-5, 1e-4, 3e-4, 1e-3, 0.01, 0.1, 1.0])
    ctx.check(bool(ModifiedCell(L, P, N) == ModifiedCell(L, P3, N)) is False, 'a moved site compares equal')
    N3 = N.copy()
    N3[x] += 1 if N3[x] == 0 else -N3[x]
    ctx.check(bool(ModifiedCell(L, P, N) == ModifiedCell(L, P, N3)) is False, 'another element compares equal')
    # the same sites in another order, or the same elements on other sites
    if len(init) > 1:
        for _ in range(3):
            o = list(range(len(init)))
            if rng.random() < 0.5:
                a, b = rng.sample(o, 2)
                o[a], o[b] = o[b], o[a]
            else:
                rng.shuffle(o)
            for PP, NN in ((P, N[o]), (P[o], N), (P[o], N[o])):
                eq = np.array_equal(PP, P) and np.array_equal(NN, N)
                ctx.check(bool(ModifiedCell(L, P, N) == ModifiedCell(L, PP, NN)) == eq,
                          'rearranged cells compare %s' % ('unequal' if eq else 'equal'), order=o)
                ctx.obs('rearranged_equal' if eq else 'rearranged_unequal')
        short = ModifiedCell(L, P[:-1], N[:-1])
        ctx.check(bool(short == ModifiedCell(L, P, N)) is False and bool(ModifiedCell(L, P, N) == short) is False,
                  'cells of different length compare equal')
    L3 = L.copy()
    L3[rng.randrange(3), rng.randrange(3)] += rng.choice([-0.02, 0.02, 1.0, 0.001, -0.001])
    ctx.check(bool(ModifiedCell(L, P, N) == ModifiedCell(L3, P, N)) is False, 'cells with different lattices compare equal')
    for L4 in (L.T, L[::-1], L[[1, 2, 0]], -L, L[:, ::-1], L * np.array([1, 1, -1]), np.abs(L)):
        eq = bool(np.allclose(L4, L))
        ctx.check(bool(ModifiedCell(L, P, N) == ModifiedCell(L4.copy(), P, N)) == eq,
                  'cells with rearranged lattices compare %s' % ('unequal' if eq else 'equal'), other=L4)
        ctx.obs('rearranged_lattices', not eq)
    if i % 20 == 7:
        nb = rng.randint(9, 70)
        PB = np.array([[k / 80.0 + rng.choice([0, 0, 1, -1, 3]), rng.uniform(-2, 2), rng.random()] for k in range(nb)])
        NB = np.array([rng.choice(gen.SPECIES[:8] + [0]) for _ in range(nb)])
        big = ModifiedCell(L, PB, NB)
        want = [(tuple(p), int(z)) for p, z in zip(PB.tolist(), NB)]
        ctx.check(view(big) == want, 'a large cell holds other sites than it was given')
        g = GeneralCell(L, PB, NB)
        ctx.check(sorted(view(ModifiedCell.from_gcell(g))) == sorted(
            (tuple(p), int(z)) for p, z in zip(g.positions.tolist(), g.numbers)), 'conversion from a large cell changed the sites')
        g = big.to_gcell()
        ctx.check(sorted((tuple(p), int(z)) for p, z in zip(g.positions.tolist(), g.numbers)) == sorted(want),
                  'conversion to a large cell changed the sites')
        ks = rng.sample(range(nb), nb // 2)
        big.remove_sites(ks)
        ctx.check(view(big) == [w for q, w in enumerate(want) if q not in ks], 'removing many sites removed others')
        ctx.obs('large_conversions')
    # conversion there and back
    if model:
        g = mc.to_gcell()
        got = sorted((tuple(a), b) for a, b in zip(g.positions.tolist(), g.numbers.tolist()))
        ctx.check(got == sorted(model) and np.array_equal(np.array(g.lattice), np.array(lat)),
                  'conversion to a general cell changed the sites', got=got, want=sorted(model))
        back = ModifiedCell.from_gcell(g)
        ctx.check(sorted(view(back)) == sorted(model), 'conversion back changed the sites')
        gp, gn = g.positions.copy(), g.numbers.copy()
        back[0].position = (7.0, 7.0, 7.0)
        back[0].element = ab.specie(26)
        back.perturb(0.5)
        back.pop()
        ctx.check(np.array_equal(gp, g.positions) and np.array_equal(gn, g.numbers),
                  'modifying a converted cell changed its source')
        mc[0].position = (3.0, 3.0, 3.0)
        ctx.check(np.array_equal(gp, g.positions), 'modifying a cell changed the cell made from it')
        ctx.obs('conversions')
    if changed >= 5:
        ctx.sig([h[0] for h in hist], init)
        ctx.sample({'operations': [h[0] for h in hist], 'final': model})
    ctx.obs('histories')


def view_site(s):
    return (tuple(float(x) for x in s.position), s.element.Z)
