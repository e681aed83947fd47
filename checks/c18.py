"""Neighbour lists of grids and random-walk arrangements."""
from itertools import product
from math import sqrt

from vlib import ab

ID = 'C18'
QUICK, THOROUGH = 3000, 60000
NEED = ['lists_2d', 'lists_3d', 'empty_lists', 'single_site_grids', 'walks_2d', 'walks_3d', 'walks_custom', 'walk_steps',
        'distinct_walks', 'neighbours_matched', 'exactly_at_the_radius', 'all_continuations_seen', 'large_grids', 'wide_choices',
        'problem_first_steps']
RULE = ('a case is a random grid with a random lattice and radius whose neighbour lists are compared with all '
        'distances, or a random-walk arrangement whose path is checked step by step; non-trivial: a list with both '
        'neighbours and non-neighbours, or a walk of 3 or more sites; distinct by (grid, lattice, radius) or path')
ASSUMPTIONS = ['radii are kept 1e-6 away from any distance of the grid, or are exact in binary floating point',
               'that every continuation can occur is judged by 1500 walks on graphs of at most 6 positions, and by 50 walks '
               'for each of up to 30 continuations']


def setup():
    global np, CStru, SitesGrid, CStru2d, SitesGrid2d, arrange, Boron, FCC
    import numpy as np
    from ababe.stru.scaffold import CStru, SitesGrid
    from ababe.stru.scaffold2d import CStru2d, SitesGrid2d
    import ababe.mlearn.arrange as arrange
    from ababe.mlearn.arrangeAgent import Boron2dArrangeProblem as Boron, FCC3dArrangeProblem as FCC


def dist(p, q, lat):
    n = len(p)
    return sqrt(sum(sum((p[k] - q[k]) * lat[k][c] for k in range(n)) ** 2 for c in range(n)))


def lists(ctx, rng):
    nd = rng.choice([2, 3])
    shape = tuple(rng.randint(1, 6 if nd == 2 else 4) for _ in range(nd))
    if rng.random() < 0.05:
        shape = (1,) * nd
    elif rng.random() < 0.04:
        shape = tuple(rng.randint(5, 16 if nd == 2 else 8) for _ in range(nd))
        ctx.obs('large_grids')
    lat = [[rng.choice([0, 0.5, 1, rng.uniform(-1, 1)]) + (rng.uniform(0.7, 3) if a == b else 0) for b in range(nd)] for a in range(nd)]
    P = list(product(*map(range, shape)))
    # keep sites apart
    exact = rng.random() < 0.1
    if exact:
        # all distances along an axis exact in binary: the radius is inclusive
        lat = [[(rng.choice([0.5, 1.0, 2.0]) if a == b else 0.0) for b in range(nd)] for a in range(nd)]
    span = max(dist(P[0], q, lat) for q in P)
    r = rng.choice([lat[0][0], lat[nd - 1][nd - 1], 2 * lat[1][1]]) if exact else rng.uniform(0.1, 1.1) * max(span, 1.0) * rng.choice([0.2, 0.5, 1])
    ds = [dist(p, q, lat) for p in P for q in P if p < q]
    if exact:
        ctx.obs('exactly_at_the_radius')
    elif any(abs(d - r) < 1e-6 for d in ds):
        return
    if nd == 2:
        cs = CStru2d(lat, SitesGrid2d.sea(shape[0], shape[1]))
    else:
        cs = CStru(lat, SitesGrid.sea(shape[0], shape[1], shape[2], ab.specie(rng.choice([5, 6, 29]))))
    ctx.note['input'] = {'shape': shape, 'lattice': lat, 'radius': r}
    if len(P) == 1:
        ctx.obs('single_site_grids')
    nontrivial = False
    for p in rng.sample(P, min(len(P), 6)):
        want = set(q for q in P if q != p and dist(p, q, lat) <= r)
        got = list(cs.get_neighbors(p, r))
        gs = set(tuple(int(x) for x in q) for q in got)
        ctx.check(len(gs) == len(got) and gs == want, 'neighbours of %s within %r' % (p, r), got=sorted(gs), want=sorted(want))
        ctx.obs('lists_%dd' % nd)
        ctx.obs('neighbours_matched', len(want))
        if not want:
            ctx.obs('empty_lists')
        elif len(want) < len(P) - 1:
            nontrivial = True
    if nontrivial:
        ctx.sig(shape, lat, r)
        ctx.sample(ctx.note['input'], cap=1)


def judge_walk(ctx, path, start, goal, near, inside):
    ctx.check(len(path) == goal, 'the arrangement has %d sites instead of %d' % (len(path), goal), path=path)
    ctx.check(all(inside(p) for p in path), 'the arrangement leaves the grid', path=path)
    ctx.check(tuple(path[0]) == tuple(start), 'the arrangement starts at %s instead of %s' % (path[0], start))
    ctx.check(len(set(path)) == len(path), 'the arrangement visits a site twice', path=path)
    for k in range(1, len(path)):
        if not any(near(path[k], q) for q in path[:k]):
            ctx.fail('site %s (step %d) touches no earlier site' % (path[k], k), path=path)
        ctx.obs('walk_steps')
    if goal >= 3:
        ctx.sig(tuple(path))
        ctx.sample({'path': path}, cap=2)


def walk(ctx, rng):
    kind = rng.choice(['2d', '3d', 'custom', 'custom'])
    if kind == 'custom':
        # any connected graph given through the problem interface
        n = rng.choice([rng.randint(1, 14), rng.randint(1, 14), rng.randint(1, 14), rng.randint(15, 120)])
        adj = {k: set() for k in range(n)}
        for k in range(1, n):
            j = rng.randrange(k)
            adj[k].add(j)
            adj[j].add(k)
        for _ in range(rng.randint(0, n)):
            a, b = rng.randrange(n), rng.randrange(n)
            if a != b:
                adj[a].add(b)
                adj[b].add(a)
        goal = rng.randint(1, n)
        start = rng.randrange(n)
        asked = []

        class P(arrange.ArrangeProblem):
            def get_start_position(self):
                return start

            def is_goal(self, k):
                return k == goal

            def get_neighbors(self, p):
                asked.append(p)
                return set(adj[p])
        ctx.note['input'] = {'graph': {k: sorted(v) for k, v in adj.items()}, 'start': start, 'goal': goal}
        before = {k: set(v) for k, v in adj.items()}
        for _ in range(3):
            path = arrange.random_walk_arrange(P())
            ctx.check(len(path) == goal and path[0] == start and len(set(path)) == goal,
                      'arrangement of %d sites from %d' % (goal, start), path=path)
            for k in range(1, goal):
                if not any(path[k] in adj[q] for q in path[:k]):
                    ctx.fail('site %s touches no earlier site' % path[k], path=path)
                ctx.obs('walk_steps')
            ctx.check(adj == before, 'the problem was modified')
            ctx.obs('walks_custom')
        if goal >= 3:
            ctx.sig('g', tuple(path), tuple(sorted((k, tuple(sorted(v))) for k, v in adj.items())))
        return
    goal = rng.choice([1, 2, 3, 4, 5, 8, 13, 24]) if kind == '2d' else rng.choice([1, 2, 3, 4, 5, 6])
    ctx.note['input'] = [kind, goal]
    if kind == '2d':
        pr = Boron(goal)
        lat, nd = [[2, 0], [1, 1.732058]], 2
    else:
        pr = FCC(goal)
        lat, nd = [[0, 0.5, 0.5], [0.5, 0, 0.5], [0.5, 0.5, 0]], 3
    P = list(product(range(goal), repeat=nd))
    for p in rng.sample(P, min(3, len(P))):
        got = set(tuple(int(x) for x in q) for q in pr.get_neighbors(p))
        want = set(q for q in P if q != p and dist(p, q, lat) <= 2.1)
        ctx.check(got == want, 'the problem counts other positions than those within 2.1 of %s as neighbours' % (p,), got=got, want=want)
        ctx.obs('problem_lists')
    ctx.check(tuple(pr.get_start_position()) == (goal // 2,) * nd, 'start position')
    for k in (goal - 1, goal, goal + 1):
        ctx.check(bool(pr.is_goal(k)) == (k == goal), 'goal test at %d for %d' % (k, goal))
    paths = set()
    for _ in range(4):
        path = [tuple(p) for p in arrange.random_walk_arrange(pr)]
        judge_walk(ctx, path, (goal // 2,) * nd, goal,
                   lambda p, q: dist(p, q, lat) <= 2.1, lambda p: len(p) == nd and all(0 <= x < goal for x in p))
        paths.add(tuple(path))
        ctx.obs('walks_' + kind)
    if len(paths) > 1:
        ctx.obs('distinct_walks')
    if goal >= 8:
        ctx.check(len(paths) > 1, 'four random walks of %d sites are identical' % goal)


def reach(ctx, rng):
    '''On a small graph every arrangement that the rules allow occurs.'''
    n = rng.randint(2, 6)
    adj = {k: set() for k in range(n)}
    for k in range(1, n):
        j = rng.randrange(k)
        adj[k].add(j)
        adj[j].add(k)
    if n > 2 and rng.random() < 0.7:
        a, b = rng.sample(range(n), 2)
        adj[a].add(b)
        adj[b].add(a)
    goal = rng.randint(2, min(n, 4))
    start = rng.randrange(n)

    class P(arrange.ArrangeProblem):
        def get_start_position(self):
            return start

        def is_goal(self, k):
            return k == goal

        def get_neighbors(self, p):
            return set(adj[p])
    want = [(start,)]
    for _ in range(goal - 1):
        want = [w + (q,) for w in want for q in range(n) if q not in w and any(q in adj[x] for x in w)]
    ctx.note['input'] = {'graph': {k: sorted(v) for k, v in adj.items()}, 'start': start, 'goal': goal}
    got = set(tuple(arrange.random_walk_arrange(P())) for _ in range(1500))
    ctx.check(got == set(want), 'arrangements that occur in 1500 walks', got=sorted(got), want=sorted(want))
    ctx.obs('all_continuations_seen', len(want))


def reach_wide(ctx, rng):
    '''Many continuations at once: each of them occurs, at the first step and later.'''
    m = rng.randint(7, 30)
    far = rng.random() < 0.5
    hub = 1 if far else 0
    leaves = list(range(2, 2 + m))
    rng.shuffle(leaves)
    adj = {k: set([hub]) for k in leaves}
    adj[0] = set([1]) if far else set(leaves)
    adj[1] = set([0]) | set(leaves) if far else set()
    for _ in range(rng.choice([0, m])):
        a, b = rng.sample(leaves, 2)
        adj[a].add(b)
        adj[b].add(a)
    steps = 2 + far + rng.choice([0, 1])

    class P(arrange.ArrangeProblem):
        def get_start_position(self):
            return 0

        def is_goal(self, k):
            return k == steps

        def get_neighbors(self, p):
            return set(adj[p])
    ctx.note['input'] = {'graph': {k: sorted(v) for k, v in adj.items()}, 'start': 0, 'goal': steps}
    paths = [arrange.random_walk_arrange(P()) for _ in range(50 * m)]
    for k in range(1 + far, steps):
        got = set(p[k] for p in paths)
        ctx.check(got == set(leaves), 'continuations at step %d that occur in %d walks' % (k, 50 * m), got=sorted(got), want=sorted(leaves))
        ctx.obs('wide_choices', len(got))


def reach_problem(ctx, rng):
    if rng.random() < 0.5:
        pr, nd, g, lat = Boron(4), 2, 4, [[2, 0], [1, 1.732058]]
    else:
        pr, nd, g, lat = FCC(3), 3, 3, [[0, 0.5, 0.5], [0.5, 0, 0.5], [0.5, 0.5, 0]]
    ctx.note['input'] = [type(pr).__name__, g]
    start = (g // 2,) * nd
    want = set(q for q in product(range(g), repeat=nd) if q != start and dist(start, q, lat) <= 2.1)
    got = set(tuple(arrange.random_walk_arrange(pr)[1]) for _ in range(40 * len(want)))
    ctx.check(got == want, 'first steps that occur in %d walks' % (40 * len(want)), got=sorted(got), want=sorted(want))
    ctx.obs('problem_first_steps', len(got))


def case(ctx, i):
    if i % 150 == 0:
        reach_wide(ctx, ctx.rng)
    elif i % 300 == 30:
        reach_problem(ctx, ctx.rng)
    elif i % 30 == 0:
        reach(ctx, ctx.rng)
    elif i % 3:
        lists(ctx, ctx.rng)
    else:
        walk(ctx, ctx.rng)
