"""The random-pop set is a set, and draws any of its members."""
from math import sqrt

ID = 'C19'
QUICK, THOROUGH = 3000, 60000
NEED = ['add', 'discard', 'remove', 'random_pop', 'get_random', 'empty_draws', 'set_algebra', 'in_place', 'drained', 'uniformity_tables', 'large_tables',
        'readd_after_discard', 'discard_last', 'discard_absent', 'large_sets']
RULE = ('a case is a random history of operations on a pool of random-pop sets mirrored by built-in sets and compared '
        'after every step, plus draw statistics; non-trivial: a history with at least 3 removals; distinct by history')
ASSUMPTIONS = ['uniformity is judged by a chi-square statistic at 8 standard deviations over fixed seeds']


def setup():
    global RandomPopSet
    from ababe.mlearn.dsutils import RandomPopSet


def same(ctx, s, m, ops):
    it = list(s)
    if len(s) != len(m) or len(it) != len(m) or set(it) != m:
        ctx.fail('after %s: members %s instead of %s' % (ops[-6:], it, sorted(m, key=repr)), ops=ops)
    for x in UNI:
        if (x in s) != (x in m):
            ctx.fail('after %s: membership of %r is wrong' % (ops[-6:], x), ops=ops)
    ctx.obs('oracle_verdicts')


UNI = [0, 1, 2, 3, 'a', 'b', (0, 0), (0, 1), (1, 0), (1, 2, 3), 1.5, -7, (5, 5), 'zz', frozenset([1]), None, '']


def case(ctx, i):
    rng = ctx.rng
    if i % 60 == 7:
        return uniform(ctx, rng)
    if i % 60 == 37:
        return large(ctx, rng)
    pool = []
    ops = []
    ctx.note['ops'] = ops
    rem = 0
    gone = set()
    for step in range(rng.randint(10, 60)):
        op = rng.choice(['new', 'add', 'add', 'add', 'push', 'discard', 'discard', 'remove', 'pop', 'pop', 'get', 'or', 'and',
                         'sub', 'xor', 'ior', 'iand', 'isub', 'ixor', 'clear', 'drain', 'cmp', 'absent'])
        if not pool:
            op = 'new'
        if op == 'new':
            src = [rng.choice(UNI) for _ in range(rng.randint(0, 8))]
            arg = rng.choice([list, tuple, set, iter])(src)
            if not src and rng.random() < 0.5:
                pool.append([RandomPopSet(), set()])
            else:
                pool.append([RandomPopSet(arg), set(src)])
            ops.append(('new', src))
            if len(pool) > 3:
                pool.pop(0)
        else:
            k = rng.randrange(len(pool))
            s, m = pool[k]
            x = rng.choice(UNI)
            if op in ('discard', 'remove') and m and rng.random() < 0.8:
                lst = list(s)
                x = lst[-1] if rng.random() < 0.3 else rng.choice(lst)
                if x == lst[-1]:
                    ctx.obs('discard_last')
            ops.append((op, k, x))
            if op in ('add', 'push'):
                if x in gone and x not in m:
                    ctx.obs('readd_after_discard')
                getattr(s, op)(x)
                m.add(x)
                ctx.obs('add')
            elif op == 'discard':
                if x not in m:
                    ctx.obs('discard_absent')
                s.discard(x)
                m.discard(x)
                gone.add(x)
                rem += 1
                ctx.obs('discard')
            elif op == 'absent':
                y = ('absent', step)
                s.discard(y)
                try:
                    s.remove(y)
                    ctx.fail('removing an absent member succeeded')
                except KeyError:
                    pass
            elif op == 'remove':
                if x in m:
                    s.remove(x)
                    m.remove(x)
                    gone.add(x)
                    rem += 1
                    ctx.obs('remove')
            elif op in ('pop', 'get'):
                y = s.random_pop() if op == 'pop' else s.get_random()
                ops[-1] = (op, k, y)
                if not m:
                    ctx.check(y is None, 'a draw from an empty set gave %r' % (y,))
                    ctx.obs('empty_draws')
                else:
                    ctx.check(y in m, 'a draw gave %r, not a member' % (y,), members=sorted(m, key=repr))
                    if op == 'pop':
                        m.remove(y)
                        gone.add(y)
                        rem += 1
                ctx.obs('random_pop' if op == 'pop' else 'get_random')
            elif op in ('or', 'and', 'sub', 'xor'):
                t, n = rng.choice(pool)
                if rng.random() < 0.3:
                    n = set(rng.choice(UNI) for _ in range(4))
                    t = set(n)
                r = {'or': lambda a, b: a | b, 'and': lambda a, b: a & b, 'sub': lambda a, b: a - b, 'xor': lambda a, b: a ^ b}[op]
                res, want = r(s, t), r(m, n)
                same(ctx, res, want, ops)
                pool.append([res, set(want)])
                if len(pool) > 3:
                    pool.pop(0)
                ctx.obs('set_algebra')
            elif op in ('ior', 'iand', 'isub', 'ixor'):
                t, n = rng.choice(pool)
                if rng.random() < 0.4:
                    n = set(rng.choice(UNI) for _ in range(4))
                    t = set(n)
                n = set(n)
                if op == 'ior':
                    s |= t
                    m |= n
                elif op == 'iand':
                    s &= t
                    m &= n
                elif op == 'isub':
                    s -= t
                    m -= n
                else:
                    s ^= t
                    m ^= n
                pool[k][0] = s
                rem += 1
                ctx.obs('in_place')
            elif op == 'clear' and rng.random() < 0.3:
                s.clear()
                m.clear()
            elif op == 'drain' and rng.random() < 0.4:
                got = []
                for _ in range(len(m)):
                    got.append(s.random_pop())
                ctx.check(sorted(map(repr, got)) == sorted(map(repr, m)), 'popping everything gave %s' % got, want=sorted(m, key=repr))
                m.clear()
                ctx.check(s.random_pop() is None and len(s) == 0, 'drained set is not empty')
                ctx.obs('drained')
            elif op == 'cmp':
                t, n = rng.choice(pool)
                ctx.check((s == t) == (m == n) and (s <= t) == (m <= n) and s.isdisjoint(t) == m.isdisjoint(n)
                          and (s == set(m)), 'comparison of sets is wrong', a=sorted(m, key=repr), b=sorted(n, key=repr))
        for s, m in pool:
            same(ctx, s, m, ops)
    if rem >= 3:
        ctx.sig(tuple(map(repr, ops)))
        ctx.sample({'ops': ops[:12]})


def large(ctx, rng):
    """Hundreds of members, thousands of operations."""
    n = rng.randint(100, 800) if rng.random() < 0.6 else rng.randint(1500, 5000)
    s, m = RandomPopSet(range(n)), set(range(n))
    ctx.note['ops'] = ['large', n]
    for step in range(3000):
        x = rng.randrange(2 * n)
        op = rng.random()
        if op < 0.4:
            s.add(x)
            m.add(x)
        elif op < 0.7:
            s.discard(x)
            m.discard(x)
        elif m and op < 0.85:
            y = s.random_pop()
            ctx.check(y in m, 'drew %r, not a member' % (y,), step=step)
            m.discard(y)
        elif m:
            y = s.get_random()
            ctx.check(y in m, 'looked at %r, not a member' % (y,), step=step)
        if (x in s) != (x in m) or len(s) != len(m):
            ctx.fail('a set of %d members: membership of %r or length %d wrong' % (len(m), x, len(s)), step=step)
        if step % 500 == 0:
            ctx.check(sorted(s) == sorted(m), 'members differ after %d operations' % step)
    ctx.check(sorted(s) == sorted(m), 'members differ at the end')
    if len(m) > 60:
        # draws reach the whole of a large set: every eighth of it
        it = list(s)
        w = len(it) // 8
        seen = set(it.index(s.get_random()) // w for _ in range(250))
        ctx.check(all(k in seen for k in range(8)), '250 draws from %d members never came from some eighth of them' % len(it), seen=sorted(seen))
    out = [s.random_pop() for _ in range(len(m))]
    ctx.check(sorted(out) == sorted(m) and len(s) == 0, 'emptying a set of %d drew other members' % len(m))
    ctx.obs('large_sets')


def uniform(ctx, rng):
    """Which member is drawn: after a random history every member is equally likely."""
    n = rng.randint(2, 9) if rng.random() < 0.6 else rng.randint(10, 250)
    s = RandomPopSet()
    for k in range(n + 3):
        s.add(k)
    for k in rng.sample(range(n + 3), 3):
        s.discard(k)
    mem = sorted(s)
    N = (600 if n < 10 else 40) * n
    cnt = {k: 0 for k in mem}
    first = rng.random() < 0.5
    rank = [0] * n
    recent = list(mem)
    for _ in range(N):
        if first:
            x = s.get_random()
        else:
            x = s.random_pop()
            s.add(x)
        cnt[x] = cnt.get(x, 0) + 1
        if x in cnt and len(cnt) == n:
            # how recently the member was drawn before: independent of the draw
            r = recent.index(x)
            rank[r] += 1
            recent.insert(0, recent.pop(r))
    e = N / float(n)
    chi = sum((c - e) ** 2 / e for c in cnt.values())
    ctx.check(len(cnt) == n and chi < (n - 1) + 8 * sqrt(2.0 * (n - 1)) + 10, 'draws are not uniform', counts=sorted(cnt.items()))
    chi2 = sum((c - e) ** 2 / e for c in rank)
    ctx.check(chi2 < (n - 1) + 8 * sqrt(2.0 * (n - 1)) + 10, 'a draw depends on earlier draws', ranks=rank)
    ctx.obs('uniformity_tables')
    ctx.obs('large_tables', n > 9)
    ctx.peak('chi2_over_dof', round(max(chi, chi2) / (n - 1), 2))
