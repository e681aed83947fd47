"""Tree search: every playout follows the selection rule; the most visited move is answered."""
import random
from math import sqrt

ID = 'C20'
QUICK, THOROUGH = 900, 20000
NEED = ['playouts', 'tree_moves', 'rollout_moves', 'moves_answered', 'known_moves_kept', 'unknown_moves', 'terminal_leaves', 'rollout_limit_hit',
        'lambda_0', 'lambda_1', 'lambda_mixed', 'revisited_nodes', 'asked_again', 'wins', 'losses', 'ties', 'large_games', 'long_games', 'deep_games']
RULE = ('a case is a random game tree and random search parameters; every move the search plays on copies of the state is '
        'recorded and replayed against a reference of the selection, evaluation and averaging rules; non-trivial: at '
        'least 20 playouts with revisited nodes; distinct by (game seed, parameters)')
ASSUMPTIONS = ['policy, value and rollout functions are pure; equally good choices (within 1e-9) are all accepted']


def setup():
    global MCTS
    from ababe.mlearn.mcts import MCTS


class Game(object):
    """Random game: everything is a function of the move history."""

    def __init__(self, seed, rng):
        self.seed = seed
        self.big = rng.random() < 0.03
        self.long = not self.big and rng.random() < 0.05
        self.deep = not self.big and not self.long and rng.random() < 0.05
        self.depth = rng.randint(35, 150) if self.deep else rng.randint(8, 30) if self.big else rng.randint(40, 620) if self.long else rng.randint(1, 7)
        self.width = 1 if self.deep and rng.random() < 0.7 else rng.randint(8, 40) if self.big else rng.randint(1, 4)
        self.names = list(range(40)) if self.big else rng.choice([list(range(9)), list('abcdefgh'), [(0, k) for k in range(9)]])
        self.norm = rng.random() < 0.6
        self.draws = rng.random()
        self.shift = rng.choice([0, 0, 1])
        self.cache = {}

    def rnd(self, tag, h):
        return random.Random('%s|%s|%r' % (self.seed, tag, h))

    def info(self, h):
        if h not in self.cache:
            r = self.rnd('n', h)
            if len(h) >= self.depth or (h and not self.long and not self.deep and r.random() < 0.08):
                acts = []
            else:
                acts = r.sample(self.names, r.randint(1, self.width))
            p = [r.choice([0.0, r.random(), r.random()]) for _ in acts]
            q = [r.choice([0.5, r.random(), r.random()]) for _ in acts]
            if self.norm and sum(p):
                p = [x / sum(p) for x in p]
            self.cache[h] = {'policy': list(zip(acts, p)), 'rollout': list(zip(acts, q)), 'value': r.uniform(-1, 1),
                             'player': r.choice([1, -1]) if self.shift else (1 if len(h) % 2 else -1),
                             'winner': 0 if r.random() < self.draws * 0.6 else r.choice([1, -1])}
        return self.cache[h]


class State(object):
    def __init__(self, game, log, h=()):
        self.game, self.log, self.h = game, log, h

    def copy(self):
        return State(self.game, self.log, self.h)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def do_move(self, a, *_):
        self.log.append((self.h, a))
        self.h = self.h + (a,)

    def get_current_player(self):
        return self.game.info(self.h)['player']

    def get_winner(self):
        return self.game.info(self.h)['winner']


class Node(object):
    def __init__(self, P):
        self.N, self.Q, self.u, self.P, self.kids = 0, 0.0, P, P, {}


def playout(ctx, game, log, pos, root, h0, par):
    node, h, path = root, h0, [root]
    for _ in range(par['L']):
        if not node.kids:
            acts = game.info(h)['policy']
            if not acts:
                ctx.obs('terminal_leaves')
                break
            for a, p in acts:
                node.kids[a] = Node(p)
        if pos >= len(log) or log[pos][0] != h:
            ctx.fail('a playout stopped descending at depth %d' % (len(h) - len(h0)), expected_at=h,
                     got=log[pos] if pos < len(log) else None)
        a = log[pos][1]
        pos += 1
        if a not in node.kids:
            ctx.fail('the search played %r, not among the moves at %r' % (a, h))
        best = max(k.Q + k.u for k in node.kids.values())
        got = node.kids[a].Q + node.kids[a].u
        if got < best - 1e-9:
            ctx.fail('the search descended to a move of score %.9f while another has %.9f' % (got, best), at=h, move=a,
                     table={repr(b): [k.N, k.Q, k.u, k.P] for b, k in node.kids.items()})
        node = node.kids[a]
        if node.N:
            ctx.obs('revisited_nodes')
        path.append(node)
        h = h + (a,)
        ctx.obs('tree_moves')
    leaf = h
    v = game.info(leaf)['value']
    z = 0
    if par['lam'] > 0:
        for _ in range(par['limit']):
            acts = game.info(h)['rollout']
            if not acts:
                break
            if pos >= len(log) or log[pos][0] != h:
                ctx.fail('a rollout ended after %d moves' % (len(h) - len(leaf)), expected_at=h)
            a = log[pos][1]
            pos += 1
            top = max(p for _, p in acts)
            if dict(acts).get(a, -1) < top - 1e-12:
                ctx.fail('a rollout played %r, not the preferred move' % (a,), at=h, moves=acts)
            h = h + (a,)
            ctx.obs('rollout_moves')
        else:
            ctx.obs('rollout_limit_hit')
        w = game.info(h)['winner']
        z = 0 if w == 0 else (1 if w == game.info(leaf)['player'] else -1)
        ctx.obs({0: 'ties', 1: 'wins', -1: 'losses'}[z])
    val = (1 - par['lam']) * v + par['lam'] * z
    for k, nd in enumerate(path):
        nd.N += 1
        nd.Q += (val - nd.Q) / nd.N
        if k:
            nd.u = par['c'] * nd.P * sqrt(path[k - 1].N) / (1 + nd.N)
    ctx.obs('playouts')
    return pos


def case(ctx, i):
    rng = ctx.rng
    game = Game('%s/%s' % (ctx.seed, i), rng)
    par = {'lam': rng.choice([0, 1, 0.5, 0.5, rng.random()]), 'c': rng.choice([5, 1, 0.3, 0.01, rng.uniform(0.1, 20)]),
           'limit': rng.choice([500, 500, 500, 3, 3, 1, 1, 0]), 'L': rng.choice([1, 2, 3, 5, 20]), 'n': rng.choice([1, 5, 20, 60, 150, 300])}
    if game.big:
        par['n'], par['L'] = rng.choice([400, 1000, 2500]), rng.choice([5, 20, 40])
        ctx.obs('large_games')
    if game.deep:
        par['n'], par['L'] = rng.choice([60, 120, 200, 400]), rng.choice([20, 20, 50, 100, 140])
        ctx.obs('deep_games')
    if game.long:
        par['n'], par['limit'] = rng.choice([1, 3, 6]), rng.choice([500, 500, 30, 100, 499, 600])
        par['lam'] = par['lam'] or 0.5
        ctx.obs('long_games')
    ctx.note['input'] = dict(par, game=game.seed, depth=game.depth, width=game.width)
    ctx.obs('lambda_0' if par['lam'] == 0 else 'lambda_1' if par['lam'] == 1 else 'lambda_mixed')
    info = game.info
    log = []
    s = MCTS(lambda st: info(st.h)['value'], lambda st: list(info(st.h)['policy']), lambda st: list(info(st.h)['rollout']),
             lmbda=par['lam'], c_puct=par['c'], rollout_limit=par['limit'], playout_depth=par['L'], n_playout=par['n'])
    root = Node(1.0)
    h0 = ()
    total = 0
    for step in range(rng.randint(1, 5)):
        if not info(h0)['policy']:
            break
        st = State(game, log, h0)
        del log[:]
        ans = s.get_move(st)
        ctx.check(st.h == h0, 'the search modified the state it was given', got=st.h)
        moves = list(log)
        pos = 0
        for _ in range(par['n']):
            pos = playout(ctx, game, moves, pos, root, h0, par)
        ctx.check(pos == len(moves), '%d moves were played beyond the %d playouts' % (len(moves) - pos, par['n']))
        total += par['n']
        top = max(k.N for k in root.kids.values())
        ctx.check(ans in root.kids and root.kids[ans].N == top, 'the answer %r is not a most visited move' % (ans,),
                  visits={repr(a): k.N for a, k in root.kids.items()})
        ctx.obs('moves_answered')
        x = rng.random()
        if x < 0.25:
            ctx.obs('asked_again')
            continue
        if x < 0.85:
            a = ans if rng.random() < 0.6 else rng.choice([b for b, _ in info(h0)['policy']])
            s.update_with_move(a)
            root = root.kids[a]
            h0 = h0 + (a,)
            ctx.obs('known_moves_kept')
        else:
            s.update_with_move('no such move')
            root = Node(1.0)
            h0 = h0 + ('no such move',)
            ctx.obs('unknown_moves')
    if total >= 20:
        ctx.sig(game.seed, tuple(sorted(par.items())))
        ctx.sample(ctx.note['input'])
