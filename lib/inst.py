"""Problem instances: spacial graphs together with measurement orders."""
import itertools
import json
import random
from functools import lru_cache

from core import SPEC


def inst(adj, order, name=""):
    return {"adj": adj, "order": order, "name": name}


def arrange(rng, l):
    """in any order, but the usual ones are more likely"""
    x = rng.random()
    if x < .2:
        l.sort()
    elif x < .3:
        l.sort(reverse=True)
    else:
        rng.shuffle(l)


def graph_from_edges(n, edges, rng=None):
    adj = [[] for _ in range(n)]
    for a, b in edges:
        adj[a].append(b)
        adj[b].append(a)
    if rng:
        x = rng.random()
        for nb in adj:
            if x < .2:
                nb.sort()
            else:
                rng.shuffle(nb)
    return adj


def order_from_deps(deps, rng=None):
    """deps: node -> list of nodes it depends on (acyclic)"""
    depth = {}
    todo = dict(deps)
    while todo:
        for v in list(todo):
            if all(d in depth for d in todo[v]):
                depth[v] = 1 + max((depth[d] for d in todo[v]), default=-1)
                del todo[v]
    layers = [[] for _ in range(max(depth.values(), default=-1) + 1)]
    for v in depth:
        d = list(deps[v])
        if rng:
            arrange(rng, d)
        layers[depth[v]].append([v, d])
    if rng:
        for l in layers:
            arrange(rng, l)
    return layers


def deps_of(order):
    return {v: list(d) for layer in order for v, d in layer}


def relabel(i, perm):
    n = len(i["adj"])
    adj = [None] * n
    for v in range(n):
        adj[perm[v]] = [perm[w] for w in i["adj"][v]]
    order = [[[perm[v], [perm[d] for d in deps]] for v, deps in l] for l in i["order"]]
    return inst(adj, order, i["name"])


def all_edges(n):
    return list(itertools.combinations(range(n), 2))


def small_exhaustive(n, rng=None):
    """All graphs x all dependency relations with d < v on n nodes; the labels are
    permuted randomly if rng is given."""
    pairs = all_edges(n)
    for g in range(1 << len(pairs)):
        edges = [p for j, p in enumerate(pairs) if g >> j & 1]
        for o in range(1 << len(pairs)):
            deps = {v: [] for v in range(n)}
            for j, (a, b) in enumerate(pairs):
                if o >> j & 1:
                    deps[b].append(a)
            i = inst(graph_from_edges(n, edges, rng), order_from_deps(deps, rng),
                     f"all{n}-{g}-{o}")
            if rng:
                perm = list(range(n))
                rng.shuffle(perm)
                i = relabel(i, perm)
            yield i


def rand_graph(rng, n, density):
    return graph_from_edges(n, [e for e in all_edges(n) if rng.random() < density], rng)


def rand_deps(rng, nodes, density, width=None):
    """random dependencies; with width, at most that many nodes per layer (roughly)"""
    nodes = list(nodes)
    rng.shuffle(nodes)
    deps = {v: [] for v in nodes}
    if width:
        layers = []
        k = 0
        while k < len(nodes):
            w = rng.randint(1, width)
            layers.append(nodes[k:k + w])
            k += w
        before = []
        for l, layer in enumerate(layers):
            for v in layer:
                if l:
                    deps[v].append(rng.choice(layers[l - 1]))
                    for d in before:
                        if d not in deps[v] and rng.random() < density:
                            deps[v].append(d)
            before += layer
    else:
        for j, v in enumerate(nodes):
            for d in nodes[:j]:
                if rng.random() < density:
                    deps[v].append(d)
    return deps


def count_tree(order, cap=10**7):
    """(number of tree nodes, number of leaves) of the full search tree (without
    pruning)"""
    deps = deps_of(order)
    nodes = sorted(deps)
    pos = {v: j for j, v in enumerate(nodes)}
    need = [sum(1 << pos[d] for d in deps[v]) for v in nodes]
    full = (1 << len(nodes)) - 1
    memo = {}

    def rec(m):
        if m == full:
            return 1, 1
        if m in memo:
            return memo[m]
        meas = [1 << j for j in range(len(nodes)) if not m >> j & 1 and need[j] & ~m == 0]
        if len(meas) > 13:
            memo[m] = (cap, cap)
            return memo[m]
        a = b = 0
        for s in range(1, 1 << len(meas)):
            x = sum(bit for j, bit in enumerate(meas) if s >> j & 1)
            p, q = rec(m | x)
            a += p
            b += q
            if a > cap:
                break
        memo[m] = (a + 1, b)
        return memo[m]
    import sys
    sys.setrecursionlimit(10000)
    return rec(0)


def states(order, cap=20000):
    """number of reachable measured sets"""
    deps = deps_of(order)
    seen = {frozenset()}
    todo = [frozenset()]
    while todo:
        m = todo.pop()
        meas = [v for v in deps if v not in m and all(d in m for d in deps[v])]
        for v in meas:
            x = m | {v}
            if x not in seen:
                seen.add(x)
                todo.append(x)
                if len(seen) > cap:
                    return cap
    return len(seen)


def structured(rng, big=False):
    """Structured instances, some of them large; all have a moderate search tree."""
    out = []

    def add(name, adj, order):
        out.append(inst(adj, order, name))

    def line(n):
        return [(v, v + 1) for v in range(n - 1)]

    def ring(n):
        return line(n) + [(0, n - 1)]

    def star(n):
        return [(0, v) for v in range(1, n)]

    def grid(a, b):
        e = []
        for x in range(a):
            for y in range(b):
                if y + 1 < b:
                    e.append((x * b + y, x * b + y + 1))
                if x + 1 < a:
                    e.append((x * b + y, (x + 1) * b + y))
        return e

    def chain(nodes):
        nodes = list(nodes)
        return {v: ([nodes[j - 1]] if j else []) for j, v in enumerate(nodes)}

    def full_chain(nodes):
        nodes = list(nodes)
        return {v: nodes[:j] for j, v in enumerate(nodes)}

    def shuffled(n):
        l = list(range(n))
        rng.shuffle(l)
        return l

    # chains: a single schedule, however large the graph is
    for n in ([1, 2, 5, 33, 70] + ([130, 300] if big else [])):
        add(f"chain-line{n}", graph_from_edges(n, line(n), rng),
            order_from_deps(chain(range(n)), rng))
        add(f"chain-rand{n}", rand_graph(rng, n, 3 / n), order_from_deps(chain(shuffled(n)), rng))
        add(f"fullchain-rand{n}", rand_graph(rng, n, 4 / n),
            order_from_deps(full_chain(shuffled(n)), rng))
    n = 40
    add("chain-complete", graph_from_edges(n, all_edges(n), rng),
        order_from_deps(chain(shuffled(n)), rng))
    # blocks of two or three, each depending on the whole block before
    for n, w in [(8, 2), (12, 2), (9, 3), (16, 4), (10, 5)]:
        nodes = shuffled(n)
        blocks = [nodes[j:j + w] for j in range(0, n, w)]
        deps = {}
        for j, b in enumerate(blocks):
            for v in b:
                deps[v] = list(blocks[j - 1]) if j else []
        add(f"blocks{n}-{w}", rand_graph(rng, n, 0.3), order_from_deps(deps, rng))
    # a long chain with some independent nodes
    for n, f in [(12, 1), (20, 1), (8, 2)] + ([(66, 1)] if big else []):
        nodes = shuffled(n)
        deps = chain(nodes[f:])
        for v in nodes[:f]:
            deps[v] = []
        add(f"chain{n}+free{f}", rand_graph(rng, n, 2.5 / n), order_from_deps(deps, rng))
    # two chains
    for a, b in [(3, 3), (5, 2), (4, 4)]:
        nodes = shuffled(a + b)
        deps = chain(nodes[:a])
        deps.update(chain(nodes[a:]))
        add(f"chains{a}-{b}", graph_from_edges(a + b, ring(a + b), rng), order_from_deps(deps, rng))
    # no dependencies at all
    for n in [1, 2, 3, 4, 5, 6]:
        add(f"free-rand{n}", rand_graph(rng, n, 0.5), order_from_deps({v: [] for v in range(n)}, rng))
    add("free-line6", graph_from_edges(6, line(6), rng), order_from_deps({v: [] for v in range(6)}, rng))
    add("free-star6", graph_from_edges(6, star(6), rng), order_from_deps({v: [] for v in range(6)}, rng))
    # one root/one sink
    add("root-star7", graph_from_edges(7, star(7), rng),
        order_from_deps({0: [], **{v: [0] for v in range(1, 7)}}, rng))
    add("sink-star7", graph_from_edges(7, star(7), rng),
        order_from_deps({0: list(range(1, 7)), **{v: [] for v in range(1, 7)}}, rng))
    add("sink-line7", graph_from_edges(7, line(7), rng),
        order_from_deps({0: list(range(1, 7)), **{v: [] for v in range(1, 7)}}, rng))
    # grids, measured column by column
    for a, b in [(2, 3), (2, 4), (3, 3), (2, 6)]:
        deps = {}
        for x in range(a):
            for y in range(b):
                deps[x * b + y] = [x2 * b + y - 1 for x2 in range(a)
                                   if y and (x2 == x or rng.random() < 0.5)]
        add(f"grid{a}x{b}", graph_from_edges(a * b, grid(a, b), rng), order_from_deps(deps, rng))
    # orders on only a part of the graph
    for n, m in [(4, 2), (6, 3), (8, 4), (12, 5), (5, 1), (70, 4)]:
        nodes = shuffled(n)[:m]
        add(f"part{n}-{m}", rand_graph(rng, n, min(1, 3 / n)),
            order_from_deps(rand_deps(rng, nodes, 0.3), rng))
    # no edges
    add("noedges5", [[] for _ in range(5)], order_from_deps(rand_deps(rng, range(5), 0.3), rng))
    # a single node, and a node that is not measured
    add("single", [[]], [[[0, []]]])
    add("pair", [[1], [0]], [[[1, []]]])
    return out


def sized(rng, lo, hi, tree_cap, tree_lo=0, tries=200, states_cap=3000):
    """a random instance with the given size whose search tree is within the bounds"""
    for _ in range(tries):
        n = rng.randint(lo, hi)
        dens = rng.choice([0.1, 0.2, 0.35, 0.5, 0.8])
        adj = rand_graph(rng, n, dens)
        nodes = list(range(n))
        if rng.random() < 0.15 and n > 2:
            rng.shuffle(nodes)
            nodes = nodes[:rng.randint(1, n - 1)]
        style = rng.random()
        if style < 0.5:
            deps = rand_deps(rng, nodes, rng.choice([0.05, 0.15, 0.3, 0.5]))
        else:
            deps = rand_deps(rng, nodes, rng.choice([0., 0.1, 0.3]), rng.randint(2, 4))
        order = order_from_deps(deps, rng)
        c = count_tree(order, tree_cap + 1)[0]
        if tree_lo <= c <= tree_cap and states(order, states_cap) < states_cap:
            return inst(adj, order, f"rand{n}")
    return inst([[1], [0]], [[[0, []], [1, []]]], "fallback")


def huge(rng):
    """[(instance, can it be searched?)]: with more than 256 nodes"""
    out = []
    for n in (260, 300, 517):
        adj = rand_graph(rng, n, 1 / n)
        # most in one layer
        deps = {v: [] for v in range(n)}
        for v in rng.sample(range(n // 2, n), rng.choice([0, 5, 20])):
            deps[v] = [rng.randrange(n // 2)]
        out.append((inst(adj, order_from_deps(deps, rng), f"wide{n}"), False))
        # most in the second layer
        first = rng.choice([1, 3, 20])
        deps = {v: [rng.randrange(first)] if v >= first else [] for v in range(n)}
        out.append((relabel(inst(adj, order_from_deps(deps, rng), f"second{n}"),
                            rng.sample(range(n), n)), False))
        # one after the other; a star, so that the memory is large
        nodes = rng.sample(range(n), n)
        hub = nodes[0] if rng.random() < .5 else nodes[n // 3]
        edges = [(min(hub, v), max(hub, v)) for v in range(n) if v != hub]
        deps = {v: nodes[j - 1:j] if j else [] for j, v in enumerate(nodes)}
        out.append((inst(graph_from_edges(n, edges, rng), order_from_deps(deps, rng),
                         f"hub{n}"), True))
    # a chain, and a node that is independent of it
    n = 270
    nodes = rng.sample(range(n), n)
    deps = {v: nodes[j - 1:j] if j else [] for j, v in enumerate(nodes)}
    deps[nodes[-1]] = []
    out.append((inst(rand_graph(rng, n, 1.5 / n), order_from_deps(deps, rng), f"long{n}"), True))
    return out


def straddling(rng, lengths=(128, 256)):
    """long chains and independent nodes: the frontier has paths on both sides of a length"""
    out = []
    for l in lengths:
        for free in (1, 1, 2):
            m = l - rng.randint(0, free - 1) - (free == 1)
            # the neighbours of the ends stay in memory, the other nodes are independent
            n = m + 2 + free
            edges = [(v, v + 1) for v in range(m - 1)] + [(0, m), (m - 1, m + 1)]
            deps = {v: [v - 1] if v else [] for v in range(m)}
            deps.update({m + 2 + j: [] for j in range(free)})
            i = inst(graph_from_edges(n, edges, rng), order_from_deps(deps, rng), f"straddling{l}")
            out.append(relabel(i, rng.sample(range(n), n)))
    return out


def crowded(rng, n=None):
    """wide layers, but everything is in memory from the first step on, so that pruning
    leaves little of the large tree"""
    n = n or rng.randint(10, 14)
    adj = graph_from_edges(n, all_edges(n), rng)
    first = rng.choice([1, 1, 2, n // 2])
    deps = {v: [] if v < first else rng.sample(range(first), rng.randint(1, first))
            for v in range(n)}
    return relabel(inst(adj, order_from_deps(deps, rng), f"crowded{n}"), rng.sample(range(n), n))


def padded(rng, leaves=None):
    """a small instance with many further neighbours of one of its nodes; they are not to
    be measured, so the search stays small, but the memory becomes large"""
    i = sized(rng, 4, 8, 600, tree_lo=20)
    n = len(i["adj"])
    more = leaves or rng.choice([rng.randint(246, 258), rng.randint(118, 130)])
    v = rng.choice(i["order"][0])[0]
    adj = [list(a) for a in i["adj"]] + [[v] for _ in range(more)]
    adj[v] += range(n, n + more)
    return relabel(inst(adj, i["order"], f"padded{n}+{more}"), rng.sample(range(n + more), n + more))


def hard(rng, cap=10**9):
    """instances on which narrow mistakes of the search show (tools/gen_hard.py)"""
    out = []
    for x in json.loads((SPEC / "hard.json").read_text()):
        if x["steps"] <= cap:
            n = len(x["inst"]["adj"])
            out.append(relabel(inst(x["inst"]["adj"], x["inst"]["order"], f"hard{n}"),
                               rng.sample(range(n), n)))
    return out


def empty():
    """nothing to measure"""
    return [inst([], []), inst([[]], []), inst([[1], [0]], []), inst([[] for _ in range(70)], [])]
