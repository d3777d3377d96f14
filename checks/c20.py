"""C20: the edge-colouring heuristic and its checker."""
import itertools as it
import networkx as nx
import oranssi.edge_coloring as ec
from oranssi.edge_coloring import applyHeuristic, checkEdgeColoring
from mc import core
from mc.randctl import PyRandom, NpRandom

PROPERTY = 'C20'
RULE = ('every labelled graph on up to 4 nodes (5 thorough) x number of colours (largest degree, +1) x repetition and iteration limits '
        '{0,1,2} x every answer of the random source up to a deviation bound; checker: every colouring of every graph on up to 4 nodes; repair rounds from colourings of '
        'every graph on 3 and 4 nodes and some on 5')
ASSUMPTIONS = ['random answers: unbounded for graphs with at most 3 edges, deviation bound 3 (5 thorough; 5 nodes: 1, 3 thorough) otherwise, capped runs are '
               'reported under caps_hit']


class TooLong(Exception):
    pass


def proper(G, D):
    for u in G.nodes():
        cs = [G[u][v]['color'] for v in G[u]]
        if len(set(cs)) != len(cs):
            return False
    return all(d.get('color') in range(D) for _, _, d in G.edges(data=True))


def draw_limit(G, rep, itl):
    conf = sum(max(0, d - 1) for _, d in G.degree())
    passes = (conf + 2) * (rep + 2)
    return 2 * (itl + 2) * (G.number_of_edges() + passes * (G.number_of_nodes() + 3)) + 10


def spread(seed, i):
    """a fixed pseudo-random stream of option rotations (seed 0: none)"""
    x = (i * 2654435761 + seed * 40503) & 0xffffffff
    x ^= x >> 15
    x = (x * 2246822519) & 0xffffffff
    return (x ^ (x >> 13)) if seed else 0


def explore_graph(nodes, edges, D, rep, itl, bound, cap, rec, seed=0):
    outs = set()

    def run(ch):
        G = nx.Graph()
        G.add_nodes_from(nodes)
        G.add_edges_from(edges)
        lim = draw_limit(G, rep, itl)
        before = (list(G.nodes()), sorted(tuple(sorted(e)) for e in G.edges()))

        def chooser(n):
            if len(ch.points) > lim:
                raise TooLong()
            return (ch(n) + spread(seed, len(ch.points))) % n
        rec.path = [nodes, edges, D, rep, itl]
        try:
            with PyRandom(chooser), NpRandom(chooser):
                r = applyHeuristic(G, D, rep, itl)
        except TooLong:
            rec.check(False, 'more than %d random draws with limits %d, %d on %s', lim, rep, itl, edges)
        rec.path = [nodes, edges, D, rep, itl, seed, ch.choices]
        tag = 'graph %s D=%d limits %d,%d answers %s (stream %d)' % (edges, D, rep, itl, ch.choices[:80], seed)
        rec.check((list(G.nodes()), sorted(tuple(sorted(e)) for e in G.edges())) == before, '%s: nodes or edges changed', tag)
        for u, v, d in G.edges(data=True):
            rec.check(d.get('color') in range(D), '%s: edge %s has colour %s', tag, (u, v), d.get('color'))
            rec.check(G[u][v]['color'] == G[v][u]['color'], '%s: asymmetric colour', tag)
        rec.check(bool(r) == proper(G, D), '%s: reported %s, but the colouring is %s', tag, r, 'proper' if proper(G, D) else 'improper')
        if not r:
            more = continues(nodes, edges, D, rep, itl + 1, list(ch.choices), seed)
            rec.check(more > len(ch.points), '%s: gives up although iterations are left (as many draws with limit %d)', tag, itl + 1)
        rec.step(len(ch.points) + 1)
        rec.trace()
        key = tuple(sorted((tuple(sorted((u, v))), d['color']) for u, v, d in G.edges(data=True)))
        rec.state((tuple(edges), D, key))
        outs.add((bool(r), key))
    core.explore(run, bound, cap, rec)
    for x in outs:
        rec.outcome((tuple(edges), D, x))


def continues(nodes, edges, D, rep, itl, answers, seed):
    """number of draws of the same run with another iteration limit"""
    G = nx.Graph()
    G.add_nodes_from(nodes)
    G.add_edges_from(edges)
    count = [0]

    def chooser(n):
        i = count[0]
        count[0] += 1
        if i > len(answers) + 4:
            raise TooLong()
        return ((answers[i] if i < len(answers) else 0) + spread(seed, i + 1)) % n
    try:
        with PyRandom(chooser), NpRandom(chooser):
            applyHeuristic(G, D, rep, itl)
    except TooLong:
        pass
    return count[0]


def conflicts(G):
    return sum(len(G[u]) - len({G[u][v]['color'] for v in G[u]}) for u in G)


def repair(c, rec):
    """one repair round from every complete colouring of a graph (up to a cap on the number of colourings)"""
    E = list(it.combinations(range(c['n']), 2))
    edges = [e for i, e in enumerate(E) if c['m'] >> i & 1]
    deg = max(sum(1 for e in edges if v in e) for v in range(c['n']))
    heuristic = getattr(ec, 'heuristic', None)
    if heuristic is None:
        rec.cap('no repair round to observe')
        return
    for D in (deg, deg + 1):
        total = D ** len(edges)
        stride = max(1, total // c['cols'])
        if stride > 1:
            rec.cap('every %d-th colouring' % stride)
        for num in range(0, total, stride):
            col = [num // D ** i % D for i in range(len(edges))]
            for rep in (0, 2):
                def run(ch):
                    G = nx.Graph()
                    G.add_nodes_from(range(c['n']))
                    for (a, b), x in zip(edges, col):
                        G.add_edge(a, b, color=x)
                    lim, c0 = draw_limit(G, rep, 0), conflicts(G)

                    def chooser(k):
                        if len(ch.points) > lim:
                            raise TooLong()
                        return ch(k)
                    rec.path = [edges, D, col, rep]
                    try:
                        with PyRandom(chooser), NpRandom(chooser):
                            r = heuristic(G, D, rep)
                    except TooLong:
                        rec.check(False, 'more than %d draws in one repair round of %s from %s', lim, edges, col)
                    c1 = conflicts(G)
                    tag = 'repair of %s with %d colours from %s, limit %d, answers %s' % (edges, D, col, rep, ch.choices)
                    rec.check(c1 <= c0, '%s: %d conflicts before, %d after', tag, c0, c1)
                    rec.check(bool(r) == (c1 == 0), '%s: %d conflicts left, reported %s', tag, c1, r)
                    rec.check(sorted(map(sorted, G.edges())) == sorted(map(list, edges)) and
                              all(x['color'] in range(D) for _, _, x in G.edges(data=True)), '%s: edges or colours', tag)
                    rec.step(len(ch.points) + 1)
                    rec.trace()
                    rec.state((c['n'], c['m'], D, num, rep, tuple(ch.choices)))
                core.explore(run, c['bound'], c['cap'], rec)


def greedy(c, rec):
    """with 2*degree-1 colours or more the greedy colouring alone is proper, and the heuristic succeeds for every answer"""
    E = list(it.combinations(range(c['n']), 2))
    edges = [e for i, e in enumerate(E) if c['m'] >> i & 1]
    deg = max(sum(1 for e in edges if v in e) for v in range(c['n']))
    pre = getattr(ec, 'preColoring', None)
    for D in (2 * deg - 1, 2 * deg):
        for old in (None, 0):
            def run(ch):
                G = nx.Graph()
                G.add_nodes_from(range(c['n']))
                G.add_edges_from(edges)
                if old is not None:
                    nx.set_edge_attributes(G, old, 'color')
                rec.path = [edges, D, old]
                with PyRandom(ch), NpRandom(ch):
                    if c['via'] == 'pre':
                        pre(G, D)
                        r = True
                    else:
                        r = applyHeuristic(G, D, 0, 0)
                tag = '%s of %s with %d colours, answers %s' % (c['via'], edges, D, ch.choices)
                rec.check(bool(r), '%s: no success', tag)
                rec.check(proper(G, D), '%s: the colouring is not proper', tag)
                rec.step(len(ch.points) + 1)
                rec.trace()
                rec.state((c['n'], c['m'], D, tuple(ch.choices)))
            if c['via'] == 'pre' and pre is None:
                rec.cap('no greedy colouring to observe')
                return
            core.explore(run, c['bound'], c['cap'], rec)


def attempts(c, rec):
    """a graph that cannot be coloured, constant answers: all attempts draw equally often, so draws(limit) = (limit+1)*draws of one attempt"""
    G0, D = ((nx.complete_graph(3), 2), (nx.cycle_graph(5), 2), (nx.complete_graph(5), 4), (nx.petersen_graph(), 3), (nx.complete_graph(7), 6))[c['g']]
    for rep in (0, 1, 3):
        for kind in range(3):
            draws = []
            for itl in range(6):
                G = nx.Graph(G0)
                count = [0]

                def chooser(n):
                    count[0] += 1
                    if count[0] > 20000:
                        raise TooLong()
                    return (0, n - 1, n // 2)[kind]
                rec.path = [c['g'], rep, kind, itl]
                with PyRandom(chooser), NpRandom(chooser):
                    r = applyHeuristic(G, D, rep, itl)
                tag = 'graph %d limits %d,%d constant answer %d' % (c['g'], rep, itl, kind)
                rec.check(not r and not proper(G, D), '%s: success reported for a graph that needs more colours', tag)
                draws.append(count[0])
                rec.step(count[0])
                rec.trace()
                rec.state((c['g'], rep, kind, itl))
            one = draws[1] - draws[0]
            rec.check(one > 0 and all(d == (i + 1) * one for i, d in enumerate(draws)),
                      'graph %d repetition limit %d answer %d: draws %s for iteration limits 0..5, not limit+1 attempts', c['g'], rep, kind, draws)


def cases(tier):
    q = tier == 'quick'
    out = [{'k': 'attempts', 'g': g} for g in range(5)]
    for n in (2, 3, 4, 5):
        for m in range(1, 2 ** (n * (n - 1) // 2)) if n < 5 or not q else range(7, 1024, 16):
            for via in ('pre', 'all'):
                out.append({'k': 'greedy', 'n': n, 'm': m, 'via': via, 'bound': 2 if q else 4, 'cap': 60 if q else 4000})
    for n in (1, 2, 3, 4):
        E = list(it.combinations(range(n), 2))
        for m in range(2 ** len(E)):
            e = [x for i, x in enumerate(E) if m >> i & 1]
            small = len(e) <= 3
            out.append({'k': 'h', 'n': n, 'm': m, 'bound': None if small else (3 if q else 5), 'cap': 3000 if q else 60000, 'extra': [0, 1]})
            out.append({'k': 'check', 'n': n, 'm': m})
    E = list(it.combinations(range(5), 2))
    for m in range(2 ** len(E)):
        e = [x for i, x in enumerate(E) if m >> i & 1]
        if not any(4 in x for x in e):
            continue
        if not q:
            out.append({'k': 'h', 'n': 5, 'm': m, 'bound': 3, 'cap': 20000, 'extra': [0, 1]})
        else:
            out.append({'k': 'h', 'n': 5, 'm': m, 'bound': 1, 'cap': 400, 'extra': [0]})
    for m in (0, 1):
        out.append({'k': 'big', 'm': m})
    for m in range(16 if q else 64):
        out.append({'k': 'odd', 'm': m + 1})
    for n in (3, 4):
        for m in range(1, 2 ** (n * (n - 1) // 2)):
            out.append({'k': 'repair', 'n': n, 'm': m, 'bound': 1 if q else 3, 'cap': 25 if q else 400, 'cols': 60 if q else 5000})
    for m in ((1023, 1007, 831, 255, 990, 479) if q else range(1, 1024, 4)):
        out.append({'k': 'repair', 'n': 5, 'm': m, 'bound': 1, 'cap': 25 if q else 100, 'cols': 40 if q else 500})
    out.sort(key=lambda c: -c.get('m', 0))
    return out


def run_case(c, rec):
    if c['k'] == 'attempts':
        attempts(c, rec)
        return
    if c['k'] == 'greedy':
        greedy(c, rec)
        return
    if c['k'] == 'repair':
        repair(c, rec)
        return
    if c['k'] == 'big':
        # Petersen graph (class 2), K5, cycles: default answers and single deviations
        for G, D in ((nx.petersen_graph(), 3), (nx.complete_graph(6), 5), (nx.cycle_graph(7), 2), (nx.star_graph(5), 5)):
            explore_graph(list(G.nodes()), list(G.edges()), D, 2 + c["m"], 1, 1, 400, rec)
        return
    if c['k'] == 'odd':
        # graphs that need more colours than their degree: long runs, many streams of answers
        for G, D in ((nx.complete_graph(5), 4), (nx.complete_graph(3), 2), (nx.cycle_graph(5), 2), (nx.petersen_graph(), 3),
                     (nx.complete_graph(7), 6), (nx.wheel_graph(6), 5), (nx.cycle_graph(9), 2)):
            for rep, itl in ((2, 0), (5, 1), (20, 1)):
                explore_graph(list(G.nodes()), list(G.edges()), D, rep, itl, 1, 30, rec, c['m'])
        return
    E = list(it.combinations(range(c['n']), 2))
    edges = [e for i, e in enumerate(E) if c['m'] >> i & 1]
    nodes = list(range(c['n']))
    if c['k'] == 'check':
        for D in (0, 1, 2, 3):
            cols = [None] + list(range(D + 2)) if len(edges) <= 4 else list(range(D + 1))
            if len(cols) ** len(edges) > 5000:
                cols = cols[-3:]
            for col in it.product(cols, repeat=len(edges)):
                G = nx.Graph()
                G.add_nodes_from(nodes)
                for (a, b), x in zip(edges, col):
                    G.add_edge(a, b, color=x)
                r = checkEdgeColoring(G, D)
                rec.check(bool(r) == proper(G, D), 'checker says %s for %s D=%d', r, list(zip(edges, col)), D)
                rec.step()
            rec.state(('c', tuple(edges), D))
        rec.trace()
        return
    deg = max([0] + [sum(1 for e in edges if v in e) for v in nodes])
    for x in c['extra']:
        for rep in (0, 1, 2):
            for itl in (0, 1, 2):
                explore_graph(nodes, edges, deg + x, rep, itl, c['bound'], c['cap'], rec)
        if edges:
            # reversed insertion order, shifted and non-consecutive labels
            explore_graph([3 * v + 2 for v in nodes[::-1]], [(3 * b + 2, 3 * a + 2) for a, b in edges[::-1]], deg + x, 1, 1, 1, 200, rec)
    rec.example({'edges': edges, 'max degree': deg})
