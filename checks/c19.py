"""C19: a commuting set is a non-empty set of disjoint given edges."""
import itertools as it
from oranssi.circuit_tools import get_commuting_set
from mc import core
from mc.randctl import PyRandom, NpRandom

PROPERTY = 'C19'
RULE = ('every labelled graph on up to 5 nodes (and matchings, paths, cycles, stars, complete graphs up to 12 nodes) as an edge list, in several orders and orientations, x every answer of '
        'the random source with at most 2 deviations within the first draws; monitor: subset, orientation, disjoint, non-empty, '
        'complete for matchings')
ASSUMPTIONS = ['random answers: deviation bound 2 within the first 14 draws (5 nodes: 1 within 8; 1 within the first 40 (4) for graphs on which '
               'the heuristic fails and draws hundreds of times)']


def graphs(n):
    E = list(it.combinations(range(n), 2))
    for m in range(1, 2 ** len(E)):
        yield m, [e for i, e in enumerate(E) if m >> i & 1]


def variants(edges, many):
    """orders and orientations"""
    out = [list(edges), list(edges)[::-1], [e[::-1] for e in edges], [e[::-1] if i % 2 else e for i, e in enumerate(edges)]]
    if many:
        out.append(edges[1:] + edges[:1])
        out.append([e[::-1] if i % 2 == 0 else e for i, e in enumerate(edges[::-1])])
        if len(edges) <= 3:
            for p in it.permutations(edges):
                for bits in it.product((0, 1), repeat=len(edges)):
                    out.append([e[::-1] if b else e for e, b in zip(p, bits)])
    uniq = []
    for v in out:
        if v not in uniq:
            uniq.append(v)
    return uniq


def check(given, res, orig, rec):
    tag = 'edges %s' % (orig,)
    rec.check(given == orig, '%s: the input was changed to %s', tag, given)
    res = [tuple(e) for e in res]
    rec.check(len(res) > 0, '%s: nothing was selected', tag)
    rec.check(all(e in orig for e in res), '%s: %s is not a set of given edges', tag, res)
    nodes = [x for e in res for x in e]
    rec.check(len(nodes) == len(set(nodes)), '%s: %s overlap', tag, res)
    all_nodes = [x for e in orig for x in e]
    if len(all_nodes) == len(set(all_nodes)):
        rec.check(sorted(res) == sorted(orig), '%s are disjoint but only %s were selected', tag, res)


def explore_edges(edges, rec, bound, horizon):
    outcomes = set()
    first = [None]

    def run(ch):
        given = list(edges)
        with PyRandom(ch), NpRandom(ch):
            res = get_commuting_set(given)
        rec.path = [edges, ch.choices[:60]]
        check(given, res, list(edges), rec)
        outcomes.add(tuple(sorted(tuple(e) for e in res)))
        first[0] = len(ch.points)
        rec.step(len(ch.points) + 1)
        rec.trace()
        rec.state((tuple(edges), tuple(sorted(res))))
    run(core.Chooser())
    if first[0] > 150:
        core.explore(run, 1, 200, rec=None, horizon=40 if len(set(x for e in edges for x in e)) < 5 else 4)
    else:
        core.explore(run, bound, 3000, rec=rec, horizon=horizon)
    for x in outcomes:
        rec.outcome((tuple(edges), x))


# larger registers: matchings (everything must be selected), paths, cycles, stars, complete and bipartite graphs, several components
BIG = [[(0, 1), (2, 3), (4, 5)], [(0, 5), (1, 4), (2, 3)], [(9, 2), (3, 7), (0, 4), (1, 8)], [(0, 1), (2, 3), (4, 5), (6, 7), (8, 9), (10, 11)],
       [(i, i + 1) for i in range(7)], [(i, (i + 1) % 6) for i in range(6)], [(i, (i + 1) % 7) for i in range(7)],
       [(0, i) for i in range(1, 8)], [(i, 9) for i in range(7)], list(it.combinations(range(6), 2)), list(it.combinations(range(7), 2)),
       [(a, b) for a in range(3) for b in range(3, 6)], [(0, 1), (1, 2), (0, 2), (5, 6), (7, 8), (10, 12)],
       [(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3)], [(0, 7), (7, 3), (3, 9), (9, 0), (0, 3), (11, 12)]]


def cases(tier):
    q = tier == 'quick'
    out = []
    for n in (2, 3, 4):
        for m, e in graphs(n):
            if n > 2 and not any(n - 1 in x for x in e):
                continue        # a graph on fewer nodes
            out.append({'n': n, 'm': m, 'many': n < 4 or not q, 'bound': 2, 'horizon': 14, 'shift': 0})
    for m, e in graphs(4):
        if len(e) in (2, 5):
            out.append({'n': 4, 'm': m, 'many': False, 'bound': 1, 'horizon': 14, 'shift': 3})
    for m, e in graphs(5):
        if not any(4 in x for x in e):
            continue
        if not q:
            out.append({'n': 5, 'm': m, 'many': True, 'bound': 2, 'horizon': 14, 'shift': 0})
        else:
            out.append({'n': 5, 'm': m, 'many': False, 'bound': 1, 'horizon': 8, 'shift': 0})
    for i in range(len(BIG)):
        out.append({'big': i})
    for n in range(1, 6):
        out.append({'singles': n})
    out.sort(key=lambda c: -c.get('m', 0))
    return out


def run_case(c, rec):
    if 'big' in c:
        e = BIG[c['big']]
        for v in variants(e, len(e) < 5):
            explore_edges(v, rec, 1, 10 if len(e) < 8 else 4)
        rec.example({'edges': e})
        return
    if 'singles' in c:
        for k in range(1, c['singles'] + 1):
            for sub in it.permutations(range(c['singles']), k):
                edges = [(q,) for q in sub]
                given = list(edges)
                check(given, get_commuting_set(given), edges, rec)
                rec.step()
                rec.state(('s', sub))
        rec.trace()
        return
    E = list(it.combinations(range(c['n']), 2))
    edges = [e for i, e in enumerate(E) if c['m'] >> i & 1]
    edges = [(a * 2 + c['shift'], b * 2 + c['shift']) if c['shift'] else (a, b) for a, b in edges]
    for v in variants(edges, c['many']):
        explore_edges(v, rec, c['bound'], c['horizon'])
    rec.example({'edges': edges})
