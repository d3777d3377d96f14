"""Nondeterministic reference model of a line-search step: which (word, angle) explain an observed step."""
import itertools as it
import numpy as np
from mc import oracle as o

_tab = {}


def words_on(n, lengths):
    """{(word, q0, q1..): matrix} for all identity-free words of the given lengths on ascending qubits."""
    key = (n, tuple(sorted(lengths)))
    if key not in _tab:
        d = {}
        for k in key[1]:
            for w in it.product('XYZ', repeat=k):
                for qs in it.combinations(range(n), k):
                    d[(''.join(w),) + qs] = o.embed(o.word(''.join(w)), qs, n)
        _tab[key] = d
    return _tab[key]


def cost(phi, H):
    return np.vdot(phi, H @ phi).real


def line_min(phi, H, P):
    """min over t of the cost of exp(-i t P) phi, P^2 = 1"""
    Pp = P @ phi
    Hp = H @ phi
    f0 = np.vdot(phi, Hp).real
    f1 = np.vdot(Pp, H @ Pp).real            # t = pi/2
    # f(t) = c^2 f0 + s^2 f1 + 2 c s Im<P phi|H phi> ... sign irrelevant for the minimum
    b = np.vdot(Pp, Hp).imag
    return 0.5 * (f0 + f1) - np.sqrt((0.5 * (f0 - f1)) ** 2 + b ** 2)


def rotations(W, table, tol=1e-7):
    """Words P for which W = exp(-i t P) for some t."""
    d = len(W)
    c0 = np.trace(W) / d
    if abs(c0.imag) > tol:
        return []
    if np.abs(W - c0.real * np.eye(d)).max() < tol:
        return list(table) if abs(abs(c0.real) - 1) < tol else []
    out = []
    for k, P in table.items():
        # tr(P W)/d
        c = np.sum(P.T * W) / d
        if abs(c.real) > tol or abs(c) < tol / 10:
            continue
        if np.abs(W - c0.real * np.eye(d) - c * P).max() < tol:
            out.append(k)
    return out


def explain(U, V, H, table, hyps, exclude_last, gtol=1e-7, ctol=1e-7):
    """All words that explain the step U -> V as a steepest-direction line search, given the set `hyps` of possible
    previous words; returns (new hypotheses, reason if empty)."""
    phi, psi = U[:, 0], V[:, 0]
    W = V @ U.conj().T
    if not o.is_unitary(W, 1e-7):
        return set(), 'the step is not unitary'
    cands = rotations(W, table)
    if not cands:
        return set(), 'the step is not a rotation about one allowed Pauli word'
    g = {k: abs(o.grad(phi, H, P)) for k, P in table.items()}
    new = set()
    why = set()
    e = cost(psi, H)
    for h in hyps:
        allowed = [k for k in table if not (exclude_last and k == h)]
        gmax = max(g[k] for k in allowed)
        for k in cands:
            if exclude_last and k == h:
                why.add('the previous word %s was used again' % (k,))
                continue
            if g[k] < gmax - gtol:
                why.add('word %s has gradient %.6g but the largest is %.6g' % (k, g[k], gmax))
                continue
            m = line_min(phi, H, table[k])
            if abs(e - m) > ctol:
                why.add('cost %.9g after rotating about %s, the minimum is %.9g' % (e, k, m))
                continue
            r = abs(o.grad(psi, H, table[k]))
            if r > 1e-6:
                why.add('gradient %.3g along %s is left after the line search' % (r, k))
                continue
            new.add(k)
    return new, '; '.join(sorted(why))
