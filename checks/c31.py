"""C31: the printed forms of Pauli objects denote the operator."""
import itertools as it
import re
import numpy as np
import sympy as sp
from oranssi.pauli import Pauli, PauliMonomial
from mc import oracle as o

PROPERTY = 'C31'
RULE = ('all words of up to 3 letters (identities included) on ascending and gapped sites, built in every order, x coefficients (real, '
        'imaginary, complex, 1, 0, symbolic), and all products, commutators and conjugates of pairs; the text, TeX and compact forms '
        'are parsed by an independent parser and compared with sites, letters and coefficient')
LET = 'IXYZ'
CO = [1.0, -1.0, 1j, 0.5 - 2j, 0.0, 1 + 1e-9, 2.5e-7j]
SITES = [(0, 1, 2), (2, 10, 11), (7, 30, 100)]


def parse_text(s):
    """(coefficient or None, [(site, letter)])"""
    coeff = None
    if ' * ' in s:
        head, s = s.rsplit(' * ', 1)
        coeff = head
    fac = re.findall(r'S\((\d+),(\d)\)', s)
    assert ' '.join('S(%s,%s)' % f for f in fac) == s.strip(), s
    return coeff, [(int(a), LET[int(g)]) for a, g in fac]


def parse_tex(s):
    """(rest, [(site or None, letter)])"""
    out = []
    pat = re.compile(r'\\sigma_\{(\d+)\}\^\{([XYZ])\}|I_\{(\d+)\}|(?<![A-Za-z_])I(?![A-Za-z_{])')
    for m in pat.finditer(s):
        if m.group(1):
            out.append((int(m.group(1)), m.group(2)))
        else:
            out.append((int(m.group(3)) if m.group(3) else None, 'I'))
    return pat.sub('', s).strip(), out


def same_coeff(text, c):
    if isinstance(c, sp.Basic):
        return sp.simplify(sp.sympify(text) - c) == 0
    return complex(text.strip()) == complex(c)


def judge(m, want, rec, tag):
    """m: PauliMonomial, want: [(site, letter)] ascending"""
    c = m.coeff
    for text, withc in ((repr(m), True), (str(m), True), (m.__repr__(coeff=False), False)):
        co, fac = parse_text(text)
        rec.check(fac == want, '%s: text %r, expected factors %s', tag, text, want)
        if withc:
            if co is None:
                rec.check(not isinstance(c, sp.Basic) and complex(c) == 1, '%s: text %r hides the coefficient %s', tag, text, c)
            else:
                rec.check(same_coeff(co, c), '%s: text %r, coefficient %s', tag, text, c)
        else:
            rec.check(co is None, '%s: coefficient printed in %r', tag, text)
    for text, withc in ((m.tex(), True), (m.tex(coeff=False), False), (m.__tex__(), True)):
        rest, fac = parse_tex(text)
        rec.check(fac == want, '%s: TeX %r, expected factors %s', tag, text, want)
        rec.check((same_coeff(rest, c) if withc else rest == ''), '%s: TeX %r, coefficient %s', tag, text, c)
    nz = [(s, l) for s, l in want if l != 'I']
    comp = m.to_oranssi()
    rec.check(tuple(comp) == (''.join(l for _, l in nz),) + tuple(s for s, _ in nz), '%s: compact form %s', tag, comp)
    rec.step(7)


def factors(m):
    return [(p.alpha, LET[p.gamma]) for p in m.monomial]


def cases(tier):
    q = tier == 'quick'
    out = [{'k': 'single'}]
    for si in range(len(SITES)):
        for k in (1, 2, 3):
            out.append({'k': 'mono', 'si': si, 'len': k})
        for w in it.product(LET, repeat=2):
            out.append({'k': 'ops', 'si': si, 'w': ''.join(w), 'all': not q})
    return out


def run_case(c, rec):
    x, y = sp.symbols('x y')
    if c['k'] == 'single':
        for s in (0, 3, 12):
            for g in range(4):
                for co in CO + [x, x * y]:
                    for form in (g, LET[g]):
                        p = Pauli(s, form, coeff=co)
                        tag = 'Pauli(%d,%r,%s)' % (s, form, co)
                        for text, withc in ((repr(p), True), (p.__repr__(coeff=False), False)):
                            t, fac = parse_text(text)
                            rec.check(fac == [(s, LET[g])], '%s: text %r', tag, text)
                            rec.check((t is None and (not withc or p.coeff == 1)) or (withc and t is not None and same_coeff(t, p.coeff)), '%s: coefficient in %r', tag, text)
                        rest, fac = parse_tex(p.tex())
                        rec.check(fac == [(s if g else None, LET[g])] or fac == [(s, LET[g])], '%s: TeX %r', tag, p.tex())
                        rec.check(same_coeff(rest, p.coeff), '%s: coefficient in TeX %r', tag, p.tex())
                        rest, fac = parse_tex(p.__tex__(coeff=False))
                        rec.check(fac == [(s, LET[g])] and rest == '', '%s: TeX without coefficient %r', tag, p.__tex__(coeff=False))
                        rec.step(4)
                        rec.state((s, g, str(co), isinstance(form, str)))
        rec.trace()
        return
    sites = SITES[c['si']]
    if c['k'] == 'mono':
        for w in it.product(LET, repeat=c['len']):
            for sel in it.combinations(sites, c['len']):
                want = list(zip(sel, w))
                for order in it.permutations(range(c['len'])):
                    for co in CO + [x * y]:
                        ps = [Pauli(s, l) for s, l in want]
                        ps[0] = Pauli(sel[0], w[0], coeff=co)
                        m = PauliMonomial([ps[i] for i in order])
                        judge(m, want, rec, 'monomial %s order %s coefficient %s' % (want, order, co))
                        rec.state((tuple(want), order, str(co)))
            rec.trace()
        rec.example({'sites': sites, 'letters': c['len']})
        return
    w = c['w']
    for v in it.product(LET, repeat=2):
        for sa, sb in (((0, 1), (1, 2)), ((0, 2), (0, 2)), ((1, 2), (0, 1))):
            for co in (CO if c['all'] else CO[:4]):
                a = PauliMonomial([Pauli(sites[sa[0]], w[0], coeff=co), Pauli(sites[sa[1]], w[1])])
                b = PauliMonomial([Pauli(sites[sb[0]], v[0], coeff=0.5j), Pauli(sites[sb[1]], v[1])])
                ab = a * b
                judge(ab, factors(ab), rec, 'product %s %s' % (w, v))
                com = a.commutator(b)
                judge(com, factors(com), rec, 'commutator %s %s' % (w, v))
                ab.coeff = ab.coeff * 2
                ab.conj()
                judge(ab, factors(ab), rec, 'changed product %s %s' % (w, v))
                judge(a, [(sites[sa[0]], w[0]), (sites[sa[1]], w[1])], rec, 'operand %s' % w)
                rec.state((w, v, sa, co))
        rec.trace()
