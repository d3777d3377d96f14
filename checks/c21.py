"""C21: Bloch angles <-> density matrices."""
import itertools as it
import numpy as np
from oranssi.plot_utils import spherical_to_state, state_to_spherical
from mc import oracle as o

PROPERTY = 'C21'
RULE = ('every point of an angle grid that contains all poles, meridians, octants and their floating-point and 1e-k neighbours; every '
        'combination of +-1..4 ulp perturbations of the density matrix; oracle: Bloch vector from the Pauli expectation values')

PI = float(np.pi)
TWO = 2 * PI


def neighbours(x):
    out = [x]
    up, dn = x, x
    for _ in range(3):
        up, dn = float(np.nextafter(up, 100)), float(np.nextafter(dn, -100))
        out += [up, dn]
    for k in (15, 12, 9, 8, 7, 6, 5, 4, 3, 2):
        for m in (1, 1.2, 2, 5):
            out += [x + m * 10.0 ** -k, x - m * 10.0 ** -k]
    return out


def thetas(m):
    t = []
    for k in range(m + 1):
        t += neighbours(PI * k / m) if k in (0, m // 2, m) else [PI * k / m]
    return sorted(set(x for x in t if 0 <= x <= PI))


def phis(m):
    t = []
    for k in range(m + 1):
        t += neighbours(TWO * k / m) if k % (m // 4) == 0 else [TWO * k / m]
    return sorted(set(x for x in t if 0 <= x < TWO))


def vec(phi, theta):
    return np.array([np.sin(theta) * np.cos(phi), np.sin(theta) * np.sin(phi), np.cos(theta)])


def bloch(rho):
    rho = np.asarray(rho)
    return np.array([2 * rho[0, 1].real, -2 * rho[0, 1].imag, (rho[0, 0] - rho[1, 1]).real])


def back(rho, want, rec, tag, tol=2e-7):
    r = np.array(rho)
    phi, theta = state_to_spherical(rho)
    rec.check(np.array_equal(r, np.asarray(rho)), '%s: the state was changed', tag)
    phi, theta = float(phi), float(theta)
    rec.check(0 <= theta <= PI and 0 <= phi < TWO, '%s: angles (%r, %r) out of range', tag, phi, theta)
    d = np.abs(vec(phi, theta) - want).max()
    if d > tol:
        # an azimuth within 1e-3 of a full turn may be reported as 0
        az = np.arctan2(want[1], want[0]) % TWO
        rec.check(phi == 0. and TWO - az <= 1.1e-3 and abs(np.cos(theta) - want[2]) <= tol,
                  '%s: returned (%r, %r), off by %g', tag, phi, theta, d)
    rec.step()


def cases(tier):
    q = tier == 'quick'
    m = 16 if q else 64
    T = thetas(m)
    out = [{'k': 'grid', 'theta': t, 'm': m} for t in T]
    out += [{'k': 'ulp', 'i': i} for i in range(8)]
    out.append({'k': 'reject'})
    return out


def ulps(x, k):
    for _ in range(abs(k)):
        x = float(np.nextafter(x, 100 if k > 0 else -100))
    return x


def run_case(c, rec):
    if c['k'] == 'grid':
        th = c['theta']
        for ph in phis(c['m']):
            rho = np.asarray(spherical_to_state(ph, th))
            tag = 'phi=%r theta=%r' % (ph, th)
            rec.path = [tag]
            rec.check(rho.shape == (2, 2) and abs(np.trace(rho) - 1) < 1e-12 and o.close(rho, rho.conj().T, 1e-12)
                      and o.close(rho @ rho, rho, 1e-12), '%s: not a pure state', tag)
            rec.check(o.close(bloch(rho), vec(ph, th), 1e-12), '%s: wrong Bloch vector %s', tag, bloch(rho))
            back(rho, vec(ph, th), rec, tag)
            rec.step()
            rec.trace()
            rec.state((ph, th))
        rec.example({'theta': th, 'phi': '%d values' % len(phis(c['m']))})
    elif c['k'] == 'ulp':
        pts = [(0., 0.), (0., PI), (1.0, PI / 2), (PI / 2, PI / 2), (PI, 0.7), (3 * PI / 2, 2.2), (6.28, 1e-9), (0.3, PI - 1e-9)]
        ph, th = pts[c['i']]
        rho0 = np.asarray(spherical_to_state(ph, th)).astype(complex)
        for a, b, s in it.product(range(-4, 5), range(-4, 5), (0, 1e-16, -1e-16, 3e-16)):
            rho = rho0.copy()
            rho[0, 0] = ulps(rho[0, 0].real, a) + 1j * s
            rho[1, 1] = ulps(rho[1, 1].real, b)
            rho[0, 1] = rho[0, 1] + s
            rho[1, 0] = rho[1, 0] + s
            tag = 'phi=%r theta=%r perturbed by %d,%d ulp, %g' % (ph, th, a, b, s)
            rec.path = [tag]
            phi, theta = state_to_spherical(rho)
            rec.check(np.isfinite(phi) and np.isfinite(theta), '%s: %r, %r', tag, phi, theta)
            back(rho, vec(ph, th), rec, tag, 1e-6)
            rec.trace()
            rec.state((c['i'], a, b, s))
        for sgn in (1, -1):
            for k in range(5):
                rho = np.diag([0.5 + sgn * 0.5, 0.5 - sgn * 0.5]).astype(complex)
                rho[0, 0] += sgn * k * 2.3e-16
                back(rho, np.array([0, 0, float(sgn)]), rec, 'pole %d' % sgn, 1e-6)
    else:
        rho = np.asarray(spherical_to_state(0.4, 1.1))
        for f in (0., 0.5, 0.999, 1.001, 1.1, 2., -1., 1j, 1e-9, 1 + 0.5j, 1 - 1e-3j, -1j):
            try:
                r = state_to_spherical(f * rho)
            except Exception:
                rec.step()
                continue
            rec.check(False, 'a matrix of trace %s was accepted: %s', f, r)
        for M in (np.zeros((2, 2)), o.X, o.Z, np.eye(2)):
            try:
                r = state_to_spherical(M)
            except Exception:
                rec.step()
                continue
            rec.check(False, 'a matrix of trace %s was accepted', np.trace(M))
        for f in (1., 1 + 1e-12, 1 - 1e-12):
            back(f * rho, vec(0.4, 1.1), rec, 'trace %r' % f, 1e-6)
        rec.state('reject')
        rec.trace()
