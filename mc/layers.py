"""Construction of the Lie layers under test (public constructors only)."""
import pennylane as qml
from oranssi import opt_tools as ot


def device(n):
    return qml.device('default.qubit', wires=n)


LAYERS = {
    'local1': lambda d, obs, **k: ot.LocalLieAlgebraLayer(d, obs, 1, **k),
    'local2': lambda d, obs, **k: ot.LocalLieAlgebraLayer(d, obs, 2, **k),
    'local1t': lambda d, obs, **k: ot.LocalLieAlgebraLayer(d, obs, 1, trotterize=True, **k),
    'local2t': lambda d, obs, **k: ot.LocalLieAlgebraLayer(d, obs, 2, trotterize=True, **k),
    'custom': lambda d, obs, **k: ot.CustomDirectionLieAlgebraLayer(d, obs, k.pop('directions', None), **k),
    'customt': lambda d, obs, **k: ot.CustomDirectionLieAlgebraLayer(d, obs, k.pop('directions', None),
                                                                     trotterize=True, **k),
    'stoch': lambda d, obs, **k: ot.StochasticLieAlgebraLayer(d, obs, **k),
    'squared': lambda d, obs, **k: ot.SquaredLieAlgebraLayer(d, obs, **k),
    'su8': lambda d, obs, **k: ot.SU8_AlgebraLayer(d, obs, **k),
    'zass': lambda d, obs, **k: ot.ZassenhausLayer(d, obs, **k),
    'bch': lambda d, obs, **k: ot.ZassenhausLayerV2(d, obs, **k),
    'adapt': lambda d, obs, **k: ot.AdaptVQELayer(d, obs, **k),
}


def make(name, dev, obs, **kw):
    return LAYERS[name](dev, obs, **kw)


def supported(name, n):
    if name.startswith('local2'):
        return n % 2 == 0
    if name in ('su8', 'zass'):
        return n >= 3
    if name in ('adapt', 'bch'):
        return n >= 2
    return True
