import numpy as np
import astropy.units as u
import math
import itertools
import functools
import operator
import collections
import warnings
from functools import reduce, partial, lru_cache, cached_property, singledispatch
from contextlib import contextmanager, suppress, ExitStack
from dataclasses import dataclass, field, replace, astuple, asdict
from typing import NamedTuple, Optional, Protocol
from abc import ABC, abstractmethod
from astropy.units import Quantity

a1 = np.array([3., 1., 2.])
a2 = np.array([[1., 2., 3.], [4., 5., 6.]])
a3 = np.arange(24.).reshape(2, 3, 4)
m1 = np.array([True, False, True])
q1 = np.array([10., 20., 30.])*u.deg
q2 = np.array([[1., 2., 3.], [4., 5., 6.]])*u.K


def t_tdot1(): return np.tensordot(a1, a2, axes=(0, 1))
def t_tdot2(): return np.tensordot(a2, a2, axes=([0, 1], [0, 1]))
def t_tdot3(): return np.tensordot(a2, a1, axes=1)
def t_tdot4(): return np.tensordot(a1, a1, 0)
def t_tdot5(): return np.tensordot(a3, a2, axes=([1], [1]))
def t_ein1(): return np.einsum('i,i...->...', a1, a2.T)
def t_ein2(): return np.einsum('...i,i->...', a2, a1)
def t_ein3(): return np.einsum('...i,...i->...', a2, a2)
def t_ein4(): return np.einsum('ij,ij', a2, a2)
def t_ein5(): return np.einsum('ij->ji', a2)
def t_ein6(): return np.einsum('ij,k->ik', a2, a1)
def t_triu(): return np.triu(np.ones((3, 3)))
def t_tril(): return np.tril(np.arange(9.).reshape(3, 3), -1)
def t_matmul1(): return a2 @ a1
def t_matmul2(): return a2 @ a2.T
def t_matmul3(): return np.matmul(a3[0], a3[1].T)
def t_dot2(): return np.dot(a2, a1)
def t_dot3(): return a2.dot(a1)
def t_vdot(): return np.vdot(a1, a1)
def t_inner(): return np.inner(a2, a1)
def t_qmatmul(): return q2 @ a1
def t_bincount(): return np.bincount(np.array([0, 1, 1, 2]), weights=np.array([1., 2., 3., 4.]))
def t_bincount2(): return np.bincount(np.array([0, 1, 1, 2]), minlength=5)
def t_uniq_inv(): return np.unique(np.array([3., 1., 3.]), return_inverse=True)
def t_uniq_cnt(): return np.unique(np.array([3., 1., 3.]), return_counts=True)
def t_uniq_idx(): return np.unique(np.array([3., 1., 3.]), return_index=True)
def t_uniq_q(): return np.unique(q1)
def t_uniq_qinv(): return np.unique(np.array([3., 1., 3.])*u.K, return_inverse=True)
def t_fromiter(): return np.fromiter((x*2 for x in [1., 2.]), dtype=float)
def t_fromiter2(): return np.fromiter({'a': 1., 'b': 2.}.values(), float, count=2)
def t_average(): return np.average(a1, weights=np.array([1., 2., 3.]))
def t_averageq(): return np.average(q1, weights=np.array([1., 2., 3.]))
def t_average_ax(): return np.average(a2, axis=1, weights=a1)
def t_flatnz(): return np.flatnonzero(m1)
def t_nz(): return np.nonzero(a2 > 2)
def t_zipnz(): return [tuple(map(int, s)) for s in zip(*np.nonzero(a2 > 2))]
def t_argwhere(): return np.argwhere(a2 > 2)
def t_select(): return np.select([a1 > 2, a1 > 1], [10., 20.], default=0.)
def t_hypot(): return np.hypot(3., 4.)
def t_hypotq(): return np.hypot(3*u.m, 4*u.m)
def t_rad2deg(): return np.rad2deg(np.array([0., 1.]))
def t_deg2radq(): return np.deg2rad(q1)
def t_radians(): return np.radians(180.)
def t_mathrad(): return math.radians(180.), math.degrees(math.pi), math.isclose(1., 1.+1e-12), math.hypot(3, 4), math.prod([2, 3])
def t_mathfsum(): return math.fsum([0.1]*3), math.floor(2.5), math.ceil(2.1), math.trunc(-2.5), math.copysign(1, -2.), math.isfinite(1.), math.isinf(math.inf)
def t_log1p(): return np.log1p(0.5), np.expm1(0.5), np.log2(8.), np.exp2(3.), np.cbrt(8.), np.reciprocal(4.), np.sign(-3.), np.square(3.)
def t_log1pq(): return np.log1p((0.5*u.km)/(1*u.m))
def t_power(): return np.power(10., a1)
def t_floatpow(): return np.float_power(2., 3)
def t_clipq(): return np.clip(q1, 15*u.deg, 25*u.deg)
def t_clipnone(): return np.clip(a1, None, 2.)
def t_clipmeth(): return a1.clip(1.5, 2.5)
def t_ashift(): return a1 << u.m
def t_ashift2(): return 3. << u.m
def t_qshift(): return q1 << u.rad
def t_qinit(): return u.Quantity([1*u.m, 2*u.km])
def t_qinit2(): return u.Quantity([1*u.m, 2*u.km], u.cm)
def t_qinit3(): return u.Quantity(3, 'km')
def t_qinit4(): return u.Quantity(a1, u.m, copy=True)
def t_qinit5(): return u.Quantity('3300.00 K')
def t_qstr(): return str(3300.*u.K)
def t_qfmt(): return f'{3300.123*u.K:.2f}'
def t_qfmt2(): return '{:.1f}'.format(3300.123*u.K)
def t_qfmt3(): return '%.2f' % (3300.123*u.K).value
def t_qfmt4(): return '{0.value:.1f} {0.unit}'.format(3300.123*u.K)
def t_qfmt5(): return format(3300.123*u.K, '.2f')
def t_qsum(): return sum([1*u.m, 2*u.m], 0*u.m)
def t_qsum2(): return sum((1*u.m, 2*u.m))
def t_qmax(): return max(1*u.m, 2*u.cm), min([3*u.m, 1*u.km])
def t_qmaxk(): return max([3*u.m, 1*u.km], key=lambda x: x.to_value(u.m))
def t_qsorted(): return sorted([3*u.m, 1*u.km, 2*u.cm])
def t_qiter(): return [x for x in q1]
def t_qzip(): return [(a, b) for a, b in zip(q1, a1)]
def t_qindex(): return q2[0, 1], q2[:, 0], q2[q2 > 2*u.K], q2[-1]
def t_qset():
    x = q1.copy()
    x[m1] = 0*u.deg
    return x
def t_qset2():
    x = q1.copy()
    x[0] = 1*u.rad
    return x
def t_qinsert(): return np.insert(q1, 0, 5*u.deg)
def t_qappend(): return np.append(q1, 5*u.deg)
def t_qconcat(): return np.concatenate([q1, q1.to(u.rad)])
def t_qhstack(): return np.hstack([q1, q1])
def t_qvstack(): return np.vstack([q1, q1])
def t_qstack(): return np.stack([1*u.m, 2*u.km])
def t_qarr(): return np.array([1, 2])*u.m
def t_qones(): return np.ones_like(q1), np.zeros_like(q1), np.full_like(q1, 3*u.deg), np.empty_like(q1).shape
def t_zlike(): return np.zeros_like(a2, dtype=bool)
def t_qlinspace(): return np.linspace(0*u.deg, 1*u.rad, 3)
def t_qarange(): return np.arange(0, 3)*u.hr
def t_qdiff(): return np.diff(q1)
def t_qcumsum(): return np.cumsum(q1)
def t_qtrapz(): return np.trapz(q1, x=np.array([0., 1., 2.])*u.s)
def t_qinterp(): return np.interp(15*u.deg, q1, a1)
def t_qmean(): return q2.mean(axis=0), q2.sum(), q2.max(), q2.min(axis=1), q2.std()
def t_qisclose(): return u.isclose(1*u.m, 100*u.cm), u.allclose(q1, q1)
def t_npisclose(): return np.isclose(1*u.m, 100*u.cm), np.allclose(q1, q1)
def t_qround(): return np.round(3.14159*u.m, 2), (3.14159*u.m).round(1)
def t_qabs(): return abs(-3*u.m), np.abs(-q1), -q1, +q1
def t_qmod(): return (400*u.deg) % (360*u.deg), (-10*u.deg) % (360*u.deg), divmod(400*u.deg, 360*u.deg)
def t_qfloordiv(): return (400*u.deg) // (360*u.deg)
def t_qcmp(): return 1*u.m < 1*u.km, 1*u.m == 100*u.cm, 1*u.m != 1*u.s, 1*u.m == 1
def t_qbool(): return bool(np.all(q1 > 0*u.deg)), bool((q1 > 5*u.deg).all()), np.any(q1 < 0*u.deg)
def t_qisscalar(): return (1*u.m).isscalar, q1.isscalar, (1*u.m).shape, q1.size, q1.ndim, len(q1)
def t_qunit(): return (3*u.km).unit == u.km, (3*u.km).unit.is_equivalent(u.m), (3*u.km).unit.to(u.m)
def t_qphys(): return (3*u.km).unit.physical_type == 'length'
def t_qdecomp(): return (3*u.km/u.m).decompose().value, (1*u.hr).si, (1*u.hr).to('s')
def t_qcopy(): return q1.copy(), q1.flatten(), q2.ravel(), q2.T, q2.reshape(3, 2), q2.squeeze()
def t_qwhere(): return np.where(m1, q1, 0*u.deg)
def t_qwhere2(): return np.where(m1, q1, q1.to(u.rad))
def t_qinf(): return np.inf*u.K, -np.inf*u.K, np.nan*u.K
def t_qpow(): return (2*u.m)**3, (4*u.m**2)**0.5, np.sqrt(4*u.m**2), (1*u.K)**4
def t_qtan(): return np.tan(q1), np.arctan2(1*u.m, 2*u.m), np.arcsin(0.5), np.arccos((0.5*u.m)/(1*u.m))
def t_qexp(): return np.exp(-2*(1*u.hr)/(3*u.hr)), np.exp((1*u.hr)/(60*u.min))
def t_qtolist(): return q1.tolist() if False else list(q1.value)
def t_qview(): return q1.value.sum(), np.asarray(q1), np.array(q1)
def t_qargs(): return q1.argmax(), np.argmin(q1), np.argsort(-q1), np.searchsorted(q1, 15*u.deg)


def t_walrus():
    out = []
    n = 0
    while (n := n + 1) < 4:
        out.append(n)
    return out, [y for x in range(5) if (y := x*x) > 3]


def t_starred():
    first, *rest = [1, 2, 3]
    *init, last = (4, 5, 6)
    return first, rest, init, last, [*rest, *init], {**{'a': 1}, 'b': 2}


def t_dictops():
    d = {'a': 1} | {'b': 2}
    d |= {'c': 3}
    d.update(e=5)
    return d, dict(sorted(d.items(), key=lambda kv: -kv[1])), d.pop('a'), d.get('z', 9), list(reversed(d)), dict.fromkeys('ab', 0)


def t_sets(): return {1, 2} | {3}, {1, 2} & {2}, {1, 2} - {2}, {1} <= {1, 2}, frozenset([1, 2]) == {1, 2}


def t_iter():
    return list(itertools.chain([1], [2, 3])), list(itertools.accumulate([1, 2, 3])), list(itertools.repeat(1, 2)), \
        list(itertools.product('ab', [1, 2])), list(itertools.combinations([1, 2, 3], 2)), list(itertools.islice(itertools.count(5), 3)), \
        list(itertools.takewhile(lambda x: x < 3, [1, 2, 3, 1])), list(itertools.zip_longest([1], [2, 3])), list(itertools.starmap(pow, [(2, 3)])), \
        list(itertools.compress('abc', [1, 0, 1])), list(itertools.chain.from_iterable([[1], [2]])), list(itertools.pairwise([1, 2, 3]))


def t_groupby(): return [(k, list(g)) for k, g in itertools.groupby([1, 1, 2, 3, 3])]
def t_reduce(): return reduce(operator.add, [1, 2, 3]), reduce(lambda a, b: a | b, [{1}, {2}], set())
def t_reduceq(): return reduce(operator.add, [1*u.m, 2*u.m])
def t_opget(): return operator.itemgetter(1)([4, 5]), operator.attrgetter('unit')(1*u.m) == u.m, operator.mul(2, 3), operator.methodcaller('upper')('a')
def t_partial(): return partial(pow, 2)(5), partial(int, base=2)('101')
def t_counter(): return collections.Counter('aab').most_common(), collections.Counter([1, 1])[1]
def t_ddict():
    d = collections.defaultdict(float)
    d['a'] += 2.
    d['b'] += 1.
    return dict(d), d['zz'], len(d)
def t_deque():
    d = collections.deque([1, 2, 3], maxlen=3)
    d.append(4)
    d.appendleft(0)
    return list(d), d.pop(), d.popleft()
def t_odict(): return list(collections.OrderedDict(a=1, b=2).items())
def t_chainmap(): return collections.ChainMap({'a': 1}, {'a': 2, 'b': 3})['b']


@contextmanager
def _cm(x):
    out.append('in')
    try:
        yield x*2
    finally:
        out.append('out')


out = []


def t_cm():
    del out[:]
    with _cm(3) as y:
        out.append(y)
    return list(out)


def t_cm_exc():
    del out[:]
    try:
        with _cm(3):
            raise ValueError('x')
    except ValueError:
        out.append('caught')
    return list(out)


@dataclass(frozen=True)
class DC:
    a: float
    b: float = 2.
    c: list = field(default_factory=list)

    @property
    def s(self): return self.a + self.b


def t_dc(): return DC(1.).s, DC(1., 3.) == DC(1., 3.), replace(DC(1.), a=5.).a, astuple(DC(1.)), asdict(DC(1.))


class NTc(NamedTuple):
    x: float
    y: float = 3.

    def tot(self): return self.x + self.y


def t_nt(): return NTc(1.).tot(), NTc(1., 2.)[1], NTc(1.)._replace(y=9.), tuple(NTc(4.))


class Base(ABC):
    @abstractmethod
    def f(self): ...

    def g(self): return self.f()*2

    @classmethod
    def make(cls, *a, **k): return cls(*a, **k)

    @staticmethod
    def st(x): return x + 1

    def __call__(self, x): return x*3

    def __len__(self): return 7

    def __iter__(self): return iter([1, 2])

    def __getitem__(self, i): return i*2

    def __contains__(self, x): return x == 5


class Derived(Base):
    __slots__ = ('v',)

    def __init__(self, v=4): self.v = v

    def f(self): return self.v

    @cached_property
    def cp(self): return [self.v]

    def __eq__(self, o): return isinstance(o, Derived) and self.v == o.v

    def __hash__(self): return hash(self.v)

    def __lt__(self, o): return self.v < o.v

    def __add__(self, o): return Derived(self.v + o.v)

    def __enter__(self): return self

    def __exit__(self, *a): return False


def t_cls(): return Derived.make(3).g(), Derived.st(1), Derived()(2), len(Derived()), list(Derived()), Derived()[4], 5 in Derived(), Derived(1) == Derived(1)
def t_cls2(): return sorted([Derived(3), Derived(1)])[0].v, (Derived(1) + Derived(2)).v, {Derived(1): 5}[Derived(1)], isinstance(Derived(), Base), issubclass(Derived, Base)
def t_cls3():
    with Derived(8) as d:
        return d.v
def t_super():
    class E(Derived):
        def f(self): return super().f() + 10
    return E(1).g()


@lru_cache(maxsize=None)
def _fib(n): return n if n < 2 else _fib(n-1) + _fib(n-2)


def t_lru(): return _fib(10)


@singledispatch
def _sd(x): return 'obj'


@_sd.register
def _(x: int): return 'int'


@_sd.register(list)
def _(x): return 'list'


def t_sd(): return _sd(3), _sd([1]), _sd('a')


def _gen(n):
    for i in range(n):
        r = yield i
    return 5


def _gen2():
    x = yield from _gen(2)
    yield x


def t_gen(): return list(_gen(3)), list(_gen2()), next(_gen(1)), next(iter([]), 'd'), sum(x for x in _gen(4)), any(x > 2 for x in _gen(4)), all(_gen(2))
def t_enum(): return list(enumerate('ab', 1)), list(zip([1, 2], 'ab', strict=True)), list(map(lambda a, b: a*b, [1, 2], [3, 4])), list(filter(None, [0, 1])), list(reversed([1, 2]))


def t_try():
    r = []
    try:
        try:
            {}['a']
        except KeyError as e:
            raise ValueError('v') from e
        else:
            r.append('no')
        finally:
            r.append('fin')
    except (TypeError, ValueError) as e:
        r.append(str(e))
    return r


def t_forelse():
    for i in range(3):
        if i == 5:
            break
    else:
        return 'else'


def t_nonlocal():
    n = 0

    def inc():
        nonlocal n
        n += 1
        return n
    inc()
    inc()
    return n


def t_lambda_default(): return [f() for f in [lambda i=i: i for i in range(3)]], [f() for f in [lambda: i for i in range(3)]]
def t_kwonly():
    def f(a, /, b, *c, d=4, **e): return a, b, c, d, e
    return f(1, 2, 3, d=5, x=6), f(*[1, 2], **{'d': 3})
def t_str(): return 'a,b'.split(','), ' x '.strip(), 'ab'.replace('a', 'c'), ','.join(['a', 'b']), 'abc'.startswith('ab'), 'abc'[::-1], f'{3.14159:.2f}', f'{5:03d}', f'{"a":>3}', f'{1.5!r}', 'a'*3, 'abc'.index('c'), 'Ab'.lower()
def t_num(): return 7 // 2, -7 // 2, -7 % 3, 2**-1, round(2.5), round(2.675, 2), divmod(7, 2), int('5'), float('1e3'), abs(-2), pow(2, 3, 5), 0.1 + 0.2, 1e3.is_integer(), 5 .bit_length()
def t_slice(): return [1, 2, 3, 4][1:3], [1, 2, 3, 4][::2], [1, 2, 3][-1], (1, 2, 3)[:-1], list(range(10))[slice(1, 5, 2)]
def t_list():
    x = [3, 1, 2]
    x.sort()
    x.extend([9])
    x.insert(0, 7)
    x.remove(9)
    y = x.copy()
    y.reverse()
    return x, y, x.index(1), x.count(1), x.pop(), x + [1], x*2
def t_typing():
    x: Optional[int] = None
    return x is None
def t_cond(): return 1 if [] else 2, None or 5, 0 and 3, not 0, 1 < 2 < 3, 1 in (1, 2), 'a' not in 'b'
def t_del():
    d = {'a': 1, 'b': 2}
    del d['a']
    x = [1, 2, 3]
    del x[0]
    return d, x
def t_global_assert():
    assert True, 'no'
    return 1
def t_npnewaxis(): return a1[:, None]*a1[None, :], a1[np.newaxis].shape, a1[..., None].shape, np.expand_dims(a1, 0).shape, np.broadcast_to(a1, (2, 3)), np.tile(a1, 2), np.repeat(a1, 2)
def t_npaxis(): return a3.sum(axis=(0, 2)), a3.mean(axis=-1), np.moveaxis(a3, 0, -1).shape, np.swapaxes(a3, 0, 1).shape, np.transpose(a3, (2, 0, 1)).shape, a3.max(), a2.sum(axis=0, keepdims=True)
def t_npbool(): return np.logical_and(m1, ~m1), m1 & m1, m1 | ~m1, m1 ^ m1, np.any(m1), np.all(m1), m1.any(), m1.sum(), np.count_nonzero(m1), np.invert(m1), np.logical_or.reduce([m1, ~m1]), np.logical_not(m1)
def t_npassign():
    x = np.zeros(3)
    x[1:] += 2
    x[m1] -= 1
    x *= 2
    np.add(x, 1, out=x)
    return x
def t_npout():
    x = np.empty((2, 2))
    x.fill(3)
    x[:, 0] = [1, 2]
    x[np.array([0, 1]), np.array([1, 1])] = 9
    return x
def t_npdtype(): return a1.astype(int), a1.astype('bool'), np.array([1, 2], dtype=float), np.int64(3), np.float64(2.5), np.bool_(True), np.asarray([1, 2]).dtype.kind
def t_npmisc(): return np.isfinite(a1), np.isnan(np.nan), np.isinf(np.inf), np.max(a1), np.maximum(a1, 2.), np.fmax(a1, 2.), np.ptp(a1), np.median(a1), np.percentile(a1, 50), np.prod(a1), np.cumsum(a1), np.diff(a1), np.sort(a1), np.argsort(a1), np.flip(a1), np.roll(a1, 1), np.outer(a1, a1)
def t_npvec(): return np.vectorize(lambda x: x*2)(a1), np.frompyfunc(lambda x: x + 1, 1, 1)(3)
def t_npput():
    x = np.zeros(3)
    np.put(x, [0, 2], [1., 2.])
    np.copyto(x, 5., where=m1)
    np.putmask(x, m1, 7.)
    return x
def t_npmgrid(): return np.mgrid[0:2, 0:3].shape, np.meshgrid([1., 2.], [3., 4., 5.])[0], np.meshgrid([1., 2.], [3., 4., 5.], indexing='ij')[1], np.ogrid[0:2, 0:3][0]
def t_npix(): return a2[np.ix_([0, 1], [0, 2])], np.take(a1, [0, 2]), np.take_along_axis(a1, np.argsort(a1), 0), np.compress(m1, a1), np.extract(m1, a1), np.choose([0, 1], [[1, 2], [3, 4]])
def t_npndindex(): return list(np.ndindex(2, 2)), [(i, float(x)) for i, x in np.ndenumerate(a1)]
def t_npma(): return np.ma.masked_where(a1 > 2, a1).filled(0)
def t_npmean_where(): return np.sum(a1, where=m1), np.mean(a1, where=m1), np.max(a1, initial=9.)
def t_npc(): return np.c_[a1, a1].shape, np.r_[a1, 5.], np.column_stack([a1, a1]).shape, np.dstack([a1, a1]).shape
def t_npunravel(): return np.unravel_index(4, (2, 3)), np.ravel_multi_index((1, 1), (2, 3))
def t_nplin(): return np.linalg.norm(a1), np.linalg.norm(a2, axis=1)
def t_trapz(): return np.trapz(a1), np.trapz(a1, dx=2.), np.trapz(a2, axis=0)
def t_errstate():
    with np.errstate(all='ignore'):
        return np.array([1.])/np.array([0.])
def t_warn():
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        warnings.warn('x')
    return 1
def t_getattr(): return getattr(3*u.m, 'unit') == u.m, getattr(3, 'zz', 5), hasattr(3, 'real'), callable(len), type(3) is int, type(3.).__name__, isinstance(True, int), isinstance(3*u.m, Quantity)
def t_angsep():
    from astropy.coordinates import angular_separation
    return angular_separation(10*u.deg, 20*u.deg, q1, q1)
def t_angle():
    from astropy.coordinates import Angle
    return Angle(370*u.deg).wrap_at(360*u.deg).to(u.deg).value
def t_exitstack():
    with ExitStack() as st:
        st.callback(out.append, 3)
    return out[-1]
