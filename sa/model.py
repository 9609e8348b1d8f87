"""Interpretations of value terms.

A difference between two normal forms is only reported when an interpretation
of the unknowns (inputs, array contents, opaque functions) exists in which the
two abstract values are different.  The terms are evaluated, never the program:
this is an identity test on the two normal forms, so a pair of equal values
written in forms the normaliser does not identify is not reported.
"""

import hashlib
import math
import random
from fractions import Fraction

from . import terms as tm
from .terms import T, FACTS, INDICATORS


class Abort(Exception):
    """The interpretation does not give the term a value."""


_POOL = [Fraction(x) for x in (-3, -2, -1, 0, 1, 2, 3, 4)] + [Fraction(1, 2), Fraction(-1, 2), Fraction(3, 2),
                                                             Fraction(7, 3), Fraction(-5, 4), Fraction(11, 5)]
_WIDE = [Fraction(x, 7) for x in (-23, -11, 5, 9, 17, 31, 64)] + _POOL
LIMIT = 40


class Interpretation(object):
    naturals = (0, 1, 1, 2, 3)

    def __init__(self, seed):
        self.seed = seed
        self.rng = random.Random(seed)
        self.vals = {}
        self.mode = seed % 3

    def _h(self, *key):
        return random.Random('%s|%r' % (self.seed, key))

    def choose(self, f, r):
        """A value satisfying the facts."""
        if f.get('kind') in tm.NONNUM_KINDS or f.get('kind') in ('str', 'path'):
            return 'v%d' % r.randrange(1000)
        ch = f.get('choices')
        if ch:
            return r.choice(list(ch))
        if f.get('kind') == 'bool':
            return r.random() < 0.5
        if f.get('int'):
            if f.get('pos'):
                return Fraction(r.choice((1, 1, 2, 2, 3, 4)))
            if f.get('nonneg'):
                return Fraction(r.choice((0, 1, 1, 2, 3)))
            return Fraction(r.choice((-3, -2, -1, 0, 1, 2, 3, 4)))
        pool = _WIDE if self.mode else _POOL
        for _ in range(60):
            v = r.choice(pool)
            if f.get('pos') and v <= 0:
                continue
            if f.get('nonneg') and v < 0:
                continue
            return v
        return Fraction(1)

    def symval(self, t, env):
        if t in env:
            return env[t]
        if t in self.vals:
            return self.vals[t]
        n = t.args[0]
        if n == 'INF':
            return float('inf')
        if n == 'NAN':
            return float('nan')
        if n == 'PI':
            return math.pi
        f = FACTS.get(t)
        r = self._h('sym', n)
        if f.get('nullable') and r.random() < 0.35:
            v = None
        elif 'hi' in f and f.get('int'):
            hi = self.num(f['hi'], env)
            if hi < 0:
                raise Abort()
            v = Fraction(r.randrange(int(hi) + 1))
        else:
            v = self.choose(f, r)
        self.vals[t] = v
        return v

    # ------------------------------------------------------------ values

    def ev(self, v, env):
        """Value of any abstract value."""
        if isinstance(v, tuple):
            return tuple(self.ev(x, env) for x in v)
        if not isinstance(v, T):
            if isinstance(v, bool):
                return v
            if isinstance(v, (int, float)):
                return self.norm(v)
            return v
        if v.op == 'num':
            sa = tm.single_atom(v)
            if sa is not None:
                return self.atomv(sa, env)
            return self.num(v, env)
        return self.atomv(v, env)

    def norm(self, x):
        if isinstance(x, bool):
            return Fraction(int(x))
        if isinstance(x, int):
            return Fraction(x)
        if isinstance(x, float):
            if x != x or x in (float('inf'), float('-inf')):
                return x
            f = Fraction(x).limit_denominator(10 ** 6)
            if abs(float(f) - x) < 1e-12 * max(1.0, abs(x)):
                return f
        return x

    def indicator(self, a, env):
        k = a.op
        if k in ('neg', 'zero'):
            v = self.num(a.args[0], env)
            if isinstance(v, float):
                if v != v:
                    raise Abort()
                if abs(v) < 1e-9:
                    v = 0
            return v < 0 if k == 'neg' else v == 0
        if k == 'eq':
            return self.same(self.ev(a.args[0], env), self.ev(a.args[1], env))
        if k == 'isnone':
            return self.ev(a.args[0], env) is None
        if k == 'truthy':
            x = self.ev(a.args[0], env)
            if isinstance(x, (Fraction, int, float)):
                return x != 0
            if isinstance(x, str):
                return x != ''
            if x is None:
                return False
            return self._h('truthy', x).random() < 0.5
        if k == 'pred':
            n = a.args[0]
            if n == 'exists' and len(a.args) == 4 and isinstance(a.args[1], T):
                b, size, c = a.args[1:]
                for i in self.rng_(self.num(size, env)):
                    e = dict(env)
                    e[b] = Fraction(i)
                    if self.bool(c, e):
                        return True
                return False
            if n == 'exists' and len(a.args) == 4 and isinstance(a.args[1], tuple):
                for e in self.envs(a.args[1], a.args[2], env):
                    if self.bool(a.args[3], e):
                        return True
                return False
            if n == 'isnan':
                x = self.ev(a.args[1], env)
                return isinstance(x, float) and x != x
            if n == 'isinf':
                x = self.ev(a.args[1], env)
                return isinstance(x, float) and x in (float('inf'), float('-inf'))
            if n == 'close':
                xs = [self.ev(x, env) for x in a.args[1:3]]
                return self.same(xs[0], xs[1] if len(xs) > 1 else 0)
            return self._h('pred', n, tuple(self.key(self.ev(x, env)) for x in a.args[1:])).random() < 0.5
        raise Abort()

    def bool(self, t, env):
        v = self.num(t, env)
        return v != 0

    def rng_(self, n):
        if n == float('inf'):
            return range(LIMIT)
        if isinstance(n, float) and n != n:
            raise Abort()
        n = int(n)
        if n > 400:
            raise Abort()
        return range(max(0, n))

    def num(self, t, env):
        if not (isinstance(t, T) and t.op == 'num'):
            v = self.ev(t, env)
            if not isinstance(v, (Fraction, int, float)):
                raise Abort()
            return v
        # indicators first, so that the undefined part of a case disappears
        acc = {}
        ind = {}
        for m, c in t.args[0]:
            rest = []
            zero = False
            for a, e in m:
                if a.op in INDICATORS:
                    if a not in ind:
                        ind[a] = self.indicator(a, env)
                    if not ind[a]:
                        zero = True
                        break
                else:
                    rest.append((a, e))
            if zero:
                continue
            key = tuple(rest)
            acc[key] = acc.get(key, 0) + c
        total = Fraction(0)
        for m, c in acc.items():
            if c == 0:
                continue
            x = c
            infs = False
            for a, e in m:
                v = self.atomv(a, env)
                if isinstance(v, bool):
                    v = Fraction(int(v))
                if not isinstance(v, (Fraction, int, float)):
                    raise Abort()
                if e < 0 and v == 0:
                    raise Abort()
                if isinstance(v, float) and v in (float('inf'), float('-inf')):
                    infs = True
                x = x * v ** e
            total = total + x
            if infs and isinstance(total, float) and total != total:
                raise Abort()
        if isinstance(total, float) and total != total:
            raise Abort()
        return total

    def atomv(self, a, env):
        op = a.op
        if op == 'num':
            return self.num(a, env)
        if op == 'sym':
            return self.symval(a, env)
        if op in INDICATORS:
            return Fraction(int(self.indicator(a, env)))
        if op == 'poly':
            return self.num(a.args[0], env)
        if op == 'none':
            return None
        if op == 'py':
            return a.args[0]
        if op == 'ite':
            return self.ev(a.args[1] if self.bool(a.args[0], env) else a.args[2], env)
        if op == 'str':
            return self.text(a, env)
        if op == 'sum':
            tot = Fraction(0)
            for e in self.envs(a.args[0], a.args[1], env):
                tot = tot + self.num(a.args[2], e)
            return tot
        if op == 'elem':
            idx = tuple(self.ev(x, env) for x in a.args[1:])
            s = a.args[0]
            f = FACTS.get(s) if isinstance(s, T) else {}
            key = self.key(self.ev(s, env)) if isinstance(s, T) and s.op != 'sym' else (s.args[0] if isinstance(s, T) else s)
            r = self._h('elem', key, tuple(self.key(i) for i in idx))
            g = dict(f)
            if g.get('kind') in ('array', 'list'):
                g['kind'] = g.get('elemkind', 'num')
            return self.choose(g, r)
        if op == 'app':
            return self.app(a, env)
        if op in ('ref', 'func', 'class', 'mod', 'ext'):
            return (op, a.id)
        return (op,) + tuple(self.ev(x, env) for x in a.args)

    def envs(self, vs, sizes, env):
        if not vs:
            yield env
            return
        n = self.num(sizes[0], env)
        for i in self.rng_(n):
            e = dict(env)
            e[vs[0]] = Fraction(i)
            for x in self.envs(vs[1:], sizes[1:], e):
                yield x

    MATH = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'arctan': math.atan, 'arcsin': math.asin,
            'arccos': math.acos, 'exp': math.exp, 'log': math.log, 'sqrt': math.sqrt, 'arctan2': math.atan2,
            'log10': math.log10, 'hypot': math.hypot, 'log2': math.log2}

    def app(self, a, env):
        f = a.args[0]
        xs = a.args[1:]
        if f.startswith('?'):
            raise Abort()
        if f in ('floor', 'ceil', 'trunc', 'round', 'abs', 'sign'):
            v = self.num(xs[0], env)
            if isinstance(v, float) and (v != v or v in (float('inf'), float('-inf'))):
                if f == 'abs':
                    return abs(v)
                raise Abort()
            if f == 'sign':
                return Fraction((v > 0) - (v < 0))
            if f == 'abs':
                return abs(v)
            if isinstance(v, float) and abs(v - round(v)) < 1e-9:
                v = Fraction(round(v))
            return Fraction({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'round': round}[f](v))
        if f in ('min', 'max'):
            return (min if f == 'min' else max)(self.num(x, env) for x in xs)
        if f in self.MATH:
            try:
                return self.norm(self.MATH[f](*[float(self.num(x, env)) for x in xs]))
            except (ValueError, OverflowError):
                raise Abort()
        if f == 'pow':
            try:
                b, e = self.num(xs[0], env), self.num(xs[1], env)
                if isinstance(e, Fraction) and e.denominator == 1:
                    return b ** int(e)
                r = float(b) ** float(e)
                if isinstance(r, complex):
                    raise Abort()
                return self.norm(r)
            except (ValueError, OverflowError, ZeroDivisionError):
                raise Abort()
        if f == 'nan_to_num':
            try:
                return self.num(xs[0], env)
            except Abort:
                return Fraction(0)
        if f == 'first':
            b, size, c = xs
            n = self.num(size, env)
            for i in self.rng_(n):
                e = dict(env)
                e[b] = Fraction(i)
                if self.bool(c, e):
                    return Fraction(i)
            if n == float('inf'):
                raise Abort()
            return n
        if f == 'lastindex':
            b, size, c = xs
            for i in reversed(self.rng_(self.num(size, env))):
                e = dict(env)
                e[b] = Fraction(i)
                if self.bool(c, e):
                    return Fraction(i)
            raise Abort()
        if f == 'last':
            b, size, c, val, base = xs
            for i in reversed(self.rng_(self.num(size, env))):
                e = dict(env)
                e[b] = Fraction(i)
                if self.bool(c, e):
                    return self.ev(val, e)
            return self.ev(base, env)
        if f == 'prod' and len(xs) == 3:
            b, size, c = xs
            r = Fraction(1)
            for i in self.rng_(self.num(size, env)):
                e = dict(env)
                e[b] = Fraction(i)
                r = r * self.num(c, e)
            return r
        if f in ('rmin', 'rmax', 'argmin') and len(xs) == 4:
            best = None
            at = None
            for e in self.envs(xs[0], xs[1], env):
                if not self.bool(xs[3], e):
                    continue
                v = self.num(xs[2], e)
                if best is None or (v > best if f == 'rmax' else v < best):
                    best = v
                    at = tuple(e[b] for b in xs[0])
            if best is None:
                raise Abort()
            if f == 'argmin':
                sizes = [self.num(s, env) for s in xs[1]]
                r = Fraction(0)
                for i, s in zip(at, sizes):
                    r = r * s + i
                return r
            return best
        # an opaque function of its arguments
        args = tuple(self.key(self.ev(x, env)) for x in xs)
        r = self._h('app', f, args)
        if f in tm.NATS:
            return Fraction(r.choice(self.naturals))
        from .models import STR_APPS
        if f in STR_APPS:
            return '<%s%d>' % (f, r.randrange(10 ** 6))
        if f in ('exp', 'std', 'median'):
            return abs(r.choice(_WIDE))
        return r.choice(_WIDE)

    def text(self, a, env):
        out = []
        for p in a.args[0]:
            if isinstance(p, str):
                out.append(p)
            elif p.op == 'fmt':
                spec = p.args[0]
                v = self.ev(p.args[1], env)
                out.append(self.render(spec, v))
            else:
                v = self.ev(p, env)
                out.append(self.render('%s', v))
        return ''.join(out)

    def render(self, spec, v):
        if isinstance(v, str):
            try:
                return spec % v if spec.startswith('%') and spec != '%r' else (v if spec in ('', '%s') else '%s{%s}' % (spec, v))
            except (TypeError, ValueError):
                raise Abort()
        if isinstance(v, (Fraction, float, int)) and spec.startswith('%') and spec[-1] in 'diouxXeEfFgG':
            try:
                return spec % (int(v) if spec[-1] in 'dioxX' and not isinstance(v, float) else float(v))
            except (TypeError, ValueError, OverflowError):
                raise Abort()
        return '%s{%r}' % (spec, self.key(v))

    def key(self, v):
        if isinstance(v, tuple):
            return tuple(self.key(x) for x in v)
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, Fraction):
            return (v.numerator, v.denominator) if v.denominator != 1 else v.numerator
        if isinstance(v, float):
            if v == v and v not in (float('inf'), float('-inf')) and v == int(v):
                return int(v)
            return round(v, 9)
        if isinstance(v, T):
            return ('t', v.id)
        return v

    def same(self, a, b):
        if isinstance(a, bool):
            a = Fraction(int(a))
        if isinstance(b, bool):
            b = Fraction(int(b))
        if isinstance(a, (Fraction, float, int)) and isinstance(b, (Fraction, float, int)):
            if isinstance(a, float) or isinstance(b, float):
                a, b = float(a), float(b)
                if a == b or (a != a and b != b):
                    return True
                if math.isinf(a) or math.isinf(b):
                    return False
                return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        return type(a) == type(b) and a == b


def distinguish(a, b, guard=tm.ONE, asg=None, tries=240, env=None):
    """Whether an interpretation separates the values.

    Returns True (separated), False (agree in every interpretation tried that
    satisfies the guard and the case), or None (no interpretation found for
    the case).
    """
    hit = 0
    for seed in range(tries):
        it = Interpretation(seed)
        try:
            if not it.bool(guard, {}):
                continue
            if asg and any(it.indicator(l, {}) != bool(v) for l, v in asg.items()):
                continue
            x = it.ev(a, {})
            y = it.ev(b, {})
        except (Abort, OverflowError, RecursionError):
            continue
        hit += 1
        if not it.same(x, y):
            return True
        if hit >= 40:
            return False
    return False if hit >= 3 else None
