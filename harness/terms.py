"""Evaluation of the exact terms a specification emits (Terms.tla)."""
import math
import numpy
from fractions import Fraction


def ev(t, env=None):
    if isinstance(t, int):
        return Fraction(t)
    op = t['op']
    if op == 'int':
        return float(t['n']) if env and env.get('float') else Fraction(t['n'])
    if op == 'sum':
        return num(sum((ev(x, env) for x in t['s']), Fraction(0)))
    if op == 'sumpow':
        return Fraction(sum(int(x) ** t['k'] for x in t['s']))
    if op == 'pow':
        return ev(t['a'], env) ** t['k']
    if op == 'sqrt':
        return math.sqrt(ev(t['a'], env))
    if op == 'exp2':
        return 2.0 ** float(ev(t['a'], env))
    if op in ('cos', 'sin'):
        x = ev(t['a'], env)
        return getattr(numpy, op)(x * (math.pi / 180) if hasattr(x, 'shape') else math.radians(x))
    if op == 'acos':
        return math.acos(ev(t['a'], env))
    if op == 'pi':
        return math.pi
    if op == 'abs':
        return abs(ev(t['a'], env))
    if op == 'var':
        return env[t['n']]
    if op == 'call':
        # an answer of the implementation
        return env['call'](t['f'], t['s'] if 's' in t else [ev(x, env) for x in t['a']])
    a, b = ev(t['a'], env), ev(t['b'], env)
    if op == 'atan2':
        return math.degrees(math.atan2(a, b))
    if op == 'min':
        return min(a, b)
    if op == 'max':
        return max(a, b)
    if op == 'add':
        return a + b
    if op == 'sub':
        return a - b
    if op == 'mul':
        return a * b
    if op == 'div':
        return a / b
    raise ValueError('unknown term ' + op)


def num(x):
    return x


def value(t, env=None):
    return float(ev(t, env))
