"""
Run-time evaluation of the properties on the plain (not instrumented) code of /repo.

It looks for concrete inputs that break a property: to confirm the obligations that the verifier
refutes, and as a (bounded) stand-in for the functions that are out of its reach.
Only the public behaviour of soil is used.
"""
import os
import sys
import random as _random
import traceback

SCENARIOS = []


class Violation(Exception):
    def __init__(self, msg, props):
        super().__init__(msg)
        self.props = props


class Skip(Exception):
    """This instance is not of interest"""


class Scenario:
    def __init__(self, fn, props, timeout, exhaustive):
        self.fn, self.props, self.timeout = fn, props, timeout
        self.name = f"{fn.__module__.split('.')[-1]}.{fn.__name__}"
        self.exhaustive = exhaustive


def scenario(props, timeout=30, cases=None):
    """
    A scenario for some properties. It is given a source of random numbers, with which it chooses the input.
    """
    props = props.split()

    def deco(fn):
        SCENARIOS.append(Scenario(fn, props, timeout, cases))
        return fn
    return deco


NUMBERS, TEXTS = [], []     # constants that are new in the code (novel.py)


class Rng(_random.Random):
    """Source of choices"""

    def size(self, lo, hi, cap=250, big=0.03):
        """How many: between lo and hi, sometimes quite more"""
        around = [int(n) + d for n in NUMBERS for d in (-1, 0, 1, 2) if lo <= int(n) + d <= cap]
        if around and self.random() < 0.3:
            return self.choice(around)
        if self.random() < big:
            return self.randint(hi, min(cap, hi * 8))
        return self.randint(lo, hi)

    def number(self, options, lo=None, hi=1e6, exact=True):
        """A number: one of the options, or a value of interest between lo and hi"""
        around = [v for n in NUMBERS for v in (n, n + 1, n - 1, n + 0.5, n * 2) if (lo is None or v >= lo) and v <= hi]
        if exact:
            around = [v for v in around if v * 64 == int(v * 64)]
        if around and self.random() < 0.2:
            return self.choice(around)
        return self.choice(options)

    def text(self, options):
        if TEXTS and self.random() < 0.2:
            return self.choice(TEXTS)
        return self.choice(options)


NOTES = []
CURRENT = [()]


def note(*args):
    """Describe the input, for the reports"""
    if len(NOTES) < 400:
        NOTES.append(" ".join(str(a) for a in args))


def check(cond, msg, props=None):
    if not cond:
        raise Violation(msg, props.split() if props else list(CURRENT[0]))


def same(a, b, msg, props=None):
    check(a == b, f"{msg}: got {a!r}, expected {b!r}", props)


def raises(f, msg, props=None, exc=Exception):
    try:
        f()
    except exc:
        return
    except BaseException as ex:
        check(False, f"{msg}: wrong kind of error {ex!r}", props)
    check(False, f"{msg}: no error", props)
