"""Primitives used by the property harnesses.  Imported natively this is the
replay semantics; under the symbolic executor the functions are modelled."""


class AssumeFail(Exception):
    pass


class CheckFailed(AssertionError):
    pass


def check(cond, msg=''):
    if not cond:
        raise CheckFailed(msg)


def assume(cond):
    if not cond:
        raise AssumeFail()


def note(*a):
    """evaluate for side effects only"""


def raises(f, *a, **k):
    """name of the exception f(*a, **k) raises, or '' """
    try:
        f(*a, **k)
    except AssumeFail:
        raise
    except Exception as e:
        return type(e).__name__
    return ''


def close(a, b, tol=1e-9):
    d = a - b
    return -tol <= d and d <= tol


ENV = {'sample': None, 'clock': None}


def set_env(sample=None, clock=None):
    """stand-ins for random.sample and time.time"""
    ENV['sample'] = sample
    ENV['clock'] = clock


def install():
    """native replay: route random.sample and time.time through set_env"""
    import random
    import time
    s0, t0 = random.sample, time.time

    def sample(population, k, **kw):
        return s0(population, k, **kw) if ENV['sample'] is None else ENV['sample'](population, k)

    def clock():
        return t0() if ENV['clock'] is None else ENV['clock']()
    random.sample, time.time = sample, clock
