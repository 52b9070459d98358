"""Fault injection: raise an error at a chosen line of the conversion code.

Every 'line' event of code in the pyorb package outside the Orbit class
itself is a fault point.
"""
import os
import sys
import pyorb

ROOT = os.path.dirname(os.path.realpath(pyorb.__file__)) + os.sep
SKIP = os.path.realpath(sys.modules['pyorb.orbit'].__file__)
_cache = {}


class Fault(Exception):
    pass


class HardFault(BaseException):
    """Like an interrupt from the keyboard."""


def _target(fn):
    hit = _cache.get(fn)
    if hit is None:
        real = os.path.realpath(fn)
        hit = _cache[fn] = real.startswith(ROOT) and real != SKIP
    return hit


def run(call, n, exc=Fault):
    """Run `call`, raising exc at the n-th fault point (1-based).

    Returns (number of fault points passed, error raised by call or None)."""
    count = 0

    def local(frame, event, arg):
        nonlocal count
        if event == 'line':
            count += 1
            if count == n:
                raise exc(f'{os.path.basename(frame.f_code.co_filename)}:'
                          f'{frame.f_lineno}')
        return local

    def enter(frame, event, arg):
        return local if _target(frame.f_code.co_filename) else None

    err = None
    sys.settrace(enter)
    try:
        call()
    except (Exception, HardFault) as e:
        err = e
    finally:
        sys.settrace(None)
    return count, err
