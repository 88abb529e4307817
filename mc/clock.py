"""A clock for the code under test that only advances when a check says so."""
import time

offset = 0.0
_real = {}


def install():
    """replaces the clocks before the loader is imported"""
    for name in ("time", "monotonic", "perf_counter"):
        start = getattr(time, name)()
        setattr(time, name, lambda start=start: start + offset)
    for name in ("time_ns", "monotonic_ns", "perf_counter_ns"):
        start = getattr(time, name)()
        setattr(time, name, lambda start=start: start + int(offset * 1e9))


def advance(seconds):
    global offset
    offset += seconds
