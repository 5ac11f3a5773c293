"""A clock that is owned by the harness"""
import contextlib
import time


class Clock:
    def __init__(self, start=4096.0):
        self.now = start
        self.reads = 0

    def read(self):
        self.reads += 1
        return self.now

    def read_ns(self):
        return int(self.read() * 1e9)


@contextlib.contextmanager
def owned(start=4096.0):
    c = Clock(start)
    names = {
        'time': c.read,
        'monotonic': c.read,
        'perf_counter': c.read,
        'process_time': c.read,
        'monotonic_ns': c.read_ns,
        'perf_counter_ns': c.read_ns,
        'process_time_ns': c.read_ns,
    }
    import fides.minimize as fm

    old = {n: getattr(time, n) for n in names}
    # names that were imported into the module
    imported = {
        a: n
        for a, v in vars(fm).items()
        for n, o in old.items()
        if v is o
    }
    try:
        for n, f in names.items():
            setattr(time, n, f)
        for a, n in imported.items():
            setattr(fm, a, names[n])
        yield c
    finally:
        for n, f in old.items():
            setattr(time, n, f)
        for a, n in imported.items():
            setattr(fm, a, old[n])
