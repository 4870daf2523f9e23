"""Replacing, inside one module of the code under test, whatever it calls to get worker processes.

Found by value, not by name: a global that is the multiprocessing module, a Pool constructor, a process
executor or tqdm's process_map is replaced, however it was imported."""
import contextlib
import multiprocessing
import concurrent.futures


class FakeMP:
    """multiprocessing as seen by the tool: every pool is made by `make`, everything else is real"""

    def __init__(self, make):
        self._make = make

    def set_start_method(self, *a, **k):
        pass

    def get_context(self, *a, **k):
        return self

    def Pool(self, *a, **k):
        return self._make()

    def __getattr__(self, name):
        return getattr(multiprocessing, name)


class FakeExecutor:
    def __init__(self, make):
        self._pool = make()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def shutdown(self, *a, **k):
        pass

    def map(self, func, *items, timeout=None, chunksize=1):
        return iter(self._pool.starmap(func, list(zip(*items)), chunksize))

    def submit(self, func, *a, **k):
        f = concurrent.futures.Future()
        try:
            f.set_result(func(*a, **k))
        except Exception as e:
            f.set_exception(e)
        return f


@contextlib.contextmanager
def pools(module, make):
    """within this context, pools the module makes come from make(); yields the number of replaced globals"""
    old = {}
    fake = FakeMP(make)

    def process_map(func, *items, **k):
        if len(items) == 1:
            return list(make().map(func, items[0], k.get("chunksize", 1)))
        return list(make().starmap(func, list(zip(*items)), k.get("chunksize", 1)))
    try:
        from tqdm.contrib import concurrent as tc
        real_pm = tc.process_map
    except Exception:
        tc = real_pm = None
    for k, v in list(vars(module).items()):
        new = None
        if v is multiprocessing:
            new = fake
        elif getattr(v, "__name__", "") == "Pool" and "multiprocessing" in str(getattr(v, "__module__", "")):
            new = fake.Pool
        elif real_pm is not None and v is real_pm:
            new = process_map
        elif tc is not None and v is tc:
            new = type("tc", (), {"process_map": staticmethod(process_map)})
        elif v is concurrent.futures.ProcessPoolExecutor:
            new = lambda *a, **kk: FakeExecutor(make)
        if new is not None:
            old[k] = v
            setattr(module, k, new)
    try:
        yield len(old)
    finally:
        for k, v in old.items():
            setattr(module, k, v)
