"""
Worlds: freshly imported copies of the package under test.

Every path (and every replay) starts in a new world, so package-global state (caches, class
attributes, module variables) never leaks from one explored path into the next.  Reference
results are computed by instances of yet another world, so they cannot share such state with
the instance under test.  The exception classes (module ``errors``) are common to all worlds.
"""
import contextlib
import importlib
import importlib.machinery
import importlib.util
import pkgutil
import sys

PACKAGE = "openscm_twolayermodel"
SHARED = (PACKAGE + ".errors", PACKAGE + "._version")

_CODE = {}
_NAMES = None
on_load = None  # called with the modules of a new world (the symbolic stubs hook in here)


class _Loader(importlib.machinery.SourceFileLoader):
    """compiles each file once per process, always from its source"""

    def get_code(self, fullname):
        code = _CODE.get(self.path)
        if code is None:
            code = _CODE[self.path] = self.source_to_code(self.get_data(self.path), self.path)
        return code


class _Finder:
    _known = {}

    @classmethod
    def find_spec(cls, name, path=None, target=None):
        if name != PACKAGE and not name.startswith(PACKAGE + "."):
            return None
        known = cls._known.get(name)
        if known is None:
            spec = importlib.machinery.PathFinder.find_spec(name, path, target)
            if spec is None or not isinstance(
                spec.loader, importlib.machinery.SourceFileLoader
            ):
                return spec
            known = cls._known[name] = (spec.origin, spec.submodule_search_locations)
        origin, sub = known
        return importlib.util.spec_from_file_location(
            name, origin, loader=_Loader(name, origin),
            submodule_search_locations=None if sub is None else list(sub),
        )


if not any(f is _Finder for f in sys.meta_path):
    sys.meta_path.insert(0, _Finder)


def _ours():
    return [k for k in sys.modules if k == PACKAGE or k.startswith(PACKAGE + ".")]


def _names(pkg):
    global _NAMES
    if _NAMES is None:
        _NAMES = [m.name for m in pkgutil.walk_packages(pkg.__path__, PACKAGE + ".")]
    return _NAMES


def modules():
    """the modules of the current world, imported completely"""
    pkg = importlib.import_module(PACKAGE)
    return [pkg] + [importlib.import_module(n) for n in _names(pkg)]


def renew():
    """make a new world the current one"""
    shared = {k: sys.modules[k] for k in SHARED if k in sys.modules}
    version = shared.get(PACKAGE + "._version")
    if version is not None and not hasattr(version, "_symx"):
        # asks git about the checkout: once is enough
        version._symx = version.get_versions()
        version.get_versions = lambda: dict(version._symx)
    for k in _ours():
        if k not in shared:
            del sys.modules[k]
    mods = modules()
    for k, m in shared.items():
        setattr(mods[0], k.rsplit(".", 1)[1], m)
    if on_load is not None:
        on_load(mods)
    return mods


@contextlib.contextmanager
def other():
    """a new world, for the duration of the block (its instances live on)"""
    saved = {k: sys.modules[k] for k in _ours()}
    try:
        renew()
        yield
    finally:
        for k in _ours():
            del sys.modules[k]
        sys.modules.update(saved)


class Lazy:
    """an attribute of the package, looked up in the current world whenever it is used"""

    def __init__(self, module, name):
        self._module = PACKAGE + ("." + module if module else "")
        self._name = name

    def _get(self):
        return getattr(importlib.import_module(self._module), self._name)

    def __call__(self, *a, **k):
        return self._get()(*a, **k)

    def __getattr__(self, n):
        return getattr(self._get(), n)

    def __instancecheck__(self, x):
        return any(
            k.__name__ == self._name and k.__module__.startswith(PACKAGE) for k in type(x).__mro__
        )


def _constants():
    todo = [c for f, c in _CODE.items() if not f.endswith("_version.py")]
    while todo:
        x = todo.pop()
        if isinstance(x, (tuple, frozenset)):
            todo.extend(x)
        elif hasattr(x, "co_consts"):
            todo.extend(x.co_consts)
        else:
            yield x


def strings(limit=60):
    """
    the short string constants of the package's functions: names the code may treat specially
    """
    return sorted({
        x for x in _constants()
        if isinstance(x, str) and 0 < len(x) <= limit and x.strip() == x and "\n" not in x
    })


def numbers(lo, hi):
    """
    the whole numbers from lo to hi among the constants of the package's functions: sizes, counts
    and years the code may treat specially
    """
    out = set()
    for x in _constants():
        if isinstance(x, (int, float)) and not isinstance(x, bool) and x == x:
            if lo <= abs(x) <= hi and abs(x) == int(abs(x)):
                out.add(int(abs(x)))
    return sorted(out)


def sizes(lo, hi, limit=12):
    """sizes around the constants of the package's functions"""
    near = {k + d for k in numbers(lo - 2, hi + 1) for d in (-1, 0, 1, 2)}
    return sorted(k for k in near if lo <= k <= hi)[-limit:]


def far_sizes(lo, hi):
    """each of the larger constants of the package's functions, and just beyond"""
    return [k + d for k in numbers(lo, hi) for d in (0, 2)]
