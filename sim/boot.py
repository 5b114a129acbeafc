"""Load the code under test (/repo/src/koreo) into this process.

* The simulated clock is put behind `time.monotonic` / `time.time` before
  koreo is imported, so every deadline and event time koreo takes is simulated.
* koreo-core requires Python >= 3.13; the interpreter here is 3.12.3, whose
  compiler mangles module-level `__names` that follow a *generic* class (a
  CPython bug fixed in 3.13: `class __CachedResource[T]` in koreo/cache.py).
  The import hook below gives every koreo module the 3.13 meaning by renaming
  module-level private names consistently at AST level.  Nothing else of the
  source is changed.
* Module state is snapshotted after import and restored between scenarios.
"""

from __future__ import annotations

import ast
import collections
import gc
import importlib.abc
import importlib.machinery
import importlib.util
import logging
import os
import pathlib
import sys
import warnings

from . import core

REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
SRC = REPO / "src"


class _Private(ast.NodeTransformer):
    """Rename module-scope `__x` identifiers (class scopes are left alone:
    mangling inside an ordinary class is correct Python semantics)."""

    PREFIX = "_koreo_private"

    def __init__(self):
        self.depth = 0

    @classmethod
    def rename(cls, name: str) -> str:
        if name.startswith("__") and not name.endswith("__"):
            return cls.PREFIX + name
        return name

    def visit_Name(self, node):
        node.id = self.rename(node.id)
        return node

    def visit_Global(self, node):
        node.names = [self.rename(n) for n in node.names]
        return node

    def visit_FunctionDef(self, node):
        node.name = self.rename(node.name)
        self.generic_visit(node)
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        node.name = self.rename(node.name)
        if not any(
            isinstance(stmt, (ast.FunctionDef, ast.AsyncFunctionDef))
            for stmt in node.body
        ):
            self.generic_visit(node)
        return node


class _Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, filename=path)
        generic = any(
            isinstance(node, ast.ClassDef) and getattr(node, "type_params", None)
            for node in tree.body
        )
        if generic and sys.version_info < (3, 13):
            tree = ast.fix_missing_locations(_Private().visit(tree))
        return compile(tree, path, "exec", dont_inherit=True)

    def get_code(self, fullname):
        # Never a stale or written .pyc: always the working tree's source.
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "koreo" and not fullname.startswith("koreo."):
            return None
        base = SRC.joinpath(*fullname.split("."))
        init = base / "__init__.py"
        if init.is_file():
            return importlib.util.spec_from_file_location(
                fullname,
                init,
                loader=_Loader(fullname, str(init)),
                submodule_search_locations=[str(base)],
            )
        mod = base.with_suffix(".py")
        if mod.is_file():
            return importlib.util.spec_from_file_location(
                fullname, mod, loader=_Loader(fullname, str(mod))
            )
        return None


_loaded = False
_snapshot: list[tuple[object, str, object, object]] = []
MODULES = (
    "koreo.result koreo.conditions koreo.constants koreo.registry koreo.cache "
    "koreo.status koreo.schema koreo.ref_helpers koreo.predicate_helpers "
    "koreo.cel.encoder koreo.cel.evaluation koreo.cel.functions koreo.cel.prepare "
    "koreo.cel.structure_extractor koreo.value_function.prepare "
    "koreo.value_function.reconcile koreo.resource_template.prepare "
    "koreo.resource_function.prepare koreo.resource_function.reconcile "
    "koreo.resource_function.reconcile.validate "
    "koreo.resource_function.reconcile.kind_lookup koreo.workflow.prepare "
    "koreo.workflow.reconcile koreo.function_test.prepare koreo.function_test.run"
).split()

PROBE_LOG: list[tuple[str, object]] = []
_probe_hook = None


def set_probe(hook):
    """hook(label, value) is called when a definition evaluates
    `simprobe(label, value)`; the call returns its value unchanged."""
    global _probe_hook
    _probe_hook = hook


def current_probe():
    return _probe_hook


def load():
    global _loaded
    if _loaded:
        return
    _loaded = True
    core.install_clock()
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    sys.meta_path.insert(0, _Finder())
    sys.path.insert(0, str(SRC))
    import importlib

    for name in MODULES:
        importlib.import_module(name)
    import koreo.cache

    assert koreo.cache.__file__.startswith(str(SRC)), koreo.cache.__file__

    for name, module in list(sys.modules.items()):
        if name == "koreo" or name.startswith("koreo."):
            module.print = lambda *a, **k: None
    _install_probe()
    _install_parse_cache()
    _load_schemas()
    _take_snapshot()
    gc.collect()
    gc.freeze()


def _load_schemas():
    """Compile the bundled validators once (they are module state)."""
    import koreo.schema as schema
    from koreo.value_function.structure import ValueFunction

    schema.validate(resource_type=ValueFunction, spec={}, validation_required=True)


def _install_probe():
    from celpy import celtypes
    import koreo.cel.functions as functions

    def simprobe(label, value):
        if _probe_hook is not None:
            _probe_hook(str(label), value)
        return value

    def simprobe_bool(label, value):
        if _probe_hook is not None:
            _probe_hook(str(label), value)
        return celtypes.BoolType(True)

    functions.koreo_function_annotations["simprobe"] = celtypes.FunctionType
    functions.koreo_cel_functions["simprobe"] = simprobe
    functions.koreo_function_annotations["simreached"] = celtypes.FunctionType
    functions.koreo_cel_functions["simreached"] = simprobe_bool


def _install_parse_cache():
    """celpy (a library, not the code under test) parses each expression text
    with lark; identical texts give identical, never mutated trees."""
    import celpy

    original = celpy.Environment.compile
    cache: dict[str, object] = {}

    def compile_(self, text):
        tree = cache.get(text)
        if tree is None:
            tree = original(self, text)
            if len(cache) > 4000:
                cache.clear()
            cache[text] = tree
        return tree

    celpy.Environment.compile = compile_


_CONTAINERS = (dict, set, list, collections.deque)


def _take_snapshot():
    _snapshot.clear()
    for name, module in sorted(sys.modules.items()):
        if name != "koreo" and not name.startswith("koreo."):
            continue
        for attr, value in sorted(vars(module).items()):
            if attr.startswith("__") and attr.endswith("__"):
                continue
            if isinstance(value, _CONTAINERS):
                _snapshot.append((module, attr, value, _copy(value)))
            elif isinstance(value, (int, float, str, bool, type(None))):
                _snapshot.append((module, attr, None, value))


def _copy(value):
    if isinstance(value, collections.defaultdict):
        return dict(value)
    if isinstance(value, dict):
        return dict(value)
    return type(value)(value)


def reset():
    """Put every koreo module's state back to what it was after import."""
    for module, attr, container, saved in _snapshot:
        if container is None:
            if vars(module).get(attr) is not saved:
                setattr(module, attr, saved)
            continue
        current = vars(module).get(attr)
        if current is not container:
            setattr(module, attr, container)
        if isinstance(container, dict):
            if container or saved:
                container.clear()
                container.update(saved)
        elif isinstance(container, set):
            container.clear()
            container.update(saved)
        else:
            container.clear()
            container.extend(saved)
    _neutralise_classes()
    set_probe(None)


_known_classes: set[int] | None = None


def _neutralise_classes():
    """kr8s keeps created object classes reachable through
    `APIObject.__subclasses__()`; make those of past scenarios unmatchable."""
    global _known_classes
    from kr8s._objects import APIObject

    if _known_classes is None:
        import kr8s.objects, kr8s.asyncio.objects  # noqa: F401,E401

        _known_classes = {id(c) for c in _walk(APIObject)}
        _keep.extend(_walk(APIObject))
        # classes koreo created before the first reset cannot exist: reset()
        # runs once right after load().
        return
    for cls in list(APIObject.__subclasses__()):
        if id(cls) not in _known_classes:
            cls.kind = cls.singular = cls.plural = cls.endpoint = "dead"
            cls.version = "dead.invalid/v0"


_keep: list[type] = []


def _walk(cls):
    yield cls
    for sub in cls.__subclasses__():
        yield from _walk(sub)
