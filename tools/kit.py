"""Small stand-ins for a demonstration: koreo on Python 3.12, an in-memory API."""

import asyncio
import contextlib
import copy
import importlib.machinery
import json
import logging
import re
import sys

logging.disable(logging.CRITICAL)

if not hasattr(copy, "replace"):
    copy.replace = lambda obj, **changes: obj._replace(**changes)


class _Loader(importlib.machinery.SourceFileLoader):
    """Python 3.12 mangles module level private names which follow a generic
    class, 3.13 (which koreo is for) does not."""

    def source_to_code(self, data, path, *, _optimize=-1):
        text = data.decode() if isinstance(data, bytes) else data
        text = re.sub(r"(?<![\w.])__(?=[A-Za-z])(?!\w*__\b)", "_private_", text)
        return super().source_to_code(text, path, _optimize=_optimize)

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name not in ("koreo.cache",):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        spec.loader = _Loader(spec.name, spec.origin)
        return spec


if sys.version_info < (3, 13):
    sys.meta_path.insert(0, _Finder)

    if not hasattr(asyncio, "QueueShutDown"):

        class QueueShutDown(Exception):
            pass

        class _Mixin:
            _down = False

            def shutdown(self, immediate=False):
                self._down = True
                for waiter in [*self._getters, *self._putters]:
                    if not waiter.done():
                        waiter.set_result(None)

            def put_nowait(self, item):
                if self._down:
                    raise QueueShutDown
                return super().put_nowait(item)

            def get_nowait(self):
                if self._down and self.empty():
                    raise QueueShutDown
                return super().get_nowait()

            async def get(self):
                while self.empty():
                    if self._down:
                        raise QueueShutDown
                    getter = asyncio.get_running_loop().create_future()
                    self._getters.append(getter)
                    try:
                        await getter
                    except BaseException:
                        getter.cancel()
                        with contextlib.suppress(ValueError):
                            self._getters.remove(getter)
                        raise
                return self.get_nowait()

        class Queue(_Mixin, asyncio.Queue):
            pass

        class LifoQueue(_Mixin, asyncio.LifoQueue):
            pass

        asyncio.QueueShutDown = QueueShutDown
        asyncio.Queue, asyncio.LifoQueue = Queue, LifoQueue

import kr8s
from kr8s._api import Api


class _Response:
    def __init__(self, status, body):
        self.status_code, self._body = status, body

    def json(self):
        return copy.deepcopy(self._body)


def server_error(code):
    body = {"kind": "Status", "status": "Failure", "message": f"{code}", "code": code}
    return kr8s.ServerError(f"{code}", status=body, response=_Response(code, body))


def merge(target, patch):
    if not isinstance(patch, dict):
        return copy.deepcopy(patch)
    out = dict(target) if isinstance(target, dict) else {}
    for key, value in patch.items():
        if value is None:
            out.pop(key, None)
        else:
            out[key] = merge(out.get(key), value)
    return out


class FakeApi(Api):
    """kr8s' own client code over a dictionary. `hook(method, plural, name)` may
    return an awaitable: to delay, or to raise."""

    _asyncio = True

    def __init__(self, hook=None):
        self.objects, self.calls, self.hook = {}, [], hook
        self._namespace, self._session = "default", None

    @property
    def namespace(self):
        return self._namespace

    def put(self, plural, obj):
        meta = obj["metadata"]
        self.objects[(plural, meta.get("namespace"), meta["name"])] = copy.deepcopy(obj)

    def mutations(self):
        return [call for call in self.calls if call[0] != "GET"]

    async def lookup_kind(self, kind):
        raise ValueError(kind)

    async_lookup_kind = lookup_kind

    @contextlib.asynccontextmanager
    async def call_api(self, method="GET", version="v1", base="", namespace=None, url="", raise_for_status=True, stream=False, **kwargs):
        plural, _, name = url.partition("/")
        body = json.loads(kwargs["data"]) if kwargs.get("data") else kwargs.get("json")
        if method == "GET" and not name:
            selector = (kwargs.get("params") or {}).get("fieldSelector", "")
            name = next((s.split("=", 1)[1] for s in selector.split(",") if s.startswith("metadata.name=")), None)
        if method == "POST":
            name = body["metadata"].get("name")
        self.calls.append((method, plural, namespace, name, copy.deepcopy(body)))
        if self.hook:
            waiting = self.hook(method, plural, name)
            if waiting is not None:
                await waiting
        key = (plural, namespace, name)
        if method == "GET":
            items = [self.objects[key]] if key in self.objects else []
            yield _Response(200, {"kind": "List", "metadata": {}, "items": items})
        elif method == "POST":
            if key in self.objects:
                raise server_error(409)
            self.objects[key] = copy.deepcopy(body)
            yield _Response(201, body)
        elif key not in self.objects:
            raise server_error(404)
        elif method == "PATCH":
            self.objects[key] = merge(self.objects[key], body)
            yield _Response(200, self.objects[key])
        else:
            del self.objects[key]
            yield _Response(200, {"kind": "Status", "status": "Success"})


OWNER_REF = {"apiVersion": "demo/v1", "kind": "Parent", "name": "parent", "uid": "uid-parent", "blockOwnerDeletion": True, "controller": False}
OWNER = ("default", OWNER_REF)


def cel(value):
    import celpy

    return celpy.json_to_cel(value)


def plain(value):
    from koreo.cel.encoder import convert_bools

    return convert_bools(value)


async def offer(kind, name, spec, version="1"):
    """Prepare and cache one definition; returns what is in the cache."""
    from koreo.cache import prepare_and_cache
    from koreo.resource_function.prepare import prepare_resource_function
    from koreo.resource_function.structure import ResourceFunction
    from koreo.resource_template.prepare import prepare_resource_template
    from koreo.resource_template.structure import ResourceTemplate
    from koreo.value_function.prepare import prepare_value_function
    from koreo.value_function.structure import ValueFunction
    from koreo.workflow.prepare import prepare_workflow
    from koreo.workflow.structure import Workflow

    cls, preparer = {
        "ValueFunction": (ValueFunction, prepare_value_function),
        "ResourceFunction": (ResourceFunction, prepare_resource_function),
        "ResourceTemplate": (ResourceTemplate, prepare_resource_template),
        "Workflow": (Workflow, prepare_workflow),
    }[kind]
    return await prepare_and_cache(cls, preparer, {"name": name, "resourceVersion": version}, copy.deepcopy(spec))


async def run_function(api, function, inputs=None, owner=OWNER):
    from koreo.resource_function.reconcile import reconcile_resource_function

    outcome = await reconcile_resource_function(api=api, location="demo", function=function, owner=copy.deepcopy(owner), inputs=cel(inputs or {}))
    return outcome.outcome


async def run_value(function, inputs=None):
    from koreo.value_function.reconcile import reconcile_value_function

    return await reconcile_value_function(location="demo", function=function, inputs=cel(inputs or {}))


async def run_workflow(api, workflow, trigger=None, owner=OWNER):
    from koreo.workflow.reconcile import reconcile_workflow

    return await reconcile_workflow(api=api, workflow_key="demo", owner=copy.deepcopy(owner), trigger=cel(trigger or {}), workflow=workflow)


def widget(name="w", spec=None, **api):
    """An apiConfig and resource for a kind of our own."""
    return {
        "apiConfig": {"apiVersion": "demo.dev/v1", "kind": "Widget", "plural": "widgets", "namespace": "default", "name": name, **api},
        "resource": {"spec": spec or {"a": 1}},
    }


def check(condition, message):
    if not condition:
        print("FAILED:", message)
        sys.exit(1)


def run(main):
    asyncio.run(asyncio.wait_for(main(), 120))
    print("ok")
