"""A simulated Kubernetes API server and the fault-injecting client.

`SimApi` keeps the *real* kr8s client code (`Api.async_get`, `_async_get_single`,
`async_get_kind`, `APIObject.create/patch/delete`) and replaces only the
transport (`call_api`), kind discovery and the default namespace.
"""

from __future__ import annotations

import asyncio
import contextlib
import copy
import json
import urllib.parse

import httpx
import kr8s
from kr8s._api import Api

from . import core


class Resp:
    """The part of httpx.Response kr8s and koreo look at."""

    def __init__(self, status_code, body):
        self.status_code = status_code
        self._body = body

    def json(self):
        return copy.deepcopy(self._body)

    @property
    def text(self):
        return json.dumps(self._body)


def server_error(code: int, message: str = "") -> kr8s.ServerError:
    body = {
        "kind": "Status",
        "status": "Failure",
        "message": message or f"simulated {code}",
        "code": code,
    }
    return kr8s.ServerError(body["message"], status=body, response=Resp(code, body))


def merge_patch(target, patch):
    """RFC 7386."""
    if not isinstance(patch, dict):
        return copy.deepcopy(patch)
    if not isinstance(target, dict):
        target = {}
    out = dict(target)
    for key, value in patch.items():
        if value is None:
            out.pop(key, None)
        else:
            out[key] = merge_patch(out.get(key), value)
    return out


class Call:
    __slots__ = (
        "idx", "method", "version", "plural", "namespace", "name", "body", "raw",
        "start_seq", "effect_seq", "end_seq", "fault", "status", "t", "task", "url_ns",
    )  # fmt: skip

    def __init__(self, **kw):
        for slot in self.__slots__:
            setattr(self, slot, kw.get(slot))

    @property
    def mutating(self):
        return self.method in ("POST", "PATCH", "DELETE", "PUT")

    def path(self):
        return f"{self.version}/{self.plural}/{self.namespace}/{self.name}"

    def __repr__(self):
        return f"<{self.method} {self.path()} {self.fault or ''}>"


class Cluster:
    """Objects keyed by (apiVersion, plural, namespace, name)."""

    def __init__(self, ctx: core.Ctx):
        self.ctx = ctx
        self.objects: dict[tuple, dict] = {}
        self.kinds: dict[str, str] = {}  # "Kind.version" or "Kind" -> plural
        self.kind_of: dict[tuple, str] = {}  # (version, plural) -> Kind
        self.decorator = None  # fn(key, obj, event) -> obj; other server actors
        self.rv = 0
        self.uid = 0
        self.history: list[tuple] = []

    def clone(self, objects=None) -> "Cluster":
        """A fresh server knowing the same kinds."""
        other = Cluster(self.ctx)
        other.kinds = dict(self.kinds)
        other.kind_of = dict(self.kind_of)
        other.decorator = self.decorator
        for key, obj in (objects or {}).items():
            other.put(key, obj)
        return other

    def define(self, version: str, kind: str, plural: str):
        self.kinds[kind if version == "v1" else f"{kind}.{version}"] = plural
        self.kind_of[(version, plural)] = kind

    def _bump(self, obj):
        self.rv += 1
        meta = obj.get("metadata")
        if isinstance(meta, dict):
            meta["resourceVersion"] = str(self.rv)

    def put(self, key, obj, event="external"):
        obj = copy.deepcopy(obj)
        meta = obj.setdefault("metadata", {})
        if "uid" not in meta:
            self.uid += 1
            meta["uid"] = f"uid-{self.uid}"
        if self.decorator:
            obj = self.decorator(key, obj, event)
        self._bump(obj)
        self.objects[key] = obj
        self.history.append((event, key, copy.deepcopy(obj)))

    def remove(self, key, event="external-delete"):
        obj = self.objects.pop(key, None)
        self.rv += 1
        self.history.append((event, key, obj))

    def snapshot(self) -> dict:
        return copy.deepcopy(self.objects)

    # -- API semantics -----------------------------------------------------

    def apply(self, call: Call):
        """Execute one request atomically; returns (status, body)."""
        base = (call.version, call.plural, call.namespace)
        if call.method == "GET":
            items = [
                obj
                for (v, p, ns, name), obj in self.objects.items()
                if (v, p, ns) == base and (call.name is None or call.name == name)
            ]
            return 200, {"kind": "List", "metadata": {}, "items": items}

        if call.method == "POST":
            body = call.body
            if not isinstance(body, dict) or not isinstance(body.get("metadata"), dict):
                return 400, None
            name = body["metadata"].get("name")
            if not isinstance(name, str) or not name:
                return 422, None
            ns = body["metadata"].get("namespace")
            if call.namespace is not None and ns not in (None, call.namespace):
                return 400, None
            call.name = name
            key = (*base, name)
            if key in self.objects:
                return 409, None
            obj = copy.deepcopy(body)
            if call.namespace is not None:
                obj["metadata"]["namespace"] = call.namespace
            self.put(key, obj, "create")
            return 201, self.objects[key]

        key = (*base, call.name)
        if key not in self.objects:
            return 404, None

        if call.method == "PATCH":
            if not isinstance(call.body, dict):
                return 400, None
            current = self.objects[key]
            patched = merge_patch(current, call.body)
            meta = patched.get("metadata")
            if not isinstance(meta, dict):
                return 422, None
            if meta.get("name") != call.name:
                return 422, None
            if call.namespace is not None and meta.get("namespace") != call.namespace:
                return 422, None
            if patched.get("kind") != current.get("kind") or patched.get(
                "apiVersion"
            ) != current.get("apiVersion"):
                return 422, None
            meta["uid"] = current["metadata"].get("uid")
            if json.dumps(patched, sort_keys=True) != json.dumps(current, sort_keys=True):
                self.put(key, patched, "patch")
            return 200, self.objects[key]

        if call.method == "DELETE":
            self.remove(key, "delete")
            return 200, {"kind": "Status", "status": "Success"}

        return 405, None


#: what can be raised by the transport for "raise any exception"
def make_exception(kind: str):
    match kind:
        case "http404":
            return server_error(404)
        case "http409":
            return server_error(409)
        case "http500":
            return server_error(500)
        case "http503":
            return server_error(503)
        case "http429":
            return server_error(429)
        case "http403":
            return server_error(403)
        case "http422":
            return server_error(422)
        case "server_no_response":
            return kr8s.ServerError("no response", status=None, response=None)
        case "timeout":
            return kr8s.APITimeoutError("Timeout while waiting for the API server")
        case "connect":
            return httpx.ConnectError("simulated connection refused")
        case "reset":
            return ConnectionResetError("simulated reset")
        case "readerror":
            return httpx.ReadError("simulated read error")
        case "notfound":
            return kr8s.NotFoundError("simulated not found")
        case "runtime":
            return RuntimeError("simulated bug in client")
        case "value":
            return ValueError("simulated bad payload")
        case "builtin_timeout":
            return TimeoutError("simulated builtin timeout")
        case "keyerror":
            return KeyError("items")
        case "cancelled":
            return asyncio.CancelledError("simulated cancellation inside the client")
        case "group":
            return ExceptionGroup("simulated", [OSError("simulated"), ValueError("simulated")])
        case "json":
            return json.JSONDecodeError("simulated truncated body", "{", 1)
    raise core.HarnessError(f"unknown exception {kind}")


ERROR_KINDS = (
    "http500", "http409", "http404", "http503", "http429", "http403", "http422",
    "timeout", "connect", "reset", "readerror", "runtime", "value",
    "builtin_timeout", "server_no_response", "keyerror", "json", "notfound",
)  # fmt: skip


class Plan:
    """What happens to one request."""

    __slots__ = ("turns", "before", "after", "fault", "applied")

    def __init__(self, turns=0, before=0.0, after=0.0, fault=None, applied=False):
        self.turns = turns
        self.before = before  # latency until the server executes it
        self.after = after  # latency of the answer
        self.fault = fault  # None | "hang" | exception kind
        self.applied = applied  # the fault happens after the effect


class SimApi(Api):
    """Real kr8s Api on a simulated transport."""

    _asyncio = True

    def __init__(self, ctx: core.Ctx, cluster: Cluster, policy=None, namespace="default-ns"):
        # deliberately not calling Api.__init__: no kubeconfig, no httpx session
        self.ctx = ctx
        self.cluster = cluster
        self.policy = policy  # fn(call) -> Plan
        self._namespace = namespace
        self.calls: list[Call] = []
        self.lookup_policy = None
        self.lookups: list[str] = []
        self.on_effect = None
        self._session = None

    @property
    def namespace(self):
        return self._namespace

    async def lookup_kind(self, kind):
        self.lookups.append(kind)
        if self.lookup_policy is not None:
            plan = self.lookup_policy(kind)
            if plan is not None:
                await self._delays(plan)
                if plan.fault:
                    self.ctx.fault(f"lookup:{plan.fault}")
                    if plan.fault == "hang":
                        await asyncio.Event().wait()
                    raise make_exception(plan.fault)
        plural = self.cluster.kinds.get(kind)
        if plural is None:
            raise ValueError(f"Kind {kind} not found.")
        return (kind, plural, True)

    async_lookup_kind = lookup_kind

    async def _delays(self, plan):
        for _ in range(plan.turns):
            await asyncio.sleep(0)
        if plan.before:
            await asyncio.sleep(plan.before)

    @contextlib.asynccontextmanager
    async def call_api(
        self,
        method="GET",
        version="v1",
        base="",
        namespace=None,
        url="",
        raise_for_status=True,
        stream=False,
        **kwargs,
    ):
        ctx = self.ctx
        parts = url.split("/", 1)
        data = kwargs.get("data")
        if data is not None:
            body = json.loads(data)
        else:
            body = kwargs.get("json")
        name = parts[1] if len(parts) > 1 else None
        if method == "GET" and name is None:
            selector = (kwargs.get("params") or {}).get("fieldSelector", "")
            for piece in selector.split(","):
                if piece.startswith("metadata.name="):
                    name = piece.removeprefix("metadata.name=")
        call = Call(
            idx=len(self.calls), method=method, version=version, plural=parts[0],
            namespace=namespace, name=name, body=body, raw=data,
            start_seq=ctx.event(), t=ctx.clock.t,
            task=asyncio.current_task().get_name(),
        )  # fmt: skip
        if method == "POST" and isinstance(body, dict):
            meta = body.get("metadata")
            if isinstance(meta, dict):
                call.name = meta.get("name")
        self.calls.append(call)
        plan = self.policy(call) if self.policy else Plan()
        ctx.log(
            f"{ctx.clock.t - ctx.clock.start:.3f} #{call.start_seq} {method} "
            f"{call.path()} fault={plan.fault} applied={plan.applied} "
            f"turns={plan.turns} lat={plan.before:.3f}/{plan.after:.3f}"
        )
        await self._delays(plan)
        if plan.fault and not plan.applied:
            call.fault = plan.fault
            ctx.fault(f"{method}:{plan.fault}:before")
            call.end_seq = ctx.event()
            if plan.fault == "hang":
                await asyncio.Event().wait()
            raise make_exception(plan.fault)

        status, answer = self.cluster.apply(call)
        call.status = status
        call.effect_seq = ctx.event()
        answer = copy.deepcopy(answer)
        ctx.log(f"  #{call.effect_seq} effect of #{call.start_seq} -> {status}")
        if self.on_effect:
            self.on_effect(call)
        if plan.after:
            await asyncio.sleep(plan.after)
        call.end_seq = ctx.event()
        if plan.fault:
            call.fault = plan.fault
            ctx.fault(f"{method}:{plan.fault}:after")
            if plan.fault == "hang":
                await asyncio.Event().wait()
            raise make_exception(plan.fault)
        if status >= 400:
            if raise_for_status:
                raise server_error(status)
        yield Resp(status, answer)

    # -- views --------------------------------------------------------------

    def mutations(self):
        return [c for c in self.calls if c.mutating]


def wire_json(value):
    """Canonical JSON text, distinguishing true/1 and 1/1.0 as JSON does."""
    return json.dumps(value, sort_keys=True, default=repr)
