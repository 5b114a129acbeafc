"""A small typed expression language: every node renders to CEL text and has an
independent Python meaning, so a generated definition comes with a reference
interpreter.  Nodes are tuples; values are plain JSON values."""

from __future__ import annotations

import json

from celpy import celtypes
import celpy


class EvalFail(Exception):
    """The expression has no value (an evaluation error)."""


class Open(Exception):
    """What the expression evaluates to is a peculiarity of celpy."""


# --------------------------------------------------------------------------
# rendering
# --------------------------------------------------------------------------


def lit_cel(v) -> str:
    if v is True:
        return "true"
    if v is False:
        return "false"
    if v is None:
        return "null"
    if isinstance(v, int):
        return str(v) if v >= 0 else f"({v})"
    if isinstance(v, float):
        return repr(v)
    if isinstance(v, str):
        return "'" + v + "'"
    if isinstance(v, list):
        return "[" + ", ".join(lit_cel(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{" + ", ".join(f"'{k}': {lit_cel(x)}" for k, x in v.items()) + "}"
    raise TypeError(v)


def cel(n) -> str:
    k = n[0]
    if k == "lit":
        return lit_cel(n[1])
    if k == "var":
        return n[1]
    if k == "path":
        out = n[1]
        for key, style in n[2]:
            if style == 0 and key.isidentifier():
                out += f".{key}"
            elif style < 2:
                out += f"['{key}']"
            else:
                out += f'["{key}"]'
        return out
    if k == "bin":
        return f"({cel(n[2])} {n[1]} {cel(n[3])})"
    if k == "cond":
        return f"({cel(n[1])} ? {cel(n[2])} : {cel(n[3])})"
    if k == "not":
        return f"!({cel(n[1])})"
    if k == "size":
        return f"size({cel(n[1])})"
    if k == "string":
        return f"string({cel(n[1])})"
    if k == "list":
        return "[" + ", ".join(cel(x) for x in n[1]) + "]"
    if k == "map":
        return "{" + ", ".join(f"'{key}': {cel(x)}" for key, x in n[1]) + "}"
    if k == "macro":  # ("macro", name, list, var, body)
        return f"{cel(n[2])}.{n[1]}({n[3]}, {cel(n[4])})"
    if k == "idx":
        return f"{cel(n[1])}[{cel(n[2])}]"
    if k == "has":
        return f"has({cel(n[1])})"
    if k == "in":
        return f"({cel(n[1])} in {cel(n[2])})"
    if k == "probe":
        return f"simprobe('{n[1]}', {cel(n[2])})"
    if k == "dyn":
        return f"{cel(n[1])}.{n[2]}"
    if k == "paren":
        return f"({cel(n[1])})"
    if k == "fn":  # ("fn", name, [args], meaning)
        return f"{n[1]}({', '.join(cel(x) for x in n[2])})"
    if k == "method":  # a function called as a method
        return f"{cel(n[2][0])}.{n[1]}({', '.join(cel(x) for x in n[2][1:])})"
    if k in ("raw", "fails"):  # text with a known failing meaning
        return n[1]
    raise TypeError(n)


def expr(n) -> str:
    return "=" + cel(n)


# --------------------------------------------------------------------------
# reference meaning
# --------------------------------------------------------------------------


def _need(v, types):
    if types is bool and not isinstance(v, bool):
        raise Open("condition")
    if types is int and isinstance(v, (bool, float)):
        raise Open("number")
    if not isinstance(v, types):
        raise EvalFail("type")
    return v


def ev(n, env):
    k = n[0]
    if k == "lit":
        return json.loads(json.dumps(n[1]))
    if k == "var":
        if n[1] not in env:
            raise EvalFail(f"unknown {n[1]}")
        return env[n[1]]
    if k == "path":
        if n[1] not in env:
            raise EvalFail(f"unknown {n[1]}")
        value = env[n[1]]
        for key, _ in n[2]:
            if not isinstance(value, dict) or key not in value:
                raise EvalFail(f"no {key}")
            value = value[key]
        return value
    if k == "bin":
        op = n[1]
        if op in ("&&", "||"):
            return _logic(op, n, env)
        if op in ("==", "!="):
            try:
                a, b = ev(n[2], env), ev(n[3], env)
            except EvalFail:
                # celpy finds an error just different from a string or null
                raise Open("equality") from None
        else:
            a, b = ev(n[2], env), ev(n[3], env)
        if op == "==":
            return _eq(a, b)
        if op == "!=":
            return not _eq(a, b)
        if op == "+":
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(a, list) and isinstance(b, list):
                return a + b
        _need(a, int), _need(b, int)
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "/":
            if b == 0:
                raise EvalFail("div")
            q = abs(a) // abs(b)
            return q if (a < 0) == (b < 0) else -q
        if op == "%":
            if b == 0:
                raise EvalFail("mod")
            r = abs(a) % abs(b)
            return r if a >= 0 else -r
        if op == "<":
            return a < b
        if op == ">":
            return a > b
        raise TypeError(op)
    if k == "cond":
        c = _need(ev(n[1], env), bool)
        return ev(n[2], env) if c else ev(n[3], env)
    if k == "not":
        return not _need(ev(n[1], env), bool)
    if k == "size":
        return len(_need(ev(n[1], env), (list, str, dict)))
    if k == "string":
        return str(_need(ev(n[1], env), int))
    if k == "list":
        return [ev(x, env) for x in n[1]]
    if k == "map":
        return {key: ev(x, env) for key, x in n[1]}
    if k == "macro":
        seq = _need(ev(n[2], env), list)
        name, var, body = n[1], n[3], n[4]
        if name == "map":
            return [ev(body, {**env, var: x}) for x in seq]
        if name == "filter":
            kept = []
            for x in seq:
                try:
                    if _need(ev(body, {**env, var: x}), bool):
                        kept.append(x)
                except EvalFail:
                    # celpy takes anything, also an error, for a condition
                    raise Open("filter") from None
            return kept
        vals = [_need(ev(body, {**env, var: x}), bool) for x in seq]
        return all(vals) if name == "all" else any(vals)
    if k == "idx":
        a, i = ev(n[1], env), ev(n[2], env)
        if isinstance(a, list) and isinstance(i, int) and 0 <= i < len(a):
            return a[i]
        if isinstance(a, dict) and isinstance(i, str) and i in a:
            return a[i]
        raise EvalFail("index")
    if k == "has":
        path = n[1]
        parent = ev((path[0], path[1], path[2][:-1]), env)
        _need(parent, dict)
        return path[2][-1][0] in parent
    if k == "in":
        a, b = ev(n[1], env), ev(n[2], env)
        return any(_eq(a, x) for x in b)
    if k == "probe":
        return ev(n[2], env)
    if k == "dyn":
        value = _need(ev(n[1], env), dict)
        if n[2] not in value:
            raise EvalFail("member")
        return value[n[2]]
    if k == "paren":
        return ev(n[1], env)
    if k in ("fn", "method"):
        return FUNCTIONS[n[1]](*[ev(x, env) for x in n[2]])
    if k == "raw":
        raise EvalFail("raw")
    if k == "fails":  # ("fails", text, object that is told)
        n[2].hit()
        raise EvalFail("fails")
    raise TypeError(n)


def _overlay(base, over):
    _need(base, dict), _need(over, dict)
    out = dict(base)
    for key, value in over.items():
        if isinstance(value, dict) and isinstance(out.get(key), dict):
            if not value and out[key]:
                raise Open("empty map over a map")
            out[key] = _overlay(out[key], value)
        else:
            out[key] = value
    return out


def _flatten(lists):
    return [x for part in _need(lists, list) for x in _need(part, list)]


FUNCTIONS = {"overlay": _overlay, "flatten": _flatten}


def _logic(op, n, env):
    out, failed = [], None
    for child in n[2:]:
        try:
            out.append(_need(ev(child, env), bool))
        except EvalFail as err:
            failed = err
    absorbing = op == "||"
    if any(v is absorbing for v in out):
        return absorbing
    if failed:
        raise failed
    return not absorbing


def _eq(a, b):
    if type(a) is not type(b):
        if isinstance(a, (bool, int, float)) and isinstance(b, (bool, int, float)):
            raise Open("comparison")
        raise EvalFail("eq type")
    return a == b


def refs(n, root="steps", bound=()) -> set[str]:
    """Names statically referenced under `root`, independent of koreo."""
    out: set[str] = set()

    def walk(node, bound):
        if not isinstance(node, tuple):
            return
        if node[0] == "path":
            if node[1] == root and root not in bound and node[2]:
                out.add(node[2][0][0])
            return
        if node[0] == "macro":
            walk(node[2], bound)
            walk(node[4], bound | {node[3]})
            return
        for child in node[1:]:
            if isinstance(child, tuple):
                walk(child, bound)
            elif isinstance(child, list):
                for item in child:
                    if isinstance(item, tuple) and item and isinstance(item[0], str) and len(item) == 2 and isinstance(item[1], tuple):
                        # map entry or a two element node
                        walk(item[1], bound)
                        walk(item, bound)
                    else:
                        walk(item, bound)

    walk(n, frozenset(bound))
    return out


# --------------------------------------------------------------------------
# structures: JSON-like trees whose leaves may be expressions
# --------------------------------------------------------------------------


class X:
    """An expression leaf inside a spec structure."""

    __slots__ = ("node",)

    def __init__(self, node):
        self.node = node

    def __repr__(self):
        return expr(self.node)


def render(s):
    """Spec structure -> JSON value as written in a definition."""
    if isinstance(s, X):
        return expr(s.node)
    if isinstance(s, dict):
        return {k: render(v) for k, v in s.items()}
    if isinstance(s, list):
        return [render(v) for v in s]
    return s


def evs(s, env):
    if isinstance(s, X):
        return ev(s.node, env)
    if isinstance(s, dict):
        return {k: evs(v, env) for k, v in s.items()}
    if isinstance(s, list):
        return [evs(v, env) for v in s]
    return s


def srefs(s, root="steps") -> set[str]:
    if isinstance(s, X):
        return refs(s.node, root)
    if isinstance(s, dict):
        return set().union(*[srefs(v, root) for v in s.values()]) if s else set()
    if isinstance(s, list):
        return set().union(*[srefs(v, root) for v in s]) if s else set()
    return set()


# --------------------------------------------------------------------------
# generation
# --------------------------------------------------------------------------

WORDS = ["a", "bc", "xyz", "k8", "up-1", ""]


class Gen:
    """Typed generator over an environment of typed access paths:
    env = [(type, root, (key, ...)), ...]; types int str bool ilist any."""

    def __init__(self, ch, env, fail_pct=0):
        self.ch = ch
        self.env = env
        self.fail_pct = fail_pct
        self.nvars = 0
        self.failed = False

    def paths(self, t):
        return [e for e in self.env if e[0] == t]

    def path(self, entry):
        style = self.ch.weighted([(0, 6), (1, 3), (2, 1)])
        return ("path", entry[1], tuple((k, style) for k in entry[2]))

    def leaf(self, t):
        options = self.paths(t)
        if options and self.ch.chance(70):
            return self.path(self.ch.pick(options))
        return ("lit", self.literal(t))

    def literal(self, t):
        ch = self.ch
        if t == "int":
            return ch.int(0, 5)
        if t == "str":
            return ch.pick(WORDS)
        if t == "bool":
            return ch.bool()
        if t == "ilist":
            return [ch.int(0, 5) for _ in range(ch.int(0, 3))]
        raise TypeError(t)

    def fail(self, t):
        """An expression of nominal type t that cannot be evaluated."""
        self.failed = True
        ch = self.ch
        kind = ch.below(6)
        if kind == 0:
            return ("bin", "/", self.leaf("int"), ("lit", 0))
        if kind == 1:
            return ("bin", "%", ("lit", 3), ("bin", "-", ("lit", 1), ("lit", 1)))
        if kind == 2:
            return ("path", ch.pick(["inputs", "nosuch", "locals"]), (("nope", 0),))
        if kind == 3:
            return ("idx", self.leaf("ilist"), ("lit", 99))
        if kind == 4:
            return ("dyn", ("map", [("q", ("lit", 1))]), "zz")
        return ("bin", "+", ("lit", 1), ("lit", "a"))

    def safe(self, t, depth):
        """No injected failure below: celpy's ==, != and string() do not
        propagate error operands."""
        save, self.fail_pct = self.fail_pct, 0
        out = self.gen(t, depth)
        self.fail_pct = save
        return out

    def gen(self, t, depth=2):
        ch = self.ch
        if self.fail_pct and ch.chance(self.fail_pct):
            return self.fail(t)
        if depth <= 0:
            return self.leaf(t)
        d = depth - 1
        k = ch.below(8)
        if k <= 3:
            return self.leaf(t)
        if k == 4:
            return ("cond", self.gen("bool", d), self.gen(t, d), self.gen(t, d))
        if t == "int":
            if k == 5:
                return ("bin", ch.pick(["+", "-", "*"]), self.gen("int", d), self.gen("int", d))
            if k == 6:
                return ("size", self.safe(ch.pick(["ilist", "str"]), d))
            return ("idx", ("list", [self.gen("int", d) for _ in range(ch.int(1, 3))]), ("lit", 0))
        if t == "str":
            if k == 5:
                return ("bin", "+", self.gen("str", d), self.gen("str", d))
            return ("string", self.safe("int", d))
        if t == "bool":
            if k == 5:
                ty = ch.pick(["int", "str"])
                return ("bin", ch.pick(["==", "!="]), self.safe(ty, d), self.safe(ty, d))
            if k == 6:
                return ("bin", ch.pick(["<", ">"]), self.gen("int", d), self.gen("int", d))
            if ch.bool():
                return ("not", self.gen("bool", d))
            return ("bin", ch.pick(["&&", "||"]), self.safe("bool", d), self.safe("bool", d))
        if t == "ilist":
            if k == 5:
                return ("list", [self.gen("int", d) for _ in range(ch.int(1, 3))])
            if k == 6:
                return ("bin", "+", self.gen("ilist", d), self.gen("ilist", d))
            src = self.gen("ilist", d)
            self.nvars += 1
            var = ch.weighted([("v", 6), ("inputs_", 1), ("locals", 1), ("resource_", 1), ("steps", 1)]) + f"{self.nvars}"
            inner = Gen(ch, self.env + [("int", var, ())] * 3, 0)
            inner.nvars = self.nvars + 10
            if ch.bool():
                return ("macro", "map", src, var, inner.gen("int", d))
            return ("macro", "filter", src, var, inner.gen("bool", min(d, 1)))
        raise TypeError(t)


# --------------------------------------------------------------------------
# celpy values <-> plain
# --------------------------------------------------------------------------


def to_py(v):
    """Plain JSON value of an evaluated CEL value (strict about kinds)."""
    if isinstance(v, celpy.CELEvalError):
        return {"$error": str(v)}
    if isinstance(v, (celtypes.BoolType, bool)):
        return bool(v)
    if isinstance(v, dict):
        return {str(to_py(k)): to_py(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [to_py(x) for x in v]
    if v is None or isinstance(v, celtypes.NullType if hasattr(celtypes, "NullType") else ()):
        return None
    if isinstance(v, int):
        return int(v)
    if isinstance(v, float):
        return float(v)
    if isinstance(v, str):
        return str(v)
    return {"$foreign": f"{type(v).__name__}:{v}"}


def to_cel(v):
    return celpy.json_to_cel(v)


def same(a, b) -> bool:
    """JSON equality with bool and int kept apart."""
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    return type(a) is type(b) and a == b
