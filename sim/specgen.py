"""Definitions from the bundled CRDs: an independent reader of their schemas
(no fastjsonschema), a generator of specs that satisfy them, of specs that break
one chosen rule, of type confusion at any path, and of CEL of any shape."""

from __future__ import annotations

import re


import yaml

from . import boot

def clone(value):
    """A copy, however deep."""
    out: list = [None]
    todo = [(out, 0, value)]
    while todo:
        into, key, value = todo.pop()
        if isinstance(value, dict):
            into[key] = dict.fromkeys(value)
            todo += [(into[key], k, v) for k, v in value.items()]
        elif isinstance(value, list):
            into[key] = [None] * len(value)
            todo += [(into[key], i, v) for i, v in enumerate(value)]
        else:
            into[key] = value
    return out[0]


KINDS = ("ValueFunction", "ResourceFunction", "ResourceTemplate", "Workflow", "FunctionTest")
_schemas: dict = {}


def schema_of(kind):
    if not _schemas:
        for path in sorted((boot.SRC / "koreo" / "schema").glob("*.yaml")):
            for doc in yaml.safe_load_all(path.read_text()):
                if not doc or doc.get("kind") != "CustomResourceDefinition":
                    continue
                version = doc["spec"]["versions"][0]
                _schemas[doc["spec"]["names"]["kind"]] = version["schema"]["openAPIV3Schema"]["properties"]["spec"]
    return _schemas[kind]


KNOWN = {"type", "required", "properties", "items", "enum", "oneOf", "anyOf", "minLength", "maxLength",
         "minItems", "maxItems", "minProperties", "maxProperties", "additionalProperties", "default",
         "description", "nullable"}  # fmt: skip


def is_type(value, name):
    if name == "object":
        return isinstance(value, dict)
    if name == "array":
        return isinstance(value, list)
    if name == "string":
        return isinstance(value, str)
    if name == "boolean":
        return isinstance(value, bool)
    if name == "integer":
        if isinstance(value, bool):
            return False
        return isinstance(value, int) or (isinstance(value, float) and value.is_integer())
    raise AssertionError(f"type {name}")


def broken_rule(schema, value, path="spec"):
    """The first rule `value` breaks, or None."""
    for key in schema:
        assert key in KNOWN or key.startswith("x-kubernetes-"), key
    if "type" in schema and not is_type(value, schema["type"]):
        return f"{path}: type {schema['type']}"
    if "enum" in schema and value not in schema["enum"]:
        return f"{path}: enum"
    for many, want in (("oneOf", (1,)), ("anyOf", None)):
        if many in schema:
            count = sum(broken_rule(option, value) is None for option in schema[many])
            if (want and count not in want) or not count:
                return f"{path}: {many}"
    if isinstance(value, str):
        if len(value) < schema.get("minLength", 0):
            return f"{path}: minLength"
        if len(value) > schema.get("maxLength", len(value)):
            return f"{path}: maxLength"
    if isinstance(value, list):
        if len(value) < schema.get("minItems", 0):
            return f"{path}: minItems"
        if len(value) > schema.get("maxItems", len(value)):
            return f"{path}: maxItems"
        if "items" in schema:
            for i, item in enumerate(value):
                if broken := broken_rule(schema["items"], item, f"{path}[{i}]"):
                    return broken
    if isinstance(value, dict):
        for key in schema.get("required", ()):
            if key not in value:
                return f"{path}: required {key}"
        if len(value) < schema.get("minProperties", 0):
            return f"{path}: minProperties"
        if len(value) > schema.get("maxProperties", len(value)):
            return f"{path}: maxProperties"
        known = schema.get("properties", {})
        for key, sub in known.items():
            if key in value:
                if broken := broken_rule(sub, value[key], f"{path}.{key}"):
                    return broken
        if schema.get("additionalProperties") is False and set(value) - set(known):
            return f"{path}: additionalProperties"
    return None


# --------------------------------------------------------------------------
# CEL of any shape, straight from the grammar
# --------------------------------------------------------------------------

IDENTS = ["inputs", "locals", "steps", "parent", "resource", "template", "a", "b", "_x", "value", "predicate", "map", "has",
          "int", "type", "prepare", "x9", "size", "all", "assert"]  # fmt: skip
LITERALS = ["1", "-1", "0", "9223372036854775807", "99999999999999999999", "0x1F", "-0x0a", "2u", "0x1Fu", "1.5", ".5", "1.", "-.5", "1e3", "1.5E-3",
            "1e999", "'a'", '"a"', "''", "r'\\d'", "R\"\\x\"", "'''a\nb'''", '"""q"""', "b'x'", "B\"y\"", "b'''z'''", "'\\n\\x41\\u00e9\\101'", "'é'",
            "true", "false", "null", "'inputs.a'", "'a.b'", "'\\U0001F600'", "'\\''", "'\\q'", "'//'"]  # fmt: skip
MACROS = ["all", "exists", "exists_one", "map", "filter", "reduce", "min", "has", "size", "get", "nosuch", "overlay", "startsWith"]
BINARY = ["+", "-", "*", "/", "%", "==", "!=", "<", "<=", ">", ">=", "in", "&&", "||"]


def expression(ch, depth):
    """Any expression the grammar derives."""
    if depth <= 0:
        return ch.pick(IDENTS) if ch.chance(60) else ch.pick(LITERALS)
    kind = ch.weighted(
        [("member", 10), ("primary", 8), ("binary", 6), ("unary", 2), ("cond", 2), ("comment", 1), ("spaced", 1)]
    )
    if kind == "member":
        return member(ch, depth)
    if kind == "primary":
        return primary(ch, depth)
    if kind == "binary":
        op = ch.pick(BINARY)
        return f"{expression(ch, depth - 1)} {op} {expression(ch, depth - 1)}"
    if kind == "unary":
        return ch.pick(["!", "-", "!!", "--", "-!", "!-"]) + member(ch, depth - 1)
    if kind == "cond":
        return f"({expression(ch, depth - 1)}) ? ({expression(ch, depth - 1)}) : {expression(ch, depth - 1)}"
    if kind == "comment":
        return f"{expression(ch, depth - 1)} // {ch.pick(IDENTS)}\n"
    return f" \t\n {expression(ch, depth - 1)}\f\r "


def arguments(ch, depth, most=3):
    return ", ".join(expression(ch, depth - 1) for _ in range(ch.int(0, most)))


def member(ch, depth):
    if depth <= 0:
        return primary(ch, 0)
    root = member(ch, depth - 1) if ch.chance(60) else primary(ch, depth - 1)
    kind = ch.weighted([("dot", 5), ("index", 5), ("call", 4), ("object", 2), ("macro", 2)])
    if kind == "dot":
        return f"{root}.{ch.pick(IDENTS)}"
    if kind == "index":
        return f"{root}[{expression(ch, depth - 1)}]"
    if kind == "call":
        return f"{root}.{ch.pick(MACROS)}({arguments(ch, depth)})"
    if kind == "object":
        fields = ", ".join(f"{ch.pick(IDENTS)}: {expression(ch, depth - 1)}" for _ in range(ch.int(0, 2)))
        return f"{root}{{{fields}}}"
    return f"{root}.{ch.pick(MACROS[:7])}({ch.pick(IDENTS)}, {expression(ch, depth - 1)})"


def primary(ch, depth):
    if depth <= 0:
        return ch.pick(IDENTS) if ch.chance(60) else ch.pick(LITERALS)
    kind = ch.weighted(
        [("ident", 4), ("literal", 4), ("paren", 4), ("list", 2), ("map", 2), ("call", 3), ("dot", 1), ("dotcall", 1)]
    )
    if kind == "ident":
        return ch.pick(IDENTS)
    if kind == "literal":
        return ch.pick(LITERALS)
    if kind == "paren":
        return f"({expression(ch, depth - 1)})"
    if kind == "list":
        return f"[{arguments(ch, depth)}]"
    if kind == "map":
        pairs = ", ".join(f"{expression(ch, depth - 1)}: {expression(ch, depth - 1)}" for _ in range(ch.int(0, 2)))
        return f"{{{pairs}}}"
    if kind == "call":
        return f"{ch.pick(MACROS + IDENTS)}({arguments(ch, depth)})"
    if kind == "dot":
        return f".{ch.pick(IDENTS)}"
    return f".{ch.pick(IDENTS)}({arguments(ch, depth)})"


def tower(ch, deep):
    """Long or deep, in one way."""
    n = ch.pick([30, 90] + ([250, 700] if deep else []))
    k = ch.below(12)
    if deep and ch.chance(2):
        n, k = 2600, ch.pick([0, 3, 8])
    return [
        lambda: "inputs" + ".a" * n,
        lambda: "inputs" + "[0]" * n,
        lambda: "(" * n + "inputs.a" + ")" * n,
        lambda: "a[" * n + "0" + "]" * n,
        lambda: " + ".join(["inputs.a"] * n),
        lambda: "!" * n + "inputs.a",
        lambda: "[" * n + "]" * n,
        lambda: "{'a': " * n + "1" + "}" * n,
        lambda: "inputs[" + "(" * n + "'a'" + ")" * n + "]",
        lambda: "inputs" + ".f()" * n,
        lambda: " && ".join(["inputs.a"] * n),
        lambda: "f(" * n + "inputs.a" + ")" * n,
    ][k]()


#: not expressions, or only just
TEXTS = ["", "=", "==", "= ", "=\n", '="', "='", "=\\", "=// x", "=1 // x", "1_000", "nan", "inf", "\u0000", "=\u0000", "\ud800", "=\ud800", "é", "=é",
         "=inputs.é", '"""', '"', "'", "\\", "a\\", 'a"', "=[", "=1)", "=1,2", "=a=b", "=a:b", "0x", "1e999", "-", "--1", "{{", "}", "{", "=}", "={", "${x}", "=inputs.", "=.a", "=a.b.c(",
         "=1;2", "=1 2", "=a..b", "=a[]", "=a[1", "=f(,)", "=[1,]", "={'a':1,}", "=in", "=for", "=a.in", "=a.for", "=0u", "=08", "=1u2", "=.5.", "=..", "=?", "=a?b", "=a?b:c?d:e", "=#", "=@",
         "=a # b", "\n", "\r\n", "a\nb", "=a\nb", "=\ta", "7", "-7.5", "1e5", "true", "null", "=true", "=null", " 7 ", "٣", "=٣", "\u2028", "=a\u2028b", "=\ufeffa", "=a\u200bb",
         "=\"\\u00\"", "='\\x1'", "=b'\\u0041'", "x" * 3000, "=" + "x" * 3000, "='" + "x" * 3000 + "'", "%s %d {} {0}", "=%", "{0}", "[a-", "(?P<", "=a.map()", "=a.map(b)",
         "=a.map(1, 2)", "=a.all(b.c, d)", "=a.filter(b)", "=has()", "=has(a)", "=has(a, b)", "=has(a[0])", "=dyn()", "=type(1)", "=a.reduce(b, c)", "=map", "=has", "=a{}", "=a.b{c:1}"]  # fmt: skip

NUMBERS = [0, 1, -1, 7, 2**31, 2**63 - 1, 2**63, -(2**63), -(2**63) - 1, 2**64, 10**40, 0.0, -0.0, 1.5, 1e300, 1e-300, 30.0, float("inf")]


TOKENS = ["true", "false", "null", "a", "inputs.a", "1", "1u", "1.5", "'x'", '"y"', "b'q'", "r''", ".", ",", "(", ")", "[", "]", "{", "}", ":", "?", "+", "-", "*", "/", "%", "<", "==", "!=", "&&", "||",
          "!", "in", "has(", "x.map(", "0x1F", "\\", "\n", "//", "\t", ";", "@", "é", "1.", ".5", "1e", "'u", "as", "for", "import"]  # fmt: skip
TOKEN = re.compile(r"\w+|\s+|'[^']*'|.", re.S)


def slip(ch):
    """An expression somebody mistyped, or words in any order."""
    if ch.chance(25):
        return (" " if ch.bool() else "").join(ch.pick(TOKENS) for _ in range(ch.int(1, 6)))
    words = TOKEN.findall(expression(ch, ch.int(0, 3)))
    for _ in range(ch.int(1, 2)):
        at = ch.below(len(words) + 1)
        how = ch.pick(["insert", "drop", "replace", "cut"])
        if how == "insert":
            words.insert(at, ch.pick([" ", ""]) + ch.pick(TOKENS))
        elif how == "drop":
            del words[at : at + 1]
        elif how == "replace":
            words[at : at + 1] = [ch.pick(TOKENS)]
        else:
            del words[at:]
    return "".join(words)


def text(ch, deep=False):
    k = ch.weighted([("cel", 10), ("plain", 4), ("text", 5), ("tower", 1), ("slip", 4)])
    if k == "slip":
        return "=" + slip(ch)
    if k == "cel":
        return "=" + expression(ch, ch.int(0, 4))
    if k == "plain":
        return ch.pick(["a", "some text", "inputs.a", "f0", "True", "x/y", "a'b"])
    if k == "text":
        return ch.pick(TEXTS)
    return "=" + tower(ch, deep)


KEYS = ["a", "b", "name", "apiVersion", "kind", "metadata", "namespace", "assert", "message", "delay", "", "a.b", "x/y", 'q"r', "s't", "é", "\n", "\\", "=inputs.a",
        "skipIf", "inputs", "overlay", "resource", "ok", "retry", "x-koreo-compare-as-set", "x-koreo-compare-last-applied", "1", "true", "null", "\ud800", "ownerReferences", "labels"]  # fmt: skip


def anything(ch, depth=3, deep=False):
    """Any JSON value."""
    kind = ch.weighted(
        [("text", 8), ("number", 3), ("bool", 2), ("null", 2), ("map", 5 if depth else 0), ("list", 3 if depth else 0), ("nest", 1 if deep else 0)]
    )
    if kind == "text":
        return text(ch, deep)
    if kind == "number":
        return ch.pick(NUMBERS)
    if kind == "bool":
        return ch.bool()
    if kind == "null":
        return None
    if kind == "map":
        return {ch.pick(KEYS): anything(ch, depth - 1, deep) for _ in range(ch.int(0, 3))}
    if kind == "list":
        return [anything(ch, depth - 1, deep) for _ in range(ch.int(0, 3))]
    return nest(ch)


def nest(ch):
    n = ch.pick([20, 150, 500, 820, 1100, 1200, 1240, 1300, 2600])
    out = ch.pick([1, "=inputs.a", "x", None])
    listed = ch.bool()
    for _ in range(n):
        out = [out] if listed else {"a": out}
    return out


# --------------------------------------------------------------------------
# specs
# --------------------------------------------------------------------------


class SpecGen:
    """`names(kind_of_referrer, kind)` gives the names that may be referenced."""

    def __init__(self, ch, names, sane=50):
        self.ch, self.names = ch, names
        self.sane = sane  # how often a free field is well behaved
        self.deep = ch.chance(12)
        self.sites: list = []  # (container, key, schema) of every schema-governed node

    def spec(self, kind):
        self.kind = kind
        self.sites = []
        root = {"spec": None}
        root["spec"] = self.value(schema_of(kind), ())
        self.find(root, "spec", schema_of(kind))
        return root

    def find(self, container, key, schema):
        self.sites.append((container, key, schema))
        value = container[key]
        if isinstance(value, dict):
            for sub, rule in schema.get("properties", {}).items():
                if sub in value:
                    self.find(value, sub, rule)
        elif isinstance(value, list) and "items" in schema:
            for i in range(len(value)):
                self.find(value, i, schema["items"])

    def value(self, schema, path):
        ch = self.ch
        kind = schema["type"]
        if "enum" in schema:
            return ch.pick(schema["enum"])
        if kind == "string":
            return self.string(schema, path)
        if kind == "boolean":
            return ch.bool()
        if kind == "integer":
            return ch.pick([1, 0, 30, -5, 30.0, 10**15, 2**63, 10**30]) if not ch.chance(self.sane) else ch.int(0, 60)
        if kind == "array":
            lo, hi = schema.get("minItems", 0), min(schema.get("maxItems", 4), 4)
            count = schema["maxItems"] if "maxItems" in schema and ch.chance(2) else ch.int(lo, hi)
            return [self.value(schema["items"], (*path, i)) for i in range(count)]
        assert kind == "object"
        if not schema.get("properties"):
            return self.free(schema, path)
        return self.record(schema, path)

    def record(self, schema, path):
        ch = self.ch
        props = schema["properties"]
        wanted = set(schema.get("required", ()))
        excluded = set()
        for many in ("oneOf", "anyOf"):
            options = [o["required"] for o in schema.get(many, ())]
            if options:
                chosen = ch.pick(options)
                wanted.update(chosen)
                if many == "oneOf":
                    excluded.update(k for o in options if o is not chosen for k in o)
        out = {}
        for key, sub in props.items():
            if key in wanted or (key not in excluded and ch.chance(45)):
                out[key] = self.value(sub, (*path, key))
        for key in sorted(wanted):
            if key not in props:
                out[key] = anything(ch, 2, self.deep)
        if ch.chance(6):
            key = ch.pick(KEYS)
            if key not in props:
                out[key] = nest(ch) if self.deep and ch.bool() else anything(ch, 2, self.deep)
        if self.kind == "FunctionTest" and len(path) >= 2 and path[-2] == "testCases":
            # more than one assertion is only rarely interesting
            held = [k for k in out if k.startswith("expect")]
            if len(held) > 1 and ch.chance(85):
                keep = ch.pick(held)
                for k in held:
                    if k != keep:
                        del out[k]
        if path and path[-1] in ("ref", "functionRef", "overlayRef") or (len(path) > 1 and path[-2] == "cases"):
            names = self.names(self.kind, out.get("kind"))
            out["name"] = ch.pick(names) if names and ch.chance(80) else "absent"
        return out

    def string(self, schema, path):
        ch = self.ch
        last = path[-1] if path else None
        if last == "label" and "minLength" in schema:
            return ch.pick(["aaa", "bbb", "ccc", "steps", "a-b-c", "   ", "=abc", "x" * 45, "<missing label>", "ééé"])
        if last in ("assert", "skipIf", "switchOn", "itemIn"):
            if ch.chance(self.sane):
                return ch.pick(["=inputs.a == 1", "=true", "=has(inputs.b)", "=parent.list", "=parent.s", "=[1, 2]", "='a'"])
            return text(ch, self.deep)
        if last == "case":
            return ch.pick(["a", "b", "c", "", "=x", "a"])
        if last == "apiVersion":
            return "sim.koreo.dev/v1" if ch.chance(60) else ch.pick(["v1", "", "a/b/c", "/", "a/", "/b", "apps/v1", "=x", "é/v1", ".", "a.b", "v1/"])
        if last == "kind":
            return "Widget" if ch.chance(60) else ch.pick(["", "Pod", "a/b", "Widget.sim.koreo.dev", "Widget.v1", ".", "a.b/c", "Widget.sim.koreo.dev/v1", "Deployment", "=x", "é", "a/b/c", "/", "x.y.z/v1/w"])
        if last == "plural":
            return ch.pick(["widgets", "", "=x", "a/b", "é"])
        if last == "inputKey":
            return ch.pick(["item", "", 'a"b', "=x", "é", "a.b"])
        if last in ("name", "namespace"):
            if ch.chance(self.sane):
                return ch.pick(["thing", "=inputs.name", "='x-' + inputs.a", "t0"])
            return text(ch, self.deep)
        if last in ("message", "type", "version", "apiGroup", "label"):
            out = ch.pick(["", "some text", "=inputs.a", 'q"r', "[1]", *TEXTS[:30]])
            return out[: schema.get("maxLength", len(out))]
        raise AssertionError(path)

    def free(self, schema, path):
        ch = self.ch
        last = path[-1]
        most = schema.get("maxProperties", 4)
        if most == 0:
            return {}
        if last in ("resource", "template", "currentResource", "expectResource", "overlayResource") and ch.chance(50):
            out = {"apiVersion": "sim.koreo.dev/v1", "kind": "Widget"}
            if ch.bool():
                out["metadata"] = ch.pick([{"name": "x"}, {}, "x", None, 7, ["a"], {"name": ["x"]}])
            for _ in range(ch.int(0, 2)):
                out[ch.pick(KEYS)] = anything(ch, 2, self.deep)
            return out
        if ch.chance(self.sane):
            pool = [{"a": 1}, {"a": "=inputs.a"}, {"a": {"b": "=inputs.b.c"}, "l": [1, "=inputs.a"]}, {}, {"x": "=steps.aaa.x"}, {"x": "=parent.x"}, {"name": "t0", "a": 1}]
            return clone(ch.pick(pool))
        return {ch.pick(KEYS): anything(ch, 3, self.deep) for _ in range(ch.int(0, min(4, most)))}

    # -- faults -----------------------------------------------------------------

    def break_rule(self, root):
        """Break one rule of the schema somewhere; the name of what was done."""
        ch = self.ch
        container, key, schema = ch.pick(self.sites)
        value = container[key]
        ways = ["type", "null"]
        if schema.get("required") and isinstance(value, dict):
            ways += ["required"] * 2
        if "enum" in schema:
            ways += ["enum"] * 2
        if "oneOf" in schema:
            ways += ["oneOf-none", "oneOf-two", "oneOf-two"]
        if "anyOf" in schema:
            ways += ["anyOf-none"] * 2
        ways += [r for r in ("minLength", "maxLength", "minItems", "maxItems", "maxProperties", "additionalProperties") if r in schema] * 3
        way = ch.pick(ways)
        if way == "type":
            container[key] = ch.pick([v for v in ({}, [], "x", 7, True, 1.5, "", 0, False, ["x"], {"a": 1}, [{}]) if not is_type(v, schema["type"])])
        elif way == "null":
            container[key] = None
        elif way == "required":
            value.pop(ch.pick(schema["required"]), None)
        elif way == "enum":
            container[key] = ch.pick(["", "Nope", schema["enum"][0].lower(), schema["enum"][0] + " ", "FunctionTest", "ResourceTemplate"])
        elif way in ("oneOf-none", "anyOf-none"):
            for option in schema[way[:5]]:
                for name in option["required"]:
                    value.pop(name, None)
        elif way == "oneOf-two":
            for option in schema["oneOf"]:
                for name in option["required"]:
                    if name not in value and ch.bool():
                        value[name] = self.value(schema["properties"][name], (key, name)) if name in schema["properties"] else {"message": "x"}
        elif way == "minLength":
            container[key] = "x" * (schema["minLength"] - 1)
        elif way == "maxLength":
            container[key] = "x" * (schema["maxLength"] + 1)
        elif way == "minItems":
            container[key] = []
        elif way == "maxItems":
            item = clone(value[0]) if value else self.value(schema["items"], (key, 0))
            container[key] = (value + [clone(item) for _ in range(schema["maxItems"] + 1)])[: schema["maxItems"] + 1]
        elif way == "maxProperties":
            container[key] = {**value, **{f"k{i}": i for i in range(schema["maxProperties"] + 1)}}
        elif way == "additionalProperties":
            container[key] = {"extra": 1}
        return way

    def confuse(self, root):
        """Replace, remove, repeat or add anything anywhere, also within what
        the schema does not govern."""
        ch = self.ch
        nodes = []

        def walk(container, key, left):
            nodes.append((container, key))
            value = container[key]
            if left:
                if isinstance(value, dict):
                    for k in value:
                        walk(value, k, left - 1)
                elif isinstance(value, list):
                    for i in range(min(len(value), 5)):
                        walk(value, i, left - 1)

        walk(root, "spec", 12)
        container, key = ch.pick(nodes)
        value = container[key]
        way = ch.pick(["replace", "remove", "repeat", "add", "nest", "wrap"])
        if way == "remove" and container is not root:
            del container[key]
        elif way == "repeat" and isinstance(value, list) and value:
            container[key] = value * ch.pick([2, 21, 30, 300])
        elif way == "add" and isinstance(value, dict):
            value[ch.pick(KEYS)] = anything(ch, 2, self.deep)
        elif way == "nest":
            container[key] = nest(ch)
        elif way == "wrap":
            container[key] = ch.pick([[value], {"a": value}, {"spec": value}])
        else:
            way = "replace"
            container[key] = anything(ch, 2, self.deep)
        return way
