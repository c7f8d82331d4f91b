"""A small JSON schema (draft 7) validator, independent of the one grazer uses. Returns the first violation as text, or None."""
import re

TYPES = {"object": dict, "array": list, "string": str, "boolean": bool, "null": type(None)}
KNOWN = {"$schema", "description", "title", "default", "format", "type", "properties", "additionalProperties", "patternProperties", "required", "items", "minItems", "maxItems", "minimum", "maximum",
         "exclusiveMinimum", "exclusiveMaximum", "oneOf", "anyOf", "allOf", "not", "contains", "pattern", "enum", "const", "minLength", "examples"}


class Unknown(Exception):
    pass


def is_type(v, t):
    if t in ("number", "integer"):
        return isinstance(v, (int, float)) and not isinstance(v, bool) and (t == "number" or v == int(v))
    return isinstance(v, TYPES[t])


def fault(v, s, at=""):
    if s is True or s == {}:
        return None
    if s is False:
        return at + ": not allowed"
    if set(s) - KNOWN:
        raise Unknown(sorted(set(s) - KNOWN))
    t = s.get("type")
    if t is not None and not any(is_type(v, x) for x in (t if isinstance(t, list) else [t])):
        return "%s: %r is not %s" % (at, str(v)[:40], t)
    if "enum" in s and v not in s["enum"] or "const" in s and v != s["const"]:
        return "%s: %r is none of the allowed values" % (at, v)
    if is_type(v, "number"):
        if v < s.get("minimum", v) or v > s.get("maximum", v) or "exclusiveMinimum" in s and v <= s["exclusiveMinimum"] or "exclusiveMaximum" in s and v >= s["exclusiveMaximum"]:
            return "%s: %r out of range" % (at, v)
    if isinstance(v, str) and ("pattern" in s and not re.search(s["pattern"], v) or len(v) < s.get("minLength", 0)):
        return "%s: %r does not match %s" % (at, v, s.get("pattern"))
    if isinstance(v, list):
        if len(v) < s.get("minItems", 0) or len(v) > s.get("maxItems", len(v)):
            return "%s: %d items" % (at, len(v))
        it = s.get("items", True)
        for i, x in enumerate(v):
            r = fault(x, (it[i] if i < len(it) else True) if isinstance(it, list) else it, "%s/%d" % (at, i))
            if r:
                return r
        if "contains" in s and all(fault(x, s["contains"]) for x in v):
            return "%s: contains none of the required kind" % at
    if isinstance(v, dict):
        for k in s.get("required", []):
            if k not in v:
                return "%s: %s is required" % (at, k)
        for k, x in v.items():
            subs = [s["properties"][k]] if k in s.get("properties", {}) else []
            subs += [p for r, p in s.get("patternProperties", {}).items() if re.search(r, k)]
            for p in subs or [s.get("additionalProperties", True)]:
                r = fault(x, p, at + "/" + k)
                if r:
                    return r
    for p in s.get("allOf", []):
        r = fault(v, p, at)
        if r:
            return r
    if "anyOf" in s and all(fault(v, p, at) for p in s["anyOf"]):
        return at + ": none of anyOf"
    if "oneOf" in s and sum(not fault(v, p, at) for p in s["oneOf"]) != 1:
        return at + ": not exactly one of oneOf"
    if "not" in s and not fault(v, s["not"], at):
        return at + ": matches what is excluded"
    return None
