"""A small JSON Schema (2020-12) validator for the keywords the exporter uses."""
KNOWN = {"$schema", "title", "type", "description", "properties", "required", "additionalProperties", "items", "minimum", "maximum",
         "enum", "default", "minItems", "maxItems"}


def is_type(v, t):
    if t == "object":
        return isinstance(v, dict)
    if t == "array":
        return isinstance(v, list)
    if t == "string":
        return isinstance(v, str)
    if t == "boolean":
        return isinstance(v, bool)
    if t == "number":
        return isinstance(v, (int, float)) and not isinstance(v, bool)
    if t == "integer":
        return not isinstance(v, bool) and (isinstance(v, int) or (isinstance(v, float) and v == int(v)))
    raise ValueError(f"type {t!r}")


def jeq(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(jeq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(jeq(a[k], b[k]) for k in a)
    num = (int, float)
    if isinstance(a, num) and isinstance(b, num):
        return a == b
    return type(a) is type(b) and a == b


def errors(s, v, path="$"):
    """All reasons why v does not validate against s."""
    out = []
    t = s.get("type")
    if t is not None and not any(is_type(v, x) for x in (t if isinstance(t, list) else [t])):
        out.append(f"{path}: not of type {t}")
    if "enum" in s and not any(jeq(v, e) for e in s["enum"]):
        out.append(f"{path}: not in enum")
    if is_type(v, "number"):
        if "minimum" in s and v < s["minimum"]:
            out.append(f"{path}: below minimum")
        if "maximum" in s and v > s["maximum"]:
            out.append(f"{path}: above maximum")
    if isinstance(v, list):
        if "items" in s:
            for i, x in enumerate(v):
                out += errors(s["items"], x, f"{path}[{i}]")
        if "minItems" in s and len(v) < s["minItems"]:
            out.append(f"{path}: too few items")
        if "maxItems" in s and len(v) > s["maxItems"]:
            out.append(f"{path}: too many items")
    if isinstance(v, dict):
        props = s.get("properties", {})
        for k, x in v.items():
            if k in props:
                out += errors(props[k], x, f"{path}.{k}")
            elif s.get("additionalProperties") is False:
                out.append(f"{path}: additional property {k}")
            elif isinstance(s.get("additionalProperties"), dict):
                out += errors(s["additionalProperties"], x, f"{path}.{k}")
        for k in s.get("required", []):
            if k not in v:
                out.append(f"{path}: {k} is required")
    return out
