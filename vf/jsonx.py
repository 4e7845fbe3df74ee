"""Strict RFC 8259 reading of the library's output (bytes above 0x7f are opaque)."""
import json


class Bad(Exception):
    pass


def _const(x):
    raise Bad("constant " + x)


def _pairs(p):
    d = {}
    for k, v in p:
        if k in d:
            raise Bad("duplicate key " + k)
        d[k] = v
    return d


def strict(text):
    try:
        return json.loads(text, strict=True, parse_constant=_const, object_pairs_hook=_pairs)
    except (ValueError, RecursionError) as e:
        raise Bad(str(e))
