"""Comparing what a party received in two runs (self-composition)."""
import numpy as real_np
from checks.c06 import Cipher
from checks.boost import GhostKey, GhostPublic


def flat(x, path="", opaque=True, out=None, depth=0):
    """[(path, leaf)] of a payload; ciphertexts are opaque (host side) or their content (guest side, which has the key)"""
    out = [] if out is None else out
    if depth > 14:
        return out
    t = type(x)
    if t is Cipher:
        if opaque:
            out.append((path, "<ciphertext>"))
        else:
            flat(x.v, path + ".plain", opaque, out, depth + 1)
    elif t is GhostKey:
        out.append((path, "<private key>"))
    elif t is GhostPublic:
        out.append((path, "<public key>"))
    elif hasattr(t, "DESCRIPTOR") and hasattr(x, "CopyFrom"):
        out.append((path, t.DESCRIPTOR.name))
        for n in sorted(t.DESCRIPTOR.fields_by_name):
            flat(getattr(x, n), "%s.%s" % (path, n), opaque, out, depth + 1)
    elif isinstance(x, dict) or (hasattr(x, "items") and hasattr(x, "keys")):
        out.append((path, "dict%d" % len(x)))
        for i, (k, v) in enumerate(x.items()):
            flat(k, "%s.key" % path, opaque, out, depth + 1)
            flat(v, "%s[]" % path, opaque, out, depth + 1)
    elif isinstance(x, (list, tuple, set, frozenset)) or (hasattr(x, "append") and hasattr(x, "extend")):
        out.append((path, "%s%d" % (t.__name__, len(x))))
        for v in x:
            flat(v, path + "[]", opaque, out, depth + 1)
    elif isinstance(x, real_np.ndarray):
        out.append((path, "array%s" % (x.shape,)))
        for v in x.ravel():
            flat(v, path + "[]", opaque, out, depth + 1)
    elif x is None or isinstance(x, (str, bytes, bool, int, float)) or t.__module__.startswith("symx") or isinstance(x, real_np.generic):
        out.append((path, x))
    elif hasattr(x, "__dict__"):
        out.append((path, t.__name__))
        for k in sorted(vars(x)):
            flat(vars(x)[k], "%s.%s" % (path, k.split("__")[-1]), opaque, out, depth + 1)
    else:
        out.append((path, x))
    return out


def messages(log, to=None, sender=None):
    return [p for a, b, p in log if (to is None or b == to) and (sender is None or a == sender)]


def same(h, a, b, what, key, opaque=True):
    """two message sequences are the same"""
    if len(a) != len(b):
        h.check(False, "%s: the number of messages is the same" % what, key + "-count")
        return
    for n, (x, y) in enumerate(zip(a, b)):
        fx, fy = flat(x, "", opaque), flat(y, "", opaque)
        if len(fx) != len(fy):
            h.check(False, "%s: message %d has the same shape" % (what, n), key + "-shape")
            continue
        for (p, u), (q, v) in zip(fx, fy):
            if u is v:
                continue
            if u is None or v is None or isinstance(u, str) != isinstance(v, str) or p != q:
                h.check(False, "%s: message %d%s is the same" % (what, n, p), key)
                continue
            try:
                r = u == v
            except Exception:
                r = False
            if not h.symbolic and isinstance(u, float) and isinstance(v, float):
                r = abs(u - v) <= 1e-9
            h.check(r, "%s: message %d%s is the same" % (what, n, p), key)


def holds_key(log):
    return any(leaf == "<private key>" for _, _, p in log for _, leaf in flat(p) if isinstance(leaf, str))
