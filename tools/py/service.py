"""Runs small programs against the Python package of the repository, one JSON string per line.

usage: service.py PACKAGE_COPY STUBS.  The programs set `result` to an array; the answer is
"OK" and its bits as hexadecimal words, or "EXC" and the kind of exception."""
import json
import os
import sys

out = os.fdopen(os.dup(1), "w")
os.dup2(os.open(os.devnull, os.O_WRONLY), 1)     # the package and the library print
sys.path[:0] = [sys.argv[1]]
try:
    import sklearn                              # noqa: F401
except ImportError:
    sys.path.append(sys.argv[2])
import numpy as np                              # noqa: E402

try:
    from bitboost.bitboost import RawBitBoost   # noqa: E402
    import bitboost                             # noqa: E402
except Exception as e:
    out.write("IMPORT %r\n" % e)
    out.flush()
    sys.exit(0)


def f32(words):
    return np.array(words, dtype=np.uint32).view(np.float32)


def mat(n, words):
    """n rows, given column by column."""
    return np.ascontiguousarray(f32(words).reshape(-1, n).T)


def layout(a, kind):
    """The same numbers in another array."""
    if kind == "C":
        return np.ascontiguousarray(a)
    if kind == "F":
        return np.asfortranarray(a)
    if kind == "strided":
        b = np.full(tuple(3 * s + 1 for s in a.shape), 77, dtype=a.dtype)
        v = b[tuple(slice(1, None, 3) for _ in a.shape)]
        v[...] = a
        return v
    if kind == "reversed":
        return np.ascontiguousarray(a[::-1])[::-1]
    if kind == "mirrored":
        i = tuple(slice(None, None, -1) for _ in a.shape)
        return np.ascontiguousarray(a[i])[i]
    if kind == "readonly":
        b = a.copy()
        b.flags.writeable = False
        return b
    if kind == "unaligned":
        raw = np.zeros(a.nbytes + 1, dtype=np.uint8)
        v = raw[1:].view(a.dtype).reshape(a.shape)
        v[...] = a
        return v
    if kind == "swapped":
        return a.astype(a.dtype.newbyteorder(">"))
    if kind == "list":
        return a.tolist()
    if kind == "tuple":
        return tuple(map(tuple, a.tolist())) if a.ndim == 2 else tuple(a.tolist())
    return a.astype(kind)


objs = {}
out.write("READY\n")
out.flush()
for line in sys.stdin:
    env = dict(np=np, f32=f32, mat=mat, layout=layout, Raw=RawBitBoost, bb=bitboost, objs=objs, result=None)
    try:
        exec(json.loads(line), env)
        r = env["result"]
        if r is None:
            ans = "OK"
        elif isinstance(r, str):
            ans = "TXT " + r.replace("\n", " ")
        else:
            r = np.asarray(r)
            ans = "OK " + " ".join("%x" % w for w in np.ascontiguousarray(r, dtype=np.float32).view(np.uint32).ravel())
            if r.dtype != np.float32 or r.ndim != 1:
                ans = "ODD %s %s" % (r.dtype, r.shape)
    except Exception as e:
        ans = "EXC " + type(e).__name__ + " " + str(e).replace("\n", " ")[:200]
    out.write(ans + "\n")
    out.flush()
