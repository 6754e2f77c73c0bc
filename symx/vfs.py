"""Files and folders of a symbolic run; names may be symbolic text."""
import os

from .loader import ModProxy
from .stubs import sym_fnmatch
from . import strs

FILES = []         # [path, content]
DIRS = []


def reset():
    del FILES[:], DIRS[:]


def get(path):
    for f in FILES:
        if len(f[0]) == len(path) and bool(f[0] == path):
            return f
    return None


def put(path, content):
    f = get(path)
    if f is None:
        FILES.append([path, content])
    else:
        f[1] = content
    makedirs(P.dirname(path))


def isfile(path):
    return get(path) is not None


def isdir(path):
    return any(len(d) == len(path) and bool(d == path) for d in DIRS)


def makedirs(path, mode=0o777, exist_ok=False):
    if isdir(path):
        if not exist_ok and False:
            raise FileExistsError(path)
        return
    DIRS.append(path)
    up = P.dirname(path)
    if len(up) < len(path):
        makedirs(up, exist_ok=True)


def listdir(path):
    out = []
    for p in [f[0] for f in FILES] + DIRS:
        if len(p) > len(path) and bool(P.dirname(p) == path):
            out.append(P.basename(p))
    return out


def remove(path):
    f = get(path)
    if f is None:
        raise FileNotFoundError(path)
    FILES.remove(f)


def split(path):
    return [c for c in strs.meth(path, 'split', ('/',), {}) if len(c)]


def glob(pattern, **k):
    pat = split(pattern)
    out = []
    for p in [f[0] for f in FILES] + DIRS:
        c = split(p)
        if len(c) == len(pat) and all(
                bool(sym_fnmatch(a, b)) for a, b in zip(c, pat)):
            out.append(p)
    return out


P = strs.ospath()
P.isfile, P.isdir = isfile, isdir
P.exists = lambda p: isfile(p) or isdir(p)


def over():
    import glob as g
    o = {'os.path': P, 'os': ModProxy(os, {
        'path': P, 'makedirs': makedirs, 'listdir': listdir,
        'remove': remove, 'mkdir': makedirs, 'sep': '/'}),
        'glob': ModProxy(g, {'glob': glob})}
    o['os'].__dict__['reset'] = reset
    return o
