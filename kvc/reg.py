"""Names of the functions of the crate, and the shape of a node."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mir import Crate
from values import *


class Lost(Exception):
    """a function the specification is about is not there"""


class Reg:
    def __init__(self, crate, shapes):
        self.crate, self.shapes = crate, shapes
        self.keys = {}
        self.bykey = {}
        for d, f in crate.fns.items():
            if f["kind"] == "Closure":
                continue
            k = self._key(f)
            self.keys[d] = k
            self.bykey.setdefault(k, []).append(f)

    def tname(self, i):
        t = self.crate.types[i]
        k = t["k"]
        if k == "adt":
            return t["def"].split("::")[-1]
        if k == "ref":
            return "&" + self.tname(t["elem"])
        return t["s"]

    def _key(self, f):
        n = f["name"]
        if f.get("impl") is not None:
            n = self.tname(f["impl"]) + "::" + n
            if f["name"] == "from" and f.get("body"):
                n += "(" + self.tname(f["body"]["locals"][1]["ty"]) + ")"
        elif f.get("trait"):
            n = f["trait"].split("::")[-1].split("<")[0] + "::" + n
        elif f["kind"] == "Fn":
            n = f["path"].split("::")[-1]
        else:
            n = f["path"]
        return n

    def key(self, f):
        return self.keys.get(f["def"], f["path"])

    def fn(self, key):
        l = [f for f in self.bykey.get(key, []) if f.get("body")]
        if len(l) != 1:
            raise Lost("%s (%d candidates)" % (key, len(l)))
        return l[0]

    def display(self, ty):
        """the Display implementation of a local type"""
        l = [f for f in self.bykey.get(ty + "::fmt", []) if f.get("body") and "core::fmt::Display" in f["path"]]
        if len(l) != 1:
            raise Lost("Display of " + ty)
        return l[0]

    def has(self, key):
        return len([f for f in self.bykey.get(key, []) if f.get("body")]) == 1

    def node_shape(self):
        if not hasattr(self, "_nsh"):
            i = self.type_of_adt("NodeImpl")
            self._nsh = self.shapes.of(i)
        return self._nsh

    def type_of_adt(self, last, full=None):
        """index of the generic instance (over the parameter T) of a local or known type"""
        c = []
        for i, t in enumerate(self.crate.types):
            if t["k"] == "adt" and t["def"].split("::")[-1] == last and (full is None or t["def"] == full):
                ok = all(isinstance(a, int) and self.crate.types[a]["k"] in ("param",) for a in t["args"])
                if ok:
                    c.append(i)
        if not c:
            raise Lost("type " + last)
        own = [i for i in c if self.crate.types[i]["def"].split("::")[0] == "k"]
        return (own or c)[0]

    def shape(self, last, full=None):
        return self.shapes.of(self.type_of_adt(last, full))
