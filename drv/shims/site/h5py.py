"""Stand-in for the part of h5py echidna uses: one pickled tree per file.

Follows h5py's rules where echidna depends on them: modes, existing names,
what can be an attribute, numpy scalars on reading, copies on writing.
"""
import os
import pickle
import numpy

__version__ = "2.10.0"
ATTR_LIMIT = 64 * 1024


def _encode(v):
    if isinstance(v, (str, bytes)):
        if len(v) >= ATTR_LIMIT:
            raise RuntimeError("Unable to create attribute (object header "
                               "message is too large)")
        return v
    a = numpy.asarray(v)
    if a.dtype.kind == "O":
        raise TypeError("Object dtype dtype('O') has no native HDF5 "
                        "equivalent")
    if a.dtype.kind == "U":
        if a.shape == ():
            return str(a)
        raise TypeError("No conversion path for dtype: %s" % a.dtype)
    if a.nbytes >= ATTR_LIMIT:
        raise RuntimeError("Unable to create attribute (object header "
                           "message is too large)")
    return a.copy()


class _Attrs(object):
    def __init__(self, node, f):
        self._node, self._f = node["attrs"], f

    def __setitem__(self, k, v):
        self._f._writable()
        self._node[k] = _encode(v)

    def __getitem__(self, k):
        self._f._open()
        if k not in self._node:
            raise KeyError("Can't open attribute (can't locate attribute: "
                           "'%s')" % k)
        v = self._node[k]
        if isinstance(v, numpy.ndarray):
            return v[()] if v.shape == () else v.copy()
        return v

    def __delitem__(self, k):
        self._f._writable()
        del self._node[k]

    def __contains__(self, k):
        return k in self._node

    def __iter__(self):
        return iter(sorted(self._node))

    def __len__(self):
        return len(self._node)

    def keys(self):
        return sorted(self._node)

    def items(self):
        return [(k, self[k]) for k in self.keys()]

    iteritems = items

    def get(self, k, d=None):
        return self[k] if k in self else d

    def create(self, k, v, **kw):
        self[k] = v

    modify = create


class Dataset(object):
    def __init__(self, node, f):
        self._node, self._f = node, f
        self.attrs = _Attrs(node, f)

    @property
    def value(self):
        return self[()]

    @property
    def shape(self):
        return self._node["data"].shape

    @property
    def dtype(self):
        return self._node["data"].dtype

    @property
    def size(self):
        return self._node["data"].size

    def __len__(self):
        return len(self._node["data"])

    def __getitem__(self, k):
        self._f._open()
        v = self._node["data"][k]
        return v.copy() if isinstance(v, numpy.ndarray) else v

    def __setitem__(self, k, v):
        self._f._writable()
        self._node["data"][k] = v

    def __array__(self, dtype=None, copy=None):
        return numpy.array(self._node["data"], dtype=dtype)


def _group():
    return {"attrs": {}, "kids": {}}


class Group(object):
    def __init__(self, node, f, name="/"):
        self._node, self._f, self.name = node, f, name
        self.attrs = _Attrs(node, f)

    def _find(self, path):
        self._f._open()
        node = self._node
        for part in [p for p in path.split("/") if p]:
            if part not in node.get("kids", {}):
                return None
            node = node["kids"][part]
        return node

    def _parent(self, path):
        parts = [p for p in path.split("/") if p]
        node = self._node
        for p in parts[:-1]:
            node = node["kids"].setdefault(p, _group())
        if parts[-1] in node["kids"]:
            raise ValueError("Unable to create '%s' (name already exists)"
                             % path)
        return node, parts[-1]

    def __getitem__(self, path):
        node = self._find(path)
        if node is None:
            raise KeyError("Unable to open object (object '%s' doesn't "
                           "exist)" % path)
        if "data" in node:
            return Dataset(node, self._f)
        return Group(node, self._f, path)

    def __contains__(self, path):
        return self._find(path) is not None

    def __delitem__(self, path):
        self._f._writable()
        if self._find(path) is None:
            raise KeyError("Couldn't delete link (can't locate '%s')" % path)
        parts = [p for p in path.split("/") if p]
        node = self._node
        for p in parts[:-1]:
            node = node["kids"][p]
        del node["kids"][parts[-1]]

    def __iter__(self):
        return iter(sorted(self._node["kids"]))

    def __len__(self):
        return len(self._node["kids"])

    def keys(self):
        self._f._open()
        return sorted(self._node["kids"])

    def values(self):
        return [self[k] for k in self.keys()]

    def items(self):
        return [(k, self[k]) for k in self.keys()]

    iteritems = items

    def get(self, k, d=None):
        return self[k] if k in self else d

    def create_group(self, name):
        self._f._writable()
        node, last = self._parent(name)
        node["kids"][last] = _group()
        return Group(node["kids"][last], self._f, name)

    def require_group(self, name):
        return self[name] if name in self else self.create_group(name)

    def create_dataset(self, name, shape=None, dtype=None, data=None,
                       compression=None, **kw):
        self._f._writable()
        if data is None:
            data = numpy.zeros(shape, dtype=dtype or "f")
        a = numpy.array(data, dtype=dtype)
        if a.dtype.kind == "O":
            raise TypeError("Object dtype dtype('O') has no native HDF5 "
                            "equivalent")
        if compression is not None and a.shape == ():
            raise TypeError("Scalar datasets don't support chunk/filter "
                            "options")
        node, last = self._parent(name)
        node["kids"][last] = {"attrs": {}, "data": a}
        return Dataset(node["kids"][last], self._f)


escaped = []        # files asked for outside the scratch directory


def _contained(name):
    root = os.environ.get("VT_CWD")
    if root and not (os.path.realpath(name) + os.sep).startswith(
            os.path.realpath(root) + os.sep):
        escaped.append(os.path.realpath(name))
        raise IOError("Unable to create file (outside the scratch directory)")


class File(Group):
    def __init__(self, name, mode="a", **kw):
        self.filename, self.mode = name, mode
        self._alive = True
        if mode != "r":
            _contained(name)
        if mode in ("r", "r+"):
            if not os.path.isfile(name):
                raise IOError("Unable to open file (unable to open file: "
                              "name = '%s')" % name)
            tree = self._read(name)
        elif mode == "w":
            tree = _group()
        elif mode in ("w-", "x"):
            if os.path.exists(name):
                raise IOError("Unable to create file (file exists)")
            tree = _group()
        elif mode == "a":
            tree = self._read(name) if os.path.isfile(name) else _group()
        else:
            raise ValueError("Invalid mode; must be one of r, r+, w, w-, x, a")
        super(File, self).__init__(tree, self)
        if mode != "r":
            self.flush()

    @staticmethod
    def _read(name):
        try:
            with open(name, "rb") as f:
                return pickle.load(f)
        except Exception:
            raise IOError("Unable to open file (file signature not found)")

    def _open(self):
        if not self._alive:
            raise ValueError("Not a location (invalid object ID)")

    def _writable(self):
        self._open()
        if self.mode == "r":
            raise ValueError("Unable to create (no write intent on file)")

    def flush(self):
        if self.mode != "r":
            with open(self.filename, "wb") as f:
                pickle.dump(self._node, f, protocol=4)

    def close(self):
        if self._alive:
            self.flush()
            self._alive = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
