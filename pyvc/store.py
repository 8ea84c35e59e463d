"""The data files a run can see: the user's data directory and the remote registry (a file system as a finite map)."""
from .values import Arr, Obj, PathV, PDict, PyExc, SStr, Unsupported, new_arr, same

USER, CACHE = "<user_data>/", "<cache>/"


class Store:
    """files: tuple of (path, contents); contents an array (its function at the time of writing) or a dict of arrays"""

    def __init__(self, it):
        self.it = it
        self.o = Obj("store", {"files": (), "registry": (), "loads": 0, "saves": 0})

    def _set(self, k, v):
        self.it.set_field(self.o, k, v)

    @staticmethod
    def freeze(v):
        if isinstance(v, dict):
            return {k: Store.freeze(x) for k, x in v.items()}
        if not isinstance(v, Arr):
            raise Unsupported(f"saving a {type(v).__name__}")
        return (v.fn(), v.shape, v.dt)

    def thaw(self, c):
        if isinstance(c, dict):
            return PDict({k: self.thaw(x) for k, x in c.items()})
        g, sh, dt = c
        return new_arr(sh, dt, g)

    def find(self, it, path):
        s = path.s if isinstance(path, PathV) else path
        if s is None:
            raise PyExc("TypeError", ("expected str, bytes or os.PathLike object, not NoneType",))
        for k, c in reversed(self.o.f["files"]):
            if it.decide(same(k, s)):
                return c
        return None

    def put(self, path, value):
        self._set("files", self.o.f["files"] + ((path, self.freeze(value)),))

    def register(self, name, value):
        p = SStr.cat(CACHE, name)
        self._set("registry", self.o.f["registry"] + (name,))
        self.put(p, value)
        return PathV(p)

    # used by the models
    def load(self, it, path):
        c = self.find(it, path)
        if c is None:
            raise PyExc("FileNotFoundError", ("no such file",))
        if isinstance(c, dict):
            raise Unsupported("np.load of a MATLAB file")
        return self.thaw(c)

    def loadmat(self, it, path):
        c = self.find(it, path)
        if c is None:
            raise PyExc("FileNotFoundError", ("no such file",))
        return self.thaw(c)

    def save(self, it, path, value):
        s = path.s if isinstance(path, PathV) else path
        last = SStr.of(s)[-1]
        if not (isinstance(last, str) and last.endswith(".npy")):
            s = SStr.cat(s, ".npy")
        if not isinstance(value, Arr):
            value = self.it.models._asnp_arr(value)
        self._set("saves", self.o.f["saves"] + 1)
        self.put(s, value)

    def exists(self, it, path):
        return self.find(it, path) is not None

    def in_registry(self, it, name):
        for k in self.o.f["registry"]:
            if it.decide(same(k, name)):
                return True
        return False
