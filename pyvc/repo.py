"""Loading the real source of /repo: modules, classes, functions (re-read on every run)."""
import ast
import builtins
import os

from .core import VLib, VFunc, VModule, Unsupported

ROOT = os.environ.get("VALORI_SRC", "/repo/src/valori")


class ClassInfo:
    def __init__(self, name, mod, node):
        self.name, self.mod, self.node = name, mod, node
        self.methods, self.attrs = {}, {}
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[st.name] = st
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
                self.attrs[st.target.id] = st.value

    @property
    def qual(self):
        return self.mod.name + "." + self.name

    def bases(self):
        out = []
        for b in self.node.bases:
            v = self.mod.repo.static(self.mod, b)
            out.append(v)
        return out

    def mro(self):
        out = [self]
        for b in self.bases():
            if isinstance(b, ClassInfo):
                out += [c for c in b.mro() if c not in out]
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c, c.methods[name]
        return None, None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None, None

    def lib_bases(self):
        out = []
        for c in self.mro():
            for b in c.bases():
                if isinstance(b, VLib):
                    out.append(b.name)
        return out

    def is_sub(self, other):
        """other: ClassInfo or builtin exception name."""
        if isinstance(other, ClassInfo):
            return any(c.qual == other.qual for c in self.mro())
        for b in self.lib_bases():
            o, bb = getattr(builtins, other.split(".")[-1], None), getattr(builtins, b.split(".")[-1], None)
            if isinstance(o, type) and isinstance(bb, type) and issubclass(bb, o):
                return True
        return False

    def is_exception(self):
        return self.is_sub("BaseException")


class Mod:
    def __init__(self, repo, name, path):
        self.repo, self.name, self.path = repo, name, path
        with open(path, "r", encoding="utf-8") as f:
            self.src = f.read()
        self.tree = ast.parse(self.src)
        self.is_pkg = path.endswith("__init__.py")
        self.defs = {}
        self.cache = {}
        self._scan(self.tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.defs[st.name] = ("func", st)
            elif isinstance(st, ast.ClassDef):
                self.defs[st.name] = ("class", st)
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                for nm, d in import_bindings(self, st):
                    self.defs[nm] = ("import", d)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = ("expr", st.value)
            elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
                self.defs[st.target.id] = ("expr", st.value)
            elif isinstance(st, ast.Try):
                self._scan(st.body)
                for h in st.handlers:
                    self._scan([x for x in h.body if isinstance(x, ast.Assign) and False])
            elif isinstance(st, ast.If):
                self._scan(st.body)


def import_bindings(mod, st):
    out = []
    if isinstance(st, ast.Import):
        for a in st.names:
            if a.asname:
                out.append((a.asname, a.name))
            else:
                out.append((a.name.split(".")[0], a.name.split(".")[0]))
    else:
        base = st.module or ""
        if st.level:
            pk = mod.name.split(".")
            if not mod.is_pkg:
                pk = pk[:-1]
            pk = pk[:len(pk) - (st.level - 1)]
            base = ".".join(pk + ([base] if base else []))
        for a in st.names:
            out.append((a.asname or a.name, base + "." + a.name))
    return out


class Repo:
    def __init__(self, root=None):
        self.root = root or ROOT
        self.mods = {}
        self.classes = {}

    def path(self, name):
        if name == "valori":
            return os.path.join(self.root, "__init__.py")
        if not name.startswith("valori."):
            return None
        p = os.path.join(self.root, *name.split(".")[1:])
        if os.path.isfile(p + ".py"):
            return p + ".py"
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        return None

    def mod(self, name):
        if name not in self.mods:
            p = self.path(name)
            if p is None:
                raise Unsupported("module %s not found" % name)
            self.mods[name] = Mod(self, name, p)
        return self.mods[name]

    def dotted(self, name):
        """Entity for a dotted import target."""
        if self.path(name):
            return VModule(self.mod(name))
        if "." in name:
            m, a = name.rsplit(".", 1)
            if self.path(m):
                return self.lookup(self.mod(m), a)
        return VLib(name)

    def cls(self, dotted):
        v = self.dotted(dotted)
        if not isinstance(v, ClassInfo):
            raise Unsupported("class %s not found" % dotted)
        return v

    def lookup(self, mod, name):
        """Module-level name -> ClassInfo / VFunc / VLib / VModule / ('expr', node, mod) / None."""
        if name in mod.cache:
            return mod.cache[name]
        d = mod.defs.get(name)
        if d is None:
            return None
        if d[0] == "func":
            v = VFunc(d[1], mod)
        elif d[0] == "class":
            v = ClassInfo(name, mod, d[1])
        elif d[0] == "import":
            v = self.dotted(d[1])
        else:
            v = ("expr", d[1], mod)
        mod.cache[name] = v
        return v

    def static(self, mod, node):
        if isinstance(node, ast.Name):
            v = self.lookup(mod, node.id)
            return v if v is not None else VLib("builtins." + node.id)
        if isinstance(node, ast.Attribute):
            b = self.static(mod, node.value)
            if isinstance(b, VLib):
                return VLib(b.name + "." + node.attr)
            if isinstance(b, VModule):
                return self.lookup(b.mod, node.attr)
        return VLib("?")
