"""Mechanical extraction of the functions under verification from the tree."""
import ast
import hashlib
import os

from .core import ClassV, FuncV, ModV, ExtV, Unsupported


class Program:
    """The modules of the package as parsed from the source tree, on every run."""

    def __init__(self, root, package="dsari"):
        self.root, self.package = root, package
        self.mods = {}
        self.names = {}
        self.sha = {}
        d = os.path.join(root, package)
        for fn in sorted(os.listdir(d)):
            if not fn.endswith(".py"):
                continue
            with open(os.path.join(d, fn), encoding="utf-8") as f:
                src = f.read()
            m = package if fn == "__init__.py" else package + "." + fn[:-3]
            self.sha[m] = hashlib.sha256(src.encode()).hexdigest()
            self.mods[m] = ast.parse(src)
        for m, tree in self.mods.items():
            self.names[m] = {}
            self._scan(m, tree.body, self.names[m])

    def _scan(self, m, body, out, cond=False):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                out[n.name] = FuncV(n, m, qual=m + "." + n.name)
            elif isinstance(n, ast.ClassDef):
                out[n.name] = ClassV(m, n.name, n)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        out[a.asname] = ModV(a.name, cond or True)
                    else:
                        out[a.name.split(".")[0]] = ModV(a.name.split(".")[0], cond or True)
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    base = self.package + ("." + base if base else "")
                for a in n.names:
                    out[a.asname or a.name] = ("from", base, a.name, cond)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        out[t.id] = ("expr", n.value) if not cond else ("cond", t.id)
            elif isinstance(n, ast.Try):
                # try: import X except ImportError as e: X = e
                opt = any(isinstance(x, (ast.Import, ast.ImportFrom)) for x in n.body)
                self._scan(m, n.body, out, cond="opt" if opt else cond)
            elif isinstance(n, ast.If):
                if isinstance(n.test, ast.Compare) and isinstance(n.test.left, ast.Name) \
                        and n.test.left.id == "__name__":
                    continue
                self._scan(m, n.body, out, cond=True)
                self._scan(m, n.orelse, out, cond=True)

    def is_mod(self, name):
        return name in self.mods

    def lookup(self, mod, name):
        v = self.names.get(mod, {}).get(name)
        return v

    def find(self, qual):
        """The FuncV of a dotted name module[.class].function, or None."""
        parts = qual.split(".")
        for i in range(len(parts) - 1, 0, -1):
            m = ".".join(parts[:i])
            if m in self.mods:
                rest = parts[i:]
                v = self.names[m].get(rest[0])
                if len(rest) == 1:
                    return v if isinstance(v, FuncV) else None
                if isinstance(v, ClassV):
                    return self.method(v, rest[1])
        return None

    def method(self, cls, name):
        """A method of a class or of its bases in the program."""
        for n in cls.node.body:
            if isinstance(n, ast.FunctionDef) and n.name == name:
                f = FuncV(n, cls.mod, qual="%s.%s.%s" % (cls.mod, cls.name, name), cls=cls)
                f.decorators = [ast.unparse(d) for d in n.decorator_list]
                return f
        for b in self.bases(cls):
            f = self.method(b, name)
            if f is not None:
                return f
        return None

    def bases(self, cls):
        out = []
        for b in cls.node.bases:
            if isinstance(b, ast.Name):
                v = self.names[cls.mod].get(b.id)
                if isinstance(v, ClassV):
                    out.append(v)
        return out

    def class_attr(self, cls, name):
        for n in cls.node.body:
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        return n.value
        for b in self.bases(cls):
            v = self.class_attr(b, name)
            if v is not None:
                return v
        return None

    def is_subclass(self, a, b):
        return a == b or any(self.is_subclass(x, b) for x in self.bases(a))

    def native_base(self, cls):
        """Name of the first base class which is not in the program."""
        for b in cls.node.bases:
            if isinstance(b, ast.Name):
                v = self.names[cls.mod].get(b.id)
                if isinstance(v, ClassV):
                    r = self.native_base(v)
                    if r:
                        return r
                else:
                    return b.id
            else:
                return ast.unparse(b)
        return None
