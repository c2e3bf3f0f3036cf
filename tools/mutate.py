"""Mutation generator for pyvallocation.  mutate.py OUT.jsonl [seed]

Writes one JSON line per mutant: file, line, function, operator, start/end offset, new text.  Only expressions and
statements inside function bodies are changed; messages, logging and docstrings are left alone.
"""
import ast, json, os, random, sys
ROOT = os.environ.get("PVT_REPO", "/repo") + "/pyvallocation/"
SWAP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Eq: ["!="], ast.NotEq: ["=="],
        ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: ("+", ["-"]), ast.Sub: ("-", ["+"]), ast.Mult: ("*", ["/"]), ast.Div: ("/", ["*"]), ast.Pow: ("**", ["*"]),
       ast.FloorDiv: ("//", ["/"]), ast.Mod: ("%", ["//"])}
CALL = {"min": ["max"], "max": ["min"], "minimum": ["maximum"], "maximum": ["minimum"], "any": ["all"], "all": ["any"],
        "sum": ["mean"], "mean": ["sum", "median"], "floor": ["ceil", "round"], "ceil": ["floor"], "argmin": ["argmax"], "argmax": ["argmin"],
        "zeros": ["ones"], "ones": ["zeros"], "vstack": ["hstack"], "var": ["std"], "std": ["var"], "nanmin": ["nanmax"],
        "pinv": ["inv"], "cumsum": ["cumprod"], "exp": ["expm1"], "log": ["log1p"], "log1p": ["log"], "expm1": ["exp"],
        "zeros_like": ["ones_like"], "quantile": ["median"], "prod": ["sum"]}
IDENT = {"sqrt", "abs", "copy", "sort", "cumsum", "clip", "maximum", "minimum", "log1p", "expm1", "ravel", "reindex", "cummax", "square"}


class V(ast.NodeVisitor):
    def __init__(self, src, rel):
        self.src, self.rel, self.out, self.fn = src, rel, [], []
        self.off = [0]
        for l in src.split("\n"):
            self.off.append(self.off[-1] + len(l.encode()) + 1)
        self.b = src.encode()

    def pos(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, z = self.pos(n)
        return self.b[a:z].decode()

    def add(self, node, op, new, a=None, z=None):
        if a is None:
            a, z = self.pos(node)
        if self.b[a:z].decode() != new:
            self.out.append(dict(file=self.rel, line=node.lineno, fn=".".join(self.fn), op=op, a=a, z=z,
                                 old=self.b[a:z].decode(), new=new))

    def between(self, l, r, sym, new, node, op):
        a, z = self.pos(l)[1], self.pos(r)[0]
        t = self.b[a:z].decode()
        if t.count(sym) == 1:
            self.add(node, op, t.replace(sym, new), a, z)

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        if n.name not in ("__repr__", "__str__") and not n.name.startswith("test"):
            for d in n.args.defaults + [k for k in n.args.kw_defaults if k is not None]:
                if isinstance(d, ast.Constant) and d.value is not None:
                    self.visit(d)
            self.block(n.body)
        self.fn.pop()

    def visit_ClassDef(self, n):
        self.fn.append(n.name)
        for s in n.body:
            if isinstance(s, ast.FunctionDef):
                self.visit(s)
        self.fn.pop()

    def block(self, body):
        for s in body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if self.noise(s):
                continue
            if isinstance(s, (ast.AugAssign,)) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call)) or isinstance(s, (ast.Continue, ast.Break)):
                self.add(s, "drop-stmt", "pass")
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], (ast.Subscript, ast.Attribute)):
                self.add(s, "drop-stmt", "pass")
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and any(isinstance(x, ast.Name) and x.id == s.targets[0].id for x in ast.walk(s.value)):
                self.add(s, "drop-stmt", "pass")
            self.visit(s)

    def noise(self, s):
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            t = self.text(s.value.func)
            return "logger" in t or "warn" in t or t == "print" or "logging" in t
        return False

    def visit_If(self, n):
        self.add(n.test, "cond-true", "True")
        self.add(n.test, "cond-false", "False")
        self.visit(n.test)
        self.block(n.body)
        self.block(n.orelse)

    def visit_For(self, n):
        self.visit(n.iter)
        self.block(n.body)
        self.block(n.orelse)

    def visit_While(self, n):
        self.visit(n.test)
        self.block(n.body)

    def visit_With(self, n):
        self.block(n.body)

    def visit_Try(self, n):
        self.block(n.body)
        for h in n.handlers:
            self.block(h.body)
        self.block(n.orelse)
        self.block(n.finalbody)

    def visit_IfExp(self, n):
        self.add(n, "ifexp-body", "(" + self.text(n.body) + ")")
        self.add(n, "ifexp-else", "(" + self.text(n.orelse) + ")")
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            for new in SWAP[type(n.ops[0])]:
                l, r = n.left, n.comparators[0]
                a, z = self.pos(l)[1], self.pos(r)[0]
                t = self.b[a:z].decode()
                if "(" not in t and ")" not in t:
                    self.add(n, "compare", " " + new + " ", a, z)
        self.generic_visit(n)

    def visit_BinOp(self, n):
        k = BIN.get(type(n.op))
        if k and not isinstance(n.left, (ast.JoinedStr,)) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            for new in k[1]:
                self.between(n.left, n.right, k[0], new, n, "binop")
            if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
                self.add(n, "drop-operand", "(" + self.text(n.left) + ")")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        sym, new = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
        self.between(n.values[0], n.values[1], sym, new, n, "boolop")
        for i, v in enumerate(n.values):
            if len(n.values) == 2:
                self.add(n, "boolop-drop", "(" + self.text(n.values[1 - i]) + ")")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.USub, ast.Not)) and not (isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant) and False):
            self.add(n, "unary", "(" + self.text(n.operand) + ")")
        self.visit(n.operand) if not isinstance(n.operand, ast.Constant) else None

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.add(n, "const", str(not v))
        elif isinstance(v, int):
            self.add(n, "const", str(v + 1))
            if v > 0:
                self.add(n, "const", str(v - 1))
        elif isinstance(v, float):
            self.add(n, "const", repr(v * 2) if v else "1.0")
            if v:
                self.add(n, "const", repr(v * 100 if abs(v) < 1e-3 else 0.0))

    def visit_Subscript(self, n):
        sl = n.slice
        if isinstance(sl, ast.Slice) and (sl.lower or sl.upper):
            self.add(n, "slice-all", self.text(n.value) + "[:]")
        if isinstance(sl, ast.UnaryOp) and isinstance(sl.operand, ast.Constant) and sl.operand.value == 1:
            self.add(sl, "index", "0")
        self.generic_visit(n)

    def visit_Call(self, n):
        f = n.func
        name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
        if "logger" in self.text(f) or name in ("isinstance", "ValueError", "TypeError", "RuntimeError", "warn", "format", "getattr", "hasattr"):
            if name == "isinstance":
                pass
            return
        for new in CALL.get(name, []):
            z = self.pos(f)[1]
            self.add(f, "call-swap", new, z - len(name), z)
        if name in IDENT:
            if isinstance(f, ast.Attribute) and self.text(f.value) in ("np", "pd", "math") and n.args:
                self.add(n, "call-ident", "(" + self.text(n.args[0]) + ")")
            elif isinstance(f, ast.Attribute) and self.text(f.value) not in ("np", "pd", "math"):
                self.add(n, "call-ident", "(" + self.text(f.value) + ")")
        items = sorted(list(n.args) + [k for k in n.keywords if k.arg], key=lambda x: (x.lineno, x.col_offset))
        for k in n.keywords:
            if k.arg and k.arg not in ("dtype", "stacklevel") and len(items) > 1:
                i = items.index(k)
                rest = [self.text(x) for x in items if x is not k]
                if not any(isinstance(x, ast.Starred) for x in n.args) and all(q.arg for q in n.keywords):
                    self.add(n, "drop-kwarg " + k.arg, self.text(f) + "(" + ", ".join(rest) + ")")
        if len(n.args) >= 2 and all(isinstance(x, (ast.Name, ast.Attribute)) for x in n.args[:2]) and not n.keywords:
            a, z = self.pos(n.args[0])[0], self.pos(n.args[1])[1]
            self.add(n, "swap-args", self.text(n.args[1]) + ", " + self.text(n.args[0]), a, z)
        self.generic_visit(n)

    def visit_JoinedStr(self, n):
        pass

    def visit_Return(self, n):
        if n.value is not None:
            self.visit(n.value)

    def visit_Raise(self, n):
        pass

    def visit_AnnAssign(self, n):
        if n.value is not None:
            self.visit(n.value)


def main(out, seed):
    allm = []
    for d, _, fs in os.walk(ROOT):
        for f in sorted(fs):
            if f.endswith(".py") and f != "__init__.py":
                p = os.path.join(d, f)
                src = open(p).read()
                v = V(src, p[len(ROOT):])
                for s in ast.parse(src).body:
                    if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        v.visit(s)
                for m in v.out:
                    b = v.b[:m["a"]] + m["new"].encode() + v.b[m["z"]:]
                    try:
                        t1 = ast.parse(b.decode())
                    except SyntaxError:
                        continue
                    if ast.dump(t1) == ast.dump(ast.parse(src)) if len(v.out) < 0 else False:
                        continue
                    allm.append(m)
    random.Random(seed).shuffle(allm)
    with open(out, "w") as fh:
        for i, m in enumerate(allm):
            fh.write(json.dumps(dict(id=i, **m)) + "\n")
    print(len(allm))


if __name__ == "__main__":
    main(sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 1)
