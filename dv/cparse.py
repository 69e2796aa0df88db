"""Front end: mechanical extraction of the functions of /repo on every run.

The real source file is preprocessed with gcc -E (the compiler the project is
built with), the project's own headers and the configuration header that CMake
would generate from config/r3d-config.h.in, and parsed with pycparser.  libc
headers are replaced by /verif/fakeinc (declarations only).  Nothing else is
dropped or rewritten."""
import os, re, subprocess, tempfile, hashlib
from pycparser import c_parser, c_ast

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("DV_REPO", "/repo")

class FrontError(Exception):
    pass

def config_header(outdir, max_verts=512, shift_poly=""):
    """Generate r3d-config.h from the repository's template, as CMake does."""
    t = open(os.path.join(REPO, "config/r3d-config.h.in")).read()
    t = t.replace("@R3D_MAX_VERTS@", str(max_verts)).replace("@SHIFT_POLY@", shift_poly)
    t = re.sub(r"@\w+@", "", t)
    open(os.path.join(outdir, "r3d-config.h"), "w").write(t)

class TU:
    def __init__(self, relpath, defines=(), max_verts=512, undef_shift=False):
        self.relpath = relpath
        path = os.path.join(REPO, relpath)
        with tempfile.TemporaryDirectory(prefix="dvpp") as d:
            config_header(d, max_verts)
            if undef_shift:
                p = os.path.join(d, "r3d-config.h")
                s = open(p).read()
                s = re.sub(r"#define\s+SHIFT_POLY.*", "", s)
                open(p, "w").write(s)
            cmd = ["gcc", "-E", "-std=gnu11", "-nostdinc", "-undef", "-I", os.path.join(VERIF, "fakeinc"), "-I", d,
                   "-I", os.path.dirname(path), "-D__attribute__(x)=", "-D__extension__=", "-D__inline=inline",
                   "-D__inline__=inline", "-D__restrict=restrict", "-D__restrict__=restrict", "-D__builtin_expect(a,b)=(a)", "-DNDEBUG=1"]
            cmd += list(defines) + [path]
            r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise FrontError("preprocessing %s failed: %s" % (relpath, r.stderr[:2000]))
        self.text = r.stdout
        src = "\n".join(l for l in r.stdout.split("\n") if not l.startswith("#pragma"))
        # pycparser takes "[*name" for a C99 "[*]" declarator: write "[+*name" (same value)
        src = re.sub(r"\[\s*\*\s*(?=[A-Za-z_])", "[+*", src)
        try:
            self.ast = c_parser.CParser().parse(src, filename=path)
        except Exception as e:
            raise FrontError("cannot parse %s: %s" % (relpath, e))
        self.funcs = {}
        self.typedefs = {}
        self.structs = {}
        self.globals = {}
        self.enums = {}
        for ext in self.ast.ext:
            if isinstance(ext, c_ast.FuncDef):
                self.funcs[ext.decl.name] = ext
            elif isinstance(ext, c_ast.Typedef):
                self.typedefs[ext.name] = ext.type
                self._note_tags(ext.type)
            elif isinstance(ext, c_ast.Decl):
                self._note_tags(ext.type)
                if ext.name and not isinstance(ext.type, c_ast.FuncDecl):
                    self.globals[ext.name] = ext

    def _note_tags(self, t):
        while isinstance(t, (c_ast.TypeDecl, c_ast.PtrDecl, c_ast.ArrayDecl)):
            t = t.type
        if isinstance(t, (c_ast.Struct, c_ast.Union)) and t.name and t.decls:
            self.structs[t.name] = t
        if isinstance(t, c_ast.Enum) and t.values:
            n = 0
            for e in t.values.enumerators:
                if e.value is not None:
                    n = const_eval(e.value, self.enums)
                self.enums[e.name] = n
                n += 1

def const_eval(n, enums=None):
    """Evaluate a constant integer expression; None if it is not one."""
    if n is None:
        return None
    if isinstance(n, c_ast.Constant):
        if n.type in ("int", "long int", "unsigned int", "long", "unsigned long int", "long long int"):
            return int(re.sub(r"[uUlL]+$", "", n.value), 0)
        return None
    if isinstance(n, c_ast.ID):
        return (enums or {}).get(n.name)
    if isinstance(n, c_ast.Cast):
        return const_eval(n.expr, enums)
    if isinstance(n, c_ast.UnaryOp):
        if n.op == "-":
            v = const_eval(n.expr, enums)
            return None if v is None else -v
        if n.op == "+":
            return const_eval(n.expr, enums)
        return None
    if isinstance(n, c_ast.BinaryOp):
        a, b = const_eval(n.left, enums), const_eval(n.right, enums)
        if a is None or b is None:
            return None
        try:
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b,
                    "/": lambda: int(a / b), "%": lambda: a - b * int(a / b),
                    "<<": lambda: a << b, ">>": lambda: a >> b, "|": lambda: a | b,
                    "&": lambda: a & b, "^": lambda: a ^ b}[n.op]()
        except (KeyError, ZeroDivisionError):
            return None
    return None
