"""Loader for the resolved program: /repo's C sources compiled to LLVM IR with debug info,
linked into one module and parsed into plain Python objects.

Nothing here runs the library.  clang lowers each translation unit (-O0, then mem2reg so that
scalar locals become SSA values), llvm-link resolves cross-unit references, and the textual
module is parsed below.
"""
import os, re, shutil, subprocess, sys, tempfile, concurrent.futures

REPO = os.environ.get("VP_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class AnalysisBroken(Exception):
    """The analysis could not be carried out (not a verdict)."""


# --------------------------------------------------------------------------- model
class Instr:
    __slots__ = ("op", "res", "ty", "ops", "line", "extra", "fn", "idx", "block")

    def __init__(self, op, res, ty, ops, extra=None):
        self.op, self.res, self.ty, self.ops, self.extra = op, res, ty, ops, extra
        self.line = None

    def __repr__(self):
        return "<%s %s %s %s @%s>" % (self.res, self.op, self.ops, self.extra, self.line)


class Block:
    __slots__ = ("name", "phis", "ins", "succs", "preds", "fn", "index", "loop")

    def __init__(self, name):
        self.name, self.phis, self.ins, self.succs, self.preds = name, [], [], [], []


class Func:
    def __init__(self, name, params, ret):
        self.name, self.params, self.ret = name, params, ret   # params: [(type, regname)]
        self.blocks, self.order, self.file, self.line = {}, [], None, None
        self.vararg = False
        self.linkage = ""

    @property
    def entry(self):
        return self.blocks[self.order[0]]

    def instrs(self):
        for b in self.order:
            for i in self.blocks[b].ins:
                yield i

    def calls(self):
        for i in self.instrs():
            if i.op == "call":
                yield i


class Module:
    def __init__(self):
        self.funcs, self.decls, self.aliases, self.globals, self.types = {}, {}, {}, {}, {}
        self.fields = {}        # struct name -> [field names]
        self.enums = {}         # enumerator -> value
        self.strings = {}
        self.md = {}
        self.decl_params = {}   # function name -> [param names] from DISubprogram retainedNodes

    def resolve(self, name):
        seen = set()
        while name in self.aliases and name not in seen:
            seen.add(name)
            name = self.aliases[name]
        return name

    def fidx(self, struct, field):
        """field index in a struct by source field name"""
        fs = self.fields.get(struct)
        if not fs or field not in fs:
            raise AnalysisBroken("field %s.%s not found in the program" % (struct, field))
        return fs.index(field)

    def sizeof(self, ty):
        return self._layout(ty)[0]

    def _layout(self, ty):
        ty = ty.strip()
        if ty == "ptr":
            return 8, 8
        if ty == "double":
            return 8, 8
        if ty == "float":
            return 4, 4
        if ty == "x86_fp80":
            return 16, 16
        m = re.match(r"^i(\d+)$", ty)
        if m:
            n = max(1, int(m.group(1)) // 8)
            return n, n
        m = re.match(r"^\[(\d+) x (.*)\]$", ty)
        if m:
            s, a = self._layout(m.group(2))
            return s * int(m.group(1)), a
        if ty.startswith("%"):
            body = self.types.get(ty)
            if body is None or body == "opaque":
                return 1, 1
            return self._layout(body)
        if ty.startswith("{"):
            off, al = 0, 1
            for e in split_top(ty[1:-1].strip()):
                s, a = self._layout(e)
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        return 1, 1


def split_top(s, sep=","):
    out, depth, cur = [], 0, ""
    instr = False
    for ch in s:
        if ch == '"':
            instr = not instr
        if not instr:
            if ch in "([{<":
                depth += 1
            elif ch in ")]}>":
                depth -= 1
            if ch == sep and depth == 0:
                out.append(cur.strip())
                cur = ""
                continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


# --------------------------------------------------------------------------- building the IR
def mpi_flags():
    exe = shutil.which("mpicc.openmpi") or shutil.which("mpicc")
    if exe:
        p = subprocess.run([exe, "--showme:compile"], capture_output=True, text=True)
        if p.returncode == 0 and p.stdout.strip():
            return p.stdout.split()
    return ["-I/usr/lib/x86_64-linux-gnu/openmpi/include",
            "-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]


def find_tool(*names):
    for n in names:
        p = shutil.which(n)
        if p:
            return p
    for n in names:
        p = "/usr/lib/llvm-18/bin/" + n.replace("-18", "")
        if os.path.exists(p):
            return p
    raise AnalysisBroken("tool not found: %s" % (names,))


def source_list():
    """The library's translation units, from the build description (Makefile.am)."""
    mk = os.path.join(REPO, "Makefile.am")
    out = []
    try:
        txt = open(mk).read().replace("\\\n", " ")
    except OSError:
        raise AnalysisBroken("no Makefile.am")
    for m in re.finditer(r"^lib\w+_la_SOURCES\s*\+?=\s*(.*)$", txt, re.M):
        for w in m.group(1).split():
            if w.endswith(".c"):
                out.append(w)
    out = [f for f in dict.fromkeys(out) if os.path.exists(os.path.join(REPO, f))]
    if len(out) < 15:
        raise AnalysisBroken("only %d library sources found in Makefile.am" % len(out))
    return out


VARIANTS = {
    # the configuration configure produces here, and therefore what the tests build
    "default": [],
    # Open MPI >= 5 code paths (bounded number of request-based operations)
    "ompi5": ["-include", os.path.join(HERE, "variant_ompi5.h")],
    # tool chains without weak symbols: src/parmci.c supplies the public entry points
    "noweak": ["-include", os.path.join(HERE, "variant_noweak.h")],
    # --enable-g / NO_SEATBELTS style builds: run-time checks compiled out
    "noseat": ["-DNO_SEATBELTS"],
}


def build_ir(variant="default", only=None):
    cfgdir = os.path.join(REPO, "_build", "src")
    if not os.path.exists(os.path.join(cfgdir, "armciconf.h")):
        cfgdir = os.path.join(HERE, "cfg")
    clang, opt, link = find_tool("clang-18", "clang"), find_tool("opt-18", "opt"), find_tool("llvm-link-18", "llvm-link")
    flags = ["-O1", "-g", "-w", "-Xclang", "-disable-llvm-passes", "-fno-strict-aliasing", "-ffp-contract=off", "-fno-discard-value-names", "-std=gnu17",
             "-DHAVE_CONFIG_H", "-I" + os.path.join(REPO, "src"), "-I" + cfgdir] + mpi_flags() + VARIANTS[variant]
    srcs = source_list()
    tmp = tempfile.mkdtemp(prefix="vpir")
    try:
        def one(rel):
            o = os.path.join(tmp, rel.replace("/", "_") + ".ll")
            p = subprocess.run([clang] + flags + ["-S", "-emit-llvm", os.path.join(REPO, rel), "-o", o],
                               capture_output=True, text=True, cwd=REPO)
            if p.returncode:
                raise AnalysisBroken("clang failed on %s: %s" % (rel, p.stderr[-2000:]))
            return o
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            lls = list(ex.map(one, srcs))
        allll = os.path.join(tmp, "all.ll")
        p = subprocess.run([link, "-S"] + lls + ["-o", allll], capture_output=True, text=True)
        if p.returncode:
            raise AnalysisBroken("llvm-link failed: " + p.stderr[-2000:])
        out = os.path.join(tmp, "opt.ll")
        p = subprocess.run([opt, "-S", "-passes=mem2reg", allll, "-o", out], capture_output=True, text=True)
        if p.returncode:
            raise AnalysisBroken("opt failed: " + p.stderr[-2000:])
        text = open(out).read()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    m = parse(text)
    m.units = srcs
    m.variant = variant
    return m


# --------------------------------------------------------------------------- parsing
TOK = re.compile(r'''\s*(?:
    (?P<str>c?"(?:[^"\\]|\\.)*")|
    (?P<gname>@(?:"[^"]*"|[-\w$.]+))|
    (?P<lname>%(?:"[^"]*"|[-\w$.]+))|
    (?P<md>![\w.]*)|
    (?P<attr>\#\d+)|
    (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|-?0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)|
    (?P<word>[A-Za-z_][\w.]*)|
    (?P<dots>\.\.\.)|
    (?P<p>[()\[\]{}<>,=*:])
)''', re.X)


def tokenize(s):
    out, pos, n = [], 0, len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == "":
                break
            raise AnalysisBroken("cannot tokenize IR: " + s[pos:pos + 80])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        pos = m.end()
    return out


PATTRS = set("""noundef nonnull signext zeroext noalias nocapture readonly readnone writeonly returned inreg
immarg nofree dereferenceable noreturn nounwind inbounds nsw nuw exact fast nnan ninf nsz arcp contract reassoc afn
volatile tail musttail notail dso_local local_unnamed_addr unnamed_addr allocsize nneg disjoint samesign""".split())
ATTR_PAREN = {"align", "dereferenceable", "dereferenceable_or_null", "byval", "sret", "allocsize", "memory", "range"}


class P:
    """token-stream parser"""

    def __init__(self, toks, mod):
        self.t, self.i, self.m = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        k, x = self.next()
        if x != v:
            raise AnalysisBroken("IR parse: expected %r got %r in %s" % (v, x, self.t))

    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == "word" and v in ATTR_PAREN:
                self.i += 1
                if self.accept("("):
                    d = 1
                    while d:
                        z = self.next()[1]
                        d += (z == "(") - (z == ")")
                elif self.peek()[0] == "num":
                    self.i += 1
            elif k == "word" and v in PATTRS:
                self.i += 1
            else:
                return

    def type(self):
        k, v = self.next()
        if k == "lname":
            t = "%" + norm_struct(v[1:])
        elif v == "[":
            n = self.next()[1]
            self.expect("x")
            t = "[%s x %s]" % (n, self.type())
            self.expect("]")
        elif v == "{":
            el = []
            while not self.accept("}"):
                el.append(self.type())
                self.accept(",")
            t = "{ %s }" % ", ".join(el)
        elif v == "<":
            n = self.next()[1]
            self.expect("x")
            t = "<%s x %s>" % (n, self.type())
            self.expect(">")
        elif k == "word":
            t = v
        else:
            raise AnalysisBroken("IR parse: type? %r" % (self.t[max(0, self.i - 3):self.i + 5],))
        while True:
            if self.peek()[1] == "*":
                self.i += 1
            elif self.peek()[1] == "(" and t in ("void", "i32", "ptr", "i64", "double", "i8", "i1", "i16", "float"):
                # function type
                d = 0
                while True:
                    z = self.next()[1]
                    d += (z == "(") - (z == ")")
                    if d == 0:
                        break
                t = "fn"
            else:
                return t

    def value(self, ty):
        k, v = self.next()
        if k == "lname":
            return ("r", v[1:])
        if k == "gname":
            return ("g", v[1:].strip('"'))
        if k == "num":
            if "." in v or "x" in v or ty in ("double", "float"):
                return ("f", float_const(v))
            return ("c", int(v))
        if k == "word":
            if v == "null":
                return ("c", 0)
            if v == "true":
                return ("c", 1)
            if v == "false":
                return ("c", 0)
            if v in ("undef", "poison"):
                return ("undef",)
            if v == "zeroinitializer":
                return ("c", 0)
            if v == "getelementptr":
                self.skip_attrs()
                self.expect("(")
                ety = self.type()
                self.expect(",")
                ops = []
                while True:
                    self.skip_attrs()
                    t = self.type()
                    ops.append(self.value(t))
                    if not self.accept(","):
                        break
                self.expect(")")
                return ("cgep", ety, tuple(ops))
            if v in ("inttoptr", "ptrtoint", "bitcast", "trunc", "sext", "zext"):
                self.expect("(")
                t = self.type()
                x = self.value(t)
                self.expect("to")
                self.type()
                self.expect(")")
                return x
            if v in ("sub", "add", "mul"):
                self.skip_attrs()
                self.expect("(")
                t = self.type(); a = self.value(t); self.expect(",")
                t = self.type(); b = self.value(t); self.expect(")")
                return ("cbin", v, a, b)
        if k == "str":
            return ("str", v)
        if v in ("[", "{", "<"):
            d = 1
            while d:
                z = self.next()[1]
                d += (z in "[{<") - (z in "]}>") if z in ("[", "{", "<", "]", "}", ">") else 0
            return ("agg",)
        raise AnalysisBroken("IR parse: value? %r %r in %r" % (k, v, self.t[:12]))

    def tv(self):
        self.skip_attrs()
        t = self.type()
        self.skip_attrs()
        if t == "metadata":
            # skip to , or ) at depth 0
            d = 0
            start = self.i
            while True:
                z = self.peek()[1]
                if d == 0 and z in (",", ")"):
                    break
                d += (z in ("(", "{")) - (z in (")", "}"))
                self.i += 1
            return t, ("md", tuple(x[1] for x in self.t[start:self.i]))
        return t, self.value(t)


def float_const(v):
    if v.startswith("0x") and len(v) == 18:
        import struct
        return struct.unpack(">d", bytes.fromhex(v[2:]))[0]
    try:
        return float(v)
    except ValueError:
        return v


def norm_struct(n):
    n = n.strip('"')
    n = re.sub(r"\.\d+$", "", n)
    return n


def parse(text):
    m = Module()
    lines = text.split("\n")
    # metadata first
    for ln in lines:
        if ln.startswith("!"):
            k = re.match(r"^!(\d+) = (?:distinct )?(.*)$", ln)
            if k:
                m.md[int(k.group(1))] = k.group(2)
    di_fields(m)
    for ln in lines:
        if ln.startswith("%"):
            k = re.match(r"^%(.*?) = type (.*)$", ln)
            name = "%" + norm_struct(k.group(1))
            body = re.sub(r"%([\w.]+|\"[^\"]*\")", lambda q: "%" + norm_struct(q.group(1)), k.group(2))
            m.types.setdefault(name, body)
        elif ln.startswith("@"):
            k = re.match(r'^@("[^"]*"|[-\w$.]+) = (.*)$', ln)
            name, rest = k.group(1).strip('"'), k.group(2)
            if re.search(r"\balias\b", rest):
                t = re.findall(r"@([-\w$.]+)", rest)[-1]
                m.aliases[name] = t
            else:
                m.globals[name] = rest
                s = re.search(r'c"((?:[^"\\]|\\.)*)"', rest)
                if s and "constant" in rest:
                    raw = re.sub(r"\\([0-9A-Fa-f]{2})", lambda q: chr(int(q.group(1), 16)), s.group(1))
                    m.strings[name] = raw.rstrip("\0")
    i, n = 0, len(lines)
    while i < n:
        ln = lines[i]
        if ln.startswith("declare"):
            k = re.search(r"@([-\w$.]+)\(", ln)
            m.decls[k.group(1)] = ln
            i += 1
        elif ln.startswith("define"):
            j = i + 1
            while lines[j] != "}":
                j += 1
            parse_func(m, ln, lines[i + 1:j])
            i = j + 1
        else:
            i += 1
    for f in m.funcs.values():
        link_cfg(f)
    return m


def di_fields(m):
    """struct name -> field names; enumerator values; subprogram info (from debug info)"""
    def refs(s):
        return [int(x) for x in re.findall(r"!(\d+)", s)]
    members = {}
    for k, v in m.md.items():
        if v.startswith("!DIEnumerator("):
            n = re.search(r'name: "([^"]*)"', v)
            x = re.search(r"value: (-?\d+)", v)
            if n and x:
                m.enums[n.group(1)] = int(x.group(1))
        if v.startswith("!DIDerivedType(tag: DW_TAG_member"):
            members[k] = re.search(r'name: "([^"]*)"', v)
    comp = {}
    for k, v in m.md.items():
        if v.startswith("!DICompositeType(tag: DW_TAG_structure_type"):
            el = re.search(r"elements: !(\d+)", v)
            if not el:
                continue
            fs = []
            for r in refs(m.md.get(int(el.group(1)), "")):
                nm = members.get(r)
                fs.append(nm.group(1) if nm else "?")
            nm = re.search(r'name: "([^"]*)"', v)
            if nm:
                m.fields.setdefault("%struct." + nm.group(1), fs)
            comp[k] = fs
    for k, v in m.md.items():
        if v.startswith("!DIDerivedType(tag: DW_TAG_typedef"):
            nm = re.search(r'name: "([^"]*)"', v)
            b = re.search(r"baseType: !(\d+)", v)
            if nm and b and int(b.group(1)) in comp:
                m.fields.setdefault("%struct." + nm.group(1), comp[int(b.group(1))])


def parse_func(m, head, body):
    hd = head
    k = re.search(r"@([-\w$.]+)\(", hd)
    name = k.group(1)
    ret = hd[:k.start()].split()[-1]
    # params
    depth, j = 1, k.end()
    while depth:
        ch = hd[j]
        depth += (ch == "(") - (ch == ")")
        j += 1
    ptxt = hd[k.end():j - 1]
    params, vararg = [], False
    for p in split_top(ptxt):
        if p == "...":
            vararg = True
            continue
        ty = p.split()[0]
        params.append((ty, p.split()[-1].lstrip("%")))
    f = Func(name, params, ret)
    f.vararg = vararg
    f.linkage = "internal" if re.search(r"\binternal\b", hd[:k.start()]) else "external"
    f.noreturn_attr = False
    d = re.search(r"!dbg !(\d+)", hd[j:])
    f.scope = None
    if d:
        sp = m.md.get(int(d.group(1)), "")
        q = re.search(r"line: (\d+)", sp)
        f.line = int(q.group(1)) if q else None
        q = re.search(r"file: !(\d+)", sp)
        if q:
            fm = re.search(r'filename: "([^"]*)"', m.md.get(int(q.group(1)), ""))
            f.file = fm.group(1) if fm else None
    cur = None
    i = 0
    while i < len(body):
        ln = body[i]
        i += 1
        if not ln.strip() or ln.lstrip().startswith(";"):
            continue
        lab = re.match(r'^("[^"]*"|[-\w$.]+):', ln)
        if lab and not ln.startswith(" "):
            cur = Block(lab.group(1).strip('"'))
            cur.fn = f
            f.blocks[cur.name] = cur
            f.order.append(cur.name)
            continue
        if cur is None:
            cur = Block(str(len(params)))
            cur.fn = f
            f.blocks[cur.name] = cur
            f.order.append(cur.name)
        s = ln.strip()
        if s.startswith("switch"):
            while not s.rstrip().rstrip("0123456789!").rstrip().endswith("]") and "]" not in s:
                s += " " + body[i].strip()
                i += 1
        ins = parse_instr(m, f, s)
        if ins is None:
            continue
        ins.fn, ins.block, ins.idx = f, cur, len(cur.phis) + len(cur.ins)
        (cur.phis if ins.op == "phi" else cur.ins).append(ins)
    m.funcs[name] = f


DBG = re.compile(r",?\s*!dbg !(\d+)")
INLINE_LOC = {}


def md_line(m, n):
    s = m.md.get(n, "")
    q = re.match(r"!DILocation\(line: (\d+)", s)
    return int(q.group(1)) if q else None


def parse_instr(m, f, s):
    line = None
    d = DBG.search(s)
    if d:
        line = md_line(m, int(d.group(1)))
        s = s[:d.start()]
    s = re.sub(r",\s*![\w.]+ !\d+", "", s)
    s = re.sub(r",\s*align \d+\s*$", "", s)
    res = None
    if s.startswith("%"):
        k = re.match(r'^%("[^"]*"|[-\w$.]+) = (.*)$', s)
        res, s = k.group(1).strip('"'), k.group(2)
    op = s.split(None, 1)[0]
    if op in ("tail", "musttail", "notail"):
        s = s.split(None, 1)[1]
        op = "call"
    if op == "call" and ("@llvm.dbg." in s or "@llvm.lifetime" in s):
        return None
    p = P(tokenize(s), m)
    p.next()
    p.skip_attrs()
    ins = None
    if op == "alloca":
        ty = p.type()
        ops, cnt = [], ("c", 1)
        if p.accept(","):
            t, v = None, None
            if p.peek()[1] != "align":
                t = p.type(); cnt = p.value(t)
        ins = Instr("alloca", res, "ptr", [cnt], ty)
    elif op == "load":
        ty = p.type(); p.expect(","); t, v = p.tv()
        ins = Instr("load", res, ty, [v])
    elif op == "store":
        t, v = p.tv(); p.expect(","); t2, a = p.tv()
        ins = Instr("store", None, t, [v, a])
    elif op == "getelementptr":
        ety = p.type(); p.expect(",")
        ops = []
        while True:
            t, v = p.tv(); ops.append(v)
            if not p.accept(","):
                break
        ins = Instr("gep", res, "ptr", ops, ety)
    elif op == "call":
        p.skip_attrs()
        ty = p.type()
        if p.peek()[1] == "(":
            pass
        if ty == "fn":
            ty = s.split("(")[0].split()[-1]
        k, callee = p.next()
        callee = ("g", callee[1:].strip('"')) if k == "gname" else ("r", callee[1:])
        p.expect("(")
        args, tys = [], []
        while not p.accept(")"):
            t, v = p.tv(); args.append(v); tys.append(t)
            p.skip_attrs()
            p.accept(",")
        ins = Instr("call", res, ty, args, (callee, tuple(tys)))
    elif op == "br":
        if p.peek()[1] == "label":
            p.next()
            ins = Instr("br", None, None, [], [p.next()[1][1:].strip('"')])
        else:
            t, v = p.tv(); p.expect(","); p.expect("label"); a = p.next()[1][1:].strip('"')
            p.expect(","); p.expect("label"); b = p.next()[1][1:].strip('"')
            ins = Instr("cbr", None, None, [v], [a, b])
    elif op == "switch":
        t, v = p.tv(); p.expect(","); p.expect("label"); dft = p.next()[1][1:].strip('"')
        p.expect("[")
        cases = []
        while not p.accept("]"):
            t, c = p.tv(); p.expect(","); p.expect("label"); cases.append((c[1], p.next()[1][1:].strip('"')))
        ins = Instr("switch", None, None, [v], (dft, cases))
    elif op == "ret":
        if p.peek()[1] == "void":
            ins = Instr("ret", None, None, [])
        else:
            t, v = p.tv()
            ins = Instr("ret", None, t, [v])
    elif op == "unreachable":
        ins = Instr("unreachable", None, None, [])
    elif op == "phi":
        ty = p.type()
        inc = []
        while p.accept("["):
            v = p.value(ty); p.expect(","); b = p.next()[1][1:].strip('"'); p.expect("]")
            inc.append((v, b)); p.accept(",")
        ins = Instr("phi", res, ty, [], inc)
    elif op in ("icmp", "fcmp"):
        pred = p.next()[1]
        t = p.type(); a = p.value(t); p.expect(","); b = p.value(t)
        ins = Instr(op, res, "i1", [a, b], (pred, t))
    elif op == "select":
        t, c = p.tv(); p.expect(","); t, a = p.tv(); p.expect(","); t, b = p.tv()
        ins = Instr("select", res, t, [c, a, b])
    elif op in ("sext", "zext", "trunc", "ptrtoint", "inttoptr", "bitcast", "fpext", "fptrunc", "sitofp", "uitofp",
                "fptosi", "fptoui", "freeze"):
        t, v = p.tv()
        to = t
        if p.accept("to"):
            to = p.type()
        ins = Instr(op, res, to, [v], t)
    elif op == "fneg":
        t, v = p.tv()
        ins = Instr(op, res, t, [v])
    elif op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "ashr", "lshr",
                "fadd", "fsub", "fmul", "fdiv", "frem"):
        t = p.type(); a = p.value(t); p.expect(","); b = p.value(t)
        ins = Instr(op, res, t, [a, b])
    else:
        # anything else: an opaque definition
        ins = Instr("opaque", res, "?", [], s)
    ins.line = line
    return ins


def link_cfg(f):
    for b in f.order:
        blk = f.blocks[b]
        t = blk.ins[-1]
        if t.op == "br" or t.op == "cbr":
            blk.succs = list(t.extra)
        elif t.op == "switch":
            blk.succs = [t.extra[0]] + [x for _, x in t.extra[1]]
        else:
            blk.succs = []
        for s in blk.succs:
            f.blocks[s].preds.append(b)
    # reverse postorder, back edges, natural loops
    seen, post, onstack, back = set(), [], set(), set()

    def dfs(b):
        stack = [(b, iter(f.blocks[b].succs))]
        seen.add(b); onstack.add(b)
        while stack:
            x, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); onstack.add(s)
                    stack.append((s, iter(f.blocks[s].succs)))
                    break
                if s in onstack:
                    back.add((x, s))
            else:
                stack.pop(); onstack.discard(x); post.append(x)
    dfs(f.order[0])
    f.rpo = list(reversed(post))
    f.rpoidx = {b: i for i, b in enumerate(f.rpo)}
    f.back = back
    f.loops = {}
    for (src, hdr) in back:
        body = f.loops.setdefault(hdr, {hdr})
        st = [src]
        while st:
            x = st.pop()
            if x not in body:
                body.add(x)
                st.extend(f.blocks[x].preds)
    # liveness of SSA registers at block entry
    use, defs = {}, {}
    for b in f.rpo:
        blk = f.blocks[b]
        u, d = set(), set(i.res for i in blk.phis)
        for i in blk.ins:
            for r in regs_of(i):
                if r not in d:
                    u.add(r)
            if i.res:
                d.add(i.res)
        use[b], defs[b] = u, d
    f.livein = {b: set(use[b]) for b in f.rpo}
    ch = True
    while ch:
        ch = False
        for b in reversed(f.rpo):
            blk = f.blocks[b]
            out = set()
            for s in blk.succs:
                sb = f.blocks[s]
                out |= f.livein[s] - set(i.res for i in sb.phis)
                for i in sb.phis:
                    for v, pb in i.extra:
                        if pb == b:
                            out |= set(val_regs(v))
            n = use[b] | (out - defs[b])
            if n - f.livein[b]:
                f.livein[b] |= n
                ch = True


def val_regs(v):
    if v[0] == "r":
        yield v[1]
    elif v[0] == "cgep":
        for x in v[2]:
            yield from val_regs(x)


def regs_of(i):
    for v in i.ops:
        yield from val_regs(v)
    if i.op == "call" and i.extra[0][0] == "r":
        yield i.extra[0][1]


if __name__ == "__main__":
    import time
    t = time.time()
    m = build_ir(sys.argv[1] if len(sys.argv) > 1 else "default")
    print("units", len(m.units), "funcs", len(m.funcs), "time", round(time.time() - t, 2))
    print({k: v for k, v in m.fields.items() if k in m.types and m.types[k] != "opaque"})
    print(m.enums)
