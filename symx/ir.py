"""Parser for the subset of textual LLVM IR that rustc emits.

Functions are indexed at load time and parsed on first use.  Operands are either ('%', name) for
locals or plain constants: int for integers and pointers (globals are resolved to addresses through
`Module.addr_of`), Agg for aggregates, Undef.  Floating-point constants are their bit patterns.
"""
import re, struct

TOK = re.compile(r'''c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*"|[%@](?:"[^"]*"|[-\w$.]+)|"(?:[^"]*)"|![\w.]*|#\d+|[-+](?:qnan|inf)\b|-?\d+\.\d*(?:e[-+]?\d+)?|f?0x[A-Z]?[0-9A-Fa-f]+|-?\d+|\.\.\.|[A-Za-z_][\w.]*|[\[\]{}()<>,=*|:]''')


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class Local:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


class Agg:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class IRError(Exception):
    pass


# ---- types: ('i', w) ('p',) ('f', 64|32) ('a', n, T) ('s', [T], packed) ('v', n, T) ('void',)
PTR = ("p",)
VOID = ("void",)
_size = {}


def align_of(t):
    k = t[0]
    if k == "i":
        w = (t[1] + 7) // 8
        a = 1
        while a < w and a < 16:
            a *= 2
        return a
    if k == "p":
        return 8
    if k == "f":
        return t[1] // 8
    if k == "a":
        return align_of(t[2])
    if k == "v":
        return size_of(t)
    if k == "s":
        if t[2]:
            return 1
        return max([align_of(x) for x in t[1]] or [1])
    raise IRError("align of %r" % (t,))


def store_size(t):
    if t[0] == "i":
        return (t[1] + 7) // 8
    return size_of(t)


def size_of(t):
    r = _size.get(t)
    if r is None:
        k = t[0]
        if k == "i":
            b = (t[1] + 7) // 8
            a = align_of(t)
            r = (b + a - 1) // a * a
        elif k == "p":
            r = 8
        elif k == "f":
            r = t[1] // 8
        elif k == "a":
            r = t[1] * size_of(t[2])
        elif k == "v":
            bits = t[1] * (t[2][1] if t[2][0] in "if" else 64)
            r = (bits + 7) // 8
        elif k == "s":
            o = 0
            for x in t[1]:
                if not t[2]:
                    a = align_of(x)
                    o = (o + a - 1) // a * a
                o += size_of(x)
            a = align_of(t)
            r = (o + a - 1) // a * a
        else:
            raise IRError("size of %r" % (t,))
        _size[t] = r
    return r


def offset_of(t, i):
    """Offset of element i of aggregate type t"""
    if t[0] in ("a", "v"):
        return i * size_of(t[2])
    o = 0
    for j, x in enumerate(t[1]):
        if not t[2]:
            a = align_of(x)
            o = (o + a - 1) // a * a
        if j == i:
            return o
        o += size_of(x)
    raise IRError("offset")


def elem(t, i):
    return t[2] if t[0] in ("a", "v") else t[1][i]


class Toks:
    __slots__ = ("t", "i", "m", "s")

    def __init__(self, s, m):
        self.t = TOK.findall(re.sub(r"/\*.*?\*/", "", s) if "/*" in s else s)
        self.i = 0
        self.m = m
        self.s = s

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ""

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.accept(x):
            raise IRError("expected %s at %r in %s" % (x, self.t[self.i:self.i + 5], self.s[:300]))

    def skip_parens(self):
        self.expect("(")
        d = 1
        while d:
            x = self.next()
            if x == "(":
                d += 1
            elif x == ")":
                d -= 1

    def is_type(self):
        x = self.peek()
        if x in ("[", "{", "<"):
            return True
        return x in ("ptr", "void", "double", "float", "half", "i1", "metadata") or re.fullmatch(r"i\d+", x) is not None or (x.startswith("%") and x in self.m.types)

    def type(self):
        x = self.next()
        if x == "ptr":
            return PTR
        if x[0] == "i" and x[1:].isdigit():
            return ("i", int(x[1:]))
        if x == "double":
            return ("f", 64)
        if x == "float":
            return ("f", 32)
        if x == "void":
            return VOID
        if x == "metadata":
            return ("meta",)
        if x == "[":
            n = int(self.next())
            self.expect("x")
            t = self.type()
            self.expect("]")
            return ("a", n, t)
        if x == "{":
            ts = []
            while not self.accept("}"):
                ts.append(self.type())
                self.accept(",")
            return ("s", tuple(ts), False)
        if x == "<":
            if self.accept("{"):
                ts = []
                while not self.accept("}"):
                    ts.append(self.type())
                    self.accept(",")
                self.expect(">")
                return ("s", tuple(ts), True)
            n = int(self.next())
            self.expect("x")
            t = self.type()
            self.expect(">")
            return ("v", n, t)
        if x.startswith("%") and x in self.m.types:
            return self.m.types[x]
        raise IRError("type %r in %s" % (x, self.s[:300]))

    def skip_attrs(self):
        """Skip parameter attributes up to a value"""
        while True:
            x = self.peek()
            if x in ATTR_STOP or not x or not (x[0].isalpha()) or x.startswith("f0x"):
                return
            self.next()
            if self.peek() == "(":
                self.skip_parens()
            elif x == "align" and self.peek().isdigit():
                self.next()

    def value(self, t):
        """A value of type t"""
        x = self.next()
        c = x[0]
        if c == "%":
            return Local(x)
        if c == "@":
            return self.m.addr_of(x)
        if x == "null":
            return 0
        if x == "true":
            return 1
        if x == "false":
            return 0
        if x in ("undef", "poison"):
            return undef_of(t)
        if x == "zeroinitializer":
            return zero_of(t)
        if x == "splat":
            self.expect("(")
            et = self.type()
            v = self.value(et)
            self.expect(")")
            return Agg([v] * t[1])
        if x == "getelementptr":
            while self.peek() in ("inbounds", "nuw", "nusw", "inrange"):
                y = self.next()
                if y == "inrange":
                    self.skip_parens()
            self.expect("(")
            bt = self.type()
            self.expect(",")
            self.type()
            p = self.value(PTR)
            off = 0
            cur = None
            while self.accept(","):
                it = self.type()
                iv = self.value(it)
                iv = signed(iv, it[1])
                if cur is None:
                    off += iv * size_of(bt)
                    cur = bt
                else:
                    off += offset_of(cur, iv)
                    cur = elem(cur, iv)
            self.expect(")")
            return (p + off) & (2 ** 64 - 1)
        if x in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext"):
            self.expect("(")
            st = self.type()
            v = self.value(st)
            self.expect("to")
            dt = self.type()
            self.expect(")")
            if dt[0] == "i":
                v &= (1 << dt[1]) - 1
            return v
        if x in ("sub", "add", "xor", "mul", "and", "or"):
            while self.peek() in ("nuw", "nsw"):
                self.next()
            self.expect("(")
            st = self.type()
            a = self.value(st)
            self.expect(",")
            self.type()
            b = self.value(st)
            self.expect(")")
            m = (1 << st[1]) - 1
            return {"sub": a - b, "add": a + b, "xor": a ^ b, "mul": a * b, "and": a & b, "or": a | b}[x] & m
        if c == "c" and x[1:2] == '"':
            return Agg(cstring(x[2:-1]))
        if c == "[":
            vs = []
            while not self.accept("]"):
                et = self.type()
                vs.append(self.value(et))
                self.accept(",")
            return Agg(vs)
        if c == "{":
            vs = []
            while not self.accept("}"):
                et = self.type()
                vs.append(self.value(et))
                self.accept(",")
            return Agg(vs)
        if c == "<":
            packed = self.accept("{")
            vs = []
            while not self.accept("}" if packed else ">"):
                et = self.type()
                vs.append(self.value(et))
                self.accept(",")
            if packed:
                self.expect(">")
            return Agg(vs)
        if t[0] == "f":
            return fconst(x, t)
        if c == "-" or c.isdigit():
            return int(x) & ((1 << t[1]) - 1) if t[0] == "i" else int(x)
        raise IRError("value %r in %s" % (x, self.s[:300]))

    def tv(self):
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)


ATTR_STOP = {"null", "true", "false", "undef", "poison", "zeroinitializer", "splat", "getelementptr", "ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sub", "add", "xor", "mul", "and", "or", "asm"}


def signed(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def cstring(s):
    out = []
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return out


def fconst(x, t):
    if x.startswith("f0x"):
        return int(x[3:], 16)
    if x.startswith("0x"):
        b = int(x[2:], 16)
        if t[1] == 32:
            return struct.unpack("<I", struct.pack("<f", struct.unpack("<d", struct.pack("<Q", b))[0]))[0]
        return b
    if x.endswith("qnan"):
        b = 0x7FF8 << 48 if t[1] == 64 else 0x7FC0 << 16
        return b | 1 << (t[1] - 1) if x[0] == "-" else b
    f = float(x)
    return struct.unpack("<Q", struct.pack("<d", f))[0] if t[1] == 64 else struct.unpack("<I", struct.pack("<f", f))[0]


def zero_of(t):
    k = t[0]
    if k in ("i", "p", "f"):
        return 0
    if k in ("a", "v"):
        z = zero_of(t[2])
        return Agg([z] * t[1])
    return Agg([zero_of(x) for x in t[1]])


def undef_of(t):
    k = t[0]
    if k in ("a", "v"):
        return Agg([undef_of(t[2])] * t[1])
    if k == "s":
        return Agg([undef_of(x) for x in t[1]])
    return UNDEF


class Ins:
    __slots__ = ("op", "dst", "a", "t")

    def __init__(self, op, dst, a, t=None):
        self.op, self.dst, self.a, self.t = op, dst, a, t

    def __repr__(self):
        return "%s = %s %r" % (self.dst, self.op, self.a)


class Func:
    __slots__ = ("name", "params", "ptypes", "blocks", "entry", "rust", "info")


FN_BASE = 1 << 20
GLOBAL_BASE = 1 << 32

BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr",
       "fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "addrspacecast"}
FLAGS = {"nuw", "nsw", "exact", "disjoint", "nneg", "samesign", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "inbounds", "nusw", "volatile", "atomic"}


class Module:
    def __init__(self, path):
        self.types = {}
        self.ftext = {}      # name -> (start line, end line)
        self.gtext = {}      # name -> line
        self.noreturn_groups = set()
        self.noreturn = set()
        self.decls = set()
        self.rust_name = {}
        self.addr = {}
        self.by_addr = {}
        self.funcs = {}
        self.lines = open(path).read().split("\n")
        self.global_order = []
        self._index()

    def _index(self):
        L = self.lines
        i, n = 0, len(self.lines)
        nm = re.compile(r'@("[^"]*"|[-\w$.]+)\(')
        gm = re.compile(r'(@(?:"[^"]*"|[-\w$.]+)) = ')
        heads = []
        while i < n:
            s = L[i]
            if s.startswith("define "):
                m = nm.search(s)
                name = "@" + m.group(1)
                j = i
                while L[j] != "}":
                    j += 1
                self.ftext[name] = (i, j)
                heads.append((name, s))
                for k in (i - 1, i - 2):
                    if k >= 0 and L[k].startswith("; ") and not L[k].startswith("; Function Attrs"):
                        self.rust_name[name] = L[k][2:]
                        break
                i = j
            elif s.startswith("declare "):
                m = nm.search(s)
                name = "@" + m.group(1)
                self.decls.add(name)
                heads.append((name, s))
            elif s.startswith("@"):
                m = gm.match(s)
                self.gtext[m.group(1)] = i
                self.global_order.append(m.group(1))
            elif s.startswith("attributes #"):
                g = s.split()[1]
                if re.search(r"\bnoreturn\b", s):
                    self.noreturn_groups.add(g)
            elif s.startswith("%") and " = type " in s:
                k, v = s.split(" = type ", 1)
                self.types[k] = None
                if v != "opaque":
                    self.types[k] = Toks(v, self).type()
            i += 1
        for name, s in heads:
            if any(g in self.noreturn_groups for g in re.findall(r"#\d+", s)):
                self.noreturn.add(name)
        a = FN_BASE
        for name in list(self.ftext) + sorted(self.decls):
            self.addr[name] = a
            self.by_addr[a] = name
            a += 16

    def addr_of(self, name):
        r = self.addr.get(name)
        if r is None:
            if name not in self.gtext:
                raise IRError("unknown symbol " + name)
            t, _ = self.global_type(name)
            if t is None:            # alias
                line = self.lines[self.gtext[name]]
                tk = Toks(line.split(" = ", 1)[1], self)
                while tk.peek() and not tk.peek().startswith("@"):
                    tk.next()
                r = self.addr_of(tk.next())
            else:
                r = GLOBAL_BASE + (self.global_order.index(name) << 32)
            self.addr[name] = r
            self.by_addr[r] = name
        return r

    def global_type(self, name):
        """(type, tokens positioned at the initialiser) of a global variable; (None, None) for an alias"""
        line = self.lines[self.gtext[name]]
        tk = Toks(line.split(" = ", 1)[1], self)
        ext = False
        while True:
            x = tk.peek()
            if x in ("global", "constant"):
                tk.next()
                break
            if x == "alias":
                return None, None
            if x.startswith("external") or x == "extern_weak":
                ext = True
            tk.next()
            if tk.peek() == "(":
                tk.skip_parens()
        t = tk.type()
        return t, (None if ext else tk)

    def func(self, name):
        f = self.funcs.get(name)
        if f is None:
            f = self.funcs[name] = self._parse(name)
        return f

    def _parse(self, name):
        i, j = self.ftext[name]
        f = Func()
        f.name = name
        f.rust = self.rust_name.get(name, name)
        head = self.lines[i]
        k = head.index(name + "(") + len(name)
        tk = Toks(head[k:], self)
        tk.expect("(")
        f.params = []
        f.ptypes = {}
        f.info = None
        while not tk.accept(")"):
            if tk.accept("..."):
                continue
            t = tk.type()
            while tk.peek() not in (",", ")") and not tk.peek().startswith("%"):
                x = tk.next()
                if tk.peek() == "(":
                    tk.skip_parens()
            if tk.peek().startswith("%"):
                f.params.append(tk.next())
                f.ptypes[f.params[-1]] = t
            else:
                f.params.append(None)
            tk.accept(",")
        f.blocks = {}
        cur = None
        n = i + 1
        first = True
        while n < j:
            s = self.lines[n]
            n += 1
            if not s or s[0] == ";":
                continue
            if s[0] != " ":
                m = re.match(r'("[^"]*"|[-\w$.]+):', s)
                lab = "%" + m.group(1)
                cur = f.blocks[lab] = []
                if first:
                    f.entry = lab
                    first = False
                continue
            if s.lstrip().startswith(";"):
                continue
            if cur is None:
                # unnamed entry block
                cnt = len([p for p in f.params if p is not None])
                lab = "%" + str(cnt)
                cur = f.blocks[lab] = []
                f.entry = lab
                first = False
            # join multi-line switch / invoke / landingpad
            if " switch " in s and s.rstrip().endswith("["):
                while not self.lines[n].strip().startswith("]"):
                    s += " " + self.lines[n].strip()
                    n += 1
                s += " ]"
                n += 1
            if re.search(r"\binvoke\b", s) and " unwind label " not in s:
                s += " " + self.lines[n].strip()
                n += 1
            if "landingpad" in s:
                while n < j and re.match(r"\s+(cleanup|catch|filter)", self.lines[n]):
                    n += 1
            cur.append(self._ins(s))
        return f

    def _ins(self, s):
        dst = None
        m = re.match(r'\s+(%(?:"[^"]*"|[-\w$.]+)) = ', s)
        if m:
            dst = m.group(1)
            s2 = s[m.end():]
        else:
            s2 = s.strip()
        # metadata attachments
        k = s2.find(", !")
        if k >= 0:
            s2 = s2[:k]
        tk = Toks(s2, self)
        op = tk.next()
        if op in ("tail", "musttail", "notail"):
            op = tk.next()
        if op in BIN:
            while tk.peek() in FLAGS:
                tk.next()
            t = tk.type()
            a = tk.value(t)
            tk.expect(",")
            b = tk.value(t)
            return Ins(op, dst, (t, a, b), t)
        if op in CAST:
            while tk.peek() in FLAGS:
                tk.next()
            t = tk.type()
            a = tk.value(t)
            tk.expect("to")
            d = tk.type()
            return Ins(op, dst, (t, a, d), d)
        if op in ("icmp", "fcmp"):
            while tk.peek() in FLAGS:
                tk.next()
            pred = tk.next()
            t = tk.type()
            a = tk.value(t)
            tk.expect(",")
            return Ins(op, dst, (pred, t, a, tk.value(t)), ("v", t[1], ("i", 1)) if t[0] == "v" else ("i", 1))
        if op == "load":
            while tk.peek() in FLAGS:
                tk.next()
            t = tk.type()
            tk.expect(",")
            tk.type()
            return Ins(op, dst, (t, tk.value(PTR)), t)
        if op == "store":
            while tk.peek() in FLAGS:
                tk.next()
            t = tk.type()
            v = tk.value(t)
            tk.expect(",")
            tk.type()
            return Ins(op, dst, (t, v, tk.value(PTR)))
        if op == "getelementptr":
            while tk.peek() in FLAGS:
                tk.next()
            bt = tk.type()
            tk.expect(",")
            tk.type()
            p = tk.value(PTR)
            idx = []
            while tk.accept(","):
                it = tk.type()
                idx.append((it, tk.value(it)))
            return Ins(op, dst, (bt, p, idx), PTR)
        if op == "br":
            if tk.accept("label"):
                return Ins("jmp", None, tk.next())
            t = tk.type()
            c = tk.value(t)
            tk.expect(",")
            tk.expect("label")
            a = tk.next()
            tk.expect(",")
            tk.expect("label")
            return Ins("br", None, (c, a, tk.next()))
        if op == "switch":
            t = tk.type()
            v = tk.value(t)
            tk.expect(",")
            tk.expect("label")
            d = tk.next()
            tk.expect("[")
            cases = []
            while not tk.accept("]"):
                ct = tk.type()
                cv = tk.value(ct)
                tk.expect(",")
                tk.expect("label")
                cases.append((cv, tk.next()))
            return Ins(op, None, (t, v, d, cases))
        if op == "phi":
            while tk.peek() in FLAGS:
                tk.next()
            t = tk.type()
            inc = {}
            while True:
                tk.expect("[")
                v = tk.value(t)
                tk.expect(",")
                inc[tk.next()] = v
                tk.expect("]")
                if not tk.accept(","):
                    break
            return Ins(op, dst, (t, inc), t)
        if op == "select":
            while tk.peek() in FLAGS:
                tk.next()
            ct = tk.type()
            c = tk.value(ct)
            tk.expect(",")
            t = tk.type()
            a = tk.value(t)
            tk.expect(",")
            tk.type()
            return Ins(op, dst, (ct, c, t, a, tk.value(t)), t)
        if op == "ret":
            t = tk.type()
            return Ins(op, None, (t, None if t == VOID else tk.value(t)))
        if op == "alloca":
            t = tk.type()
            n = 1
            if tk.accept(","):
                if tk.is_type():
                    it = tk.type()
                    n = tk.value(it)
            return Ins(op, dst, (t, n), PTR)
        if op == "unreachable":
            return Ins(op, None, None)
        if op == "extractvalue":
            t = tk.type()
            v = tk.value(t)
            ix = []
            while tk.accept(","):
                ix.append(int(tk.next()))
            for i in ix:
                t = elem(t, i)
            return Ins(op, dst, (v, ix), t)
        if op == "insertvalue":
            t = tk.type()
            v = tk.value(t)
            tk.expect(",")
            et = tk.type()
            e = tk.value(et)
            ix = []
            while tk.accept(","):
                ix.append(int(tk.next()))
            return Ins(op, dst, (v, e, ix), t)
        if op == "freeze" or op == "fneg":
            while tk.peek() in FLAGS:
                tk.next()
            t = tk.type()
            return Ins(op, dst, (t, tk.value(t)), t)
        if op in ("call", "invoke"):
            return self._call(tk, dst, op)
        if op == "fence":
            return Ins("nop", None, None)
        if op == "atomicrmw":
            while tk.peek() in FLAGS:
                tk.next()
            o = tk.next()
            tk.type()
            p = tk.value(PTR)
            tk.expect(",")
            t = tk.type()
            return Ins(op, dst, (o, p, t, tk.value(t)), t)
        if op == "cmpxchg":
            while tk.peek() in FLAGS or tk.peek() == "weak":
                tk.next()
            tk.type()
            p = tk.value(PTR)
            tk.expect(",")
            t = tk.type()
            c = tk.value(t)
            tk.expect(",")
            tk.type()
            return Ins(op, dst, (p, t, c, tk.value(t)), ("s", (t, ("i", 1)), False))
        if op in ("insertelement", "extractelement", "shufflevector"):
            args = []
            while True:
                t = tk.type()
                args.append((t, tk.value(t)))
                if not tk.accept(","):
                    break
            t = args[0][0]
            if op == "extractelement":
                t = t[2]
            elif op == "shufflevector":
                t = ("v", args[2][0][1], t[2])
            return Ins(op, dst, args, t)
        return Ins("unsupported", dst, s.strip())

    def _call(self, tk, dst, op):
        # calling convention, fast-math flags and return attributes
        while not tk.is_type():
            tk.next()
            if tk.peek() == "(":
                tk.skip_parens()
            elif tk.t[tk.i - 1] in ("align", "dereferenceable") and tk.peek().isdigit():
                tk.next()
        rt = tk.type()
        if tk.peek() == "(":
            tk.skip_parens()
        if tk.peek() == "asm":
            return Ins("unsupported", dst, tk.s)
        c = tk.next()
        callee = Local(c) if c[0] == "%" else c
        if c in ("@llvm.assume", "@llvm.experimental.noalias.scope.decl") or c.startswith("@llvm.dbg"):
            return Ins("nop", None, None)
        tk.expect("(")
        args = []
        while not tk.accept(")"):
            t = tk.type()
            tk.skip_attrs()
            args.append((t, tk.value(t)))
            tk.accept(",")
        if c.startswith("@llvm.lifetime"):
            return Ins("lifetime", None, args[-1][1])
        noret = any(x in self.noreturn_groups for x in tk.t[tk.i:] if x[0] == "#")
        to = None
        if op == "invoke":
            while tk.peek() != "to":
                tk.next()
            tk.next()
            tk.expect("label")
            to = tk.next()
        return Ins("call", dst, (rt, callee, args, noret, to), rt)
