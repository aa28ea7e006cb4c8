#!/usr/bin/env python3-vt
"""Symbolic execution of LLVM IR with z3.

    sx.py <module.ll> <function> [--timeout S] [--rejects] [--merge REGEX] ...

Paths fork at symbolic branches; a query to z3 decides whether each side is feasible.  Values are
Python integers when concrete and z3 bit-vectors (Bool for i1) otherwise; floating-point numbers are
their bit patterns, comparisons on them are exact, and arithmetic on them is an uninterpreted function
of the operands, refined to IEEE semantics before a counterexample is reported.  Prints one JSON
object.
"""
import sys, os, re, json, time, math, struct
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
from ir import *
import ir

sys.setrecursionlimit(100000)
M64 = (1 << 64) - 1


class Give(Exception):
    """The executor cannot continue soundly."""


def locals_of(a):
    """Names of the locals used by an instruction's operands"""
    if type(a) is Local:
        yield a.n
    elif type(a) in (tuple, list):
        for x in a:
            if type(x) in (Local, tuple, list, Agg):
                yield from locals_of(x)
    elif type(a) is Agg:
        for x in a.v:
            yield from locals_of(x)


class SP:
    """A pointer base + off with a symbolic offset, off = c (mod stride)"""
    __slots__ = ("base", "off", "c", "stride")

    def __init__(self, base, off, c, stride):
        self.base, self.off, self.c, self.stride = base, off, c, stride

    def bv(self):
        return z3.BitVecVal(self.base, 64) + self.off


class PI:
    """One of two pointers"""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def bv(self):
        return z3.If(self.c, bv(self.a, 64), bv(self.b, 64))


# ------------------------------------------------------------------------------------------------
# terms

def isz(v):
    return isinstance(v, z3.ExprRef)


def bv(v, w):
    """v (int, Bool or BV) as a bit-vector of width w"""
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if isinstance(v, (SP, PI)):
        return v.bv()
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v


def lower(v):
    """z3 literal -> int"""
    if z3.is_bv_value(v):
        return v.as_long()
    if z3.is_true(v):
        return 1
    if z3.is_false(v):
        return 0
    return v


def boolz(v):
    return z3.BoolVal(bool(v)) if isinstance(v, int) else v


def s_(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def is_ite(v):
    return z3.is_app_of(v, z3.Z3_OP_ITE)


def mk_not(c):
    if isinstance(c, int):
        return 1 - c
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


def mk_and(a, b):
    if isinstance(a, int):
        return b if a else 0
    if isinstance(b, int):
        return a if b else 0
    return z3.And(a, b)


def mk_or(a, b):
    if isinstance(a, int):
        return 1 if a else b
    if isinstance(b, int):
        return 1 if b else a
    return z3.Or(a, b)


def mk_ite(c, a, b, w):
    """w == 1: Bool"""
    if isinstance(c, int):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, int) and isinstance(b, int):
        if a == b:
            return a
        if w == 1:
            return c if a else mk_not(c)
    elif isz(a) and isz(b) and a.eq(b):
        return a
    if w == 1:
        if isinstance(a, int):
            return mk_or(c, b) if a else mk_and(mk_not(c), b)
        if isinstance(b, int):
            return mk_or(mk_not(c), a) if b else mk_and(c, a)
        return z3.If(c, a, b)
    return z3.If(c, bv(a, w), bv(b, w))


MAXLEAF = 40


def const_leaves(v, budget=MAXLEAF):
    """Whether v is an if-then-else tree over at most `budget` literals; returns the count or 0"""
    n = 0
    stack = [v]
    while stack:
        x = stack.pop()
        if z3.is_bv_value(x) or z3.is_true(x) or z3.is_false(x):
            n += 1
            if n > budget:
                return 0
        elif is_ite(x):
            stack.append(x.arg(1))
            stack.append(x.arg(2))
        else:
            return 0
    return n


def lift(v, f, w):
    """Applies f (int -> int) to the leaves of an if-then-else tree of literals"""
    x = lower(v)
    if isinstance(x, int):
        return f(x)
    return mk_ite(v.arg(0), lift(v.arg(1), f, w), lift(v.arg(2), f, w), w)


def f2b(f):
    return struct.unpack("<Q", struct.pack("<d", f))[0]


def b2f(b):
    return struct.unpack("<d", struct.pack("<Q", b))[0]


BV64 = z3.BitVecSort(64)
BV32 = z3.BitVecSort(32)
_uf = {}


def uf(name, *sorts):
    f = _uf.get(name)
    if f is None:
        f = _uf[name] = z3.Function(name, *sorts)
    return f


def fold(op, a, b):
    x, y = b2f(a), b2f(b)
    try:
        if op == "fadd":
            r = x + y
        elif op == "fsub":
            r = x - y
        elif op == "fmul":
            r = x * y
        elif op == "fdiv":
            if y == 0:
                r = math.nan if (x == 0 or x != x) else math.copysign(math.inf, x) * math.copysign(1, y)
            else:
                r = x / y
        else:
            r = math.fmod(x, y)
    except OverflowError:
        r = math.inf
    return f2b(r)


def fold1(kind, v):
    x = b2f(v)
    if x != x or math.isinf(x) and kind in ("floor", "ceil", "round", "trunc", "rint"):
        return v
    try:
        if kind == "floor":
            r = float(math.floor(x))
        elif kind == "ceil":
            r = float(math.ceil(x))
        elif kind in ("trunc", "ftrunc"):
            r = float(math.trunc(x))
        elif kind == "round":
            r = math.copysign(float(math.floor(abs(x) + 0.5)) if abs(x) < 2 ** 52 and abs(x) != 0.49999999999999994 else (0.0 if abs(x) < 1 else abs(x)), x)
        elif kind == "rint":
            r = float(round(x)) if abs(x) < 2 ** 52 else x
        elif kind == "sqrt":
            r = math.sqrt(x) if x >= 0 else math.nan
        elif kind == "exp":
            r = math.exp(x)
        elif kind == "log":
            r = math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)
        else:
            return None
    except OverflowError:
        r = math.inf
    r = math.copysign(r, x) if r == 0 and kind != "exp" and kind != "log" else r
    return f2b(r)


def fold_pow(a, b):
    x, y = b2f(a), b2f(b)
    if x != x or y != y:
        return ONE if y == 0 or x == 1 else f2b(math.nan)
    try:
        return f2b(math.pow(x, y))
    except OverflowError:
        odd = y == int(y) and int(y) % 2 == 1
        return f2b(-math.inf if x < 0 and odd else math.inf)
    except ZeroDivisionError:
        return f2b(math.inf)
    except ValueError:
        return f2b(math.inf if x == 0 else math.nan)


def concrete_fp(n, ch):
    """The value of a floating-point function on bit patterns"""
    if n in ("fadd", "fsub", "fmul", "fdiv", "frem"):
        return fold(n, *ch)
    if n[:6] in ("sitofp", "uitofp"):
        w = int(n[6:])
        return f2b(float(s_(ch[0], w) if n[0] == "s" else ch[0]))
    if n in ("pow", "powi"):
        return fold_pow(*ch)
    if n[:4] == "fpto":
        return fold_toi(n[4] == "s", int(n[6:]), ch[0])
    return fold1(n, ch[0])


def fold_toi(signed, w, v):
    x = b2f(v)
    if x != x:
        return 0
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
    if x <= lo:
        return lo & ((1 << w) - 1)
    if x >= hi:
        return hi
    return int(x) & ((1 << w) - 1)


ONE, ZERO, NZERO = f2b(1.0), 0, 1 << 63


def unneg(x):
    """y if x is the floating-point negation of y"""
    if not isz(x) or not z3.is_app(x):
        return None
    k = x.decl().kind()
    if k == z3.Z3_OP_BXOR and x.num_args() == 2:
        for i in (0, 1):
            if z3.is_bv_value(x.arg(i)) and x.arg(i).as_long() == 1 << 63:
                return x.arg(1 - i)
    if k == z3.Z3_OP_CONCAT and x.num_args() == 2:
        h, l = x.children()
        if h.decl().kind() == z3.Z3_OP_BNOT and h.size() == 1 and l.decl().kind() == z3.Z3_OP_EXTRACT and l.params() == [62, 0]:
            h = h.arg(0)
            if h.decl().kind() == z3.Z3_OP_EXTRACT and h.params() == [63, 63] and h.arg(0).eq(l.arg(0)):
                return l.arg(0)
    return None


def fneg(v):
    if isinstance(v, int):
        return v ^ (1 << 63)
    u = unneg(v)
    if u is not None:
        return u
    if const_leaves(v):
        return lift(v, fneg, 64)
    return v ^ z3.BitVecVal(1 << 63, 64)


def nozero(t):
    """t without zeros added, equal as a number"""
    while z3.is_app(t) and t.num_args() == 2 and t.decl().name() in ("fadd", "fsub"):
        x, y = t.children()
        if z3.is_bv_value(y) and y.as_long() << 1 & (2 ** 64 - 1) == 0:
            t = x
        elif z3.is_bv_value(x) and x.as_long() << 1 & (2 ** 64 - 1) == 0:
            t = y if t.decl().name() == "fadd" else bv(fneg(y), 64)
        else:
            break
    if z3.is_bv_value(t) and t.as_long() == NZERO:
        return z3.BitVecVal(0, 64)
    return t


def fbin(op, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return fold(op, a, b)
    # signs go outside: exact, but for the sign of a NaN, which is not defined anyway
    if op in ("fmul", "fdiv"):
        sign = False
        x = a ^ (1 << 63) if isinstance(a, int) and a >> 63 else unneg(a)
        if x is not None:
            a, sign = x, not sign
        x = b ^ (1 << 63) if isinstance(b, int) and b >> 63 else unneg(b)
        if x is not None:
            b, sign = x, not sign
        if sign:
            return fneg(fbin(op, a, b))
    elif op == "fadd":
        if unneg(b) is not None:
            return fbin("fsub", a, unneg(b))
        if unneg(a) is not None:
            return fbin("fsub", b, unneg(a))
    elif op == "fsub" and unneg(b) is not None:
        return fbin("fadd", a, unneg(b))
    if isinstance(b, int):
        if op in ("fmul", "fdiv") and b == ONE:
            return a
        if op == "fdiv" and b & (2 ** 52 - 1) == 0 and 1 < b >> 52 < 2045:
            # by a power of two: LLVM makes that a multiplication, equally exact
            return fbin("fmul", a, f2b(1 / b2f(b)))
        if op == "fsub" and b == ZERO:
            return a
        if op == "fadd" and b == NZERO:
            return a
        if const_leaves(a):
            return lift(a, lambda x: fold(op, x, b), 64)
    if isinstance(a, int):
        if op == "fmul" and a == ONE:
            return b
        if op == "fadd" and a == NZERO:
            return b
        if const_leaves(b):
            return lift(b, lambda x: fold(op, a, x), 64)
    a, b = bv(a, 64), bv(b, 64)
    if op in ("fadd", "fmul"):
        # commutative: the order in which the pair first occurred
        k = (op, a.get_id(), b.get_id())
        if k not in COMM:
            if (op, k[2], k[1]) in COMM:
                a, b = b, a
            else:
                COMM[k] = (a, b)
    return uf(op, BV64, BV64, BV64)(a, b)


COMM = {}
FEQ = {}


def fisnan(a):
    if isinstance(a, int):
        return 1 if (a & (2 ** 63 - 1)) > 0x7FF0000000000000 else 0
    return z3.UGT(a & z3.BitVecVal(2 ** 63 - 1, 64), z3.BitVecVal(0x7FF0000000000000, 64))


def fkey(a):
    """Order-preserving map from non-NaN doubles (both zeros alike) to signed integers"""
    m = a & z3.BitVecVal(2 ** 63 - 1, 64)
    return z3.If(z3.Extract(63, 63, a) == 1, -m, m)


def sitofp_arg(x):
    if isz(x) and z3.is_app(x) and x.decl().name() == "sitofp32":
        return x.arg(0)
    return None


def fcmp(pred, a, b):
    if isinstance(a, int) and isinstance(b, int):
        x, y = b2f(a), b2f(b)
        un = x != x or y != y
        if pred == "ord":
            return int(not un)
        if pred == "uno":
            return int(un)
        r = {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[pred[1:]]
        return int(r and not un) if pred[0] == "o" else int(r or un)
    if pred == "true":
        return 1
    if pred == "false":
        return 0
    if isinstance(b, int) and const_leaves(a):
        return lift(a, lambda x: fcmp(pred, x, b), 1)
    if isinstance(a, int) and const_leaves(b):
        return lift(b, lambda x: fcmp(pred, a, x), 1)
    # comparisons of converted 32-bit integers are comparisons of the integers
    ia, ib = sitofp_arg(a), sitofp_arg(b)
    if ia is not None and isinstance(b, int):
        y = b2f(b)
        if y == y and abs(y) < 2 ** 31 and y == int(y):
            ib = z3.BitVecVal(int(y), 32)
    if ib is not None and isinstance(a, int):
        x = b2f(a)
        if x == x and abs(x) < 2 ** 31 and x == int(x):
            ia = z3.BitVecVal(int(x), 32)
    if ia is not None and ib is not None:
        p = pred[1:] if pred not in ("ord", "uno") else pred
        r = {"eq": lambda: ia == ib, "ne": lambda: ia != ib, "lt": lambda: ia < ib, "le": lambda: ia <= ib,
             "gt": lambda: ia > ib, "ge": lambda: ia >= ib, "ord": lambda: z3.BoolVal(True),
             "uno": lambda: z3.BoolVal(False)}[p]()
        return lower(z3.simplify(r))
    un = mk_or(fisnan(a), fisnan(b))
    if pred == "uno":
        return un
    if pred == "ord":
        return mk_not(un)
    A, B = bv(a, 64), bv(b, 64)
    p = pred[1:]
    if p in ("eq", "ne") and A.eq(B):
        r = 1 if p == "eq" else 0
    elif pred == "oeq":
        r = mk_and(fkey(A) == fkey(B), mk_not(un))
        if isz(r):
            FEQ[r.get_id()] = (A, B, r)
        return r
    else:
        ka, kb = fkey(A), fkey(B)
        r = {"eq": lambda: ka == kb, "ne": lambda: ka != kb, "lt": lambda: ka < kb, "le": lambda: ka <= kb,
             "gt": lambda: ka > kb, "ge": lambda: ka >= kb}[p]()
    if pred[0] == "o":
        return mk_and(r, mk_not(un))
    return mk_or(r, un)


# ------------------------------------------------------------------------------------------------
# memory

class Obj:
    __slots__ = ("size", "cells", "owner", "alive", "kind", "zero")

    def __init__(self, size, owner, kind):
        self.size = size
        self.cells = {}          # offset -> (size, value, isptr)
        self.owner = owner
        self.alive = True
        self.kind = kind         # 'stack' 'heap' 'global'
        self.zero = False        # bytes not in `cells` are zero (else uninitialised)

    def copy(self, owner):
        o = Obj(self.size, owner, self.kind)
        o.cells = dict(self.cells)
        o.alive = self.alive
        o.zero = self.zero
        return o


class Frame:
    __slots__ = ("fn", "block", "code", "pc", "prev", "loc", "dst", "allocas", "to", "joins")

    def __init__(self, fn, dst, to):
        self.fn, self.dst, self.to = fn, dst, to
        self.block = fn.entry
        self.code = fn.blocks[fn.entry]
        self.pc = 0
        self.prev = None
        self.loc = {}
        self.allocas = []
        self.joins = None

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.block, f.code, f.pc, f.prev, f.dst, f.to = self.fn, self.block, self.code, self.pc, self.prev, self.dst, self.to
        f.loc = dict(self.loc)
        f.joins = self.joins
        f.allocas = list(self.allocas)
        return f


class State:
    __slots__ = ("frames", "mem", "pc", "draws", "token", "model", "steps", "retval", "ndraw", "at_join", "defs")

    def fork(self, eng):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = self.pc
        s.draws = self.draws
        s.ndraw = self.ndraw
        s.model = self.model
        s.steps = self.steps
        s.retval = None
        s.at_join = False
        s.defs = self.defs
        s.token = eng.new_token()
        self.token = eng.new_token()
        return s


class Dead(Exception):
    pass


class Fork(Exception):
    """Raised inside an instruction: re-execute it on each side of the conditions"""

    def __init__(self, conds):
        self.conds = conds


CMPS = {z3.Z3_OP_EQ: ("eq", False), z3.Z3_OP_SLEQ: ("le", True), z3.Z3_OP_SLT: ("lt", True), z3.Z3_OP_SGEQ: ("ge", True),
        z3.Z3_OP_SGT: ("gt", True), z3.Z3_OP_ULEQ: ("le", False), z3.Z3_OP_ULT: ("lt", False), z3.Z3_OP_UGEQ: ("ge", False),
        z3.Z3_OP_UGT: ("gt", False)}


def linear(t):
    """t as (constant, {id: (term, coefficient)}) over sums and constant multiples"""
    r = LIN.get(t.get_id())
    if r is not None:
        return r[1]
    w = t.size()
    M = (1 << w) - 1
    if z3.is_bv_value(t):
        r = (t.as_long(), {})
    else:
        k = t.decl().kind()
        c, d = 0, {}

        def put(x, f):
            nonlocal c
            e, g = linear(x)
            c = (c + f * e) & M
            for i, (y, n) in g.items():
                n = ((d[i][1] if i in d else 0) + f * n) & M
                if n:
                    d[i] = (y, n)
                else:
                    d.pop(i, None)
        if k == z3.Z3_OP_BADD:
            for x in t.children():
                put(x, 1)
        elif k == z3.Z3_OP_BSUB and t.num_args() == 2:
            put(t.arg(0), 1)
            put(t.arg(1), -1)
        elif k == z3.Z3_OP_BNEG:
            put(t.arg(0), -1)
        elif k == z3.Z3_OP_BMUL and t.num_args() == 2 and z3.is_bv_value(t.arg(0)):
            put(t.arg(1), t.arg(0).as_long())
        elif k == z3.Z3_OP_BMUL and t.num_args() == 2 and z3.is_bv_value(t.arg(1)):
            put(t.arg(0), t.arg(1).as_long())
        elif k == z3.Z3_OP_BNOT:
            c = M
            put(t.arg(0), -1)
        else:
            d = {t.get_id(): (t, 1)}
        r = (c, d)
    if len(r[1]) > 24:
        r = (0, {t.get_id(): (t, 1)})
    LIN[t.get_id()] = (t, r)
    return r


LIN = {}


def linear_sub(A, B):
    """A - B when terms cancel, or None"""
    (c, p), (e, q) = linear(A), linear(B)
    if not any(i in q and q[i][1] == p[i][1] for i in p):
        return None
    w = A.size()
    M = (1 << w) - 1
    d = dict(p)
    for i, (y, n) in q.items():
        n = ((d[i][1] if i in d else 0) - n) & M
        if n:
            d[i] = (y, n)
        else:
            d.pop(i, None)
    r = z3.BitVecVal((c - e) & M, w)
    for i in sorted(d):
        y, n = d[i]
        r = r + y if n == 1 else r - y if n == M else r + z3.BitVecVal(n, w) * y
    return z3.simplify(r)


class Engine:
    def __init__(self, mod, opts):
        self.nobounds = {}
        self.bmemo = {}
        self.brange = {id(self.nobounds): ({}, self.nobounds)}
        self.m = mod
        self.o = opts
        self.t0 = time.time()
        self.deadline = self.t0 + opts.get("timeout", 600)
        self.tok = 0
        self.next_obj = 1
        self.HEAP = 1 << 56
        self.queries = 0
        self.qtime = 0.0
        self.paths = 0
        self.steps = 0
        self.funcs = {}
        self.covers = {}
        self.violation = None
        self.problems = []
        self.solver = z3.Solver()
        self.solver.set("timeout", opts.get("qtimeout", 3000))
        self.stack = []          # constraints on the solver
        self.globals = {}
        self.merge_re = re.compile(opts["merge"]) if opts.get("merge") else None
        self.nomerge_re = re.compile(opts["nomerge"]) if opts.get("nomerge") else None
        self.merges = 0
        self.merge_fail = 0
        self.forks = {}
        self.props = 0
        self.defined = {}
        self.defs_memo = {}
        self.civil_memo = {}
        self.groups = {}
        self.fresh = 0
        self.tick = 0

    def new_token(self):
        self.tok += 1
        return self.tok

    # ---- solver ---------------------------------------------------------------------------------
    def sync(self, pc):
        want = []
        n = pc
        while n is not None:
            want.append(n)
            n = n[0]
        want.reverse()
        k = 0
        st = self.stack
        while k < len(st) and k < len(want) and st[k] is want[k]:
            k += 1
        if len(st) > k:
            self.solver.pop(len(st) - k)
            del st[k:]
        for n in want[k:]:
            self.solver.push()
            self.solver.add(n[1])
            st.append(n)

    def check(self, st, c):
        """Whether pc and c is satisfiable; returns (bool, model)"""
        if time.time() > self.deadline:
            raise Give("time limit")
        if self.defined:
            self.define(st, c)
        self.sync(st.pc)
        t = time.time()
        self.solver.push()
        self.solver.add(c)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        why = self.solver.reason_unknown() if r == z3.unknown else ""
        self.solver.pop()
        dt = time.time() - t
        self.qtime += dt
        self.queries += 1
        if dt > 2 and self.o.get("verbose"):
            print("slow query %.1fs %s in %s" % (dt, r, [f.fn.rust[-40:] for f in st.frames[-3:]]), file=sys.stderr)
            if os.environ.get("SXDUMP"): open("/tmp/slow.smt2","w").write(self.solver.to_smt2()+"\n; "+c.sexpr())
        if r == z3.unknown:
            r2, m = self.oneshot(st, c)
            if r2 is None:
                raise Give("solver gave no answer (%s)" % why)
            return r2, m
        return r == z3.sat, m

    def oneshot(self, st, c):
        t = time.time()
        s = z3.Then("simplify", "propagate-values", "solve-eqs", "ackermannize_bv", "bit-blast", "sat").solver()
        s.set("timeout", int(max(1, min(self.o.get("qtimeout2", 200), self.deadline - time.time())) * 1000))
        for x in self.pclist(st.pc):
            s.add(x)
        s.add(c)
        r = s.check()
        self.qtime += time.time() - t
        self.queries += 1
        if r == z3.unknown:
            return None, None
        return r == z3.sat, (s.model() if r == z3.sat else None)

    def pclist(self, pc):
        out = []
        while pc is not None:
            out.append(pc[1])
            pc = pc[0]
        out.reverse()
        return out

    def assume(self, st, c):
        if self.defined:
            self.define(st, c)
        st.pc = (st.pc, c)

    def defs_of(self, c):
        """Names of the defined variables in the term c, with those in their definitions"""
        k = c.get_id()
        r = self.defs_memo.get(k)
        if r is not None:
            return r[1]
        out = set()
        seen = set()
        stack = [c]
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            m = self.defs_memo.get(i)
            if m is not None:
                out |= m[1]
                continue
            if x.num_args() == 0:
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    n = x.decl().name()
                    if n in self.defined:
                        out.add(n)
                        stack.append(self.defined[n][1])
            else:
                stack.extend(x.children())
        out = frozenset(out)
        self.defs_memo[k] = (c, out)
        return out

    def define(self, st, c):
        """Adds the definitions of the variables of c to the path condition"""
        new = self.defs_of(c) - st.defs if isz(c) else ()
        if new:
            for n in sorted(new, key=lambda n: self.defined[n][2]):
                st.pc = (st.pc, self.defined[n][0])
                g = self.groups.get(n)
                if g is not None:
                    k = 0
                    for o in sorted((o for o in st.defs | new if o != n and o in self.groups
                                     and (o in st.defs or self.defined[o][2] < self.defined[n][2])), key=lambda o: -self.defined[o][2]):
                        h = self.groups[o]
                        for l in (near(g, h), near(h, g)):
                            if l is not None:
                                st.pc = (st.pc, l)
                        k += 1
                        if k == 4:
                            break
            st.defs = st.defs | new
            st.model = None

    def eval_model(self, st, c):
        if st.model is None:
            return None
        v = st.model.eval(c, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    # ---- intervals ------------------------------------------------------------------------------
    # Signed ranges of terms that follow from bounds on variables in the path condition: they settle
    # most overflow and range checks without the solver.

    def bounds(self, pc):
        """Bounds on variables that the path condition states: {id: (lo, hi, term)}"""
        todo = []
        b = None
        while b is None:
            if pc is None:
                b = self.nobounds
                break
            r = self.bmemo.get(id(pc))
            if r is not None:
                b = r[1]
                break
            todo.append(pc)
            pc = pc[0]
        for n in reversed(todo):
            new = None
            stack = [n[1]]
            while stack:
                c = stack.pop()
                if not z3.is_app(c):
                    continue
                if c.decl().kind() == z3.Z3_OP_AND:
                    stack.extend(c.children())
                    continue
                x = self.bound_of(c, False)
                if x is None:
                    continue
                v, lo, hi = x
                o = (new or b).get(v.get_id())
                if o is not None:
                    lo, hi = max(lo, o[0]), min(hi, o[1])
                    if (lo, hi) == o[:2]:
                        continue
                if lo > hi:
                    continue
                if new is None:
                    new = dict(b)
                new[v.get_id()] = (lo, hi, v)
            if new is not None:
                b = new
                self.brange[id(b)] = ({}, b)
            self.bmemo[id(n)] = (n, b)
        return b

    def bound_of(self, c, neg):
        """(variable, lo, hi) that the comparison c states, in signed numbers"""
        k = c.decl().kind()
        if k == z3.Z3_OP_NOT:
            return self.bound_of(c.arg(0), not neg)
        if k not in CMPS:
            return None
        op, sg = CMPS[k]
        a, b = c.arg(0), c.arg(1)
        if not z3.is_bv(a):
            return None
        w = a.size()
        if z3.is_bv_value(a) == z3.is_bv_value(b):
            return None
        if z3.is_bv_value(a):
            a, b = b, a
            op = {"le": "ge", "ge": "le", "lt": "gt", "gt": "lt", "eq": "eq"}[op]
        n = b.as_long()
        if op == "eq":
            if neg:
                return None
            lo = hi = n
            sg = False
        else:
            if neg:
                op = {"le": "gt", "gt": "le", "lt": "ge", "ge": "lt"}[op]
            if sg:
                n = s_(n, w)
                lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
            else:
                lo, hi = 0, (1 << w) - 1
            if op == "le":
                hi = n
            elif op == "lt":
                hi = n - 1
            elif op == "ge":
                lo = n
            else:
                lo = n + 1
            if lo > hi:
                return None
        # a is a variable, or a variable plus a constant
        off = 0
        if a.decl().kind() == z3.Z3_OP_BADD and a.num_args() == 2 and z3.is_bv_value(a.arg(0)):
            off = s_(a.arg(0).as_long(), w)
            a = a.arg(1)
        elif a.decl().kind() == z3.Z3_OP_BADD and a.num_args() == 2 and z3.is_bv_value(a.arg(1)):
            off = s_(a.arg(1).as_long(), w)
            a = a.arg(0)
        if a.num_args() or a.decl().kind() != z3.Z3_OP_UNINTERPRETED:
            return None
        if sg and off:
            return None
        if off:
            # lo <= a + off <= hi modulo 2^w
            lo, hi = lo - off, hi - off
        h = 1 << (w - 1)
        if not sg:
            # the values lo..hi modulo 2^w as one signed interval
            sh = (lo + h) // (2 * h) * (2 * h)
            lo, hi = lo - sh, hi - sh
            if hi >= h:
                return None
        return a, lo, hi

    def range(self, st, t):
        """Signed interval of the bit vector t under the path condition"""
        b = self.bounds(st.pc)
        memo = self.brange[id(b)][0]
        return self.rng(t, b, memo)

    def rng(self, t, b, memo):
        k0 = t.get_id()
        r = memo.get(k0)
        if r is not None:
            return r[1]
        w = t.size()
        top = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        r = top
        k = t.decl().kind()
        g = lambda x: self.rng(x, b, memo)
        fit = lambda lo, hi: (lo, hi) if lo >= top[0] and hi <= top[1] else top
        if k == z3.Z3_OP_BNUM:
            n = s_(t.as_long(), w)
            r = (n, n)
        elif k == z3.Z3_OP_UNINTERPRETED:
            if t.num_args() == 0:
                o = b.get(k0)
                name = t.decl().name()
                if name.startswith("civ!"):
                    r = {"y": (1801, 2398), "m": (1, 12), "d": (1, 31)}[name[-1]]
                elif name.startswith("day!"):
                    r = (-40000, 200000)
                if o is not None:
                    r = (max(r[0], o[0]), min(r[1], o[1]))
                    if r[0] > r[1]:
                        r = o[:2]
        elif k == z3.Z3_OP_ITE:
            x, y = g(t.arg(1)), g(t.arg(2))
            r = (min(x[0], y[0]), max(x[1], y[1]))
        elif k == z3.Z3_OP_BADD:
            lo = hi = 0
            for x in t.children():
                a = g(x)
                lo += a[0]
                hi += a[1]
            r = fit(lo, hi)
        elif k == z3.Z3_OP_BSUB and t.num_args() == 2:
            x, y = g(t.arg(0)), g(t.arg(1))
            r = fit(x[0] - y[1], x[1] - y[0])
        elif k == z3.Z3_OP_BMUL and t.num_args() == 2:
            x, y = g(t.arg(0)), g(t.arg(1))
            c = [p * q for p in x for q in y]
            r = fit(min(c), max(c))
        elif k == z3.Z3_OP_BNEG:
            x = g(t.arg(0))
            r = fit(-x[1], -x[0])
        elif k == z3.Z3_OP_SIGN_EXT:
            r = g(t.arg(0))
        elif k == z3.Z3_OP_ZERO_EXT:
            x = g(t.arg(0))
            r = x if x[0] >= 0 else (0, (1 << t.arg(0).size()) - 1)
        elif k == z3.Z3_OP_CONCAT:
            x = t.arg(0)
            if z3.is_bv_value(x) and x.as_long() == 0:
                lo, hi = 0, 0
                n = w - x.size()
                if t.num_args() == 2:
                    y = g(t.arg(1))
                    r = y if y[0] >= 0 else (0, (1 << n) - 1)
                else:
                    r = (0, (1 << n) - 1)
        elif k == z3.Z3_OP_EXTRACT:
            hi_, lo_ = t.params()
            if lo_ == 0:
                r = fit(*g(t.arg(0)))
        elif k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I, z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I) and z3.is_bv_value(t.arg(1)):
            x, m = g(t.arg(0)), s_(t.arg(1).as_long(), w)
            if m > 0 and x[0] >= 0:
                r = (0, min(x[1], m - 1))
            elif m > 0:
                r = (1 - m, m - 1) if k in (z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I) else (0, m - 1)
        elif k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I) and z3.is_bv_value(t.arg(1)):
            x, m = g(t.arg(0)), s_(t.arg(1).as_long(), w)
            if m > 0 and x[0] >= 0:
                r = (x[0] // m, x[1] // m)
        elif k == z3.Z3_OP_BLSHR and z3.is_bv_value(t.arg(1)):
            x, m = g(t.arg(0)), t.arg(1).as_long()
            if x[0] >= 0 and m < w:
                r = (x[0] >> m, x[1] >> m)
        elif k == z3.Z3_OP_BAND:
            for x in t.children():
                y = g(x)
                if y[0] >= 0 and (r[0] < 0 or y[1] < r[1]):
                    r = (0, y[1])
        memo[k0] = (t, r)
        return r

    def decide(self, st, c):
        """True or False when the intervals settle c"""
        if not z3.is_app(c):
            return None
        k = c.decl().kind()
        if k == z3.Z3_OP_NOT:
            r = self.decide(st, c.arg(0))
            return None if r is None else not r
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR) and c.num_args() <= 8:
            stop = k == z3.Z3_OP_OR
            all_ = True
            for x in c.children():
                r = self.decide(st, x)
                if r is stop:
                    return stop
                all_ = all_ and r is not None
            return (not stop) if all_ else None
        if k == z3.Z3_OP_IMPLIES:
            a, b = self.decide(st, c.arg(0)), self.decide(st, c.arg(1))
            return True if a is False or b is True else False if a is True and b is False else None
        if k not in CMPS or not z3.is_bv(c.arg(0)):
            return None
        op, sg = CMPS[k]
        x, y = self.range(st, c.arg(0)), self.range(st, c.arg(1))
        if op == "eq":
            return False if x[1] < y[0] or y[1] < x[0] else True if x[0] == x[1] == y[0] == y[1] else None
        if not sg and (x[0] < 0 or y[0] < 0):
            return None
        if op in ("ge", "gt"):
            x, y = y, x
        if op in ("le", "ge"):
            return True if x[1] <= y[0] else False if x[0] > y[1] else None
        return True if x[1] < y[0] else False if x[0] >= y[1] else None

    def split(self, st, c):
        """Feasibility of c and not c under st: (can be true, model, can be false, model)"""
        v = self.decide(st, c)
        if v is not None:
            return v, st.model if v else None, not v, None if v else st.model
        if self.defined:
            self.define(st, c)
        v = self.eval_model(st, c)
        if v is True:
            f, mf = self.check(st, z3.Not(c))
            return True, st.model, f, mf
        if v is False:
            t, mt = self.check(st, c)
            return t, mt, True, st.model
        t, mt = self.check(st, c)
        if not t:
            return False, None, True, None
        f, mf = self.check(st, z3.Not(c))
        return True, mt, f, mf

    # ---- memory ---------------------------------------------------------------------------------
    def alloc(self, st, size, kind):
        a = self.HEAP + (self.next_obj << 32)
        self.next_obj += 1
        st.mem[a >> 32] = Obj(size, st.token, kind)
        if kind == "stack":
            st.frames[-1].allocas.append(a >> 32)
        return a

    def obj(self, st, addr):
        k = addr >> 32
        o = st.mem.get(k)
        if o is None:
            o = self.globals.get(k)
            if o is None:
                o = self.load_global(k)
        return o

    def load_global(self, k):
        name = self.m.by_addr.get(k << 32)
        if name is None:
            raise Give("access to address %#x" % (k << 32))
        t, tk = self.m.global_type(name)
        if tk is None:
            raise Give("access to external global " + name)
        o = Obj(size_of(t), 0, "global")
        o.zero = True
        self.init(o, 0, t, tk.value(t))
        self.globals[k] = o
        return o

    def init(self, o, off, t, v):
        if v is UNDEF:
            return
        if isinstance(v, Agg):
            if t[0] == "a" and t[2] == ("i", 8):
                for i, b in enumerate(v.v):
                    if b is not UNDEF and b:
                        o.cells[off + i] = (1, b, False)
                return
            for i, x in enumerate(v.v):
                self.init(o, off + offset_of(t, i), elem(t, i), x)
            return
        if v == 0:
            return
        o.cells[off] = (store_size(t), v, t[0] == "p")

    def wobj(self, st, addr):
        k = addr >> 32
        o = self.obj(st, addr)
        if o.owner != st.token:
            o = o.copy(st.token)
            st.mem[k] = o
        return o

    def bound(self, o, off, n, addr):
        if off + n > o.size or not o.alive:
            raise Give("out-of-bounds or dead access: %#x size %d, %d bytes" % (addr, o.size, n))

    def fresh_bv(self, w, what="u"):
        self.fresh += 1
        return z3.BitVec("%s!%d" % (what, self.fresh), w)

    def read(self, o, off, n):
        """(value, isptr) of n bytes; None for a value that is entirely uninitialised"""
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return c[1], c[2]
        # assemble from bytes
        bs = []
        known = False
        for i in range(off, off + n):
            b = self.byte(o, i)
            if b is not None:
                known = True
            bs.append(b)
        if not known:
            return None, False
        if all(isinstance(b, int) for b in bs):
            r = 0
            for i, b in enumerate(bs):
                r |= b << (8 * i)
            return r, False
        bs = [self.fresh_bv(8) if b is None else b for b in bs]
        e = z3.Concat(*[bv(b, 8) for b in reversed(bs)]) if n > 1 else bv(bs[0], 8)
        return lower(z3.simplify(e)), False

    def byte(self, o, i):
        for k in range(0, 17):
            c = o.cells.get(i - k)
            if c is not None:
                if c[0] > k:
                    v = c[1]
                    if isinstance(v, int):
                        return (v >> (8 * k)) & 255
                    if isinstance(v, (SP, PI)):
                        v = v.bv()
                    return lower(z3.simplify(z3.Extract(8 * k + 7, 8 * k, v)))
                if k == 0 or c[0] <= k:
                    break
        return 0 if o.zero else None

    def clear(self, o, off, n):
        """Drops the cells in [off, off+n), splitting those that straddle the ends"""
        cells = o.cells
        if o.zero and o.kind != "global":
            pass
        c = cells.get(off)
        if c is not None and c[0] == n:
            return
        for i in range(off - 16, off + n):
            c = cells.get(i)
            if c is None or i + c[0] <= off:
                continue
            if i >= off and i + c[0] <= off + n:
                del cells[i]
                continue
            bs = [(j, self.byte(o, j)) for j in range(i, i + c[0]) if j < off or j >= off + n]
            del cells[i]
            for j, b in bs:
                cells[j] = (1, b, False)

    def write(self, o, off, n, v, isptr):
        self.clear(o, off, n)
        o.cells[off] = (n, v, isptr)

    def unset(self, o, off, n):
        """Makes bytes uninitialised"""
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            del o.cells[off]
        else:
            self.clear(o, off, n)
            for i in range(off, off + n):
                o.cells.pop(i, None)

    def candidates(self, st, p, n, what):
        """Feasible offsets of the symbolic pointer p for an access of n bytes"""
        o = self.obj(st, p.base)
        offs = [x for x in range(p.c % p.stride, max(o.size - n + 1, 0), p.stride)]
        inb = z3.And(z3.ULE(p.off, z3.BitVecVal(o.size - n, 64)))
        bad, m = self.check(st, z3.Not(inb)) if o.size >= n else (True, None)
        if bad:
            raise Give("symbolic access may be out of bounds (%s)" % what)
        return o, offs

    def load(self, st, t, p):
        if t[0] == "s" or t[0] == "a":
            return Agg([self.load(st, elem(t, i), self.padd(p, offset_of(t, i))) for i in range(len(t[1]) if t[0] == "s" else t[1])])
        if t[0] == "v":
            n = t[1]
            es = size_of(t[2])
            if t[2][0] == "i" and t[2][1] % 8:
                raise Give("load of vector of odd integers")
            return Agg([self.load(st, t[2], self.padd(p, i * es)) for i in range(n)])
        n = store_size(t)
        if isinstance(p, int):
            o = self.obj(st, p)
            off = p & 0xFFFFFFFF
            self.bound(o, off, n, p)
            v, isp = self.read(o, off, n)
            return self.conv(v, t, n, st, p)
        if isinstance(p, SP):
            o, offs = self.candidates(st, p, n, "load")
            vals = []
            for x in offs:
                v, isp = self.read(o, x, n)
                vals.append((x, v))
            init = [(x, v) for x, v in vals if v is not None]
            if not init:
                return self.conv(None, t, n, st, p)
            if any(isinstance(v, SP) or (isinstance(v, int) and t[0] == "p") for x, v in init):
                # pointers: fork on the offset
                if len(set(id(v) if not isinstance(v, int) else v for x, v in init)) > 1:
                    return self.load(st, t, p.base + self.concrete(st, p.off, 64, "offset"))
                return init[0][1]
            w = 8 * n
            r = self.compact(p, init, w) if len(init) == len(offs) else None
            return self.conv(self.tree(p.off, init, w) if r is None else r, t, n, st, p)
        if isinstance(p, PI):
            if t[0] != "p":
                try:
                    x, y = self.load(st, t, p.a), self.load(st, t, p.b)
                    return self.sel(st, p.c, t, x, y)
                except Give:
                    pass
            return self.load(st, t, self.force(st, p))
        raise Give("load through %r" % (p,))

    def force(self, st, p):
        """A pointer that is no choice any more, forking if it has to"""
        while isinstance(p, PI):
            t, mt, e, me = self.split(st, p.c)
            if t and e:
                raise Fork([p.c, z3.Not(p.c)])
            if not t and not e:
                raise Dead()
            p = p.a if t else p.b
        return p

    def compact(self, p, vals, w):
        """A table of constants as a*i + b*((i+c) >> 2) + d[i & 3] + (a few steps), if it has such a
        form with few steps"""
        if len(vals) < 24 or p.stride not in (1, 2, 4, 8) or any(not isinstance(v, int) for x, v in vals):
            return None
        xs = [v for x, v in vals]
        if [x for x, v in vals] != list(range(vals[0][0], vals[0][0] + p.stride * len(vals), p.stride)):
            return None
        mask = (1 << w) - 1
        runs = lambda r: 1 + sum(1 for i in range(1, len(r)) if r[i] != r[i - 1])
        best = None
        m = len(xs) // 2
        a = (xs[m + 1] - xs[m]) & mask
        cand = []
        for a in sorted({(xs[m + k + 1] - xs[m + k]) & mask for k in range(4)} | {0}):
            for c in range(4):
                b = (xs[m + 4] - xs[m] - 4 * a) & mask
                cand.append((a, b, c, (0, 0, 0, 0)))
        k = m & ~3
        cand.append((0, 0, 0, tuple(xs[k:k + 4])))
        for a, b, c, d in cand:
            r = [(v - a * i - b * ((i + c) >> 2) - d[i & 3]) & mask for i, v in enumerate(xs)]
            n = runs(r)
            if best is None or n < best[0]:
                best = (n, a, b, c, d, r)
        n, a, b, c, d, r = best
        if n > 8 or n * 3 > runs(xs):
            return None
        sh = {1: 0, 2: 1, 4: 2, 8: 3}[p.stride]
        i = z3.simplify(z3.Extract(sh + 15, sh, p.off - z3.BitVecVal(vals[0][0], 64)))
        ext = lambda e: z3.ZeroExt(w - e.size(), e) if e.size() < w else z3.Extract(w - 1, 0, e) if e.size() > w else e
        def steps(lo, hi):
            if all(x == r[lo] for x in r[lo:hi]):
                return z3.BitVecVal(r[lo], w)
            j = max(k for k in range(lo + 1, hi) if r[k] != r[k - 1])
            return z3.If(z3.UGE(i, z3.BitVecVal(j, 16)), z3.BitVecVal(r[j], w), steps(lo, j))
        e = steps(0, len(r))
        if a:
            e = e + z3.BitVecVal(a, w) * ext(i)
        if b:
            e = e + z3.BitVecVal(b, w) * ext(z3.LShR(i + z3.BitVecVal(c, 16), 2))
        if any(d):
            q = z3.Extract(1, 0, i)
            t = z3.BitVecVal(d[0], w)
            for k in (1, 2, 3):
                if d[k] != d[0]:
                    t = z3.If(q == k, z3.BitVecVal(d[k], w), t)
            e = e + t
        return z3.simplify(e)

    def tree(self, off, vals, w):
        if len(vals) == 1:
            return vals[0][1]
        # runs of equal values collapse
        f = vals[0][1]
        if isinstance(f, int) and all(isinstance(v, int) and v == f for x, v in vals):
            return f
        k = len(vals) // 2
        return mk_ite(z3.ULT(off, z3.BitVecVal(vals[k][0], 64)), self.tree(off, vals[:k], w), self.tree(off, vals[k:], w), w if w > 1 else 8)

    def conv(self, v, t, n, st, p):
        if v is None:
            return UNDEF
        if t[0] == "i" and t[1] != 8 * n:
            if isinstance(v, int):
                return v & ((1 << t[1]) - 1)
            return self.cast("trunc", ("i", 8 * n), v, t)
        if t[0] == "p" and isz(v):
            raise Give("symbolic pointer loaded")
        if t[0] == "i" and isinstance(v, (SP, PI)):
            return v.bv()
        return v

    def store(self, st, t, v, p):
        if t[0] in ("s", "a", "v"):
            if v is UNDEF:
                return
            for i, x in enumerate(v.v):
                self.store(st, elem(t, i), x, self.padd(p, offset_of(t, i)))
            return
        n = store_size(t)
        if t[0] == "i" and t[1] != 8 * n and v is not UNDEF:
            v = self.cast("zext", t, v, ("i", 8 * n))
        if isinstance(p, int):
            o = self.wobj(st, p)
            off = p & 0xFFFFFFFF
            self.bound(o, off, n, p)
            if v is UNDEF:
                if not o.zero:
                    self.unset(o, off, n)
                else:
                    self.write(o, off, n, 0, False)
            else:
                self.write(o, off, n, v, t[0] == "p")
            return
        if isinstance(p, SP):
            o, offs = self.candidates(st, p, n, "store")
            if v is UNDEF:
                return
            o = self.obj(st, p.base)
            for x in offs:
                old, isp = self.read(o, x, n)
                if isinstance(v, (SP, PI)) or isinstance(old, (SP, PI)) or isp or t[0] == "p":
                    return self.store(st, t, v, p.base + self.concrete(st, p.off, 64, "offset"))
            o = self.wobj(st, p.base)
            for x in offs:
                old, isp = self.read(o, x, n)
                new = v if old is None else mk_ite(p.off == z3.BitVecVal(x, 64), v, old, 8 * n)
                self.write(o, x, n, new, False)
            return
        if isinstance(p, PI):
            return self.store(st, t, v, self.force(st, p))
        raise Give("store through %r" % (p,))

    def padd(self, p, k):
        if isinstance(p, int):
            return (p + k) & M64
        if isinstance(p, PI):
            return PI(p.c, self.padd(p.a, k), self.padd(p.b, k))
        return SP(p.base, p.off + z3.BitVecVal(k, 64), p.c + k, p.stride)

    def concrete(self, st, v, w, what):
        """v as an int, forking over its feasible values if it is symbolic"""
        if isinstance(v, int):
            return v
        if v is UNDEF:
            raise Give("undef " + what)
        if isinstance(v, (SP, PI)):
            v = v.bv()
        if isinstance(v, z3.BoolRef):
            t, mt, e, me = self.split(st, v)
            if t and e:
                raise Fork([v, z3.Not(v)])
            if not t and not e:
                raise Dead()
            return 1 if t else 0
        vals = []
        c = z3.BoolVal(True)
        while len(vals) < 200:
            ok, m = self.check(st, c)
            if not ok:
                break
            x = m.eval(v, model_completion=True).as_long()
            vals.append(x)
            c = z3.And(c, v != x)
        else:
            raise Give("too many values for " + what)
        if len(vals) == 1:
            return vals[0]
        raise Fork([v == x for x in vals])

    def memcpy(self, st, d, s, n, move):
        if n == 0:
            return
        d, s = self.force(st, d), self.force(st, s)
        if isinstance(d, SP):
            d = d.base + self.concrete(st, d.off, 64, "offset")
        if isinstance(s, SP):
            o, offs = self.candidates(st, s, n, "memcpy")
            # read cell by cell when every candidate has the same layout
            lay = None
            for x in offs:
                l = []
                i = x
                while i < x + n:
                    c = o.cells.get(i)
                    if c is None or i + c[0] > x + n or c[2] or isinstance(c[1], (SP, PI)):
                        l = None
                        break
                    l.append((i - x, c[0]))
                    i += c[0]
                if l is None or (lay is not None and l != lay):
                    lay = None
                    break
                lay = l
            if lay is None:
                return self.memcpy(st, d, s.base + self.concrete(st, s.off, 64, "offset"), n, move)
            wo = self.wobj(st, d)
            base = d & 0xFFFFFFFF
            self.bound(wo, base, n, d)
            self.unset(wo, base, n)
            for k, sz in lay:
                wo.cells[base + k] = (sz, self.tree(s.off, [(x, o.cells[x + k][1]) for x in offs], 8 * sz), False)
            return
        so = self.obj(st, s)
        a = s & 0xFFFFFFFF
        self.bound(so, a, n, s)
        items = []
        i = a - 16
        # cells inside the range, splitting at the ends
        if n > 64 and len(so.cells) < n // 2:
            keys = sorted(k for k in so.cells if a - 16 <= k < a + n)
        else:
            keys = [k for k in range(a - 16, a + n) if k in so.cells]
        for k in keys:
            c = so.cells[k]
            if k + c[0] <= a:
                continue
            if k >= a and k + c[0] <= a + n:
                items.append((k - a, c))
            else:
                for j in range(max(k, a), min(k + c[0], a + n)):
                    items.append((j - a, (1, self.byte(so, j), False)))
        zero = so.zero
        wo = self.wobj(st, d)
        b = d & 0xFFFFFFFF
        self.bound(wo, b, n, d)
        self.unset(wo, b, n)
        if zero and not wo.zero:
            # gaps are zero in the source: materialise them
            have = set()
            for k, c in items:
                have.update(range(k, k + c[0]))
            k = 0
            while k < n:
                if k in have:
                    k += 1
                    continue
                r = 8 if (b + k) % 8 == 0 and k + 8 <= n and not any(j in have for j in range(k, k + 8)) else 1
                wo.cells[b + k] = (r, 0, False)
                k += r
        elif wo.zero and not zero:
            # destination defaults to zero: leave gaps zero (a legal choice for uninitialised bytes)
            pass
        for k, c in items:
            wo.cells[b + k] = c

    def memset(self, st, d, v, n):
        if n == 0:
            return
        d = self.force(st, d)
        if isinstance(d, SP):
            raise Give("memset through a symbolic pointer")
        o = self.wobj(st, d)
        b = d & 0xFFFFFFFF
        self.bound(o, b, n, d)
        self.unset(o, b, n)
        if v is UNDEF:
            return
        if isinstance(v, int):
            if v == 0 and o.zero:
                return
            k = 0
            while k < n:
                r = 8 if (b + k) % 8 == 0 and k + 8 <= n else 1
                o.cells[b + k] = (r, v * (0x0101010101010101 if r == 8 else 1), False)
                k += r
        else:
            for k in range(n):
                o.cells[b + k] = (1, v, False)

    def cstr(self, st, p, n):
        o = self.obj(st, p)
        out = []
        for i in range(n):
            b = self.byte(o, (p & 0xFFFFFFFF) + i)
            out.append(chr(b) if isinstance(b, int) else "?")
        return "".join(out)

    # ---- operators ------------------------------------------------------------------------------
    def bin(self, op, t, a, b):
        if t[0] == "v":
            return Agg([self.bin(op, t[2], x, y) for x, y in zip(self.vec(a, t), self.vec(b, t))])
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if t[0] == "f":
            if t[1] != 64:
                raise Give("float32 arithmetic")
            if not (isinstance(a, int) and isinstance(b, int)):
                r = self.exact(op, a, b)
                if r is not None:
                    return r
            return fbin(op, a, b)
        w = t[1]
        if isinstance(a, int) and isinstance(b, int):
            return self.cbin(op, a, b, w)
        if w == 1:
            a2, b2 = boolz(a), boolz(b)
            if op == "and":
                return mk_and(a, b)
            if op == "or":
                return mk_or(a, b)
            if op in ("xor", "add", "sub"):
                if isinstance(b, int):
                    return mk_not(a) if b else a
                if isinstance(a, int):
                    return mk_not(b) if a else b
                return z3.Xor(a2, b2)
            raise Give("i1 " + op)
        if isinstance(a, (SP, PI)) or isinstance(b, (SP, PI)):
            a, b = bv(a, w), bv(b, w)
        if isinstance(b, int):
            if b == 0 and op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"):
                return a
            if b == 0 and op in ("and", "mul"):
                return 0
            if b == 1 and op in ("mul", "udiv", "sdiv"):
                return a
            if b == (1 << w) - 1 and op == "and":
                return a
            if const_leaves(a) and not (op in ("udiv", "sdiv", "urem", "srem") and b == 0):
                return lift(a, lambda x: self.cbin(op, x, b, w), w)
        elif isinstance(a, int):
            if a == 0 and op in ("add", "or", "xor"):
                return b
            if a == 0 and op in ("and", "mul", "shl", "lshr", "ashr"):
                return 0
            if const_leaves(b) and op not in ("udiv", "sdiv", "urem", "srem"):
                return lift(b, lambda x: self.cbin(op, a, x, w), w)
        A, B = bv(a, w), bv(b, w)
        if op == "sub":
            r = linear_sub(A, B)
            if r is not None:
                return lower(r)
        if op in ("udiv", "sdiv", "urem", "srem") and isinstance(b, int) and 2 < b < 1 << (w - 1) and b & (b - 1) and self.cur is not None:
            lo, hi = self.range(self.cur, A)
            q = lo // b
            if 0 <= lo <= hi and hi // b - q <= 12:
                # few quotients: a table instead of a division
                f = (lambda n: A - n * b) if op in ("urem", "srem") else (lambda n: z3.BitVecVal(n, w))
                r = f(q)
                while q < hi // b:
                    q += 1
                    r = z3.If(A >= q * b, f(q), r)
                return lower(z3.simplify(r))
        r = {"add": lambda: A + B, "sub": lambda: A - B, "mul": lambda: A * B, "and": lambda: A & B,
             "or": lambda: A | B, "xor": lambda: A ^ B, "shl": lambda: A << B, "lshr": lambda: z3.LShR(A, B),
             "ashr": lambda: A >> B, "udiv": lambda: z3.UDiv(A, B), "sdiv": lambda: A / B,
             "urem": lambda: z3.URem(A, B), "srem": lambda: z3.SRem(A, B)}[op]()
        return r

    def exact(self, op, a, b):
        """Sums and products of converted integers that stay small are the converted result"""
        if op not in ("fadd", "fsub", "fmul"):
            return None
        x = []
        for v in (a, b):
            if isinstance(v, int):
                k = b2f(v)
                # the converted integer is never the negative zero
                if not (abs(k) < 2 ** 31 and k == int(k)) or v == NZERO or op == "fmul" and k <= 0:
                    return None
                x.append((z3.BitVecVal(int(k), 32), int(k), int(k)))
            else:
                i = sitofp_arg(v)
                if i is None:
                    return None
                x.append((i,) + self.range(self.cur, i))
        (p, l, h), (q, m, n) = x
        if op == "fadd":
            lo, hi, r = l + m, h + n, p + q
        elif op == "fsub":
            lo, hi, r = l - n, h - m, p - q
        else:
            if not isinstance(a, int) and not isinstance(b, int):
                return None
            c = [u * v for u in (l, h) for v in (m, n)]
            lo, hi, r = min(c), max(c), p * q
        if lo < -2 ** 31 or hi >= 2 ** 31:
            return None
        return self.cast("sitofp", ("i", 32), lower(z3.simplify(r)), ("f", 64))

    def cbin(self, op, a, b, w):
        m = (1 << w) - 1
        if op == "add":
            return (a + b) & m
        if op == "sub":
            return (a - b) & m
        if op == "mul":
            return (a * b) & m
        if op == "and":
            return a & b
        if op == "or":
            return a | b
        if op == "xor":
            return a ^ b
        if op == "shl":
            return (a << b) & m if b < w else 0
        if op == "lshr":
            return a >> b if b < w else 0
        if op == "ashr":
            return (s_(a, w) >> min(b, w - 1)) & m
        if op == "udiv":
            return a // b
        if op == "urem":
            return a % b
        x, y = s_(a, w), s_(b, w)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        if op == "sdiv":
            return q & m
        if op == "srem":
            return (x - q * y) & m
        raise Give(op)

    def icmp(self, pred, t, a, b):
        if t[0] == "v":
            return Agg([self.icmp(pred, t[2], x, y) for x, y in zip(self.vec(a, t), self.vec(b, t))])
        if a is UNDEF or b is UNDEF:
            return UNDEF
        w = 64 if t[0] == "p" else t[1]
        if isinstance(a, int) and isinstance(b, int):
            return self.cicmp(pred, a, b, w)
        if w == 1:
            if pred == "eq":
                return mk_not(self.bin("xor", t, a, b))
            if pred == "ne":
                return self.bin("xor", t, a, b)
            A, B = bv(a, 1), bv(b, 1)
        else:
            if isinstance(b, int) and isz(a) and const_leaves(a):
                return lift(a, lambda x: self.cicmp(pred, x, b, w), 1)
            if isinstance(a, int) and isz(b) and const_leaves(b):
                return lift(b, lambda x: self.cicmp(pred, a, x, w), 1)
            A, B = bv(a, w), bv(b, w)
        r = {"eq": lambda: A == B, "ne": lambda: A != B, "ult": lambda: z3.ULT(A, B), "ule": lambda: z3.ULE(A, B),
             "ugt": lambda: z3.UGT(A, B), "uge": lambda: z3.UGE(A, B), "slt": lambda: A < B, "sle": lambda: A <= B,
             "sgt": lambda: A > B, "sge": lambda: A >= B}[pred]()
        if A.eq(B):
            return int(pred in ("eq", "ule", "uge", "sle", "sge"))
        return r

    def cicmp(self, pred, a, b, w):
        if pred[0] == "s":
            a, b = s_(a, w), s_(b, w)
            pred = "u" + pred[1:]
        return int({"eq": a == b, "ne": a != b, "ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b}[pred])

    def vec(self, v, t):
        if v is UNDEF:
            return [UNDEF] * t[1]
        return v.v

    def cast(self, op, t, v, d):
        if v is UNDEF:
            return undef_of(d)
        if op == "bitcast":
            if t[0] == "v" and d[0] == "i":
                ew = t[2][1]
                if all(isinstance(x, int) for x in v.v):
                    r = 0
                    for i, x in enumerate(v.v):
                        r |= x << (i * ew)
                    return r
                return z3.Concat(*[bv(x if x is not UNDEF else 0, ew) for x in reversed(v.v)])
            if t[0] == "i" and d[0] == "v":
                ew = d[2][1]
                if isinstance(v, int):
                    return Agg([(v >> (i * ew)) & ((1 << ew) - 1) for i in range(d[1])])
                r = [z3.Extract(i * ew + ew - 1, i * ew, v) for i in range(d[1])]
                return Agg([x == 1 for x in r] if ew == 1 else r)
            if t[0] == "v" or d[0] == "v":
                if t[0] == "v" and d[0] == "v":
                    x = self.cast("bitcast", t, v, ("i", t[1] * t[2][1]))
                    return self.cast("bitcast", ("i", t[1] * t[2][1]), x, d)
                raise Give("vector bitcast")
            return v
        if t[0] == "v":
            return Agg([self.cast(op, t[2], x, d[2]) for x in v.v])
        if op in ("ptrtoint", "inttoptr"):
            if op == "ptrtoint":
                if isinstance(v, (SP, PI)):
                    v = v.bv()
                return v if d[1] == 64 else self.cast("trunc", ("i", 64), v, d)
            if isz(v):
                raise Give("inttoptr of a symbolic value")
            return v
        if op in ("zext", "sext", "trunc"):
            w, dw = t[1], d[1]
            if isinstance(v, int):
                if op == "sext":
                    return s_(v, w) & ((1 << dw) - 1)
                return v & ((1 << dw) - 1)
            if w == 1:
                one = (1 << dw) - 1 if op == "sext" else 1
                return z3.If(v, z3.BitVecVal(one, dw), z3.BitVecVal(0, dw))
            if const_leaves(v):
                return lift(v, lambda x: (s_(x, w) if op == "sext" else x) & ((1 << dw) - 1), dw)
            if op == "zext":
                return z3.ZeroExt(dw - w, v)
            if op == "sext":
                return z3.SignExt(dw - w, v)
            if dw == 1:
                return z3.Extract(0, 0, v) == 1
            # truncation of an extension
            if z3.is_app_of(v, z3.Z3_OP_ZERO_EXT) or z3.is_app_of(v, z3.Z3_OP_SIGN_EXT):
                x = v.arg(0)
                if x.size() == dw:
                    return x
                if x.size() > dw:
                    return z3.Extract(dw - 1, 0, x)
            return z3.Extract(dw - 1, 0, v)
        if op in ("sitofp", "uitofp"):
            w = t[1]
            if d[1] != 64:
                raise Give("float32")
            if isinstance(v, int):
                return f2b(float(s_(v, w) if op == "sitofp" else v))
            if w == 1:
                return mk_ite(v, f2b(-1.0 if op == "sitofp" else 1.0), 0, 64)
            if const_leaves(v):
                return lift(v, lambda x: f2b(float(s_(x, w) if op == "sitofp" else x)), 64)
            lo, hi = self.range(self.cur, v)
            if hi - lo < 16 and (op == "sitofp" or lo >= 0):
                # few values: a table, so that what is computed from it folds
                r = f2b(float(hi))
                for k in range(hi - 1, lo - 1, -1):
                    r = mk_ite(lower(z3.simplify(v == z3.BitVecVal(k, w))), f2b(float(k)), r, 64)
                return r
            if w <= 32:
                # exact: one conversion function for all narrow integers
                if op == "sitofp":
                    x = z3.SignExt(32 - w, v) if w < 32 else v
                elif w < 32:
                    x = z3.ZeroExt(32 - w, v)
                else:
                    return uf("uitofp32", BV32, BV64)(v)
                return uf("sitofp32", BV32, BV64)(x)
            return uf("%s%d" % (op, w), z3.BitVecSort(w), BV64)(v)
        raise Give("cast " + op)

    def fptoi_sat(self, signed, w, v):
        if isinstance(v, int):
            x = b2f(v)
            if x != x:
                return 0
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
            y = lo if x < lo else hi if x > hi else int(x)
            return y & ((1 << w) - 1)
        if const_leaves(v):
            return lift(v, lambda x: self.fptoi_sat(signed, w, x), w)
        return uf("fpto%si%d" % ("s" if signed else "u", w), BV64, z3.BitVecSort(w))(v)

    # ---- execution ------------------------------------------------------------------------------
    def val(self, st, x):
        if type(x) is Local:
            return st.frames[-1].loc[x.n]
        return x

    def start(self, fname):
        st = State()
        st.mem = {}
        st.pc = None
        st.draws = None
        st.ndraw = 0
        st.model = None
        st.steps = 0
        st.retval = None
        st.at_join = False
        st.defs = frozenset()
        st.token = self.new_token()
        st.frames = []
        self.push(st, self.m.func("@" + fname), [], None, None)
        return st

    def push(self, st, fn, args, dst, to):
        f = Frame(fn, dst, to)
        for p, v in zip(fn.params, args):
            if p is not None:
                f.loc[p] = v
        st.frames.append(f)
        self.funcs[fn.rust] = self.funcs.get(fn.rust, 0) + 1
        if len(st.frames) > 200:
            raise Give("call depth")

    def info(self, fn):
        """(reverse postorder, join blocks, live-in after the phis, types of the locals)"""
        if fn.info is not None:
            return fn.info
        succ = {}
        for lab, code in fn.blocks.items():
            t = code[-1]
            if t.op == "jmp":
                succ[lab] = [t.a]
            elif t.op == "br":
                succ[lab] = [t.a[1], t.a[2]]
            elif t.op == "switch":
                succ[lab] = [t.a[2]] + [x[1] for x in t.a[3]]
            elif t.op == "call" and t.a[4] is not None:
                succ[lab] = [t.a[4]]
            else:
                succ[lab] = []
        # reverse postorder and back edges
        order = []
        color = {fn.entry: 1}
        heads = set()
        stack = [(fn.entry, iter(succ[fn.entry]))]
        while stack:
            b, it = stack[-1]
            for x in it:
                c = color.get(x)
                if c is None:
                    color[x] = 1
                    stack.append((x, iter(succ[x])))
                    break
                if c == 1:
                    heads.add(x)
            else:
                color[b] = 2
                order.append(b)
                stack.pop()
        order.reverse()
        rpo = {b: i for i, b in enumerate(order)}
        npred = {}
        for b in order:
            for x in set(succ[b]):
                npred[x] = npred.get(x, 0) + 1
        joins = {b for b, n in npred.items() if n > 1 and b not in heads}
        # liveness
        use, dfn, phis, types = {}, {}, {}, dict(fn.ptypes)
        for lab, code in fn.blocks.items():
            u, d = set(), set()
            ph = phis[lab] = []
            for ins in code:
                if ins.dst is not None:
                    types[ins.dst] = ins.t
                if ins.op == "phi":
                    ph.append(ins)
                    continue
                for x in locals_of(ins.a):
                    if x not in d:
                        u.add(x)
                if ins.dst is not None:
                    d.add(ins.dst)
            use[lab], dfn[lab] = u, d
        live = {b: set(use[b]) for b in order}
        changed = True
        while changed:
            changed = False
            for b in reversed(order):
                out = set()
                for x in succ[b]:
                    out |= live[x] - {i.dst for i in phis[x]}
                    for i in phis[x]:
                        v = i.a[1].get(b)
                        if v is not None:
                            out |= set(locals_of(v))
                n = use[b] | (out - dfn[b])
                if n != live[b]:
                    live[b] = n
                    changed = True
        fn.info = (rpo, joins, live, types)
        return fn.info

    def explore(self, st0, depth):
        """Runs st0 until the frame stack is `depth` deep; returns the states that get there.  Paths through
        the activation at `depth` are merged where they join again (if it asks for that)."""
        work = [st0]
        parked = {}
        done = []
        fn = st0.frames[-1].fn
        while work or parked:
            if not work:
                rpo, joins, live, types = self.info(fn)
                b = min(parked, key=rpo.get)
                group = parked.pop(b)
                lv = live[b]
                for s in group:
                    f = s.frames[-1]
                    f.loc = {k: v for k, v in f.loc.items() if k in lv}
                    s.at_join = False
                work.extend(self.merge(group, types))
            st = work.pop()
            while True:
                if self.violation is not None:
                    return done
                if st.at_join:
                    parked.setdefault(st.frames[-1].block, []).append(st)
                    break
                try:
                    r = self.step_block(st, depth)
                except Fork as f:
                    # retry the current instruction under each condition
                    r = []
                    where = self.where(st)
                    self.forks[where] = self.forks.get(where, 0) + 1
                    for c in f.conds:
                        ok, m = self.check(st, c)
                        if ok:
                            s2 = st.fork(self)
                            s2.model = m
                            self.assume(s2, c)
                            r.append(s2)
                    if not r:
                        break
                except Dead:
                    break
                if r is None:        # returned to `depth`
                    done.append(st)
                    break
                if r is st:
                    continue
                work.extend(r[1:])
                st = r[0]
        return done

    def where(self, st):
        f = st.frames[-1]
        return "%s %s" % (f.fn.rust[-70:], f.block)

    def jump(self, st, f, label):
        f.prev = f.block
        f.block = label
        code = f.code = f.fn.blocks[label]
        i = 0
        n = len(code)
        if code[0].op == "phi":
            loc = f.loc
            new = []
            while i < n and code[i].op == "phi":
                ins = code[i]
                x = ins.a[1][f.prev]
                new.append((ins.dst, loc[x.n] if type(x) is Local else x))
                i += 1
            for k, v in new:
                loc[k] = v
        f.pc = i
        if f.joins is not None and label in f.joins:
            st.at_join = True

    def step_block(self, st, depth):
        """Executes up to the next control transfer.  Returns st to go on, None when the frame stack has
        shrunk to `depth`, or a list of successor states."""
        f = st.frames[-1]
        loc = f.loc
        self.cur = st
        while True:
            ins = f.code[f.pc]
            op = ins.op
            a = ins.a
            self.steps += 1
            if self.steps & 1023 == 0:
                if time.time() > self.deadline:
                    raise Give("time limit")
            if op == "nop":
                f.pc += 1
                continue
            if op in BIN:
                x, y = a[1], a[2]
                if type(x) is Local:
                    x = loc[x.n]
                if type(y) is Local:
                    y = loc[y.n]
                if op in ("udiv", "sdiv", "urem", "srem") and isinstance(y, int) and y == 0:
                    raise Give("division by zero in the IR")
                loc[ins.dst] = self.bin(op, a[0], x, y)
                f.pc += 1
                continue
            if op == "icmp":
                x, y = a[2], a[3]
                if type(x) is Local:
                    x = loc[x.n]
                if type(y) is Local:
                    y = loc[y.n]
                loc[ins.dst] = self.icmp(a[0], a[1], x, y)
                f.pc += 1
                continue
            if op == "load":
                loc[ins.dst] = self.load(st, a[0], self.val(st, a[1]))
                f.pc += 1
                continue
            if op == "store":
                self.store(st, a[0], self.val(st, a[1]), self.val(st, a[2]))
                f.pc += 1
                continue
            if op == "getelementptr":
                loc[ins.dst] = self.gep(st, a[0], self.val(st, a[1]), a[2])
                f.pc += 1
                continue
            if op == "jmp":
                self.jump(st, f, a)
                if st.at_join:
                    return st
                continue
            if op == "br":
                c = a[0]
                if type(c) is Local:
                    c = loc[c.n]
                if isinstance(c, int):
                    self.jump(st, f, a[1] if c else a[2])
                    if st.at_join:
                        return st
                    continue
                if c is UNDEF:
                    raise Give("branch on undef in " + self.where(st))
                c = lower(c)
                if isinstance(c, int):
                    self.jump(st, f, a[1] if c else a[2])
                    if st.at_join:
                        return st
                    continue
                t, mt, e, me = self.split(st, c)
                if t and e:
                    w = self.where(st)
                    self.forks[w] = self.forks.get(w, 0) + 1
                    s2 = st.fork(self)
                    s2.model = me
                    self.assume(s2, mk_not(c))
                    self.jump(s2, s2.frames[-1], a[2])
                    st.model = mt
                    self.assume(st, c)
                    self.jump(st, f, a[1])
                    return [st, s2]
                if t:
                    if mt is not None:
                        st.model = mt
                    self.jump(st, f, a[1])
                elif e:
                    self.jump(st, f, a[2])
                else:
                    raise Dead()
                if st.at_join:
                    return st
                continue
            if op in CAST:
                x = a[1]
                if type(x) is Local:
                    x = loc[x.n]
                loc[ins.dst] = self.cast(op, a[0], x, a[2])
                f.pc += 1
                continue
            if op == "select":
                loc[ins.dst] = self.select(st, a)
                f.pc += 1
                continue
            if op == "call":
                r = self.call(st, f, ins)
                if r is None:
                    f.pc += 1
                    if a[4] is not None:
                        self.jump(st, f, a[4])
                        if st.at_join:
                            return st
                    continue
                if r == "enter":
                    f = st.frames[-1]
                    loc = f.loc
                    continue
                return r
            if op == "ret":
                v = None if a[1] is None else self.val(st, a[1])
                st.frames.pop()
                for k in f.allocas:
                    st.mem.pop(k, None)
                if len(st.frames) == depth:
                    st.retval = v
                    return None
                self.finish_call(st, f, v)
                f = st.frames[-1]
                loc = f.loc
                if st.at_join:
                    return st
                continue
            if op == "switch":
                x = self.val(st, a[1])
                if isz(x):
                    x = lower(x)
                if x is UNDEF:
                    raise Give("switch on undef")
                if isinstance(x, int):
                    for cv, lab in a[3]:
                        if cv == x:
                            self.jump(st, f, lab)
                            break
                    else:
                        self.jump(st, f, a[2])
                    if st.at_join:
                        return st
                    continue
                return self.switch(st, f, a, x)
            if op == "alloca":
                n = self.concrete(st, self.val(st, a[1]), 64, "alloca") if a[1] != 1 else 1
                loc[ins.dst] = self.alloc(st, size_of(a[0]) * n, "stack")
                f.pc += 1
                continue
            if op == "extractvalue":
                v = self.val(st, a[0])
                for i in a[1]:
                    v = UNDEF if v is UNDEF else v.v[i]
                loc[ins.dst] = v
                f.pc += 1
                continue
            if op == "insertvalue":
                loc[ins.dst] = self.insert(self.val(st, a[0]), self.val(st, a[1]), a[2])
                f.pc += 1
                continue
            if op == "fcmp":
                x, y = self.val(st, a[2]), self.val(st, a[3])
                if a[1][0] != "f" or a[1][1] != 64:
                    raise Give("fcmp type")
                loc[ins.dst] = UNDEF if x is UNDEF or y is UNDEF else fcmp(a[0], x, y)
                f.pc += 1
                continue
            if op == "freeze":
                v = self.val(st, a[1])
                if v is UNDEF:
                    v = 0
                elif isinstance(v, Agg):
                    v = Agg([0 if x is UNDEF else x for x in v.v])
                loc[ins.dst] = v
                f.pc += 1
                continue
            if op == "fneg":
                v = self.val(st, a[1])
                loc[ins.dst] = UNDEF if v is UNDEF else fneg(v)
                f.pc += 1
                continue
            if op == "lifetime":
                p = self.val(st, a)
                if isinstance(p, int) and p & 0xFFFFFFFF == 0 and p >= self.HEAP:
                    o = self.wobj(st, p)
                    if o.kind == "stack":
                        o.cells = {}
                        o.zero = False
                f.pc += 1
                continue
            if op == "unreachable":
                self.paths += 1
                raise Dead()
            if op == "atomicrmw":
                o, p, t, v = a
                p, v = self.val(st, p), self.val(st, v)
                old = self.load(st, t, p)
                if o == "xchg":
                    new = v
                elif o in ("add", "sub", "and", "or", "xor"):
                    new = self.bin(o, t, old, v)
                else:
                    raise Give("atomicrmw " + o)
                self.store(st, t, new, p)
                loc[ins.dst] = old
                f.pc += 1
                continue
            if op == "cmpxchg":
                p, t, c, v = a
                p = self.val(st, p)
                old = self.load(st, t, p)
                eq = self.concrete(st, self.icmp("eq", t, old, self.val(st, c)), 1, "cmpxchg")
                if eq:
                    self.store(st, t, self.val(st, v), p)
                loc[ins.dst] = Agg([old, eq])
                f.pc += 1
                continue
            if op == "insertelement":
                v = list(self.vec(self.val(st, a[0][1]), a[0][0]))
                i = self.concrete(st, self.val(st, a[2][1]), 64, "vector index")
                v[i] = self.val(st, a[1][1])
                loc[ins.dst] = Agg(v)
                f.pc += 1
                continue
            if op == "extractelement":
                v = self.vec(self.val(st, a[0][1]), a[0][0])
                loc[ins.dst] = v[self.concrete(st, self.val(st, a[1][1]), 64, "vector index")]
                f.pc += 1
                continue
            if op == "shufflevector":
                v = list(self.vec(self.val(st, a[0][1]), a[0][0])) + list(self.vec(self.val(st, a[1][1]), a[1][0]))
                mask = self.vec(a[2][1], a[2][0])
                loc[ins.dst] = Agg([UNDEF if k is UNDEF else v[k] for k in mask])
                f.pc += 1
                continue
            raise Give("instruction %s: %s" % (op, str(a)[:120]))

    def finish_call(self, st, callee, v):
        f = st.frames[-1]
        if callee.dst is not None:
            f.loc[callee.dst] = v
        f.pc += 1
        if callee.to is not None:
            self.jump(st, f, callee.to)

    def insert(self, v, e, ix):
        if v is UNDEF:
            raise Give("insertvalue into undef")
        w = list(v.v)
        w[ix[0]] = e if len(ix) == 1 else self.insert(w[ix[0]], e, ix[1:])
        return Agg(w)

    def select(self, st, a):
        c = self.val(st, a[1])
        if a[0][0] == "v":
            xs, ys = self.vec(self.val(st, a[3]), a[2]), self.vec(self.val(st, a[4]), a[2])
            w = a[2][2][1]
            return Agg([mk_ite(k, x, y, w) for k, x, y in zip(c.v, xs, ys)])
        if c is UNDEF:
            raise Give("select on undef")
        if isinstance(c, int):
            return self.val(st, a[3] if c else a[4])
        x, y = self.val(st, a[3]), self.val(st, a[4])
        return self.sel(st, c, a[2], x, y)

    def sel(self, st, c, t, x, y):
        if x is UNDEF:
            return y
        if y is UNDEF:
            return x
        if isinstance(x, int) and isinstance(y, int) and x == y:
            return x
        if isinstance(x, Agg):
            return Agg([self.sel(st, c, elem(t, i), p, q) for i, (p, q) in enumerate(zip(x.v, y.v))])
        if t[0] == "p":
            return PI(c, x, y)
        x, y = (v.bv() if isinstance(v, (SP, PI)) else v for v in (x, y))
        return mk_ite(c, x, y, 64 if t[0] == "f" else t[1])

    def gep(self, st, bt, p, idx):
        conc = 0
        sym = None
        stride = 0
        cur = None
        for it, x in idx:
            x = self.val(st, x)
            if cur is None:
                sc = size_of(bt)
                cur = bt
                first = True
            else:
                if cur[0] == "s":
                    conc += offset_of(cur, x)
                    cur = elem(cur, x)
                    continue
                sc = size_of(elem(cur, 0))
                cur = elem(cur, 0)
            if isinstance(x, int):
                conc += s_(x, it[1]) * sc
            elif x is UNDEF:
                raise Give("gep with undef")
            else:
                e = bv(x, it[1])
                if it[1] < 64:
                    e = z3.SignExt(64 - it[1], e)
                e = e * z3.BitVecVal(sc, 64) if sc != 1 else e
                # the factors of a byte offset give the stride
                k = sc * self.factor(e if sc == 1 else None)
                sym = e if sym is None else sym + e
                stride = math.gcd(stride, k)
        if sym is None:
            return self.padd(p, conc)
        if isinstance(p, PI):
            p = self.force(st, p) if isinstance(p.a, PI) or isinstance(p.b, PI) else p
        if isinstance(p, PI):
            return PI(p.c, self.gep(st, bt, p.a, idx), self.gep(st, bt, p.b, idx))
        if isinstance(p, SP):
            return SP(p.base, p.off + sym + z3.BitVecVal(conc & M64, 64), p.c + conc, math.gcd(stride, p.stride))
        if p is UNDEF:
            raise Give("gep on undef")
        base = p >> 32 << 32
        off0 = (p - base) + conc
        return SP(base, z3.BitVecVal(off0 & M64, 64) + sym, off0, max(stride, 1))

    def factor(self, e):
        """A power-of-two or constant factor of the byte offset e"""
        if e is None:
            return 1
        if z3.is_app_of(e, z3.Z3_OP_BSHL) and z3.is_bv_value(e.arg(1)):
            return 1 << e.arg(1).as_long()
        if z3.is_app_of(e, z3.Z3_OP_BMUL):
            for k in e.children():
                if z3.is_bv_value(k):
                    return k.as_long()
        if z3.is_app_of(e, z3.Z3_OP_ZERO_EXT) or z3.is_app_of(e, z3.Z3_OP_SIGN_EXT):
            return self.factor(e.arg(0))
        if is_ite(e):
            return math.gcd(self.factor(e.arg(1)), self.factor(e.arg(2)))
        if z3.is_app_of(e, z3.Z3_OP_BADD):
            g = 0
            for k in e.children():
                g = math.gcd(g, self.factor(k))
            return g
        if z3.is_bv_value(e):
            return e.as_long() or 1 << 20
        return 1

    def switch(self, st, f, a, x):
        w = a[0][1]
        out = []
        rest = []
        X = bv(x, w)
        groups = {}
        for cv, lab in a[3]:
            groups.setdefault(lab, []).append(cv)
        wh = self.where(st)
        for lab, cvs in groups.items():
            c = z3.Or([X == z3.BitVecVal(v, w) for v in cvs]) if len(cvs) > 1 else X == z3.BitVecVal(cvs[0], w)
            ok, m = self.check(st, c)
            if ok:
                out.append((c, m, lab))
        c = z3.And([X != z3.BitVecVal(v, w) for v, lab in a[3]])
        if not (f.fn.blocks[a[2]][0].op == "unreachable"):
            ok, m = self.check(st, c)
            if ok:
                out.append((c, m, a[2]))
        if not out:
            raise Dead()
        states = []
        if len(out) > 1:
            self.forks[wh] = self.forks.get(wh, 0) + 1
        for i, (c, m, lab) in enumerate(out):
            s = st.fork(self) if i + 1 < len(out) else st
            s.model = m
            if len(out) > 1:
                self.assume(s, c)
            self.jump(s, s.frames[-1], lab)
            states.append(s)
        return states

    # ---- calls ----------------------------------------------------------------------------------
    def call(self, st, f, ins):
        rt, callee, args, noret, to = ins.a
        if type(callee) is Local:
            p = self.force(st, f.loc[callee.n])
            if not isinstance(p, int) or p not in self.m.by_addr:
                raise Give("indirect call to %r" % (p,))
            name = self.m.by_addr[p]
        else:
            name = callee
        vals = [self.val(st, v) for t, v in args]
        h = self.handler(name)
        if h is not None:
            r = h(self, st, name, [t for t, v in args], vals, rt)
            if r is not None and ins.dst is not None:
                f.loc[ins.dst] = r
            return None
        if name in self.m.noreturn or noret:
            self.panic(st, name, vals)
            raise Dead()
        if name not in self.m.ftext:
            raise Give("external function " + name)
        fn = self.m.func(name)
        if self.merge_re is not None and self.merge_re.search(fn.rust) and not (self.nomerge_re and self.nomerge_re.search(fn.rust)):
            return self.call_merged(st, fn, vals, ins.dst, to, rt)
        self.push(st, fn, vals, ins.dst, to)
        return "enter"

    def call_merged(self, st, fn, vals, dst, to, rt):
        depth = len(st.frames)
        self.push(st, fn, vals, dst, to)
        st.frames[-1].joins = self.info(fn)[1]
        done = self.explore(st, depth)
        if not done:
            raise Dead()
        groups = self.merge(done, {None: rt})
        for s in groups:
            fr = Frame.__new__(Frame)
            fr.dst, fr.to = dst, to
            v, s.retval = s.retval, None
            self.finish_call(s, fr, v)
        return groups

    def merge(self, states, types):
        """Merges the states that only differ in values that an if-then-else can hold"""
        if len(states) == 1:
            return states
        out = []
        for s in states:
            for g in out:
                if self.mergeable(g[0], s):
                    g.append(s)
                    break
            else:
                out.append([s])
        res = []
        for g in out:
            if len(g) == 1:
                res.append(g[0])
            else:
                res.append(self.merge_group(g, types))
                self.merges += 1
        if len(out) > 1:
            self.merge_fail += 1
        return res

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, int) or isinstance(b, int):
            return isinstance(a, int) and isinstance(b, int) and a == b
        if isz(a) and isz(b):
            return a.eq(b)
        if isinstance(a, PI) and isinstance(b, PI):
            return a.c.eq(b.c) and self.same(a.a, b.a) and self.same(a.b, b.b)
        if isinstance(a, SP) and isinstance(b, SP):
            return a.base == b.base and a.off.eq(b.off)
        if isinstance(a, Agg) and isinstance(b, Agg):
            return len(a.v) == len(b.v) and all(self.same(x, y) for x, y in zip(a.v, b.v))
        return False

    def blend(self, a, b, ptr=False):
        """Whether two values can be merged into an if-then-else"""
        if a is UNDEF or b is UNDEF or self.same(a, b):
            return True
        if a is None or b is None:
            return False
        if isinstance(a, Agg):
            return isinstance(b, Agg) and all(self.blend(x, y) for x, y in zip(a.v, b.v))
        return True

    def mergeable(self, a, b):
        if a.draws is not b.draws or len(a.frames) != len(b.frames):
            return False
        if not self.blend(a.retval, b.retval):
            return False
        for x, y in zip(a.frames, b.frames):
            if x.block != y.block or x.pc != y.pc:
                return False
        x, y = a.frames[-1].loc if a.frames else {}, b.frames[-1].loc if b.frames else {}
        for k, v in x.items():
            if k in y and not self.blend(v, y[k]):
                return False
        ka, kb = a.mem, b.mem
        if len(ka) != len(kb):
            return False
        for k, o in ka.items():
            p = kb.get(k)
            if p is None:
                return False
            if o is p:
                continue
            if o.alive != p.alive or o.zero != p.zero:
                return False
            if not self.layout(o, p):
                return False
        return True

    def layout(self, o, p):
        for off, c in o.cells.items():
            d = p.cells.get(off)
            if d is None:
                # uninitialised on the other side: fine unless it overlaps something
                if o.zero:
                    return False
                for i in range(off - 15, off + c[0]):
                    e = p.cells.get(i)
                    if e is not None and i + e[0] > off and i < off + c[0]:
                        return False
                continue
            if c[0] != d[0]:
                return False
            if not self.blend(c[1], d[1]):
                return False
            if c[2] != d[2] and not self.same(c[1], d[1]):
                return False
        for off, d in p.cells.items():
            if off not in o.cells:
                if o.zero:
                    return False
                for i in range(off - 15, off + d[0]):
                    e = o.cells.get(i)
                    if e is not None and i + e[0] > off:
                        return False
        return True

    def merge_group(self, g, types):
        # the common part of the path conditions
        anc = {}
        n = g[0].pc
        d = 0
        while n is not None:
            anc[id(n)] = d
            d += 1
            n = n[0]
        low = 0
        for s in g[1:]:
            n = s.pc
            while n is not None and id(n) not in anc:
                n = n[0]
            low = max(low, anc[id(n)] if n is not None else d)
        base_pc = g[0].pc
        for _ in range(low):
            base_pc = base_pc[0]

        def cond(s):
            cs = []
            n = s.pc
            while n is not base_pc:
                cs.append(n[1])
                n = n[0]
            cs.reverse()
            return cs[0] if len(cs) == 1 else z3.And(cs) if cs else z3.BoolVal(True)

        conds = [cond(s) for s in g]
        r = g[0]
        loc = r.frames[-1].loc if r.frames else {}
        for s, c in zip(g[1:], conds[1:]):
            if r.retval is not None:
                r.retval = self.blendv(c, s.retval, r.retval, types.get(None))
            for k, v in (s.frames[-1].loc if s.frames else {}).items():
                if k not in loc:
                    loc[k] = v
                elif not self.same(v, loc[k]):
                    loc[k] = self.blendv(c, v, loc[k], types[k])
            for k, p in s.mem.items():
                o = r.mem[k]
                if o is p:
                    continue
                w = self.wobj(r, k << 32)
                for off, d in p.cells.items():
                    cur = w.cells.get(off)
                    if cur is None:
                        w.cells[off] = d
                    elif not self.same(cur[1], d[1]):
                        w.cells[off] = (d[0], self.blendv(c, d[1], cur[1], PTR if d[2] else ("i", 8 * d[0])), d[2])
        r.defs = frozenset.intersection(*[s.defs for s in g])
        either = z3.simplify(z3.Or(conds))
        r.pc = base_pc if z3.is_true(either) else (base_pc, z3.Or(conds))
        return r

    def blendv(self, c, a, b, t):
        if a is UNDEF:
            return b
        if b is UNDEF or self.same(a, b):
            return a
        if isinstance(a, Agg):
            return Agg([self.blendv(c, x, y, elem(t, i)) for i, (x, y) in enumerate(zip(a.v, b.v))])
        if t[0] == "p":
            return PI(c, a, b)
        a, b = (v.bv() if isinstance(v, (SP, PI)) else v for v in (a, b))
        return mk_ite(c, a, b, t[1])

    # ---- properties -----------------------------------------------------------------------------
    def panic(self, st, name, vals):
        self.paths += 1
        msg = self.m.rust_name.get(name, name)
        loc = ""
        for v in vals:
            if isinstance(v, int) and v >= GLOBAL_BASE:
                try:
                    o = self.obj(st, v)
                    if o.kind == "global" and o.size == 24 and (v & 0xFFFFFFFF) == 0:
                        p, _ = self.read(o, 0, 8)
                        n, _ = self.read(o, 8, 8)
                        ln, _ = self.read(o, 16, 4)
                        if isinstance(n, int) and 0 < n < 400 and isinstance(ln, int):
                            loc = "%s:%d" % (self.cstr(st, p, n), ln)
                except Exception:
                    pass
        if self.o.get("rejects"):
            return
        self.report(st, None, "panic", "%s at %s" % (msg, loc))

    def report(self, st, c, kind, what):
        """pc (and c) is satisfiable up to the abstraction of floating point: settle it"""
        extra = [] if c is None else [c]
        if self.defined and extra:
            self.define(st, c)
        cs = self.pclist(st.pc) + extra
        if self.o.get("fixed") is not None:
            self.violation = {"kind": kind, "what": what, "draws": self.o["fixed"], "stack": []}
            return True
        if self.has_fp(cs):
            m = self.settle(st, cs, kind, what)
            if m is None:
                return False
        else:
            ok, m = self.check(st, c if c is not None else z3.BoolVal(True))
            if not ok:
                return False
        self.violation = {"kind": kind, "what": what, "draws": self.draw_bytes(st, m), "stack": [f.fn.rust for f in st.frames][-6:]}
        return True

    def settle(self, st, cs, kind, what):
        """A model of cs that the real arithmetic confirms, or None when there is none"""
        ax = self.axioms(cs)
        if os.environ.get("SXDUMP"):
            open("/tmp/settle.txt", "w").write("\n;;;\n".join(c.sexpr() for c in cs))
        lemmas = []
        t = time.time()
        why = "too many refinements"
        for k in range(self.o.get("refine", 12)):
            s = z3.Then("simplify", "propagate-values", "solve-eqs", "ackermannize_bv", "simplify", "bit-blast", "sat").solver()
            s.set("timeout", int(max(1, min(self.o.get("ptimeout", 60), self.deadline - time.time())) * 1000))
            s.add(cs + ax + lemmas)
            t = time.time()
            r = s.check()
            self.queries += 1
            self.qtime += time.time() - t
            if self.o.get("verbose"):
                print("floating-point query %d: %.1fs %s (%s)" % (k, time.time() - t, r, what), file=sys.stderr)
            if r == z3.unsat:
                return None
            if r == z3.unknown:
                why = "solver gave no answer"
                break
            m = s.model()
            if self.confirm(self.draw_bytes(st, m)):
                return m
            lemmas += self.point(st, cs, m)
            if k == 4:
                m = self.plain(st, cs + ax + lemmas, cs, what)
                if m is not None:
                    return m
        r, m = self.precise(cs)
        if r is False:
            return None
        if r and self.confirm(self.draw_bytes(st, m)):
            return m
        self.problems.append("no verdict on floating point (%s): %s %s" % (why, kind, what))
        raise Give("no verdict on floating point for: %s %s" % (kind, what))

    def plain(self, st, cs, full, what):
        """A confirmed model of cs with everyday numbers for the reals drawn, where differences rarely
        get lost to rounding; None says nothing"""
        reals, n = [], st.draws
        while n is not None:
            if n[1][0].decl().name()[0] == "r":
                reals.append(n[1][0])
            n = n[0]
        if not reals:
            return None
        import random
        rnd = random.Random(1)
        cs = list(cs)
        for k in range(10):
            # a few choices for each, so that what order is needed can be had, all different
            some = [z3.Or([r == z3.BitVecVal(f2b(rnd.choice((1, 1, 1, -1)) * rnd.randint(1, 2 ** rnd.randint(3, 9)) / 128.0 * rnd.choice((1, 1, 40))), 64)
                           for _ in range(24)]) for r in reals]
            s = z3.Then("simplify", "propagate-values", "solve-eqs", "ackermannize_bv", "simplify", "bit-blast", "sat").solver()
            s.set("timeout", int(max(1, min(20, self.deadline - time.time())) * 1000))
            s.set("random_seed", k + 1)
            s.add(cs + some)
            t = time.time()
            r = s.check()
            self.queries += 1
            self.qtime += time.time() - t
            if self.o.get("verbose"):
                print("plain query %d: %.1fs %s (%s)" % (k, time.time() - t, r, what), file=sys.stderr)
            if r == z3.unknown:
                return None
            if r == z3.sat:
                m = s.model()
                if self.confirm(self.draw_bytes(st, m)):
                    return m
                cs += self.point(st, full, m)
        return None

    def confirm(self, draws):
        """Runs the function on these draws with machine arithmetic"""
        e = Engine(self.m, {"timeout": 60, "fixed": draws, "rejects": self.o.get("rejects")})
        e.run(self.fname)
        return e.violation is not None

    def apps(self, cs):
        """Applications of floating-point functions, innermost first"""
        out = []
        seen = set()
        stack = [(c, False) for c in cs]
        while stack:
            x, ready = stack.pop()
            if ready:
                out.append(x)
                continue
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    stack.append((x, True))
                for y in x.children():
                    stack.append((y, False))
        return out

    def point(self, st, cs, m):
        """The true values of the floating-point functions at the draws of m"""
        sub = []
        n = st.draws
        while n is not None:
            v = n[1][0]
            sub.append((v, m.eval(v, model_completion=True)))
            n = n[0]
        for n in set().union(*[self.defs_of(c) for c in cs]) if self.defined else ():
            v = z3.BitVec(n, 16 if n[-1] == "y" else 8)
            sub.append((v, m.eval(v, model_completion=True)))
        out = []
        val = []
        for a in self.apps(cs):
            ch = [lower(z3.simplify(z3.substitute(z3.substitute(c, val), sub))) for c in a.children()]
            if not all(isinstance(c, int) for c in ch):
                continue
            r = concrete_fp(a.decl().name(), ch)
            if r is None:
                continue
            w = a.size()
            val.append((a, z3.BitVecVal(r, w)))
            out.append(z3.Implies(z3.And([c == z3.BitVecVal(k, c.size()) for c, k in zip(a.children(), ch)]), a == z3.BitVecVal(r, w)))
        return out

    def axioms(self, cs):
        """Facts of IEEE arithmetic about the applications that occur"""
        out = []
        groups = {}
        EXP = lambda x: z3.Extract(62, 52, x)
        inf = z3.BitVecVal(0x7FF, 11)
        MAG = lambda x: x & z3.BitVecVal(2 ** 63 - 1, 64)
        fin = lambda x: EXP(x) != inf
        neg = lambda x: z3.Extract(63, 63, x) == 1
        one = z3.BitVecVal(ONE, 64)
        key = fkey
        for a in self.apps(cs):
            n = a.decl().name()
            ch = a.children()
            if n in ("sitofp32", "uitofp32", "sitofp64", "uitofp64"):
                x = ch[0]
                out += [z3.ULE(EXP(a), 1023 + 64), z3.Implies(x == 0, a == 0),
                        z3.Implies(x != 0, z3.UGE(EXP(a), 1023))]
                out.append(neg(a) == (x < 0) if n[0] == "s" else z3.Not(neg(a)))
                groups.setdefault(n, []).append(a)
            elif n == "fadd":
                x, y = ch
                f = z3.And(fin(x), fin(y))
                groups.setdefault("comm fadd", []).append(a)
                out.append(z3.Implies(z3.And(z3.ULT(EXP(x), 0x7FE), z3.ULT(EXP(y), 0x7FE)),
                                      z3.And(fin(a), z3.Or(z3.ULE(EXP(a), EXP(x) + 1), z3.ULE(EXP(a), EXP(y) + 1)))))
                out.append(z3.Implies(f, z3.Not(fisnan(a))))
                for u, v in ((x, y), (y, x)):
                    out.append(z3.Implies(z3.And(f, key(v) >= 0), key(a) >= key(u)))
                    out.append(z3.Implies(z3.And(f, key(v) <= 0), key(a) <= key(u)))
            elif n == "fsub":
                x, y = ch
                f = z3.And(fin(x), fin(y))
                out.append(z3.Implies(z3.And(z3.ULT(EXP(x), 0x7FE), z3.ULT(EXP(y), 0x7FE)),
                                      z3.And(fin(a), z3.Or(z3.ULE(EXP(a), EXP(x) + 1), z3.ULE(EXP(a), EXP(y) + 1)))))
                out.append(z3.Implies(f, z3.And(z3.Not(fisnan(a)), (key(x) > key(y)) == (key(a) > 0), (key(x) == key(y)) == (key(a) == 0))))
                out.append(z3.Implies(z3.And(f, key(y) >= 0), key(a) <= key(x)))
                out.append(z3.Implies(z3.And(f, key(y) <= 0), key(a) >= key(x)))
                out.append(z3.Implies(z3.And(f, key(x) >= 0), key(a) >= -key(y)))
                out.append(z3.Implies(z3.And(f, key(x) <= 0), key(a) <= -key(y)))
                # x - (x - trunc x), which is exact
                if y.decl().name() == "fsub" and y.arg(0).eq(x) and y.arg(1).decl().name() == "ftrunc" and y.arg(1).arg(0).eq(x):
                    out.append(z3.Implies(z3.And(fin(x), z3.Not(neg(x))), a == y.arg(1)))
                groups.setdefault(("sub", y.get_id()), []).append(a)
            elif n == "fmul":
                x, y = ch
                f = z3.And(fin(x), fin(y))
                out.append(z3.Implies(f, z3.And(z3.Not(fisnan(a)), neg(a) == (neg(x) != neg(y)))))
                groups.setdefault("comm fmul", []).append(a)
                es = z3.ZeroExt(2, EXP(x)) + z3.ZeroExt(2, EXP(y))
                out.append(z3.Implies(z3.And(f, z3.ULT(es, 1023 + 2044)), z3.And(fin(a))))
                out.append(z3.Implies(z3.And(f, z3.Or(MAG(x) == 0, MAG(y) == 0)), MAG(a) == 0))
                out.append(z3.Implies(z3.And(f, z3.UGT(es, 1023 + 4)), MAG(a) != 0))
                for u, v in ((x, y), (y, x)):
                    out.append(z3.Implies(z3.And(f, z3.ULE(MAG(v), one)), z3.ULE(MAG(a), MAG(u))))
                    out.append(z3.Implies(z3.And(f, z3.UGE(MAG(v), one)), z3.UGE(MAG(a), MAG(u))))
                    groups.setdefault(("mul", v.get_id()), []).append((u, v, a))
            elif n == "fdiv":
                x, y = ch
                f = z3.And(fin(x), fin(y), MAG(y) != 0)
                out.append(z3.Implies(f, z3.And(z3.Not(fisnan(a)), neg(a) == (neg(x) != neg(y)))))
                out.append(z3.Implies(z3.And(f, z3.UGE(MAG(y), one)), z3.ULE(MAG(a), MAG(x))))
                out.append(z3.Implies(z3.And(f, z3.ULE(MAG(y), one)), z3.UGE(MAG(a), MAG(x))))
                out.append(z3.Implies(z3.And(f, z3.ULE(MAG(x), MAG(y))), z3.ULE(MAG(a), one)))
                out.append(z3.Implies(z3.And(f, z3.UGE(MAG(x), MAG(y))), z3.UGE(MAG(a), one)))
                out.append(z3.Implies(z3.And(f, MAG(x) == 0), MAG(a) == 0))
                out.append(z3.Implies(z3.And(f, z3.UGE(EXP(x), 523), z3.ULE(EXP(y), 1523)), MAG(a) != 0))
                out.append(z3.Implies(z3.And(f, z3.ULE(EXP(x), 1523), z3.UGE(EXP(y), 523)), fin(a)))
                groups.setdefault(("div", y.get_id()), []).append((x, y, a))
            elif n == "sqrt":
                x = ch[0]
                out.append(z3.Implies(z3.And(z3.Not(fisnan(x)), key(x) >= 0), z3.And(z3.Not(fisnan(a)), key(a) >= 0)))
                groups.setdefault("mono sqrt", []).append((x, a))
            elif n in ("floor", "ceil", "ftrunc", "round", "rint"):
                x = ch[0]
                out.append(z3.Implies(fin(x), fin(a)))
                if n == "floor":
                    out.append(z3.Implies(fin(x), key(a) <= key(x)))
                if n == "ceil":
                    out.append(z3.Implies(fin(x), key(a) >= key(x)))
                if n in ("ftrunc",):
                    out.append(z3.Implies(fin(x), z3.ULE(MAG(a), MAG(x))))
                out.append(z3.Implies(z3.And(fin(x), key(x) >= 0), key(a) >= 0))
                out.append(z3.Implies(z3.And(fin(x), key(x) <= 0), key(a) <= 0))
                groups.setdefault("mono " + n, []).append((x, a))
            elif n == "exp":
                x = ch[0]
                out.append(z3.Implies(z3.Not(fisnan(x)), z3.And(z3.Not(fisnan(a)), key(a) >= 0)))
                out.append(z3.Implies(z3.And(fin(x), z3.ULE(EXP(x), 1023 + 8)), z3.And(fin(a), key(a) > 0)))
                out.append(z3.Implies(x == 0, a == one))
            elif n == "pow":
                x, y = ch
                out.append(z3.Implies(z3.And(fin(x), fin(y), key(x) > 0), z3.And(z3.Not(fisnan(a)), key(a) >= 0)))
        for k, l in groups.items():
            if len(l) > 12:
                continue
            for i in range(len(l)):
                for j in range(i):
                    p, q = l[i], l[j]
                    if isinstance(k, str) and k.startswith("comm"):
                        out.append(z3.Implies(z3.And(p.arg(0) == q.arg(1), p.arg(1) == q.arg(0)), p == q))
                    elif isinstance(k, str) and k.startswith("mono"):
                        out.append(z3.Implies(z3.And(fin(p[0]), fin(q[0]), key(p[0]) <= key(q[0])), key(p[1]) <= key(q[1])))
                        out.append(z3.Implies(z3.And(fin(p[0]), fin(q[0]), key(q[0]) <= key(p[0])), key(q[1]) <= key(p[1])))
                    elif isinstance(k, str):
                        x, y = p.arg(0), q.arg(0)
                        if k[0] == "s":
                            le, ge, lt, gt = x <= y, x >= y, x < y, x > y
                        else:
                            le, ge, lt, gt = z3.ULE(x, y), z3.UGE(x, y), z3.ULT(x, y), z3.UGT(x, y)
                        if k.endswith("32"):
                            out += [lt == (key(p) < key(q)), gt == (key(p) > key(q))]
                        else:
                            out += [z3.Implies(le, key(p) <= key(q)), z3.Implies(ge, key(p) >= key(q))]
                    elif k[0] in ("mul", "div"):
                        (x1, y, a1), (x2, _, a2) = p, q
                        f = z3.And(fin(x1), fin(x2), fin(y), MAG(y) != 0)
                        for s1, s2 in ((1, 0), (0, 1)):
                            u1, b1, u2, b2 = (x1, a1, x2, a2) if s1 else (x2, a2, x1, a1)
                            out.append(z3.Implies(z3.And(f, z3.Not(neg(y)), key(u1) <= key(u2)), key(b1) <= key(b2)))
                            out.append(z3.Implies(z3.And(f, neg(y), key(u1) <= key(u2)), key(b1) >= key(b2)))
                    elif k[0] == "sub":
                        x1, x2, y = p.arg(0), q.arg(0), p.arg(1)
                        f = z3.And(fin(x1), fin(x2), fin(y))
                        out.append(z3.Implies(z3.And(f, key(x1) <= key(x2)), key(p) <= key(q)))
                        out.append(z3.Implies(z3.And(f, key(x2) <= key(x1)), key(q) <= key(p)))
        return out

    def draw_bytes(self, st, m):
        ds = []
        n = st.draws
        while n is not None:
            ds.append(n[1])
            n = n[0]
        ds.reverse()
        out = []
        for var, size in ds:
            v = m.eval(var, model_completion=True)
            x = v.as_long() if z3.is_bv_value(v) else (1 if z3.is_true(v) else 0)
            out.append(x.to_bytes(size, "little").hex())
        return out

    FPN = {"fadd", "fsub", "fmul", "fdiv", "frem", "sitofp32", "uitofp32", "sitofp64", "uitofp64", "sqrt", "floor", "ceil", "round", "ftrunc", "rint",
           "fptosi32", "fptoui32", "fptosi64", "fptoui64", "pow", "exp", "log", "powi", "fma"}

    def has_fp(self, cs):
        seen = set()
        stack = list(cs)
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    return True
                stack.extend(x.children())
        return False

    def precise(self, cs):
        """Decides cs with IEEE semantics for the floating-point functions (pow, exp, log stay opaque)"""
        t = time.time()
        F = z3.Float64()
        RNE = z3.RNE()
        memo = {}
        side = []
        cnt = [0]

        def tofp(x):
            return z3.fpBVToFP(x, F)

        def tobv(e):
            # a fresh bit pattern constrained to denote e
            cnt[0] += 1
            v = z3.BitVec("fpv!%d" % cnt[0], 64)
            side.append(z3.fpBVToFP(v, F) == e)
            side.append(z3.Implies(z3.fpIsNaN(e), v == z3.BitVecVal(0x7FF8000000000000, 64)))
            return v

        fpm = {}

        def fpof(x):
            k = x.get_id()
            if k in fpm:
                return fpm[k][1]
            return tofp(x)

        def conv(x):
            k = x.get_id()
            r = memo.get(k)
            if r is not None:
                return r[1]
            stack = [(x, False)]
            while stack:
                y, ready = stack.pop()
                ky = y.get_id()
                if ky in memo:
                    continue
                if not ready:
                    stack.append((y, True))
                    for c in y.children():
                        if c.get_id() not in memo:
                            stack.append((c, False))
                    continue
                ch = [memo[c.get_id()][1] for c in y.children()]
                if z3.is_app(y) and y.num_args() and y.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    n = y.decl().name()
                    e = None
                    if n in ("fadd", "fsub", "fmul", "fdiv"):
                        g = {"fadd": z3.fpAdd, "fsub": z3.fpSub, "fmul": z3.fpMul, "fdiv": z3.fpDiv}[n]
                        e = g(RNE, fpof(ch[0]), fpof(ch[1]))
                    elif n.startswith("sitofp"):
                        e = z3.fpSignedToFP(RNE, ch[0], F)
                    elif n.startswith("uitofp"):
                        e = z3.fpUnsignedToFP(RNE, ch[0], F)
                    elif n == "sqrt":
                        e = z3.fpSqrt(RNE, fpof(ch[0]))
                    elif n in ("floor", "ceil", "round", "ftrunc", "rint"):
                        rm = {"floor": z3.RTN(), "ceil": z3.RTP(), "round": z3.RNA(), "ftrunc": z3.RTZ(), "rint": z3.RNE()}[n]
                        e = z3.fpRoundToIntegral(rm, fpof(ch[0]))
                    elif n.startswith("fptosi") or n.startswith("fptoui"):
                        sg = n[4] == "s"
                        w = int(n[6:])
                        a = fpof(ch[0])
                        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
                        c = (z3.fpToSBV if sg else z3.fpToUBV)(z3.RTZ(), a, z3.BitVecSort(w))
                        r = z3.If(z3.fpIsNaN(a), z3.BitVecVal(0, w),
                                  z3.If(z3.fpLEQ(a, z3.FPVal(float(lo), F)), z3.BitVecVal(lo, w),
                                        z3.If(z3.fpGEQ(a, z3.FPVal(float(hi), F)), z3.BitVecVal(hi, w), c)))
                    else:
                        r = y.decl()(*ch)
                    if e is not None:
                        r = tobv(e)
                        fpm[r.get_id()] = (r, e)
                elif y.num_args():
                    r = y.decl()(*ch)
                else:
                    r = y
                memo[ky] = (y, r)
            return memo[x.get_id()][1]

        out = [conv(c) for c in cs]
        s = z3.Solver()
        s.set("timeout", int(max(1, min(self.o.get("ptimeout", 120), self.deadline - time.time())) * 1000))
        s.add(out)
        s.add(side)
        r = s.check()
        self.queries += 1
        self.qtime += time.time() - t
        if self.o.get("verbose"):
            print("precise query %.1fs %s" % (time.time() - t, r), file=sys.stderr)
        if r == z3.unknown:
            return None, None
        return (True, s.model()) if r == z3.sat else (False, None)

    def inner_guard(self, t):
        """The guard of a conditional among the operands of t"""
        todo = [t]
        for t in todo:
            if is_ite(t):
                return t.arg(0)
            if len(todo) < 200:
                if unneg(t) is not None:
                    todo.append(unneg(t))
                elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    todo.extend(t.children())
        return None

    def choose(self, t, g, b, memo):
        """t with the conditionals on g decided"""
        k = t.get_id()
        if k in memo:
            return memo[k]
        if is_ite(t):
            if g is not None and t.arg(0).eq(g):
                r = self.choose(t.arg(1 if b else 2), g, b, memo)
            else:
                r = mk_ite(t.arg(0), self.choose(t.arg(1), g, b, memo), self.choose(t.arg(2), g, b, memo), t.size())
        elif unneg(t) is not None:
            r = fneg(self.choose(unneg(t), g, b, memo))
        elif z3.is_app(t) and t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            ch = [self.choose(c, g, b, memo) for c in t.children()]
            if t.decl().name() in ("fadd", "fsub", "fmul", "fdiv"):
                r = fbin(t.decl().name(), *ch)
            elif t.decl().name() == "pow" and isinstance(ch[1], int) and b2f(ch[1]) == 0.0:
                r = f2b(1.0)
            else:
                r = t.decl()(*[bv(c, x.size()) for c, x in zip(ch, t.children())])
        else:
            r = lower(t)
        memo[k] = r
        return r

    def pin(self, st, pc, terms):
        """The terms with the integers converted in them that have one value under pc replaced by it, or None"""
        found, todo, seen = {}, list(terms), set()
        for t in todo:
            if t.get_id() in seen or len(seen) > 300:
                continue
            seen.add(t.get_id())
            if is_ite(t):
                todo.extend([t.arg(1), t.arg(2)])
            elif unneg(t) is not None:
                todo.append(unneg(t))
            elif sitofp_arg(t) is not None:
                x = t.arg(0)
                if z3.is_bv_value(x) or self.has_fp([x]):
                    continue
                s2 = st.fork(self)
                s2.pc = pc
                ok, m = self.check(s2, z3.BoolVal(True))
                if not ok:
                    return None
                v = m.eval(x, True)
                if z3.is_bv_value(v) and not self.check(s2, x != v)[0]:
                    found[t.get_id()] = f2b(float(s_(v.as_long(), x.size())))
            elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                todo.extend(t.children())
        if not found:
            return None
        return [bv(self.choose(t, None, None, dict(found)), 64) for t in terms]

    def implied(self, pc, c):
        """Whether c follows from pc and the facts of arithmetic; False says nothing"""
        cs = self.pclist(pc) + [z3.Not(c)]
        s = z3.Then("simplify", "propagate-values", "solve-eqs", "ackermannize_bv", "simplify", "bit-blast", "sat").solver()
        s.set("timeout", int(max(1, min(10, self.deadline - time.time())) * 1000))
        s.add(cs + self.axioms(cs))
        t = time.time()
        r = s.check()
        self.queries += 1
        self.qtime += time.time() - t
        return r == z3.unsat

    def unify(self, pc, st, A, B, depth, num=False):
        """Whether A and B are the same floating-point computation on equal integers under pc (sound,
        not complete): bit-identical then, but for the sign of zeros if num"""
        if num:
            A, B = nozero(A), nozero(B)
        if A.eq(B):
            return True
        if time.time() > self.deadline:
            raise Give("time limit")
        if not self.has_fp([A, B]):
            s2 = st.fork(self)
            s2.pc = pc
            r = self.check(s2, A != B)[0]
            if r and self.o.get("verbose"):
                print("not equal: %s\n    and %s" % (A.sexpr()[-400:], B.sexpr()[-400:]), file=sys.stderr)
            return not r
        for X, Y in ((A, B), (B, A)):
            if is_ite(X):
                if depth == 0:
                    return False
                c = X.arg(0)
                for g, T in ((c, X.arg(1)), (mk_not(c), X.arg(2))):
                    s2 = st.fork(self)
                    s2.pc = pc
                    # with floating point in g the check is abstract, and one that fails goes for good
                    if not self.check(s2, g)[0]:
                        continue
                    self.assume(s2, g)
                    if not self.unify(s2.pc, s2, T, Y, depth - 1, num):
                        return False
                return True
        if A.decl().name() != B.decl().name() and depth:
            g = self.inner_guard(A)
            g = self.inner_guard(B) if g is None else g
            if g is not None:
                for c, b in ((g, True), (mk_not(g), False)):
                    s2 = st.fork(self)
                    s2.pc = pc
                    if not self.check(s2, c)[0]:
                        continue
                    self.assume(s2, c)
                    if not self.unify(s2.pc, s2, bv(self.choose(A, g, b, {}), 64), bv(self.choose(B, g, b, {}), 64), depth - 1, num):
                        return False
                return True
        if A.decl().name() != B.decl().name():
            p = self.pin(st, pc, [A, B])
            if p is not None:
                return self.unify(pc, st, p[0], p[1], depth, num)
        if (z3.is_bv_value(A) or z3.is_bv_value(B)) and self.implied(pc, A == B if not num else z3.Or(A == B, (A | B) << 1 == 0)):
            return True
        if self.o.get("verbose") and A.decl().name() != B.decl().name():
            print("not alike: %s %s\n    and %s %s" % (A.decl().name(), A.sexpr()[-900:], B.decl().name(), B.sexpr()[-900:]), file=sys.stderr)
        if A.num_args() == 0 or A.num_args() != B.num_args() or A.decl().name() != B.decl().name() or A.decl().kind() != B.decl().kind():
            return False
        if num and unneg(A) is not None and unneg(B) is not None:
            return self.unify(pc, st, unneg(A), unneg(B), depth, True)
        # where the sign of a zero operand does not matter
        free = num and {"fadd": (1, 1), "fsub": (1, 1), "fmul": (1, 1), "fdiv": (1, 0), "exp": (1,), "sqrt": (1,), "pow": (0, 1)}.get(A.decl().name())
        free = free or (0,) * A.num_args()
        if all(self.unify(pc, st, x, y, depth, bool(n)) for x, y, n in zip(A.children(), B.children(), free)):
            return True
        if A.decl().name() in ("fadd", "fmul"):
            return self.unify(pc, st, A.arg(0), B.arg(1), depth, num) and self.unify(pc, st, A.arg(1), B.arg(0), depth, num)
        return False

    def prop(self, st, c, what):
        self.props += 1
        if isinstance(c, int):
            if not c:
                if self.report(st, None, "prop", what):
                    raise Dead()
                raise Dead()
            return
        if c is UNDEF:
            raise Give("property on undef")
        n = mk_not(c)
        if isz(c) and c.get_id() in FEQ and self.o.get("fixed") is None:
            A, B, _ = FEQ[c.get_id()][:3]
            t0 = time.time()
            ok = self.unify(st.pc, st, A, B, 6, True)
            if self.o.get("verbose"):
                print("unify %s %.1fs (%s)" % (ok, time.time() - t0, what), file=sys.stderr)
            if ok:
                n = 0 if _ is None else fisnan(A)
                if isinstance(n, int) and n == 0 or not self.report(st, boolz(n), "prop", what):
                    return
                raise Dead()
        # floating point is abstract in check(): settle() decides the whole of it
        bad = self.has_fp([n]) or self.check(st, n)[0]
        if bad:
            if self.report(st, n, "prop", what):
                raise Dead()

    # ---- handlers -------------------------------------------------------------------------------
    _hcache = None

    def handler(self, name):
        if self._hcache is None:
            self._hcache = {}
        h = self._hcache.get(name, 0)
        if h == 0:
            h = None
            for pat, fn in HANDLERS:
                if pat.search(name):
                    h = fn
                    break
            self._hcache[name] = h
        return h

    def run(self, fname):
        self.fname = fname
        try:
            st = self.start(fname)
            done = self.explore(st, 0)
            self.paths += len(done)
        except Give as e:
            self.problems.append(str(e))
        except (KeyError, AttributeError, TypeError, z3.Z3Exception, IRError, RecursionError) as e:
            import traceback
            self.problems.append("internal error: %r %s" % (e, traceback.format_exc()[-1500:]))
        return {
            "violation": self.violation, "problems": self.problems, "covers": self.covers, "paths": self.paths,
            "queries": self.queries, "solver_s": round(self.qtime, 2), "wall_s": round(time.time() - self.t0, 2),
            "steps": self.steps, "functions": self.funcs, "merges": self.merges, "props": self.props,
        }


# ------------------------------------------------------------------------------------------------
# modelled functions

def h_draw(w, size, kind="d"):
    def h(e, st, name, ts, vs, rt):
        fixed = e.o.get("fixed")
        if fixed is not None:
            if st.ndraw >= len(fixed):
                raise Give("no more draws")
            st.ndraw += 1
            return int.from_bytes(bytes.fromhex(fixed[st.ndraw - 1]), "little") & ((1 << w) - 1)
        v = z3.Bool("d%d" % st.ndraw) if w == 1 else z3.BitVec("%s%d" % (kind, st.ndraw), w)
        st.draws = (st.draws, (v, size))
        st.ndraw += 1
        return v
    return h


def days(y, m, d):
    a = (14 - m) // 12
    yy = y + 4800 - a
    return d + (153 * (m + 12 * a - 3) + 2) // 5 + 365 * yy + yy // 4 - yy // 100 + yy // 400 - 32045 - 2415021


def h_civil(e, st, name, ts, vs, rt):
    """The date of a day number, as a variable defined by the inverse function (which is total and
    one-to-one on the range)"""
    n = vs[0]
    if isinstance(n, int):
        import datetime
        t = datetime.date(1900, 1, 1) + datetime.timedelta(s_(n, 32))
        return t.year << 16 | t.month << 8 | t.day
    n = z3.simplify(n)
    k = n.get_id()
    if k in e.civil_memo:
        return e.civil_memo[k][1]
    lo, hi = e.range(st, n)
    if 0 < lo <= hi <= lo + 100 and hi < 150000:
        # few months: the date as a table over them
        import datetime
        t = datetime.date(1900, 1, 1) + datetime.timedelta(lo)
        y, m = t.year, t.month
        starts = [(days(y, m, 1), y, m)]
        while True:
            y, m = (y + 1, 1) if m == 12 else (y, m + 1)
            if days(y, m, 1) > hi:
                break
            starts.append((days(y, m, 1), y, m))
        c = lambda s, y, m: z3.Concat(z3.BitVecVal(y, 16), z3.BitVecVal(m, 8), z3.Extract(7, 0, n - (s - 1)))
        r = c(*starts[0])
        for s, y, m in starts[1:]:
            r = z3.If(n >= s, c(s, y, m), r)
        return z3.simplify(r)
    v = "civ!%d" % len(e.civil_memo)
    y, m, d = z3.BitVec(v + "y", 16), z3.BitVec(v + "m", 8), z3.BitVec(v + "d", 8)
    D = z3.ZeroExt(24, d)
    length, num = number(y, m, d)
    df = z3.And(z3.UGE(y, 1801), z3.ULE(y, 2398), z3.UGE(m, 1), z3.ULE(m, 12), z3.UGE(D, 1), z3.ULE(D, length), n == num)
    for x in "ymd":
        e.defined[v + x] = (df, n, len(e.defined))
    r = z3.Concat(y, m, d)
    e.groups[v + "y"] = (n, y, m, D, length, r)
    e.civil_memo[k] = (n, r)
    return r


def number(y, m, d):
    """Length of the month and number of the day, in 32 bits"""
    Y, M, D = z3.ZeroExt(16, y), z3.ZeroExt(24, m), z3.ZeroExt(24, d)
    leap = z3.And(z3.Extract(1, 0, y) == 0, y != 1900, y != 2100, y != 2200, y != 2300)

    def table(f):
        t = z3.BitVecVal(f(12), 32)
        for k in range(11, 0, -1):
            t = z3.If(m == k, z3.BitVecVal(f(k), 32), t)
        return t

    b1 = lambda c: z3.If(c, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
    length = table(lambda k: 28 if k == 2 else days(2001, k % 12 + 1, 1) - days(2001, k, 1) if k < 12 else 31) + b1(z3.And(leap, m == 2))
    cum = table(lambda k: days(2001, k, 1) - days(2001, 1, 1)) + b1(z3.And(leap, z3.UGT(m, 2)))
    leaps = z3.LShR(Y - 1801, 2) - b1(z3.UGT(Y, 1900)) - b1(z3.UGT(Y, 2100)) - b1(z3.UGT(Y, 2200)) - b1(z3.UGT(Y, 2300)) - 24
    return length, 365 * (Y - 1900) + leaps + cum + D - 1


def h_days(e, st, name, ts, vs, rt):
    """The number of a date, whose validity the model has checked; a variable, so that the date can
    be had back"""
    y, m, d = vs
    if all(isinstance(x, int) for x in vs):
        return days(y, m, d) & 0xFFFFFFFF
    y, m, d = [z3.simplify(z3.Extract(w - 1, 0, bv(x, 32))) for x, w in zip(vs, (16, 8, 8))]
    r = z3.simplify(z3.Concat(y, m, d))
    k = ("days", r.get_id())
    if k in e.civil_memo:
        return e.civil_memo[k][1]
    if z3.is_bv_value(y) and z3.is_bv_value(m):
        n = z3.simplify(z3.ZeroExt(24, d) + z3.BitVecVal(days(y.as_long(), m.as_long(), 1) - 1, 32))
        e.civil_memo[k] = (r, n)
        e.civil_memo[n.get_id()] = (n, r)
        return n
    v = "day!%d" % len(e.civil_memo)
    n = z3.BitVec(v, 32)
    length, num = number(y, m, d)
    e.defined[v] = (n == num, r, len(e.defined))
    e.groups[v] = (n, y, m, z3.ZeroExt(24, d), length, r)
    e.civil_memo[k] = (r, n)
    e.civil_memo[n.get_id()] = (n, r)
    return n


def near(g, h):
    """What follows from the definitions of the dates of two day numbers less than a month apart, in
    the order of the numbers (implied by the definitions, given to the solver as help)"""
    n0, y0, m0, d0, l0, r0 = g
    n1, y1, m1, d1, l1, r1 = h
    k = z3.simplify(n1 - n0)
    if z3.is_bv_value(k):
        k = s_(k.as_long(), 32)
        if k > 28 or k < 0:
            return None
        k = z3.BitVecVal(k, 32)
    c = z3.And(k >= 0, k <= 28)
    dec = m0 == 12
    return z3.Implies(c, z3.If(d0 + k <= l0, z3.And(y1 == y0, m1 == m0, d1 == d0 + k),
                               z3.And(d1 == d0 + k - l0, m1 == z3.If(dec, z3.BitVecVal(1, 8), m0 + 1),
                                      y1 == z3.If(dec, y0 + 1, y0))))


def h_assume(e, st, name, ts, vs, rt):
    c = vs[0]
    if isinstance(c, int):
        if not c:
            raise Dead()
        return None
    if e.eval_model(st, c) is not True:
        ok, m = e.check(st, c)
        if not ok:
            raise Dead()
        st.model = m
    e.assume(st, c)


def h_each(e, st, name, ts, vs, rt):
    return e.concrete(st, vs[0], 32, "case split")


def h_known(e, st, name, ts, vs, rt):
    # identical terms, whatever the path condition
    a, b = vs
    if isinstance(a, int) and isinstance(b, int):
        return int(a == b)
    return int(bv(a, 64).eq(bv(b, 64)))


def h_prop(e, st, name, ts, vs, rt):
    e.prop(st, vs[0], e.cstr(st, vs[1], vs[2]))


def h_same(e, st, name, ts, vs, rt):
    a, b = vs
    if isinstance(a, int) and isinstance(b, int):
        return int(a == b or (a | b) << 1 & (2 ** 64 - 1) == 0 or b2f(a) != b2f(a) and b2f(b) != b2f(b))
    a, b = bv(a, 64), bv(b, 64)
    if a.eq(b):
        return 1
    r = mk_or(lower(z3.simplify(z3.Or(a == b, (a | b) << 1 == 0))), mk_and(fisnan(a), fisnan(b)))
    if isz(r):
        FEQ[r.get_id()] = (a, b, None, r)
    return r


def h_fpclass(e, st, name, ts, vs, rt):
    a, m = bv(vs[0], 64), vs[1]
    neg = z3.Extract(63, 63, a) == 1
    x = a & z3.BitVecVal(2 ** 63 - 1, 64)
    inf, norm, q = z3.BitVecVal(0x7FF << 52, 64), z3.BitVecVal(1 << 52, 64), z3.BitVecVal(0x7FF8 << 48, 64)
    sub = z3.And(x != 0, z3.ULT(x, norm))
    nor = z3.And(z3.UGE(x, norm), z3.ULT(x, inf))
    cs = [z3.And(z3.UGT(x, inf), z3.ULT(x, q)), z3.UGE(x, q), z3.And(neg, x == inf), z3.And(neg, nor),
          z3.And(neg, sub), z3.And(neg, x == 0), z3.And(z3.Not(neg), x == 0), z3.And(z3.Not(neg), sub),
          z3.And(z3.Not(neg), nor), z3.And(z3.Not(neg), x == inf)]
    return lower(z3.simplify(z3.Or([c for i, c in enumerate(cs) if m >> i & 1])))


def h_cover(e, st, name, ts, vs, rt):
    what = e.cstr(st, vs[1], vs[2])
    if e.covers.get(what):
        return
    c = vs[0]
    if isinstance(c, int):
        r = bool(c)
    else:
        r = e.eval_model(st, c) is True or e.check(st, c)[0]
    e.covers[what] = e.covers.get(what, False) or r


def h_alloc(e, st, name, ts, vs, rt):
    n = e.concrete(st, vs[0], 64, "allocation size")
    p = e.alloc(st, n, "heap")
    if "calloc" in name:
        pass
    return p


def h_calloc(e, st, name, ts, vs, rt):
    n = e.concrete(st, vs[0], 64, "allocation size") * e.concrete(st, vs[1], 64, "allocation size")
    p = e.alloc(st, n, "heap")
    st.mem[p >> 32].zero = True
    return p


def h_alloc_zeroed(e, st, name, ts, vs, rt):
    n = e.concrete(st, vs[0], 64, "allocation size")
    p = e.alloc(st, n, "heap")
    st.mem[p >> 32].zero = True
    return p


def h_memalign(e, st, name, ts, vs, rt):
    n = e.concrete(st, vs[2], 64, "allocation size")
    e.store(st, PTR, e.alloc(st, n, "heap"), vs[0])
    return 0


def h_free(e, st, name, ts, vs, rt):
    p = vs[0]
    if not isinstance(p, int):
        raise Give("free of a symbolic pointer")
    if p:
        o = e.wobj(st, p)
        o.alive = False
        o.cells = {}


def h_realloc(e, st, name, ts, vs, rt):
    # realloc(p, n) and __rust_realloc(p, old, align, new)
    n = e.concrete(st, vs[-1], 64, "allocation size")
    q = e.alloc(st, n, "heap")
    p = vs[0]
    o = e.obj(st, p)
    e.memcpy(st, q, p, min(n, o.size), False)
    o = e.wobj(st, p)
    o.alive = False
    o.cells = {}
    return q


def h_memcpy(e, st, name, ts, vs, rt):
    e.memcpy(st, vs[0], vs[1], e.concrete(st, vs[2], 64, "memcpy length"), "move" in name)


def h_memset(e, st, name, ts, vs, rt):
    e.memset(st, vs[0], vs[1], e.concrete(st, vs[2], 64, "memset length"))


def h_memcmp(e, st, name, ts, vs, rt):
    n = e.concrete(st, vs[2], 64, "memcmp length")
    r = 0
    for i in reversed(range(n)):
        x = e.load(st, ("i", 8), e.padd(vs[0], i))
        y = e.load(st, ("i", 8), e.padd(vs[1], i))
        if x is UNDEF or y is UNDEF:
            raise Give("memcmp of undef")
        eq = e.icmp("eq", ("i", 8), x, y)
        d = e.bin("sub", ("i", 32), e.cast("zext", ("i", 8), x, ("i", 32)), e.cast("zext", ("i", 8), y, ("i", 32)))
        r = mk_ite(eq, r, d, 32)
    return r


def h_keys(e, st, name, ts, vs, rt):
    return Agg([1, 2])


def h_noop(e, st, name, ts, vs, rt):
    return None


def h_tls(e, st, name, ts, vs, rt):
    return vs[0]


def h_ovf(op, sg):
    def h(e, st, name, ts, vs, rt):
        t = ts[0]
        w = t[1]
        a, b = vs
        if a is UNDEF or b is UNDEF:
            raise Give("overflow check on undef")
        r = e.bin(op, t, a, b)
        if isinstance(a, int) and isinstance(b, int):
            x, y = (s_(a, w), s_(b, w)) if sg else (a, b)
            v = x + y if op == "add" else x - y if op == "sub" else x * y
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
            return Agg([r, int(not lo <= v <= hi)])
        A, B = bv(a, w), bv(b, w)
        x, y = e.range(st, A), e.range(st, B)
        if sg or x[0] >= 0 and y[0] >= 0:
            z = [p + q if op == "add" else p - q if op == "sub" else p * q for p in x for q in y]
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
            if min(z) >= lo and max(z) <= hi:
                return Agg([r, 0])
        if op == "mul":
            # wide product
            ext = z3.SignExt if sg else z3.ZeroExt
            k = w
            p = ext(k, A) * ext(k, B)
            o = p != ext(k, z3.Extract(w - 1, 0, p))
            return Agg([r, lower(z3.simplify(o))])
        if isinstance(a, int) and const_leaves(B) or isinstance(b, int) and const_leaves(A):
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)

            def g(x, y):
                if sg:
                    x, y = s_(x, w), s_(y, w)
                v = x + y if op == "add" else x - y
                return int(not lo <= v <= hi)
            o = lift(B, lambda y: g(a, y), 1) if isinstance(a, int) else lift(A, lambda x: g(x, b), 1)
            return Agg([r, o])
        if sg:
            if op == "add":
                o = z3.Or(z3.Not(z3.BVAddNoOverflow(A, B, True)), z3.Not(z3.BVAddNoUnderflow(A, B)))
            else:
                o = z3.Or(z3.Not(z3.BVSubNoOverflow(A, B)), z3.Not(z3.BVSubNoUnderflow(A, B, True)))
        else:
            o = z3.ULT(r if isz(r) else bv(r, w), A) if op == "add" else z3.ULT(A, B)
        return Agg([r, o])
    return h


def h_minmax(pred):
    def h(e, st, name, ts, vs, rt):
        a, b = vs
        t = ts[0]
        c = e.icmp(pred, t, a, b)
        return mk_ite(c, a, b, t[1])
    return h


def h_usubsat(e, st, name, ts, vs, rt):
    t = ts[0]
    c = e.icmp("uge", t, vs[0], vs[1])
    return mk_ite(c, e.bin("sub", t, vs[0], vs[1]), 0, t[1])


def h_uaddsat(e, st, name, ts, vs, rt):
    t = ts[0]
    r = e.bin("add", t, vs[0], vs[1])
    return mk_ite(e.icmp("ult", t, r, vs[0]), (1 << t[1]) - 1, r, t[1])


def h_abs(e, st, name, ts, vs, rt):
    t = ts[0]
    return mk_ite(e.icmp("slt", t, vs[0], 0), e.bin("sub", t, 0, vs[0]), vs[0], t[1])


def h_cmp3(sg):
    def h(e, st, name, ts, vs, rt):
        t = ts[0]
        w = rt[1]
        lt = e.icmp("slt" if sg else "ult", t, vs[0], vs[1])
        eq = e.icmp("eq", t, vs[0], vs[1])
        return mk_ite(lt, (1 << w) - 1, mk_ite(eq, 0, 1, w), w)
    return h


def h_bits(kind):
    def h(e, st, name, ts, vs, rt):
        w = ts[0][1]
        v = vs[0]
        if not isinstance(v, int):
            if kind == "bswap":
                return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v) for i in range(w // 8)])
            if kind == "ctpop":
                r = z3.BitVecVal(0, w)
                for i in range(w):
                    r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, v))
                return r
            r = z3.BitVecVal(w, w)
            rng = range(w - 1, -1, -1) if kind == "cttz" else range(w)
            for i in rng:
                r = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(i if kind == "cttz" else w - 1 - i, w), r)
            return r
        if kind == "ctpop":
            return bin(v).count("1")
        if kind == "ctlz":
            return w - v.bit_length()
        if kind == "cttz":
            return w if v == 0 else (v & -v).bit_length() - 1
        if kind == "bswap":
            return int.from_bytes(v.to_bytes(w // 8, "little"), "big")
        raise Give(kind)
    return h


def h_fsh(left):
    def h(e, st, name, ts, vs, rt):
        w = ts[0][1]
        a, b, c = vs
        k = e.concrete(st, c, w, "shift") % w
        if k == 0:
            return a if left else b
        x = e.bin("shl", ts[0], a, k if left else w - k)
        y = e.bin("lshr", ts[0], b, w - k if left else k)
        return e.bin("or", ts[0], x, y)
    return h


def h_f1(kind):
    def h(e, st, name, ts, vs, rt):
        v = vs[0]
        if ts[0] != ("f", 64):
            raise Give("float32")
        if v is UNDEF:
            return UNDEF
        if kind == "fabs":
            v = v if unneg(v) is None else unneg(v)
            return v & (2 ** 63 - 1) if isinstance(v, int) else v & z3.BitVecVal(2 ** 63 - 1, 64)
        if isinstance(v, int):
            return fold1(kind, v)
        if const_leaves(v) and kind in ("floor", "ceil", "trunc", "round", "rint", "sqrt"):
            return lift(v, lambda x: fold1(kind, x), 64)
        return uf("ftrunc" if kind == "trunc" else kind, BV64, BV64)(v)
    return h


def h_pow(e, st, name, ts, vs, rt):
    a, b = vs
    if "powi" in name:
        b = e.cast("sitofp", ts[1], b, ("f", 64))
        return uf("powi", BV64, BV64, BV64)(bv(a, 64), bv(b, 64)) if isz(a) or isz(b) else fold_pow(a, b)
    if isinstance(a, int) and isinstance(b, int):
        return fold_pow(a, b)
    if isinstance(b, int) and b2f(b) == 0.0:
        return ONE
    if isinstance(b, int) and b2f(b) == 1.0:
        return a
    return uf("pow", BV64, BV64, BV64)(bv(a, 64), bv(b, 64))


def h_copysign(e, st, name, ts, vs, rt):
    a, b = bv(vs[0], 64), bv(vs[1], 64)
    return lower(z3.simplify((a & z3.BitVecVal(2 ** 63 - 1, 64)) | (b & z3.BitVecVal(1 << 63, 64))))


def h_fminmax(lt):
    def h(e, st, name, ts, vs, rt):
        a, b = vs
        c = fcmp("olt" if lt else "ogt", a, b)
        r = mk_ite(c, a, b, 64)
        r = mk_ite(fisnan(b), a, r, 64)
        return mk_ite(fisnan(a), b, r, 64)
    return h


def h_fptosat(e, st, name, ts, vs, rt):
    return e.fptoi_sat("fptosi" in name, rt[1], vs[0])


def h_isconst(e, st, name, ts, vs, rt):
    return 0


def h_strlen(e, st, name, ts, vs, rt):
    n = 0
    while True:
        b = e.load(st, ("i", 8), e.padd(vs[0], n))
        if not isinstance(b, int):
            raise Give("strlen")
        if b == 0:
            return n
        n += 1


def h_hash(e, st, name, ts, vs, rt):
    # the hash function is arbitrary: a constant one is as good as any
    return 0


def R(p):
    return re.compile(p)


HANDLERS = [
    (R(r"^@sx_u8$"), h_draw(8, 1)), (R(r"^@sx_u16$"), h_draw(16, 2)), (R(r"^@sx_u32$"), h_draw(32, 4)),
    (R(r"^@sx_u64$"), h_draw(64, 8)), (R(r"^@sx_bool$"), h_draw(1, 1)), (R(r"^@sx_f64$"), h_draw(64, 8, "r")),
    (R(r"^@sx_assume$"), h_assume), (R(r"^@sx_prop$"), h_prop), (R(r"^@sx_cover$"), h_cover),
    (R(r"^@sx_same$"), h_same), (R(r"^@sx_known$"), h_known), (R(r"^@llvm\.is\.fpclass\."), h_fpclass),
    (R(r"^@sx_civil$"), h_civil),
    (R(r"^@sx_each$"), h_each),
    (R(r"^@sx_days$"), h_days),
    (R(r"rust_no_alloc_shim_is_unstable"), h_noop),
    (R(r"rust_alloc_zeroed$"), h_alloc_zeroed), (R(r"rust_alloc$"), h_alloc), (R(r"rust_dealloc$"), h_free), (R(r"rust_realloc$"), h_realloc),
    (R(r"^@malloc$"), h_alloc), (R(r"^@calloc$"), h_calloc), (R(r"^@realloc$"), h_realloc), (R(r"^@free$"), h_free),
    (R(r"^@posix_memalign$"), h_memalign),
    (R(r"hashmap_random_keys"), h_keys),
    (R(r"BuildHasher8hash_one"), h_hash),
    (R(r"^@llvm\.mem(cpy|move)"), h_memcpy), (R(r"^@mem(cpy|move)$"), h_memcpy), (R(r"^@llvm\.memset"), h_memset), (R(r"^@memset$"), h_memset),
    (R(r"^@(bcmp|memcmp)$"), h_memcmp), (R(r"^@strlen$"), h_strlen),
    (R(r"^@llvm\.threadlocal"), h_tls), (R(r"^@llvm\.x86\.sse2\.pause"), h_noop),
    (R(r"^@llvm\.sadd\.with"), h_ovf("add", True)), (R(r"^@llvm\.ssub\.with"), h_ovf("sub", True)), (R(r"^@llvm\.smul\.with"), h_ovf("mul", True)),
    (R(r"^@llvm\.uadd\.with"), h_ovf("add", False)), (R(r"^@llvm\.usub\.with"), h_ovf("sub", False)), (R(r"^@llvm\.umul\.with"), h_ovf("mul", False)),
    (R(r"^@llvm\.smax"), h_minmax("sgt")), (R(r"^@llvm\.smin"), h_minmax("slt")), (R(r"^@llvm\.umax"), h_minmax("ugt")), (R(r"^@llvm\.umin"), h_minmax("ult")),
    (R(r"^@llvm\.usub\.sat"), h_usubsat), (R(r"^@llvm\.uadd\.sat"), h_uaddsat), (R(r"^@llvm\.abs\."), h_abs),
    (R(r"^@llvm\.scmp"), h_cmp3(True)), (R(r"^@llvm\.ucmp"), h_cmp3(False)),
    (R(r"^@llvm\.ctpop"), h_bits("ctpop")), (R(r"^@llvm\.ctlz"), h_bits("ctlz")), (R(r"^@llvm\.cttz"), h_bits("cttz")), (R(r"^@llvm\.bswap"), h_bits("bswap")),
    (R(r"^@llvm\.fshl"), h_fsh(True)), (R(r"^@llvm\.fshr"), h_fsh(False)),
    (R(r"^@llvm\.fabs"), h_f1("fabs")), (R(r"^@llvm\.floor|^@floor$"), h_f1("floor")), (R(r"^@llvm\.ceil|^@ceil$"), h_f1("ceil")),
    (R(r"^@llvm\.trunc|^@trunc$"), h_f1("trunc")), (R(r"^@llvm\.round\.|^@round$"), h_f1("round")), (R(r"^@llvm\.(rint|roundeven|nearbyint)\."), h_f1("rint")),
    (R(r"^@llvm\.sqrt|^@sqrt$"), h_f1("sqrt")), (R(r"^@llvm\.exp\.|^@exp$"), h_f1("exp")), (R(r"^@llvm\.log\.|^@log$"), h_f1("log")),
    (R(r"^@llvm\.pow|^@pow$"), h_pow), (R(r"^@llvm\.copysign"), h_copysign),
    (R(r"^@llvm\.(minnum|minimumnum)|^@fmin$"), h_fminmax(True)), (R(r"^@llvm\.(maxnum|maximumnum)|^@fmax$"), h_fminmax(False)),
    (R(r"^@llvm\.fpto[su]i\.sat"), h_fptosat), (R(r"^@llvm\.is\.constant"), h_isconst),
]


DEFAULT_MERGE = (r"::datetime::(date|months|weekday|weekend|calendar|holiday|holidays|period|frequency|timeunit|imm|daycounters)\b|chrono|"
                 r"qlcheck::gen::|Option|Result|Ordering|core::cmp")


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("module")
    ap.add_argument("function")
    ap.add_argument("--timeout", type=float, default=600)
    ap.add_argument("--rejects", action="store_true")
    ap.add_argument("--merge", default=DEFAULT_MERGE)
    ap.add_argument("--nomerge", default="")
    ap.add_argument("--refine", type=int, default=12)
    ap.add_argument("--ptimeout", type=int, default=60)
    ap.add_argument("--draws", help="run on these draws (hex,hex,...) instead")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    sys.setrecursionlimit(20000)
    mod = Module(a.module)
    e = Engine(mod, {"timeout": a.timeout, "rejects": a.rejects, "merge": a.merge, "nomerge": a.nomerge, "verbose": a.v,
                     "refine": a.refine, "ptimeout": a.ptimeout, "fixed": a.draws.split(",") if a.draws else None})
    r = e.run(a.function)
    if a.v:
        fs = sorted(e.forks.items(), key=lambda x: -x[1])[:15]
        for k, n in fs:
            print("fork", n, k, file=sys.stderr)
        if e.merge_fail:
            print("merges that failed:", e.merge_fail, file=sys.stderr)
    print(json.dumps(r))


if __name__ == "__main__":
    main()
