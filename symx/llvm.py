"""Symbolic interpretation of LLVM IR: C++ of the repository, compiled by clang when the check runs.

Sizes and pointers are concrete, bytes and integers may be bit vector terms.  Every access is checked
against the bounds of the object it is in; a branch on a term forks the path.
"""
import os
import re
import subprocess
import tempfile
import z3
from symx import values as V
from symx.core import Unsupported

STUBS = os.path.join(os.path.dirname(__file__), "cpp")


class Fault(Exception):
  """memory is used that is not there, or the code stops itself"""


class Ptr:
  __slots__ = ("o", "i")
  def __init__(self, o, i): self.o, self.i = o, i
  def __eq__(self, x): return type(x) is Ptr and self.o is x.o and self.i == x.i
  def __hash__(self): return hash((id(self.o), self.i))


class Obj:
  n = 0
  def __init__(self, size, what):
    Obj.n += 1
    self.cells, self.what, self.live, self.base = [None] * size, what, True, Obj.n << 32


def compile_ir(source, entry, flags=()):
  with tempfile.TemporaryDirectory() as d:
    out = os.path.join(d, "o.ll")
    cmd = ["clang++", "-std=c++17", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-exceptions", "-fno-strict-aliasing", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-w", "-I" + STUBS, f'-DSOURCE="{source}"', *flags, "-S", "-emit-llvm", "-o", out, entry]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
    if p.returncode: raise Unsupported("the source does not compile with the stand-in headers: " + p.stdout[:400])
    return Module(open(out).read())


def compile_native(source, entry, out, flags=()):
  p = subprocess.run(["clang++", "-std=c++17", "-O1", "-g", "-fsanitize=address", "-fno-exceptions", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-w", "-I" + STUBS, f'-DSOURCE="{source}"', *flags, "-o", out, entry], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
  if p.returncode: raise Unsupported(p.stdout[:400])


# ---------------------------------------------------------------- types: ("i", n) "ptr" ("a", n, t) ("s", [t], packed)
TOKEN = re.compile(r'\s*(%"[^"]*"|@"[^"]*"|c"(?:[^"\\]|\\.)*"|"[^"]*"|[%@!#][-a-zA-Z$._0-9]*|-?\d+(?:\.\d+e[+-]?\d+)?|[a-zA-Z_][-a-zA-Z$._0-9]*|<\{|\}>|\.\.\.|.)')


def tokens(s):
  out, i = [], 0
  s = s.strip()
  while i < len(s):
    m = TOKEN.match(s, i)
    if not m: break
    out.append(m.group(1))
    i = m.end()
  return out


SKIP = {"noundef", "nonnull", "noalias", "nocapture", "readonly", "writeonly", "readnone", "signext", "zeroext", "returned", "immarg", "inreg", "nofree", "dead_on_unwind", "writable", "noalias", "tail", "musttail", "notail", "nuw", "nsw", "exact", "disjoint", "inbounds", "volatile", "fastcc", "ccc", "unnamed_addr", "local_unnamed_addr", "dso_local", "nneg", "allocsize", "nofpclass"}
ATTR = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "captures", "range", "initializes", "memory", "elementtype"}


class P:
  """a parser over one line"""
  def __init__(self, mod, s): self.m, self.t, self.i = mod, tokens(s), 0
  def peek(self): return self.t[self.i] if self.i < len(self.t) else None
  def next(self):
    self.i += 1
    return self.t[self.i - 1]
  def eat(self, x):
    if self.peek() == x:
      self.i += 1
      return True
    return False
  def need(self, x):
    if not self.eat(x): raise Unsupported(f"expected {x} in {' '.join(self.t)[:200]}")
  def attrs(self):
    while self.peek() in SKIP or self.peek() in ATTR or (self.peek() or "").startswith("#"):
      a = self.next()
      if a in ATTR:
        if self.eat("("):
          d = 1
          while d:
            x = self.next()
            d += (x == "(") - (x == ")")
        elif a == "align": self.next()
  def type(self):
    t = self.next()
    if re.fullmatch(r"i\d+", t): r = ("i", int(t[1:]))
    elif t in ("ptr", "void", "label", "metadata", "double", "float"): r = t
    elif t == "[":
      n = int(self.next())
      self.need("x")
      r = ("a", n, self.type())
      self.need("]")
    elif t in ("{", "<{"):
      fs = []
      while self.peek() not in ("}", "}>"):
        fs.append(self.type())
        self.eat(",")
      self.next()
      r = ("s", fs, t == "<{")
    elif t.startswith("%"): r = self.m.types[t]
    else: raise Unsupported("type " + t)
    return r
  def value(self, t):
    """an operand of the type: a constant or a register's name"""
    x = self.next()
    if x.startswith("%"): return ("reg", x)
    if x.startswith("@"): return ("global", x)
    if x in ("true", "false"): return ("const", int(x == "true"))
    if x in ("null", "zeroinitializer", "none"): return ("const", 0) if t != "ptr" else ("null",)
    if x in ("undef", "poison"): return ("undef",)
    if re.fullmatch(r"-?\d+", x): return ("const", int(x) & ((1 << t[1]) - 1))
    if x == "getelementptr":
      self.attrs()
      self.need("(")
      r = self.gep()
      self.need(")")
      return r
    raise Unsupported("operand " + x)
  def gep(self):
    t = self.type()
    self.need(",")
    self.attrs()
    self.type()
    base, idx = self.value("ptr"), []
    while self.eat(","):
      self.attrs()
      it = self.type()
      idx.append((it, self.value(it)))
    return ("gep", t, base, idx)


def align(t):
  if t == "ptr" or t == "double": return 8
  if t == "float": return 4
  if t[0] == "i": return min(16, max(1, 1 << ((t[1] + 7) // 8 - 1).bit_length()))
  if t[0] == "a": return align(t[2])
  return 1 if t[2] else max([align(f) for f in t[1]] or [1])


def size(t):
  if t == "ptr" or t == "double": return 8
  if t == "float": return 4
  if t[0] == "i": return -(-((t[1] + 7) // 8) // align(t)) * align(t)
  if t[0] == "a": return t[1] * size(t[2])
  n = 0
  for f in t[1]: n = (n if t[2] else -(-n // align(f)) * align(f)) + size(f)
  return n if t[2] else -(-n // align(t)) * align(t)


def field(t, k):
  n = 0
  for j, f in enumerate(t[1]):
    if not t[2]: n = -(-n // align(f)) * align(f)
    if j == k: return n, f
    n += size(f)
  raise Unsupported("field")


class Module:
  def __init__(self, text):
    self.types, self.functions, self.globals, pending = {}, {}, {}, []
    lines = text.split("\n")
    for l in lines:
      m = re.match(r'(%"[^"]*"|%[-\w.$]+) = type (.*)', l)
      if m: pending.append((m.group(1), m.group(2)))
    while pending:
      n = len(pending)
      for name, body in list(pending):
        try: self.types[name] = P(self, body).type() if body != "opaque" else ("s", [], False)
        except KeyError: continue
        pending.remove((name, body))
      if len(pending) == n: raise Unsupported("recursive types")
    fn = None
    k = 0
    while k < len(lines):
      l = lines[k]
      k += 1
      if l.startswith("define"):
        fn = Function(self, l)
        self.functions[fn.name] = fn
      elif l == "}": fn = None
      elif fn is not None:
        l = l.split(", !")[0].split(" ; ")[0].rstrip() if '"' not in l or " !" in l else l
        l = re.sub(r",? ?![-\w.]+( !\d+)?", "", l)
        m = re.match(r'([-\w.$]+|"[^"]*"):', l)
        if m: fn.label("%" + m.group(1))
        elif l.strip():
          if l.strip().startswith("switch"):
            while "]" not in l:
              l += " " + lines[k].strip()
              k += 1
          fn.add(l.strip())
      elif l.startswith("@"):
        m = re.match(r'(@"[^"]*"|@[-\w.$]+) = (.*)', l)
        self.globals[m.group(1)] = m.group(2)


class Function:
  def __init__(self, mod, l):
    self.m, self.blocks, self.cur = mod, {}, None
    m = re.search(r'(@"[^"]*"|@[-\w.$]+)\((.*)\)[^()]*(\(.*\))?[^()]*\{', l)
    self.name = re.search(r'(@"[^"]*"|@[-\w.$]+)\(', l).group(1)
    p = P(mod, l[l.index(self.name) + len(self.name) + 1:])
    self.args = []
    while p.peek() != ")":
      p.type()
      p.attrs()
      if (p.peek() or "").startswith("%"): self.args.append(p.next())
      p.eat(",")
    self.label(None)
  def label(self, n):
    if n is not None and self.first_empty(): 
      del self.blocks[self.cur]
    self.cur = n
    self.blocks[n] = []
    if len(self.blocks) == 1: self.entry = n
  def first_empty(self): return self.cur in self.blocks and not self.blocks[self.cur] and len(self.blocks) == 1
  def add(self, l): self.blocks[self.cur].append([l, None])


def bits(v, n): return z3.BitVecVal(v, n) if type(v) is int else v


class Machine:
  STEPS = 400000
  def __init__(self, mod, ctx=None):
    self.m, self.ctx, self.steps, self.allocated, self.calls = mod, ctx, 0, [], set()
    self.g = {}
  # memory
  def alloc(self, n, what):
    if n > 1 << 20: raise Fault(f"{n} bytes are allocated")
    o = Obj(n, what)
    self.allocated.append(o)
    return Ptr(o, 0)
  def span(self, p, n, what):
    if type(p) is not Ptr: raise Fault(f"{what} through a pointer to nothing")
    if not p.o.live: raise Fault(f"{what} of freed memory")
    if p.i < 0 or p.i + n > len(p.o.cells): raise Fault(f"{what} of {n} bytes at {p.i} of {len(p.o.cells)} ({p.o.what})")
  def load_bytes(self, p, n):
    if n == 0: return []
    self.span(p, n, "a read")
    return p.o.cells[p.i:p.i + n]
  def store_bytes(self, p, cells):
    if not cells: return
    self.span(p, len(cells), "a write")
    p.o.cells[p.i:p.i + len(cells)] = cells
  def load(self, t, p):
    if type(t) is tuple and t[0] in ("s", "a"): raise Unsupported("load of an aggregate")
    c = self.load_bytes(p, size(t))
    if any(type(x) is tuple for x in c):
      if len(c) == 8 and all(type(x) is tuple and x[0] == c[0][0] and x[1] == k for k, x in enumerate(c)): return c[0][0]
      raise Unsupported("part of a pointer")
    if t == "ptr":
      if all(x == 0 for x in c if type(x) is int) and all(type(x) is int for x in c): return None
      raise Fault("a pointer made of data")
    if any(x is None for x in c): c = [0 if x is None else x for x in c]
    if t in ("double", "float"): raise Unsupported("floating point")
    if all(type(x) is int for x in c): v = sum(x << (8 * k) for k, x in enumerate(c))
    else: v = z3.simplify(z3.Concat(*[bits(x, 8) for x in reversed(c)])) if len(c) > 1 else c[0]
    n = t[1]
    if n < 8 * len(c): v = v & ((1 << n) - 1) if type(v) is int else z3.simplify(z3.Extract(n - 1, 0, v))
    return v
  def store(self, t, v, p):
    if type(v) is Ptr: c = [(v, k) for k in range(8)]
    elif t == "ptr": c = [0] * 8
    else:
      n = size(t)
      if type(v) is int: c = [v >> (8 * k) & 255 for k in range(n)]
      else:
        if v.size() < 8 * n: v = z3.ZeroExt(8 * n - v.size(), v)
        c = [self.simple(z3.Extract(8 * k + 7, 8 * k, v)) for k in range(n)]
    self.store_bytes(p, c)
  def simple(self, v):
    v = z3.simplify(v)
    return v.as_long() if z3.is_bv_value(v) else v
  def address(self, v): return 0 if v is None else v.o.base + v.i if type(v) is Ptr else v
  # operands
  def get(self, f, x, t):
    if x[0] == "reg": return f[x[1]]
    if x[0] == "const": return x[1]
    if x[0] == "null": return None
    if x[0] == "undef": return None if t == "ptr" else 0
    if x[0] == "global":
      if x[1] in self.m.functions: return x[1]
      if x[1] not in self.g:
        body = self.m.globals.get(x[1])
        if body is None: raise Unsupported("global " + x[1])
        s = re.search(r'c"((?:[^"\\]|\\.)*)"', body)
        if s: data = list(re.sub(rb"\\([0-9A-Fa-f]{2})", lambda k: bytes([int(k.group(1), 16)]), s.group(1).encode()))
        else:
          tt = P(self.m, re.sub(r"^.*?\b(constant|global) ", "", body)).type()
          init = re.sub(r"^.*?\b(constant|global) ", "", body)
          data = self.initial(tt, init)
        self.g[x[1]] = self.alloc(len(data), "global")
        self.g[x[1]].o.cells[:] = data
      return self.g[x[1]]
    if x[0] == "gep": return self.gep(f, x)
    raise Unsupported(x[0])
  def initial(self, t, init):
    p = P(self.m, init)
    def one():
      t = p.type()
      if p.eat("zeroinitializer"): return [0] * size(t)
      if t[0] == "i":
        v = p.value(t)[1]
        return [v >> (8 * k) & 255 for k in range(size(t))]
      if t[0] == "a" and p.eat("["):
        r = []
        while not p.eat("]"):
          r += one()
          p.eat(",")
        return r
      raise Unsupported("a global of this type")
    return one()
  def gep(self, f, x):
    _, t, base, idx = x
    b, off = self.get(f, base, "ptr"), 0
    for k, (it, v) in enumerate(idx):
      v = self.get(f, v, it)
      if type(v) is not int: v = self.concrete(v)
      if v >= 1 << (it[1] - 1): v -= 1 << it[1]
      if k == 0: off += v * size(t)
      elif t[0] == "a": off, t = off + v * size(t[2]), t[2]
      elif t[0] == "s":
        o, t = field(t, v)
        off += o
      else: raise Unsupported("gep")
    if b is None:
      if off == 0: return None
      raise Fault("a pointer to nothing is moved")
    return Ptr(b.o, b.i + off)
  def concrete(self, v):
    """a term where a number is needed: every value is explored"""
    if type(v) is int: return v
    r = V.realize_int(z3.BV2Int(v))
    return int(r)
  def truth(self, v):
    if type(v) is int: return bool(v)
    return bool(V.wrap_bool(v == 1))
  # running
  def run(self, name, args):
    fn = self.m.functions.get(name)
    if fn is None: return self.extern(name, args)
    self.calls.add(name)
    f = dict(zip(fn.args, args))
    label, prev, mine = fn.entry, None, []
    if label is None:
      n = len(fn.args)
      label_name = f"%{n}"
    else: label_name = label
    try:
      while True:
        block, moves, k = fn.blocks[label], {}, 0
        while k < len(block):
          l = block[k]
          if l[1] is None: l[1] = parse(self.m, l[0])
          if l[1][0] != "phi": break
          _, dst, t, choices = l[1]
          moves[dst] = self.get(f, choices[prev if prev is not None else label_name], t) if (prev in choices or True) else None
          k += 1
        f.update(moves)
        for l in block[k:]:
          self.steps += 1
          if self.steps > self.STEPS: raise Fault("it does not end")
          if l[1] is None: l[1] = parse(self.m, l[0])
          r = self.step(f, l[1], mine)
          if r is not None: break
        if r[0] == "ret": return r[1]
        prev = label if label is not None else f"%{len(fn.args)}"
        label = r[1]
    finally:
      for o in mine: o.live = False
  def step(self, f, i, mine):
    op = i[0]
    if op == "br":
      if i[1] is None: return ("go", i[2])
      return ("go", i[2] if self.truth(self.get(f, i[1], ("i", 1))) else i[3])
    if op == "ret": return ("ret", None if i[1] is None else self.get(f, i[2], i[1]))
    if op == "switch":
      v = self.get(f, i[2], i[1])
      for c, l in i[4]:
        if self.truth(int(v == c) if type(v) is int else z3.If(v == c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))): return ("go", l)
      return ("go", i[3])
    if op == "unreachable": raise Fault("a place that cannot be reached is reached")
    if op == "store":
      self.store(i[1], self.get(f, i[2], i[1]), self.get(f, i[3], "ptr"))
      return None
    if op == "call":
      _, dst, t, name, args = i
      if name.startswith("@llvm.lifetime") or name.startswith("@llvm.experimental") or name.startswith("@llvm.assume") or name.startswith("@llvm.dbg"): return None
      target = name if name.startswith("@") else f[name]
      v = self.run(target, [self.get(f, a, t_) for t_, a in args])
      if dst is not None: f[dst] = v
      return None
    dst = i[1]
    if op == "alloca":
      n = self.get(f, i[3], ("i", 64))
      p = self.alloc(size(i[2]) * self.concrete(n), "local")
      mine.append(p.o)
      f[dst] = p
    elif op == "load": f[dst] = self.load(i[2], self.get(f, i[3], "ptr"))
    elif op == "gep": f[dst] = self.gep(f, i[2])
    elif op == "icmp": f[dst] = self.icmp(i[2], i[3], self.get(f, i[4], i[3]), self.get(f, i[5], i[3]))
    elif op == "select":
      c = self.get(f, i[2], ("i", 1))
      a, b = self.get(f, i[4], i[3]), self.get(f, i[5], i[3])
      if type(c) is int: f[dst] = a if c else b
      elif i[3] == "ptr": f[dst] = a if self.truth(c) else b
      else: f[dst] = self.simple(z3.If(c == 1, bits(a, i[3][1]), bits(b, i[3][1])))
    elif op == "cast": f[dst] = self.cast(i[2], i[3], self.get(f, i[4], i[3]), i[5])
    elif op == "bin": f[dst] = self.binary(i[2], i[3][1], self.get(f, i[4], i[3]), self.get(f, i[5], i[3]))
    elif op == "freeze": f[dst] = self.get(f, i[3], i[2])
    else: raise Unsupported(op)
    return None
  def icmp(self, cond, t, a, b):
    if t == "ptr":
      if cond in ("eq", "ne"): return int((a == b) == (cond == "eq"))
      if type(a) is Ptr and type(b) is Ptr and a.o is not b.o: raise Fault("pointers to different objects are compared")
      a, b, n = self.address(a), self.address(b), 64
    else: n = t[1]
    a, b = self.address(a), self.address(b)
    if type(a) is int and type(b) is int:
      if cond[0] == "s": a, b = [x - (1 << n) if x >> (n - 1) else x for x in (a, b)]
      return int({"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[cond if cond in ("eq", "ne") else cond[1:]])
    a, b = bits(a, n), bits(b, n)
    e = {"eq": lambda: a == b, "ne": lambda: a != b, "ugt": lambda: z3.UGT(a, b), "uge": lambda: z3.UGE(a, b), "ult": lambda: z3.ULT(a, b), "ule": lambda: z3.ULE(a, b), "sgt": lambda: a > b, "sge": lambda: a >= b, "slt": lambda: a < b, "sle": lambda: a <= b}[cond]()
    return self.simple(z3.If(e, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)))
  def cast(self, op, t, v, to):
    if op in ("ptrtoint",): return v if type(v) is Ptr and to == ("i", 64) else self.address(v) & ((1 << to[1]) - 1)
    if op in ("inttoptr", "bitcast"):
      if type(v) is Ptr or (op == "bitcast" and t == to): return v
      if v == 0: return None
      raise Unsupported("a pointer made of a number")
    if type(v) is Ptr: v = self.address(v)
    n, m = t[1], to[1]
    if type(v) is int:
      if op == "sext" and v >> (n - 1): v |= ((1 << m) - 1) ^ ((1 << n) - 1)
      return v & ((1 << m) - 1)
    return self.simple(z3.Extract(m - 1, 0, v) if op == "trunc" else z3.ZeroExt(m - n, v) if op == "zext" else z3.SignExt(m - n, v))
  def binary(self, op, n, a, b):
    if type(a) is Ptr and type(b) is int and op in ("add", "sub"):
      if b >> (n - 1): b -= 1 << n
      return Ptr(a.o, a.i + (b if op == "add" else -b))
    if type(b) is Ptr and type(a) is int and op == "add": return self.binary(op, n, b, a)
    if type(a) is Ptr and type(b) is Ptr and op == "sub" and a.o is b.o: return (a.i - b.i) & ((1 << n) - 1)
    a, b = self.address(a), self.address(b)
    full = (1 << n) - 1
    if op in ("udiv", "sdiv", "urem", "srem"):
      if type(b) is not int:
        if self.truth(z3.If(b == 0, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))): raise Fault("a division by zero")
      elif b == 0: raise Fault("a division by zero")
    if type(a) is int and type(b) is int:
      s = lambda x: x - (1 << n) if x >> (n - 1) else x
      if op in ("sdiv", "srem"):
        q = abs(s(a)) // abs(s(b)) * (1 if (s(a) < 0) == (s(b) < 0) else -1)
        return (q if op == "sdiv" else s(a) - q * s(b)) & full
      return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b, "shl": lambda: a << b if b < n else 0, "lshr": lambda: a >> b, "ashr": lambda: s(a) >> b, "udiv": lambda: a // b, "urem": lambda: a % b}[op]() & full
    a, b = bits(a, n), bits(b, n)
    return self.simple({"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b, "shl": lambda: a << b, "lshr": lambda: z3.LShR(a, b), "ashr": lambda: a >> b, "udiv": lambda: z3.UDiv(a, b), "urem": lambda: z3.URem(a, b), "sdiv": lambda: a / b, "srem": lambda: z3.SRem(a, b)}[op]())
  def extern(self, name, args):
    n = name.strip('@"')
    if n in ("_Znwm", "_Znam", "malloc"): return self.alloc(self.concrete(args[0]), "heap")
    if n in ("_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free"):
      p = args[0]
      if p is None: return None
      if type(p) is not Ptr or p.i != 0 or p.o.what != "heap" or not p.o.live: raise Fault("memory is freed that is not allocated")
      p.o.live = False
      return None
    if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove") or n in ("memcpy", "memmove"):
      k = self.concrete(args[2])
      self.store_bytes(args[0], list(self.load_bytes(args[1], k)))
      return args[0]
    if n.startswith("llvm.memset") or n == "memset":
      v = args[1]
      if n == "memset": v = v & 255 if type(v) is int else self.simple(z3.Extract(7, 0, v))
      self.store_bytes(args[0], [v] * self.concrete(args[2]))
      return args[0]
    if n == "strlen":
      k = 0
      while self.concrete(self.load(("i", 8), Ptr(args[0].o, args[0].i + k))) != 0: k += 1
      return k
    m = re.match(r"llvm\.(umin|umax|smin|smax)\.i(\d+)", n)
    if m:
      w = ("i", int(m.group(2)))
      c = self.icmp({"umin": "ult", "umax": "ugt", "smin": "slt", "smax": "sgt"}[m.group(1)], w, args[0], args[1])
      if type(c) is int: return args[0] if c else args[1]
      return self.simple(z3.If(c == 1, bits(args[0], w[1]), bits(args[1], w[1])))
    m = re.match(r"llvm\.(usub|uadd)\.sat\.i(\d+)", n)
    if m:
      w = int(m.group(2))
      a, b = bits(args[0], w), bits(args[1], w)
      if m.group(1) == "usub": return self.simple(z3.If(z3.ULT(a, b), z3.BitVecVal(0, w), a - b))
      return self.simple(z3.If(z3.ULT(a + b, a), z3.BitVecVal((1 << w) - 1, w), a + b))
    m = re.match(r"llvm\.abs\.i(\d+)", n)
    if m:
      a = bits(args[0], int(m.group(1)))
      return self.simple(z3.If(a < 0, -a, a))
    if "__throw_" in n or "assert_fail" in n or n in ("abort", "__assert_fail", "_ZSt9terminatev"): raise Fault("it stops itself: " + n)
    raise Unsupported("call of " + n)


BIN = {"add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"}
CAST = {"trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast"}


def parse(mod, line):
  m = re.match(r'(%"[^"]*"|%[-\w.$]+) = (.*)', line)
  dst, body = (m.group(1), m.group(2)) if m else (None, line)
  p = P(mod, body)
  p.attrs()
  op = p.next()
  if op == "phi":
    t = p.type()
    choices = {}
    while True:
      p.need("[")
      v = p.value(t)
      p.need(",")
      choices[p.next()] = v
      p.need("]")
      if not p.eat(","): break
    return ("phi", dst, t, choices)
  if op == "br":
    if p.eat("label"): return ("br", None, p.next())
    t = p.type()
    c = p.value(t)
    p.need(","); p.need("label")
    a = p.next()
    p.need(","); p.need("label")
    return ("br", c, a, p.next())
  if op == "ret":
    t = p.type()
    return ("ret", None) if t == "void" else ("ret", t, p.value(t))
  if op == "switch":
    t = p.type()
    v = p.value(t)
    p.need(","); p.need("label")
    d, cases = p.next(), []
    p.need("[")
    while not p.eat("]"):
      ct = p.type()
      c = p.value(ct)[1]
      p.need(","); p.need("label")
      cases.append((c, p.next()))
    return ("switch", t, v, d, cases)
  if op == "unreachable": return ("unreachable",)
  if op == "store":
    p.attrs()
    t = p.type()
    v = p.value(t)
    p.need(",")
    p.type()
    return ("store", t, v, p.value("ptr"))
  if op == "load":
    p.attrs()
    t = p.type()
    p.need(",")
    p.type()
    return ("load", dst, t, p.value("ptr"))
  if op == "alloca":
    t = p.type()
    n = ("const", 1)
    if p.eat(",") and p.peek() != "align":
      it = p.type()
      n = p.value(it)
    return ("alloca", dst, t, n)
  if op == "getelementptr":
    p.attrs()
    return ("gep", dst, p.gep())
  if op == "icmp":
    p.eat("samesign")
    c = p.next()
    t = p.type()
    a = p.value(t)
    p.need(",")
    return ("icmp", dst, c, t, a, p.value(t))
  if op == "select":
    ct = p.type()
    c = p.value(ct)
    p.need(",")
    t = p.type()
    a = p.value(t)
    p.need(",")
    p.type()
    return ("select", dst, c, t, a, p.value(t))
  if op in CAST:
    p.attrs()
    t = p.type()
    v = p.value(t)
    p.need("to")
    return ("cast", dst, op, t, v, p.type())
  if op in BIN:
    p.attrs()
    t = p.type()
    a = p.value(t)
    p.need(",")
    return ("bin", dst, op, t, a, p.value(t))
  if op == "freeze":
    t = p.type()
    return ("freeze", dst, t, p.value(t))
  if op == "call":
    p.attrs()
    t = p.type()
    p.attrs()
    if p.eat("("):
      while not p.eat(")"): p.next()
    name = p.next()
    p.need("(")
    args = []
    while not p.eat(")"):
      at = p.type()
      p.attrs()
      if at == "metadata":
        while p.peek() not in (",", ")"): p.next()
      else: args.append((at, p.value(at)))
      p.eat(",")
    return ("call", dst, t, name, args)
  raise Unsupported("instruction " + op)
