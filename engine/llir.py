"""Parser for the textual LLVM IR that rustc emits (the subset that appears in
unoptimised Rust output).  Produces plain Python structures for symex.py."""
import re
import struct


class IRError(Exception):
    """The IR contains something the engine does not understand."""


# ---------------------------------------------------------------- tokenizer
TOK = re.compile(r'''
    (?P<ws>\s+)
  | (?P<cstr>c"(?:[^"\\]|\\.)*")
  | (?P<str>"(?:[^"\\]|\\.)*")
  | (?P<reg>%(?:"(?:[^"\\]|\\.)*"|[-A-Za-z0-9$._]+))
  | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-A-Za-z0-9$._]+))
  | (?P<meta>!(?:"(?:[^"\\]|\\.)*"|[-A-Za-z0-9$._]*))
  | (?P<attr>\#\d+)
  | (?P<hex>f?0x[KMLHR]?[0-9A-Fa-f]+)
  | (?P<num>[-+]?\d+(?:\.\d*)?(?:[eE][-+]?\d+)?)
  | (?P<inf>[-+](?:inf|nan|qnan|snan)(?:\(0x[0-9A-Fa-f]+\))?)
  | (?P<word>[A-Za-z_$.][-A-Za-z0-9$._]*)
  | (?P<punct>\.\.\.|[()\[\]{}<>,=*:|;])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            raise IRError('cannot tokenize: ' + s[pos:pos + 60])
        pos = m.end()
        k = m.lastgroup
        if k == 'ws':
            continue
        if k == 'punct' and m.group() == ';':
            break
        out.append((k, m.group()))
    return out


# ---------------------------------------------------------------- types
# ('int',n) ('float',) ('double',) ('ptr',) ('void',) ('array',n,t)
# ('struct',[t..],packed) ('vector',n,t) ('named',name) ('opaque',)
def is_float_ty(t):
    return t[0] in ('float', 'double')


class Cur:
    """Token cursor."""
    __slots__ = ('t', 'i')

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if self.peek() != v:
            raise IRError('expected %r, got %r in %s' % (v, self.peek(), ' '.join(x[1] for x in self.t)[:300]))
        self.i += 1

    def done(self):
        return self.i >= len(self.t)


def parse_type(c):
    w = c.next()
    t = None
    if w == 'void':
        t = ('void',)
    elif w == 'float':
        t = ('float',)
    elif w == 'double':
        t = ('double',)
    elif w == 'ptr':
        t = ('ptr',)
    elif w in ('metadata', 'label', 'token'):
        t = (w,)
    elif w == 'half':
        t = ('half',)
    elif w == 'opaque':
        t = ('opaque',)
    elif w == '[':
        n = int(c.next())
        c.expect('x')
        e = parse_type(c)
        c.expect(']')
        t = ('array', n, e)
    elif w == '{':
        t = ('struct', parse_type_list(c, '}'), False)
    elif w == '<':
        if c.peek() == '{':
            c.next()
            ts = parse_type_list(c, '}')
            c.expect('>')
            t = ('struct', ts, True)
        else:
            n = int(c.next())
            c.expect('x')
            e = parse_type(c)
            c.expect('>')
            t = ('vector', n, e)
    elif w[0] == '%':
        t = ('named', w)
    elif re.fullmatch(r'i\d+', w):
        t = ('int', int(w[1:]))
    else:
        raise IRError('unknown type %r' % w)
    return t


def parse_type_list(c, end):
    ts = []
    if c.accept(end):
        return ts
    while True:
        ts.append(parse_type(c))
        if c.accept(end):
            return ts
        c.expect(',')


TYPE_WORDS = {'void', 'float', 'double', 'ptr', 'half', 'metadata', 'label'}


def at_type(c):
    w = c.peek()
    if w is None:
        return False
    return w in TYPE_WORDS or w in ('[', '{', '<') or bool(re.fullmatch(r'i\d+', w)) or (w[0] == '%' and w[1:2] == '"')


# ---------------------------------------------------------------- constants
def parse_float_const(w, t):
    """Returns the raw bit pattern as int."""
    dbl = t[0] == 'double'
    m = re.fullmatch(r'([-+])(inf|nan|qnan|snan)(?:\(0x([0-9A-Fa-f]+)\))?', w)
    if m:
        s = 1 if m.group(1) == '-' else 0
        if m.group(2) == 'inf':
            b = 0x7ff0000000000000 if dbl else 0x7f800000
        elif m.group(2) == 'snan':
            b = (0x7ff0000000000000 if dbl else 0x7f800000) | int(m.group(3) or '1', 16)
        else:
            b = (0x7ff8000000000000 if dbl else 0x7fc00000) | int(m.group(3) or '0', 16)
        return b | (s << (63 if dbl else 31))
    if w.startswith('f0x'):
        return int(w[3:], 16)
    if w.startswith('0x'):
        bits = int(w[2:], 16)
        if dbl:
            return bits
        d = struct.unpack('<d', struct.pack('<Q', bits))[0]
        if d != d:  # NaN: keep payload top bits
            return ((bits >> 63) << 31) | 0x7f800000 | ((bits >> 29) & 0x7fffff)
        return struct.unpack('<I', struct.pack('<f', d))[0]
    v = float(w)
    if dbl:
        return struct.unpack('<Q', struct.pack('<d', v))[0]
    return struct.unpack('<I', struct.pack('<f', v))[0]


# operand forms:
# ('r', name) register ; ('i', int) ; ('f', bits, ty) ; ('g', name) global
# ('null',) ('undef',) ('zero',) ; ('agg',[(ty,op)..]) ; ('bytes', b'..')
# ('gep', ty, base_op, [(ty,op)...]) ; ('inttoptr', op) ('ptrtoint', op)
def parse_value(c, ty):
    k = c.kind()
    w = c.next()
    if k == 'reg':
        return ('r', w)
    if k == 'glob':
        return ('g', w)
    if k == 'cstr':
        return ('bytes', unescape(w[2:-1]))
    if ty[0] in ('float', 'double') and k in ('num', 'hex', 'inf'):
        return ('f', parse_float_const(w, ty), ty)
    if k == 'num':
        n = int(w)
        if ty[0] == 'int':
            n &= (1 << ty[1]) - 1
        return ('i', n)
    if w == 'true':
        return ('i', 1)
    if w == 'false':
        return ('i', 0)
    if w == 'null':
        return ('null',)
    if w in ('undef', 'poison'):
        return ('undef',)
    if w == 'zeroinitializer':
        return ('zero',)
    if w == 'splat':
        c.expect('(')
        et = parse_type(c)
        e = parse_value(c, et)
        c.expect(')')
        return ('agg', [(et, e)] * ty[1])
    if w in ('{', '[', '<'):
        if w == '<' and c.peek() == '{':
            c.next()
            els = parse_elems(c, '}')
            c.expect('>')
        else:
            els = parse_elems(c, {'{': '}', '[': ']', '<': '>'}[w])
        return ('agg', els)
    if w == 'getelementptr':
        while c.peek() in ('inbounds', 'nuw', 'nusw'):
            c.next()
        if c.peek() == 'inrange':
            c.next()
            c.expect('(')
            while c.next() != ')':
                pass
        c.expect('(')
        et = parse_type(c)
        c.expect(',')
        bt = parse_type(c)
        base = parse_value(c, bt)
        idx = []
        while c.accept(','):
            it = parse_type(c)
            idx.append((it, parse_value(c, it)))
        c.expect(')')
        return ('gep', et, base, idx)
    if w in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc'):
        c.expect('(')
        st = parse_type(c)
        v = parse_value(c, st)
        c.expect('to')
        tt = parse_type(c)
        c.expect(')')
        return (w, v, st, tt)
    raise IRError('unknown constant %r (type %r)' % (w, ty))


def parse_elems(c, end):
    els = []
    if c.accept(end):
        return els
    while True:
        t = parse_type(c)
        els.append((t, parse_value(c, t)))
        if c.accept(end):
            return els
        c.expect(',')


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode('latin-1')
            i += 1
    return bytes(out)


PARAM_ATTRS = {
    'noundef', 'nonnull', 'noalias', 'readonly', 'writeonly', 'readnone', 'zeroext', 'signext', 'inreg', 'nest',
    'returned', 'immarg', 'swiftself', 'allocalign', 'allocptr', 'nocapture', 'nofree', 'writable',
    'dead_on_unwind', 'dead_on_return', 'noext', 'swifterror',
}


def skip_attrs(c):
    """Skips parameter/return attributes."""
    while True:
        w = c.peek()
        if w is None:
            return
        if w in PARAM_ATTRS:
            c.next()
        elif w == 'align':
            c.next()
            if c.accept('('):
                c.next()
                c.expect(')')
            else:
                c.next()
        elif w in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'range', 'captures', 'initializes',
                   'nofpclass', 'elementtype', 'byref', 'preallocated', 'inalloca', 'memory', 'dead_on_return'):
            c.next()
            if c.peek() == '(':
                d = 0
                while True:
                    x = c.next()
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0:
                            break
        else:
            return


class Function:
    __slots__ = ('name', 'ret', 'params', 'blocks', 'entry', 'module', 'lines', 'ninstr')

    def __init__(self):
        self.blocks = {}
        self.lines = None


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}


FN_PRE = {'internal', 'private', 'hidden', 'protected', 'external', 'weak', 'linkonce', 'linkonce_odr', 'weak_odr',
          'dso_local', 'unnamed_addr', 'local_unnamed_addr', 'fastcc', 'coldcc', 'ccc', 'available_externally',
          'preserve_mostcc', 'default', 'dso_preemptable', 'tailcc'}


def parse_fn_header(c):
    while c.peek() in FN_PRE:
        c.next()
    skip_attrs(c)
    while c.peek() in FN_PRE:
        c.next()
    ret = parse_type(c)
    name = c.next()
    c.expect('(')
    params = []
    va = False
    if not c.accept(')'):
        while True:
            if c.accept('...'):
                va = True
            else:
                t = parse_type(c)
                skip_attrs(c)
                pn = None
                if c.kind() == 'reg':
                    pn = c.next()
                params.append((t, pn))
            if c.accept(')'):
                break
            c.expect(',')
    return ret, name, params


def parse_module(text, modname):
    """Private globals and internal functions are prefixed by the module name."""
    m = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    local = {}
    # pre-scan for module-local symbols
    for ln in lines:
        if ln.startswith('@'):
            mm = re.match(r'(@(?:"[^"]*"|[-A-Za-z0-9$._]+)) = (.*)', ln)
            if mm and re.search(r'\b(private|internal)\b', mm.group(2)[:60]):
                local[mm.group(1)] = mm.group(1) + '|' + modname
        elif ln.startswith('define') and re.match(r'define (internal|private)\b', ln):
            mm = re.search(r'(@(?:"[^"]*"|[-A-Za-z0-9$._]+))\(', ln)
            if mm:
                local[mm.group(1)] = mm.group(1) + '|' + modname
    m.local = local
    while i < n:
        ln = lines[i]
        if ln.startswith('%'):
            mm = re.match(r'(%(?:"(?:[^"\\]|\\.)*"|[-A-Za-z0-9$._]+)) = type (.*)', ln)
            if mm:
                m.types[mm.group(1)] = parse_type(Cur(tokenize(mm.group(2))))
        elif ln.startswith('@'):
            try:
                parse_global(m, ln)
            except IRError as e:
                mm = re.match(r'(@(?:"[^"]*"|[-A-Za-z0-9$._]+)) =', ln)
                nm = mm.group(1)
                m.globals[local.get(nm, nm)] = ('bad', str(e))
        elif ln.startswith('define'):
            hdr = ln
            c = Cur(tokenize(hdr[6:]))
            ret, name, params = parse_fn_header(c)
            f = Function()
            f.name = local.get(name, name)
            f.ret = ret
            f.params = params
            f.module = m
            body = []
            i += 1
            while lines[i] != '}':
                body.append(lines[i])
                i += 1
            f.lines = body
            m.funcs[f.name] = f
        elif ln.startswith('declare'):
            c = Cur(tokenize(ln[7:]))
            ret, name, params = parse_fn_header(c)
            m.decls[name] = (ret, params)
        i += 1
    return m


def parse_global(m, ln):
    mm = re.match(r'(@(?:"[^"]*"|[-A-Za-z0-9$._]+)) = (.*)', ln)
    name = mm.group(1)
    toks = tokenize(mm.group(2))
    c = Cur(toks)
    while c.peek() not in ('constant', 'global'):
        if c.peek() is None:
            return
        if c.peek() == 'alias':
            raise IRError('alias')
        c.next()
    external = any(t[1] == 'external' for t in toks[:c.i])
    c.next()
    t = parse_type(c)
    if external or c.done():
        m.globals[m.local.get(name, name)] = ('ext', t)
        return
    v = parse_value(c, t)
    m.globals[m.local.get(name, name)] = ('init', t, v)


LABEL = re.compile(r'^((?:"(?:[^"\\]|\\.)*")|[-A-Za-z0-9$._]+):')


def ensure_parsed(f):
    """Parses the body of f on first use."""
    if f.lines is None:
        return
    lines = f.lines
    cur = None
    j = 0
    f.entry = None
    cnt = 0
    while j < len(lines):
        ln = lines[j]
        j += 1
        if not ln or ln.startswith(';'):
            continue
        mm = LABEL.match(ln)
        if mm and not ln.startswith(' '):
            lab = '%' + mm.group(1)
            cur = []
            f.blocks[lab] = cur
            if f.entry is None:
                f.entry = lab
            continue
        s = ln.strip()
        if s.startswith(';') or not s or s.startswith('#dbg'):
            continue
        if cur is None:
            cur = []
            f.entry = '%0'
            f.blocks['%0'] = cur
        if s.startswith('switch') and not s.rstrip().endswith(']'):
            while not lines[j].strip().startswith(']'):
                s += ' ' + lines[j].strip()
                j += 1
            s += ' ]'
            j += 1
        try:
            cur.append(parse_instr(s, f))
        except IRError as e:
            # defer the error until the instruction is executed
            cur.append(('unsupported', None, str(e) + ' :: ' + s[:200]))
        cnt += 1
    f.ninstr = cnt
    f.lines = None


def tv(c):
    t = parse_type(c)
    skip_attrs(c)
    return t, parse_value(c, t)


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr',
         'bitcast', 'ptrtoaddr'}
FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'inbounds', 'nusw', 'samesign', 'fast', 'nnan', 'ninf', 'nsz',
         'arcp', 'contract', 'afn', 'reassoc'}


def parse_instr(s, f):
    toks = tokenize(s)
    c = Cur(toks)
    dest = None
    if c.kind() == 'reg' and c.peek(1) == '=':
        dest = c.next()
        c.next()
    op = c.next()
    loc = f.module.local

    def fixg(v):
        if v[0] == 'g' and v[1] in loc:
            return ('g', loc[v[1]])
        if v[0] == 'agg':
            return ('agg', [(t, fixg(x)) for t, x in v[1]])
        if v[0] == 'gep':
            return ('gep', v[1], fixg(v[2]), v[3])
        if v[0] in ('inttoptr', 'ptrtoint', 'bitcast'):
            return (v[0], fixg(v[1])) + v[2:]
        return v

    if op in BINOPS:
        fl = []
        while c.peek() in FLAGS:
            fl.append(c.next())
        t = parse_type(c)
        a = fixg(parse_value(c, t))
        c.expect(',')
        b = fixg(parse_value(c, t))
        return ('bin', dest, op, t, a, b)
    if op == 'fneg':
        while c.peek() in FLAGS:
            c.next()
        t, a = tv(c)
        return ('fneg', dest, t, a)
    if op in ('icmp', 'fcmp'):
        while c.peek() in FLAGS:
            c.next()
        p = c.next()
        t = parse_type(c)
        a = fixg(parse_value(c, t))
        c.expect(',')
        b = fixg(parse_value(c, t))
        return (op, dest, p, t, a, b)
    if op in CASTS:
        while c.peek() in FLAGS:
            c.next()
        t, a = tv(c)
        c.expect('to')
        t2 = parse_type(c)
        return ('cast', dest, op, t, fixg(a), t2)
    if op == 'alloca':
        t = parse_type(c)
        cnt = ('i', 1)
        if c.accept(','):
            if c.peek() != 'align':
                _, cnt = tv(c)
        return ('alloca', dest, t, cnt)
    if op == 'load':
        c.accept('volatile')
        atomic = c.accept('atomic')
        t = parse_type(c)
        c.expect(',')
        _, p = tv(c)
        return ('load', dest, t, fixg(p))
    if op == 'store':
        c.accept('volatile')
        c.accept('atomic')
        t, v = tv(c)
        c.expect(',')
        _, p = tv(c)
        return ('store', None, t, fixg(v), fixg(p))
    if op == 'getelementptr':
        while c.peek() in FLAGS:
            c.next()
        et = parse_type(c)
        c.expect(',')
        _, base = tv(c)
        idx = []
        while c.accept(','):
            idx.append(tv(c))
        return ('gep', dest, et, fixg(base), idx)
    if op == 'br':
        if c.peek() == 'label':
            c.next()
            return ('br', None, c.next())
        _, cond = tv(c)
        c.expect(',')
        c.expect('label')
        a = c.next()
        c.expect(',')
        c.expect('label')
        b = c.next()
        return ('condbr', None, cond, a, b)
    if op == 'switch':
        t, v = tv(c)
        c.expect(',')
        c.expect('label')
        d = c.next()
        c.expect('[')
        cases = []
        while not c.accept(']'):
            ct, cv = tv(c)
            c.expect(',')
            c.expect('label')
            cases.append((cv[1], c.next()))
        return ('switch', None, t, v, d, cases)
    if op == 'ret':
        if c.peek() == 'void':
            return ('ret', None, None, None)
        t, v = tv(c)
        return ('ret', None, t, fixg(v))
    if op == 'unreachable':
        return ('unreachable', None)
    if op == 'resume':
        return ('unsupported', None, 'resume')
    if op == 'phi':
        while c.peek() in FLAGS:
            c.next()
        t = parse_type(c)
        inc = []
        while True:
            c.expect('[')
            v = fixg(parse_value(c, t))
            c.expect(',')
            lab = c.next()
            c.expect(']')
            inc.append((v, lab))
            if not c.accept(','):
                break
        return ('phi', dest, t, inc)
    if op == 'select':
        while c.peek() in FLAGS:
            c.next()
        ct, cv = tv(c)
        c.expect(',')
        t, a = tv(c)
        c.expect(',')
        _, b = tv(c)
        return ('select', dest, t, cv, fixg(a), fixg(b), ct)
    if op == 'extractvalue':
        t, v = tv(c)
        idx = []
        while c.accept(','):
            if c.kind() == 'num':
                idx.append(int(c.next()))
            else:
                break
        return ('extractvalue', dest, t, v, idx)
    if op == 'insertvalue':
        t, v = tv(c)
        c.expect(',')
        et, e = tv(c)
        idx = []
        while c.accept(','):
            if c.kind() == 'num':
                idx.append(int(c.next()))
            else:
                break
        return ('insertvalue', dest, t, fixg(v), et, fixg(e), idx)
    if op == 'extractelement':
        t, v = tv(c)
        c.expect(',')
        _, i = tv(c)
        return ('extractelement', dest, t, v, i)
    if op == 'insertelement':
        t, v = tv(c)
        c.expect(',')
        _, e = tv(c)
        c.expect(',')
        _, i = tv(c)
        return ('insertelement', dest, t, v, e, i)
    if op == 'freeze':
        t, v = tv(c)
        return ('freeze', dest, t, fixg(v))
    if op in ('call', 'tail', 'musttail', 'notail', 'invoke'):
        if op in ('tail', 'musttail', 'notail'):
            c.expect('call')
        while c.peek() in FLAGS or c.peek() in FN_PRE:
            c.next()
        skip_attrs(c)
        rt = parse_type(c)
        if c.peek() == '(':  # explicit function type
            d = 0
            while True:
                x = c.next()
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
                    if d == 0:
                        break
        if c.peek() == 'asm':
            raise IRError('inline asm')
        callee = fixg(parse_value(c, ('ptr',)))
        c.expect('(')
        args = []
        if not c.accept(')'):
            while True:
                t = parse_type(c)
                if t[0] == 'metadata':
                    # skip metadata operand
                    while c.peek() not in (',', ')'):
                        c.next()
                    args.append((t, ('undef',)))
                else:
                    skip_attrs(c)
                    args.append((t, fixg(parse_value(c, t))))
                if c.accept(')'):
                    break
                c.expect(',')
        if op == 'invoke':
            while c.peek() != 'to':
                c.next()
            c.next()
            c.expect('label')
            nl = c.next()
            return ('invoke', dest, rt, callee, args, nl)
        return ('call', dest, rt, callee, args)
    raise IRError('unknown instruction ' + op)


def fix_global_refs(m):
    """Applies module-local renaming inside global initialisers."""
    loc = m.local

    def fx(v):
        if v[0] == 'g':
            return ('g', loc.get(v[1], v[1]))
        if v[0] == 'agg':
            return ('agg', [(t, fx(x)) for t, x in v[1]])
        if v[0] == 'gep':
            return ('gep', v[1], fx(v[2]), v[3])
        if v[0] in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc'):
            return (v[0], fx(v[1])) + v[2:]
        return v
    for k, g in list(m.globals.items()):
        if g[0] == 'init':
            m.globals[k] = ('init', g[1], fx(g[2]))


class Program:
    """Several modules linked by symbol name."""

    def __init__(self):
        self.funcs = {}
        self.globals = {}
        self.types = {}
        self.decls = {}

    def add(self, text, modname):
        m = parse_module(text, modname)
        fix_global_refs(m)
        self.types.update(m.types)
        for k, v in m.funcs.items():
            self.funcs.setdefault(k, v)
        for k, v in m.globals.items():
            if k not in self.globals or self.globals[k][0] == 'ext':
                self.globals[k] = v
        self.decls.update(m.decls)

    # ------------------------------------------------------------ layout
    def resolve(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t

    def size_align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'int':
            n = (t[1] + 7) // 8
            p = 1
            while p < n:
                p *= 2
            return (p, min(p, 16))
        if k == 'float':
            return (4, 4)
        if k == 'double':
            return (8, 8)
        if k == 'ptr':
            return (8, 8)
        if k == 'half':
            return (2, 2)
        if k == 'array':
            s, a = self.size_align(t[2])
            return (s * t[1], a)
        if k == 'vector':
            s, a = self.size_align(t[2])
            return (s * t[1], s * t[1])
        if k == 'struct':
            off = 0
            al = 1
            for e in t[1]:
                s, a = self.size_align(e)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            off = (off + al - 1) // al * al
            return (off, al)
        raise IRError('size of %r' % (t,))

    def field_off(self, t, i):
        t = self.resolve(t)
        if t[0] in ('array', 'vector'):
            return self.size_align(t[2])[0] * i, t[2]
        off = 0
        for j, e in enumerate(t[1]):
            s, a = self.size_align(e)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off, e
            off += s
        raise IRError('field')


def load(paths):
    p = Program()
    for x in paths:
        with open(x) as f:
            p.add(f.read(), x)
    return p
