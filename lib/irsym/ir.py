"""Parser for textual LLVM IR (clang 18, opaque pointers)."""
import re


class Ty:
    __slots__ = ('k', 'n', 'el', 'size', 'align', 'offs')

    def __init__(self, k, n=0, el=None):
        self.k = k; self.n = n; self.el = el; self.size = None; self.align = None; self.offs = None

    def __repr__(self):
        return '%s%s' % (self.k, self.n or '')


VOID = Ty('void')
PTR = Ty('ptr'); PTR.size = PTR.align = 8
DBL = Ty('double'); DBL.size = DBL.align = 8
FLT = Ty('float'); FLT.size = FLT.align = 4
META = Ty('metadata')
LABEL = Ty('label')
_ints = {}


def INT(n):
    t = _ints.get(n)
    if t is None:
        t = Ty('int', n)
        b = (n + 7) // 8
        s = 1
        while s < b:
            s *= 2
        t.size = t.align = s
        _ints[n] = t
    return t


TOK = re.compile(r'''\s*(?:
   (c"(?:[^"])*")|("(?:[^"\\]|\\.)*")|
   ([%@]"[^"]*"|[%@][-A-Za-z0-9_.$]+)|
   (0x[0-9A-Fa-f]+|-?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?|-?[0-9]+)|
   ([A-Za-z_.][-A-Za-z0-9_.]*)|
   (\.\.\.|<\{|\}>|[\[\](){}<>,=*!:|\#])
 )''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m or m.end() == i:
            if s[i:].strip() == '':
                break
            raise ValueError('tok: ' + s[i:i + 60])
        out.append(m.group(m.lastindex))
        i = m.end()
    return out


class Module:
    def __init__(self, name):
        self.name = name
        self.types = {}
        self.globals = {}    # name -> (ty, inittokens or None, linkage, const)
        self.funcs = {}      # name -> Func
        self.internal = set()


class Func:
    def __init__(self, mod, name, retty, params, body, internal, vararg):
        self.mod = mod; self.name = name; self.retty = retty; self.params = params
        self.body = body; self.internal = internal; self.code = None; self.vararg = vararg
        self.nregs = 0


class P:
    """token cursor"""
    def __init__(self, toks, mod):
        self.t = toks; self.i = 0; self.mod = mod

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]; self.i += 1
        return x

    def acc(self, s):
        if self.i < len(self.t) and self.t[self.i] == s:
            self.i += 1
            return True
        return False

    def exp(self, s):
        x = self.next()
        if x != s:
            raise ValueError('expected %s got %s in %s' % (s, x, ' '.join(self.t)))

    def type(self):
        x = self.next()
        if x == 'ptr':
            t = PTR
            if self.acc('addrspace'):
                self.exp('('); self.next(); self.exp(')')
        elif x == 'double':
            t = DBL
        elif x == 'float':
            t = FLT
        elif x == 'void':
            t = VOID
        elif x == 'metadata':
            t = META
        elif x == 'label':
            t = LABEL
        elif x[0] == 'i' and x[1:].isdigit():
            t = INT(int(x[1:]))
        elif x == '[':
            n = int(self.next()); self.exp('x'); el = self.type(); self.exp(']')
            t = Ty('arr', n, el)
        elif x == '<':
            n = int(self.next()); self.exp('x'); el = self.type(); self.exp('>')
            t = Ty('vec', n, el)
        elif x == '{' or x == '<{':
            el = []
            end = '}' if x == '{' else '}>'
            while not self.acc(end):
                el.append(self.type()); self.acc(',')
            t = Ty('struct', 0, el)
            if x == '<{':
                t.n = 1
        elif x == 'opaque':
            t = Ty('opaque')
        elif x[0] == '%':
            t = self.mod.types[x]
        elif x in ('x86_fp80', 'half', 'fp128'):
            t = Ty(x); t.size = t.align = 16
        else:
            raise ValueError('type? %s in %s' % (x, ' '.join(self.t)))
        # function types  ret (args)
        while self.peek() == '(' :
            # function type: skip
            d = 0
            while True:
                y = self.next()
                if y == '(':
                    d += 1
                elif y == ')':
                    d -= 1
                    if d == 0:
                        break
            while self.acc('*'):
                pass
            t = Ty('fnty', 0, t)
        return t


def layout(t):
    if t.size is not None:
        return t.size, t.align
    if t.k == 'arr' or t.k == 'vec':
        s, a = layout(t.el)
        t.size, t.align = s * t.n, a
    elif t.k == 'struct':
        off = 0; al = 1; offs = []
        for e in t.el:
            s, a = layout(e)
            if t.n:
                a = 1
            off = (off + a - 1) // a * a
            offs.append(off)
            off += s
            al = max(al, a)
        t.size = (off + al - 1) // al * al
        t.align = al
        t.offs = offs
    elif t.k == 'opaque':
        t.size, t.align = 256, 8
    elif t.k in ('void', 'fnty', 'metadata', 'label'):
        t.size, t.align = 0, 1
    else:
        raise ValueError('layout ' + t.k)
    return t.size, t.align


PARAM_ATTR = {'noundef', 'nocapture', 'readonly', 'readnone', 'writeonly', 'nonnull', 'noalias', 'signext', 'zeroext',
              'immarg', 'returned', 'inreg', 'nofree', 'nest', 'noundef', 'dead_on_unwind', 'writable', 'allocptr', 'allocalign'}
PARAM_ATTR_P = {'align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'memory', 'range', 'captures',
                'initializes', 'nofpclass', 'elementtype'}


def skip_attrs(p):
    info = {}
    while True:
        x = p.peek()
        if x in PARAM_ATTR:
            p.next()
        elif x in PARAM_ATTR_P:
            p.next()
            if x == 'align':
                if p.peek() == '(':
                    p.next(); p.next(); p.exp(')')
                else:
                    p.next()
            elif p.peek() == '(':
                if x in ('byval', 'sret'):
                    p.next()
                    info[x] = p.type()
                    p.exp(')')
                else:
                    d = 0
                    while True:
                        y = p.next()
                        if y == '(':
                            d += 1
                        elif y == ')':
                            d -= 1
                            if d == 0:
                                break
        else:
            return info


LINK = {'private', 'internal', 'external', 'common', 'linkonce_odr', 'weak', 'linkonce', 'weak_odr', 'available_externally',
        'dso_local', 'local_unnamed_addr', 'unnamed_addr', 'hidden', 'default', 'thread_local', 'appending', 'extern_weak', 'dso_preemptable'}


def parse_module(name, text):
    mod = Module(name)
    lines = text.split('\n')
    # pass 1: type names
    tl = [l for l in lines if l.startswith('%') and ' = type ' in l]
    for l in tl:
        nm = l.split(' = type ')[0].strip()
        mod.types[nm] = Ty('named')
    for l in tl:
        nm, rhs = l.split(' = type ', 1)
        nm = nm.strip()
        p = P(tokenize(rhs), mod)
        t = p.type()
        d = mod.types[nm]
        d.k, d.n, d.el = t.k, t.n, t.el
    i = 0
    n = len(lines)
    while i < n:
        l = lines[i]
        if l.startswith('@'):
            # switch tables etc. may span several lines? clang prints one line
            nm, rhs = l.split(' = ', 1)
            nm = nm.strip()
            p = P(tokenize(strip_meta(rhs)), mod)
            link = set()
            while p.peek() in LINK or p.peek() == 'thread_local':
                x = p.next(); link.add(x)
                if x == 'thread_local' and p.peek() == '(':
                    while p.next() != ')':
                        pass
            if p.peek() == 'addrspace':
                while p.next() != ')':
                    pass
            kind = p.next()
            if kind == 'alias':
                i += 1
                continue
            assert kind in ('global', 'constant'), l
            ty = p.type()
            ini = None
            if p.peek() not in (None, ',') and 'external' not in link and 'extern_weak' not in link:
                ini = (p.t, p.i)
            key = nm[1:]
            mod.globals[key] = (ty, ini, link, kind == 'constant')
            if 'private' in link or 'internal' in link:
                mod.internal.add(key)
        elif l.startswith('define '):
            body = []
            hdr = l
            i += 1
            while lines[i] != '}':
                body.append(lines[i]); i += 1
            f = parse_header(mod, hdr, body)
            mod.funcs[f.name] = f
            if f.internal:
                mod.internal.add(f.name)
        i += 1
    return mod


META_RE = re.compile(r',?\s*![A-Za-z0-9_.]+(?:\s*![0-9]+)?')


def strip_meta(s):
    # drop trailing metadata attachments and comments (only outside strings; clang -g0 uses few)
    if ' !' in s and 'c"' not in s:
        s = re.sub(r',\s*![A-Za-z0-9_.]+\s*!\d+', '', s)
        s = re.sub(r'\s*!prof !\d+|\s*!srcloc !\d+', '', s)
    if ';' in s and '"' not in s:
        s = s.split(';')[0]
    return s


FATTR_END = re.compile(r'\)\s*[^)]*\{\s*$')


def parse_header(mod, hdr, body):
    p = P(tokenize(hdr.rstrip().rstrip('{')), mod)
    p.exp('define')
    link = set()
    while p.peek() in LINK:
        link.add(p.next())
    while p.peek() in ('fastcc', 'ccc', 'coldcc'):
        p.next()
    skip_attrs(p)
    rt = p.type_nofn() if hasattr(p, 'type_nofn') else type_nofn(p)
    nm = p.next().strip('@').strip('"')
    p.exp('(')
    params = []
    va = False
    while not p.acc(')'):
        if p.acc('...'):
            va = True
            continue
        ty = type_nofn(p)
        info = skip_attrs(p)
        reg = None
        if p.peek() and p.peek()[0] == '%':
            reg = p.next()
        params.append((ty, reg, info))
        p.acc(',')
    return Func(mod, nm, rt, params, body, 'internal' in link or 'private' in link, va)


def type_nofn(p):
    """type, not followed by function-type parens"""
    x = p.peek()
    save = p.i
    # temporarily parse without the function-type suffix
    t = _type_base(p)
    return t


def _type_base(p):
    x = p.t[p.i]
    if x in ('[', '{', '<', '<{'):
        # delegate; aggregates followed by '(' only in function types, which clang prints without parens after '@'
        j = p.i
        toks = p.t
        q = P(toks, p.mod)
        q.i = j
        d = 0
        k = j
        while True:
            if toks[k] in ('[', '{', '<', '<{'):
                d += 1
            elif toks[k] in (']', '}', '>', '}>'):
                d -= 1
                if d == 0:
                    break
            k += 1
        sub = P(toks[j:k + 1], p.mod)
        t = sub.type()
        p.i = k + 1
        return t
    sub = P([x], p.mod)
    t = sub.type()
    p.i += 1
    return t
