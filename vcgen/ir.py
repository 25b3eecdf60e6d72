"""Reader for textual LLVM-18 IR (opaque pointers).  Functions are parsed on demand."""
import re, functools

TOK = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"\\]|\\.)*")
 |(?P<loc>%(?:"[^"]*"|[-\w.$]+))
 |(?P<glo>@(?:"[^"]*"|[-\w.$]+))
 |(?P<meta>!(?:\d+|[A-Za-z_]\w*)?)
 |(?P<num>-?\d+\.\d*(?:e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
 |(?P<attr>\#\d+)
 |(?P<dots>\.\.\.)
 |(?P<word>[A-Za-z_][\w.]*)
 |(?P<punct>[(){}\[\]<>,=*:|])
)''', re.X)


class IRError(Exception):
    pass


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise IRError('tokenize: ' + s[i:i + 60])
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out


def unq(name):
    # %"a b" -> %a b
    if len(name) > 1 and name[1] == '"':
        return name[0] + name[2:-1]
    return name


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'x', 'dbg', 'text')

    def __init__(self, op, res, ty, a, x=None, dbg=None, text=''):
        self.op, self.res, self.ty, self.a, self.x, self.dbg, self.text = op, res, ty, a, x, dbg, text

    def __repr__(self):
        return self.text.strip()


class Function:
    def __init__(self, name, rty, params, varargs):
        self.name, self.rty, self.params, self.varargs = name, rty, params, varargs
        self.blocks = {}
        self.entry = None
        self.dbg = None
        self.dbgvars = {}     # alloca name -> source variable name


class Parser:
    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ('eof', '')

    def next(self):
        r = self.peek()
        self.i += 1
        return r

    def at(self, v):
        return self.peek()[1] == v and self.peek()[0] != 'str'

    def eat(self, v):
        if self.at(v):
            self.i += 1
            return True
        return False

    def expect(self, v):
        k, x = self.next()
        if x != v:
            raise IRError('expected %r got %r in %r' % (v, x, ' '.join(t[1] for t in self.t)))

    # ---- types
    def type(self):
        k, v = self.next()
        if k == 'word':
            if re.fullmatch(r'i\d+', v):
                t = ('i', int(v[1:]))
            elif v == 'ptr':
                t = ('ptr',)
                if self.at('addrspace'):
                    self.next(); self.expect('('); self.next(); self.expect(')')
            elif v in ('void', 'float', 'double', 'label', 'metadata', 'token', 'x86_fp80', 'half', 'fp128', 'opaque'):
                t = (v,)
            else:
                raise IRError('type ' + v)
        elif k == 'loc':
            t = ('named', unq(v)[1:])
        elif v == '[':
            n = int(self.next()[1]); self.expect('x'); e = self.type(); self.expect(']')
            t = ('arr', n, e)
        elif v == '{':
            t = ('lit', False, self._fields('}'))
        elif v == '<':
            if self.at('{'):
                self.next()
                t = ('lit', True, self._fields('}'))
                self.expect('>')
            else:
                n = int(self.next()[1]); self.expect('x'); e = self.type(); self.expect('>')
                t = ('vec', n, e)
        else:
            raise IRError('type tok %r in %r' % (v, ' '.join(t[1] for t in self.t)))
        # function type?  e.g.  i32 (ptr, ...)
        if self.at('(') and self._isfnty():
            self.next()
            va = False
            while not self.at(')'):
                if self.eat('...'):
                    va = True
                else:
                    self.type()
                self.eat(',')
            self.expect(')')
            t = ('fn', t, va)
        return t

    def _isfnty(self):
        # heuristic: '(' directly after a type inside a call instruction names the function type
        j = self.i + 1
        d = 1
        while j < len(self.t) and d:
            if self.t[j][1] == '(':
                d += 1
            elif self.t[j][1] == ')':
                d -= 1
            elif self.t[j][0] in ('glo', 'str', 'num') and d == 1 and self.t[j][0] != 'num':
                return False
            j += 1
        return j < len(self.t) and self.t[j][0] in ('glo', 'loc')

    def _fields(self, end):
        fs = []
        while not self.at(end):
            fs.append(self.type())
            self.eat(',')
        self.expect(end)
        return tuple(fs)

    # ---- values
    PATTR = {'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'returned', 'nocapture', 'readonly', 'readnone',
             'writeonly', 'noalias', 'immarg', 'writable', 'dead_on_unwind', 'nest', 'allocalign', 'allocptr', 'noext',
             'swiftself', 'swifterror', 'nofree', 'noundef'}

    def pattrs(self):
        """parameter attributes; returns dict"""
        at = {}
        while True:
            k, v = self.peek()
            if k == 'word' and v in self.PATTR:
                self.next(); at[v] = True
            elif k == 'word' and v == 'align':
                self.next()
                if self.eat('('):
                    at['align'] = int(self.next()[1]); self.expect(')')
                else:
                    at['align'] = int(self.next()[1])
            elif k == 'word' and v in ('dereferenceable', 'dereferenceable_or_null', 'captures', 'memory', 'allocsize'):
                self.next(); self.expect('(')
                d = 1
                while d:
                    x = self.next()[1]
                    d += x == '('; d -= x == ')'
            elif k == 'word' and v in ('byval', 'sret', 'byref', 'inalloca', 'elementtype', 'preallocated'):
                self.next(); self.expect('('); at[v] = self.type(); self.expect(')')
            else:
                return at

    def value(self, ty):
        k, v = self.next()
        if k == 'loc':
            return ('loc', unq(v)[1:])
        if k == 'glo':
            return ('glo', unq(v)[1:])
        if k == 'num':
            if ty[0] in ('float', 'double', 'x86_fp80', 'half'):
                return ('fp', ty[0], v)
            return ('int', int(v))
        if k == 'word':
            if v == 'true':
                return ('int', 1)
            if v == 'false':
                return ('int', 0)
            if v in ('null', 'none'):
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v in ('getelementptr',):
                while self.peek()[0] == 'word' and self.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange'):
                    self.next()
                self.expect('(')
                sty = self.type()
                ops = []
                while self.eat(','):
                    self.eat('inrange')
                    t = self.type()
                    ops.append((t, self.value(t)))
                self.expect(')')
                return ('cgep', sty, ops)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.expect('(')
                t = self.type(); x = self.value(t); self.expect('to'); t2 = self.type(); self.expect(')')
                return ('ccast', v, t, x, t2)
            if v in ('sub', 'add', 'mul', 'and', 'or', 'xor', 'shl'):
                while self.peek()[1] in ('nsw', 'nuw'):
                    self.next()
                self.expect('(')
                t = self.type(); x = self.value(t); self.expect(','); t2 = self.type(); y = self.value(t2); self.expect(')')
                return ('cbin', v, t, x, y)
            if v == 'dso_local_equivalent':
                return self.value(ty)
            if v == 'asm':
                return ('asm',)
            raise IRError('value word ' + v)
        if k == 'str':
            return ('bytes', _cstr(v))
        if v == '[':
            xs = []
            while not self.at(']'):
                t = self.type(); xs.append((t, self.value(t))); self.eat(',')
            self.expect(']')
            return ('agg', xs)
        if v == '{':
            xs = []
            while not self.at('}'):
                t = self.type(); xs.append((t, self.value(t))); self.eat(',')
            self.expect('}')
            return ('agg', xs)
        if v == '<':
            if self.at('{'):
                self.next()
                xs = []
                while not self.at('}'):
                    t = self.type(); xs.append((t, self.value(t))); self.eat(',')
                self.expect('}'); self.expect('>')
                return ('agg', xs)
            xs = []
            while not self.at('>'):
                t = self.type(); xs.append((t, self.value(t))); self.eat(',')
            self.expect('>')
            return ('agg', xs)
        if k == 'meta':
            # metadata operand: skip to matching
            return ('meta',)
        raise IRError('value %r' % ((k, v),))


def _cstr(v):
    s = v[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\' and s[i + 1] == '\\':
            out.append(92); i += 2
        elif s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out += s[i].encode('utf-8'); i += 1
    return bytes(out)


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext',
         'fptrunc', 'addrspacecast'}
FLAGS = {'nsw', 'nuw', 'exact', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast', 'disjoint', 'nneg',
         'inbounds', 'volatile', 'tail', 'musttail', 'notail', 'nuw', 'samesign'}
CCONV = {'fastcc', 'ccc', 'coldcc', 'dso_local', 'internal', 'linkonce_odr', 'private', 'weak_odr', 'weak',
         'available_externally', 'linkonce', 'hidden', 'protected', 'default', 'unnamed_addr', 'local_unnamed_addr',
         'external', 'constant', 'global', 'thread_local', 'common', 'appending', 'extern_weak', 'externally_initialized'}


class Module:
    def __init__(self, path, text=None):
        self.path = path
        self.text = text if text is not None else open(path).read()
        self.types = {}
        self._gl = {}       # name -> line
        self._fn = {}       # name -> (start,end)
        self._decl = {}
        self._md = {}
        self._funcs = {}
        self._gcache = {}
        self._index()
        self._lay = {}

    def _index(self):
        T = self.text
        lines = T.split('\n')
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define'):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                name = m.group(1).strip('"')
                j = i
                while lines[j] != '}':
                    j += 1
                self._fn[name] = (l, lines[i + 1:j])
                i = j
            elif l.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                self._decl[m.group(1).strip('"')] = l
            elif l.startswith('%'):
                m = re.match(r'%("[^"]*"|[-\w.$]+) = type (.*)$', l)
                self.types[m.group(1).strip('"')] = m.group(2)
            elif l.startswith('@'):
                m = re.match(r'@("[^"]*"|[-\w.$]+) = ', l)
                self._gl[m.group(1).strip('"')] = l
            elif l.startswith('!'):
                m = re.match(r'!(\d+) = (.*)$', l)
                if m:
                    self._md[int(m.group(1))] = m.group(2)
            i += 1

    # ------------------------------------------------------------ types
    def struct(self, name):
        t = self.types[name]
        if isinstance(t, str):
            if t == 'opaque':
                t = ('lit', False, ())
            else:
                t = Parser(tokenize(t), self).type()
            self.types[name] = t
        return t

    def resolve(self, t):
        return self.struct(t[1]) if t[0] == 'named' else t

    def layout(self, t):
        """(size, align, offsets or None)"""
        r = self._lay.get(t)
        if r is None:
            r = self._lay[t] = self._layout(t)
        return r

    def _layout(self, t):
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            a = 1
            while a < b:
                a *= 2
            a = min(a, 16)
            return ((b + a - 1) // a * a, a, None)
        if k == 'ptr':
            return (8, 8, None)
        if k == 'float':
            return (4, 4, None)
        if k == 'double':
            return (8, 8, None)
        if k == 'x86_fp80':
            return (16, 16, None)
        if k == 'arr':
            s, a, _ = self.layout(t[2])
            return (s * t[1], a, None)
        if k == 'vec':
            s, a, _ = self.layout(t[2])
            return (s * t[1], s * t[1], None)
        if k == 'named':
            return self.layout(self.struct(t[1]))
        if k == 'lit':
            off, al, offs = 0, 1, []
            for f in t[2]:
                s, a, _ = self.layout(f)
                if t[1]:
                    a = 1
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                al = max(al, a)
            return ((off + al - 1) // al * al, al, offs)
        raise IRError('layout %r' % (t,))

    def sizeof(self, t):
        return self.layout(t)[0]

    # ------------------------------------------------------------ globals
    def has_global(self, name):
        return name in self._gl

    def global_var(self, name):
        """(type, init or None, isconst)"""
        if name in self._gcache:
            return self._gcache[name]
        l = self._gl[name]
        m = re.search(r' alias .*@("[^"]*"|[-\w.$]+)\s*$', l)
        if m:
            r = self._gcache[name] = ('alias', m.group(1).strip('"'), False)
            return r
        l = re.sub(r', (?:align \d+|!dbg !\d+|comdat(?:\(\$[^)]*\))?|section "[^"]*")', '', l)
        l = re.sub(r',? comdat(\(\$("[^"]*"|[^)]*)\))?', '', l)
        p = Parser(tokenize(l), self)
        p.next(); p.expect('=')
        isext = isconst = False
        alias = False
        while True:
            k, v = p.peek()
            if k == 'word' and v in CCONV:
                p.next()
                if v in ('external', 'extern_weak'):
                    isext = True
                if v == 'constant':
                    isconst = True; break
                if v == 'global':
                    break
                if v == 'thread_local' and p.at('('):
                    p.next(); p.next(); p.expect(')')
            elif v in ('ifunc',):
                raise IRError('ifunc')
            else:
                raise IRError('global ' + l[:80])
        ty = p.type()
        init = None if isext else p.value(ty)
        r = (ty, init, isconst)
        self._gcache[name] = r
        return r

    # ------------------------------------------------------------ functions
    def defined(self, name):
        return name in self._fn

    def func(self, name):
        f = self._funcs.get(name)
        if f is None:
            f = self._funcs[name] = self._parse_fn(name)
        return f

    def func_names(self):
        return list(self._fn)

    def _header(self, l):
        p = Parser(tokenize(re.sub(r'\{\s*$', '', l)), self)
        p.next()
        while p.peek()[0] == 'word' and (p.peek()[1] in CCONV):
            p.next()
        p.pattrs()
        while p.peek()[0] == 'word' and p.peek()[1] in CCONV:
            p.next()
        rty = p.type()
        name = unq(p.next()[1])[1:]
        p.expect('(')
        params, va = [], False
        while not p.at(')'):
            if p.eat('...'):
                va = True
                continue
            t = p.type()
            at = p.pattrs()
            nm = None
            if p.peek()[0] == 'loc':
                nm = unq(p.next()[1])[1:]
            params.append((t, nm, at))
            p.eat(',')
        return Function(name, rty, params, va)

    def decl(self, name):
        """signature of a declared or defined function"""
        if name in self._fn:
            return self.func(name)
        return self._header(self._decl[name])

    def _parse_fn(self, name):
        head, body = self._fn[name]
        m = re.search(r'!dbg !(\d+)', head)
        f = self._header(head)
        f.dbg = int(m.group(1)) if m else None
        # implicit numbering of unnamed params
        params = []
        for i, (t, nm, at) in enumerate(f.params):
            params.append((t, nm if nm is not None else str(i), at))
        f.params = params
        cur = 'entry'
        first = True
        i, n = 0, len(body)
        blocks = {}
        while i < n:
            l = body[i]
            if not l.strip() or l.startswith(';'):
                i += 1
                continue
            if not l.startswith(' '):
                m = re.match(r'("[^"]*"|[-\w.$]+):', l)
                cur = m.group(1).strip('"')
                blocks[cur] = []
                if first:
                    f.entry = cur
                    first = False
                i += 1
                continue
            if first:
                # unnamed entry block
                cur = str(len(f.params)) if True else 'entry'
                blocks[cur] = []
                f.entry = cur
                first = False
            full = l
            s = l.strip()
            if ' invoke ' in ' ' + s and i + 1 < n and body[i + 1].lstrip().startswith('to label'):
                full = l + ' ' + body[i + 1].strip()
                i += 1
            elif s.startswith('switch') or ' = switch' in s:
                while ']' not in full.split('[', 1)[-1]:
                    i += 1
                    full += ' ' + body[i].strip()
            elif ' landingpad ' in ' ' + s:
                while i + 1 < n and re.match(r'\s+(cleanup|catch|filter)', body[i + 1]):
                    i += 1
                    full += ' ' + body[i].strip()
            blocks[cur].append(full)
            i += 1
        for b, ls in blocks.items():
            out = []
            for l in ls:
                ins = self._instr(l, f)
                if ins is not None:
                    out.append(ins)
            f.blocks[b] = out
        return f

    def _instr(self, line, f):
        s = line.strip()
        if 'llvm.dbg.' in s:
            m = re.match(r'call void @llvm\.dbg\.declare\(metadata ptr %("[^"]*"|[-\w.$]+), metadata !(\d+)', s)
            if m:
                f.dbgvars[m.group(1).strip('"')] = int(m.group(2))
            return None
        dbg = None
        m = re.search(r', !dbg !(\d+)', s)
        if m:
            dbg = int(m.group(1))
        s = re.sub(r'(,)? ![a-zA-Z_.]+ !\d+', '', s)
        p = Parser(tokenize(s), self)
        res = None
        if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
            res = unq(p.next()[1])[1:]
            p.next()
        fl = set()
        while p.peek()[0] == 'word' and p.peek()[1] in ('tail', 'musttail', 'notail'):
            p.next()
        k, op = p.next()
        I = lambda ty, a, x=None: Instr(op, res, ty, a, x, dbg, line)
        def flags():
            while p.peek()[0] == 'word' and p.peek()[1] in FLAGS:
                fl.add(p.next()[1])
        if op in BINOPS:
            flags()
            t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            return I(t, [a, b], fl)
        if op in CASTS:
            flags()
            t = p.type(); a = p.value(t); p.expect('to'); t2 = p.type()
            return I(t2, [a], t)
        if op in ('icmp', 'fcmp'):
            flags()
            pred = p.next()[1]
            t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            return I(t, [a, b], pred)
        if op == 'fneg':
            flags()
            t = p.type()
            return I(t, [p.value(t)])
        if op == 'freeze':
            t = p.type()
            return I(t, [p.value(t)])
        if op == 'alloca':
            p.eat('inalloca')
            t = p.type()
            cnt = None
            if p.eat(','):
                if not p.at('align'):
                    t2 = p.type(); cnt = p.value(t2)
            return I(t, [], cnt)
        if op == 'load':
            p.eat('atomic'); flags()
            t = p.type(); p.expect(','); p.type(); a = p.value(('ptr',))
            return I(t, [a])
        if op == 'store':
            p.eat('atomic'); flags()
            t = p.type(); v = p.value(t); p.expect(','); p.type(); a = p.value(('ptr',))
            return I(t, [v, a])
        if op == 'getelementptr':
            flags()
            t = p.type()
            ops = []
            while p.eat(','):
                ot = p.type(); ops.append((ot, p.value(ot)))
            return I(t, ops)
        if op == 'br':
            t = p.type()
            if t == ('label',):
                return I(None, [], [unq(p.next()[1])[1:]])
            c = p.value(t); p.expect(','); p.type(); a = unq(p.next()[1])[1:]
            p.expect(','); p.type(); b = unq(p.next()[1])[1:]
            return I(t, [c], [a, b])
        if op == 'switch':
            t = p.type(); v = p.value(t); p.expect(','); p.type(); d = unq(p.next()[1])[1:]
            p.expect('[')
            cs = []
            while not p.at(']'):
                ct = p.type(); cv = p.value(ct); p.expect(','); p.type()
                cs.append((cv[1], unq(p.next()[1])[1:]))
            return I(t, [v], (d, cs))
        if op == 'ret':
            t = p.type()
            if t == ('void',):
                return I(t, [])
            return I(t, [p.value(t)])
        if op == 'unreachable':
            return I(None, [])
        if op == 'phi':
            flags()
            t = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(t); p.expect(','); lb = unq(p.next()[1])[1:]
                p.expect(']')
                inc.append((v, lb))
                if not p.eat(','):
                    break
            return I(t, [], inc)
        if op == 'select':
            flags()
            t0 = p.type(); c = p.value(t0); p.expect(',')
            t = p.type(); a = p.value(t); p.expect(','); p.type(); b = p.value(t)
            return I(t, [c, a, b])
        if op in ('call', 'invoke'):
            flags()
            while p.peek()[0] == 'word' and p.peek()[1] in CCONV:
                p.next()
            p.pattrs()
            rt = p.type()
            if rt[0] == 'fn':
                rt = rt[1]
            callee = p.value(('ptr',))
            if callee[0] == 'asm':
                return I(rt, [], ('asm', [], None))
            p.expect('(')
            args = []
            while not p.at(')'):
                if p.peek()[0] == 'word' and p.peek()[1] == 'metadata':
                    # metadata argument: skip whole call
                    return None
                t = p.type(); at = p.pattrs(); v = p.value(t)
                args.append((t, v, at))
                p.eat(',')
            p.expect(')')
            dest = None
            if op == 'invoke':
                while not p.at('to'):
                    p.next()
                p.next(); p.type(); dest = unq(p.next()[1])[1:]
            return I(rt, args, ('call', callee, dest))
        if op == 'extractvalue':
            t = p.type(); a = p.value(t)
            idx = []
            while p.eat(','):
                idx.append(int(p.next()[1]))
            return I(t, [a], idx)
        if op == 'insertvalue':
            t = p.type(); a = p.value(t); p.expect(','); t2 = p.type(); b = p.value(t2)
            idx = []
            while p.eat(','):
                idx.append(int(p.next()[1]))
            return I(t, [a, b], idx)
        if op in ('landingpad', 'resume', 'cleanupret', 'catchret'):
            return I(None, [])
        if op in ('fence',):
            return None
        if op in ('atomicrmw', 'cmpxchg'):
            return Instr(op, res, None, [], None, dbg, line)
        if op in ('extractelement', 'insertelement', 'shufflevector', 'va_arg'):
            return Instr(op, res, None, [], None, dbg, line)
        raise IRError('instr ' + line)

    # ------------------------------------------------------------ debug info
    def md(self, i):
        """metadata node as (kind, dict) or list"""
        return _md_parse(self._md[i])

    @functools.cached_property
    def _comp(self):
        d = {}
        for i, s in self._md.items():
            if 'DICompositeType(' in s and 'DIFlagFwdDecl' not in s and 'elements:' in s:
                m = re.search(r'name: "([^"]*)"', s)
                if m:
                    d.setdefault(m.group(1), []).append(i)
        # C structs without tag, through typedefs
        for i, s in self._md.items():
            if 'DW_TAG_typedef' in s:
                m = re.search(r'name: "([^"]*)".*baseType: !(\d+)', s)
                if m and 'DICompositeType(' in self._md[int(m.group(2))]:
                    d.setdefault(m.group(1), []).append(int(m.group(2)))
        return d

    def fields(self, cname):
        """name -> (byte offset, byte size, base type id, bit info) including inherited members"""
        r = {}
        key = ('fields', cname)
        if key in self._gcache:
            return self._gcache[key]
        ids = self._comp.get(cname)
        if not ids:
            raise IRError('no debug info for type ' + cname)
        self._fields_of(ids[0], 0, r)
        self._gcache[key] = r
        return r

    def field_path(self, cname, path):
        """(byte offset, byte size) of a member path of a class"""
        ids = self._comp.get(cname)
        i, off, sz = ids[0], 0, 0
        for f in path.split('.'):
            r = self._gcache.get(('fid', i))
            if r is None:
                r = {}
                self._fields_of(i, 0, r)
                self._gcache[('fid', i)] = r
            if f not in r:
                return None
            off += r[f][0]
            sz = r[f][1]
            i = r[f][2]
            k, d = self.md(i)
            while k == 'DIDerivedType' and d.get('tag') in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_member'):
                i = int(d['baseType'][1:])
                k, d = self.md(i)
        return off, sz

    def _fields_of(self, i, base, r):
        k, d = self.md(i)
        el = d.get('elements')
        if not el:
            return
        for e in self.md(int(el[1:]))[1]['list']:
            if not e.startswith('!'):
                continue
            s = self._md[int(e[1:])]
            if 'DW_TAG_inheritance' in s:
                kk, dd = _md_parse(s)
                self._fields_of(int(dd['baseType'][1:]), base + int(dd.get('offset', 0)) // 8, r)
            elif 'DW_TAG_member' in s and 'DIFlagStaticMember' not in s:
                kk, dd = _md_parse(s)
                bit = int(dd.get('offset', 0))
                if 'name' not in dd:
                    self._fields_of(int(dd['baseType'][1:]), base + bit // 8, r)
                    continue
                r[dd.get('name', '"?"').strip('"')] = (base + bit // 8, (int(dd.get('size', 0)) + 7) // 8, int(dd['baseType'][1:]), bit % 8)

    def vslots(self, cname):
        """virtual slot index -> linkage name, including inherited"""
        r = {}
        def rec(i):
            k, d = self.md(i)
            el = d.get('elements')
            if not el:
                return
            for e in self.md(int(el[1:]))[1]['list']:
                if not e.startswith('!'):
                    continue
                s = self._md[int(e[1:])]
                if 'DW_TAG_inheritance' in s:
                    kk, dd = _md_parse(s)
                    rec(int(dd['baseType'][1:]))
                elif s.startswith('!DISubprogram(') and 'virtualIndex:' in s or s.startswith('!DISubprogram(') and 'DISPFlagVirtual' in s or 'DISPFlagPureVirtual' in s:
                    kk, dd = _md_parse(s)
                    ix = int(dd.get('virtualIndex', 0))
                    ln = dd.get('linkageName', dd.get('name', '')).strip('"')
                    nm = dd.get('name', '').strip('"')
                    if nm.startswith('~'):
                        r[ix] = '~' ; r[ix + 1] = '~delete'
                    else:
                        r[ix] = ln
        rec(self._comp[cname][0])
        return r

    def ancestors(self, cname):
        """cname and its base classes that share its address"""
        r = []

        def rec(i):
            k, d = self.md(i)
            n = d.get('name', '').strip('"')
            sc = d.get('scope')
            r.append(n)
            el = d.get('elements')
            if not el:
                return
            for e in self.md(int(el[1:]))[1]['list']:
                if e.startswith('!') and 'DW_TAG_inheritance' in self._md[int(e[1:])]:
                    kk, dd = _md_parse(self._md[int(e[1:])])
                    if int(dd.get('offset', 0)) == 0:
                        rec(int(dd['baseType'][1:]))
        rec(self._comp[cname][0])
        return r

    def line(self, dbg):
        if dbg is None:
            return None
        k, d = self.md(dbg)
        return int(d.get('line', 0))

    def local_name(self, f, alloca):
        i = f.dbgvars.get(alloca)
        if i is None:
            return None
        k, d = self.md(i)
        return d.get('name', '').strip('"') or None


def _md_parse(s):
    s = s.strip()
    if s.startswith('distinct '):
        s = s[9:]
    if s.startswith('!{'):
        inner = s[2:-1]
        return ('node', {'list': [x.strip() for x in inner.split(',') if x.strip()]})
    m = re.match(r'!(\w+)\((.*)\)$', s, re.S)
    kind, inner = m.group(1), m.group(2)
    d = {}
    cur, depth, q = '', 0, False
    parts = []
    for ch in inner:
        if ch == '"':
            q = not q
        if not q:
            if ch in '([{':
                depth += 1
            elif ch in ')]}':
                depth -= 1
            elif ch == ',' and depth == 0:
                parts.append(cur); cur = ''
                continue
        cur += ch
    if cur.strip():
        parts.append(cur)
    for p in parts:
        if ':' in p:
            a, b = p.split(':', 1)
            d[a.strip()] = b.strip()
    return (kind, d)
