"""Parser for textual LLVM IR (LLVM 18, opaque pointers): the subset clang emits for C++."""
import re
from .dom import Unsupported

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<attr>\#\d+)
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<num>-?\d+\.\d*(?:e[+-]?\d+)?|0x[KMLHR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[<>\[\]{}(),=*:|])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        c = s[pos]
        if c in ' \t\r\n':
            pos += 1
            continue
        if c == ';':
            break
        m = TOK.match(s, pos)
        if not m:
            raise Unsupported('IR token at: ' + s[pos:pos + 40])
        out.append((m.lastgroup, m.group()))
        pos = m.end()
    return out


# types: ('i',n) ('d',) ('f',) ('p',) ('void',) ('arr',n,t) ('st',[t],packed) ('fn',) ('label',) ('meta',) ('vec',n,t)
class P:
    """token cursor"""
    def __init__(self, toks, mod):
        self.t = toks; self.i = 0; self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def eat(self, v):
        if self.peek() != v:
            raise Unsupported('IR: expected %r at %r' % (v, ' '.join(x[1] for x in self.t[max(0, self.i - 6):self.i + 8])))
        self.i += 1

    def accept(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def type(self):
        k, v = self.t[self.i]
        self.i += 1
        if v == 'ptr':
            t = ('p',)
            if self.peek() == 'addrspace':
                raise Unsupported('addrspace')
        elif v == 'void': t = ('void',)
        elif v == 'double': t = ('d',)
        elif v == 'float': t = ('f',)
        elif v == 'label': t = ('label',)
        elif v == 'metadata': t = ('meta',)
        elif v == 'x86_fp80': t = ('f80',)
        elif k == 'word' and re.fullmatch(r'i\d+', v): t = ('i', int(v[1:]))
        elif k == 'loc': t = ('named', v)
        elif v == '[':
            n = int(self.next()); self.eat('x')
            e = self.type(); self.eat(']')
            t = ('arr', n, e)
        elif v == '{':
            t = self.struct_body('}', False)
        elif v == '<':
            if self.peek() == '{':
                self.next()
                t = self.struct_body('}', True)
                self.eat('>')
            else:
                n = int(self.next()); self.eat('x')
                e = self.type(); self.eat('>')
                t = ('vec', n, e)
        else:
            raise Unsupported('IR type ' + v)
        if self.peek() == '(' :
            # function type
            self.next()
            while self.peek() != ')':
                if self.peek() in ('...', ','):
                    self.next()
                else:
                    self.type()
            self.next()
            return ('fn', t)
        return t

    def struct_body(self, close, packed):
        fs = []
        while self.peek() != close:
            fs.append(self.type())
            self.accept(',')
        self.next()
        return ('st', tuple(fs), packed)

    # values -> ('loc',name) ('glob',name) ('int',n) ('fp',text) ('null',) ('undef',) ('zero',) ('ce',...) ('agg',kind,[(t,v)]) ('str',bytes)
    def value(self, ty):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'loc': return ('loc', v)
        if k == 'glob': return ('glob', v)
        if v == 'true': return ('int', 1)
        if v == 'false': return ('int', 0)
        if v == 'null': return ('null',)
        if v in ('undef', 'poison'): return ('undef',)
        if v == 'zeroinitializer': return ('zero',)
        if k == 'num':
            if ty[0] in ('d', 'f', 'f80'): return ('fp', v)
            return ('int', int(v))
        if k == 'str':
            return ('str', unescape(v[2:-1]))
        if v == '[' or v == '{' or (v == '<' and self.peek() == '{') or v == '<':
            close = {'[': ']', '{': '}', '<': '>'}[v]
            if v == '<' and self.peek() == '{':
                self.next(); close = '}'
                packed = True
            else:
                packed = False
            items = []
            while self.peek() != close:
                t = self.type()
                items.append((t, self.value(t)))
                self.accept(',')
            self.next()
            if packed:
                self.eat('>')
            return ('agg', items)
        if v == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw') or self.peek() == 'inrange':
                self.next()
            self.eat('(')
            bt = self.type(); self.eat(',')
            ops = []
            while self.peek() != ')':
                if self.peek() == 'inrange':
                    self.next()
                t = self.type()
                ops.append((t, self.value(t)))
                self.accept(',')
            self.next()
            return ('gep', bt, ops)
        if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc'):
            self.eat('(')
            t = self.type(); x = self.value(t)
            self.eat('to')
            t2 = self.type(); self.eat(')')
            return ('cast', v, t, x, t2)
        if v in ('sub', 'add', 'mul', 'and', 'or', 'xor'):
            while self.peek() in ('nuw', 'nsw'): self.next()
            self.eat('(')
            t = self.type(); a = self.value(t); self.eat(',')
            t2 = self.type(); b = self.value(t2); self.eat(')')
            return ('cbin', v, t, a, b)
        if v == 'dso_local_equivalent' or v == 'no_cfi':
            return self.value(ty)
        raise Unsupported('IR value ' + v)


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        c = s[i]
        if c == '\\':
            if s[i + 1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out += c.encode('utf-8'); i += 1
    return bytes(out)


PARAM_ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'returned', 'signext', 'zeroext',
               'inreg', 'immarg', 'nofree', 'readnone', 'nest', 'swiftself', 'noreturn', 'writable', 'dead_on_unwind', 'allocptr', 'inalloca'}
PARAM_ATTRS_PAREN = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'range', 'initializes',
                     'align', 'captures', 'preallocated', 'byref', 'inalloca', 'allocsize', 'alignstack', 'memory', 'nofpclass'}


def skip_attrs(p):
    while True:
        v = p.peek()
        if v == 'align':
            p.next()
            if p.peek() == '(':
                p.next(); p.next(); p.eat(')')
            else:
                p.next()
        elif v in PARAM_ATTRS_PAREN and p.peek(1) == '(':
            p.next()
            depth = 0
            while True:
                w = p.next()
                if w == '(': depth += 1
                if w == ')':
                    depth -= 1
                    if depth == 0: break
        elif v in PARAM_ATTRS:
            p.next()
        else:
            return


class Func:
    def __init__(self, name, ret, params, vararg):
        self.name = name; self.ret = ret; self.params = params; self.vararg = vararg
        self.blocks = []  # (label, [instr])


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}   # name -> (ty, init or None, const?)
        self.funcs = {}
        self.decls = {}
        self.aliases = {}


GLOBAL_WORDS = {'private', 'internal', 'linkonce', 'linkonce_odr', 'weak', 'weak_odr', 'common', 'appending', 'external',
                'extern_weak', 'available_externally', 'dso_local', 'dso_preemptable', 'hidden', 'protected', 'default',
                'unnamed_addr', 'local_unnamed_addr', 'dllimport', 'dllexport', 'externally_initialized', 'thread_local',
                'fastcc', 'ccc', 'coldcc', 'tailcc', 'cc10'}


def parse_module(text):
    mod = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        i += 1
        s = ln.strip()
        if not s or s[0] in ';!^' or s.startswith(('source_filename', 'target', 'attributes', 'module asm', '$')):
            continue
        if s[0] == '%':
            p = P(tokenize(s), mod)
            nm = p.next(); p.eat('='); p.eat('type')
            if p.peek() == 'opaque':
                mod.types[nm] = ('opaque',)
            else:
                mod.types[nm] = p.type()
        elif s[0] == '@':
            p = P(tokenize(s), mod)
            nm = p.next(); p.eat('=')
            ext = False
            while p.peek() in GLOBAL_WORDS or p.peek() == 'comdat':
                w = p.next()
                if w in ('external', 'extern_weak'): ext = True
                if w == 'thread_local' and p.peek() == '(':
                    while p.next() != ')': pass
            w = p.next()
            if w == 'alias':
                t = p.type(); p.eat(','); t2 = p.type()
                mod.aliases[nm] = p.value(t2)
                continue
            if w not in ('global', 'constant'):
                raise Unsupported('IR global ' + s[:80])
            t = p.type()
            init = None if ext else p.value(t)
            mod.globals[nm] = (t, init, w == 'constant')
        elif s.startswith('declare'):
            f, _ = parse_header(s, mod)
            mod.decls[f.name] = f
        elif s.startswith('define'):
            f, entry = parse_header(s, mod)
            mod.funcs[f.name] = f
            cur = []
            f.blocks.append((entry, cur))
            first = True
            while True:
                ln = lines[i]
                i += 1
                s = ln.strip()
                if s == '}':
                    break
                if not s or s[0] == ';':
                    continue
                m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', ln)
                if m:
                    lab = '%' + m.group(1)
                    if first and not cur:
                        f.blocks.pop()
                    cur = []
                    f.blocks.append((lab, cur))
                    first = False
                    continue
                first = False
                # multi-line: switch, landingpad clauses, invoke
                if s.startswith('switch') and s.endswith('['):
                    while True:
                        s2 = lines[i].strip(); i += 1
                        s += ' ' + s2
                        if s2.startswith(']'): break
                if re.search(r'\binvoke\b', s) and ' to label ' not in s:
                    s += ' ' + lines[i].strip(); i += 1
                if re.search(r'= landingpad\b', s):
                    while i < n and re.match(r'^\s+(cleanup|catch|filter)\b', lines[i]):
                        s += ' ' + lines[i].strip(); i += 1
                ins = parse_instr(s, mod)
                if ins is not None:
                    cur.append(ins)
        else:
            raise Unsupported('IR line ' + s[:80])
    return mod


def parse_header(s, mod):
    p = P(tokenize(s), mod)
    p.next()
    while True:
        if p.peek() in GLOBAL_WORDS or p.peek() == 'noundef':
            p.next()
        else:
            save = p.i
            skip_attrs(p)
            if p.i == save:
                break
    ret = p.type()
    skip_attrs(p)
    name = p.next()
    p.eat('(')
    params = []
    vararg = False
    idx = 0
    while p.peek() != ')':
        if p.accept('...'):
            vararg = True
            continue
        t = p.type()
        skip_attrs(p)
        if p.kind() == 'loc':
            nm = p.next()
        else:
            nm = '%' + str(idx)
        idx += 1
        params.append((t, nm))
        p.accept(',')
    f = Func(name, ret, params, vararg)
    # unnamed entry label gets the next number
    unnamed = sum(1 for _, nm in params if re.fullmatch(r'%\d+', nm))
    return f, '%' + str(unnamed)


CONV = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast'}
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'inbounds'}


def parse_instr(s, mod):
    p = P(tokenize(s), mod)
    res = None
    if p.kind() == 'loc' and p.peek(1) == '=':
        res = p.next(); p.next()
    op = p.next()
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op in BIN:
        while p.peek() in FLAGS:
            if p.next() in ('fast', 'nnan', 'ninf', 'reassoc', 'arcp', 'afn'):
                raise Unsupported('fast-math')
        t = p.type(); a = p.value(t); p.eat(','); b = p.value(t)
        return ('bin', res, op, t, a, b)
    if op == 'fneg':
        t = p.type()
        return ('fneg', res, t, p.value(t))
    if op in CONV:
        while p.peek() in FLAGS: p.next()
        t = p.type(); a = p.value(t); p.eat('to'); t2 = p.type()
        return ('conv', res, op, t, a, t2)
    if op in ('icmp', 'fcmp'):
        while p.peek() in FLAGS: p.next()
        pred = p.next()
        t = p.type(); a = p.value(t); p.eat(','); b = p.value(t)
        return (op, res, pred, t, a, b)
    if op == 'load':
        if p.peek() in ('volatile', 'atomic'):
            p.next()
        t = p.type(); p.eat(','); pt = p.type()
        return ('load', res, t, p.value(pt))
    if op == 'store':
        if p.peek() in ('volatile', 'atomic'):
            p.next()
        t = p.type(); v = p.value(t); p.eat(','); pt = p.type()
        return ('store', t, v, p.value(pt))
    if op == 'alloca':
        p.accept('inalloca')
        t = p.type()
        cnt = None
        if p.accept(','):
            if p.peek() != 'align':
                ct = p.type(); cnt = p.value(ct)
        return ('alloca', res, t, cnt)
    if op == 'getelementptr':
        while p.peek() in FLAGS: p.next()
        bt = p.type(); p.eat(',')
        ops = []
        while p.kind() is not None and p.kind() != 'meta':
            t = p.type()
            ops.append((t, p.value(t)))
            if not p.accept(','): break
        return ('gep', res, bt, ops)
    if op == 'br':
        if p.peek() == 'label':
            p.next()
            return ('br', p.next())
        t = p.type(); c = p.value(t); p.eat(','); p.eat('label'); a = p.next(); p.eat(','); p.eat('label')
        return ('cbr', c, a, p.next())
    if op == 'switch':
        t = p.type(); v = p.value(t); p.eat(','); p.eat('label'); d = p.next(); p.eat('[')
        cases = []
        while p.peek() != ']':
            ct = p.type(); cv = p.value(ct); p.eat(','); p.eat('label')
            cases.append((cv[1], p.next()))
        return ('switch', t, v, d, cases)
    if op == 'ret':
        t = p.type()
        return ('ret', None if t == ('void',) else (t, p.value(t)))
    if op == 'unreachable':
        return ('unreachable',)
    if op == 'phi':
        while p.peek() in FLAGS: p.next()
        t = p.type()
        inc = []
        while p.accept('['):
            v = p.value(t); p.eat(',')
            inc.append((v, p.next())); p.eat(']')
            if not p.accept(','): break
        return ('phi', res, t, inc)
    if op == 'select':
        while p.peek() in FLAGS: p.next()
        ct = p.type(); c = p.value(ct); p.eat(','); t = p.type(); a = p.value(t); p.eat(','); t2 = p.type(); b = p.value(t2)
        return ('select', res, t, c, a, b)
    if op in ('call', 'invoke'):
        while p.peek() in FLAGS or p.peek() in GLOBAL_WORDS:
            if p.next() in ('fast', 'nnan', 'ninf', 'reassoc'):
                raise Unsupported('fast-math')
        skip_attrs(p)
        t = p.type()
        if t[0] == 'fn':
            t = t[1]
        if p.peek() == '(':   # varargs fn type already consumed
            pass
        if p.peek() == 'asm':
            raise Unsupported('inline asm')
        callee = p.value(('p',))
        p.eat('(')
        args = []
        while p.peek() != ')':
            at = p.type()
            skip_attrs(p)
            if at == ('meta',):
                # metadata argument: skip to , or )
                depth = 0
                while not (depth == 0 and p.peek() in (',', ')')):
                    w = p.next()
                    if w in '({[': depth += 1
                    if w in ')}]': depth -= 1
                args.append((at, ('undef',)))
            else:
                args.append((at, p.value(at)))
            p.accept(',')
        p.next()
        if op == 'call':
            return ('call', res, t, callee, args)
        while p.peek() != 'to': p.next()
        p.next(); p.eat('label'); nrm = p.next(); p.eat('unwind'); p.eat('label')
        return ('invoke', res, t, callee, args, nrm, p.next())
    if op == 'landingpad':
        t = p.type()
        cl = []
        while p.kind() is not None:
            w = p.next()
            if w == 'cleanup': cl.append(('cleanup',))
            elif w == 'catch':
                ct = p.type(); cl.append(('catch', p.value(ct)))
            elif w == 'filter':
                raise Unsupported('exception filter')
            else: break
        return ('lpad', res, cl)
    if op == 'resume':
        t = p.type()
        return ('resume', p.value(t))
    if op == 'extractvalue':
        t = p.type(); v = p.value(t)
        idx = []
        while p.accept(','): idx.append(int(p.next()))
        return ('xval', res, t, v, idx)
    if op == 'insertvalue':
        t = p.type(); v = p.value(t); p.eat(','); t2 = p.type(); w = p.value(t2)
        idx = []
        while p.accept(','): idx.append(int(p.next()))
        return ('ival', res, t, v, t2, w, idx)
    if op == 'freeze':
        t = p.type()
        return ('freeze', res, t, p.value(t))
    if op == 'fence':
        return None
    if op == 'atomicrmw':
        while p.peek() in ('volatile',): p.next()
        k = p.next(); pt = p.type(); a = p.value(pt); p.eat(','); t = p.type()
        return ('armw', res, k, a, t, p.value(t))
    if op == 'cmpxchg':
        while p.peek() in ('weak', 'volatile'): p.next()
        pt = p.type(); a = p.value(pt); p.eat(','); t = p.type(); c = p.value(t); p.eat(','); t2 = p.type()
        return ('cas', res, a, t, c, p.value(t2))
    raise Unsupported('IR instruction ' + s[:100])
