"""Python code from LLVM IR functions."""
import re, struct
from fractions import Fraction
from . import dom, fp
from .dom import Unsupported, norm
from .rt import MemViolation, CxxExc, UNDEF, Undef, DBits, Blob, SZ, M64, M32, _bad


def hexfp(t):
    if t.startswith('0x'):
        if t[2] == 'K':
            w = int(t[3:], 16)
            s, e, m = w >> 79, w >> 64 & 0x7fff, w & M64
            if e == 0x7fff:
                return (dom.NAN if m << 1 & M64 else -dom.INF if s else dom.INF)
            return (-1) ** s * Fraction(m) * Fraction(2) ** (max(e, 1) - 16383 - 63)
        if t[2] in 'MLHR':
            raise Unsupported('fp constant ' + t)
        return struct.unpack('<d', struct.pack('<Q', int(t, 16)))[0]
    return float(t)


class Gen:
    def __init__(self, mod, rt, tag):
        self.mod = mod; self.rt = rt; self.tag = tag
        self.addr = {}       # local symbol -> address
        self.layouts = {}

    # ------------------------------------------------------------ types
    def res(self, t):
        while t[0] == 'named':
            t = self.mod.types[t[1]]
        return t

    def size_align(self, t):
        k = t[0]
        if k == 'named':
            r = self.layouts.get(t[1])
            if r is None:
                r = self.size_align(self.mod.types[t[1]])
                self.layouts[t[1]] = r
            return r
        if k == 'i':
            n = t[1]
            b = 1
            while b * 8 < n: b *= 2
            return b, min(b, 16)
        if k in ('d', 'p'): return 8, 8
        if k == 'f': return 4, 4
        if k == 'f80': return 16, 16
        if k == 'arr':
            s, a = self.size_align(t[2])
            return s * t[1], a
        if k == 'st':
            off = 0; al = 1
            for f in t[1]:
                s, a = self.size_align(f)
                if not t[2]:
                    off = -(-off // a) * a
                    al = max(al, a)
                off += s
            return -(-off // al) * al, al
        if k == 'vec':
            s, a = self.size_align(t[2])
            return s * t[1], s * t[1]
        raise Unsupported('size of type %s' % (t,))

    def size(self, t):
        s, a = self.size_align(t)
        return -(-s // a) * a

    def offset(self, t, i):
        t = self.res(t)
        off = 0
        for j, f in enumerate(t[1]):
            s, a = self.size_align(f)
            if not t[2]:
                off = -(-off // a) * a
            if j == i:
                return off, f
            off += s
        raise Unsupported('field')

    def code(self, t):
        k = t[0]
        if k == 'i':
            n = t[1]
            if n <= 8: return 1
            if n <= 16: return 2
            if n <= 32: return 4
            if n <= 64: return 8
            return 16
        if k == 'p': return 8
        if k in ('d', 'f'): return k
        if k == 'f80': return 'x'
        raise Unsupported('memory access of type %s' % (t,))

    # ------------------------------------------------------------ globals
    def layout_globals(self):
        rt = self.rt
        for name, f in list(self.mod.funcs.items()):
            a = rt.alloc(1, 'fn', name[1:])
            self.addr[name] = a
            rt.fn_names[a] = name[1:]
        for name, (t, init, const) in self.mod.globals.items():
            n = name[1:].strip('"')
            if init is None:
                self.addr[name] = rt.sym(n)
                continue
            if name.startswith('@llvm.'):
                continue
            a = rt.alloc(self.size(t), 'global', n)
            self.addr[name] = a
            if n.startswith('_ZTI'):
                rt.ti_name[a] = n[4:]
        for name, v in self.mod.aliases.items():
            self.addr[name] = self.const(v)
        for name, (t, init, const) in self.mod.globals.items():
            if init is None or name.startswith('@llvm.'):
                continue
            self.init_mem(self.addr[name], t, init)
            n = name[1:].strip('"')
            if n.startswith('_ZTI') and init[0] == 'agg' and len(init[1]) >= 3:
                b = init[1][2][1]
                if b[0] == 'glob':
                    bn = b[1][1:].strip('"')
                    if bn.startswith('_ZTI'):
                        self.rt.ti_base[n[4:]] = bn[4:]
            if const:
                o = self.rt.objs[self.addr[name] >> 32]
                o.const = True

    def init_mem(self, a, t, v):
        t = self.res(t)
        k = v[0]
        if k in ('zero', 'null'):
            self.rt.memset(a, 0, self.size(t))
        elif k == 'undef':
            pass
        elif k == 'str':
            self.rt.write_bytes(a, v[1])
        elif k == 'agg':
            if t[0] == 'arr':
                s = self.size(t[2])
                for i, (et, ev) in enumerate(v[1]):
                    self.init_mem(a + i * s, et, ev)
            else:
                for i, (et, ev) in enumerate(v[1]):
                    off, _ = self.offset(t, i)
                    self.init_mem(a + off, et, ev)
        else:
            self.rt.store(a, self.code(t), self.const(v, t))

    def const(self, v, t=None):
        k = v[0]
        if k == 'int':
            bits = t[1] if t and t[0] == 'i' else 64
            return v[1] & ((1 << bits) - 1)
        if k == 'fp':
            x = hexfp(v[1])
            return norm(x) if type(x) is Fraction else dom.from_float(x)
        if k in ('null',): return 0
        if k == 'zero': return 0
        if k == 'undef': return UNDEF
        if k == 'glob':
            return self.glob(v[1])
        if k == 'gep':
            _, bt, ops = v
            a = self.const(ops[0][1])
            return self.gep_const(a, bt, ops[1:])
        if k == 'cast':
            return self.const(v[3], v[2])
        if k == 'cbin':
            a, b = self.const(v[3], v[2]), self.const(v[4], v[2])
            m = (1 << v[2][1]) - 1
            return {'add': a + b, 'sub': a - b, 'mul': a * b, 'and': a & b, 'or': a | b, 'xor': a ^ b}[v[1]] & m
        raise Unsupported('constant ' + k)

    def gep_const(self, a, t, idx):
        first = True
        for it, iv in idx:
            i = iv[1] if iv[0] == 'int' else 0
            if first:
                a += i * self.size(t); first = False
            else:
                t = self.res(t)
                if t[0] == 'st':
                    off, t = self.offset(t, i)
                    a += off
                else:
                    t = t[2]
                    a += i * self.size(t)
        return a & M64

    def glob(self, name):
        a = self.addr.get(name)
        if a is None:
            n = name[1:].strip('"')
            if name in self.mod.decls:
                a = self.rt.sym_addr.get(n)
                if a is None:
                    a = self.rt.alloc(1, 'fn', n)
                    self.rt.sym_addr[n] = a
                    self.rt.fn_names[a] = n
            else:
                a = self.rt.sym(n)
            self.addr[name] = a
        return a

    # ------------------------------------------------------------ functions
    def compile(self):
        self.layout_globals()
        src = []
        ns = dict(rt=self.rt, dom=dom, fp=fp, UNDEF=UNDEF, CxxExc=CxxExc, MemViolation=MemViolation, Unsupported=Unsupported,
                  Undef=Undef, DBits=DBits, Blob=Blob, _bad=_bad)
        for n in 'add sub mul div cmp_lt cmp_le cmp_eq isnan neg fabs floor_ trunc_ fmod_'.split():
            ns['d_' + n] = getattr(fp if n in ('add', 'sub', 'mul', 'div') else dom, n)
        from . import rtlib
        for n, f in rtlib.helpers(self.rt).items():
            ns[n] = f
        self.fname = {}
        for i, name in enumerate(self.mod.funcs):
            self.fname[name] = 'F%d' % i
        self.externs = set()
        for name, f in self.mod.funcs.items():
            src += self.function(f)
        for n in self.externs:
            ns['X_' + re.sub(r'\W', '_', n)] = self.extern(n)
        code = compile('\n'.join(src), '<ir:%s>' % self.tag, 'exec')
        exec(code, ns)
        self.ns = ns
        for name in self.mod.funcs:
            self.rt.fn_by_addr[self.addr[name]] = ns[self.fname[name]]
        for n in self.externs:
            a = self.rt.sym_addr.get(n)
            if a is not None:
                self.rt.fn_by_addr[a] = ns['X_' + re.sub(r'\W', '_', n)]
        self.src = src

    def extern(self, n):
        from . import rtlib
        f = rtlib.lookup(self.rt, n)
        if f is not None:
            return f
        def missing(*a):
            raise Unsupported('external function ' + n)
        return missing

    def call(self, mangled, *args):
        return self.ns[self.fname['@' + mangled]](*args)

    def function(self, f):
        self.lv = {}
        L = []
        E = L.append
        params = [self.loc(nm) for _, nm in f.params]
        blocks = f.blocks
        ids = {lab: i for i, (lab, _) in enumerate(blocks)}
        self.ids = ids
        allocas = any(ins[0] == 'alloca' for _, b in blocks for ins in b)
        # predecessors, to glue single-predecessor fallthrough blocks
        preds = {lab: 0 for lab in ids}
        for lab, b in blocks:
            for t in succs(b[-1]):
                preds[t] += 1
        preds[blocks[0][0]] += 1
        # phi info
        self.phis = {}
        for lab, b in blocks:
            self.phis[lab] = [ins for ins in b if ins[0] == 'phi']
        bmap = dict(blocks)
        glued = set()
        for lab, b in blocks:
            t = b[-1]
            if t[0] == 'br' and preds[t[1]] == 1 and t[1] != lab:
                glued.add(t[1])
        heads = [lab for lab, _ in blocks if lab not in glued]
        hid = {lab: i for i, lab in enumerate(heads)}
        # blocks in cycles of glue only would be lost
        seen = set()
        for h in heads:
            l = h
            while True:
                seen.add(l)
                t = bmap[l][-1]
                if t[0] == 'br' and t[1] in glued:
                    l = t[1]
                else:
                    break
        for lab, _ in blocks:
            if lab not in seen:
                raise Unsupported('unreachable loop in IR')
        self.hid = hid
        self.glued = glued
        fn = self.fname[f.name]
        E('def %s(%s%s):' % (fn, ', '.join(params), ', *va' if f.vararg else ''))
        E(' rt.called.add(%r)' % f.name[1:].strip('"'))
        ind = ' '
        if allocas:
            E(' fr = []')
            E(' try:')
            ind = '  '
        single = len(heads) == 1 and not any(hid.get(t) == 0 for _, b in blocks for t in succs(b[-1]))
        if single:
            self.emit_chain(heads[0], bmap, E, ind)
        else:
            E(ind + 'pc = 0')
            E(ind + 'while True:')
            self.tree(heads, 0, len(heads), bmap, E, ind + ' ')
        if allocas:
            E(' finally:')
            E('  rt.kill(fr)')
        return L

    def tree(self, heads, lo, hi, bmap, E, ind):
        if hi - lo == 1:
            self.emit_chain(heads[lo], bmap, E, ind)
            return
        mid = (lo + hi) // 2
        E(ind + 'if pc < %d:' % mid)
        self.tree(heads, lo, mid, bmap, E, ind + ' ')
        E(ind + 'else:')
        self.tree(heads, mid, hi, bmap, E, ind + ' ')

    def emit_chain(self, lab, bmap, E, ind):
        while True:
            b = bmap[lab]
            self.cur = lab
            for ins in b[:-1]:
                self.instr(ins, E, ind)
            t = b[-1]
            if t[0] == 'br' and t[1] in self.glued:
                self.edge_phis(lab, t[1], E, ind)
                lab = t[1]
                continue
            self.term(t, lab, E, ind)
            return

    def loc(self, name):
        v = self.lv.get(name)
        if v is None:
            v = self.lv[name] = 'v%d' % len(self.lv)
        return v

    def val(self, v, t=None):
        k = v[0]
        if k == 'loc':
            return self.loc(v[1])
        if k == 'agg':
            return '(' + ''.join(self.val(x, ty) + ', ' for ty, x in v[1]) + ')'
        t = self.res(t) if t else None
        if k in ('undef', 'zero') and t and t[0] in ('st', 'arr'):
            n = len(t[1]) if t[0] == 'st' else t[1]
            x = 'UNDEF' if k == 'undef' else '0'
            return '(' + (x + ', ') * n + ')'
        c = self.const(v, t)
        if c is UNDEF:
            return 'UNDEF'
        if type(c) is float:
            return 'dom.NAN' if c != c else 'dom.INF' if c > 0 else '(-dom.INF)'
        if type(c) is Fraction:
            self.nk = getattr(self, 'nk', 0) + 1
            nm = self.konst(c)
            return nm
        return str(c) if c >= 0 else '(%d)' % c

    def konst(self, c):
        return 'dom.Fraction(%d, %d)' % (c.numerator, c.denominator)

    def edge_phis(self, src, dst, E, ind):
        ph = self.phis[dst]
        if not ph:
            return
        l = []
        r = []
        for _, resn, t, inc in ph:
            for v, lab in inc:
                if lab == src:
                    l.append(self.loc(resn)); r.append(self.val(v, t))
                    break
            else:
                raise Unsupported('phi without edge')
        if l != r:
            E(ind + '%s = %s' % (', '.join(l), ', '.join(r)))

    def jump(self, src, dst, E, ind):
        self.edge_phis(src, dst, E, ind)
        i = self.hid[dst]
        if self.ids[dst] <= self.ids[src]:
            E(ind + 'rt.fuel -= 1')
            E(ind + 'if rt.fuel < 0: rt.spend(0)')
        E(ind + 'pc = %d' % i)

    def term(self, t, lab, E, ind):
        k = t[0]
        if k == 'ret':
            E(ind + ('return' if t[1] is None else 'return ' + self.val(t[1][1], t[1][0])))
        elif k == 'br':
            self.jump(lab, t[1], E, ind)
            E(ind + 'continue')
        elif k == 'cbr':
            E(ind + 'if %s:' % self.val(t[1], ('i', 1)))
            self.jump(lab, t[2], E, ind + ' ')
            E(ind + 'else:')
            self.jump(lab, t[3], E, ind + ' ')
            E(ind + 'continue')
        elif k == 'switch':
            v = self.val(t[2], t[1])
            m = (1 << t[1][1]) - 1
            kw = 'if'
            for cv, dst in t[4]:
                E(ind + '%s %s == %d:' % (kw, v, cv & m))
                self.jump(lab, dst, E, ind + ' ')
                kw = 'elif'
            if kw == 'if':
                self.jump(lab, t[3], E, ind)
            else:
                E(ind + 'else:')
                self.jump(lab, t[3], E, ind + ' ')
            E(ind + 'continue')
        elif k == 'unreachable':
            E(ind + "raise MemViolation('undefined', 'unreachable code reached')")
        elif k == 'resume':
            E(ind + 'rt.resume(%s)' % self.val(t[1]))
        elif k == 'invoke':
            E(ind + 'try:')
            self.call_instr(t[1], t[2], t[3], t[4], E, ind + ' ')
            E(ind + 'except CxxExc as e_:')
            E(ind + ' exc = e_')
            E(ind + ' rt.exc[exc.addr] = exc.ti')
            self.jump(lab, t[6], E, ind + ' ')
            E(ind + ' continue')
            self.jump(lab, t[5], E, ind)
            E(ind + 'continue')
        else:
            raise Unsupported('terminator ' + k)

    def call_instr(self, res, t, callee, args, E, ind):
        a = [self.val(v, ty) for ty, v in args]
        r = self.loc(res) + ' = ' if res and t != ('void',) else ''
        if callee[0] == 'glob':
            n = callee[1]
            if n in self.fname:
                E(ind + '%s%s(%s)' % (r, self.fname[n], ', '.join(a)))
                return
            nm = n[1:].strip('"')
            if nm.startswith('llvm.'):
                return self.intrinsic(nm, r, t, args, a, E, ind)
            self.externs.add(nm)
            E(ind + '%sX_%s(%s)' % (r, re.sub(r'\W', '_', nm), ', '.join(a)))
            return
        E(ind + '%sicall(%s)' % (r, ', '.join([self.val(callee, ('p',))] + a)))

    def intrinsic(self, nm, r, t, args, a, E, ind):
        base = nm.split('.')
        k = base[1]
        if k in ('assume', 'dbg', 'experimental', 'invariant', 'donothing', 'prefetch', 'var'):
            if k == 'assume' or nm.startswith('llvm.dbg') or nm.startswith('llvm.experimental.noalias') or k in ('donothing', 'prefetch'):
                return
            raise Unsupported(nm)
        if k == 'lifetime':
            E(ind + 'lifetime(%s, %d)' % (a[1], 1 if base[2] == 'start' else 0))
            return
        if k in ('memcpy', 'memmove'):
            E(ind + 'rt.memcpy(%s, %s, %s)' % (a[0], a[1], a[2])); return
        if k == 'memset':
            E(ind + 'rt.memset(%s, %s, %s)' % (a[0], a[1], a[2])); return
        if k == 'eh':
            E(ind + '%srt.typeid(%s)' % (r, a[0])); return
        if k == 'trap' or k == 'ubsantrap':
            E(ind + "raise MemViolation('abort', 'trap')"); return
        if k == 'expect':
            E(ind + r + a[0]); return
        if k == 'objectsize':
            E(ind + r + str(M64)); return
        if k == 'is' and base[2] == 'constant':
            E(ind + r + '0'); return
        if k in ('stacksave',):
            E(ind + r + '0'); return
        if k == 'stackrestore':
            return
        if t[0] in ('d', 'f', 'f80') or (k == 'is' and base[2] == 'fpclass') or k in ('lround', 'llround', 'lrint', 'llrint'):
            fn = {'fabs': 'd_fabs', 'floor': 'd_floor_', 'ceil': 'dom.ceil_', 'trunc': 'd_trunc_', 'round': 'dom.round_half_away',
                  'rint': 'dom.round_half_even', 'nearbyint': 'dom.round_half_even', 'roundeven': 'dom.round_half_even',
                  'sqrt': 'fp.sqrt', 'exp': 'fp.exp', 'pow': 'fp.power', 'maxnum': 'dom.max_', 'minnum': 'dom.min_',
                  'powi': 'powi_', 'copysign': 'copysign_', 'exp2': 'exp2_'}.get(k)
            if fn:
                E(ind + ('%sfp.f32(%s(%s))' if t[0] == 'f' else '%s%s(%s)') % (r, fn, ', '.join(a))); return
            if k in ('fma', 'fmuladd'):
                E(ind + '%sd_add(d_mul(%s, %s), %s)' % (r, a[0], a[1], a[2])); return
            if k == 'is':
                E(ind + '%sfpclass(%s, %s)' % (r, a[0], a[1])); return
            if k in ('lround', 'llround'):
                E(ind + '%sfptosi(dom.round_half_away(%s), 64)' % (r, a[0])); return
            if k in ('lrint', 'llrint'):
                E(ind + '%sfptosi(dom.round_half_even(%s), 64)' % (r, a[0])); return
        if t[0] == 'i':
            n = t[1]
            if k in ('umax', 'umin'):
                E(ind + '%s%s(%s, %s)' % (r, 'imax' if k == 'umax' else 'imin', a[0], a[1])); return
            if k in ('smax', 'smin'):
                E(ind + '%s%s(%s, %s, %d)' % (r, k, a[0], a[1], n)); return
            if k == 'abs':
                E(ind + '%siabs(%s, %d)' % (r, a[0], n)); return
            if k in ('ctlz', 'cttz', 'ctpop', 'bswap'):
                E(ind + '%s%s(%s, %d)' % (r, k, a[0], n)); return
            if k in ('usub', 'uadd', 'sadd', 'ssub') and base[2] == 'sat':
                E(ind + '%ssat(%r, %s, %s, %d)' % (r, k, a[0], a[1], n)); return
            if k in ('fshl', 'fshr'):
                E(ind + '%s%s(%s, %s, %s, %d)' % (r, k, a[0], a[1], a[2], n)); return
        if len(base) > 2 and base[2] == 'with':
            n = self.res(t)[1][0][1]
            E(ind + '%soverflow(%r, %s, %s, %d)' % (r, k, a[0], a[1], n)); return
        if k == 'fptosi' and base[2] == 'sat':
            E(ind + '%sfptosi_sat(%s, %d)' % (r, a[0], t[1])); return
        raise Unsupported('intrinsic ' + nm)

    def gep_expr(self, bt, ops):
        base = self.val(ops[0][1], ('p',))
        const = 0
        terms = []
        t = bt
        first = True
        for it, iv in ops[1:]:
            if first:
                s = self.size(t); first = False
            else:
                t = self.res(t)
                if t[0] == 'st':
                    off, t = self.offset(t, iv[1])
                    const += off
                    continue
                t = t[2]
                s = self.size(t)
            if iv[0] == 'int':
                const += iv[1] * s
            else:
                x = self.val(iv, it)
                if it[1] != 64:
                    terms.append('sx(%s, %d) * %d' % (x, it[1], s))
                else:
                    terms.append(x if s == 1 else '%s * %d' % (x, s))
        if not terms and const == 0:
            return base
        e = base
        for x in terms:
            e += ' + ' + x
        if const:
            e += ' + %d' % const if const > 0 else ' - %d' % -const
        return '(%s) & %d' % (e, M64)

    def instr(self, ins, E, ind):
        k = ins[0]
        if k == 'phi':
            return
        if k == 'bin':
            _, res, op, t, a, b = ins
            r = self.loc(res)
            x, y = self.val(a, t), self.val(b, t)
            if t[0] == 'f80':
                E(ind + '%s = fp.wide(%r, %s, %s)' % (r, op, x, y)); return
            if t[0] == 'd':
                fn = {'fadd': 'd_add', 'fsub': 'd_sub', 'fmul': 'd_mul', 'fdiv': 'd_div', 'frem': 'd_fmod_'}[op]
                E(ind + '%s = %s(%s, %s)' % (r, fn, x, y)); return
            if t[0] == 'f':
                fn = {'fadd': 'd_add', 'fsub': 'd_sub', 'fmul': 'd_mul', 'fdiv': 'd_div'}[op]
                E(ind + '%s = fp.f32(%s(%s, %s))' % (r, fn, x, y)); return
            if t[0] != 'i':
                raise Unsupported('arithmetic on %s' % (t,))
            n = t[1]
            m = (1 << n) - 1
            if op in ('add', 'sub', 'mul'):
                E(ind + '%s = (%s %s %s) & %d' % (r, x, {'add': '+', 'sub': '-', 'mul': '*'}[op], y, m))
            elif op in ('and', 'or', 'xor'):
                if op == 'xor' and n == 1:
                    E(ind + '%s = %s ^ %s' % (r, x, y))
                else:
                    E(ind + '%s = %s %s %s' % (r, x, {'and': '&', 'or': '|', 'xor': '^'}[op], y))
            elif op == 'shl':
                E(ind + '%s = shl(%s, %s, %d)' % (r, x, y, n))
            elif op == 'lshr':
                E(ind + '%s = lshr(%s, %s, %d)' % (r, x, y, n))
            elif op == 'ashr':
                E(ind + '%s = ashr(%s, %s, %d)' % (r, x, y, n))
            else:
                E(ind + '%s = %s_(%s, %s, %d)' % (r, op, x, y, n))
        elif k == 'fneg':
            E(ind + '%s = d_neg(%s)' % (self.loc(ins[1]), self.val(ins[3], ins[2])))
        elif k == 'conv':
            _, res, op, t, a, t2 = ins
            r = self.loc(res)
            x = self.val(a, t)
            if op == 'trunc':
                E(ind + '%s = %s & %d' % (r, x, (1 << t2[1]) - 1))
            elif op in ('ptrtoint', 'inttoptr', 'zext'):
                if t2[0] == 'i' and t[0] == 'p' and t2[1] < 64:
                    E(ind + '%s = %s & %d' % (r, x, (1 << t2[1]) - 1))
                else:
                    E(ind + '%s = %s' % (r, x))
            elif op == 'sext':
                E(ind + '%s = sx(%s, %d) & %d' % (r, x, t[1], (1 << t2[1]) - 1))
            elif op == 'fptrunc':
                E(ind + '%s = fp.%s(%s)' % (r, 'f32' if t2[0] == 'f' else 'narrow', x))
            elif op == 'fpext':
                E(ind + '%s = %s' % (r, x))
            elif op == 'fptosi':
                E(ind + '%s = fptosi(%s, %d)' % (r, x, t2[1]))
            elif op == 'fptoui':
                E(ind + '%s = fptoui(%s, %d)' % (r, x, t2[1]))
            elif op == 'sitofp':
                if t2[0] == 'f':
                    E(ind + '%s = fp.f32(sx(%s, %d))' % (r, x, t[1]))
                else:
                    E(ind + '%s = sx(%s, %d)' % (r, x, t[1]))
            elif op == 'uitofp':
                E(ind + '%s = %s%s' % (r, 'fp.f32' if t2[0] == 'f' else '+', '(%s)' % x))
            elif op == 'bitcast':
                if t[0] == t2[0]:
                    E(ind + '%s = %s' % (r, x))
                elif t[0] == 'd':
                    E(ind + '%s = d2bits(%s)' % (r, x))
                elif t2[0] == 'd':
                    E(ind + '%s = bits2d(%s)' % (r, x))
                else:
                    raise Unsupported('bitcast')
            else:
                raise Unsupported(op)
        elif k == 'icmp':
            _, res, pred, t, a, b = ins
            r = self.loc(res)
            x, y = self.val(a, t), self.val(b, t)
            if pred in ('eq', 'ne'):
                E(ind + '%s = 1 if %s %s %s else 0' % (r, x, '==' if pred == 'eq' else '!=', y))
            elif pred[0] == 'u':
                E(ind + '%s = 1 if %s %s %s else 0' % (r, x, {'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>='}[pred], y))
            else:
                n = 64 if t[0] == 'p' else t[1]
                h = 1 << (n - 1)
                xs = str((a[1] & ((1 << n) - 1)) ^ h) if a[0] == 'int' else '(%s ^ %d)' % (x, h)
                ys = str((b[1] & ((1 << n) - 1)) ^ h) if b[0] == 'int' else '(%s ^ %d)' % (y, h)
                E(ind + '%s = 1 if %s %s %s else 0' % (r, xs, {'slt': '<', 'sle': '<=', 'sgt': '>', 'sge': '>='}[pred], ys))
        elif k == 'fcmp':
            _, res, pred, t, a, b = ins
            r = self.loc(res)
            x, y = self.val(a, t), self.val(b, t)
            neg = False
            table = {'oeq': ('cmp_eq', 0), 'olt': ('cmp_lt', 0), 'ole': ('cmp_le', 0), 'ogt': ('cmp_lt', 1), 'oge': ('cmp_le', 1)}
            if pred in table:
                f, sw = table[pred]
                E(ind + '%s = 1 if d_%s(%s) else 0' % (r, f, '%s, %s' % ((y, x) if sw else (x, y))))
            elif pred in ('une', 'uge', 'ugt', 'ule', 'ult'):
                # unordered = not the opposite ordered
                f, sw = {'une': ('cmp_eq', 0), 'uge': ('cmp_lt', 0), 'ugt': ('cmp_le', 0), 'ule': ('cmp_lt', 1), 'ult': ('cmp_le', 1)}[pred]
                E(ind + '%s = 0 if d_%s(%s) else 1' % (r, f, '%s, %s' % ((y, x) if sw else (x, y))))
            elif pred == 'uno':
                E(ind + '%s = 1 if d_isnan(%s) or d_isnan(%s) else 0' % (r, x, y))
            elif pred == 'ord':
                E(ind + '%s = 0 if d_isnan(%s) or d_isnan(%s) else 1' % (r, x, y))
            elif pred == 'ueq':
                E(ind + '%s = 1 if d_isnan(%s) or d_isnan(%s) or d_cmp_eq(%s, %s) else 0' % (r, x, y, x, y))
            elif pred == 'one':
                E(ind + '%s = 0 if d_isnan(%s) or d_isnan(%s) or d_cmp_eq(%s, %s) else 1' % (r, x, y, x, y))
            elif pred in ('true', 'false'):
                E(ind + '%s = %d' % (r, pred == 'true'))
            else:
                raise Unsupported('fcmp ' + pred)
        elif k == 'load':
            _, res, t, p = ins
            t = self.res(t)
            if t[0] in ('st', 'arr', 'vec'):
                raise Unsupported('load of aggregate')
            c = self.code(t)
            r = self.loc(res)
            a = self.val(p, ('p',))
            E(ind + 'try:')
            E(ind + ' c_, %s = rt.objs[%s >> 32].cells[%s & 4294967295]' % (r, a, a))
            E(ind + ' if c_ != %r: %s = rt.slow_load(%s, %r)' % (c, r, a, c))
            E(ind + 'except (KeyError, TypeError): %s = rt.slow_load(%s, %r)' % (r, a, c))
            if t == ('i', 1):
                E(ind + '%s = %s & 1' % (r, r))
        elif k == 'store':
            _, t, v, p = ins
            t = self.res(t)
            if t[0] in ('st', 'arr', 'vec'):
                raise Unsupported('store of aggregate')
            E(ind + 'rt.store(%s, %r, %s)' % (self.val(p, ('p',)), self.code(t), self.val(v, t)))
        elif k == 'alloca':
            _, res, t, cnt = ins
            r = self.loc(res)
            n = self.size(t)
            e = str(n) if cnt is None else '%d * %s' % (n, self.val(cnt, ('i', 64)))
            E(ind + '%s = rt.alloca(%s)' % (r, e))
            E(ind + 'fr.append(%s)' % r)
        elif k == 'gep':
            _, res, bt, ops = ins
            E(ind + '%s = %s' % (self.loc(res), self.gep_expr(bt, ops)))
        elif k == 'select':
            _, res, t, c, a, b = ins
            E(ind + '%s = %s if %s else %s' % (self.loc(res), self.val(a, t), self.val(c, ('i', 1)), self.val(b, t)))
        elif k == 'call':
            self.call_instr(ins[1], ins[2], ins[3], ins[4], E, ind)
        elif k == 'lpad':
            _, res, cl = ins
            cs = []
            cleanup = False
            for c in cl:
                if c[0] == 'cleanup': cleanup = True
                else: cs.append(self.const(c[1]))
            E(ind + '%s = rt.lpad(exc, %r, %r)' % (self.loc(res), tuple(cs), cleanup))
        elif k == 'xval':
            _, res, t, v, idx = ins
            e = self.val(v, t)
            for i in idx: e += '[%d]' % i
            E(ind + '%s = %s' % (self.loc(res), e))
        elif k == 'ival':
            _, res, t, v, t2, w, idx = ins
            if len(idx) != 1: raise Unsupported('nested insertvalue')
            E(ind + '%s = ival(%s, %s, %d)' % (self.loc(res), self.val(v, t), self.val(w, t2), idx[0]))
        elif k == 'armw':
            _, res, kind, p, t, v = ins
            if t[0] not in ('i', 'p') or kind not in ('add', 'sub', 'xchg', 'and', 'or', 'xor'):
                raise Unsupported('atomicrmw ' + kind)
            r = self.loc(res)
            a, c = self.val(p, ('p',)), self.code(t)
            m = (1 << (t[1] if t[0] == 'i' else 64)) - 1
            x = self.val(v, t)
            E(ind + '%s = rt.slow_load(%s, %r)' % (r, a, c))
            new = x if kind == 'xchg' else '(%s %s %s) & %d' % (r, {'add': '+', 'sub': '-', 'and': '&', 'or': '|', 'xor': '^'}[kind], x, m)
            E(ind + 'rt.store(%s, %r, %s)' % (a, c, new))
        elif k == 'cas':
            _, res, p, t, c, n = ins
            r = self.loc(res)
            a, co = self.val(p, ('p',)), self.code(t)
            E(ind + '%s = (rt.slow_load(%s, %r),)' % (r, a, co))
            E(ind + '%s += (1 if %s[0] == %s else 0,)' % (r, r, self.val(c, t)))
            E(ind + 'if %s[1]: rt.store(%s, %r, %s)' % (r, a, co, self.val(n, t)))
        elif k == 'freeze':
            E(ind + '%s = freeze(%s)' % (self.loc(ins[1]), self.val(ins[3], ins[2])))
        else:
            raise Unsupported('instruction ' + k)


def succs(t):
    k = t[0]
    if k == 'br': return [t[1]]
    if k == 'cbr': return [t[2], t[3]]
    if k == 'switch': return [t[3]] + [d for _, d in t[4]]
    if k == 'invoke': return [t[5], t[6]]
    return []
