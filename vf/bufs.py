"""Overlays of byte buffers (c_loc / c_f_pointer)."""
import z3
from .sym import I, R, B, fresh, conc
from .fexec import Ref, Arr, Unsupported


class RecBuf:
    """int8 buffer holding nrec columns of ncol records of one derived type.

    Trusted: the derived type's layout equals the record layout (packed)."""

    def __init__(self, ncol, nrec):
        self.ncol, self.nrec = ncol, nrec       # functions () -> term
        self.f = {}

    def pointer(self, ex, old, pos, shape, st):
        if old.base != 'type' or conc(pos) != 0 or shape is None or len(shape) != 2:
            raise Unsupported('c_f_pointer of record buffer')
        g = shape[0] == self.ncol()
        if ex.prover.prove(list(st.conds), g)[0] != 'proved':
            raise Unsupported('c_f_pointer leading dimension')
        dims = [(z3.IntVal(1), self.ncol()), (z3.IntVal(1), self.nrec())]
        key = 'rec'
        for f in ex.type_fields(old.tname):
            r2 = 2 + (len(f.dims) if f.dims else 0)
            if (key, f.name) not in st.mem:
                fn = z3.Function('rec.' + f.name, *([I] * r2), ex.sort(f.base))
                st.mem[(key, f.name)] = Arr('fn', lambda idx, fn=fn: fn(*idx), rank=r2)
        ex.units_used.add(('type', old.tname))
        return ex.mkref(key, 'type', None, dims, old.tname)

    def setup(self, fields, st=None):
        self.f = {n: z3.Function('rec.' + n, *([I] * (2 + r)), s) for n, r, s in fields}


class ByteBuf:
    """int8 buffer of ncol*nrec records of `stride` bytes: an integer index of
    `isize` bytes followed by 4-byte words"""

    def __init__(self, ncol, nrec, stride, isize):
        self.ncol, self.nrec, self.stride, self.isize = ncol, nrec, stride, isize
        self.index = z3.Function('rec.index', I, I, I)
        self.words = z3.Function('rec.words', I, I, I, I)

    def init(self, st):
        st.mem['rec.index'] = Arr('fn', lambda idx: self.index(*idx), rank=2)
        st.mem['rec.words'] = Arr('fn', lambda idx: self.words(*idx), rank=3)

    def digits(self, e, radix):
        """e = hi*radix + lo as polynomials"""
        e = z3.simplify(e, som=True)
        lo = z3.simplify(z3.substitute(e, (radix, z3.IntVal(0))))
        hi = z3.simplify(z3.substitute(e, (radix, z3.IntVal(1))) - lo, som=True)
        if conc(z3.simplify(e - hi * radix - lo, som=True)) != 0:
            raise Unsupported('byte offset')
        return hi, lo

    def in_bounds(self, pos):
        # mixed radix: digits in range imply that the offset is in the buffer
        rec, off = self.digits(pos, self.stride())
        i, j = self.digits(rec, self.ncol())
        return z3.And(0 <= off, off < self.stride(), 0 <= j, j < self.ncol(), 0 <= i, i < self.nrec())

    def pointer(self, ex, old, pos, shape, st):
        rec, off = self.digits(pos, self.stride())
        i, j = self.digits(rec, self.ncol())
        g = z3.And(0 <= j, j < self.ncol(), 0 <= i, i < self.nrec())
        if ex.verify:
            ex.oblige('record', 'bounds', st, g)
        o = conc(off)
        if shape is None:
            if o != 0 or old.base != 'integer' or old.kind != self.isize:
                raise Unsupported('pointer to record offset')
            r = Ref('rec.index', 'integer', old.kind, None, lambda idx: (j, i))
            return r
        if o != self.isize or len(shape) != 1 or old.base != 'integer' or old.kind != 4:
            raise Unsupported('pointer to record words')
        w = (self.stride() - self.isize) / 4
        # the words of this record and no more
        ex.oblige('words', 'bounds', st, z3.And(shape[0] * 4 <= self.stride() - self.isize, shape[0] >= 0))
        r = Ref('rec.words', 'integer', 4, [(z3.IntVal(1), shape[0])], lambda idx: (z3.simplify(idx[0] - 1), j, i))
        return r
