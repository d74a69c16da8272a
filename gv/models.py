"""Trusted models of the Go standard library and of abstract readers and writers.
Every model used by a proof is listed in its evidence (trusted base)."""
import z3
from .ssa import Unsupported
from .dom import *
from .val import *

T = {}          # name -> model
DESC = {}       # name -> one line for the evidence


def model(*names, desc=""):
    def deco(f):
        for n in names:
            T[n] = f
            DESC[n] = desc or (f.__doc__ or "").strip().split("\n")[0]
        return f
    return deco


def err(E, kind="other"):
    E.nf += 1
    return ErrV(kind, E.nf)


# ------------------------------------------------------------ errors

@model("errors.New", "fmt.Errorf", desc="returns a non-nil error distinct from io.EOF and io.ErrUnexpectedEOF")
def _errnew(E, fr, ins, st, args):
    return [(st, (err(E),))]


# ------------------------------------------------------------ writers and readers

def new_writer(E, st, out=None, can_fail=True):
    oid = E.new(st, "writer", None, StructV((out or Rope(), False, can_fail)), pre=True, tag="writer")
    return IfaceV("writer", PtrV(oid))


def new_reader(E, st, content, endeof, tag="reader"):
    """content: the whole input; pos: how much is consumed; endeof: the reader ends with io.EOF (bool term)"""
    oid = E.new(st, "reader", None, StructV((0, content, endeof)), pre=True, tag=tag)
    return IfaceV("reader", PtrV(oid))


def emit(E, st, w, piece):
    """write piece to w -> [(st, ok)]; a failing write leaves an unspecified prefix"""
    if isinstance(w, IfaceV) and w.ty == "writer":
        o = st.heap[w.val.oid]
        out, failed, can = o.val.vals
        s1 = st
        res = []
        if can:
            b = E.fresh_bool("wfail")
            s2 = st.fork()
            s2.assume(b)
            s2.heap[w.val.oid] = o.with_val(StructV((out, True, can)))
            res.append((s2, False))
            s1 = st
            s1.assume(z3.Not(b))
        s1.heap[w.val.oid] = o.with_val(StructV((E.cat(out, piece), failed, can)))
        res.append((s1, True))
        return res
    if isinstance(w, IfaceV) and not isinstance(w.ty, str) and w.ty.s == "*bytes.Buffer":
        return [(s, True) for s in buf_write(E, st, w.val, piece)]
    raise Unsupported("write to %r" % (w,))


def emit_junk(E, st, w):
    """unspecified further output (after an error)"""
    o = st.heap[w.val.oid]
    out, failed, can = o.val.vals
    n = E.fresh_sz(st, "junk", 0)
    st.heap[w.val.oid] = o.with_val(StructV((E.cat(out, Rope((App("junk", (n,), n),))), failed, can)))


def writer_out(E, st, w):
    if w.ty == "writer":
        return st.heap[w.val.oid].val.vals[0]
    return E.load(st, w.val)[0][1]


def writer_failed(E, st, w):
    if w.ty == "writer":
        return st.heap[w.val.oid].val.vals[1]
    return False


def w_write(E, fr, ins, st, recv, args):
    out = []
    for s, piece in E.content(st, args[0]):
        n = E.rlen(piece)
        for s2, ok in emit(E, s, recv, piece):
            if ok:
                out.append((s2, (n, NIL)))
            else:
                m = E.fresh_sz(s2, "wn", 0)
                s2.assume(E.D.le(m, n))
                out.append((s2, (m, err(E))))
    return out


def rd(st, r):
    return st.heap[r.val.oid].val.vals


def rd_set(st, r, pos):
    o = st.heap[r.val.oid]
    v = o.val.vals
    st.heap[r.val.oid] = o.with_val(StructV((pos,) + v[1:]))


def end_err(E, st, r):
    return ErrV("end", (rd(st, r)[2],))


def uend_err(E, st, r):
    """io.ReadFull's error after a partial read"""
    e = rd(st, r)[2]
    if e is True:
        return ErrV("UEOF")
    return ErrV("uend", (e,))


def take(E, st, r, n):
    """n more bytes of the reader are known to be there -> [(st, rope)]"""
    pos, content, _ = rd(st, r)
    out = []
    for s, piece in E.rope_slice(st, content, pos, E.D.add(pos, n)):
        rd_set(s, r, E.D.add(pos, n))
        out.append((s, piece))
    return out


def fill(E, st, sl, piece, n):
    """overwrite the first n elements of slice sl -> [st]"""
    out = []
    if isinstance(n, int) and n == 0:
        return [st]
    for s, full in E.load(st, sl.loc):
        for s2, l, rest in E.rope_split(s, full, sl.off):
            for s3, _, rr in E.rope_split(s2, rest, n):
                out += E.store(s3, sl.loc, E.cat(l, piece, rr))
    return out


def read_full(E, st, r, n, sl=None):
    """-> [(st, piece or None, count, error)]; sl: destination to fill"""
    D = E.D
    pos, content, endeof = rd(st, r)
    N = E.rlen(content)
    out = []
    if isinstance(n, int) and n == 0:
        return [(st, Rope(), 0, NIL)]
    for s, enough in E.split(st, D.le(n, D.sub(N, pos))):
        if enough:
            for s2, piece in take(E, s, r, n):
                for s3 in (fill(E, s2, sl, piece, n) if sl is not None else [s2]):
                    out.append((s3, piece, n, NIL))
            continue
        for s2, zero in E.split(s, D.eq(n, 0)):
            if zero:
                out.append((s2, Rope(), 0, NIL))
                continue
            for s3, atend in E.split(s2, D.eq(pos, N)):
                if atend:
                    out.append((s3, None, 0, end_err(E, s3, r)))
                    continue
                m = D.sub(N, pos)
                for s4, piece in take(E, s3, r, m):
                    for s5 in (fill(E, s4, sl, piece, m) if sl is not None else [s4]):
                        out.append((s5, None, m, uend_err(E, s5, r)))
    return out


@model("io.ReadFull", desc="io.ReadFull per its documentation")
def _readfull(E, fr, ins, st, args):
    r, b = args[0], E.mat(st, args[1])
    if isinstance(r, IfaceV) and r.ty == "reader":
        return [(s, (cnt, e)) for s, piece, cnt, e in read_full(E, st, r, b.ln, b)]
    raise Unsupported("io.ReadFull on %r" % (r,))


@model("io.ReadAtLeast", desc="io.ReadAtLeast per its documentation (min = buffer length)")
def _readatleast(E, fr, ins, st, args):
    r, b = args[0], E.mat(st, args[1])
    if isinstance(r, IfaceV) and r.ty == "reader" and E.proves(st, E.D.eq(b.ln, args[2])):
        return [(s, (cnt, e)) for s, piece, cnt, e in read_full(E, st, r, b.ln, b)]
    raise Unsupported("io.ReadAtLeast")


@model("io.CopyN", desc="io.CopyN per its documentation; allocates as data arrives")
def _copyn(E, fr, ins, st, args):
    dst, r, n = args
    if not (isinstance(r, IfaceV) and r.ty == "reader"):
        raise Unsupported("io.CopyN from %r" % (r,))
    D = E.D
    pos, content, endeof = rd(st, r)
    N = E.rlen(content)
    out = []
    for s, enough in E.split(st, D.le(n, D.sub(N, pos))):
        for s0, neg in E.split(s, D.lt(n, 0)) if enough else [(s, False)]:
            m = (0 if neg else n) if enough else D.sub(N, pos)
            for s2, piece in take(E, s0, r, m):
                for s3, ok in emit(E, s2, dst, piece):
                    if ok:
                        out.append((s3, (m, NIL if enough else end_err(E, s3, r))))
                    else:
                        out.append((s3, (E.fresh_sz(s3, "cn", 0), err(E))))
    return out


def r_read(E, fr, ins, st, recv, args):
    """raw io.Reader.Read: any legal outcome"""
    D = E.D
    b = E.mat(st, args[0])
    pos, content, endeof = rd(st, recv)
    N = E.rlen(content)
    out = []
    for s, atend in E.split(st, D.eq(pos, N)):
        if atend:
            out.append((s, (0, end_err(E, s, recv))))
            continue
        k = E.fresh_sz(s, "rn", 0)
        s.assume(D.le(k, b.ln))
        s.assume(D.le(k, D.sub(N, pos)))
        for s2, piece in take(E, s, recv, k):
            for s3 in fill(E, s2, b, piece, k):
                out.append((s3, (k, NIL)))
    return out


ABSTRACT = {}       # abstract dynamic type -> method handler
IMPLS = {"writer": ("io.Writer",), "reader": ("io.Reader",)}


def invoke_abstract(E, fr, ins, st, recv, meth, args):
    if recv.ty == "writer" and meth == "Write":
        E.models_used.add("io.Writer.Write")
        return w_write(E, fr, ins, st, recv, args)
    if recv.ty == "reader" and meth == "Read":
        E.models_used.add("io.Reader.Read")
        return r_read(E, fr, ins, st, recv, args)
    if recv.ty in ABSTRACT:
        return ABSTRACT[recv.ty](E, fr, ins, st, recv, meth, args)
    h = E.hooks.get(("invoke", recv.ty, meth))
    if h:
        return h(E, fr, ins, st, recv, args)
    raise Unsupported("method %s of abstract %s" % (meth, recv.ty))


DESC["io.Writer.Write"] = "an io.Writer either takes all bytes or returns an error (its documented contract)"
DESC["io.Reader.Read"] = "any outcome the io.Reader contract allows, short reads included"


# ------------------------------------------------------------ bytes.Buffer

def buf_write(E, st, p, piece):
    out = []
    for s, r in E.load(st, p):
        out += E.store(s, p, E.cat(r, piece))
    return out


@model("bytes.NewBuffer", desc="bytes.Buffer as a byte sequence")
def _newbuffer(E, fr, ins, st, args):
    if E.hooks.get("newreader") is not None:
        return E.hooks["newreader"](E, st, args[0])
    out = []
    for s, r in E.content(st, args[0]):
        oid = E.new(s, "cell", None, r)
        out.append((s, (PtrV(oid),)))
    return out


@model("bytes.NewReader", desc="reader of exactly the given bytes, then io.EOF")
def _newreader(E, fr, ins, st, args):
    h = E.hooks.get("newreader")
    if h is None:
        raise Unsupported("call of bytes.NewReader")
    return h(E, st, args[0])


@model("bytes.NewBufferString", desc="bytes.Buffer as a byte sequence")
def _newbufferstring(E, fr, ins, st, args):
    return [(st, (PtrV(E.new(st, "cell", None, args[0])),))]


@model("(*bytes.Buffer).Bytes", desc="bytes.Buffer as a byte sequence")
def _bufbytes(E, fr, ins, st, args):
    return [(s, (E.mkslice(s, r),)) for s, r in E.load(st, args[0])]


@model("(*bytes.Buffer).String", "(*strings.Builder).String", desc="buffer/builder as a byte sequence")
def _bufstring(E, fr, ins, st, args):
    return [(s, (r,)) for s, r in E.load(st, args[0])]


@model("(*bytes.Buffer).Len", "(*strings.Builder).Len", desc="buffer/builder as a byte sequence")
def _buflen(E, fr, ins, st, args):
    return [(s, (E.rlen(r),)) for s, r in E.load(st, args[0])]


@model("(*bytes.Buffer).Write", "(*strings.Builder).Write", desc="buffer/builder as a byte sequence")
def _bufwrite(E, fr, ins, st, args):
    out = []
    for s, piece in E.content(st, args[1]):
        for s2 in buf_write(E, s, args[0], piece):
            out.append((s2, (E.rlen(piece), NIL)))
    return out


@model("(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString", desc="buffer/builder as a byte sequence")
def _bufwritestring(E, fr, ins, st, args):
    return [(s2, (E.rlen(args[1]), NIL)) for s2 in buf_write(E, st, args[0], args[1])]


@model("(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteByte", desc="buffer/builder as a byte sequence")
def _bufwritebyte(E, fr, ins, st, args):
    return [(s2, (NIL,)) for s2 in buf_write(E, st, args[0], lit([args[1]]))]


@model("(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune", desc="buffer/builder as a byte sequence")
def _bufwriterune(E, fr, ins, st, args):
    out = []
    for s, (r,) in [(s, (r,)) for s, r in rune_to_string(E, st, args[1], E.P.byname["int32"])]:
        for s2 in buf_write(E, s, args[0], r):
            out.append((s2, (E.rlen(r), NIL)))
    return out


@model("(*strings.Builder).Grow", "(*bytes.Buffer).Grow", desc="no observable effect")
def _grow(E, fr, ins, st, args):
    if not E.require(st, E.D.le(0, args[1]), "negative Grow count", fr, ins):
        return []
    return [(st, ())]


@model("(*bytes.Buffer).Reset", "(*strings.Builder).Reset", desc="buffer/builder as a byte sequence")
def _bufreset(E, fr, ins, st, args):
    return [(s, ()) for s in E.store(st, args[0], Rope())]


@model("crypto.RegisterHash", desc="no effect on the code under contract")
def _reghash(E, fr, ins, st, args):
    return [(st, ())]


# ------------------------------------------------------------ math

@model("math.Float32bits", "math.Float32frombits", "math.Float64bits", "math.Float64frombits",
       desc="bit reinterpretation (floats are carried as their bit patterns)")
def _fbits(E, fr, ins, st, args):
    return [(st, (args[0],))]


# ------------------------------------------------------------ strings

def rune_to_string(E, st, x, f):
    """string(rune): ASCII exact, others an opaque non-ASCII sequence"""
    D = E.D
    if isinstance(x, int):
        v = D.toint(x, f.signed, f.width)
        if 0 <= v <= 0x10FFFF and not 0xD800 <= v <= 0xDFFF:
            return [(st, lit(chr(v).encode()))]
        return [(st, lit("\uFFFD".encode()))]
    out = []
    c = band(D.cmp(">=", x, 0, f), D.cmp("<", x, 0x80, f))
    for s, ascii in E.split(st, c):
        if ascii:
            out.append((s, lit([D.convert(x, f, E.P.BYTE)])))
            continue
        two = band(D.cmp(">=", x, 0x80, f), D.cmp("<", x, 0x800, f)) if f.width > 8 else True
        for s2, is2 in E.split(s, two):
            if is2:
                ty = f if f.width > 8 else E.P.INT
                y = x if f.width > 8 else D.convert(x, f, ty)
                b0 = D.binop("+", D.binop(">>", y, 6, ty, ty), 0xC0, ty)
                b1 = D.binop("+", D.binop("&", y, 0x3F, ty), 0x80, ty)
                out.append((s2, lit([D.convert(b0, ty, E.P.BYTE), D.convert(b1, ty, E.P.BYTE)])))
            else:
                n = E.fresh_sz(s2, "runelen", 3, 4)
                a = E.fresh_arr("rune")
                for i in range(3):
                    s2.assume(D.cmp(">=", D.select(a, i), 0x80, E.P.BYTE))
                out.append((s2, Rope((View(ArrSrc(a), 0, n),))))
    return out


@model("strings.HasSuffix", "strings.HasPrefix", "bytes.HasPrefix", "bytes.HasSuffix", desc="prefix/suffix test per documentation")
def _hassuffix(E, fr, ins, st, args):
    name = ins["fn"]["n"]
    suf = name.endswith("Suffix")
    D = E.D
    out = []
    if name.startswith("bytes"):
        raise Unsupported(name)
    s0, p = args
    n = E.rlen(p)
    for s, fits in E.split(st, D.le(n, E.rlen(s0))):
        if not fits:
            out.append((s, (False,)))
            continue
        lo = D.sub(E.rlen(s0), n) if suf else 0
        for s2, sub in E.rope_slice(s, s0, lo, D.add(lo, n)):
            out.append((s2, (E.rope_eq_term(s2, sub, p),)))
    return out


@model("strings.TrimSuffix", "strings.TrimPrefix", desc="per documentation")
def _trimsuffix(E, fr, ins, st, args):
    name = ins["fn"]["n"]
    suf = name.endswith("Suffix")
    D = E.D
    out = []
    s0, p = args
    n = E.rlen(p)
    for s, fits in E.split(st, D.le(n, E.rlen(s0))):
        if not fits:
            out.append((s, (s0,)))
            continue
        lo = D.sub(E.rlen(s0), n) if suf else 0
        for s2, sub in E.rope_slice(s, s0, lo, D.add(lo, n)):
            for s3, m in E.split(s2, E.rope_eq_term(s2, sub, p)):
                if not m:
                    out.append((s3, (s0,)))
                else:
                    for s4, r in E.rope_slice(s3, s0, 0 if suf else n, lo if suf else E.rlen(s0)):
                        out.append((s4, (r,)))
    return out


@model("bytes.Equal", desc="content equality")
def _bytesequal(E, fr, ins, st, args):
    out = []
    for s, a in E.content(st, args[0]):
        for s2, b in E.content(s, args[1]):
            for s3, r in E.rope_eq_fork(s2, a, b):
                out.append((s3, (r,)))
    return out


# ------------------------------------------------------------ object of lookups

class Models:
    def lookup(self, name):
        return T.get(name)

    def lookup_method(self, tys, meth):
        if tys.startswith("*"):
            return T.get("(%s).%s" % (tys, meth))
        return T.get("(%s).%s" % (tys, meth))

    ZERO = {"bytes.Buffer": Rope, "strings.Builder": Rope}

    def zero_named(self, E, ty):
        f = self.ZERO.get(ty.s)
        if f:
            return f()
        if ty.s == "math/big.Int":
            from .bigm import BigV
            return BigV(0)
        if ty.s == "reflect.Value":
            from .reflm import zero_value
            return zero_value(E)
        if ty.s == "time.Time" and E.D.name == "int":
            from .timem import TimeV, YEAR1
            return TimeV(YEAR1, True)
        return None

    def opq_isnil(self, E, st, x):
        k = E.P.kind(x.ty) if not isinstance(x.ty, str) else "?"
        if k == "slice":
            c = E.uf(x.base + "#nil", x.args, z3.BoolSort())
            kk = ("nilfact", c.get_id())
            if kk not in E.ufs:
                E.ufs[kk] = c
                E.D.facts.append(z3.Implies(c, zb(E.D.eq(E.oplen(x.base, x.args), 0))))
            return c
        if k in ("ptr", "iface", "map", "func"):
            return E.uf(x.base + "#nil", x.args, z3.BoolSort())
        raise Unsupported("nil test of %r" % (x,))

    def opq_type_assert(self, E, st, x, at, isi):
        raise Unsupported("type assertion on %r" % (x,))

    def abstract_implements(self, ty, iface):
        return iface in IMPLS.get(ty, ())

    def invoke_abstract(self, *a):
        return invoke_abstract(*a)

    def invoke_opq(self, E, fr, ins, st, recv, meth, args):
        h = E.hooks.get(("invoke_opq", meth))
        if h:
            return h(E, fr, ins, st, recv, args)
        raise Unsupported("invoke %s on %r" % (meth, recv))

    def map_update(self, E, st, m, k, v):
        if E.hooks.get("optr") and isinstance(m, PtrV) and st.heap[m.oid].tag == "amap":
            from . import optr
            return optr.map_set(E, st, m, k, v)
        if isinstance(m, PtrV) and st.heap[m.oid].tag == "memo":
            return E.hooks["memo_set"](E, st, m, k, v)
        raise Unsupported("map update")

    def map_lookup(self, E, st, m, k, et, ok):
        if hasattr(m, "lookup"):
            return m.lookup(E, st, k, et, ok)
        if isinstance(m, PtrV) and st.heap[m.oid].tag == "memo":
            return E.hooks["memo_get"](E, st, m, k, ok)
        if E.hooks.get("optr") and isinstance(m, PtrV) and st.heap[m.oid].tag == "amap":
            from . import optr
            return optr.map_get(E, st, m, k, et, ok)
        raise Unsupported("map lookup")

    def rune_to_string(self, E, st, x, f):
        return rune_to_string(E, st, x, f)

    def float_to_int(self, E, st, x, t):
        # only ever a size hint: an integer near the real value (the product of an exact integer and a constant is
        # correctly rounded: relative error at most 2^-53 per operation, taken here as 2^-40)
        if E.D.name != "int" or not isinstance(x.t, z3.ArithRef):
            raise Unsupported("float to int")
        lo, hi = E.D.lim(t)
        eps = z3.RealVal("1/1099511627776")
        n = z3.Int(E.fresh_name("trunc"))
        if not E.proves(st, norm_bool(z3.And(x.t >= 0, x.t <= 1 << 52))):
            raise Unsupported("float to int out of range")
        st.assume(norm_bool(z3.And(n >= 0, z3.ToReal(n) <= x.t * (1 + eps), z3.ToReal(n) > x.t * (1 - eps) - 1)))
        E.D.setr(n, 0, 1 << 53)
        return [(st, n)]


MODELS = Models()
