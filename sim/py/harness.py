"""The workloads of P27 (Python, one process) and P28 (Python, MPI ranks) and their reference model.

generate() draws a plan (text) from a seed; execute() runs a plan: the real `bigfile' package on simulated storage,
every operation judged against numpy arrays kept by the model and against the files, decoded independently."""
import ctypes, gc, pickle, random, re, struct, sys, traceback, warnings
import numpy as np
warnings.simplefilter("ignore")
import bigfile
from bigfile import pyxbigfile

gc.disable(); gc.collect(); gc.freeze()
L = ctypes.CDLL(None)
L.bfsim_content.restype = ctypes.c_void_p
L.bfsim_pages.restype = ctypes.c_void_p
L.bfsim_coll_get.restype = ctypes.c_void_p
L.bfsim_list.restype = ctypes.c_char_p
L.bfsim_step.restype = ctypes.c_long
CB = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_int)
ROOT = "/w/f"
K = dict(open=1, read=2, write=4, close=8, mkdir=16, stat=32, dir=64, rename=128, unlink=256, io=2047 & ~512 & ~1024)


# ---- the simulator --------------------------------------------------------------------------
def fail(kind, msg):
    L.bfsim_fail(kind.encode(), str(msg)[:3000].encode("ascii", "replace"))   # does not return


def set_op(i): L.bfsim_op(i)
def faulted(): return L.bfsim_faulted()
def stat(name, n=1): L.bfsim_stat(name.encode(), ctypes.c_long(n))
def exists(p): return bool(L.bfsim_exists(p.encode()))


def content(p):
    n = ctypes.c_size_t()
    a = L.bfsim_content(p.encode(), ctypes.byref(n))
    return ctypes.string_at(a, n.value) if n.value else b""


def observe(x):
    """makes a value part of the hash of the run"""
    h = 0
    for c in pickle.dumps(x)[:4096]:
        h = (h * 1000003 + c) & 0xffffffffffffffff
    L.bfsim_hash(ctypes.c_uint64(h))


def phase(n, body, threads=False):
    def run(r):
        try:
            body(r)
        except BaseException:
            fail("harness-error", traceback.format_exc())
        L.big_file_set_error_message(b"(no error yet)")
        return 0
    cb = CB(run)
    (L.bfsim_threads if threads else L.bfsim_phase)(n, cb)


def unraisable(u):
    fail("ignored-exception", "an exception was lost: %r in %r" % (u.exc_value, u.object))


sys.unraisablehook = unraisable


class Comm:
    """The calls of an mpi4py communicator that the package uses, on simulated ranks."""

    def __init__(self, rank, size):
        self.rank, self.size = rank, size

    def _coll(self, kind, root, data):
        L.bfsim_coll(kind.encode(), root, data, ctypes.c_size_t(len(data)))

    def _get(self, r):
        n = ctypes.c_size_t()
        a = L.bfsim_coll_get(r, ctypes.byref(n))
        return ctypes.string_at(a, n.value) if n.value else b""

    def Get_rank(self): return self.rank
    def Get_size(self): return self.size
    def barrier(self): self._coll("barrier", 0, b"")
    Barrier = barrier

    def bcast(self, obj=None, root=0):
        self._coll("bcast", root, pickle.dumps(obj) if self.rank == root else b"")
        return obj if self.rank == root else pickle.loads(self._get(root))

    def allgather(self, obj):
        self._coll("allgather", 0, pickle.dumps(obj))
        return [pickle.loads(self._get(r)) for r in range(self.size)]

    def gather(self, obj, root=0):
        self._coll("gather", root, pickle.dumps(obj))
        return [pickle.loads(self._get(r)) for r in range(self.size)] if self.rank == root else None

    def allreduce(self, obj, op=None):
        self._coll("allreduce", 0, pickle.dumps(obj))
        r = [pickle.loads(self._get(i)) for i in range(self.size)]
        s = r[0]
        for x in r[1:]:
            s = s + x
        return s

    def _buf(self, kind, send, recv, root):
        s = np.asarray(send)
        d = np.asarray(recv) if recv is not None else None
        self._coll(kind, root, pickle.dumps((s.dtype.str, s.size)) + b"|" + s.tobytes())
        t = None
        for i in range(self.size):
            h, b = self._get(i).split(b"|", 1) if False else self._split(self._get(i))
            if h != (s.dtype.str, s.size):
                fail("collective-mismatch", "%s with %s on rank %d and %s on rank %d" % (kind, (s.dtype.str, s.size), self.rank, h, i))
            a = np.frombuffer(b, s.dtype)
            t = a.copy() if t is None else (t + a).astype(s.dtype)
        return t, d

    @staticmethod
    def _split(b):
        h = pickle.loads(b)
        return h, b[len(pickle.dumps(h)) + 1:]

    def Allreduce(self, send, recv, op=None):
        t, d = self._buf("Allreduce", send, recv, 0)
        d[...] = t

    def Reduce(self, send, recv, op=None, root=0):
        t, d = self._buf("Reduce", send, recv, root)
        if self.rank == root:
            d[...] = t


# ---- plans -------------------------------------------------------------------------------------
class Op:
    def __init__(self, idx, kind, kv):
        self.idx, self.kind, self.kv = idx, kind, kv

    def s(self, k, d=""): return self.kv.get(k, d)
    def i(self, k, d=0): return int(self.kv.get(k, d))
    def l(self, k): return [int(x) for x in self.kv.get(k, "").split(",") if x != ""]


class Plan:
    def __init__(self, prop, seed):
        self.prop, self.seed, self.ops, self.faults, self.par = prop, seed, [], [], {}
        self.cfg = dict(sseed=1, mseed=1, ioseed=1, policy=0, switch=200, depth=3, shortio=0, fdlimit=0, cap=-1, eager=500, weak=500, shuffle=1, dtunknown=0, closefaults=0, maxsteps=2000000, explicit=0)

    def op(self, kind, **kv):
        o = Op(len(self.ops), kind, {k: (",".join(map(str, v)) if isinstance(v, (list, tuple)) else str(v)) for k, v in kv.items()})
        self.ops.append(o)
        return o

    def fault(self, op, **kv):
        f = dict(op=op, task=-1, n=0, kinds=4, err=5, cnt=1, kill=0, killone=0, tear=-1, lose=0)
        f.update(kv)
        self.faults.append(f)
        if f["kinds"] & 8:
            self.cfg["closefaults"] = 1

    def text(self):
        kv = lambda d: "".join(" %s=%s" % x for x in d.items())
        r = ["prop %s seed %d" % (self.prop, self.seed), "cfg" + kv(self.cfg), "par" + kv(self.par)]
        r += ["op %d %s%s" % (o.idx, o.kind, kv(dict(sorted(o.kv.items())))) for o in self.ops]
        r += ["fault" + kv(f) for f in self.faults]
        return "\n".join(r) + "\n"

    @staticmethod
    def parse(t):
        p = Plan("", 0)
        for line in t.splitlines():
            w = line.split()
            if not w or w[0][0] == "#":
                continue
            kv = dict(x.split("=", 1) for x in w if "=" in x)
            if w[0] == "prop":
                p.prop, p.seed = w[1], int(w[3])
            elif w[0] == "par":
                p.par = kv
            elif w[0] == "op":
                p.ops.append(Op(int(w[1]), w[2], kv))
            elif w[0] == "fault":
                p.faults.append(kv)
        return p


# ---- values ---------------------------------------------------------------------------------------
NUM = ["<i4", "<i8", "<u4", "<u8", "<f4", "<f8", "<c8", "<c16"]
RARE = ["|S3", "|b1", ">f8", ">i4", ">c8", "|S7"]
def subfile(f, how):
    """ the four ways to name the directory g inside of f """
    return f["g/"] if how == 1 else f.subfile("g") if how == 2 else f["/g/"] if how == 3 else f.subfile("/g")


NAMES = ["x", "y", "g/z", "g/h/w", "x2", "Position", "v2."]


def convertible(dst, src):
    a, b = dst.kind, src.kind
    if a == b and dst.itemsize == src.itemsize:
        return True
    if "S" in (a, b) or "b" in (a, b):
        return False
    if "c" in (a, b):
        return a == b
    return True


def values(seed, shape, src, dst):
    """an array of type src whose conversion to dst is exact"""
    g = np.random.Generator(np.random.PCG64(seed))
    n = int(np.prod(shape))
    if src.kind == "S":
        a = np.frombuffer(g.integers(97, 123, n * src.itemsize, dtype=np.uint8).tobytes(), src)
    elif src.kind == "b":
        a = g.integers(0, 2, n).astype(src)
    elif src.kind == "c":
        a = (g.integers(-1000, 1000, n) / 4 + 1j * g.integers(-1000, 1000, n) / 2).astype(src)
    elif src.kind == "f":
        a = (g.integers(-2**20, 2**20, n) / 8).astype(src) if dst.kind == "f" else g.integers(0, 100, n).astype(src)
    elif src.newbyteorder("<") == dst.newbyteorder("<"):
        a = np.frombuffer(g.integers(0, 256, n * src.itemsize, dtype=np.uint8).tobytes(), src)
    else:
        a = g.integers(0, 100, n).astype(src)
    return a.reshape(shape)


def layout(a, how, seed):
    """the same values as another kind of numpy array -> (array, owner of the memory)"""
    if how == 1 and a.ndim:                       # rows of a wider table
        o = np.zeros((a.shape[0] * 2 + 1,) + a.shape[1:], a.dtype)
        v = o[1::2]
    elif how == 2:                                # reversed
        o = np.zeros(a.shape, a.dtype)
        v = o[::-1]
    elif how == 3 and a.ndim == 2:                # columns first
        o = np.zeros(a.shape[::-1], a.dtype)
        v = o.T
    elif how == 4:                                # a field of a structured array
        o = np.zeros(a.shape[:1], [("p", "u1"), ("v", a.dtype, a.shape[1:]), ("q", "i4")])
        v = o["v"]
    elif how == 5 and a.ndim == 2:                # some columns of a wider table
        o = np.zeros((a.shape[0], a.shape[1] * 2 + 1), a.dtype)
        v = o[:, 1::2]
    elif how == 6:                                # not aligned
        b = np.zeros(a.nbytes + 1, "u1")
        o = b
        v = np.ndarray(a.shape, a.dtype, b.data, 1) if a.size else np.zeros(a.shape, a.dtype)
    elif how == 7:                                # read only
        o = a.copy()
        o.flags.writeable = False
        return o, o
    else:
        o = np.zeros(a.shape, a.dtype)
        v = o
    v[...] = a
    return v, o


# ---- the on-disk format, decoded independently ---------------------------------------------------------
def sysv(b):
    return int(np.frombuffer(b, "u1").sum(dtype="u8")) & 0xffffffff


def decode_header(text):
    lines = text.decode("ascii").split("\n")
    assert lines.pop() == "", "header without a final newline"
    kv = [x.split(":") for x in lines]
    assert [x[0].strip() for x in kv[:3]] == ["DTYPE", "NMEMB", "NFILE"], "first lines of the header: %r" % lines[:3]
    n = int(kv[2][1])
    assert len(kv) == 3 + n, "%d lines for %d files" % (len(kv) - 3, n)
    sizes, sums = [0] * n, [0] * n
    for x in kv[3:]:
        i = int(x[0].strip(), 16)
        sizes[i] = int(x[1])
        sums[i] = int(x[2])
    return kv[0][1].strip(), int(kv[1][1]), sizes, sums


def decode_attrs(text):
    r = {}
    lines = text.split(b"\n")
    assert lines.pop() == b"", "attributes without a final newline"
    for x in lines:
        name, dt, n, hexa = x.split(b" ", 4)[:4]
        r[name.decode()] = (dt.decode(), int(n), bytes.fromhex(hexa.decode()))
    return r


def attr_disk(v):
    """(dtype, count, bytes) of a stored attribute, types written the way the library does"""
    dt, n, b = v
    return dt.replace("|", "<") if dt[0] in "|<>" else "<" + dt, n, b


# ---- the model -----------------------------------------------------------------------------------------
class Blk:
    def __init__(self, name, root=ROOT):
        self.name, self.path = name, root + "/" + name
        self.exists = False
        self.unknown = True       # nothing is claimed until it is created
        self.listed = False       # False, True or None: perhaps
        self.meta = False
        self.h = None             # handle
        self.attrs_cand = [{}]

    def create(self, dt, nm, sizes):
        self.exists, self.unknown, self.meta, self.listed = True, False, False, True
        self.dt, self.nm, self.sizes_cand = dt, nm, [list(sizes)]
        self.rows = np.zeros((sum(sizes), nm), dt)
        self.state = np.zeros(sum(sizes), "u1")    # 0 never written, 1 known, 2 one of several values, 3 perhaps not even there
        self.times = np.zeros(sum(sizes), "i4")
        self.exact = True
        self.attrs_cand = [{}]

    @property
    def sizes(self):
        return self.sizes_cand[-1]

    @property
    def size(self):
        return sum(self.sizes)

    def np_dtype(self):
        return np.dtype((self.dt, (self.nm,))) if self.nm != 1 else self.dt

    def resize(self, n):
        k = n - len(self.rows)
        if k > 0:
            rows = np.zeros((n, self.nm), self.dt)      # (concatenate would change the byte order)
            rows[:n - k] = self.rows
            self.rows = rows
            self.state = np.concatenate([self.state, np.zeros(k, "u1")])
            self.times = np.concatenate([self.times, np.zeros(k, "i4")])

    def wrote(self, start, a):
        n = len(a)
        assert a.dtype == self.dt, (a.dtype, self.dt)
        self.rows[start:start + n] = a
        self.state[start:start + n] = 1
        self.times[start:start + n] += 1

    def maybe(self, start, n):
        s = self.state[start:start + n]
        s[...] = np.where((s == 0) | (s == 3), 3, 2)
        self.exact = False

    def check_disk(self, clean=True):
        """the files of the block against the model; clean: no handle has anything left to write"""
        if self.unknown or not self.exists:
            return
        w = self.path
        try:
            at = decode_attrs(content(w + "/attr-v2")) if exists(w + "/attr-v2") else {}
        except Exception as e:
            fail("attributes-unreadable", "%s/attr-v2: %r %r" % (w, e, content(w + "/attr-v2")[:300]))
        if at not in [{k: attr_disk(v) for k, v in c.items()} for c in self.attrs_cand]:
            fail("attributes-wrong", "the stored attributes of %s are %r, expected %r" % (w, at, self.attrs_cand))
        if self.meta:
            return
        try:
            dt, nm, sizes, sums = decode_header(content(w + "/header"))
        except Exception as e:
            fail("header-unreadable", "%s/header: %r %r" % (w, e, content(w + "/header")[:300]))
        if dt != attr_disk((self.dt.str, 1, b""))[0] or nm != self.nm or sizes not in self.sizes_cand:
            fail("header-wrong", "the header of %s says %s x %d %r, expected %s x %d %r" % (w, dt, nm, sizes, self.dt.str, self.nm, self.sizes_cand))
        off, item = 0, self.nm * self.dt.itemsize
        for i, n in enumerate(sizes):
            b = content("%s/%06X" % (w, i))
            st, rows = self.state[off:off + n], self.rows[off:off + n]
            if len(b) > n * item:
                fail("storage-wrong", "%s/%06X has %d bytes, more than %d rows of %d" % (w, i, len(b), n, item))
            known = np.nonzero(st == 1)[0]
            if len(known):
                if len(b) < (known[-1] + 1) * item:
                    fail("rows-lost", "%s/%06X has %d bytes: row %d is missing" % (w, i, len(b), known[-1]))
                have = np.frombuffer(b[:len(b) // item * item], "u1").reshape(-1, item)
                want = np.frombuffer(rows.tobytes(), "u1").reshape(-1, item)
                bad = known[(have[known] != want[known]).any(axis=1)]
                if len(bad):
                    fail("storage-wrong", "%s/%06X: row %d is %s, expected %s" % (w, i, bad[0], have[bad[0]].tobytes().hex(), want[bad[0]].tobytes().hex()))
            if clean and self.exact and len(self.sizes_cand) == 1 and n and (self.times[off:off + n] <= 1).all() and (st < 2).all():
                want = sysv(rows[st == 1].tobytes())
                if sums[i] != want:
                    fail("checksum-wrong", "%s/%06X: the header says %d, the bytes add up to %d" % (w, i, sums[i], want))
                stat("checksums_verified")
            off += n


def message(e):
    return str(e.args[0] if e.args else "")


# what: the operation; invalid: exceptions that must be raised, or None
def attempt(what, fn, invalid=None, valid=True):
    try:
        v = fn()
    except Exception as e:
        x = e
        while x is not None:      # (a traceback keeps what the package had in hand alive)
            x.__traceback__ = None
            x = x.__context__
        f = faulted()
        observe((what, type(e).__name__))
        if isinstance(e, bigfile.Error):
            m = message(e)
            if not m or "Unknown error" in m or "None" == m:
                fail("no-message", "%s failed without saying why (%r)" % (what, e))
            if f or (invalid and bigfile.Error in invalid) or not valid:
                stat("call.%s.error" % what)
                return False, e
        elif invalid and isinstance(e, invalid):
            stat("call.%s.refused" % what)
            return False, e
        if invalid:
            fail("wrong-exception", "%s must be refused with %r, but raised %r" % (what, invalid, e))
        fail("invented-failure", "%s failed though nothing was wrong: %r" % (what, e))
    else:
        if invalid:
            fail("accepted", "%s should have been refused" % what)
        stat("call.%s.ok" % what)
        return True, v


def same_rows(a, rows):
    a = np.asarray(a)
    return a.size == rows.size and a.tobytes() == np.ascontiguousarray(rows).tobytes()


# ---- attributes ------------------------------------------------------------------------------------------
def attr_value(o):
    """-> (value given to Python, (dtype, count, bytes) stored)"""
    g = random.Random(o.i("vs"))
    k, n = o.i("ak"), o.i("n", 1)
    if k == 0:
        s = "".join(g.choice("abc xyz%#=\u00e9" if g.random() < .3 else "abcdefgh ") for _ in range(n))
        b = s.encode()
        return s, ("<a1", len(b), b)
    if k == 1:
        v = ["".join(g.choice("abcxyz%") for _ in range(g.randint(1, 6))) for _ in range(max(n, 1))]
        a = np.array([i.encode() for i in v])
        return v, (a.dtype.str, len(v), a.tobytes())
    if k == 2:
        v = g.randint(-2**40, 2**40)
        return v, ("<i8", 1, struct.pack("<q", v))
    if k == 3:
        v = g.random()
        return v, ("<f8", 1, struct.pack("<d", v))
    if k == 4:
        v = [g.randint(-5, 5) for _ in range(n)]
        a = np.array(v)
        return v, (a.dtype.str, len(v), a.tobytes())
    dt = np.dtype(["<f4", ">f8", "<i2", "|i1", "<u8", "|b1", ">i4", "<c16", "|u1"][k % 9])
    a = values(o.i("vs"), (n,) if k < 14 else (n, 2), dt, dt)
    return arranged(a, g.randrange(8)), (dt.str, a.size, np.ascontiguousarray(a).tobytes())


def arranged(a, how):
    """ the same values, placed otherwise in memory """
    if how == 1:
        b = np.zeros((a.shape[0] * 3 + 1,) + a.shape[1:], a.dtype)
        v = b[1::3]
        v[:] = a
        return v
    if how == 2:
        return np.ascontiguousarray(a[::-1])[::-1]
    if how == 3:
        return np.asfortranarray(a)
    if how == 4:
        b = np.array(a)
        b.setflags(write=False)
        return b
    if how == 5:
        b = np.zeros(a.nbytes + 1, "u1")
        v = b[1:].view(a.dtype).reshape(a.shape)
        v[...] = a
        return v
    if how == 6 and a.dtype.isnative and a.dtype.itemsize > 1:
        s = np.zeros(a.shape, [("p", "u1"), ("v", a.dtype)])
        s["v"] = a
        return s["v"]
    return a


def attr_expected(v):
    dt, n, b = v
    if dt == "<a1":
        return b.decode()
    a = np.frombuffer(b, dt)
    if np.dtype(dt).kind == "S":
        return [x.decode() for x in a]
    return a


def attr_same(got, want):
    if isinstance(want, (str, list)):
        return type(got) is type(want) and got == want
    return isinstance(got, np.ndarray) and got.shape == want.shape and got.dtype.newbyteorder("<") == want.dtype.newbyteorder("<") and \
        (bool((got == want).all()) or got.dtype == want.dtype and got.tobytes() == want.tobytes())


# ---- P27 ---------------------------------------------------------------------------------------------------
class Handle:
    def __init__(self, col, blk):
        self.c, self.attrs, self.sizes = col, None, None
        self.dirty = self.adirty = False


class Serial:
    def __init__(self, plan, root=ROOT):
        self.p, self.blocks, self.f, self.root = plan, {}, None, root
        for n in NAMES + ["m"]:
            self.blocks[n] = Blk(n, root)
        self.blocks["m"].ismeta = True
        self.created = False

    def pick(self, o, k="b"):
        return self.blocks[NAMES[o.i(k) % (len(NAMES) - 2)]]

    # -- handles
    def drop(self, b):
        """the handle goes away: whatever it had left is written, unless storage fails (then nobody is told)"""
        h = b.h
        if h is None:
            return
        b.h = None
        f0 = faulted()
        h.c = None
        self.flushed(b, h, faulted() == f0)
        if faulted() == f0:
            b.check_disk()

    def flushed(self, b, h, ok):
        if ok:
            b.attrs_cand = [dict(h.attrs)]
            if not b.meta:
                b.sizes_cand = [list(h.sizes)]
            h.dirty = h.adirty = False
        else:
            b.attrs_cand.append(dict(h.attrs))
            if not b.meta:
                b.sizes_cand.append(list(h.sizes))
                if h.dirty:
                    b.exact = False

    def opened(self, b, col):
        h = Handle(col, b)
        at = self.read_attrs(col, "open of %s" % b.name)
        got = None
        for c in b.attrs_cand:
            if self.attrs_equal(at, c):
                got = c
        if got is None:
            fail("attributes-wrong", "%s opens with attributes %r, expected %r" % (b.name, at, b.attrs_cand))
        h.attrs = dict(got)
        b.attrs_cand = [dict(got)]
        if b.meta:
            h.sizes = []
            return h
        sz = [s for s in b.sizes_cand if len(s) == col.Nfile and sum(s) == col.size]
        if not sz or col.dtype != b.np_dtype():
            fail("description-wrong", "%s opens as %r x %d in %d files, expected %r %r" % (b.name, col.dtype, col.size, col.Nfile, b.np_dtype(), b.sizes_cand))
        h.sizes = list(sz[-1])
        b.sizes_cand = [list(h.sizes)]
        b.resize(sum(h.sizes))
        return h

    def read_attrs(self, col, what):
        a = col.attrs
        names = list(a.keys())
        if names != sorted(set(names)) or list(a) != names:
            fail("attributes-wrong", "%s lists its attributes as %r" % (what, names))
        return {n: a[n] for n in names}

    def attrs_equal(self, got, want):
        return set(got) == set(want) and all(attr_same(got[n], attr_expected(want[n])) for n in got)

    def need(self, b, create=None):
        """the handle of a block, opened when necessary; None when that failed"""
        if not b.exists or b.unknown:
            return None
        if b.h is None:
            ok, c = attempt("open", lambda: self.f[b.name])
            if not ok:
                return None
            b.h = self.opened(b, c)
        return b.h

    # -- operations
    def ensure_file(self):
        if self.f is None:
            kind = bigfile.BigFile if self.p.par.get("alias") == "1" else bigfile.File
            ok, f = attempt("File", lambda: kind(self.root, create=not self.created))
            if not ok:
                return False
            self.f, self.created = f, True
        return True

    def run(self, o):
        k = o.kind
        set_op(o.idx)
        if k == "reopen":
            self.f = None
        if not self.ensure_file():
            return
        getattr(self, "op_" + k)(o)

    def op_reopen(self, o):
        if o.i("miss"):
            # what is not there is not created either
            attempt("File", lambda: bigfile.File(self.root + "-none"), (bigfile.Error,))
            if exists(self.root + "-none"):
                fail("created", "opening a file that is not there created it")
        if o.i("with"):
            def go():
                with bigfile.File(self.root) as g:
                    return list(g.blocks)
            ok, l = attempt("File", go)
            if ok:
                self.check_list(l)
        if o.i("sub") and any(self.blocks[n].exists and not self.blocks[n].unknown for n in ("g/z", "g/h/w")):
            ok, g = attempt("subfile", lambda: subfile(self.f, o.i("sub")))
            if not ok:
                return
            if g.basename.rstrip("/") != self.root + "/g":
                fail("subfile-wrong", "the subfile g/ is %r" % g.basename)
            ok, l = attempt("blocks", lambda: list(g))
            if ok:
                self.check_list(l, "g/")
            b = self.blocks["g/z"]
            if ok and b.exists and not b.unknown and b.listed and b.h is None:
                ok, c = attempt("open", lambda: g["z"])
                if ok:
                    h = self.opened(b, c)
                    self.check_read(b, h, 0, min(b.size, 5), "subfile read")

    def check_list(self, l, prefix=""):
        l = list(l)
        if l != sorted(set(l)):
            fail("list-wrong", "the list of blocks %r is not sorted or has duplicates" % l)
        for n, b in self.blocks.items():
            if not n.startswith(prefix):
                continue
            if b.listed is not None and (n[len(prefix):] in l) != bool(b.listed):
                fail("list-wrong", "%s is %s in the list %r" % (n, "missing" if b.listed else "present", l))
        for n in l:
            if prefix + n not in self.blocks:
                fail("list-wrong", "%r is in the list %r" % (n, l))

    def op_list(self, o):
        how = o.i("how")
        if how == 0:
            ok, l = attempt("list_blocks", lambda: self.f.list_blocks())
        else:
            ok, f = attempt("File", lambda: bigfile.File(self.root))
            if not ok:
                return
            ok, l = attempt("blocks", lambda: [list(f.blocks), f.keys(), list(f), [n for n in self.blocks if n in f]][how - 1])
            if ok and how == 4:
                l = sorted(l)
        if ok:
            self.check_list(l)

    def op_create(self, o):
        b = self.pick(o)
        self.drop(b)
        dt, nm, size, nf = np.dtype(o.s("dt")), o.i("nm", 1), o.i("size"), o.i("nf", 1)
        bad = o.s("bad")
        inv = None
        if bad == "nf":
            nf, inv = -1, (ValueError,)
        elif bad == "size":
            nf, size, inv = max(nf, 1), -1 - size, (ValueError,)
        elif bad == "nf0":
            nf, size, inv = 0, max(size, 1), (ValueError,)
        elif bad == "name":
            nf, inv = max(nf, 1), (bigfile.Error,)
        if nf == 0 and not inv:
            size = 0
        d = dt if nm == 1 else np.dtype((dt, (nm,)))
        name = "bad name" if bad == "name" else b.name
        if bad == "shape":
            nf, d, inv = max(nf, 1), np.dtype((dt, (2, nm + 1))), (AssertionError, ValueError, TypeError, bigfile.Error)
        elif nm == 1 and o.idx % 3 == 0:
            d = dt.str
        if not inv:
            b.exists, b.unknown, b.listed = True, True, None if not b.listed else None
        f = self.f
        if o.i("with") and not inv:
            def go():
                with f.create(name, d, size, nf) as c:
                    return c
        else:
            go = lambda: f.create(name, d, size, nf)
        ok, c = attempt("create", go, inv)
        if not ok:
            return
        sizes = [(i + 1) * size // nf - i * size // nf for i in range(nf)]
        b.create(dt, nm, sizes)
        b.h = self.opened(b, c)
        b.check_disk()
        self.check_list(f.blocks)

    def op_meta(self, o):
        b = self.blocks["m"]
        if b.h is None:
            fresh = not b.exists or o.i("again")
            if fresh:
                b.exists, b.unknown, b.meta = True, True, True
                b.listed = None
                ok, c = attempt("create", lambda: self.f.create("m"))
                if not ok:
                    return
                b.unknown, b.listed, b.attrs_cand = False, False, [{}] if not exists(b.path + "/attr-v2") else b.attrs_cand
                b.listed = exists(b.path + "/header")
                b.attrs_cand = [{}]
            else:
                if b.unknown:
                    return
                ok, c = attempt("open", lambda: self.f.open("m"))
                if not ok:
                    return
            b.h = self.opened(b, c)
            del c
        self.attr_op(b, b.h, o)
        if o.i("drop"):
            self.drop(b)

    def array(self, o, b, n):
        sd = np.dtype(o.s("dt", "<i8"))
        if not convertible(b.dt, sd):
            sd = b.dt
        if o.i("be"):
            sd = sd.newbyteorder(">")
        shape = (n, b.nm) if b.nm != 1 or o.i("two") else (n,)
        a = values(o.i("vs"), shape, sd, b.dt)
        with np.errstate(all="ignore"):
            rows = a.reshape(n, b.nm).astype(b.dt)
        v, own = layout(a, o.i("layout"), o.i("vs"))
        return v, own, rows

    def op_carr(self, o):
        b = self.pick(o)
        self.drop(b)
        dt, nm, n = np.dtype(o.s("dt")), o.i("nm", 1), o.i("size")
        shape = (n, nm) if nm != 1 else (n,)
        a = values(o.i("vs"), shape, dt, dt)
        v, own = layout(a, o.i("layout"), 0)
        before = own.tobytes()
        nf = o.i("nf", -1)
        kw = {}
        if nf >= 0:
            nf = max(nf, 1) if n else nf
            kw["Nfile"] = nf
        else:
            nf = 1 if n else 0
        if o.i("mem"):
            kw["memorylimit"] = o.i("mem")
        b.exists, b.unknown, b.listed = True, True, None
        f = self.f
        ok, c = attempt("create_from_array", lambda: f.create_from_array(b.name, v, **kw))
        if own.tobytes() != before:
            fail("source-changed", "create_from_array changed the caller's array")
        if not ok:
            return
        sizes = [(i + 1) * n // nf - i * n // nf for i in range(nf)]
        b.create(dt, nm, sizes)
        b.wrote(0, a.reshape(n, nm))
        b.h = self.opened(b, c)
        b.check_disk()

    def op_open(self, o):
        b = self.pick(o)
        if not b.exists:
            n = b.name
            ok, c = attempt("open", lambda: self.f.open(n), (bigfile.Error,))
            return
        if b.unknown:
            return
        self.drop(b)
        if o.i("direct") and not b.meta:
            # one object for one block after the other
            f, n = self.f, b.name
            c = bigfile.BigBlock()
            for x in self.blocks.values():
                if x.exists and not x.unknown and not x.h and o.i("direct") == 2:
                    attempt("open", lambda: c.open(f, x.name))
                    break
            ok, e = attempt("open", lambda: c.open(f, n))
            if ok:
                b.h = self.opened(b, c)
            return
        self.need(b)

    def check_read(self, b, h, start, n, what, fn=None):
        if not fn:
            fn = lambda: h.c.read(start, n)
        st = b.state[start:start + n]
        sure = ((st == 1) | (st == 2)).all()
        ok, r = attempt("read", fn, valid=bool(sure))
        if not ok:
            return None
        if not isinstance(r, np.ndarray):
            r = np.asarray(r)
        if r.dtype.base.newbyteorder("<") != b.dt.newbyteorder("<") and r.dtype.base != b.dt:
            fail("read-wrong", "%s: the result has type %r, expected %r" % (what, r.dtype, b.dt))
        got = np.ascontiguousarray(r).reshape(n, b.nm).astype(b.dt) if r.size == n * b.nm else None
        if got is None:
            fail("read-wrong", "%s: %d rows of %s from %d give an array of shape %r" % (what, n, b.name, start, r.shape))
        want = b.rows[start:start + n]
        bad = [i for i in range(n) if st[i] == 1 and got[i].tobytes() != want[i].tobytes()]
        if bad:
            fail("read-wrong", "%s: row %d of %s is %r, expected %r" % (what, start + bad[0], b.name, got[bad[0]], want[bad[0]]))
        stat("rows_read", n)
        return r

    @staticmethod
    def scalar(b, x):
        return np.asarray(x, b.dt)[None] if isinstance(x, bytes) else np.asarray(x)[None]

    def span(self, o, b):
        size = b.size
        start = size * o.i("start") // 1000
        n = min(o.i("max", 30), (size - start) * o.i("len", 1000) // 1000)
        return start, n

    def op_read(self, o):
        b = self.pick(o)
        h = self.need(b)
        if h is None:
            return
        start, n = self.span(o, b)
        size, c, how = b.size, h.c, o.i("how")
        full = lambda k: (k,) + ((b.nm,) if b.nm != 1 else ())
        if how == 0:
            r = self.check_read(b, h, start, n, "b[a:b]", lambda: c[start:start + n])
        elif how == 1:
            if start >= size:
                attempt("getitem", lambda: c[start], (IndexError,))
                return
            r = self.check_read(b, h, start, 1, "b[i]", lambda: self.scalar(b, c[start]))
        elif how == 2:
            r = self.check_read(b, h, 0, size, "b[...]", lambda: c[...])
            n = size
        elif how == 3:
            dt = b.np_dtype()
            out = np.zeros(full(n), b.dt)
            v, own = layout(out, o.i("layout") if o.i("layout") != 7 else 0, 0)
            v[...] = 0
            before = own.tobytes()
            r = self.check_read(b, h, start, n, "read(out=)", lambda: c.read(start, n, v))
            if r is not None:
                # everything around the destination is as it was
                keep = np.array(v)
                v[...] = 0
                if own.tobytes() != before:
                    fail("destination-overrun", "reading into an array changed the memory around it")
                v[...] = keep
        elif how == 4:
            i = -1 - (o.i("start") % (size + 1) if size else 0)
            if size == 0:
                attempt("getitem", lambda: c[-1], (IndexError,))
                return
            if -i > size:
                attempt("getitem", lambda: c[i], (IndexError,))
                return
            r = self.check_read(b, h, size + i, 1, "b[-i]", lambda: self.scalar(b, c[i]))
        elif how == 5:
            # slices like those of an array
            s = slice(*[None if x == 0 else x - size - 2 for x in (o.i("s0") % (2 * size + 5), o.i("s1") % (2 * size + 5))])
            want = range(size)[s]
            n = len(want)
            r = self.check_read(b, h, want[0] if n else 0, n, "b[%r]" % s, lambda: c[s])
        elif how == 6:
            attempt("getitem", lambda: c[0:size:2], (ValueError,))
            return
        elif how == 7:
            r = self.check_read(b, h, start, size - start, "read(-1)", lambda: c.read(start, -1))
            n = size - start
        elif how == 8:
            # past the end: not more than there is
            r = self.check_read(b, h, start, size - start, "read(beyond)", lambda: c.read(start, size - start + 1 + n))
            n = size - start
        elif how == 9:
            attempt("read", lambda: c.read(size + 1 + n, 1), (bigfile.Error, ValueError))
            return
        elif how == 10:
            i = self.not_an_index(o)
            attempt("getitem", lambda: c[i], (TypeError, IndexError, ValueError))
            return
        else:
            # what cannot be written to is left alone
            out = np.zeros(full(n), b.dt)
            out[...] = values(o.i("s0"), out.shape, b.dt, b.dt)
            out.flags.writeable = False
            before = out.tobytes()
            attempt("read", lambda: c.read(start, n, out), (ValueError,))
            if out.tobytes() != before:
                fail("destination-overrun", "reading into a read-only array changed it")
            return
        if r is not None and how not in (1, 4) and r.shape != full(n):
            fail("read-wrong", "%d rows of %s come as an array of shape %r" % (n, b.name, r.shape))
        self.check_col(b, h)

    @staticmethod
    def not_an_index(o):
        return [[0, 1], (0, 1), None, "x", 0.5, (slice(0, 1), 0), {}][o.i("s0") % 7]

    def check_col(self, b, h):
        if h.c.size != sum(h.sizes) or h.c.Nfile != len(h.sizes) or h.c.dtype != b.np_dtype():
            fail("description-wrong", "%s is described as %r x %d in %d files, expected %r %r" % (b.name, h.c.dtype, h.c.size, h.c.Nfile, b.np_dtype(), h.sizes))

    def op_write(self, o):
        b = self.pick(o)
        h = self.need(b)
        if h is None:
            return
        start, n = self.span(o, b)
        over = o.i("over")
        v, own, rows = self.array(o, b, n + over)
        before = own.tobytes()
        c, how = h.c, o.i("how")
        inv = (bigfile.Error,) if over and start + n + over > b.size else None
        if over and not inv:
            over = 0
            v, own, rows = self.array(o, b, n)
            before = own.tobytes()
        if how == 1 and not over:
            bad = o.i("mis")
            if bad and n:
                if bad == 1:
                    i, inv = slice(start, start + n - 1), (ValueError,)
                elif bad == 2:
                    i, inv = slice(start, start + n, 2), (ValueError,)
                elif bad == 3:
                    i, inv = slice(start + n - 1, None if start == 0 else start - 1, -1), (ValueError,)
                elif bad == 4:
                    i, inv = self.not_an_index(o), (TypeError, IndexError, ValueError)
                else:
                    i, inv = b.size if o.i("s0") % 2 else -1 - b.size, (TypeError, IndexError, ValueError)
                attempt("setitem", lambda: c.__setitem__(i, v), inv)
                if own.tobytes() != before:
                    fail("source-changed", "a refused assignment to %s changed the caller's array" % b.name)
                return
            i = slice(start, start + n)
            if n == 1 and o.i("s1") % 2:
                i = start if o.i("s1") % 4 == 1 else start - b.size
            elif n == b.size and n and o.i("s1") % 2:
                i = Ellipsis
            ok, e = attempt("setitem", lambda: c.__setitem__(i, v))
        else:
            if inv and o.i("s1") % 3 == 0:       # rows that all lie outside
                start = b.size + 1 + o.i("s0") if o.i("s1") % 2 else -1 - b.size - o.i("s0")
            ok, e = attempt("write", lambda: c.write(start, v), inv)
        if own.tobytes() != before:
            fail("source-changed", "writing to %s changed the caller's array" % b.name)
        if inv:
            return
        h.dirty = True
        if ok:
            b.wrote(start, rows)
            stat("rows_written", n)
        else:
            b.maybe(start, n)
        self.check_col(b, h)

    def op_append(self, o):
        b = self.pick(o)
        h = self.need(b)
        if h is None or len(h.sizes) > 20:
            return
        n, nf = o.i("size"), o.i("nf", 1)
        v, own, rows = self.array(o, b, n)
        before = own.tobytes()
        c, tail = h.c, b.size
        if o.s("bad") == "nf":
            attempt("append", lambda: c.append(v, -1), (ValueError,))
            self.check_col(b, h)
            return
        if o.s("bad") == "nf0" and n:
            attempt("append", lambda: c.append(v, 0), (ValueError,))
            self.check_col(b, h)
            return
        nf = max(nf, 1) if n else nf
        more = [(i + 1) * n // nf - i * n // nf for i in range(nf)]
        ok, e = attempt("append", lambda: c.append(v, nf))
        if own.tobytes() != before:
            fail("source-changed", "append to %s changed the caller's array" % b.name)
        new = h.sizes + more
        if ok:
            h.sizes = new
            b.sizes_cand = [list(new)]
            b.resize(sum(new))
            b.attrs_cand = [dict(h.attrs)]
            b.wrote(tail, rows)
            h.adirty, h.dirty = False, True
            self.check_col(b, h)
            return
        # somewhere in between
        if c.Nfile not in (len(new), len(h.sizes)) or c.size not in (sum(new), sum(h.sizes)):
            fail("description-wrong", "after a failed append %s has %d rows in %d files" % (b.name, c.size, c.Nfile))
        grown = c.Nfile == len(new) and c.size == sum(new)
        b.attrs_cand.append(dict(h.attrs))
        if grown:
            h.sizes = new
            b.sizes_cand.append(list(new))
            b.resize(sum(new))
            b.maybe(tail, n)
            h.dirty = True
        b.exact = False

    # -- attributes
    def attr_op(self, b, h, o):
        a = h.c.attrs
        name = ["a", "Time", "unit %s" if False else "unit%s", "\u00e9", "b.c"][o.i("name") % 5]
        what = o.i("what")
        if what == 4 and o.i("n") % 2 and h.attrs:
            name = sorted(h.attrs)[o.i("name") % len(h.attrs)]
        if what <= 3:
            val, stored = attr_value(o)
            if o.i("obj"):
                attempt("setattr", lambda: a.__setitem__(name, [object()]), (ValueError,))
            else:
                ok, e = attempt("setattr", lambda: a.__setitem__(name, val))
                h.attrs[name] = stored
                h.adirty = True
        elif what == 4:
            if name in h.attrs:
                attempt("delattr", lambda: a.__delitem__(name))
                del h.attrs[name]
                h.adirty = True
            else:
                attempt("delattr", lambda: a.__delitem__(name), (KeyError,))
        elif what == 5 and name not in h.attrs:
            attempt("getattr", lambda: a[name], (KeyError,))
        if (name in a) != (name in h.attrs):
            fail("attributes-wrong", "%r in attrs of %s is %r" % (name, b.name, name in a))
        got = self.read_attrs(h.c, b.name)
        if not self.attrs_equal(got, h.attrs):
            fail("attributes-wrong", "the attributes of %s are %r, expected %r" % (b.name, got, {k: attr_expected(v) for k, v in h.attrs.items()}))
        observe(sorted(got))
        repr(a)

    def op_attr(self, o):
        b = self.pick(o)
        h = self.need(b)
        if h is not None:
            self.attr_op(b, h, o)

    # -- flushing
    def op_flush(self, o):
        b = self.pick(o)
        h = b.h
        if h is None:
            return
        c, how = h.c, o.i("how")
        if how == 0:
            ok, e = attempt("flush", lambda: c.flush())
        elif how == 1:
            ok, e = attempt("close", lambda: c.close())
        else:
            def go():
                with c:
                    pass
            ok, e = attempt("exit", go)
        self.flushed(b, h, ok)
        if ok:
            b.check_disk()
        if how == 1 or o.i("drop"):
            del c
            self.drop(b)

    def op_drop(self, o):
        self.drop(self.pick(o))

    def op_pickle(self, o):
        b = self.pick(o)
        h = self.need(b)
        if h is None:
            return
        c = h.c
        ok, s = attempt("pickle", lambda: pickle.dumps(c, o.i("proto", 2)))
        ok, c2 = attempt("unpickle", lambda: pickle.loads(s))
        if not ok:
            return
        if type(c2) is not type(c) or c2.size != c.size or c2.dtype != c.dtype or c2.Nfile != c.Nfile:
            fail("pickle-wrong", "%s comes out of a pickle as %r" % (b.name, c2))
        got = self.read_attrs(c2, "unpickled " + b.name)
        if not self.attrs_equal(got, h.attrs):
            fail("pickle-wrong", "%s comes out of a pickle with the attributes %r, expected %r" % (b.name, got, h.attrs))
        # the copy takes over: it has everything, written or not
        h.c = c2
        f0 = faulted()
        del c
        self.flushed(b, h, faulted() == f0)
        if faulted() == f0:
            b.check_disk()

    def op_picklef(self, o):
        f = self.f
        ok, s = attempt("pickle", lambda: pickle.dumps(f, o.i("proto", 2)))
        if not ok:
            return
        gone = s.replace(self.root.encode(), self.root[:-1].encode() + b"?")
        if gone != s:
            attempt("unpickle", lambda: pickle.loads(gone), (bigfile.Error,))
        ok, g = attempt("unpickle", lambda: pickle.loads(s))
        if not ok:
            return
        if type(g) is not type(f) or g.basename != f.basename:
            fail("pickle-wrong", "the file comes out of a pickle as %r" % g)
        ok, l = attempt("blocks", lambda: list(g.blocks))
        if ok and l != list(f.blocks):
            fail("pickle-wrong", "the file comes out of a pickle with the blocks %r, expected %r" % (l, f.blocks))
        self.f = g

    # -- datasets
    def dset(self, o):
        names = []
        for i in o.l("bs"):
            b = self.blocks[NAMES[i % (len(NAMES) - 2)]]
            if b.exists and not b.unknown and b.name not in names and (not names or b.size == self.blocks[names[0]].size):
                if b.dt.kind in "iufc" or True:
                    names.append(b.name)
        if not names:
            return None, None
        for n in names:
            self.drop(self.blocks[n])
        if any(len(self.blocks[n].sizes_cand) > 1 for n in names):
            for n in names:
                if self.need(self.blocks[n]) is None:
                    return None, None
                self.drop(self.blocks[n])
            if any(len(self.blocks[n].sizes_cand) > 1 or self.blocks[n].size != self.blocks[names[0]].size for n in names):
                return None, None
        f, how = self.f, o.i("by")
        if how == 1:
            go = lambda: bigfile.Dataset(f, blocks=names)
        elif how == 2:
            go = lambda: bigfile.BigData(f, column_names=names)
        elif how == 3 and all(b.listed is not None and (not b.exists or not b.unknown and not b.meta and not b.h and len(b.sizes_cand) == 1 and b.size == self.blocks[names[0]].size) for b in self.blocks.values()):
            # all columns
            names = sorted(n for n, b in self.blocks.items() if b.exists)
            go = lambda: bigfile.Dataset(bigfile.File(self.root))
        else:
            go = lambda: bigfile.Dataset(f, names)
        ok, d = attempt("Dataset", go)
        if not ok:
            return None, None
        size = self.blocks[names[0]].size
        if d.size != size or d.shape != (size,) or d.ndim != 1 or list(d.dtype.names) != names:
            fail("dataset-wrong", "the dataset of %r has size %r, type %r; expected %d rows" % (names, d.size, d.dtype, size))
        return d, [self.blocks[n] for n in names]

    def recs(self, o, d, bs, n):
        a = np.zeros(n, d.dtype)
        rows = []
        for i, b in enumerate(bs):
            v = values(o.i("vs") + i, (n, b.nm), b.dt, b.dt)
            a[b.name] = v if b.nm != 1 else v[:, 0]
            rows.append(v)
        if o.i("layout") == 1:
            w = np.zeros(2 * n, d.dtype)
            w[::2] = a
            a = w[::2]
        elif o.i("layout") == 2:
            w = np.zeros(n, d.dtype)[::-1]
            w[:] = a
            a = w
        return a, rows

    def ds_forms(self, o, d, bs, start, n):
        """the ways to ask a dataset for rows and columns"""
        size, k, b = bs[0].size, o.i("s0") % 12, bs[o.i("s1") % len(bs)]
        sl, names = slice(start, start + n), [b.name for b in bs]
        sure = all(np.isin(b.state, (1, 2)).all() for b in bs)
        one, col = False, None
        if k <= 1:
            if start >= size:
                attempt("dataset[i]", lambda: d[start if k else -1 - start], (IndexError,))
                return
            n, one = 1, True
            go = lambda: d[start] if k else d[start - size]
        elif k == 2:
            start, n = 0, size
            go = lambda: d[...]
        elif k <= 4:
            s = slice(*[None if x == 0 else x - size - 2 for x in (o.i("s1") % (2 * size + 5), o.i("vs") % (2 * size + 5))])
            want = range(size)[s]
            start, n = want[0] if len(want) else 0, len(want)
            go = lambda: d[s]
        elif k == 5:
            go = lambda: d[sl,]
        elif k == 6:
            go = lambda: d[names,][sl]
        elif k == 7:
            col, go = b, lambda: d[b.name][sl]
        elif k == 8:
            col, go = b, lambda: d[b.name, sl]
        elif k == 9:
            col, go = b, lambda: d[sl, b.name]
        else:
            more = [x.name for x in self.blocks.values() if x.exists and not x.unknown and not x.meta and x.size == size and x.name not in names and not x.h] or ["nosuch"]
            bad = [[0, 1], None, 0.5, {}, more, names + more, "nosuch", ["nosuch"], names + ["nosuch"], (1, 2, 3), slice(0, size, 2), slice(None, None, -1), (names, slice(0, size, 2))][o.i("s1") % 13]
            attempt("dataset[bad]", lambda: d[bad], (TypeError, IndexError, ValueError, KeyError, AssertionError, bigfile.Error))
            return
        ok, r = attempt("dataset[..]", go, valid=sure)
        if not ok:
            return
        if not one and len(r) != n:
            fail("read-wrong", "%d rows read as %d" % (n, len(r)))
        for b in [col] if col else bs:
            got = np.ascontiguousarray(r if col else r[b.name]).astype(b.dt).reshape(n, b.nm)
            for i in range(n):
                if b.state[start + i] == 1 and got[i].tobytes() != b.rows[start + i].tobytes():
                    fail("read-wrong", "record %d has %s = %r, expected %r" % (start + i, b.name, got[i], b.rows[start + i]))
        stat("records_read", n)

    def ds_refused(self, o, d, bs, start, n):
        """assignments that make no sense change nothing"""
        size, k = bs[0].size, o.i("s0") % 8
        a, rows = self.recs(o, d, bs, n)
        i, inv = slice(start, start + n), (TypeError, IndexError, ValueError, KeyError, AssertionError, bigfile.Error)
        if k == 6:
            a = [np.zeros(n, [("other", "<i8")]), np.zeros((n, 1), d.dtype), np.zeros((1, n), d.dtype), [0] * n][o.i("s1") % 4]
            nf = 1 + o.i("s1") % 3
            if o.i("s1") % 5 == 4:
                a, nf = self.recs(o, d, bs, n)[0], 0 if n and o.i("s1") % 2 else -1 - o.i("s1") % 3
            attempt("dataset.append", lambda: d.append(a, nf), inv)
            if d.size != size or d.shape != (size,):
                fail("dataset-wrong", "after a refused append the dataset has %d rows, expected %d" % (d.size, size))
            return
        if k == 7:
            out = np.zeros(n + 1, d.dtype)
            v = [out[:n], out[:n + 1], out[:n].reshape(1, n), np.zeros(n, [("other", "<i8")])][o.i("s1") % 4]
            if o.i("s1") % 4 == 0:
                v.flags.writeable = False
            attempt("dataset.read", lambda: d.read(start, n, v), inv)
            if out.tobytes() != bytes(out.nbytes) or v.tobytes() != bytes(v.nbytes):
                fail("destination-changed", "a refused read of records changed the destination")
            return
        if k == 0:
            a = np.zeros(n, [("other", "<i8")])
        elif k == 1 and n:
            i = slice(start, start + n - 1)
        elif k == 2 and n > 1:
            i, a = slice(start, start + n, 2), a[::2] if o.i("s1") % 2 else a
        elif k == 3 and n > 1:
            i = slice(start + n - 1, None if start == 0 else start - 1, -1)
        elif k == 4:
            i = [[0, 1], None, 0.5, {}, bs[0].name, [bs[0].name], (0, 1)][o.i("s1") % 7]
        else:
            a = np.zeros((n, 1), d.dtype)
            attempt("dataset.write", lambda: d.write(start, a), inv)
            return
        attempt("dataset[bad]=", lambda: d.__setitem__(i, a), inv)

    def op_dset(self, o):
        d, bs = self.dset(o)
        if d is None:
            return
        start, n = self.span(o, bs[0])
        how = o.i("how")
        size = bs[0].size
        if how >= 9:
            self.ds_refused(o, d, bs, start, n)
            for b in bs:
                b.check_disk()
            return
        if how >= 7:
            self.ds_forms(o, d, bs, start, n)
            return
        if how <= 2 or how == 6:
            sure = all(np.isin(b.state[start:start + n], (1, 2)).all() for b in bs)
            if how == 6:
                sub = [b.name for b in bs[::-1]][:max(1, len(bs) - 1)]
                bs = [self.blocks[x] for x in sub]
                ok, r = attempt("dataset[cols]", lambda: [d[sub][start:start + n], d[sub, start:start + n], d[start:start + n, sub]][o.i("vs") % 3], valid=sure)
            elif how == 2:
                out = np.zeros(2 * n + 1, d.dtype)
                v = out[1::2] if o.i("layout") else out[:n]
                ok, r = attempt("dataset.read", lambda: d.read(start, n, v), valid=sure)
                if ok and o.i("layout") and out[::2].tobytes() != bytes(out[::2].nbytes):
                    fail("destination-overrun", "reading records changed the memory around the destination")
            else:
                ok, r = attempt("dataset.read", (lambda: d[start:start + n]) if how else (lambda: d.read(start, n)), valid=sure)
            if not ok:
                return
            if len(r) != n:
                fail("read-wrong", "%d records read as %d" % (n, len(r)))
            for b in bs:
                got = np.ascontiguousarray(r[b.name]).reshape(n, b.nm)
                for i in range(n):
                    if b.state[start + i] == 1 and got[i].tobytes() != b.rows[start + i].tobytes():
                        fail("read-wrong", "record %d has %s = %r, expected %r" % (start + i, b.name, got[i], b.rows[start + i]))
            stat("records_read", n)
        elif how <= 4:
            over = o.i("over")
            over = over if start + n + over > size else 0
            a, rows = self.recs(o, d, bs, n + over)
            before = a.tobytes()
            if how == 3 or over:
                ok, e = attempt("dataset.write", lambda: d.write(start, a), (bigfile.Error,) if over else None)
            else:
                ok, e = attempt("dataset.write", lambda: d.__setitem__(slice(start, start + n), a))
            if a.tobytes() != before:
                fail("source-changed", "writing records changed the caller's array")
            for b, r in zip(bs, rows):
                if ok:
                    b.wrote(start, r)
                else:
                    b.maybe(min(start, size), min(n, size - start))
                if ok:
                    b.check_disk()
        elif how == 5 and all(len(b.sizes) < 20 for b in bs):
            n, nf = o.i("size"), max(o.i("nf", 1), 1)
            a, rows = self.recs(o, d, bs, n)
            ok, e = attempt("dataset.append", lambda: d.append(a, nf))
            more = [(i + 1) * n // nf - i * n // nf for i in range(nf)]
            for b, r in zip(bs, rows):
                new = b.sizes + more
                if ok:
                    b.sizes_cand = [new]
                    b.resize(sum(new))
                    b.wrote(size, r)
                    b.check_disk()
                else:
                    b.resize(sum(new))
                    b.maybe(size, n)
                    b.sizes_cand.append(new)
            if ok and (d.size != size + n or d.shape != (size + n,)):
                fail("dataset-wrong", "after an append the dataset has %d rows, expected %d" % (d.size, size + n))

    def op_dsbad(self, o):
        """columns of different lengths are not a dataset"""
        bs = [b for b in self.blocks.values() if b.exists and not b.unknown and not b.meta and len(b.sizes_cand) == 1]
        for b in bs:
            if b.size != bs[0].size and not (b.h or bs[0].h):
                n = [bs[0].name, b.name]
                attempt("Dataset", lambda: bigfile.Dataset(self.f, n), (bigfile.Error,))
                return

    def op_buf(self, o):
        bigfile.set_buffer_size(o.i("bytes"))

    def finish(self):
        for b in self.blocks.values():
            self.drop(b)
        self.f = None

    def verify(self):
        set_op(1000000)
        bigfile.set_buffer_size(1 << 20)
        if not self.created:
            return
        self.f = bigfile.File(self.root)
        self.check_list(self.f.blocks)
        for b in self.blocks.values():
            if not b.exists or b.unknown:
                continue
            b.check_disk()
            h = self.need(b)
            if not b.meta:
                self.check_read(b, h, 0, b.size, "the final read")
            self.drop(b)
        if L.bfsim_fds():
            fail("fd-leak", "%d files are still open at the end" % L.bfsim_fds())


def exec_serial(p):
    S = Serial(p)
    parts = [[]]
    for o in p.ops:
        if o.kind == "restart":
            parts.append([])
        else:
            parts[-1].append(o)

    def go(ops, last):
        def body(r):
            try:
                bigfile.set_buffer_size(int(p.par.get("buf", 4096)))
                for o in ops:
                    S.run(o)
                    gc.collect() if o.idx % 8 == 7 else None
                set_op(999999)
                S.finish()
                gc.collect()
            except BaseException:
                fail("harness-error", traceback.format_exc())
        return body
    L.bfsim_mkdirs(b"/w")
    for i, ops in enumerate(parts):
        phase(1, go(ops, i == len(parts) - 1))

    def last(r):
        S.verify()
        S.finish()
        gc.collect()
    phase(1, last)
    S.__dict__.clear()


def gen_serial(prop, seed, scale):
    g = random.Random(seed * 1000003 + 27)
    p = Plan(prop, seed)
    p.cfg.update(sseed=g.getrandbits(63), mseed=g.getrandbits(63), ioseed=g.getrandbits(63))
    if g.random() < .3:
        p.cfg["shortio"] = g.randrange(500)
    p.par["buf"] = g.choice([1, 8, 24, 64, 100, 4096, 65536])
    typ = lambda: g.choice(NUM if g.random() < .8 else RARE)
    size = lambda: g.choice([0, 1, 2, 3, 5, 8, 13, 20, 33])
    vs = lambda: g.getrandbits(40)
    nb = g.choice([1, 2, 2, 3, 4])
    w = dict(create=4, carr=4, open=2, read=9, write=9, append=4, attr=8, flush=4, drop=1, pickle=3, picklef=1, list=3, reopen=1, dset=6, dsbad=1, meta=2, buf=1, restart=1)
    for k in list(w):
        if g.random() < .25:
            w[k] = 0
    kinds = [k for k in w if w[k]] or ["read"]
    same = g.random() < .5
    n0 = size()
    for b in range(nb):
        if g.random() < .5:
            p.op("carr", b=b, dt=typ(), nm=g.choice([1, 1, 2, 3]), size=n0 if same else size(), nf=g.choice([-1, 1, 2, 3, 7]), vs=vs(), mem=g.choice([0, 1, 100, 100000]), layout=g.randrange(8))
        else:
            p.op("create", b=b, dt=typ(), nm=g.choice([1, 1, 2, 3]), size=n0 if same else size(), nf=g.choice([1, 1, 2, 3, 7]))
            p.op("write", b=b, dt=typ(), start=0, len=1000, max=1000, vs=vs())
    for _ in range(g.randrange(4, 24 + 16 * scale)):
        k = g.choices(kinds, [w[x] for x in kinds])[0]
        b = g.randrange(nb)
        if k == "create":
            o = p.op(k, b=b, dt=typ(), nm=g.choice([1, 1, 1, 2, 3, 4]), size=n0 if same else size(), nf=g.choice([0, 1, 1, 2, 3, 7]), **({"with": 1} if g.random() < .3 else {}))
            if g.random() < .2:
                o.kv["bad"] = g.choice(["nf", "nf0", "name", "size", "shape"])
        elif k == "carr":
            p.op(k, b=b, dt=typ(), nm=g.choice([1, 1, 2, 3]), size=n0 if same else size() * g.choice([1, 1, 1, 100 if p.par["buf"] >= 64 else 2]), nf=g.choice([-1, 1, 2, 3, 7]), vs=vs(), mem=g.choice([0, 1, 100, 100000]), layout=g.randrange(8))
        elif k in ("read", "write"):
            o = p.op(k, b=b, dt=typ(), vs=vs(), start=0 if g.random() < .4 else g.randrange(1001), len=1000 if g.random() < .5 else g.randrange(1001), max=g.choice([0, 1, 1, 5, 40, 1000]), layout=g.randrange(8), how=g.randrange(12) if k == "read" else g.randrange(2))
            if g.random() < .2:
                o.kv["be"] = "1"
            if g.random() < .2:
                o.kv["two"] = "1"
            if k == "write" and g.random() < .15:
                o.kv["over"] = str(g.choice([1, 2, 50]))
            if k == "write" and g.random() < .1:
                o.kv["mis"] = str(g.randrange(1, 6))
            if 1:
                o.kv.update(s0=str(g.randrange(100)), s1=str(g.randrange(100)))
        elif k == "append":
            o = p.op(k, b=b, dt=typ(), vs=vs(), size=size(), nf=g.choice([0, 1, 1, 2, 3]), layout=g.randrange(8))
            if g.random() < .1:
                o.kv["bad"] = g.choice(["nf", "nf0"])
        elif k in ("attr", "meta"):
            o = p.op(k, b=b, what=g.randrange(6), name=g.randrange(5), ak=g.randrange(18), n=g.choice([0, 1, 1, 2, 3, 10, 100]), vs=vs())
            if g.random() < .05:
                o.kv["obj"] = "1"
            if k == "meta":
                o.kv.update(drop=str(g.randrange(2)), again=str(int(g.random() < .1)))
        elif k == "flush":
            p.op(k, b=b, how=g.randrange(3), drop=g.randrange(2))
        elif k in ("open", "drop"):
            p.op(k, b=g.randrange(4), **({"direct": g.randrange(3)} if k == "open" else {}))
        elif k in ("pickle", "picklef"):
            p.op(k, b=b, proto=g.randrange(2, 5))
        elif k == "list":
            p.op(k, how=g.randrange(5))
        elif k == "reopen":
            p.op(k, sub=g.randrange(5), miss=g.randrange(2), **{"with": g.randrange(2)})
        elif k == "dset":
            o = p.op(k, bs=[g.randrange(4) for _ in range(4)], how=g.randrange(10), by=g.randrange(5), s0=g.randrange(1000), s1=g.randrange(1000), vs=vs(), start=0 if g.random() < .4 else g.randrange(1001), len=1000 if g.random() < .5 else g.randrange(1001), max=g.choice([0, 1, 5, 1000]), layout=g.randrange(3), size=size(), nf=g.choice([1, 1, 2, 3]))
            if g.random() < .15:
                o.kv["over"] = str(g.choice([1, 9]))
        elif k == "buf":
            p.op(k, bytes=g.choice([1, 8, 24, 64, 100, 4096, 65536]))
        else:
            p.op(k)
    if g.random() < .5:
        for _ in range(g.choice([1, 1, 2, 4])):
            o = g.choice(p.ops)
            p.fault(o.idx, n=g.choice([0, 0, 0, 1, 1, 2, 3, 5, 9]), kinds=g.choice([K["open"], K["read"], K["write"], K["io"], K["io"], K["close"], K["dir"], K["stat"], K["mkdir"], K["rename"]]), err=g.choice([5, 28, 24]), cnt=g.choice([1, 1, 1, 2, 1000000]))
        # also in what goes on when objects go away
        if g.random() < .2:
            p.fault(999999, n=g.randrange(6), kinds=K["io"], err=5)
    if g.random() < .2:
        # what was written comes to storage, or does not
        b = g.randrange(nb)
        for _ in range(g.choice([1, 2])):
            if g.random() < .6:
                p.op("write", b=b, dt=typ(), vs=vs(), start=0 if g.random() < .4 else g.randrange(1001), len=1000, max=g.choice([1, 5, 1000]), layout=0, how=g.randrange(2), s0=g.randrange(100), s1=g.randrange(100))
            else:
                p.op("attr", b=b, what=0, name=g.randrange(5), ak=g.randrange(18), n=g.choice([1, 2, 10]), vs=vs())
        k = g.randrange(6)
        o = p.op("open", b=b, direct=g.randrange(3)) if k == 0 else p.op("append", b=b, dt=typ(), vs=vs(), size=g.choice([0, 1, 5]), nf=g.choice([1, 1, 2]), layout=0) if k == 1 else p.op("flush", b=b, how=g.randrange(3), drop=g.randrange(2))
        if g.random() < .9:
            p.fault(o.idx, n=g.choice([0, 0, 0, 1, 1, 2, 3, 4, 5, 7]), kinds=g.choice([K["open"], K["write"], K["io"], K["io"], K["close"], K["rename"]]), err=g.choice([5, 28, 24]), cnt=g.choice([1, 1, 2, 1000000]))
        if g.random() < .5:
            p.op("read", b=b, dt=typ(), vs=vs(), start=0, len=1000, max=1000, layout=0, how=g.randrange(12), s0=g.randrange(100), s1=g.randrange(100))
        if g.random() < .3:
            p.op("restart")
    if g.random() < .2:
        p.par["alias"] = "1"
    return p


# ---- P28 ---------------------------------------------------------------------------------------------------
# ---- P32 ---------------------------------------------------------------------------------------------------
class Thread(Serial):
    """a thread with a file of its own, which also reads the columns and the file that all threads share"""
    def __init__(self, plan, me, common):
        Serial.__init__(self, plan, ROOT + "/t%d" % me)
        self.me, self.common = me, common

    def op_sread(self, o):
        C = self.common
        if not C["cols"]:
            return
        c, b = C["cols"][o.i("b") % len(C["cols"])]
        start, n = self.span(o, b)
        how, size = o.i("how") % 9, b.size
        if how == 0:
            self.check_read(b, None, start, n, "shared[a:b]", lambda: c[start:start + n])
        elif how == 1 and start < size:
            self.check_read(b, None, start, 1, "shared[i]", lambda: self.scalar(b, c[start]))
        elif how == 2:
            self.check_read(b, None, 0, size, "shared[...]", lambda: c[...])
        elif how == 3:
            out = np.zeros((n,) + ((b.nm,) if b.nm != 1 else ()), b.dt)
            self.check_read(b, None, start, n, "shared read(out=)", lambda: c.read(start, n, out))
        elif how == 4:
            # a handle of its own, opened through the shared file
            ok, d = attempt("open", lambda: C["f"][b.name])
            if ok:
                self.check_read(b, None, start, n, "own[a:b]", lambda: d[start:start + n])
                self.same_attrs(b, d)
        elif how == 5:
            name = "none%d" % self.me
            ok, e = attempt("open", lambda: C["f"].open(name), (bigfile.Error,))
            m = message(e)
            if not faulted() and name not in m:
                fail("wrong-message", "opening %s fails with the text %r" % (name, m))
        elif how == 6:
            attempt("read", lambda: c.read(size + 1 + n, 1), (bigfile.Error, ValueError))
        elif how == 7:
            self.same_attrs(b, c)
        else:
            ok, l = attempt("list_blocks", lambda: C["f"].list_blocks())
            if ok:
                want = [x.name for _, x in C["cols"]]
                if [x for x in l if not x.startswith("t")] != sorted(want) or l != sorted(set(l)):
                    fail("list-wrong", "the blocks are listed as %r, expected %r" % (l, want))
                mine = set(n for n, x in self.blocks.items() if x.listed)
                there = set(x[len("t%d/" % self.me):] for x in l if x.startswith("t%d/" % self.me))
                if not mine <= there:
                    fail("list-wrong", "%r is missing in the list %r" % (sorted(mine - there), l))
        if C["cols"][0][0].size != C["cols"][0][1].size:
            fail("description-wrong", "a shared column changed its size")

    def same_attrs(self, b, c):
        at = self.read_attrs(c, "shared " + b.name)
        if not self.attrs_equal(at, b.attrs_cand[0]):
            fail("attributes-wrong", "%s has the attributes %r, expected %r" % (b.name, at, b.attrs_cand[0]))


class Common(Serial):
    """the file that the threads share; the files of the threads lie inside it"""
    def check_list(self, l, prefix=""):
        Serial.check_list(self, [n for n in l if not re.match(r"t\d/", n)], prefix)


PKG = bigfile.__file__


def tracer(frame, event, arg):
    if frame.f_code.co_filename != PKG:
        return None
    if event == "line":
        L.bfsim_yield()
    return tracer


def exec_threads(p):
    n = int(p.par["n"])
    common = dict(cols=[], f=None, done=0)
    L.bfsim_mkdirs(b"/w")
    S = Common(p)

    def first(r):
        bigfile.set_buffer_size(int(p.par.get("buf", 4096)))
        for o in p.ops:
            if o.kv.get("t") == "-1":
                S.run(o)
        set_op(999998)
        if not S.created:
            S.ensure_file()
        S.finish()
        gc.collect()
    phase(1, first)
    T = [Thread(p, t, common) for t in range(n)]

    def opening():
        set_op(999997)
        common["f"] = bigfile.File(ROOT)
        S.f = common["f"]
        for b in sorted(S.blocks.values(), key=lambda b: b.name):
            if b.exists and not b.unknown and not b.meta:
                h = S.need(b)
                if h is not None:
                    common["cols"].append((h.c, b))
                    b.h = None
        L.bfsim_flag(1)

    def threads(r):
        if r == 0:
            opening()
        else:
            L.bfsim_wait_flag(1)
        t = T[r]
        if p.par.get("lines") == "1":
            sys.settrace(tracer)
        try:
            for o in p.ops:
                if o.kv.get("t") == str(r):
                    t.run(o)
        finally:
            sys.settrace(None)
        set_op(999999)
        t.finish()
        common["done"] += 1
        if common["done"] == n:
            set_op(999996)
            common["cols"].clear()
            common["f"] = S.f = None
            gc.collect()
    phase(n, threads, True)

    def last(r):
        S.verify()
        S.finish()
        for t in T:
            t.verify()
            t.finish()
        gc.collect()
    phase(1, last)
    for x in T + [S]:
        x.__dict__.clear()


def gen_threads(prop, seed, scale):
    g = random.Random(seed * 1000003 + 32)
    src = gen_serial(prop, seed, scale)
    p = Plan(prop, seed)
    p.cfg.update(src.cfg)
    n = g.choice([2, 2, 3, 4])
    p.cfg.update(policy=g.choice([1, 1, 1, 2, 2, 3]), switch=g.choice([5, 50, 200, 500, 900]), depth=g.choice([2, 3, 5, 8]))
    p.par.update(src.par)
    p.par.update(n=n, lines=g.choice([0, 1, 1]))
    vs = lambda: g.getrandbits(40)
    for b in range(g.choice([1, 2, 3])):
        p.op("carr", t=-1, b=b, dt=g.choice(NUM), nm=g.choice([1, 1, 2, 3]), size=g.choice([1, 5, 13, 40, 90]), nf=g.choice([1, 2, 3, 7]), vs=vs(), mem=100000, layout=0)
        if g.random() < .6:
            p.op("attr", t=-1, b=b, what=0, name=g.randrange(5), ak=g.randrange(18), n=g.choice([1, 2, 10]), vs=vs())
    few = g.random() < .4
    moved = {}
    for o in src.ops:
        if o.kind in ("restart", "buf") or few and g.random() < .8:
            continue
        for _ in range(g.choice([0, 1, 1, 2])):
            x = p.op(o.kind, t=g.randrange(n), **o.kv)
            moved.setdefault(o.idx, []).append(x.idx)
        while g.random() < .6:
            p.op("sread", t=g.randrange(n), b=g.randrange(4), how=g.randrange(9), start=0 if g.random() < .4 else g.randrange(1001), len=1000 if g.random() < .5 else g.randrange(1001), max=g.choice([1, 1, 5, 40, 1000]))
    mine = [o for o in p.ops if o.kv["t"] != "-1"]
    if src.faults and mine:
        for f in src.faults:
            o = g.choice(mine)
            p.fault(o.idx, **{k: v for k, v in f.items() if k != "op"})
    return p


class Shared:
    """what the ranks leave for each other to look at; never used to synchronise them"""

    def __init__(self):
        self.res, self.out, self.value = {}, {}, {}


class Ranks(Serial):
    """one rank: every rank keeps the same model and follows the same operations"""

    def __init__(self, plan, comm, shared, blocks, created):
        self.p, self.comm, self.sh = plan, comm, shared
        self.me, self.n = comm.rank, comm.size
        self.blocks, self.created, self.f = blocks, created, None
        self.pend = []           # (block, start, rows, key, rank): written, but perhaps not seen by everybody
        self.op = None
        self.read = False        # rows were read since all ranks met

    # an operation all ranks take part in: the same outcome for all, and nobody fails without a reason
    def all(self, what, fn, invalid=None):
        self.seq += 1
        key = (self.op, self.seq, what)
        v, e = None, None
        try:
            v = fn()
        except Exception as x:
            e = x
        x = e
        while x is not None:
            x.__traceback__ = None
            x = x.__context__
        if e is not None:
            if invalid and not isinstance(e, invalid):
                fail("wrong-exception", "%s must be refused with %r, but raised %r" % (what, invalid, e))
            if not invalid and not isinstance(e, bigfile.Error):
                fail("wrong-exception", "%s raised %r" % (what, e))
            if not message(e) or message(e) == "None":
                fail("no-message", "%s failed without saying why (%r)" % (what, e))
        elif invalid:
            fail("accepted", "%s should have been refused on rank %d" % (what, self.me))
        observe((what, type(e).__name__))
        stat("call.%s.%s" % (what, "ok" if e is None else "refused" if invalid else "error"))
        r = self.sh.res.setdefault(key, {})
        r[self.me] = (e is None, faulted(), repr(e))
        if len(r) == self.n:
            if len({x[0] for x in r.values()}) > 1:
                fail("ranks-disagree", "%s: %s" % (what, ", ".join("rank %d: %s" % (k, "success" if x[0] else x[2]) for k, x in sorted(r.items()))))
            if e is not None and not invalid and not any(x[1] for x in r.values()):
                fail("invented-failure", "%s failed though nothing was wrong: %r" % (what, e))
        self.settle()
        return e is None, v if e is None else None

    def settle(self):
        """all ranks have met: what they wrote before is on storage"""
        self.read = False
        rest = []
        for b, start, rows, key, rank in self.pend:
            if (key, rank) not in self.sh.out:
                rest.append((b, start, rows, key, rank))
            elif not b.exists or b.unknown or start + len(rows) > len(b.rows):
                pass
            elif self.sh.out[key, rank]:
                b.wrote(start, rows)
            else:
                b.maybe(start, len(rows))
        self.pend = rest

    def same(self, what, v):
        """all ranks have the same value"""
        key = (self.op, self.seq, what)
        if key in self.sh.value:
            if self.sh.value[key] != v:
                fail("ranks-disagree", "%s: %r on rank %d, %r elsewhere" % (what, v, self.me, self.sh.value[key]))
        else:
            self.sh.value[key] = v

    def run(self, o):
        set_op(o.idx)
        self.op, self.seq = o.idx, 0
        if o.kind == "reopen":
            self.f = None
        if self.f is None:
            kind = bigfile.BigFileMPI if self.p.par.get("alias") == "1" else bigfile.FileMPI
            ok, f = self.all("FileMPI", lambda: kind(self.comm, ROOT, create=not self.created))
            if not ok:
                return
            self.f, self.created = f, True
            self.check_blocks(f)
        getattr(self, "op_" + o.kind)(o)

    def check_blocks(self, f, prefix=""):
        l = f.blocks
        self.same("blocks", list(l))
        self.check_list(l, prefix)

    # -- handles
    def drop(self, b):
        h = b.h
        if h is None:
            return
        if h.dirty or h.adirty:
            self.flush_block(b, h, True)
        b.h = None
        h.c = None

    def flush_block(self, b, h, close=False, how=0):
        c = h.c
        if how == 2:
            def go():
                with c:
                    pass
        else:
            go = c.close if close else c.flush
        ok, e = self.all("close" if close else "flush", go)
        del c, go
        self.flushed(b, h, ok)
        if ok:
            h.lattrs = dict(h.attrs)
            self.described(b, h)
        else:
            # what the ranks hold now is of no use
            b.h = None
            h.c = None
        return ok

    def described(self, b, h):
        c = h.c
        self.same("description", (c.size, c.Nfile, c.dtype.str, c.dtype.shape))
        at = self.read_attrs(c, b.name)
        self.same("attributes", sorted((k, repr(v)) for k, v in at.items()))
        if not self.attrs_equal(at, h.attrs):
            fail("attributes-wrong", "rank %d has the attributes %r of %s, expected %r" % (self.me, at, b.name, {k: attr_expected(v) for k, v in h.attrs.items()}))
        if not b.meta and (c.size != sum(h.sizes) or c.Nfile != len(h.sizes) or c.dtype != b.np_dtype()):
            fail("description-wrong", "rank %d sees %s as %r x %d in %d files, expected %r %r" % (self.me, b.name, c.dtype, c.size, c.Nfile, b.np_dtype(), h.sizes))

    def opened(self, b, col):
        h = Serial.opened(self, b, col)
        h.lattrs = dict(h.attrs)
        self.described(b, h) if not b.meta else None
        return h

    def need(self, b, create=None):
        if not b.exists or b.unknown:
            return None
        if b.h is None:
            f = self.f
            ok, c = self.all("open", lambda: f[b.name])
            if not ok:
                return None
            b.h = self.opened(b, c)
        return b.h

    # -- operations
    def op_reopen(self, o):
        if o.i("bad") and self.n > 1:
            w = o.i("bad") % self.n
            self.all("FileMPI", lambda: bigfile.FileMPI(self.comm, ROOT + ("2" if self.me == w else ""), create=bool(o.i("cr"))), (bigfile.Error,))
        if o.i("miss"):
            self.all("FileMPI", lambda: bigfile.FileMPI(self.comm, ROOT + "-none"), (bigfile.Error,))
            if exists(ROOT + "-none"):
                fail("created", "opening a file that is not there created it")
        if o.i("sub") and self.f is not None and any(self.blocks[n].exists and not self.blocks[n].unknown for n in ("g/z", "g/h/w")):
            f = self.f
            ok, g = self.all("subfile", lambda: subfile(f, o.i("sub")))
            if not ok:
                return
            self.check_blocks(g, "g/")
            b = self.blocks["g/z"]
            if b.exists and not b.unknown and b.listed and b.h is None:
                ok, c = self.all("open", lambda: g["z"])
                if ok:
                    h = self.opened(b, c)
                    self.read = True
                    self.check_read(b, h, 0, min(b.size, 5), "subfile read")

    def op_list(self, o):
        f = self.f
        ok, e = self.all("refresh", lambda: f.refresh())
        if ok:
            self.check_blocks(f)
            if f.keys() != f.blocks or list(f) != list(f.blocks) or [n for n in NAMES if n in f] != [n for n in NAMES if n in f.blocks]:
                fail("list-wrong", "the list of blocks is %r in one way and %r in another" % (f.blocks, f.keys()))

    def op_create(self, o):
        b = self.pick(o)
        self.drop(b)
        dt, nm, size, nf = np.dtype(o.s("dt")), o.i("nm", 1), o.i("size"), o.i("nf", 1)
        bad, inv = o.s("bad"), None
        if bad == "nf":
            nf, inv = -1, (ValueError, bigfile.Error)
        elif bad == "size":
            nf, size, inv = max(nf, 1), -1 - size, (ValueError, bigfile.Error)
        elif bad == "nf0":
            nf, size, inv = 0, max(size, 1), (ValueError, bigfile.Error)
        elif bad == "name" and self.n > 1:
            nf, inv = max(nf, 1), (bigfile.Error,)
        if nf == 0 and not inv:
            size = 0
        d = dt if nm == 1 else np.dtype((dt, (nm,)))
        name = b.name
        if bad == "name" and self.n > 1 and self.me == o.i("vs") % self.n:
            name = "other"
        if not inv:
            b.exists, b.unknown, b.listed = True, True, None
        f = self.f
        ok, c = self.all("create", lambda: f.create(name, d, size, nf), inv)
        if not ok:
            return
        b.create(dt, nm, [(i + 1) * size // nf - i * size // nf for i in range(nf)])
        b.h = self.opened(b, c)
        self.check_blocks(f)

    def op_open(self, o):
        b = self.pick(o)
        f = self.f
        if o.i("bad") and self.n > 1:
            other = [x.name for x in self.blocks.values() if x.exists and not x.unknown and x is not b] + ["other"]
            name = b.name if self.me == o.i("bad") % self.n else other[0]
            self.all("open", lambda: f.open(name), (bigfile.Error,))
            return
        if not b.exists:
            self.all("open", lambda: f.open(b.name), (bigfile.Error,))
            return
        if b.unknown:
            return
        self.drop(b)
        if o.i("direct") and not b.meta:
            c = bigfile.BigBlockMPI(self.comm)
            ok, e = self.all("open", lambda: c.open(f, b.name))
            if ok:
                b.h = self.opened(b, c)
            return
        self.need(b)

    def shares(self, o, start, n):
        """[start, start+n) cut into one piece for every rank, some of them empty"""
        g = random.Random(o.i("cut"))
        k = g.randrange(4)
        if k == 0:
            c = [i * n // self.n for i in range(self.n + 1)]
        elif k == 1:
            w = g.randrange(self.n)
            c = [0] * (w + 1) + [n] * (self.n - w)
        else:
            c = [0] + sorted(g.randint(0, n) for _ in range(self.n - 1)) + [n]
        return [(start + c[i], c[i + 1] - c[i]) for i in range(self.n)]

    def part(self, o, b, n, rank):
        q = Op(o.idx, o.kind, dict(o.kv, vs=str(o.i("vs") + rank)))
        return self.array(q, b, n)

    def op_carr(self, o):
        b = self.pick(o)
        self.drop(b)
        dt, nm, n = np.dtype(o.s("dt")), o.i("nm", 1), o.i("size")
        sh = self.shares(o, 0, n)
        parts = [values(o.i("vs") + r, (k, nm) if nm != 1 else (k,), dt, dt) for r, (s, k) in enumerate(sh)]
        v, own = layout(parts[self.me], o.i("layout"), 0)
        before = own.tobytes()
        nf, kw = o.i("nf", -1), {}
        if nf >= 0:
            nf = max(nf, 1) if n else nf
            kw["Nfile"] = nf
        else:
            nf = 1 if n else 0
        if o.i("mem"):
            kw["memorylimit"] = o.i("mem")
        b.exists, b.unknown, b.listed = True, True, None
        f = self.f
        ok, c = self.all("create_from_array", lambda: f.create_from_array(b.name, v, **kw))
        if own.tobytes() != before:
            fail("source-changed", "create_from_array changed the caller's array")
        if not ok:
            return
        b.create(dt, nm, [(i + 1) * n // nf - i * n // nf for i in range(nf)])
        b.wrote(0, np.concatenate([x.reshape(len(x), nm) for x in parts]).astype(dt))
        b.h = self.opened(b, c)
        self.check_blocks(f)

    def op_write(self, o):
        b = self.pick(o)
        h = self.need(b)
        if h is None:
            return
        start, n = self.span(o, b)
        sh = self.shares(o, start, n)
        for x, s, rows, key, rank in self.pend:
            if x is b and any(r != rank and s < a + k and a < s + len(rows) for r, (a, k) in enumerate(sh)):
                if not self.flush_block(b, h):
                    return
                break
        h.dirty = True
        if self.read:         # not while others are still reading
            self.comm.barrier()
            self.settle()
        for r, (s, k) in enumerate(sh):
            self.pend.append((b, s, self.part(o, b, k, r)[2], o.idx, r))
        s, k = sh[self.me]
        v, own, rows = self.part(o, b, k, self.me)
        before, c = own.tobytes(), h.c
        if o.i("how"):
            ok, e = attempt("setitem", lambda: c.__setitem__(slice(s, s + k), v))
        else:
            ok, e = attempt("write", lambda: c.write(s, v))
        if own.tobytes() != before:
            fail("source-changed", "writing to %s changed the caller's array" % b.name)
        self.sh.out[o.idx, self.me] = ok
        stat("rows_written", k if ok else 0)

    def check_read(self, b, h, start, n, what, fn=None):
        # rows that other ranks may be writing
        keep = None
        for x, s, rows, key, rank in self.pend:
            if x is b and s < start + n and start < s + len(rows):
                keep = b.state.copy() if keep is None else keep
                b.state[s:s + len(rows)] = 3
        state = b.state
        try:
            return Serial.check_read(self, b, h, start, n, what, fn)
        finally:
            if keep is not None:
                b.state = keep

    def op_read(self, o):
        b = self.pick(o)
        h = self.need(b)
        if h is None:
            return
        # every rank its own piece
        self.read = True
        q = Op(o.idx, o.kind, dict(o.kv))
        g = random.Random(o.i("vs") + self.me)
        if g.random() < .7:
            q.kv.update(start=str(g.randrange(1001)), len=str(g.choice([1000, g.randrange(1001)])), how=str(g.randrange(9)), s0=str(g.randrange(100)), s1=str(g.randrange(100)), layout=str(g.randrange(8)))
        Serial.op_read(self, q)

    def op_attr(self, o):
        b = self.pick(o)
        h = self.need(b)
        if h is not None:
            self.attr_mpi(b, h, o)

    def attr_mpi(self, b, h, o):
        a = h.c.attrs
        name = ["a", "Time", "unit", "\u00e9", "b.c"][o.i("name") % 5]
        who = o.i("who")             # 0 all ranks, 1 the root, 2 all the others
        mine = who == 0 or (who == 1) == (self.me == 0)
        if o.i("what") <= 3:
            val, stored = attr_value(o)
            if mine:
                attempt("setattr", lambda: a.__setitem__(name, val))
                h.lattrs[name] = stored
            if who <= 1:
                h.attrs[name] = stored
        else:
            if o.i("n") % 2 and h.attrs:
                name = sorted(h.attrs)[o.i("name") % len(h.attrs)]
            if mine and name in h.lattrs:
                attempt("delattr", lambda: a.__delitem__(name))
                del h.lattrs[name]
            if who <= 1:
                h.attrs.pop(name, None)
        h.adirty = True
        got = self.read_attrs(h.c, b.name)
        if not self.attrs_equal(got, h.lattrs):
            fail("attributes-wrong", "the attributes of %s on rank %d are %r, expected %r" % (b.name, self.me, got, {k: attr_expected(v) for k, v in h.lattrs.items()}))

    def op_meta(self, o):
        b = self.blocks["m"]
        f = self.f
        if b.h is None:
            if not b.exists or b.unknown or o.i("again"):
                b.exists, b.unknown, b.meta, b.listed = True, True, True, None
                ok, c = self.all("create", lambda: f.create("m"))
                if not ok:
                    return
                b.unknown, b.attrs_cand = False, [{}]
            else:
                ok, c = self.all("open", lambda: f.open("m"))
                if not ok:
                    return
            b.h = self.opened(b, c)
            del c
        self.attr_mpi(b, b.h, o)
        if o.i("drop"):
            self.drop(b)

    def op_flush(self, o):
        b = self.pick(o)
        h = b.h
        if h is None:
            return
        how = o.i("how")
        if self.flush_block(b, h, how == 1, how) and (how == 1 or o.i("drop")):
            b.h = None
            h.c = None

    def op_drop(self, o):
        self.drop(self.pick(o))

    def op_dset(self, o):
        names = []
        for i in o.l("bs"):
            b = self.blocks[NAMES[i % (len(NAMES) - 2)]]
            if b.exists and not b.unknown and b.name not in names and (not names or b.size == self.blocks[names[0]].size) and len(b.sizes_cand) == 1:
                names.append(b.name)
        if not names:
            return
        for n in names:
            self.drop(self.blocks[n])
        f, bs = self.f, [self.blocks[n] for n in names]
        ok, d = self.all("Dataset", lambda: bigfile.Dataset(f, names))
        if not ok:
            return
        size = bs[0].size
        if d.size != size or list(d.dtype.names) != names:
            fail("dataset-wrong", "the dataset of %r has size %r, type %r; expected %d rows" % (names, d.size, d.dtype, size))
        g = random.Random(o.i("vs") + self.me)
        self.read = True
        start = g.randint(0, size)
        n = g.randint(0, size - start)
        sure = all(np.isin(b.state[start:start + n], (1, 2)).all() for b in bs) and not self.pend
        ok, r = attempt("dataset.read", lambda: d[start:start + n], valid=sure)
        if ok:
            for b in bs:
                got = np.ascontiguousarray(r[b.name]).reshape(n, b.nm)
                for i in range(n):
                    if sure and b.state[start + i] == 1 and got[i].tobytes() != b.rows[start + i].tobytes():
                        fail("read-wrong", "record %d has %s = %r, expected %r" % (start + i, b.name, got[i], b.rows[start + i]))
            stat("records_read", n)

    def op_check(self, o):
        """everything is flushed: look at the files while nobody changes them"""
        for b in self.blocks.values():
            if b.h is not None and (b.h.dirty or b.h.adirty):
                self.flush_block(b, b.h)
        self.comm.barrier()
        self.settle()
        if self.me == 0:
            for b in self.blocks.values():
                b.check_disk()
        self.comm.barrier()

    def op_buf(self, o):
        pass

    def finish(self):
        self.op, self.seq = 999999, 0
        for b in self.blocks.values():
            self.drop(b)
        self.comm.barrier()
        self.settle()
        self.f = None


def copy_blocks(blocks):
    r = {}
    for n, b in blocks.items():
        c = Blk(n)
        for k, v in b.__dict__.items():
            setattr(c, k, v.copy() if isinstance(v, (np.ndarray, list, dict)) else v)
        c.h = None
        r[n] = c
    return r


def exec_mpi(p):
    base, created = Serial(p).blocks, False
    parts = [[int(p.par.get("n", 2)), []]]
    for o in p.ops:
        if o.kind == "restart":
            parts.append([o.i("n", 2), []])
        else:
            parts[-1][1].append(o)
    L.bfsim_mkdirs(b"/w")
    for n, ops in parts:
        n = max(n, 1)
        sh = Shared()
        bigfile.set_buffer_size(int(p.par.get("buf", 4096)))
        ranks = [Ranks(p, Comm(r, n), sh, copy_blocks(base), created) for r in range(n)]

        def body(r):
            R = ranks[r]
            for o in ops:
                R.run(o)
            set_op(999999)
            R.finish()
            gc.collect()
        phase(n, body)
        base, created = copy_blocks(ranks[0].blocks), ranks[0].created
        for r in ranks[1:]:
            for name, b in r.blocks.items():
                c = base[name]
                if b.exists != c.exists or b.unknown != c.unknown:
                    fail("harness-error", "the ranks' models of %s are different" % name)
        ranks.clear()
    S = Serial(p)
    S.blocks, S.created = base, created

    def last(r):
        S.verify()
        S.finish()
        gc.collect()
    phase(1, last)


def gen_mpi(prop, seed, scale):
    g = random.Random(seed * 1000003 + 28)
    p = Plan(prop, seed)
    p.cfg.update(sseed=g.getrandbits(63), mseed=g.getrandbits(63), ioseed=g.getrandbits(63), policy=g.choice([0, 0, 1, 2]), switch=g.choice([5, 50, 200, 500, 1000]), depth=g.choice([1, 2, 3, 5]), weak=g.choice([0, 500, 1000]))
    if g.random() < .3:
        p.cfg["shortio"] = g.randrange(500)
    n = g.choice([1, 2, 2, 3, 3, 4, 5, 6])
    p.par.update(n=n, buf=g.choice([8, 64, 100, 4096, 65536]))
    typ = lambda: g.choice(NUM if g.random() < .8 else RARE)
    size = lambda: g.choice([0, 1, 2, 3, 5, 8, 13, 20, 33])
    vs = lambda: g.getrandbits(40)
    nb = g.choice([1, 2, 2, 3])
    w = dict(create=4, carr=4, open=3, read=8, write=9, attr=5, flush=6, drop=1, list=2, reopen=2, dset=3, meta=2, check=4, restart=1)
    for k in list(w):
        if g.random() < .2:
            w[k] = 0
    kinds = [k for k in w if w[k]] or ["write"]
    n0, same = size(), g.random() < .5
    create = lambda b: p.op("create", b=b, dt=typ(), nm=g.choice([1, 1, 2, 3]), size=n0 if same else size(), nf=g.choice([0, 1, 1, 2, 3, 7]), vs=vs())
    carr = lambda b: p.op("carr", b=b, dt=typ(), nm=g.choice([1, 1, 2, 3]), size=n0 if same else size() * g.choice([1, 1, 1, 100 if p.par["buf"] >= 64 else 2]), nf=g.choice([-1, 1, 2, 3, 7]), vs=vs(), cut=vs(), mem=g.choice([0, 1, 100, 100000]), layout=g.randrange(8))
    write = lambda b: p.op("write", b=b, dt=typ(), vs=vs(), cut=vs(), start=0 if g.random() < .5 else g.randrange(1001), len=1000 if g.random() < .5 else g.randrange(1001), max=g.choice([1, 5, 40, 1000, 1000]), layout=g.randrange(8), how=g.randrange(2))
    for b in range(nb):
        if g.random() < .5:
            carr(b)
        else:
            create(b)
            write(b)
    for _ in range(g.randrange(3, 16 + 12 * scale)):
        k = g.choices(kinds, [w[x] for x in kinds])[0]
        b = g.randrange(nb)
        if k == "create":
            o = create(b)
            if g.random() < .25:
                o.kv["bad"] = g.choice(["nf", "nf0", "name", "name", "size"])
        elif k == "carr":
            carr(b)
        elif k == "write":
            o = write(b)
            if g.random() < .2:
                o.kv["be"] = "1"
            if g.random() < .2:
                o.kv["two"] = "1"
        elif k == "read":
            p.op(k, b=b, dt=typ(), vs=vs(), start=0 if g.random() < .4 else g.randrange(1001), len=1000 if g.random() < .5 else g.randrange(1001), max=g.choice([1, 5, 40, 1000]), layout=g.randrange(8), how=g.randrange(9), s0=g.randrange(100), s1=g.randrange(100))
        elif k in ("attr", "meta"):
            o = p.op(k, b=b, what=g.randrange(6), name=g.randrange(5), ak=g.randrange(18), n=g.choice([0, 1, 1, 2, 3, 10, 100]), vs=vs(), who=g.choice([0, 0, 0, 1, 2]))
            if k == "meta":
                o.kv.update(drop=str(g.randrange(2)), again=str(int(g.random() < .1)))
        elif k == "flush":
            p.op(k, b=b, how=g.randrange(3), drop=g.randrange(2))
        elif k == "open":
            o = p.op(k, b=g.randrange(4), direct=g.randrange(2))
            if g.random() < .2:
                o.kv["bad"] = str(g.randrange(1, 100))
        elif k == "reopen":
            o = p.op(k, sub=g.randrange(5), miss=g.randrange(2))
            if g.random() < .3:
                o.kv.update(bad=str(g.randrange(1, 100)), cr=str(g.randrange(2)))
        elif k == "dset":
            p.op(k, bs=[g.randrange(4) for _ in range(3)], vs=vs())
        elif k == "restart":
            p.op(k, n=g.choice([1, 2, 3, 4, n]))
        else:
            p.op(k, b=b)
    if g.random() < .6:
        for _ in range(g.choice([1, 1, 2, 4])):
            o = g.choice(p.ops)
            p.fault(o.idx if g.random() < .97 else 999999, task=g.choice([-1, 0, 0, g.randrange(n), g.randrange(n)]), n=g.choice([0, 0, 0, 1, 1, 2, 3, 5, 9]), kinds=g.choice([K["open"], K["open"], K["read"], K["write"], K["io"], K["io"], K["close"], K["dir"], K["stat"], K["mkdir"], K["rename"]]), err=g.choice([5, 28, 24]), cnt=g.choice([1, 1, 1, 2, 1000000]))
    if g.random() < .2:
        p.par["alias"] = "1"
    return p


# ---- huge blocks: more rows and bytes than 32 bits can count ------------------------------------------------
# Storage keeps only what was written, and so does the model. All ranks (or the one process) follow the same
# operations, nothing fails.
HROOT = "/w/huge"
HUGE = .1      # the part of the runs that uses huge blocks
HMAX = 50 * 10**9
HDATA = ["d0", "d1", "d2"]


def pages(p):
    n = ctypes.c_size_t()
    a = L.bfsim_pages(p.encode(), ctypes.byref(n))
    b = ctypes.string_at(a, n.value) if n.value else b""
    return int.from_bytes(b[:8], "little"), {int.from_bytes(b[i:i + 8], "little"): b[i + 8:i + 520] for i in range(8, len(b), 520)}


class HBlk:
    def __init__(self, name):
        self.name, self.path, self.exists, self.c, self.dirty = name, HROOT + "/" + name, False, None, False

    def create(self, dt, nm, sizes):
        self.exists, self.dt, self.nm, self.item = True, dt, nm, dt.itemsize * nm
        self.sizes, self.rows, self.len, self.sums, self.twice = [], {}, [], [], []
        self.grow(sizes)

    def grow(self, sizes):
        self.sizes = self.sizes + sizes
        self.starts = [sum(self.sizes[:i]) for i in range(len(self.sizes))]
        for x in (self.len, self.sums, self.twice):
            x += [0] * len(sizes)

    @property
    def size(self):
        return sum(self.sizes)

    def np_dtype(self):
        return np.dtype((self.dt, (self.nm,))) if self.nm != 1 else self.dt

    def at(self, row):
        """(file, row in the file)"""
        import bisect
        i = bisect.bisect_right(self.starts, row) - 1
        while row >= self.starts[i] + self.sizes[i]:
            i -= 1
        return i, row - self.starts[i]

    def wrote(self, start, a):
        a = np.ascontiguousarray(a).reshape(-1, self.nm)
        assert a.dtype == self.dt
        for k in range(len(a)):
            f, r = self.at(start + k)
            b = a[k].tobytes()
            if start + k in self.rows:
                self.twice[f] = 1
            self.rows[start + k] = b
            self.sums[f] = (self.sums[f] + sysv(b)) & 0xffffffff
            self.len[f] = max(self.len[f], r + 1)

    def readable(self, start, n):
        for k in range(start, start + n):
            f, r = self.at(k)
            if r >= self.len[f]:
                return False
        return True

    def same(self, what, start, n, got):
        got = np.asarray(got)
        if got.size != n * self.nm:
            fail("read-wrong", "%s of %s: %d rows at %d came back as %r" % (what, self.name, n, start, got.shape))
        got = np.ascontiguousarray(got).astype(self.dt).reshape(n, self.nm)
        for k in range(n):
            want = self.rows.get(start + k, bytes(self.item))
            if got[k].tobytes() != want:
                fail("read-wrong", "%s of %s (%d rows): row %d is %s, expected %s" % (what, self.name, self.size, start + k, got[k].tobytes().hex(), want.hex()))

    def check_disk(self):
        try:
            dt, nm, sizes, sums = decode_header(content(self.path + "/header"))
        except Exception as e:
            fail("header-unreadable", "%s/header: %r %r" % (self.path, e, content(self.path + "/header")[:300]))
        if dt != attr_disk((self.dt.str, 1, b""))[0] or nm != self.nm or sizes != self.sizes:
            fail("header-wrong", "the header of %s says %s x %d %r, expected %s x %d %r" % (self.name, dt, nm, sizes, self.dt.str, self.nm, self.sizes))
        if not self.dirty:
            for i, s in enumerate(sums):
                if not self.twice[i] and s != self.sums[i]:
                    fail("checksum-wrong", "%s/%06X: the header says %d, the bytes add up to %d" % (self.path, i, s, self.sums[i]))
                stat("huge.checksums")
        want = {}
        for k, b in self.rows.items():
            f, r = self.at(k)
            o = r * self.item
            for x in b:
                if x:
                    want.setdefault((f, o // 512), bytearray(512))[o % 512] = x
                o += 1
        seen = 0
        for i, n in enumerate(self.sizes):
            size, pg = pages("%s/%06X" % (self.path, i)) if exists("%s/%06X" % (self.path, i)) else (0, {})
            if size != self.len[i] * self.item:
                fail("storage-wrong", "%s/%06X has %d bytes, expected %d rows of %d" % (self.path, i, size, self.len[i], self.item))
            for j, b in pg.items():
                w = want.get((i, j))
                if w is None:
                    if any(b):
                        fail("storage-wrong", "%s/%06X: there are bytes near %d where nothing was written" % (self.path, i, j * 512))
                    continue
                seen += 1
                if b != bytes(w):
                    fail("storage-wrong", "%s/%06X: the bytes near %d are %s, expected %s" % (self.path, i, j * 512, b.hex(), bytes(w).hex()))
        if seen != len(want):
            fail("rows-lost", "%s: rows that were written are not on storage" % self.path)


class Huge:
    def __init__(self, plan, comm, blocks):
        self.p, self.comm, self.blocks = plan, comm, blocks
        self.me, self.n = (comm.rank, comm.size) if comm else (0, 1)
        self.f = None

    def meet(self):
        if self.comm:
            self.comm.barrier()

    def start(self, created):
        if self.comm:
            self.f = attempt("FileMPI", lambda: bigfile.FileMPI(self.comm, HROOT, create=not created))[1]
        else:
            self.f = attempt("File", lambda: bigfile.File(HROOT, create=not created))[1]

    def described(self, b):
        c = b.c
        if c.size != b.size or c.Nfile != len(b.sizes) or c.dtype != b.np_dtype():
            fail("description-wrong", "%s is %r x %d in %d files, expected %r x %d in %d" % (b.name, c.dtype, c.size, c.Nfile, b.np_dtype(), b.size, len(b.sizes)))

    def need(self, b):
        if b.c is None:
            b.c = attempt("open", lambda: self.f[b.name])[1]
            self.described(b)
        return b.c

    def close(self, b, how=0):
        if b.c is None:
            return
        c = b.c
        if b.dirty or how:
            attempt("close", c.close)
        del c
        b.dirty, b.c = False, None

    def place(self, o, b, n):
        """where n rows start"""
        at, item = o.i("at"), b.item
        A = [0, b.size, 2**31, 2**32, 2**31 // item, 2**32 // item, b.size // 2]
        i = at % (len(A) + 3)
        if i < len(A):
            a = A[i]
        elif i == len(A):
            a = b.starts[o.i("s") % len(b.starts)]
            a += [0, 2**31 // item, 2**32 // item, 2**31, 2**32][o.i("s1") % 5]
        elif i == len(A) + 1 and b.rows:
            k = sorted(b.rows)
            a = k[o.i("s") % len(k)]
        else:
            a = o.i("s") % (b.size + 1)
        return max(0, min(a + o.i("off") - n // 2, b.size - n))

    def op_create(self, o, b):
        self.close(b)
        d, size, nf = np.dtype(o.s("dt")), o.i("size"), o.i("nf")
        b.create(d, o.i("nm"), [(i + 1) * size // nf - i * size // nf for i in range(nf)])
        if o.i("by"):
            b.c = (bigfile.Column if not self.comm else lambda: bigfile.ColumnMPI(self.comm))()
            attempt("create", lambda: b.c.create(self.f, b.name, b.np_dtype(), size, nf))
            if self.comm:
                self.f.refresh()
        else:
            b.c = attempt("create", lambda: self.f.create(b.name, b.np_dtype(), size, nf))[1]
        self.described(b)
        if not self.comm and o.i("by"):      # (the list is as old as the object)
            self.close(b, 1)
            self.start(True)
            self.need(b)

    def op_write(self, o, b):
        c, n = self.need(b), min(o.i("len"), b.size)
        start = self.place(o, b, n)
        src = np.dtype(o.s("dt"))
        if not convertible(b.dt, src):
            src = b.dt
        v = values(o.i("vs"), (n, b.nm), src, b.dt)
        cut = [n * i // self.n for i in range(self.n + 1)]
        s, e = start + cut[self.me], start + cut[self.me + 1]
        a, owner = layout(v[cut[self.me]:cut[self.me + 1]] if b.nm != 1 else v[cut[self.me]:cut[self.me + 1], 0], o.i("layout"), 0)
        how = o.i("how") % 4
        if how == 0 or src != b.dt:
            attempt("write", lambda: c.write(s, a))
        elif how == 1:
            attempt("write", lambda: c.__setitem__(slice(s, e), a))
        elif how == 2 and s < e:
            attempt("write", lambda: c.__setitem__(slice(s - b.size, e - b.size or None), a))
        else:
            attempt("write", lambda: c.__setitem__(slice(s, e, 1), a))
        b.wrote(start, v.astype(b.dt))
        b.dirty = b.dirty or n > 0
        stat("huge.rows_written", n)

    def window(self, o, b, n):
        """rows at which something can be read"""
        for k in range(6):
            start = self.place(o, b, n)
            if b.readable(start, n):
                return start
            o = Op(o.idx, o.kind, dict(o.kv, at=str(8), s=str(o.i("s") + 17 * k + self.me), off=str(n // 2 - k % 3)))
        return None

    def op_read(self, o, b):
        c, n = self.need(b), min(o.i("len"), b.size)
        how, N = o.i("how") % 10, b.size
        s = self.window(o, b, n)
        if s is None or n == 0:
            return
        e = s + n
        if how == 9:
            attempt("read", lambda: c[s:e:2], (ValueError,)) if n > 1 else None
            attempt("read", lambda: c.read(N + 1 + o.i("s"), 1), (bigfile.Error, ValueError))
            return
        if how >= 5 and not b.readable(s, 1):
            return
        if how in (6, 7) and N - s > 4000 or how == 8 and N - s > 4000:
            how = 0
        if how in (6, 7, 8):
            e = N
            if not b.readable(s, N - s):
                return
        if how == 5:
            e = s + 1
        go = [lambda: c.read(s, n), lambda: c[s:e], lambda: c[s - N:e - N or None], lambda: c[s - N:e], lambda: c.read(s, n, np.zeros((n,) + c.dtype.shape, b.dt)),
              lambda: c[s if o.i("s1") % 2 else s - N], lambda: c[s:N + 1 + o.i("s1")], lambda: c.read(s, -1), lambda: c.read(s, 2**62)][how]
        b.same("read (form %d)" % how, s, e - s, attempt("read", go)[1])
        stat("huge.rows_read", e - s)

    def op_append(self, o, b):
        if self.comm or len(b.sizes) > 400 or b.size + o.i("len") > HMAX + 10**9:
            return
        c, n, nf, old = self.need(b), o.i("len"), o.i("nf"), b.size
        v = values(o.i("vs"), (n, b.nm), b.dt, b.dt)
        attempt("append", lambda: c.append(v if b.nm != 1 else v[:, 0], nf))
        b.grow([(i + 1) * n // nf - i * n // nf for i in range(nf)])
        b.wrote(old, v)
        b.dirty = n > 0
        self.described(b)

    def op_flush(self, o, b):
        if b.c is None:
            return
        c = b.c
        attempt("flush", c.flush)
        b.dirty = False
        self.described(b)

    def op_close(self, o, b):
        self.close(b, 1)
        self.need(b)

    def op_reopen(self, o, b):
        for x in self.blocks.values():
            self.close(x)
        self.f = None
        self.start(True)
        want = sorted(x.name for x in self.blocks.values() if x.exists)
        if list(self.f.blocks) != want:
            fail("list-wrong", "the blocks are %r, expected %r" % (list(self.f.blocks), want))

    def op_pickle(self, o, b):
        if self.comm:
            return
        c = self.need(b)
        d = attempt("pickle", lambda: pickle.loads(pickle.dumps(c, o.i("proto"))))[1]
        old, b.c = b.c, d
        self.described(b)
        s = self.window(o, b, 1)
        if s is not None:
            b.same("read through a copy", s, 1, attempt("read", lambda: d.read(s, 1))[1])
        b.c = old

    def op_dset(self, o, b):
        bs = [x for x in self.blocks.values() if x.exists and x.size == b.size]
        bs = bs[o.i("s1") % len(bs):] + bs[:o.i("s1") % len(bs)]
        for x in bs:
            self.close(x)
        self.meet()
        d = attempt("Dataset", lambda: bigfile.Dataset(self.f, [x.name for x in bs]))[1]
        N = b.size
        if d.size != N or d.shape != (N,):
            fail("dataset-wrong", "the dataset has %r rows, expected %d" % (d.size, N))
        n, how = min(o.i("len"), N), o.i("how") % 8
        if self.comm and how % 5 == 4:       # (opens the column, which all ranks would have to do)
            how = 1
        if how >= 5 and not self.comm:
            a = np.zeros(n, d.dtype)
            vs = [values(o.i("vs") + i, (n, x.nm), x.dt, x.dt) for i, x in enumerate(bs)]
            for x, v in zip(bs, vs):
                a[x.name] = v if x.nm != 1 else v[:, 0]
            if how == 7 and all(len(x.sizes) < 400 and x.size < HMAX + 10**9 for x in bs):
                nf = o.i("nf")
                attempt("dataset.append", lambda: d.append(a, nf))
                for x, v in zip(bs, vs):
                    x.grow([(i + 1) * n // nf - i * n // nf for i in range(nf)])
                    x.wrote(N, v)
                if d.size != N + n:
                    fail("dataset-wrong", "after an append the dataset has %d rows, expected %d" % (d.size, N + n))
                return
            s = self.place(o, b, n)
            if how == 5:
                attempt("dataset.write", lambda: d.write(s, a))
            else:
                attempt("dataset.write", lambda: d.__setitem__(slice(s, s + n) if o.i("s") % 2 or not n else slice(s - N, s + n - N or None), a))
            for x, v in zip(bs, vs):
                x.wrote(s, v)
            return
        s = self.window(o, b, n)
        if s is None or n == 0 or not all(x.readable(s, n) for x in bs):
            return
        r = attempt("dataset.read", [lambda: d.read(s, n), lambda: d[s:s + n], lambda: d[s - N:s + n - N or None], lambda: d[s], lambda: d[bs[0].name][s:s + n]][how % 5])[1]
        for x in bs[:1] if how % 5 == 4 else bs:
            x.same("dataset read (form %d)" % (how % 5), s, 1 if how % 5 == 3 else n, r if how % 5 == 4 else r[x.name])
        stat("huge.records_read", n)

    def op_auto(self, o, b):
        """a file for every 32 Mi rows"""
        if self.comm:
            return
        n = 32 * 1024 * 1024 * o.i("s1") + o.i("off")
        if n <= 0:
            return
        self.close(b)
        a = np.zeros(n, "u1")
        v = np.random.Generator(np.random.PCG64(o.i("vs"))).integers(0, 256, 3000, dtype=np.uint8)
        a[:1000], a[n // 2:n // 2 + 1000], a[-1000:] = v[:1000], v[1000:2000], v[2000:]
        bigfile.set_buffer_size(1 << 22)
        b.c = attempt("create_from_array", lambda: self.f.create_from_array(b.name, a, memorylimit=[1 << 30, 1 << 25, 1 << 24][o.i("s") % 3]))[1]
        bigfile.set_buffer_size(int(self.p.par.get("buf", 4096)))
        nf = -(-n // (32 * 1024 * 1024))
        b.create(np.dtype("|u1"), 1, [(i + 1) * n // nf - i * n // nf for i in range(nf)])
        self.described(b)
        for s in (0, n // 2, n - 1000):
            b.wrote(s, a[s:s + 1000])
        b.len = list(b.sizes)
        for s in (0, n // 2, n - 1000):
            b.same("read", s, 1000, attempt("read", lambda: b.c[s:s + 1000])[1])
        stat("huge.auto")

    def run(self, o):
        set_op(o.idx)
        b = self.blocks[HDATA[o.i("b") % 3]]
        if o.kind not in ("create", "auto") and not b.exists:
            return
        getattr(self, "op_" + o.kind)(o, b)
        for x in self.blocks.values():
            if x.exists and x.c is not None and o.kind != "reopen":
                self.described(x)
        self.meet()
        if self.me == 0:
            for x in self.blocks.values():
                if x.exists:
                    x.check_disk()
        self.meet()

    def finish(self):
        set_op(999999)
        for b in self.blocks.values():
            self.close(b)
        self.meet()
        if self.me == 0:
            for b in self.blocks.values():
                if b.exists:
                    b.check_disk()
        self.meet()
        self.f = None


def exec_huge(p):
    parts = [[]]
    for o in p.ops:
        if o.kind == "restart":
            parts.append([])
        else:
            parts[-1].append(o)
    L.bfsim_mkdirs(b"/w")
    n = int(p.par["n"])
    bigfile.set_buffer_size(int(p.par.get("buf", 4096)))
    state = [{x: HBlk(x) for x in HDATA} for r in range(max(n, 1))]
    for i, ops in enumerate(parts):
        def body(r):
            R = Huge(p, Comm(r, n) if n else None, state[r])
            R.start(i > 0)
            for o in ops:
                R.run(o)
            R.finish()
            R.__dict__.clear()
            gc.collect()
        phase(max(n, 1), body)
    state.clear()


def gen_huge(prop, seed, scale, g):
    p = Plan(prop, seed)
    p.cfg.update(sseed=g.getrandbits(63), mseed=g.getrandbits(63), ioseed=g.getrandbits(63))
    n = 0 if prop == "P27" else g.choice([1, 2, 2, 3, 4])
    if n:
        p.cfg.update(policy=g.choice([0, 0, 1, 2]), switch=g.choice([5, 50, 200, 500, 1000]), depth=g.choice([1, 2, 3, 5]), weak=g.choice([0, 500, 1000]))
    if g.random() < .3:
        p.cfg["shortio"] = g.randrange(500)
    p.par.update(huge=1, n=n, buf=g.choice([8, 24, 64, 100, 4096, 65536]))
    typ = lambda: g.choice(NUM if g.random() < .9 else RARE)
    sizes = [2**31 - 1, 2**31, 2**31 + 5, 2**32 - 1, 2**32, 2**32 + 3, 2**30, 3 * 10**9, 2**33 + 1, 10**10, HMAX, 100, 3]
    files = lambda: g.choice([1, 1, 2, 2, 3, 5, 7, 16, 300 if not n else 40])
    same = g.random() < .6
    s0 = g.choice(sizes[:11])
    nb = g.choice([1, 2, 2, 3])
    vs = lambda: g.getrandbits(40)
    pos = lambda: dict(at=g.randrange(10), s=g.getrandbits(36), s1=g.randrange(1000), off=g.choice([0, 0, 0, -1, 1, 2, -3, g.randrange(-40, 41)]))
    create = lambda b: p.op("create", b=b, dt=typ(), nm=g.choice([1, 1, 2, 3]), size=s0 if same else g.choice(sizes), nf=files(), by=int(g.random() < .3))
    for b in range(nb):
        create(b)
    w = dict(create=1, write=12, read=10, append=3, flush=2, close=2, reopen=1, pickle=2, dset=6, restart=1)
    for k in list(w):
        if g.random() < .2:
            w[k] = 0
    kinds = [k for k in w if w[k]] or ["write", "read"]
    for _ in range(g.randrange(4, 20 + 8 * scale)):
        k = g.choices(kinds, [w[x] for x in kinds])[0]
        b = g.randrange(nb)
        if k == "create":
            create(b)
        elif k == "restart":
            p.op(k)
        else:
            p.op(k, b=b, dt=typ(), len=g.choice([1, 1, 2, 5, 17, 40, 150]), vs=vs(), how=g.randrange(40), nf=g.choice([1, 1, 2, 3]), layout=g.randrange(8), proto=g.randrange(2, 5), **pos())
    if not n and g.random() < .03:
        p.op("auto", b=g.randrange(nb), s=g.randrange(3), s1=g.choice([1, 1, 2]), off=g.choice([-1, 0, 1, 1, 1000]), vs=vs())
    return p


# ---- entry points ------------------------------------------------------------------------------------------
def generate(prop, seed, scale):
    g = random.Random(seed * 1000003 + 31)
    if prop != "P32" and g.random() < HUGE:
        return gen_huge(prop, seed, scale, g).text()
    return (gen_threads if prop == "P32" else gen_serial if prop == "P27" else gen_mpi)(prop, seed, scale).text()


def execute(text):
    p = Plan.parse(text)
    (exec_huge if p.par.get("huge") == "1" else exec_threads if p.prop == "P32" else exec_serial if p.prop == "P27" else exec_mpi)(p)
    gc.collect()
