"""Contracts of the file readers and writers: pandas.read_csv, meshio, open().

What a file holds is an uninterpreted function of its path (a file is not modified between two reads unless the code
under verification writes it): line(path, k), csv(path, i, j), mesh points, cells and tags."""
from fractions import Fraction
from . import terms as T, smt
from .terms import Term
from .values import *
from .interp import EXC
from . import lib as L
from .lib import lib, LIB, CM, VALUES, opaque_term, str_parts, mk_str, norm_parts


def pathterm(it, p):
    """The U-term of a path given as string, fstring or pathlib object."""
    if isinstance(p, (str, Term)):
        return opaque_term(p)
    if isinstance(p, Opaque) and "parts" in p.attrs:
        return opaque_term(mk_str(p.attrs["parts"]))
    raise Unsupported(f"path {p!r}")


def size_of(name, *args, lo=1):
    t = T.rawapp(name, args, "I")
    T.APP_BOUNDS[name] = lambda a, lo=lo: (Fraction(lo), None)
    smt.AXIOMS[name] = lambda apps, lo=lo: [T.ge(x, lo) for x in apps]
    return t


# ---------------------------------------------------------------- pandas
@lib("pandas.read_csv")
def read_csv(it, path, **kw):
    """A table with a header row, n >= 1 data rows and at least three columns; cell (i, j) is csv(path, i, j)."""
    if any(v is not None for v in kw.values()):
        raise Unsupported("read_csv options " + ",".join(kw))
    p = pathterm(it, path)
    n, m = size_of("csv_rows", p), size_of("csv_cols", p, lo=3)
    a = lambda: it.new_arr(Arr((n, m), lambda i, j: T.rawapp("csv", (p, i, j), "R")))
    return Opaque("DataFrame", {"iloc": a(), "values": a(), "shape": (n, m), "to_numpy": LibFn("", lambda it, **k: a())})


# ---------------------------------------------------------------- text files
class FileC:
    """An open file; chunks written so far live in the list `out` (merged into maximal strings)."""


def b_open(it, path, mode="r", *a, **kw):
    p = pathterm(it, path)
    if not isinstance(mode, str):
        raise Unsupported("open mode")
    m = mode.replace("t", "").replace("+", "")
    if m not in ("r", "w"):
        raise Unsupported(f"open mode {mode}")
    for d in it.log:
        if d[0] == "open_w" and d[1] == p:
            raise Unsupported("a file that was written before is opened again")
    n = size_of("lines", p, lo=0)
    attrs = {"path": p, "mode": m}
    if m == "r":
        seq = lambda: ListC((Seg(n, lambda k: T.rawapp("line", (p, T.lift(k)), "U")),))
        attrs["items"] = SymSeq(n, lambda k: T.rawapp("line", (p, T.lift(k)), "U"))
        attrs["readlines"] = LibFn("", lambda it: it.alloc(seq()))
    else:
        out = it.alloc(ListC(()))
        attrs["out"] = out
        it.log = it.log + (("open_w", p, out),)
        attrs["write"] = LibFn("", lambda it, s: write(it, out, s))
        attrs["writelines"] = LibFn("", lambda it, s: it.call(L.list_attr(it, out, "extend"), [s], {}))
    attrs["close"] = LibFn("", lambda it: None)
    attrs["flush"] = LibFn("", lambda it: None)
    return Opaque("file", attrs)


L.file_open = b_open
CM["file"] = (lambda it, cm: cm, lambda it, cm: None)


def write(it, out, s):
    if not isinstance(s, (str, Term, Opaque)) or isinstance(s, Term) and s.sort != "U":
        raise PyRaise(EXC["TypeError"], ("write() argument must be str",))
    segs = it.content(out).segs
    if segs and segs[-1].single and textual(segs[-1].value):
        it.heap[out.oid] = ListC(segs[:-1] + (Seg(value=mk_str(str_parts(segs[-1].value) + str_parts(s))),))
    else:
        it.heap[out.oid] = ListC(segs + (Seg(value=s),))
    return None


def textual(v):
    return isinstance(v, str) or isinstance(v, Term) and v.sort == "U" or isinstance(v, Opaque) and "parts" in v.attrs


def array_text(it, a, opts=()):
    """The text numpy.savetxt writes for a one- or two-dimensional array: a function of all its entries in order."""
    vs = [T.fresh("t", "I", 0, d) for d in a.shape]
    t = T.add(a.at(*vs))
    for v, n in reversed(list(zip(vs, a.shape))):
        t = T._sumatom("text", v, T.lift(n), t)
    return T.rawapp("savetxt", (t, T.lift(a.ndim)) + tuple(T.strc(repr(o)) for o in opts), "U")


@lib("numpy.savetxt")
def np_savetxt(it, f, x, **kw):
    a = it.arr(x)
    opts = tuple(sorted((k, v) for k, v in kw.items() if v is not None))
    if any(not isinstance(v, (str, int)) for _, v in opts):
        raise Unsupported("savetxt options")
    if isinstance(f, Opaque) and f.label == "file":
        if f.attrs["mode"] != "w":
            raise Unsupported("savetxt into a file opened for reading")
        return write(it, f.attrs["out"], array_text(it, a, opts))
    out = it.alloc(ListC.of([array_text(it, a, opts)]))
    it.log = it.log + (("open_w", pathterm(it, f), out),)


# ---------------------------------------------------------------- meshio
def mesh_of(it, p):
    """The mesh stored in a file: points (two or three coordinates), quadrilaterals and tagged line cells, in file order."""
    np_, d = size_of("mesh_np", p), size_of("mesh_dim", p, lo=2)
    nq, ne = size_of("mesh_nq", p), size_of("mesh_ne", p)
    for nm in ("mesh_quad", "mesh_line"):
        T.NONNEG.add(nm)
        smt.AXIOMS[nm] = lambda apps: [x for t in apps for x in (T.ge(t, 0), T.lt(t, T.rawapp("mesh_np", (t.args[1],), "I")))]
    pts = it.new_arr(Arr((np_, d), lambda i, j: T.rawapp("mesh_pt", (p, i, j), "R")))
    quad = it.new_arr(Arr((nq, 4), lambda i, j: T.rawapp("mesh_quad", (p, i, j), "I"), "int64"))
    line = it.new_arr(Arr((ne, 2), lambda i, j: T.rawapp("mesh_line", (p, i, j), "I"), "int64"))
    tag = it.new_arr(Arr((ne,), lambda i: T.rawapp("mesh_tag", (p, i), "I"), "int64"))
    qtag = it.new_arr(Arr((nq,), lambda i: T.rawapp("mesh_qtag", (p, i), "I"), "int64"))
    D = lambda d: it.alloc(DictC(d))
    return Opaque("meshio.Mesh", {"points": pts, "cells_dict": D({"quad": quad, "line": line}), "cell_data_dict": D({"medit:ref": D({"quad": qtag, "line": tag})}), "file": p})


@lib("meshio.read", "meshio.gmsh.read", "meshio.vtk.read", "meshio.medit.read")
def meshio_read(it, path, *a, **kw):
    p = pathterm(it, path)
    for d in reversed(it.log):
        if d[0] == "mesh_written" and d[1] == p:
            return mesh_of(it, d[2])
        if d[0] == "open_w" and d[1] == p:
            raise Unsupported("reading a mesh from a file written as text")
    return mesh_of(it, p)


@lib("meshio.Mesh")
def meshio_mesh(it, points, cells, **kw):
    blocks = it.alloc(DictC({}))
    d = {}
    items = it.concrete_items(cells) if not (isinstance(cells, Ref) and isinstance(it.content(cells), DictC)) else [(k, v) for k, v in it.content(cells).d.items()]
    for b in items:
        b = it.concrete_items(b)
        if not isinstance(b[0], str) or b[0] in d:
            raise Unsupported("cell blocks of meshio.Mesh")
        d[b[0]] = b[1] if isinstance(b[1], Ref) and isinstance(it.content(b[1]), ArrC) else it.new_arr(it.arr(b[1]))
    it.heap[blocks.oid] = DictC(d)
    return Opaque("meshio.Mesh", {"points": points, "cells_dict": blocks, "file": T.var("mesh:memory", "U")})


@lib("meshio.vtk.write", "meshio.write", "meshio.gmsh.write")
def meshio_write(it, path, mesh, *a, **kw):
    if not (isinstance(mesh, Opaque) and mesh.label == "meshio.Mesh"):
        raise Unsupported("meshio.write of another object")
    it.log = it.log + (("mesh_written", pathterm(it, path), mesh.attrs["file"]),)


@lib("gmsh.model.geo.add_point", "gmsh.model.geo.addPoint", "gmsh.model.occ.add_point", "gmsh.model.occ.addPoint")
def gmsh_point(it, x, y, z, *a, **kw):
    it.log = it.log + (("gmsh_point", x, y, z),)
    return Inert("gmsh point")


@lib("gmsh.write")
def gmsh_write(it, path):
    it.log = it.log + (("gmsh_written", pathterm(it, path)),)
