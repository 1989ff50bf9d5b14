"""Models of what lies outside the analysed package (builtins, numpy, pyvista).

Facts about pyvista/numpy sharing and in-place behaviour were confirmed against the
installed versions once, by hand, and are frozen here as tables.
"""
from __future__ import annotations

from fractions import Fraction

import ast
import builtins as _b

from .fold import Fails, Unknown
from .terms import (
    ABSENT, DELETED, FALSE, NONE, TRUE, UNDEF, Term, and_, const, cval, glob, is_const,
    is_glob, mk, not_, or_, phi, subterms,
)

BUILTINS = set(dir(_b))

MESHES = frozenset({"PolyData", "StructuredGrid", "UnstructuredGrid", "ImageData", "RectilinearGrid",
                    "ExplicitStructuredGrid"})
POINTSETS = frozenset({"PolyData", "StructuredGrid", "UnstructuredGrid", "ExplicitStructuredGrid"})
CONST_TYPES = {"NoneType": "none", "int": "int", "float": "float", "str": "str", "bool": "bool", "tuple": "tuple",
               "complex": "complex", "bytes": "bytes"}
IMMUTABLE = frozenset({"none", "int", "float", "str", "bool", "tuple", "complex", "bytes", "callable", "slice", "type"})
ALWAYS_TRUE = MESHES | {"callable", "obj", "type"}

# VTK cell types (vtkCellType.h)
CELLTYPES = dict(
    EMPTY_CELL=0, VERTEX=1, POLY_VERTEX=2, LINE=3, POLY_LINE=4, TRIANGLE=5, TRIANGLE_STRIP=6, POLYGON=7, PIXEL=8,
    QUAD=9, TETRA=10, VOXEL=11, HEXAHEDRON=12, WEDGE=13, PYRAMID=14, PENTAGONAL_PRISM=15, HEXAGONAL_PRISM=16,
    QUADRATIC_EDGE=21, QUADRATIC_TRIANGLE=22, QUADRATIC_QUAD=23, QUADRATIC_TETRA=24, QUADRATIC_HEXAHEDRON=25,
    QUADRATIC_WEDGE=26, QUADRATIC_PYRAMID=27, BIQUADRATIC_QUAD=28, TRIQUADRATIC_HEXAHEDRON=29,
    QUADRATIC_LINEAR_QUAD=30, QUADRATIC_LINEAR_WEDGE=31, BIQUADRATIC_QUADRATIC_WEDGE=32,
    BIQUADRATIC_QUADRATIC_HEXAHEDRON=33, BIQUADRATIC_TRIANGLE=34, CUBIC_LINE=35, QUADRATIC_POLYGON=36,
    TRIQUADRATIC_PYRAMID=37, CONVEX_POINT_SET=41, POLYHEDRON=42, PARAMETRIC_CURVE=51, PARAMETRIC_SURFACE=52,
    PARAMETRIC_TRI_SURFACE=53, PARAMETRIC_QUAD_SURFACE=54, PARAMETRIC_TETRA_REGION=55, PARAMETRIC_HEX_REGION=56,
    HIGHER_ORDER_EDGE=60, HIGHER_ORDER_TRIANGLE=61, HIGHER_ORDER_QUAD=62, HIGHER_ORDER_POLYGON=63,
    HIGHER_ORDER_TETRAHEDRON=64, HIGHER_ORDER_WEDGE=65, HIGHER_ORDER_PYRAMID=66, HIGHER_ORDER_HEXAHEDRON=67,
    LAGRANGE_CURVE=68, LAGRANGE_TRIANGLE=69, LAGRANGE_QUADRILATERAL=70, LAGRANGE_TETRAHEDRON=71,
    LAGRANGE_HEXAHEDRON=72, LAGRANGE_WEDGE=73, LAGRANGE_PYRAMID=74, BEZIER_CURVE=75, BEZIER_TRIANGLE=76,
    BEZIER_QUADRILATERAL=77, BEZIER_TETRAHEDRON=78, BEZIER_HEXAHEDRON=79, BEZIER_WEDGE=80, BEZIER_PYRAMID=81,
)

DATA_CONTAINERS = {"cell_data", "point_data", "field_data", "user_dict", "cell_arrays", "point_arrays"}

# pyvista constructors producing a mesh without attached data
MESH_CTORS = {
    "pyvista.PolyData": "PolyData", "pyvista.StructuredGrid": "StructuredGrid",
    "pyvista.UnstructuredGrid": "UnstructuredGrid", "pyvista.ImageData": "ImageData",
    "pyvista.RectilinearGrid": "RectilinearGrid", "pyvista.MultipleLines": "PolyData", "pyvista.Line": "PolyData",
    "pyvista.lines_from_points": "PolyData", "pyvista.Polygon": "PolyData", "pyvista.merge": "UnstructuredGrid",
    "pyvista.Plane": "PolyData", "pyvista.Spline": "PolyData",
}
# method -> result type (None: same as receiver)
MESH_METHODS = {
    "copy": None, "translate": None, "rotate_x": None, "rotate_y": None, "rotate_z": None, "rotate_vector": None,
    "scale": None, "transform": None, "reflect": None, "clean": None, "compute_cell_sizes": None,
    "merge_points": None, "triangulate": None, "extract_cells_by_type": None,
    "compute_normals": "PolyData", "strip": "PolyData", "cell_centers": "PolyData", "extract_geometry": "PolyData",
    "extract_surface": "PolyData", "extract_feature_edges": "PolyData", "extract_all_edges": "PolyData",
    "from_irregular_faces": "PolyData", "from_regular_faces": "PolyData",
    "cast_to_structured_grid": "StructuredGrid", "cast_to_unstructured_grid": "UnstructuredGrid",
    "cast_to_polydata": "PolyData", "extract_cells": "UnstructuredGrid", "extract_points": "UnstructuredGrid",
    "warp_by_scalar": None, "extract_subset": None, "merge": "UnstructuredGrid",
}
# results keep the receiver's topology (dimensions, cell count, connectivity)
SAME_TOPO = {"copy", "translate", "rotate_x", "rotate_y", "rotate_z", "rotate_vector", "scale", "transform",
             "compute_cell_sizes", "cast_to_structured_grid", "cast_to_unstructured_grid", "warp_by_scalar",
             "compute_normals"}
# the same mesh elsewhere
MOVES = {"translate", "rotate_x", "rotate_y", "rotate_z", "rotate_vector", "scale", "transform", "warp_by_scalar"}
# results own all their arrays
DEEP = {"copy", "translate", "rotate_x", "rotate_y", "rotate_z", "rotate_vector", "scale", "transform", "reflect",
        "clean", "merge_points", "extract_cells_by_type", "extract_feature_edges", "extract_subset",
        "from_irregular_faces"}
# results are new containers sharing (some) arrays with the receiver
SHALLOW = {"cast_to_unstructured_grid", "cast_to_structured_grid", "cast_to_polydata", "compute_cell_sizes",
           "strip", "extract_cells", "extract_geometry", "extract_surface", "compute_normals", "triangulate",
           "cell_centers", "warp_by_scalar", "extract_points", "extract_all_edges"}
# constructors whose result shares memory with array arguments
SHARING_CTORS = {"pyvista.PolyData", "pyvista.UnstructuredGrid", "pyvista.lines_from_points",
                 "pyvista.PointSet"}
SHARING_METHODS = {"from_regular_faces"}

MESH_MUTATORS = {"clear_data", "clear_cell_data", "clear_point_data", "clear_field_data", "set_active_scalars",
                 "rename_array", "add_field_data", "shallow_copy", "deep_copy", "copy_from", "copy_meta_from",
                 "overwrite", "set_active_vectors", "set_active_tensors", "hide_cells", "hide_points",
                 "show_cells", "remove_cells", "flip_normals", "copy_structure", "copy_attributes"}
CONTAINER_MUTATORS = {"append", "extend", "insert", "pop", "popitem", "remove", "sort", "reverse", "clear", "update",
                      "setdefault", "add", "discard", "fill", "itemset", "put", "partition", "resize", "setfield",
                      "setflags", "set_array", "intersection_update", "difference_update"}
VTK_MUTATORS = ("Set", "Insert", "Add", "Remove", "Delete", "Allocate", "Initialize", "Reset", "Squeeze",
                "DeepCopy", "ShallowCopy", "Reverse", "Replace")
NP_MUTATORS = {"numpy.put": 0, "numpy.place": 0, "numpy.copyto": 0, "numpy.fill_diagonal": 0,
               "numpy.random.shuffle": 0, "numpy.putmask": 0, "numpy.put_along_axis": 0, "random.shuffle": 0,
               "numpy.add.at": 0, "numpy.subtract.at": 0, "numpy.multiply.at": 0, "numpy.maximum.at": 0,
               "numpy.minimum.at": 0, "numpy.logical_or.at": 0}

NP_INT = {"numpy.ndim", "numpy.size", "numpy.count_nonzero"}
NP_BOOL = {"numpy.allclose", "numpy.array_equal", "numpy.isscalar", "numpy.iterable"}
NP_TUPLE = {"numpy.shape", "numpy.unravel_index", "numpy.nonzero"}
NP_ARRAY = {"asanyarray", "asarray", "array", "ascontiguousarray", "zeros", "ones", "full", "empty", "arange",
            "linspace", "insert", "append", "delete", "concatenate", "vstack", "hstack", "stack", "column_stack",
            "repeat", "tile", "reshape", "transpose", "expand_dims", "unique", "where", "isin", "sort",
            "argsort", "diff", "roll", "flip", "full_like", "zeros_like", "ones_like", "flatnonzero", "atleast_1d",
            "atleast_2d", "broadcast_to", "isnan", "moveaxis", "swapaxes", "meshgrid", "logspace", "geomspace",
            "append", "cumsum", "logical_and", "logical_or", "logical_not", "ravel", "squeeze", "copy", "eye",
            "identity", "dstack", "block", "fromiter", "interp", "where", "select", "choose", "clip", "cross"}
ARRAY_ATTRS = {"points", "celltypes", "offset", "cell_connectivity", "lines", "faces", "x", "y", "z", "T",
               "irregular_faces", "regular_faces", "strips", "verts"}
INT_ATTRS = {"n_cells", "n_points", "n_lines", "ndim", "size", "n_faces_strict", "n_faces", "n_verts", "n_arrays"}


# ---------------------------------------------------------------------- names
def canon_glob(n):
    return n


def glob_attr(b, name):
    g = b.args[0]
    if g in ("pyvista.CellType", "vtk", "vtkmodules.vtkCommonDataModel") and name in CELLTYPES:
        return const(CELLTYPES[name])
    if g == "pyvista.CellType" and name.startswith("VTK_") and name[4:] in CELLTYPES:
        return const(CELLTYPES[name[4:]])
    if g == "numpy" and name == "newaxis":
        return NONE
    if g == "numpy" and name in ("inf", "nan", "pi"):
        return glob("numpy." + name)
    if g == "typing" and name == "TYPE_CHECKING":
        return FALSE
    return glob(g + "." + name)


def type_tags(t):
    """Type tags named by a class expression term (for isinstance)."""
    if t.op == "tuple":
        out = ()
        for x in t.args:
            out += type_tags(x)
        return out
    if t.op == "glob":
        n = t.args[0]
        last = n.split(".")[-1]
        if n.startswith("pyvista"):
            return (last,)
        if n.startswith("builtins."):
            return (last,)
        if n == "numpy.ndarray":
            return ("ndarray",)
        if n in ("numpy.integer", "numpy.floating", "numbers.Integral", "numbers.Real", "numbers.Number",
                 "numpy.number", "numpy.generic"):
            return (n,)
        if n in ("collections.abc.Sequence", "typing.Sequence"):
            return ("Sequence",)
        if n in ("collections.abc.Callable", "typing.Callable"):
            return ("callable",)
        if n in ("collections.abc.Mapping",):
            return ("dict",)
        return (n,)
    if t.op == "cls":
        return ("cls:" + t.args[0],)
    if t.op == "bin" and t.args[0] == "|":
        return type_tags(t.args[1]) + type_tags(t.args[2])
    return ("?",)


def expand_tags(tags):
    out = set()
    for x in tags:
        if x == "DataSet":
            out |= MESHES
        elif x in ("PointSet", "_PointSet"):
            out |= POINTSETS
        elif x == "Sequence":
            out |= {"list", "tuple", "str"}
        elif x in ("numbers.Integral",):
            out |= {"int", "bool", "numpy.integer"}
        elif x in ("numbers.Real", "numbers.Number"):
            out |= {"int", "float", "bool", "numpy.integer", "numpy.floating"}
        elif x == "int":
            out |= {"int", "bool"}
        elif x == "NoneType":
            out.add("none")
        else:
            out.add(x)
    return out


def expand_types(tags):
    return frozenset(expand_tags(tags))


def ann_tags(node):
    """Type tags of an annotation expression (None when open-ended)."""
    if node is None:
        return None
    if isinstance(node, ast.Constant):
        if node.value is None:
            return {"none"}
        if isinstance(node.value, str):
            try:
                return ann_tags(ast.parse(node.value, mode="eval").body)
            except SyntaxError:
                return None
        return None
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
        a, b = ann_tags(node.left), ann_tags(node.right)
        return None if a is None or b is None else a | b
    if isinstance(node, ast.Subscript):
        n = ast.unparse(node.value).split(".")[-1]
        if n == "Optional":
            a = ann_tags(node.slice)
            return None if a is None else a | {"none"}
        if n == "Union":
            out = set()
            for x in node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]:
                a = ann_tags(x)
                if a is None:
                    return None
                out |= a
            return out
        if n == "Literal":
            vals = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
            out = set()
            for v in vals:
                if isinstance(v, ast.Constant):
                    out.add(CONST_TYPES.get(type(v.value).__name__, "?"))
            return out
        if n in ("Sequence", "list", "List", "Iterable", "Collection"):
            return {"list", "tuple", "ndarray"}
        if n in ("tuple", "Tuple"):
            return {"tuple"}
        if n in ("dict", "Dict", "Mapping"):
            return {"dict"}
        if n in ("NDArray",):
            return {"ndarray"}
        if n == "Callable":
            return {"callable"}
        return None
    n = ast.unparse(node).split(".")[-1]
    table = {"int": {"int"}, "float": {"float", "int"}, "str": {"str"}, "bool": {"bool"}, "dict": {"dict"},
             "ArrayLike": {"ndarray", "list", "tuple"}, "NDArray": {"ndarray"}, "ndarray": {"ndarray"},
             "Callable": {"callable"}, "DataSet": set(MESHES), "None": {"none"}, "list": {"list"},
             "tuple": {"tuple"}, "Sequence": {"list", "tuple", "ndarray"}, "Plotter": {"Plotter"},
             "MeshItem": {"obj"}}
    if n in table:
        return set(table[n])
    if n in MESHES:
        return {n}
    return None


def handler_names(h):
    if h.type is None:
        return None
    if isinstance(h.type, ast.Tuple):
        return [ast.unparse(x).split(".")[-1] for x in h.type.elts]
    return [ast.unparse(h.type).split(".")[-1]]


def exc_name(t):
    if t is None:
        return None
    if t.op == "call":
        t = t.args[0]
    if t.op == "glob":
        return t.args[0].split(".")[-1]
    if t.op == "cls":
        return t.args[0].split(".")[-1]
    return None


def exc_matches(name, names):
    if names is None:
        return True
    sup = {name, "Exception", "BaseException"}
    if name in ("KeyError", "IndexError"):
        sup.add("LookupError")
    if name == "NotImplementedError":
        sup.add("RuntimeError")
    if name in ("ZeroDivisionError", "OverflowError"):
        sup.add("ArithmeticError")
    if name == "UnboundLocalError":
        sup.add("NameError")
    return bool(sup & set(names))


def is_boolish(t):
    return t.op in ("cmp", "not", "and", "or", "isinst", "truth", "opq") or (
        t.op == "const" and isinstance(cval(t), bool))


def phi_consts(t, d=6):
    if t.op == "const":
        return True
    return t.op == "phi" and d > 0 and phi_consts(t.args[1], d - 1) and phi_consts(t.args[2], d - 1)


# ---------------------------------------------------------------------- types
def attr_types(ip, t, d):
    b, n = t.args
    if n in ARRAY_ATTRS:
        return frozenset({"ndarray"})
    if n in INT_ATTRS:
        return frozenset({"int"})
    if n in ("dimensions", "shape", "center", "bounds"):
        return frozenset({"tuple"})
    if n in DATA_CONTAINERS:
        return frozenset({"container"})
    if n in ("name",):
        return frozenset({"str"})
    return None


def index_types(ip, t, d):
    b, k = t.args
    if is_data_container(b):
        if b.args[1] in ("cell_data", "point_data"):
            return frozenset({"ndarray"})
        return None
    bt = ip.types(b, d)
    if bt == {"ndarray"}:
        if k.op in ("slice",) or (k.op == "tuple" and any(x.op == "slice" or x is NONE for x in k.args)):
            return frozenset({"ndarray"})
        return None
    if bt == {"str"}:
        return frozenset({"str"})
    if b.op == "attr" and b.args[1] in ("shape", "dimensions") and k.op != "slice":
        return frozenset({"int"})
    if b.op == "attr" and b.args[1] in ("shape", "dimensions"):
        return frozenset({"tuple"})
    return None


def call_types(ip, t, d):
    f = t.args[0]
    if f.op == "glob":
        n = f.args[0]
        if n in MESH_CTORS:
            return frozenset({MESH_CTORS[n]})
        if n == "pyvista.Plotter":
            return frozenset({"Plotter"})
        if n.startswith("pyvista.examples."):
            return frozenset({"ImageData"})
        if n in NP_INT or n in ("builtins.len", "builtins.int", "builtins.hash", "builtins.id"):
            return frozenset({"int"})
        if n in NP_BOOL or n in ("builtins.bool", "builtins.all", "builtins.any", "builtins.callable",
                                 "builtins.hasattr", "builtins.issubclass"):
            return frozenset({"bool"})
        if n in NP_TUPLE or n == "builtins.tuple":
            return frozenset({"tuple"})
        if n.startswith("numpy.") and n.split(".")[-1] in NP_ARRAY:
            return frozenset({"ndarray"})
        if n in ("builtins.str", "builtins.repr", "builtins.format"):
            return frozenset({"str"})
        if n in ("builtins.float",):
            return frozenset({"float"})
        if n in ("builtins.sorted", "builtins.list"):
            return frozenset({"list"})
        if n in ("builtins.set", "builtins.frozenset"):
            return frozenset({"set"})
        if n == "builtins.range":
            return frozenset({"range"})
        if n in ("builtins.max", "builtins.min", "builtins.sum", "builtins.abs", "builtins.round"):
            ts = [ip.types(a, d) for a in t.args[1]]
            if ts and all(x is not None and x <= {"int", "bool"} for x in ts):
                return frozenset({"int"})
            if ts and all(x is not None and x <= {"int", "float", "bool"} for x in ts):
                return frozenset({"float"})
            return None
        if n == "operator.+":
            return frozenset({"UnstructuredGrid"}) if ip.types(t.args[1][0], d) != {"PolyData"} else frozenset({"PolyData"})
        return None
    if f.op == "attr":
        b, m = f.args
        if m in MESH_METHODS:
            bt = ip.types(b, d)
            if m in ("copy", "clean", "translate", "merge", "strip") and bt is not None and not (bt <= MESHES):
                if bt == {"ndarray"}:
                    return frozenset({"ndarray"})
                if bt <= {"list"} or bt <= {"dict"}:
                    return bt
                return None
            r = MESH_METHODS[m]
            if r is None:
                if bt is None:
                    return None
                if m in ("extract_cells_by_type",):
                    return bt if bt <= {"PolyData", "UnstructuredGrid"} else frozenset({"UnstructuredGrid"})
                if m in ("clean",) and not bt <= {"PolyData", "UnstructuredGrid"}:
                    return bt
                return bt
            return frozenset({r})
        if m in ("any", "all"):
            bt = ip.types(b, d)
            return frozenset({"bool"})
        if m in ("reshape", "ravel", "flatten", "astype", "transpose", "squeeze", "repeat", "cumsum", "clip", "round"):
            return frozenset({"ndarray"})
        if m in ("startswith", "endswith", "isdigit"):
            return frozenset({"bool"})
        if m in ("lower", "upper", "strip", "format", "join", "replace", "title", "lstrip", "rstrip"):
            bt = ip.types(b, d)
            if bt == {"str"}:
                return frozenset({"str"})
        if m == "tolist":
            return frozenset({"list"})
        if m in ("index", "count", "argmin", "argmax"):
            return frozenset({"int"})
    return None


def mesh_like(ip, b):
    ts = ip.types(b)
    return ts is not None and bool(ts) and ts <= MESHES


def is_mesh_item(ip, b, k):
    return k.op == "const" and isinstance(cval(k), str) and mesh_like(ip, b)


def is_data_container(t):
    return t.op == "attr" and t.args[1] in DATA_CONTAINERS


def basic_index(ip, k):
    """True: certainly basic (view); False: certainly fancy (copy); None unknown."""
    if k.op == "slice" or k is NONE or k.op == "ellipsis":
        return True
    if k.op == "const":
        return False if isinstance(cval(k), bool) else True
    if k.op == "tuple":
        r = [basic_index(ip, x) for x in k.args]
        if any(x is False for x in r):
            return False
        return True if all(r) else None
    if k.op in ("list", "obj", "comp"):
        return False
    if k.op in ("cmp", "not", "and", "or", "un"):
        return False
    if k.op == "idx":
        return True
    if k.op == "phi":
        a, b = basic_index(ip, k.args[1]), basic_index(ip, k.args[2])
        return a if a == b else None
    ts = ip.types(k)
    if ts is not None:
        if ts <= {"int"} or ts <= {"slice"}:
            return True
        if ts <= {"ndarray", "list", "bool"}:
            return False
    if k.op == "bin":
        rs = [basic_index(ip, x) for x in k.args[1:]]
        if any(x is False for x in rs):
            return False
        if all(rs):
            return True
    return None


def is_view_index(ip, b, k):
    return basic_index(ip, k) is True


# ---------------------------------------------------------------------- folding
def imply(c, g, v):
    """Truth of c given that g has truth value v (string/None equalities)."""
    if c.op == "cmp" and g.op == "cmp" and v is True:
        if g.args[0] == "==" and g.args[2].op == "const":
            if c.args[0] == "==" and c.args[1] is g.args[1] and c.args[2].op == "const":
                return c.args[2].args == g.args[2].args
            if c.args[0] == "is" and c.args[1] is g.args[1] and c.args[2] is NONE:
                return False
        if g.args[0] == "is" and g.args[2] is NONE and c.args[0] == "==" and c.args[1] is g.args[1]:
            return c.args[2] is NONE
    if c.op == "truth" and g.op == "cmp" and v is True:
        if g.args[0] == "==" and g.args[1] is c.args[0] and g.args[2].op == "const":
            return bool(cval(g.args[2]))
        if g.args[0] == "is" and g.args[1] is c.args[0] and g.args[2] is NONE:
            return False
    if c.op == "cmp" and c.args[0] == "is" and c.args[2] is NONE and g.op == "truth" and v is True:
        if g.args[0] is c.args[1]:
            return False
    if c.op == "isinst" and g.op == "isinst" and g.args[0] is c.args[0]:
        a, b = expand_types(g.args[1]), expand_types(c.args[1])
        if v and a <= b:
            return True
        if v and not (a & b) and "?" not in a | b:
            return False
        if not v and b <= a:
            return False
    if c.op == "truth" and g.op == "isinst" and v is True and g.args[0] is c.args[0]:
        if expand_types(g.args[1]) <= ALWAYS_TRUE:
            return True
    if c.op == "cmp" and c.args[0] == "is" and c.args[2] is NONE and g.op == "isinst" and v is True:
        if g.args[0] is c.args[1] and "none" not in expand_types(g.args[1]):
            return False
    return None


def lower_bound(ip, t, d=6):
    """Known integer lower bound of a term, or None."""
    if d == 0:
        return None
    if t.op == "const" and isinstance(cval(t), (int, float)) and not isinstance(cval(t), bool):
        return cval(t)
    i = ip.sym_info.get(t)
    if i and "min" in i:
        return i["min"]
    if t.op == "attr" and t.args[1] in INT_ATTRS:
        return 0
    if t.op == "call" and is_glob(t.args[0], "builtins.len"):
        return 0
    if t.op == "call" and is_glob(t.args[0], "builtins.max"):
        bs = [lower_bound(ip, a, d - 1) for a in t.args[1]]
        bs = [b for b in bs if b is not None]
        return max(bs) if bs else None
    if t.op == "bin" and t.args[0] == "+":
        a, b = lower_bound(ip, t.args[1], d - 1), lower_bound(ip, t.args[2], d - 1)
        return None if a is None or b is None else a + b
    if t.op == "bin" and t.args[0] == "-" and t.args[2].op == "const":
        a = lower_bound(ip, t.args[1], d - 1)
        return None if a is None else a - cval(t.args[2])
    if t.op == "idx":
        return 0
    return None


def fold_cmp(ip, op, a, b):
    if b.op == "const" and isinstance(cval(b), (int, float)) and not isinstance(cval(b), bool):
        lo = lower_bound(ip, a)
        if lo is not None:
            if op == "==" and cval(b) < lo:
                return False
            if op in ("<",) and cval(b) <= lo:
                return False
            if op in ("<=",) and cval(b) < lo:
                return False
    if a.op == "const" and isinstance(cval(a), (int, float)) and not isinstance(cval(a), bool):
        lo = lower_bound(ip, b)
        if lo is not None:
            if op == "<" and cval(a) < lo:
                return True
            if op == "<=" and cval(a) <= lo:
                return True
    if op == "==" and b.op == "const":
        ts = ip.types(a)
        ct = CONST_TYPES.get(b.args[0], b.args[0])
        if ts is not None and ct in ("str", "none") and ct not in ts and not (ts & {"ndarray", "container"}):
            return False
        if ts is not None and ts == {"str"} and ct != "str":
            return False
        if a.op == "sym":
            i = ip.sym_info.get(a) or {}
            if ct == "str" and i.get("fresh"):
                return False
    return None


# ---------------------------------------------------------------------- attributes / index
TOPO_ATTRS = {"dimensions", "n_cells", "n_points", "celltypes", "offset", "n_lines", "cell_connectivity",
              "n_faces_strict", "irregular_faces", "lines", "faces"}


# methods of an array whose result shares nothing with it
ARRAY_COPIES = {"copy", "astype", "mean", "sum", "min", "max", "prod", "cumsum", "flatten", "tolist", "repeat", "round", "clip", "all", "any",
                "argsort", "argmin", "argmax", "nonzero", "dot", "std", "take"}
ARRAY_VIEWS = {"ravel", "reshape", "transpose", "squeeze", "swapaxes"}


def fortran(args, kw):
    """Whether a method is asked for another order than the one of memory, and so copies."""
    return any(is_const(x) and cval(x) in ("F", "K", "A") for x in list(args) + [v for k, v in kw if k == "order"])


def attr_value(ip, b, name):
    i = ip.sym_info.get(b)
    if i and name in i.get("attrs", {}):
        return i["attrs"][name]
    if b.op == "call" and b.args[0].op == "attr" and b.args[0].args[1] in SAME_TOPO and name in TOPO_ATTRS:
        r = b.args[0].args[0]
        bt = ip.types(r)
        if bt is not None and bt <= MESHES:
            m = b.args[0].args[1]
            if name in ("dimensions", "n_cells", "n_points") or (m in ("copy", "translate") and name in ("celltypes", "offset", "n_lines")):
                v = ip.st.heap.get(("attr", r, name))
                return v if v is not None else ip.getattr(r, name, None) if r.op != "phi" else mk("attr", b, name)
    if name == "shape" and b.op == "call" and is_glob(b.args[0], "numpy.asanyarray", "numpy.asarray", "numpy.array"):
        a0 = b.args[1][0]
        ii = ip.sym_info.get(a0)
        if ii and "shape" in ii.get("attrs", {}):
            return ii["attrs"]["shape"]
    if name in ("ndim",) and b.op == "call" and is_glob(b.args[0], "numpy.asanyarray", "numpy.asarray", "numpy.array"):
        a0 = b.args[1][0]
        ii = ip.sym_info.get(a0)
        if ii and "ndim" in ii.get("attrs", {}):
            return ii["attrs"]["ndim"]
        ts = ip.types(a0)
        if ts is not None and ts and ts <= {"int", "float", "bool", "str", "none", "callable"} | MESHES:
            return const(0)
    if ip.track_coords and name in ("x", "y", "z") and ip.types(b) == {"StructuredGrid"}:
        pts = mk("attr", b, "points")
        if ("attr", b, "points") in ip.st.heap or ("arr", pts) in ip.st.heap:
            return mk("coord", ip.val(ip.st.heap.get(("attr", b, "points"), pts)), name, b)
    return mk("attr", b, name)


def simplify_index(ip, b, k):
    return mk("index", b, k)


# ---------------------------------------------------------------------- builtins
def _lit_len(ip, t):
    l = ip.literal(t)
    return None if l is None else len(l)


def builtin(ip, f, args, kwargs, node):
    if f.op == "glob":
        return _builtin_fn(ip, f.args[0], f, args, kwargs, node)
    if f.op == "attr":
        return _method(ip, f.args[0], f.args[1], args, kwargs, node)
    return None


def _builtin_fn(ip, n, f, args, kwargs, node):
    if n in ("typing.cast",) and len(args) == 2:
        return args[1]
    if n == "functools.partial" and args:
        return mk("partial", args[0], tuple(args[1:]), tuple(sorted(kwargs.items())))
    if n == "operator.attrgetter" or n == "operator.itemgetter":
        return None
    if not n.startswith("builtins."):
        return _numpy_fold(ip, n, f, args, kwargs, node)
    n = n[9:]
    if n == "isinstance" and len(args) == 2:
        return isinst(ip, args[0], type_tags(args[1]), args[1])
    if n == "callable" and args:
        return isinst(ip, args[0], ("callable",), None)
    if n == "hasattr" and len(args) == 2 and is_const(args[1]):
        a = cval(args[1])
        if a == "__call__":
            return isinst(ip, args[0], ("callable",), None)
        if args[0].op == "obj" and args[0].args[0] in ip.classes:
            ok = ("attr", args[0], a) in ip.st.heap or ip.find_member(args[0].args[0], a) is not None
            return const(ok)
        return mk("cmp", "hasattr", ip.val(args[0]), args[1])
    if n == "getattr" and len(args) >= 2 and is_const(args[1]):
        a = cval(args[1])
        if args[0].op == "obj" and args[0].args[0] in ip.classes:
            if ("attr", args[0], a) in ip.st.heap or ip.find_member(args[0].args[0], a) is not None:
                return ip.getattr(args[0], a, node)
            return args[2] if len(args) > 2 else mk("attr", args[0], a)
        if len(args) == 2:
            return ip.getattr(args[0], a, node)
        return None
    if n == "setattr" and len(args) == 3:
        if is_const(args[1]):
            ip.setattr(args[0], cval(args[1]), args[2], node)
        else:
            ip.emit("mutate", args[0], node, how="attribute assigned", sure=True, key=("attr", None), value=args[2])
            ip.st.heap[("attr*", args[0], args[1])] = args[2]
        return NONE
    if n == "len" and args:
        l = _lit_len(ip, args[0])
        if l is not None:
            return const(l)
        v = ip.val(args[0])
        if v.op == "attr" and v.args[1] == "points":
            return ip.getattr(v.args[0], "n_points", node)
        return mk("call", f, (v,), (), 0)
    if n in ("range", "zip", "enumerate", "reversed"):
        # references are kept: iterating yields the elements themselves
        return mk("call", f, tuple(args), tuple(sorted(kwargs.items())), 0)
    if n in ("list", "tuple") and len(args) <= 1:
        if not args:
            return ip.new_list([], node) if n == "list" else mk("tuple")
        l = ip.literal(args[0])
        if l is not None:
            return ip.new_list(l, node) if n == "list" else mk("tuple", *l)
        v = ip.val(args[0])
        if v.op == "comp":
            v = mk("comp", "list", *v.args[1:])
        elif v.op not in ("append", "concat", "list", "mu"):
            v = mk("call", f, (v,), (), 0)
        if n == "list":
            o = mk("obj", "list", ip.uid(node))
            ip.st.heap[("obj", o)] = v
            return o
        return v
    if n == "dict":
        o = mk("obj", "dict", ip.uid(node))
        if not args:
            ip.st.heap[("obj", o)] = mk("dict", *[(const(k), v) for k, v in kwargs.items() if k != "**"])
            return o
        v = ip.val(args[0])
        if v.op == "dict":
            ip.st.heap[("obj", o)] = mk("dict", *(tuple(v.args) + tuple((const(k), x) for k, x in kwargs.items())))
            return o
        d = scene_value(ip, v)
        if isinstance(d, (list, tuple)) and all(isinstance(x, (list, tuple)) and len(x) == 2 for x in d):
            d = {x[0]: x[1] for x in d if isinstance(x[0], (str, int))}
        if isinstance(d, dict) and not kwargs:
            ps = [(ip.expand.plain(k), ip.expand.plain(x)) for k, x in d.items()]
            if all(k is not None and x is not None for k, x in ps):
                ip.st.heap[("obj", o)] = mk("dict", *ps)
                return o
        ip.st.heap[("obj", o)] = mk("call", f, (v,), (), 0)
        return o
    if n in ("set", "frozenset"):
        if not args:
            o = mk("obj", "set", ip.uid(node))
            ip.st.heap[("obj", o)] = mk("set")
            return o
        l = ip.literal(args[0])
        if l is not None:
            return ip.new_set(l, node) if n == "set" else mk("set", *l)
        return None
    if n in ("max", "min", "abs", "int", "float", "bool", "str", "round", "sum") and args and not kwargs:
        vals = [ip.val(a) for a in args]
        if all(v.op == "const" for v in vals):
            try:
                return const(getattr(_b, n)(*[cval(v) for v in vals]))
            except Exception:
                return None
        if n == "bool":
            return ip.truth(args[0])
        if n in ("max", "min") and len(vals) == 1:
            l = ip.literal(args[0])
            if l is not None and all(x.op == "const" for x in l) and l:
                return const(getattr(_b, n)([cval(x) for x in l]))
        if n == "sum":
            l = ip.literal(args[0])
            if l is not None:
                tot = const(0)
                for x in l:
                    x = bool_to_int(ip, x)
                    tot = ip.binop("+", tot, x)
                return tot
        if n == "int" and ip.types(vals[0]) == {"int"}:
            return vals[0]
        return mk("call", f, tuple(vals), (), 0)
    if n in ("any", "all") and args:
        l = ip.literal(args[0])
        if l is not None:
            ts = [ip.truth(x) for x in l]
            return and_(*ts) if n == "all" else or_(*ts)
        v = ip.val(args[0])
        return mk("call", f, (v,), (), 0)
    if n == "type" and len(args) == 1:
        return mk("call", f, (args[0],), (), 0)
    if n == "slice":
        a = [x for x in args]
        if len(a) == 1:
            return mk("slice", NONE, a[0], NONE)
        if len(a) == 2:
            return mk("slice", a[0], a[1], NONE)
        return mk("slice", *a[:3])
    if n == "sorted" and args and ip.expand is not None and "key" in kwargs:
        l = ip.literal(args[0])
        rev = kwargs.get("reverse", FALSE)
        if l is not None and rev.op == "const":
            ks = [scene_value(ip, ip.apply(kwargs["key"], [x], {}, node)) for x in l]
            if all(isinstance(k, (int, float, Fraction)) and k == k for k in ks) or all(type(k) is type(ks[0]) and isinstance(k, (str, tuple)) for k in ks):
                order = sorted(range(len(l)), key=lambda i: ks[i], reverse=bool(cval(rev)))
                return ip.new_list([l[i] for i in order], node)
    if n in ("max", "min") and args and ip.expand is not None and set(kwargs) == {"key"}:
        l = ip.literal(args[0]) if len(args) == 1 else args
        if l:
            ks = [scene_value(ip, ip.apply(kwargs["key"], [x], {}, node)) for x in l]
            if all(isinstance(k, (int, float, Fraction)) and k == k for k in ks) or all(type(k) is type(ks[0]) and isinstance(k, (str, tuple)) for k in ks):
                return l[(max if n == "max" else min)(range(len(l)), key=lambda i: ks[i])]
    if n == "sorted" and args:
        t = mk("call", f, (ip.val(args[0]),), tuple(sorted(kwargs.items())), ip.uid(node))
        return t
    if n == "print":
        return NONE
    if n == "iter" and args:
        return args[0]
    if n in ("super",):
        return None
    return None


def scene_value(ip, t):
    """The value of a term in a scene of known data, if there is one."""
    if ip.expand is None:
        return None
    try:
        return ip.expand.value(t)
    except (Unknown, Fails):
        return None


def as_term(v):
    """A known value (numbers, text, rows of them) as a term."""
    if v is None or isinstance(v, (bool, int, float, str, Fraction)):
        return const(v)
    if isinstance(v, (list, tuple)):
        xs = [as_term(x) for x in v]
        return mk("list" if isinstance(v, list) else "tuple", *xs) if all(x is not None for x in xs) else None
    return None


def bool_to_int(ip, x):
    if x.op == "const" and isinstance(cval(x), bool):
        return const(int(cval(x)))
    d = ip.decide(x) if is_boolish(x) else None
    if d is not None:
        return const(int(d))
    return x


def isinst(ip, x, tags, raw):
    if x.op == "phi":
        c, base = x.args[0], ip.st
        if base is None:
            return phi(c, isinst(ip, x.args[1], tags, raw), isinst(ip, x.args[2], tags, raw))
        try:
            ip.st = base.with_fact(c, True)
            a = isinst(ip, x.args[1], tags, raw)
            ip.st = base.with_fact(c, False)
            b = isinst(ip, x.args[2], tags, raw)
        finally:
            ip.st = base
        return phi(c, a, b)
    if raw is not None and raw.op == "call" and is_glob(raw.args[0], "builtins.type"):
        # isinstance(a, type(b))
        other = raw.args[1][0]
        ta, tb = ip.types(x), ip.types(other)
        if ta is not None and tb is not None and len(ta) == 1 and len(tb) == 1:
            return const(ta == tb)
        return mk("cmp", "isinstance-of", x, other)
    if x.op == "obj" and x.args[0] in ip.classes:
        mro = set(ip.mro(x.args[0]))
        return const(any(t.startswith("cls:") and t[4:] in mro for t in tags))
    if "?" in tags:
        return mk("cmp", "isinstance", x, raw if raw is not None else NONE)
    t = mk("isinst", x, tuple(sorted(set(tags))))
    d = ip.decide(t)
    return const(d) if d is not None else t


def _numpy_fold(ip, n, f, args, kwargs, node):
    if n in ("numpy.asanyarray", "numpy.asarray") and args and not kwargs and len(args) == 1:
        ts = ip.types(args[0])
        if ts == {"ndarray"} and args[0].op not in ("tuple", "list", "obj"):
            return args[0]
        return None
    if n == "numpy.ndim" and args:
        v = args[0]
        i = ip.sym_info.get(v)
        if i and "ndim" in i.get("attrs", {}):
            return i["attrs"]["ndim"]
        if v.op == "call" and is_glob(v.args[0], "numpy.asanyarray", "numpy.asarray", "numpy.array"):
            i = ip.sym_info.get(v.args[1][0])
            if i and "ndim" in i.get("attrs", {}):
                return i["attrs"]["ndim"]
        if ip.types(v) is not None and ip.types(v) <= {"int", "float", "bool", "str"}:
            return const(0)
        return mk("attr", ip.val(v), "ndim")
    if n == "numpy.shape" and args:
        return ip.getattr(args[0], "shape", node)
    if n == "numpy.size" and len(args) == 1:
        return ip.getattr(args[0], "size", node)
    return None


def _method(ip, b, m, args, kwargs, node):
    if b.op == "phi":
        if b.args[1].op == "obj" or b.args[2].op == "obj" or m in CONTAINER_MUTATORS:
            return ip.branch(b.args[0],
                             lambda: ip.apply(ip.getattr(b.args[1], m, node), args, kwargs, node),
                             lambda: ip.apply(ip.getattr(b.args[2], m, node), args, kwargs, node))
        return None
    if m == "tolist" and ip.expand is not None and not args and not kwargs:
        # a list of its own, which may be added to
        v = scene_value(ip, ip.val(b))
        if isinstance(v, list) and len(v) <= 256:
            xs = [as_term(x) for x in v]
            if all(x is not None for x in xs):
                return ip.new_list(xs, node)
        return None
    if b.op == "const" and isinstance(cval(b), str):
        vals = [ip.val(a) for a in args]
        if all(v.op == "const" for v in vals) and m in ("startswith", "endswith", "lower", "upper", "strip", "index",
                                                        "find", "replace", "split", "count", "lstrip", "rstrip",
                                                        "removeprefix", "removesuffix", "isdigit", "title"):
            try:
                r = getattr(cval(b), m)(*[cval(v) for v in vals])
                return ip.new_list([const(x) for x in r], node) if isinstance(r, list) else const(r)
            except Exception:
                return None
        return None
    if b.op == "tuple" and m == "index" and args:
        for i, x in enumerate(b.args):
            c = ip.truth(ip.compare("==", x, args[0], node))
            d = ip.decide(c)
            if d is True:
                return const(i)
            if d is None:
                return None
        return None
    if b.op == "tuple" and m == "count" and args:
        ds = [ip.decide(ip.truth(ip.compare("==", x, args[0], node))) for x in b.args]
        if all(d is not None for d in ds):
            return const(sum(ds))
        return None
    if b.op == "setdefault" and m in ("append", "extend") and len(args) == 1:
        # the list lives in the dictionary
        held = [(k, c) for k, c in ip.st.heap.items() if k[0] == "obj" and isinstance(c, Term) and c.op == "dictset" and c.args[2] is b]
        ip.emit("mutate", b, node, how=f"list {m}", sure=True, key=(m,), value=args[0])
        for k, c in held:
            ip.st.heap[k] = mk("dictset", c.args[0], c.args[1], mk("append" if m == "append" else "concat", b, ip.val(args[0])))
        return NONE
    if ip.inner_list(b) and m in ("append", "extend") and len(args) == 1:
        if m == "append":
            ip.emit("mutate", b, node, how="list append", sure=True, key=("append",), value=args[0])
            ip.list_append(b, args[0], node)
        else:
            ip.list_extend(b, args[0], node)
        return NONE
    if b.op == "obj" and b.args[0] == "list":
        c = ip.st.heap.get(("obj", b))
        if m == "append" and len(args) == 1:
            ip.emit("mutate", b, node, how="list append", sure=True, key=("append",), value=args[0])
            ip.list_append(b, args[0], node)
            return NONE
        if m == "extend" and len(args) == 1:
            ip.list_extend(b, args[0], node)
            return NONE
        if m == "copy" and not args:
            o = mk("obj", "list", ip.uid(node))
            ip.st.heap[("obj", o)] = c if c is not None else b
            return o
        if m == "index" and args:
            l = ip.literal(b)
            if l is not None:
                return _method(ip, mk("tuple", *l), "index", args, kwargs, node)
        if m in CONTAINER_MUTATORS:
            ip.emit("mutate", b, node, how=f"list {m}", sure=True, key=(m,), value=args[-1] if args else NONE)
            l = ip.literal(b)
            if l is not None and m == "pop" and (not args or is_const(args[0])):
                i = cval(args[0]) if args else -1
                if isinstance(i, int) and -len(l) <= i < len(l):
                    v = l.pop(i)
                    ip.st.heap[("obj", b)] = mk("list", *l)
                    return v
            if l is not None and m == "insert" and len(args) == 2 and is_const(args[0]):
                l.insert(cval(args[0]), args[1])
                ip.st.heap[("obj", b)] = mk("list", *l)
                return NONE
            if l is not None and m == "remove" and args and ip.expand is not None and all(x.op == "const" for x in l) and is_const(ip.val(args[0])):
                v = ip.val(args[0])
                if v not in l:
                    ip.do_raise(node, explicit=True, exc=glob("builtins.ValueError"), what="ValueError")
                    ip.dead()
                l.remove(v)
                ip.st.heap[("obj", b)] = mk("list", *l)
                return NONE
            if l is not None and m == "clear":
                ip.st.heap[("obj", b)] = mk("list")
                return NONE
            if l is not None and m == "reverse":
                ip.st.heap[("obj", b)] = mk("list", *l[::-1])
                return NONE
            old = ip.val(b)
            ip.st.heap[("obj", b)] = mk("listop", m, old, tuple(ip.val(a) for a in args))
            return mk("listres", m, old, tuple(ip.val(a) for a in args))
        return None
    if b.op == "obj" and b.args[0] == "set" and ip.expand is not None and m in ("add", "discard", "remove", "update", "difference_update", "copy"):
        c = ip.st.heap.get(("obj", b))
        a = ip.val(args[0]) if args else None
        l = [a] if m in ("add", "discard", "remove") else ip.literal(args[0]) if args else []
        if a is not None and a.op != "const":
            v = scene_value(ip, a) if len(l or ()) == 1 else None
            l = [ip.expand.plain(v)] if isinstance(v, (int, str)) else l
        if c is not None and c.op == "set" and l is not None and all(x.op == "const" for x in list(c.args) + l):
            if m == "copy":
                return ip.new_set(list(c.args), node)
            ip.emit("mutate", b, node, how=f"set {m}", sure=True, key=(m,), value=NONE)
            if m in ("add", "update"):
                new = list(c.args) + [x for x in l if x not in c.args]
            else:
                if m == "remove" and l[0] not in c.args:
                    ip.do_raise(node, explicit=True, exc=glob("builtins.KeyError"), what="KeyError")
                    ip.dead()
                new = [x for x in c.args if x not in l]
            ip.st.heap[("obj", b)] = mk("set", *new)
            return NONE
        return None
    if b.op == "obj" and b.args[0] == "dict":
        c = ip.st.heap.get(("obj", b))
        if m in ("items", "keys", "values") and not args:
            return mk("call", mk("attr", b, m), (), (), 0)
        if m == "get" and args:
            k = ip.val(args[0])
            v = ip.dict_get(c, k)
            if v is not None:
                return v
            dflt = args[1] if len(args) > 1 else NONE
            if c is not None and c.op == "dict" and all(q.op == "const" for q, _ in c.args):
                if k.op == "const":
                    return dflt
                if len(c.args) <= 12:
                    r = dflt
                    for q, x in reversed(c.args):
                        r = phi(ip.truth(ip.compare("==", k, q, node)), x, r)
                    return r
            return mk("dictget", c if c is not None else b, k, dflt)
        if m == "setdefault" and args:
            k = ip.val(args[0])
            dv = args[1] if len(args) > 1 else NONE
            v = ip.dict_get(c, k)
            if v is not None:
                return v
            ip.emit("mutate", b, node, how="dict setdefault", sure=True, key=("setdefault", k), value=dv)
            if c is not None and c.op == "dict" and k.op == "const" and all(q.op == "const" for q, _ in c.args):
                ip.st.heap[("obj", b)] = mk("dict", *(c.args + ((k, dv),)))
                return dv
            old = c if c is not None else b
            r = mk("setdefault", ip.val(old), k, ip.val(dv))
            ip.st.heap[("obj", b)] = mk("dictset", old, k, r)
            return r
        if m == "copy" and not args:
            o = mk("obj", "dict", ip.uid(node))
            ip.st.heap[("obj", o)] = c if c is not None else b
            return o
        if m == "update":
            src = args[0] if args else None
            sv = ip.val(src) if src is not None else None
            ip.emit("mutate", b, node, how="dict update", sure=True, key=("update",), value=sv if sv is not None else NONE)
            if sv is not None and sv.op == "dict" and c is not None and c.op == "dict" and all(
                    q.op == "const" for q, _ in sv.args + c.args):
                d = dict(c.args)
                d.update(dict(sv.args))
                ip.st.heap[("obj", b)] = mk("dict", *d.items())
            elif sv is not None:
                ip.st.heap[("obj", b)] = mk("dictupd", c if c is not None else b, sv)
            for k, v in kwargs.items():
                if k != "**":
                    ip.setitem(b, const(k), v, node)
            return NONE
        if m == "pop" and args:
            k = ip.val(args[0])
            v = ip.dict_get(c, k)
            ip.emit("mutate", b, node, how="dict pop", sure=True, key=("pop", k), value=NONE)
            if c is not None and c.op == "dict" and k.op == "const" and all(q.op == "const" for q, _ in c.args):
                ip.st.heap[("obj", b)] = mk("dict", *[p for p in c.args if p[0] is not k])
                return v if v is not None else (args[1] if len(args) > 1 else mk("opaque", "KeyError", 0))
            old = c if c is not None else b
            ip.st.heap[("obj", b)] = mk("dictdel", old, k)
            return mk("index", old, k)
        if m in CONTAINER_MUTATORS:
            ip.emit("mutate", b, node, how=f"dict {m}", sure=True, key=(m,), value=NONE)
            ip.st.heap[("obj", b)] = mk("dict") if m == "clear" else mk("opaque", m, ip.uid(node))
            return NONE
        return None
    if is_data_container(b):
        if m in ("items", "keys", "values") and not args:
            return mk("call", mk("attr", b, m), (), (), 0)
        if m == "pop" and args:
            k = ip.val(args[0])
            v = ip.getitem(b, k, node)
            had = ip.st.heap.get(("item", b, k))
            ip.emit("mutate", b, node, how="data array removed", sure=True, key=("pop", k), value=DELETED)
            ip.st.heap[("item", b, k)] = DELETED
            if len(args) > 1:
                if had is DELETED:
                    return args[1]
                if had is None:
                    return phi(mk("cmp", "in", k, b), v, args[1])
            return v
        if m == "remove" and args:
            ip.del_item(b, args[0], node)
            return NONE
        if m == "get" and args:
            k = ip.val(args[0])
            v = ip.getitem(b, k, node)
            c = ip.truth(ip.contains(k, b, node))
            return phi(c, v, args[1] if len(args) > 1 else NONE)
        if m == "clear":
            ip.emit("mutate", b, node, how="data cleared", sure=True, key=("clear",), value=DELETED)
            for key in [k for k in ip.st.heap if k[0] == "item" and k[1] is b]:
                ip.st.heap[key] = DELETED
            ip.st.heap[("cleared", b)] = TRUE
            return NONE
        if m == "update" and args:
            sv = ip.val(args[0])
            ip.emit("mutate", b, node, how="data updated", sure=True, key=("update",), value=sv)
            if sv.op == "dict" and all(q.op == "const" for q, _ in sv.args):
                for k, v in sv.args:
                    ip.st.heap[("item", b, k)] = v
            elif sv.op == "comp" and sv.args[0] == "dict" and sv.args[1].op == "tuple":
                k, v = sv.args[1].args
                ip.st.heap[("gen", b, k)] = mk("gen", v, sv.args[2], sv.args[4])
            elif is_data_container(sv):
                ip.st.heap[("from", b)] = sv
            return NONE
        if m == "set_array" and len(args) == 2:
            ip.setitem(b, args[1], args[0], node)
            return NONE
        if m == "setdefault" and args:
            k = ip.val(args[0])
            c = ip.truth(ip.contains(k, b, node))
            ip.branch(c, lambda: NONE, lambda: (ip.setitem(b, k, args[1], node), NONE)[1])
            return ip.getitem(b, k, node)
        return None
    return None


# ---------------------------------------------------------------------- raising
SAFE = {"numpy.full", "numpy.zeros", "numpy.ones", "numpy.empty", "numpy.arange", "builtins.len", "builtins.list",
        "builtins.tuple", "builtins.dict", "builtins.set", "builtins.range", "builtins.zip", "builtins.enumerate",
        "builtins.isinstance", "builtins.sorted", "builtins.str", "builtins.bool", "builtins.type", "builtins.print",
        "numpy.asarray", "numpy.asanyarray", "numpy.abs", "numpy.ones_like", "numpy.zeros_like", "numpy.full_like",
        "gmsh.finalize", "gmsh.clear", "builtins.repr", "builtins.hash", "builtins.id", "contextlib.suppress", "warnings.warn"}
SAFE_METHODS = {"any", "all", "copy", "items", "keys", "values", "get", "startswith", "endswith", "pop", "append",
                "astype", "tolist", "lower", "upper", "update", "setdefault", "extend", "format", "join"}


def never_raises(f):
    if f.op == "glob":
        n = f.args[0]
        return n in SAFE or n.endswith("Error") or n.endswith("Exception") or n.endswith("Warning")
    if f.op == "attr":
        return f.args[1] in SAFE_METHODS
    return False


# ---------------------------------------------------------------------- effects and results
def effects(ip, f, args, kwargs, t, node):
    if f.op == "glob":
        n = f.args[0]
        if n in ("gmsh.initialize", "gmsh.finalize"):
            ip.st.heap[("attr", glob("gmsh"), "session")] = const("open" if n.endswith("initialize") else "closed")
        if n in NP_MUTATORS and len(args) > NP_MUTATORS[n]:
            tgt = args[NP_MUTATORS[n]]
            ip.emit("mutate", tgt, node, how=f"{n} writes its argument", sure=True, key=("elem", None), value=t)
            ip.arr_store(tgt, mk("opaque", n, 0), t)
        out = kwargs.get("out")
        if n.startswith("numpy.") and out is not None and out is not NONE:
            tgts = list(out.args) if out.op == "tuple" else [out]
            for x in tgts:
                ip.emit("mutate", x, node, how=f"out= of {n}", sure=True, key=("elem", None), value=t)
                ip.arr_store(x, None, t)
        return
    if f.op == "attr":
        b, m = f.args
        inpl = kwargs.get("inplace")
        if inpl is not None and inpl is not FALSE:
            ip.emit("mutate", b, node, how=f"{m}(inplace)", sure=is_const(inpl, True), key=("method", m), value=t)
        if m in MESH_MUTATORS:
            ts = ip.types(b)
            if not (ts is not None and ts <= {"Plotter"}):
                ip.emit("mutate", b, node, how=f"{m}()", sure=True, key=("method", m), value=t)
                if m in ("clear_data", "clear_cell_data"):
                    clear_container(ip, mk("attr", b, "cell_data"))
                if m in ("clear_data", "clear_point_data"):
                    clear_container(ip, mk("attr", b, "point_data"))
        elif m in CONTAINER_MUTATORS:
            ts = ip.types(b)
            if ts is None or not ts <= IMMUTABLE:
                ip.emit("mutate", b, node, how=f"{m}()", sure=True, key=(m,), value=args[-1] if args else NONE)
                if m == "append" and args:
                    seq_append(ip, b, args[0])
                elif m in ("sort", "fill"):
                    ip.arr_store(b, None, t)
                if m not in ("sort", "fill"):
                    ip.changed(b, node)
                    if ip.expand is not None and b.op == "call":
                        ip.st.heap[("arr", b)] = mk("opaque", "changed", ip.uid(node))
        elif m[:1].isupper() and m.startswith(VTK_MUTATORS):
            ip.emit("mutate", b, node, how=f"{m}()", sure=True, key=("method", m), value=t)
        out = kwargs.get("out")
        if out is not None and out is not NONE:
            ip.emit("mutate", out, node, how=f"out= of {m}", sure=True, key=("elem", None), value=t)


def seq_append(ip, b, v):
    k = ("obj", b)
    c = ip.st.heap.get(k)
    ip.st.heap[k] = mk("append", c if c is not None else b, v)


def clear_container(ip, c):
    for key in [k for k in ip.st.heap if k[0] in ("item", "gen", "from") and k[1] is c]:
        if key[0] == "item":
            ip.st.heap[key] = DELETED
        else:
            del ip.st.heap[key]
    ip.st.heap[("cleared", c)] = TRUE


def result(ip, t):
    """Post-process the result of an external call (carry data to derived meshes)."""
    f = t.args[0]
    if f.op == "attr" and f.args[1] in MOVES and any(k == "inplace" and v is TRUE for k, v in t.args[2]):
        b, m = f.args
        ts = ip.types(b)
        if ts is not None and ts <= MESHES:
            pts = mk("attr", b, "points")
            cur = ip.st.heap.pop(("attr", b, "points"), None)
            cur = ip.val(cur if cur is not None else pts)
            kw = tuple((k, v) for k, v in t.args[2] if k != "inplace")
            if m == "translate" and (t.args[1] or dict(kw).get("xyz") is not None):
                new = mk("bin", "+", cur, t.args[1][0] if t.args[1] else dict(kw)["xyz"])
            else:
                new = mk("call", glob("pvmodel." + m), (cur,) + t.args[1], kw, 0)
            ip.st.heap[("arr", pts)] = new
            return b
    if f.op == "attr" and f.args[1] in ("copy", "cast_to_unstructured_grid", "cast_to_structured_grid", "translate",
                                        "rotate_vector", "rotate_x", "rotate_y", "rotate_z", "clean"):
        b, m = f.args
        ts = ip.types(b)
        if ts is not None and ts <= MESHES:
            deep = m in DEEP and not any(k == "deep" and v is FALSE for k, v in t.args[2])
            deep = deep and not (t.args[1] and m == "copy" and t.args[1][0] is FALSE)
            h = ip.st.heap
            for k in list(h):
                if k[0] in ("item", "gen", "cleared", "from") and k[1].op == "attr" and k[1].args[0] is b \
                        and k[1].args[1] in DATA_CONTAINERS:
                    v = h[k]
                    if deep and k[0] == "item" and v is not DELETED:
                        v = mk("dup", ip.val(v), t)
                    h[(k[0], mk("attr", t, k[1].args[1])) + k[2:]] = v
            pts = mk("attr", b, "points")
            cur = h.get(("attr", b, "points"))
            pv_ = ip.val(cur if cur is not None else pts)
            if m in ("copy", "cast_to_unstructured_grid", "cast_to_structured_grid"):
                if pv_ is not pts:
                    h[("arr", mk("attr", t, "points"))] = pv_
            elif m == "translate" and (t.args[1] or dict(t.args[2]).get("xyz") is not None):
                h[("arr", mk("attr", t, "points"))] = mk("bin", "+", pv_, t.args[1][0] if t.args[1] else dict(t.args[2])["xyz"])
            elif m.startswith("rotate") and pv_ is not pts:
                h[("arr", mk("attr", t, "points"))] = mk("call", glob("pvmodel." + m), (pv_,) + t.args[1], t.args[2], 0)
            elif m == "clean" and pv_ is not pts:
                h[("arr", mk("attr", t, "points"))] = mk("call", glob("pvmodel.clean"), (pv_,), (), 0)
    return t


def fresh_data(ip, container):
    """True when *container* belongs to a mesh built by a constructor (no data yet)."""
    m = container.args[0]
    if ("cleared", container) in ip.st.heap:
        return True
    if m.op != "call":
        return False
    f = m.args[0]
    if f.op == "glob" and f.args[0] in MESH_CTORS and f.args[0] not in ("pyvista.merge", "pyvista.Line",
                                                                        "pyvista.MultipleLines", "pyvista.Plane",
                                                                        "pyvista.lines_from_points"):
        return True
    return False
