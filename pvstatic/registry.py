"""Property id -> (rule function, evidence metadata, needs the value graph)."""
from importlib import import_module

TABLE = {
    "C01": ("inputs", "run"),
    "C02": ("builders", "run_repeat"),
    "C03": ("builders", "run_own"),
    "C04": ("ghost", "run"),
    "C05": ("gmsh", "run"),
    "C06": ("options", "run"),
    "C07": ("layout", "run_extrude"),
    "C08": ("layout", "run_layers"),
    "C09": ("layout", "run_merge"),
    "C10": ("geometry", "run_stack"),
    "C11": ("shapes", "run_straight"),
    "C12": ("subdivide", "run_subdivision"),
    "C13": ("shapes", "run_shapes"),
    "C14": ("celltypes", "run"),
    "C15": ("groups", "run"),
    "C16": ("prisms", "run"),
    "C17": ("sweep", "run"),
    "C18": ("state", "run"),
    "C19": ("refusals", "run"),
    "C20": ("levels", "run"),
    "C21": ("lines", "run"),
    "C22": ("cells", "run"),
    "C23": ("remap", "run"),
    "C24": ("fuse", "run"),
    "C25": ("offset", "run"),
    "C26": ("tessel", "run"),
    "C27": ("wells", "run"),
    "C28": ("outline", "run"),
    "C29": ("bridges", "run"),
}


def get(prop):
    mod, fn = TABLE[prop][:2]
    m = import_module("pvstatic.rules." + mod)
    meta = dict(level="other", explanation=(getattr(m, fn).__doc__ or m.__doc__ or "").strip(),
                assumptions=["tables of numpy/pyvista sharing and in-place behaviour in pvstatic/extmodel.py",
                             "calls that resolve inside the package are inlined; external calls may raise unless listed"])
    return getattr(m, fn), meta, not (len(TABLE[prop]) > 2 and TABLE[prop][2] == "noip")
