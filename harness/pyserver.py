#!/usr/bin/python3
"""Runs the analysis scripts of the repository (scripts/*.py) on request of a C++ harness.

One request per line on stdin: an operation and its arguments.  Answers on stdout: "OK", then
"name n v1 ... vn" groups with hexadecimal floating point values, or "ERR message".
"""
import importlib, io, os, re, runpy, sys, types

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO + "/scripts")
sys.dont_write_bytecode = True
out = os.fdopen(os.dup(1), "w")
sys.stdout = open(os.devnull, "w")
os.dup2(sys.stdout.fileno(), 1)
import warnings
warnings.simplefilter("ignore")


class Meta(type):
    def __getattr__(cls, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Any()


class Any(metaclass=Meta):
    """stands for anything of a display package that is not needed here"""

    def __init__(self, *a, **k):
        pass

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Any()

    def __call__(self, *a, **k):
        return Any()


def attr(n):
    if n.startswith("__"):
        raise AttributeError(n)
    return Any


PLOTS = os.environ.get("VERIF_PLOTS") == "1"
STUBS = ["vtk", "pygmsh"]
if not PLOTS:
    STUBS += ["matplotlib", "matplotlib.pyplot", "matplotlib.ticker", "matplotlib.patches"]
for n in STUBS:
    m = types.ModuleType(n)
    m.__path__ = []
    m.__getattr__ = attr
    sys.modules[n] = m
    if "." in n:
        setattr(sys.modules["matplotlib"], n.split(".")[1], m)
import numpy as np  # noqa: E402

DRAWN = []  # what the script under test has drawn: (kind, label, axes, arrays...)
if PLOTS:
    np.set_printoptions(precision=16)
    os.environ.setdefault("MPLCONFIGDIR", os.getcwd())
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from matplotlib.axes import Axes

    def num(a):
        try:
            return np.asarray(a, dtype=float)
        except (TypeError, ValueError):
            return None

    def watch(name, rec):
        orig = getattr(Axes, name)

        def f(self, *a, **k):
            r = orig(self, *a, **k)
            rec(self, r, a, k)
            return r
        setattr(Axes, name, f)

    def lines(ax, r, a, k):
        for l in r:
            DRAWN.append(("line", l.get_label(), ax, num(l.get_xdata()), num(l.get_ydata())))

    def field(ax, r, a, k):
        if ax.get_label() == "<colorbar>":
            return
        v = [num(x) for x in a[:3]]
        if len(a) >= 3 and all(x is not None for x in v):
            DRAWN.append(("map", "", ax, *v))
        else:
            DRAWN.append(("map", "", ax, v[0]))

    watch("plot", lines)
    for n in ("contourf", "contour", "pcolormesh", "pcolor"):
        watch(n, field)
    watch("imshow", lambda ax, r, a, k: DRAWN.append(("image", "", ax, num(a[0]))))
    plt.pause = lambda *a, **k: None
    plt.show = lambda *a, **k: None

MODS = {}


def mod(name):
    if name not in MODS:
        MODS[name] = importlib.import_module(name)
    return MODS[name]


def put(name, *vals):
    v = []
    for x in vals:
        v += [float(y) for y in np.asarray(x, dtype=float).ravel()]
    return "%s %d %s" % (name, len(v), " ".join(y.hex() for y in v))


class State:
    pass


S = State()


def arr(tok, *shape):
    a = np.array([float.fromhex(t) for t in tok], dtype=float)
    return a.reshape(shape) if shape else a


def op_screen(module, fn):
    S.scr = s = mod(module).TeufelScreen.read(fn)
    nx, ny = s.shape()
    return [put("head", nx, ny, s.nots, s.t0, s.dt, s.dtx, s.dty), put("geo", s.origin, s.normal, s.dX, s.dY), put("shape", s.A.shape), put("A", s.A)]


def op_pixel(ix, iy):
    s, ix, iy = S.scr, int(ix), int(iy)
    E, B = s.getFieldTrace(ix, iy)
    r = [put("pos", s.screenPos(ix, iy)), put("t0", s.getStartTime(ix, iy)), put("E", E), put("B", B), put("power", s.totalPowerDensity(ix, iy)),
         put("plane", *s.getInPlaneFields(ix, iy))]
    for k, f in (("H", s.spectralDensityH), ("V", s.spectralDensityV)):
        f, a = f(ix, iy)
        r += [put("f" + k, f), put("a" + k, a)]
    if hasattr(s, "df"):
        r += [put("df", s.df()), put("fr", [s.frequency(k) for k in range(int(s.nots))])]
    return r


def op_setpixel(ix, iy, *v):
    d = arr(v, -1, 6)
    S.scr.setFieldTrace(int(ix), int(iy), d[:, 0:3], d[:, 3:6])
    return [put("A", S.scr.A)]


def op_screenwrite(fn):
    S.scr.write(fn)
    return []


def op_watch(fn):
    w = mod("teufel").TeufelWatch.read(fn)
    r = [put("n", w.NOP)]
    for k in ("x", "y", "z", "bgx", "bgy", "bgz", "gamma"):
        r.append(put(k, getattr(w, k)))
    for k, v in w.parameters().items():
        r.append(put("p_" + k, v))
    return r


def op_script(name, *args):
    """run a script as a program; -> the numbers it prints"""
    old = sys.argv, sys.stdout
    sys.argv, sys.stdout = [name] + list(args), io.StringIO()
    try:
        runpy.run_path(REPO + "/scripts/" + name, run_name="__main__")
    finally:
        txt = sys.stdout.getvalue()
        sys.argv, sys.stdout = old
    return [put("v", [float(x) for l in txt.splitlines() if args[0] not in l for x in re.findall(r"(?<![\w.])[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?", l)])]


def op_plot(name, *args):
    """run a plot script; -> what it has drawn and the numbers printed"""
    del DRAWN[:]
    mf = mod("MeshedFields")
    m = mf.MeshedField
    keep = m.ShowMeshedField, mf.phaseLUT
    mf.phaseLUT = lambda *a, **k: None
    m.ShowMeshedField = lambda self, *a, **k: DRAWN.append(("cells", str(k.get("scalarTitle", "")), None, num(k["scalars"] if "scalars" in k else a[0])))
    try:
        r = op_script(name, *args)
    finally:
        m.ShowMeshedField, mf.phaseLUT = keep
    for i, (kind, label, ax, *v) in enumerate(DRAWN):
        t = "|".join([label, ax.get_xlabel() if ax else "", ax.get_ylabel() if ax else ""])
        for j, a in enumerate(v):
            r.append(put("%s:%d:%d:%s:%s" % (kind, i, j, "x".join(map(str, a.shape)), re.sub(r"\s+", "_", t)), a))
    del DRAWN[:]
    plt.close("all")
    return r


def op_beamlog(fn):
    return [put(k, v) for k, v in mod("teufel").readTeufelBeamLog(fn).items()]


def op_sdds(fn, *names):
    d = mod("sdds").SDDS(0)
    d.load(fn)
    r = []
    for n in names:
        if n.startswith("+"):
            r.append(put(n[1:], d.getParameterValue(n[1:])))
        else:
            r.append(put(n, d.getColumnData(n)))
    return r


def meshout():
    m = S.mesh
    return [put("np", m.Np), put("points", m.points), put("tri", m.triangles), put("pos", *m.pos), put("nt", m.Nt), put("dt", m.dt), put("t0", m.t0), put("A", m.A)]


def op_meshread(how, fn):
    c = mod("MeshedFields").MeshedField
    S.mesh = c.ReadMeshedField(fn) if how == "field" else c.ReadMesh(fn)
    return meshout()


def op_meshmake(np_, nt, *v):
    np_, nt = int(np_), int(nt)
    S.mesh = mod("MeshedFields").MeshedField(arr(v[:3 * np_], -1, 3), np.array([int(t) for t in v[3 * np_:3 * (np_ + nt)]]).reshape(-1, 3))
    return meshout()


def op_meshfield(nt, dt, *v):
    m = S.mesh
    m.Nt, m.dt = int(nt), float.fromhex(dt)
    m.t0 = arr(v[:m.Np])
    m.A = arr(v[m.Np:], m.Np, m.Nt, 6)
    return []


def op_meshgeo():
    m = S.mesh
    return [put("area", m.MeshArea()), put("normals", m.MeshNormals()), put("normal", *[m.MeshNormal(i) for i in range(m.Np)]), put("box", *m.BoundingBox())]


def op_meshflow():
    m = S.mesh
    return [put("S", *[m.EnergyFlowVector(i) for i in range(m.Np)]), put("P", *[m.NormalEnergyFlow(i) for i in range(m.Np)]),
            put("trace", *[m.FieldTrace(i) for i in range(m.Np)])]


def op_meshat(*t):
    return [put("F", *[S.mesh.FieldsAtTime(float.fromhex(x)) for x in t])]


def op_meshwrite(how, fn):
    (S.mesh.WriteMeshedField if how == "field" else S.mesh.WriteMesh)(fn)
    return []


for line in sys.stdin:
    t = line.split()
    try:
        r = globals()["op_" + t[0]](*t[1:])
        out.write("OK " + " ".join(r) + "\n")
    except (Exception, SystemExit) as e:
        out.write("ERR %s: %s\n" % (type(e).__name__, str(e).replace("\n", " ")))
    out.flush()
