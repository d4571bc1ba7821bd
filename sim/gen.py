"""Seeded generators: isomers, Extended XYZ text, command lines, directory layouts."""
import bz2
import gzip
import lzma
import math
import random

S3 = math.sqrt(3)


def _ring(n, r, z=0.0, ph=0.0):
    return [(r * math.cos(2 * math.pi * i / n + ph), r * math.sin(2 * math.pi * i / n + ph), z) for i in range(n)]


# name -> (symbols, positions, rotational symmetry number).  For linear isomers the project's convention
# (asserted by its own test_io.py) is 1, with or without an inversion centre.
GEOMS = {
    "tri_eq": (["Pt"] * 3, _ring(3, 1.5), 6),
    "tri_iso": (["Au"] * 3, [(0, 0, 0), (2.6, 0, 0), (1.3, 3.6, 0)], 2),
    "tri_scal": (["Pt"] * 3, [(0, 0, 0), (2.5, 0, 0), (0.6, 3.9, 0)], 1),
    "water": (["O", "H", "H"], [(0, 0, 0.1173), (0, 0.7572, -0.4692), (0, -0.7572, -0.4692)], 2),
    "hocl": (["O", "H", "Cl"], [(0, 0, 0), (0.96, 0, 0), (-0.4, 1.65, 0)], 1),
    "tetra": (["P"] * 4, [(1, 1, 1), (1, -1, -1), (-1, 1, -1), (-1, -1, 1)], 12),
    "square": (["Pt"] * 4, _ring(4, 1.8), 8),
    "rhombus": (["Au"] * 4, [(2.4, 0, 0), (-2.4, 0, 0), (0, 1.3, 0), (0, -1.3, 0)], 4),
    "nh3": (["N", "H", "H", "H"], [(0, 0, 0.35)] + _ring(3, 0.94, -0.05), 3),
    "chain4": (["Pt", "Au", "Cu", "Ag"], [(0, 0, 0), (2.4, 0, 0), (3.5, 2.3, 0.3), (0.5, 1.2, 3.1)], 1),
    "bipyr5": (["Pt"] * 5, _ring(3, 1.6) + [(0, 0, 2.3), (0, 0, -2.3)], 6),
    "sqpyr5": (["Pt"] * 5, _ring(4, 1.8) + [(0, 0, 2.0)], 4),
    "ch4": (["C", "H", "H", "H", "H"], [(0, 0, 0)] + [(.63, .63, .63), (.63, -.63, -.63), (-.63, .63, -.63), (-.63, -.63, .63)], 12),
    "c1_5": (["C", "H", "F", "Cl", "Br"], [(0, 0, 0), (0.63, 0.63, 0.63), (0.8, -0.8, -0.75), (-1.05, 1.0, -1.0), (-1.1, -1.15, 1.1)], 1),
    "octa": (["Pt"] * 6, _ring(4, 1.9) + [(0, 0, 1.9), (0, 0, -1.9)], 24),
    "prism6": (["Pt"] * 6, _ring(3, 1.5, 1.3) + _ring(3, 1.5, -1.3), 6),
}
GEOMS.update({
    "o2": (["O", "O"], [(0, 0, 0.6), (0, 0, -0.6)], 1),
    "au2": (["Au", "Au"], [(0, 0, 1.25), (0, 0, -1.25)], 1),
    "co": (["C", "O"], [(0, 0, 0), (0, 0, 1.13)], 1),
    "co2": (["C", "O", "O"], [(0, 0, 0), (0, 0, 1.16), (0, 0, -1.16)], 1),
    "hcn": (["H", "C", "N"], [(0, 0, -1.07), (0, 0, 0), (0, 0, 1.16)], 1),
    "hnc": (["H", "N", "C"], [(0, 0, -1.0), (0, 0, 0), (0, 0, 1.17)], 1),
    "hcch": (["H", "C", "C", "H"], [(0, 0, -1.66), (0, 0, -0.6), (0, 0, 0.6), (0, 0, 1.66)], 1),
})
BY_N = {}
for _k, _v in GEOMS.items():
    BY_N.setdefault(len(_v[0]), []).append(_k)
for _v in BY_N.values():
    _v.sort()


def r6(x):
    return float("%.6g" % x)


def gen_isomers(rng, nmax=6, hard=False, count=None, small=False):
    """A list of isomers sharing the number of frequencies."""
    natoms = rng.choice([2, 3] if small else sorted(BY_N))
    n = count or rng.choice([1, 2, 2, 3, 3, 4, 5, nmax])
    kappa = rng.choice([max(1, 3 * natoms - 6)] * 6 + [1, 2, 3, 4, 9, 12])
    if count is None and rng.random() < 0.08:
        n = rng.choice([9, 10, 11, 12, 16, 23])
        natoms = rng.choice([x for x in sorted(BY_N) if x < 5])
        if rng.random() < 0.3:
            n, natoms = rng.choice([40, 101]), rng.choice([2, 3])
    elif rng.random() < 0.04:
        kappa = rng.choice([24, 60])
    elif rng.random() < 0.04:
        kappa, n = rng.choice([180, 350, 350]), min(n, 4)        # beyond the range of double precision
    base = rng.choice([0.0, 0.0, -4433.12, -17.25, 3.5])
    intE = rng.random() < 0.06
    spread = rng.choice([0.02, 0.1, 0.1, 0.3, 1.0])
    lo, hi = rng.choice([(0.8, 8.0), (0.8, 8.0), (2.0, 30.0), (0.3, 2.0)] if kappa < 100 else [(2.0, 30.0), (3.0, 120.0)])
    out = []
    mixed = rng.random() < 0.05 and not small
    for a in range(n):
        if mixed:
            natoms = rng.choice(sorted(BY_N))
        freqs = sorted(r6(rng.uniform(lo, hi)) for _ in range(kappa))
        if rng.random() < 0.15:
            rng.shuffle(freqs)
        if rng.random() < 0.05:
            freqs = [float(round(f) or 1) for f in freqs]
        if rng.random() < 0.05:
            freqs = [freqs[0]] * kappa
        d = 0.0 if a == 0 else rng.choice([r6(rng.uniform(0, spread)), r6(rng.uniform(0, spread)), 0.0])
        e = base + d
        if intE:
            e = float(round(base)) + rng.randrange(0, 2)
        out.append({"geom": rng.choice(BY_N[natoms]), "E": r6(e) if abs(e) < 1000 else float("%.9g" % e),
                    "g": rng.choice([1, 1, 2, 3, 3, 4, 5, 7]), "freqs": freqs,
                    "shift": [r6(rng.uniform(-5, 5)) for _ in range(3)],
                    "perm": rng.randrange(10**6)})
        if rng.random() < 0.6:
            out[-1]["rot"] = [round(rng.gauss(0, 1), 3) for _ in range(4)]
    if rng.random() < 0.5:
        rng.shuffle(out)
    return out


def rotate(pos, q):
    n = math.sqrt(sum(x * x for x in q)) or 1.0
    a, b, c, d = [x / n for x in q] if any(q) else (1.0, 0.0, 0.0, 0.0)
    m = ((a * a + b * b - c * c - d * d, 2 * (b * c - a * d), 2 * (b * d + a * c)),
         (2 * (b * c + a * d), a * a - b * b + c * c - d * d, 2 * (c * d - a * b)),
         (2 * (b * d - a * c), 2 * (c * d + a * b), a * a - b * b - c * c + d * d))
    return [tuple(sum(m[i][k] * p[k] for k in range(3)) for i in range(3)) for p in pos]


def atoms_of(iso):
    sy, pos, sigma = GEOMS[iso["geom"]]
    if iso.get("rot"):
        pos = rotate(pos, iso["rot"])
    order = list(range(len(sy)))
    random.Random(iso["perm"]).shuffle(order)
    sh = iso["shift"]
    return [sy[i] for i in order], [[pos[i][k] + sh[k] for k in range(3)] for i in order], sigma


def num(x, style):
    if style == "int" and float(x).is_integer():
        return str(int(x))
    if style == "exp":
        return "%.12e" % x
    return repr(float(x))


def render_frame(iso, fmt):
    sy, pos, _ = atoms_of(iso)
    st = fmt.get("num", "repr")
    kv = [("Energy", num(iso["E"], st)), ("Multiplicity", str(int(iso["g"]))),
          ("Frequencies", '"%s"' % " ".join(num(f, st) for f in iso["freqs"]))]
    order = fmt.get("order", [0, 1, 2])
    kv = [kv[i] for i in order]
    if fmt.get("extra"):
        kv.insert(fmt["extra"] % (len(kv) + 1), ("config_type", "cluster"))
    drop = iso.get("drop")
    if drop:
        kv = [x for x in kv if x[0] != drop]
    nov = iso.get("novalue")
    if nov:                             # the property is named but its value is missing or no number
        key, how = nov
        rest = [x for x in kv if x[0] != key]
        at = [x[0] for x in kv].index(key)
        if how == "last":
            kv = rest + [(key, "")]
        else:
            new = {"bare": (key, None), "T": (key, "T"), "text": (key, "n/a"), "empty": (key, '""'), "two": (key, '"0.5 x"')}[how]
            kv = rest[:at] + [new] + rest[at:]
    comment = " ".join(x[0] if x[1] is None else "%s=%s" % x for x in kv)
    cols = fmt.get("cols")
    if fmt.get("props", True) or cols:
        comment = "Properties=species:S:1:pos:R:3%s " % {None: "", "tags": ":tags:I:1", "forces": ":forces:R:3"}[cols] + comment
    if fmt.get("pbc"):
        comment += ' pbc="F F F"'
    if fmt.get("lattice"):
        comment += ' Lattice="20.0 0.0 0.0 0.0 20.0 0.0 0.0 0.0 20.0"'
    lines = ["%d" % len(sy), comment]
    w = fmt.get("width", 14)
    for s, p in zip(sy, pos):
        lines.append("%-3s %s" % (s, " ".join(("%%%d.9f" % w) % c for c in p)))
        if cols:
            lines[-1] += {"tags": "  %d" % len(lines), "forces": "  0.1000 -0.2500 %.4f" % (0.01 * len(lines))}[cols]
    return "\n".join(lines) + "\n"


def gen_fmt(rng):
    order = [0, 1, 2]
    if rng.random() < 0.3:
        rng.shuffle(order)
    return {"num": rng.choice(["repr", "repr", "int", "exp"]), "order": order, "extra": rng.choice([0, 0, 1, 2, 3]),
            "props": rng.random() < 0.6, "pbc": rng.random() < 0.15, "width": rng.choice([12, 14, 18]),
            "cols": rng.choice([None] * 8 + ["tags", "forces"]), "lattice": rng.random() < 0.08, "crlf": rng.random() < 0.04}


def render(isomers, fmt):
    txt = "".join(render_frame(i, fmt) for i in isomers)
    if fmt.get("notrail"):
        txt = txt[:-1]
    if fmt.get("crlf"):
        txt = txt.replace("\n", "\r\n")
    return txt


def model_isomers(isomers):
    """The data the file denotes: coordinates as printed (9 decimals)."""
    from model import moments
    out = []
    for i in isomers:
        sy, pos, sigma = atoms_of(i)
        pos = [[float("%.9f" % c) for c in p] for p in pos]
        out.append({"E": i["E"], "g": i["g"], "freqs": i["freqs"], "sigma": sigma,
                    "moments": [float(x) for x in moments(sy, pos)]})
    return out


DIRS = ["", "", "", "data", "runs", "runs.dat", "a.xyz.d", "weird dir", "date/deep", "\u00fcn\u00ef"]
INS = ["in.xyz", "in.xyz", "Pt5_isomers.xyz", "data.xyz", "cluster", "iso.extxyz", "v1.2.xyz", "update.xyz"]
# names that mean something else to the reader (other formats, "file@index") or to programs in general
ODD_INS = ["clu@300K.xyz", "in.xyz@2", "POSCAR_opt.xyz", "vasp1.xml.xyz", "CONFIG_7.xyz", "isomers.txt", "Au.1", "in.dat", "coord", "HISTORY",
           "a[1].xyz", "50%.xyz", "{x}.xyz", "~in.xyz", "in xyz", "a.xyz.xyz", "$HOME.xyz", "#in.xyz", "in.XYZ", "traj.traj", "in;1.xyz", "x" * 120 + ".xyz"]
OUTS = [None, None, None, "out", "out", "results/run1", "dat", "plot.data", "o.xyz", "data/data", "run-1.5K"]


ODD_OUTS = ["~out", "~/o", "~", "$HOME", "${USER}/o", "a b", "[x]", "50%", "{T}", "Out.Upper", "o_C.dat", "o_P", "out.svg", "#o", "o@1", "res;1", "out.", "\u00f6/\u00fc",
            "x" * 100, "o.dat.xyz/run.xyz", "_", "C", "*"]


def gen_cli(rng, plot_p=0.25, small=False):
    """A command line with its directory layout."""
    vib = rng.choice([[], ["c"], ["q"], ["q"]])
    el = rng.choice([[], ["e"], ["s"], ["s"]])
    rot = rng.choice([[], ["r"]])
    fl = el + vib + rot
    if not fl:
        fl = [rng.choice("escqr")]
    ind = rng.choice(DIRS)
    inp = (ind + "/" if ind else "") + rng.choice(INS if rng.random() < 0.82 else ODD_INS)
    if rng.random() < 0.06:
        inp += rng.choice([".gz", ".gz", ".bz2", ".xz"])
    cwd = rng.choice(["", "", "", ind, "elsewhere"])
    out = rng.choice(OUTS)
    if out is not None and rng.random() < 0.2:
        out = rng.choice(ODD_OUTS)
    tmax = rng.choice([None, 0, 1, 10, 20, 50, 100, 300, 500, 1000, rng.choice([1500, 3000])] if not small else [0, 5, 10, 20, 50, 100, 200])
    if not small and rng.random() < 0.35:
        tmax = rng.choice([2 ** rng.randrange(3, 11) + rng.choice([-2, -1, 0, 1]), rng.randrange(1, 1300), 10 ** rng.randrange(1, 4) + rng.choice([-1, 1])])
    if tmax is not None and rng.random() < 0.15:
        tmax += rng.choice([0.5, 0.25, 0.75])
    tmin = rng.choice([None, None, 0, 1, 5, 10, 0.5, 100, 250])
    hi = 500 if tmax is None else tmax
    if tmin is not None and tmin > hi:
        tmin = None
    plot = rng.random() < plot_p
    c = {"flags": fl, "in": inp, "cwd": cwd, "out": out, "tmin": tmin, "tmax": tmax, "plot": plot,
         "fmt": rng.choice([None, None, "svg", "SVG", "png", "pdf"]) if plot else None,
         "size": rng.choice([None, [6, 4], [3.5, 2.5]]) if plot else None,
         "style": rng.choice(["sep", "sep", "join", "JOIN", "SEP"]), "abs": rng.random() < 0.25,
         "eq": rng.random() < 0.5, "pos": rng.choice(["first", "last"])}
    return c


def relto(path, cwd):
    import os.path
    return os.path.relpath("/" + path, "/" + cwd) if cwd else path


def argv(c, root_w):
    """argv for a command; root_w: absolute path of the working tree (for absolute paths)."""
    a = []
    st = c["style"]
    fl = [f.upper() if st.isupper() else f for f in c["flags"]]
    if st.lower() == "join":
        a.append("-" + "".join(fl))
    else:
        a += ["-" + f for f in fl]

    def opt(name, val):
        if c["eq"]:
            a.append("--%s=%s" % (name, val))
        else:
            a.extend(["--" + name, str(val)])
    if c["out"] is not None:
        opt("out_file", (root_w + "/" + c["out"]) if c["abs"] else relto(c["out"], c["cwd"]))
    if c["tmin"] is not None:
        opt("min_temp", c["tmin"])
    if c["tmax"] is not None:
        opt("max_temp", c["tmax"])
    if c["plot"]:
        if c["fmt"]:
            opt("plot_format", c["fmt"])
        if c["size"]:
            a.extend(["--size", str(c["size"][0]), str(c["size"][1])])
        a.append("--plot")
    inp = (root_w + "/" + c["in"]) if c["abs"] else relto(c["in"], c["cwd"])
    return [inp] + a if c["pos"] == "first" else a + [inp]


def is_packed(name):
    return name.endswith((".gz", ".bz2", ".xz"))


def packed(name, text, keep=None):
    """The bytes of a file of this name: ASE takes names ending like this for compressed ones.  keep: cut there"""
    b = text.encode()
    if name.endswith(".gz"):
        b = gzip.compress(b, mtime=0)
    elif name.endswith(".bz2"):
        b = bz2.compress(b)
    elif name.endswith(".xz"):
        b = lzma.compress(b)
    return b if keep is None else b[:int(len(b) * keep)]


def outputs(c):
    """Documented output names, relative to the working tree: ({key: table}, {key: image})."""
    import posixpath
    if c["out"] is not None:
        base = c["out"] + "_"
    else:
        d, b = posixpath.split(c["in"])
        base = posixpath.join(d, b.replace(".xyz", "_"))
    tabs = {k: base + k + ".dat" for k in "CP"}
    ext = (c["fmt"] or "svg").lower()
    imgs = {k: base + k + "." + ext for k in "CP"} if c["plot"] else {}
    return tabs, imgs


def trange(c):
    return (0.0 if c["tmin"] is None else float(c["tmin"])), (500.0 if c["tmax"] is None else float(c["tmax"]))


FAIL_ERR = {"READ": ["EIO", "EIO", "ESTALE", "ETIMEDOUT", "EACCES", "ENOMEM", "EBADMSG"],
            "OPEN": ["EACCES", "EMFILE", "EIO", "ENOSPC", "EROFS", "ENOMEM", "EPERM", "ENFILE", "ESTALE", "EBUSY", "ETXTBSY", "ENOLCK"],
            "WRITE": ["EIO", "ENOSPC", "ENOSPC", "EDQUOT", "EFBIG", "ESTALE", "EPERM", "ETIMEDOUT", "EROFS", "EACCES"], "CLOSE": ["EIO", "ENOSPC", "EDQUOT", "ESTALE"],
            "RENAME": ["EIO", "EACCES"], "UNLINK": ["EACCES", "EIO"], "FSYNC": ["EIO"], "TRUNC": ["EIO"],
            "MKDIR": ["EACCES"]}


def twist(rng, iso):
    """Another value with the same number of characters."""
    d = dict(iso)
    what = rng.choice(["g", "E", "freq", "geom"])
    if what == "g":
        d["g"] = iso["g"] % 9 + 1
    elif what == "E":
        s = repr(float(iso["E"]))
        if s[-1].isdigit() and "." in s and "e" not in s and not s.endswith(".0"):
            t = s[:-1] + str((int(s[-1]) % 8) + 1)
            if float(t) != iso["E"]:
                d["E"] = float(t)
    elif what == "freq":
        k = rng.randrange(len(iso["freqs"]))
        s = repr(iso["freqs"][k])
        if s[-1].isdigit() and not s.endswith(".0") and "e" not in s:
            t = float(s[:-1] + str((int(s[-1]) % 8) + 1))
            d["freqs"] = iso["freqs"][:k] + [t] + iso["freqs"][k + 1:]
    else:
        d["geom"] = rng.choice([g for g in BY_N[len(GEOMS[iso["geom"]][0])]])
    return d
