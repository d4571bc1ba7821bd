"""Reading back what an SVG image shows."""
import math, re
import xml.etree.ElementTree as ET
import numpy as np

NS = "{http://www.w3.org/2000/svg}"


class Parser(ET.TreeBuilder):
    def comment(self, data):
        self.start("comment", {})
        self.data(data)
        self.end("comment")


def parse(data):
    return ET.fromstring(data, parser=ET.XMLParser(target=Parser()))


def path_points(d):
    out = []
    for cmd, args in re.findall(r"([MLQCz])([^MLQCz]*)", d or ""):
        v = [float(x) for x in re.findall(r"[-+0-9.eE]+", args)]
        if cmd in "ML":
            out += [(v[i], v[i + 1]) for i in range(0, len(v) - 1, 2)]
        elif v:
            out.append((v[-2], v[-1]))
    return out


def gid(e):
    return e.get("id") or ""


def lim(e, name):
    return [g for g in e if g.tag == NS + "g" and gid(g).startswith(name)]


def style(e, key):
    m = re.search(key + r":\s*([^;]+)", e.get("style") or "")
    return m.group(1).strip() if m else (e.get(key) or "")


def read(data):
    """-> {'size': (w, h), 'axes': [ {...} ]}"""
    root = parse(data)
    fig = {"size": (root.get("width"), root.get("height")), "axes": []}
    figs = [g for g in root if g.tag == NS + "g" and gid(g).startswith("figure")]
    for f in figs:
        for ax in lim(f, "axes"):
            a = {"lines": [], "hlines": [], "texts": [], "legend": []}
            patches = lim(ax, "patch")
            a["box"] = None
            if patches:
                pts = path_points(next(patches[0].iter(NS + "path")).get("d"))
                a["box"] = (min(p[0] for p in pts), min(p[1] for p in pts), max(p[0] for p in pts), max(p[1] for p in pts))
            for g in lim(ax, "line2d"):
                ps = list(g.iter(NS + "path"))
                pts = []
                for p in ps:
                    pts += path_points(p.get("d"))
                if ps and style(ps[0], "stroke-dasharray") not in ("", "none"):
                    a["hlines"].append(pts)         # dashed: a reference line, not a curve
                    continue
                a["lines"].append({"pts": pts, "stroke": style(ps[0], "stroke") if ps else "",
                                   "width": style(ps[0], "stroke-width") if ps else ""})
            for g in lim(ax, "LineCollection"):
                uses = [p for p in g.iter(NS + "path")]
                for p in uses:
                    a["hlines"].append(path_points(p.get("d")))
                if len(list(g.iter(NS + "use"))):
                    pass
            for axis in lim(ax, "matplotlib.axis"):
                # the last text of an axis group is its label, the others are ticks
                for t in [g for g in axis if g.tag == NS + "g" and gid(g).startswith("text")]:
                    a["texts"].append("".join(c.text or "" for c in t.iter("comment")).strip())
            for lg in lim(ax, "legend"):
                for t in [g for g in lg.iter(NS + "g") if gid(g).startswith("text")]:
                    a["legend"].append("".join(c.text or "" for c in t.iter("comment")).strip())
            fig["axes"].append(a)
    return fig


def near(pt, poly, tol):
    best = 1e18
    for (x1, y1), (x2, y2) in zip(poly, poly[1:]):
        dx, dy = x2 - x1, y2 - y1
        l2 = dx * dx + dy * dy
        u = 0 if l2 == 0 else max(0, min(1, ((pt[0] - x1) * dx + (pt[1] - y1) * dy) / l2))
        d = math.hypot(pt[0] - x1 - u * dx, pt[1] - y1 - u * dy)
        if d < best:
            best = d
            if best <= tol:
                return True
    return best <= tol


def check(fig, series, x, xlim, ylim, labels, ylabel, hlines, size, linewidth=None):
    """Does the image show exactly this?  -> error text or None"""
    if len(fig["axes"]) != 1:
        return "%d axes" % len(fig["axes"])
    a = fig["axes"][0]
    if size is not None:
        want = ["%.6g" % (72 * s) for s in size]
        got = ["%.6g" % float((s or "0").replace("pt", "")) for s in fig["size"]]
        if want != got:
            return "size %s, expected %s" % (got, want)
    if len(a["lines"]) != len(series):
        return "%d curves, expected %d" % (len(a["lines"]), len(series))
    if ylabel is not None and ylabel not in a["texts"]:
        return "label %r is missing (%s)" % (ylabel, a["texts"])
    if (labels or []) != a["legend"]:
        return "legend %s, expected %s" % (a["legend"], labels)
    if hlines is not None and len(a["hlines"]) != len(hlines):
        return "%d reference lines, expected %d" % (len(a["hlines"]), len(hlines))
    if linewidth is not None:
        for l in a["lines"]:
            if l["pts"] and abs(float(l["width"] or 1) - linewidth) > 1e-6:     # a width of 1 is not written
                return "line width %s, expected %s" % (l["width"] or 1, linewidth)
    if xlim is None or ylim is None or a["box"] is None:
        return None
    x0, y0, x1, y1 = a["box"]

    def tr(px, py):
        return (x0 + (px - xlim[0]) / (xlim[1] - xlim[0]) * (x1 - x0), y1 - (py - ylim[0]) / (ylim[1] - ylim[0]) * (y1 - y0))
    for k, (line, ys) in enumerate(zip(a["lines"], series)):
        for j, (px, py) in enumerate(zip(x, ys)):
            if not any(0 <= q < len(ys) and math.isfinite(ys[q]) for q in (j - 1, j + 1)):
                continue                        # an isolated point draws nothing
            if not (math.isfinite(py) and ylim[0] <= py <= ylim[1] and min(xlim) <= px <= max(xlim)):
                continue
            if not near(tr(px, py), line["pts"], 0.5):
                return "curve %d does not pass through (%g, %g)" % (k + 1, px, py)
        if all(map(math.isfinite, ys)):
            continue
        # where a value is undefined nothing may be drawn
        segs = [(tr(x[j], ys[j]),) * 2 for j in range(len(ys)) if math.isfinite(ys[j])] + [
                (tr(x[j], ys[j]), tr(x[j + 1], ys[j + 1])) for j in range(len(ys) - 1)
                if math.isfinite(ys[j]) and math.isfinite(ys[j + 1])]
        for q in line["pts"]:
            if x0 < q[0] < x1 and y0 < q[1] < y1 and not any(near(q, g, 1.0) for g in segs):
                return "curve %d runs through %s although the values there are undefined" % (k + 1, q)
    for h in hlines or []:
        py = tr(xlim[0], h)[1]
        if ylim[0] <= h <= ylim[1] and not any(p and abs(p[0][1] - py) < 0.5 for p in a["hlines"]):
            return "no reference line at %g" % h
    return None


def check_cli_images(c, tabs, imgs):
    from cliworld import parse_table
    size = c["size"] or [8.0, 6.0]
    for k in "CP":
        t = parse_table(tabs[k])
        x, ys = t[:, 0], t[:, 1:].T
        fig = read(imgs[k])
        deg = len(x) < 2
        if k == "P":
            ylim, ylabel, hl = (-0.05, 1.05), r"Occupation probability, $P_a(T)$", [0, 1]
            labels = ["Isomer %d" % (i + 1) for i in range(len(ys))]
        else:
            top = 2.0 * np.ceil(ys.max() / 2.0)
            ylim, ylabel, hl, labels = (0.0, top), r"Heat capacity, $C_V/k_B$", [], []
            if not top > 0:
                deg = True
        e = check(fig, ys, x, None if deg else (x[0], x[-1]), ylim, labels, ylabel, hl, size)
        if e:
            return "image %s: %s" % (k, e)
    return None
