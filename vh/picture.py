"""The elements of a matplotlib picture, as recorded by the renderer (positions in thousandths)."""
from __future__ import annotations

import contextlib
import math
import warnings

COLORS = {"black": "black", "white": "white", "lightgray": "gray", "lightblue": "blue", "tab:red": "red", "tab:green": "green",
          "tab:brown": "brown", "C0": "filled"}
NAMED = {}


def name(c) -> str:
    import matplotlib.colors as mc

    if not NAMED:
        NAMED.update({tuple(round(v, 3) for v in mc.to_rgb(k)): v for k, v in COLORS.items()})
    return NAMED.get(tuple(round(v, 3) for v in mc.to_rgb(c)), "other")


def fx(p) -> list[int]:
    return [int(round(float(p[0]) * 1000)), int(round(float(p[1]) * 1000))]


def element(k, a=(0, 0), b=(0, 0), c="", v="", sq=0, dash=0, head=0, pts=2, mid=()) -> dict:
    return {"k": k, "a": fx(a), "b": fx(b), "c": c, "v": v, "sq": sq, "dash": dash, "head": head, "n": pts, "mid": [fx(p) for p in mid]}


def dashed(ls) -> int:
    if isinstance(ls, str):
        return int(ls not in ("-", "solid"))
    return int(ls[1] is not None)


def read(ax) -> tuple[list[dict], list[dict]]:
    """(elements, legend)."""
    from matplotlib.collections import LineCollection, PathCollection
    from matplotlib.patches import FancyArrowPatch

    els: list[dict] = []
    data = ax.transData
    back = data.inverted()
    for c in ax.collections:
        if isinstance(c, PathCollection):
            offs = c.get_offsets()
            fcs = c.get_facecolors()
            paths = c.get_paths()
            for i in range(len(offs)):
                fc = fcs[i % len(fcs)] if len(fcs) else (1, 1, 1, 1)
                els.append(element("mark", offs[i], c=name(fc), sq=int(len(paths[i % len(paths)].vertices) == 5)))
    for c in ax.collections:
        if isinstance(c, LineCollection):
            cols, styles = c.get_colors(), c.get_linestyles()
            for i, s in enumerate(c.get_segments()):
                els.append(element("line", s[0], s[-1], c=name(cols[i % len(cols)]), dash=dashed(styles[i % len(styles)]), pts=len(s), mid=[(s[0] + s[-1]) / 2]))
    for ln in ax.lines:
        x, y = ln.get_data()
        if len(x) and ln.get_transform() == data:
            els.append(element("line", (x[0], y[0]), (x[-1], y[-1]), c=name(ln.get_color()), dash=dashed(ln.get_linestyle()), pts=len(x), mid=list(zip(x, y))[len(x) // 4::max(1, len(x) // 4)][:3]))
    for p in ax.patches:
        if isinstance(p, FancyArrowPatch) and p._posA_posB is not None:
            a, b = p._posA_posB
            style = type(p.get_arrowstyle()).__name__
            head = int("B" in style or style in ("Simple", "Fancy"))
            els.append(element("line", a, b, c=name(p.get_edgecolor()), dash=dashed(p.get_linestyle()), head=head))
    for t in ax.texts:
        if getattr(t, "arrow_patch", None) is not None:
            if t.xycoords == "data" and not t.get_text():
                els.append(element("head", t.xyann, t.xy, c=name(t.arrow_patch.get_edgecolor())))
                continue
        if t.get_text():
            # the place where the text is shown, in data coordinates
            pos = back.transform(t.get_transform().transform(t.get_position()))
            els.append(element("text", pos, v=t.get_text(), dash=int(t.get_transform() != data)))
    legend = []
    lg = ax.get_legend()
    if lg is not None:
        for t, h in zip(lg.get_texts(), lg.legend_handles):
            if isinstance(h, PathCollection):
                legend.append({"v": t.get_text(), "c": name(h.get_facecolors()[0]), "sq": int(len(h.get_paths()[0].vertices) == 5), "dash": 0})
            else:
                legend.append({"v": t.get_text(), "c": name(h.get_color()), "sq": 0, "dash": dashed(h.get_linestyle())})
    return els, legend


@contextlib.contextmanager
def figure():
    """Everything drawn inside ends up in a figure of its own, which is thrown away."""
    import matplotlib

    matplotlib.use("Agg", force=True)
    from matplotlib import pyplot as plt

    plt.close("all")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            yield plt
        finally:
            plt.close("all")
