"""C26: what is plotted and drawn is what was computed."""
import itertools
import os

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np

from qtcodes import (TopologicalAnalysis, TopologicalBatchAnalysis, TopologicalBenchmark, TopologicalCircuit,
                     TopologicalRegister)

from mc import bench, hist, snap
from mc.codes import Code

LEVEL = "model_checking"
RULE = ("every word up to the bound over plot calls (which axes or figure is passed, logarithmic or not, per round or "
        "not, which data) on three panels, against the list of curves each panel should hold; every set of result "
        "files of the menu x way to name the directory for batch comparisons; every syndrome graph, error graph and "
        "matched graph of every hit set in bounds for the drawings; every word of operations up to the bound, each "
        "circuit drawn and printed with every option before it goes on; states = panel contents compared, transitions = "
        "plot and draw calls")
ASSUMPTIONS = ["curves, labels and scales are read back from matplotlib's figure objects, not from pixels"]

DATA = {
    "a": ((3, 3), 1, [(0.05, 0.01), (0.1, 0.04), (0.2, 0.3)]),
    "b": ((5, 5), 4, [(0.01, 0.0), (0.3, 0.5)]),
    "c": ((3, 1), 3, [(0.125, 0.75)]),
}
OTHER = ["notes.txt", "d_(3, 3)_T_1.npz.123.tmp"]
FOLDERS = ["results", "run [1]", "a*b?", "d_(3, 3)_T_1"]
FILES = [((3, 3), 1), ((5, 5), 2), ((3, 3), 4), ((11, 11), 2), ((9, 1), 12), ((1, 13), 1), ((3, 5), 1)]


def cases(tier):
    th = tier == "thorough"
    calls = [[where, log, per, d] for where in ("ax0", "ax1", "fig", "new") for log in (True, False, None)
             for per in (True, False, None) for d in "abc"]
    for c in calls:
        yield {"word": [c]}
    core = [c for c in calls if c[1] is not False and c[2] is not None and c[3] != "c" or c[0] == "ax1"]
    core = core if th else core[::2]
    for c in core:
        yield {"first": c, "core": len(core), "th": th}
    n = len(FILES)
    for k in range(1, n + 1):
        for sub in itertools.combinations(range(n), k):
            if not th and n - 2 > k > 3 and sum(sub) % 3:
                continue
            yield {"files": list(sub), "order": "given" if sum(sub) % 2 else "reversed",
                   "folder": FOLDERS[(sum(sub) + k) % len(FOLDERS)]}
    for kind, dh, dw, T, h in [("XXZZ", 3, 3, 1, 3), ("RepB", 5, 1, 1, 3), ("RepP", 1, 5, 1, 3), ("XXZZ", 3, 5, 1, 2),
                               ("XXZZ", 5, 5, 1, 1), ("XXZZ", 1, 3, 1, 2), ("XXZZ", 3, 3, 2, 1), ("RepB", 3, 1, 3, 2),
                               ("RepP", 1, 3, 2, 2), ("XXZZ", 5, 1, 2, 1)]:
        c = Code(kind, dh, dw)
        for typ in "ZX":
            if c.has(typ):
                yield {"draw": c.spec, "T": T, "typ": typ, "hits": h if T == 1 or th else 1}


    ops = sorted(hist.LOGICAL)
    for kind, dh, dw in [("XXZZ", 1, 3), ("XZZX", 3, 1), ("RepB", 3, 1), ("RepP", 1, 3), ("XXZZ", 3, 3), ("XZZX", 3, 3)]:
        small = dh * dw <= 3
        for a in ops if small or th else ops[::4]:
            yield {"text": [kind, dh, dw], "first": a, "n": 2 if small else 1}
    for first in TEXT:
        yield {"text": "register", "first": first, "n": 2}


STYLES = [{}, {"output": "text"}, {"output": "text", "fold": -1}, {"reverse_bits": True}, {"idle_wires": False},
          {"output": "text", "cregbundle": False}]
TEXT = {"rz0": lambda t: t.reset_z(0), "s1": lambda t: t.stabilize(1), "cx": lambda t: t.cx(0, 1),
        "id1": lambda t: t.id(1), "mx0": lambda t: t.measure_x(0), "l1": lambda t: t.measure_lattice_z(1)}


def run_text(spec, st):
    """Words of operations; after each of them everything that shows the circuit is compared with the circuit."""
    if spec["text"] == "register":
        def make():
            return TopologicalCircuit(TopologicalRegister(ctypes=["XXZZ", "Repetition"],
                                                          params=[{"d": (1, 3)}, {"d": 3}]))
        do, ops = TEXT, sorted(TEXT)
    else:
        make, do, ops = Code.of(spec["text"]).qubit, hist.LOGICAL, sorted(hist.LOGICAL)
    for rest in itertools.product(ops, repeat=spec["n"] - 1):
        word = (spec["first"],) + rest
        q, ref = make(), make()
        for op in (None,) + word:
            if op is not None:
                do[op](q)
                do[op](ref)
            before = snap.circuit(ref.circ)
            st["states"] += 1
            styles = STYLES if spec["text"] != "register" else STYLES[::2]
            for style in styles:
                st["transitions"] += 1
                given = dict(style)
                got = str(q.draw(**given))
                if given != style:
                    return f"{word}: drawing changed the options to {given}"
                if got != str(ref.circ.draw(**style)):
                    return f"{word} after {op}: the drawing with {style} is not that of the circuit"
            if str(q) != str(ref.circ):
                return f"{word} after {op}: the printed text is not that of the circuit"
            if snap.circuit(q.circ) != before:
                return f"{word} after {op}: drawing or printing changed the circuit"
    return None


def make(d, T, pts):
    class Dec:
        params = {"d": d, "T": T}

    b = TopologicalBenchmark(Dec(), None)
    for p in pts:
        b.append_data(*p)
    return b.filename


def curves(ax):
    return [(list(map(float, l.get_xdata())), list(map(float, l.get_ydata())), l.get_label()) for l in ax.lines]


def close(a, b):
    return len(a) == len(b) and all(
        x[2] == y[2] and len(x[0]) == len(y[0]) and np.allclose(x[0], y[0], rtol=1e-12, atol=0)
        and len(x[1]) == len(y[1]) and np.allclose(x[1], y[1], rtol=1e-12, atol=0) for x, y in zip(a, b))


def run_word(word, st):
    plt.close("all")
    loaded = {}
    for k in sorted({c[3] for c in word}):
        d, T, pts = DATA[k]
        loaded[k] = TopologicalAnalysis(make(d, T, pts) if not os.path.exists(f"d_{d}_T_{T}.npz")
                                        else f"d_{d}_T_{T}.npz")
        loaded[k].load_data()
    fig, (ax0, ax1) = plt.subplots(1, 2)
    empty = plt.figure()  # a figure without axes, for fig=
    plt.figure(fig.number)
    plt.sca(ax1)  # pyplot's current axes are the right panel
    want = {"ax0": [], "ax1": []}
    scale = {"ax0": "linear", "ax1": "linear"}
    extra = []  # panels made by the library
    for i, (where, log, per, k) in enumerate(word):
        st["transitions"] += 1
        d, T, pts = DATA[k]
        kw = {"label": f"curve {i}"}
        if log is not None:
            kw["log"] = log
        if per is not None:
            kw["per_round"] = per
        before = {n for n in plt.get_fignums()}
        target = None
        if where == "fig":
            target = empty if not empty.axes else plt.figure()
            before = set(plt.get_fignums())
            loaded[k].plot(fig=target, **kw)
        elif where == "new":
            loaded[k].plot(**kw)
            new = [n for n in plt.get_fignums() if n not in before]
            if len(new) != 1:
                return f"plot() without axes opened {len(new)} figures"
            target = plt.figure(new[0])
            before = set(plt.get_fignums())
        else:
            loaded[k].plot(ax=ax0 if where == "ax0" else ax1, **kw)
        if set(plt.get_fignums()) != before:
            return f"call {i} ({where}) opened another figure"
        ys = [l / (T if per else 1) for _, l in pts]
        line = ([p for p, _ in pts], ys, f"curve {i}")
        if target is not None:
            if len(target.axes) != 1:
                return f"call {i} ({where}): {len(target.axes)} panels on the figure"
            extra.append((target.axes[0], [line], "linear" if log is False else "log"))
        else:
            want[where].append(line)
            if log is not False:
                scale[where] = "log"
        panels = [(ax0, want["ax0"], scale["ax0"]), (ax1, want["ax1"], scale["ax1"])] + extra
        for ax, lines, sc in panels:
            st["states"] += 1
            if not close(curves(ax), lines):
                return f"after call {i} of {word}: a panel shows {curves(ax)} instead of {lines}"
            if (ax.get_xscale(), ax.get_yscale()) != (sc, sc):
                return f"after call {i} of {word}: scales {ax.get_xscale()}, {ax.get_yscale()} instead of {sc}"
        for kk, a in loaded.items():
            got = list(zip(map(float, a.data["physical_error_rates"]), map(float, a.data["logical_error_rates"])))
            if got != DATA[kk][2] or a.params["T"] != DATA[kk][1]:
                return f"plotting changed the loaded data of {DATA[kk]} to {got}"
    st["traces"] += 1
    plt.close("all")
    return None


def run_files(spec, st):
    plt.close("all")
    folder = spec["folder"]
    os.mkdir(folder)
    os.chdir(folder)
    sets = {}
    order = spec["files"] if spec["order"] == "given" else spec["files"][::-1]
    for i in order:
        d, T = FILES[i]
        pts = [(0.05 * (j + 1), 0.01 * (i + 1) * (j + 1)) for j in range(1 + i % 3)]
        make(d, T, pts)
        sets[i] = (d, T, pts)
    npz = sorted(os.listdir("."))
    os.chdir("..")
    # files that are no results, and results that are not in this directory
    for other in OTHER + [os.path.join("..", folder + ".npz")]:
        with open(os.path.join(folder, other), "w") as f:
            f.write("x")
    names = [folder + "/", folder, os.path.join(os.getcwd(), folder), os.path.join(os.getcwd(), folder) + "/", ""]
    if len(sets) > 1:
        names = names[len(sets) % 5:][:2] or names[:2]
    for name in names:
        if not name:
            os.chdir(folder)
        plt.close("all")
        batch = TopologicalBatchAnalysis(name)
        batch.plot()
        st["transitions"] += 1
        here = folder if name else "."
        files = sorted(os.listdir(here))
        if files != sorted(npz + OTHER + ["comparison.png", "comparison_log.png"]):
            return f"batch comparison of {npz} left {files}"
        for f in ("comparison.png", "comparison_log.png"):
            with open(os.path.join(here, f), "rb") as fh:
                if fh.read(8) != b"\x89PNG\r\n\x1a\n":
                    return f"{f} is not an image"
            os.remove(os.path.join(here, f))
        figs = [plt.figure(n) for n in plt.get_fignums()]
        if len(figs) != 2:
            return f"batch comparison drew {len(figs)} figures"
        if sorted(f.axes[0].get_xscale() for f in figs) != ["linear", "log"]:
            return "the comparison is not drawn once with linear and once with logarithmic axes"
        for f in figs:
            st["states"] += 1
            if len(f.axes) != 1:
                return f"{len(f.axes)} panels"
            ax = f.axes[0]
            if ax.get_xscale() != ax.get_yscale():
                return "mixed scales"
            got = curves(ax)
            rest = []
            even = []
            for x, y, label in got:
                (even if label == "breakeven" else rest).append((x, y, label))
            if len(even) != 1 or even[0][0] != even[0][1] or not even[0][0]:
                return f"breakeven line(s): {even}"
            if len(rest) != len(sets):
                return f"{len(rest)} curves for {len(sets)} result files"
            heights = [int(l.split("=")[1].strip("(").split(",")[0]) for _, _, l in rest]
            if heights != sorted(heights):
                return f"curves are not ordered by lattice size: {[l for _, _, l in rest]}"
            left = list(sets.values())
            for x, y, label in rest:
                m = [s for s in left if f"T={s[1]}" == label.split(",")[-1]
                     and label.startswith("d=(%d," % s[0][0]) and str(s[0][1]) in label.split("T=")[0]
                     and close([(x, y, 0)], [([p for p, _ in s[2]], [q for _, q in s[2]], 0)])]
                if not m:
                    return f"curve {label} {x} {y} belongs to no result file of {left}"
                left.remove(m[0])
            if ax.get_legend() is None or len(ax.get_legend().get_texts()) != len(got):
                return "the legend does not name every curve"
        st["traces"] += 1
    plt.close("all")
    return None


def drawn(dec, graph, T, what, st):
    """A drawing shows every node at its place and every edge with its weight."""
    st["transitions"] += 1
    st["states"] += len(graph.nodes())
    plt.close("all")
    if T == 1:
        fig, ax = dec.draw(graph, show=False)
        places = sorted((round(t.get_position()[0], 6), round(t.get_position()[1], 6), t.get_text()) for t in ax.texts
                        if t.get_text().startswith("("))
        want = sorted((round(float(v[2]), 6), round(-float(v[1]), 6), str(v)) for v in graph.nodes())
        labels = [float(t.get_text()) for t in ax.texts if not t.get_text().startswith("(")]
    else:
        dec.draw(graph)
        nums = plt.get_fignums()
        if len(nums) != 1:
            return f"{what}: {len(nums)} figures"
        ax = plt.figure(nums[0]).axes[0]
        pos = lambda t: tuple(round(float(x), 6) for x in t.get_position_3d())
        places = sorted(pos(t) + (t.get_text(),) for t in ax.texts if t.get_text().startswith("("))
        want = sorted((round(float(v[2]), 6), round(-float(v[1]), 6),
                       (T - 1) / 2 if v[0] == -1 else round(float(v[0]), 6), str(v)) for v in graph.nodes())
        labels = [float(t.get_text()) for t in ax.texts if not t.get_text().startswith("(")]
    if places != want:
        return f"{what}: drawn {places}, the graph has {want}"
    weights = sorted(float(w) for _, _, w in graph.weighted_edge_list())
    if len(labels) != len(weights) or any(abs(a - b) > 0.006 for a, b in zip(sorted(labels), weights)):
        return f"{what}: edge labels {sorted(labels)[:20]}, weights {weights[:20]}"
    st["traces"] += 1
    plt.close("all")
    return None


def run_draw(spec, st):
    c = Code.of(spec["draw"])
    T, typ = spec["T"], spec["typ"]
    dec = c.decoder(T)
    m = drawn(dec, dec.S[typ], T, "syndrome graph", st)
    if m or not hasattr(dec, "_make_error_graph"):
        return m
    nodes = [(float(t),) + s for t in range(T) for s in c.checks(typ)]
    for k in range(1, spec["hits"] + 1):
        for hits in itertools.combinations(nodes, k):
            for p in (None, 0.05) if k < 3 else (0.05,):
                g = dec._make_error_graph(list(hits), typ, err_prob=p)
                m = drawn(dec, g, T, f"error graph of {hits}", st)
                if not m and hasattr(dec, "_run_mwpm_graph"):
                    m = drawn(dec, dec._run_mwpm_graph(g, floats=p is not None), T, f"matched graph of {hits}", st)
                if m:
                    return m
    return None


def run_case(spec, st):
    if "text" in spec:
        return run_text(spec, st)
    with bench.scratch():
        if "word" in spec:
            return run_word(spec["word"], st)
        if "first" in spec:
            core = [c for c in words_core(spec["th"])]
            for c in core:
                m = run_word([spec["first"], c], st)
                if m:
                    return m
            for c in core[::5]:
                for e in core[1::7]:
                    m = run_word([spec["first"], c, e], st)
                    if m:
                        return m
            return None
        if "files" in spec:
            return run_files(spec, st)
        return run_draw(spec, st)


def words_core(th):
    return [s["first"] for s in cases("thorough" if th else "quick") if "core" in s]
