"""C22: a plot shows the loaded data, on the axes it was asked to use, and touches no other."""
import os
import random
import re

import numpy as np

from dst import bench, simfs, sut
from dst.core import Violation, generic_shrink

ID = "C22"
LEVEL = "exploration"
RUNS = {"quick": 1600, "thorough": 8000}
CHUNK = 10
REAL = ["TopologicalAnalysis.plot", "TopologicalBatchAnalysis (loading, plot)", "matplotlib figures, axes and its notion of current figure"]
STUB = ["rendering and writing of the image (records what the figure holds, then writes a file through the fault injecting file system)", "plt.show"]
ASSUMPTIONS = ["plots go through matplotlib figures of the calling process"]
RULE = (
    "A run loads 1-4 saved benchmarks and makes 3-12 plot requests (single analyses on a given figure, given axes, both or none; whole batches) while the simulated user "
    "opens, selects, draws on and closes figures in between and writing an image fails at random; after every request each figure is inspected; "
    "non-trivial = at least one plot on axes that were not the current ones; distinct by request history."
)
MUST_REACH = ["both_given", "axes_given", "figure_given", "none_given", "other_axes_current", "batch", "batch_failed", "after_failed_batch", "per_round", "linear", "log", "styled", "figure_with_axes_given", "more_than_ten_curves"]
SPECS = [["REP", 3], ["REP", 5], ["XXZZ", 3], ["XXZZ", [3, 5]], ["XZZX", [5, 3]], ["XXZZ", 5], ["REP", 11], ["XXZZ", [5, 3]]]
MORE = [["REP", d] for d in (7, 9, 13, 15, 17, 21)] + [["XXZZ", [7, 3]], ["XZZX", [3, 7]]]
STYLE = {"color": "tab:red", "linewidth": 2.5, "alpha": 0.5, "markersize": 7.0, "zorder": 5}
LOOK = ["label", "linewidth", "alpha", "markersize", "zorder", "linestyle", "marker", "drawstyle"]


def gen(rng, i, tier):
    files = []
    crowd = rng.random() < 0.04
    for s in rng.sample(SPECS + MORE if crowd else SPECS, rng.randint(8, 16) if crowd else rng.randint(1, 4)):
        pts = [bench.point(rng) for _ in range(rng.randint(60, 150) if rng.random() < 0.02 else rng.randint(1, 4))]
        files.append([s[0], s[1], rng.randint(1, 4), pts])
    acts = []
    batches = 0
    for _ in range(rng.randint(3, 12)):
        r = rng.random()
        if r < 0.2:
            acts.append(["open", rng.randint(1, 3)])
        elif r < 0.32:
            acts.append(["select", rng.randrange(8), rng.randrange(8)])
        elif r < 0.38:
            acts.append(["close", rng.randrange(8)])
        elif r < 0.45:
            acts.append(["scale", rng.randrange(8), rng.randrange(8), rng.choice(["linear", "log"])])
        elif r < 0.52 and batches < 2:
            batches += 1
            acts.append(["batch"])
        else:
            acts.append(["plot", rng.randrange(4), rng.choice(["both", "both", "ax", "fig", "none"]), rng.randrange(8), rng.randrange(8),
                         rng.choice([None, True, False]), rng.random() < 0.3, rng.choice([None, "mine"]), {k: v for k, v in STYLE.items() if rng.random() < 0.2}])
    if crowd and not batches:
        batches = 1
        acts.append(["batch"])
    plan = []
    if batches and rng.random() < 0.6:
        plan = [[rng.randrange(8), rng.choice(["ENOSPC", "EACCES", "EIO", "EMFILE", "int"])] for _ in range(rng.choice([1, 2]))]
    return {"files": files, "actions": acts, "plan": sorted(plan)}


def look(ax):
    lines = [(tuple(map(float, l.get_xdata())), tuple(map(float, l.get_ydata())), l.get_label()) for l in ax.lines]
    return lines, ax.get_xscale(), ax.get_yscale()


def run(scen, ctx):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure

    plt.close("all")
    saved_savefig, saved_show = Figure.savefig, plt.show
    images = []

    def savefig(self, fname, *a, **kw):
        images.append((os.fspath(fname), self, [look(x) for x in self.axes], [x.get_legend() for x in self.axes]))
        with open(fname, "wb") as f:
            f.write(b"image")

    Figure.savefig = savefig
    plt.show = lambda *a, **kw: None
    try:
        with bench.Scratch() as root, bench.quiet():
            go(scen, ctx, plt, root, images)
    finally:
        Figure.savefig, plt.show = saved_savefig, saved_show
        plt.close("all")


def go(scen, ctx, plt, root, images):
    from matplotlib.figure import Figure

    os.mkdir("results")
    os.chdir("results")
    data = {}
    for code, d, T, pts in scen["files"]:
        with ctx.sut("save"):
            b = sut.TopologicalBenchmark(decoder=sut.decoder(code, d, T), circ=sut.QuantumCircuit())
            for p, l in pts:
                b.append_data(p, l)
        h, w = (d if isinstance(d, list) else (d, 1) if code == "REP" else (d, d))
        old = data.setdefault(b.filename, ((h, w, T), []))
        old[1].extend([tuple(x) for x in pts])
    want = {}
    for n, (dT, pts) in data.items():
        pts = sorted(pts)
        if len({p for p, _ in pts}) != len(pts):
            return
        want[n] = (dT, tuple(p for p, _ in pts), tuple(l for _, l in pts))
    with ctx.sut("load"):
        batch = sut.TopologicalBatchAnalysis(root + "/results/")
    an = batch.analyses
    fs = simfs.FS(root, scen["plan"], ctx)
    figs = []  # the user's figures
    failed_before = False
    nontriv = False

    def snap():
        return {id(x): (x, look(x)) for n in plt.get_fignums() for x in plt.figure(n).axes} | {
            id(x): (x, look(x)) for f in figs for x in f.axes}

    def snapshot():
        """plt.figure(n) makes n current: put the user's choice back."""
        cur = plt.gcf() if plt.get_fignums() else None
        curax = cur.gca() if cur is not None and cur.axes else None
        s = snap()
        if curax is not None:
            plt.sca(curax)
        elif cur is not None:
            plt.figure(cur.number)
        return s

    def line_of(a, per_round):
        dT, P, L = want[os.path.basename(a.filename)]
        return P, tuple(l / dT[2] for l in L) if per_round else L

    for act in scen["actions"]:
        k = act[0]
        if k == "open":
            f = plt.figure()
            f.subplots(1, act[1])
            figs.append(f)
            continue
        figs = [f for f in figs if plt.fignum_exists(f.number)]
        if k in ("select", "close", "scale"):
            if not figs:
                continue
            f = figs[act[1] % len(figs)]
            if k == "close":
                plt.close(f)
                figs.remove(f)
            elif k == "select":
                plt.figure(f.number)
                if f.axes:
                    plt.sca(f.axes[act[2] % len(f.axes)])
            elif f.axes:
                f.axes[act[2] % len(f.axes)].set_xscale(act[3])
            continue
        before = snapshot()
        if k == "plot":
            _, i, mode, fi, ai, log, per_round, label, style = act
            a = an[i % len(an)]
            kw = {}
            fig = ax = None
            if mode != "none" and figs:
                fig = figs[fi % len(figs)]
                if mode == "fig":
                    fig2 = figs[fi % len(figs)]
                    if ai < 3:  # a figure that already holds axes
                        fig = fig2
                        ctx.probe("figure_with_axes_given")
                    else:
                        fig = plt.figure()  # a figure of its own, still without axes
                        figs.append(fig)
                    if ai % 2:
                        plt.figure(fig2.number)  # something else is current meanwhile
                    before = snapshot()
                    kw["fig"] = fig
                else:
                    ax = fig.axes[ai % len(fig.axes)]
                    kw = {"fig": fig, "ax": ax} if mode == "both" else {"ax": ax}
            ctx.probe({"both": "both_given", "ax": "axes_given", "fig": "figure_given"}.get(mode, "none_given") if kw else "none_given")
            if log is not None:
                kw["log"] = log
            if per_round:
                kw["per_round"] = True
                ctx.probe("per_round")
            if label:
                kw["label"] = label
            kw.update(style)
            islog = log is None or log
            ctx.probe("log" if islog else "linear")
            if ax is not None and (not plt.get_fignums() or plt.gcf() is not ax.figure or plt.gca() is not ax):
                ctx.probe("other_axes_current")
                nontriv = True
            if failed_before:
                ctx.probe("after_failed_batch")
            with ctx.sut("plot"):
                a.plot(**kw)
            after = snapshot()
            new = [x for x in after if x not in before]
            if ax is None:
                drawn = [x for x in new if after[x][1][0]]
                if len(drawn) != 1:
                    raise Violation("plot on the wrong axes", f"{sorted(kw)}: lines on {len(drawn)} new axes")
                tgt = after[drawn[0]][0]
                if fig is not None and tgt.figure is not fig:
                    raise Violation("plot on the wrong figure", f"{sorted(kw)}")
                old = ([], None, None)
            else:
                tgt = ax
                old = before[id(ax)][1]
            for x, (obj, st) in after.items():
                if obj is tgt:
                    continue
                if x in before and st != before[x][1]:
                    raise Violation("plot changed other axes", f"{sorted(kw)}: {before[x][1]} became {st}")
                if x not in before and st[0]:
                    raise Violation("plot on the wrong axes", f"{sorted(kw)}: stray lines {st[0]}")
            st = after[id(tgt)][1]
            if st[0][:len(old[0])] != old[0] or len(st[0]) != len(old[0]) + 1:
                raise Violation("plot changed what was drawn", f"{old[0]} became {st[0]}")
            line_ok(st[0][-1], line_of(a, per_round), label)
            # nothing sticks from one plot to the next: an analysis loaded for this plot alone draws the same line
            with ctx.sut("plot alone"):
                alone = sut.TopologicalAnalysis(a.filename)
                alone.load_data()
                ref = Figure().subplots()
                alone.plot(ax=ref, **{k: v for k, v in kw.items() if k not in ("fig", "ax")})
            mine, other = tgt.lines[-1], ref.lines[-1]
            for key in LOOK:
                x, y = getattr(mine, "get_" + key)(), getattr(other, "get_" + key)()
                if x != y and not (key == "label" and str(x).startswith("_") and str(y).startswith("_")):
                    raise Violation("line depends on earlier plots", f"{key} is {x}, plotted alone {y}")
            if "color" not in style and mine.get_color() != other.get_color() and len(old[0]) == 0:
                raise Violation("line depends on earlier plots", f"color is {mine.get_color()}, plotted alone {other.get_color()}")
            for key, v in style.items():
                got = getattr(tgt.lines[-1], "get_" + key)()
                if got != v:
                    raise Violation("wrong line style", f"{key} is {got}, asked for {v}")
                ctx.probe("styled")
            want_scale = ("log", "log") if islog else (old[1:] if old[1] else ("linear", "linear"))
            if st[1:] != want_scale:
                raise Violation("wrong scale", f"log={islog}: axes are {st[1:]}, expected {want_scale}")
            if a.data.keys() and (list(map(float, a.data["physical_error_rates"])) != list(want[os.path.basename(a.filename)][1])):
                raise Violation("plot changed the data", str(a.data))
            ctx.add("plots")
            ctx.log(act, st)
        else:
            images.clear()
            n0 = sum(v for f, v in ctx.faults.items() if "@" in f)
            err = None
            try:
                with fs:
                    batch.plot()
            except (Exception, KeyboardInterrupt) as e:
                err = e
            fired = sum(v for f, v in ctx.faults.items() if "@" in f) > n0
            if err is not None and not fired:
                raise Violation("batch plot failed without a fault", f"{type(err).__name__}: {str(err)[:200]}")
            if fired and err is None:
                raise Violation("lost image went unnoticed", "writing an image failed and nothing was reported")
            after = snapshot()
            for x, (obj, st) in after.items():
                if x in before and st != before[x][1]:
                    raise Violation("batch plot changed other axes", f"{before[x][1]} became {st}")
            seen = set()
            for name, fig, axes, legends in images:
                full = [x for x in axes if x[0]]
                if len(full) != 1:
                    raise Violation("comparison plot", f"{name}: lines on {len(full)} axes")
                lines, xs, ys = full[0]
                data_lines = [l for l in lines if l[2] != "breakeven"]
                if len(data_lines) != len(an) or len(lines) != len(an) + 1:
                    raise Violation("comparison plot", f"{name}: {len(data_lines)} data lines for {len(an)} benchmarks, {len(lines)} in all")
                todo = {want[os.path.basename(a.filename)][0]: a for a in an}
                for l in data_lines:
                    nums = tuple(int(x) for x in re.findall(r"\d+", re.sub(r"int\d+", "", l[2])))
                    if nums not in todo:
                        raise Violation("comparison label", f"{name}: label '{l[2]}', benchmarks without a line: {sorted(todo)}")
                    line_ok(l, line_of(todo.pop(nums), False), None)
                even = [l for l in lines if l[2] == "breakeven"][0]
                if even[0] != even[1] or not even[0]:
                    raise Violation("comparison plot", f"{name}: break even line {even}")
                if xs != ys:
                    raise Violation("comparison plot", f"{name}: scales {xs}, {ys}")
                if len([g for g in legends if g is not None]) != 1:
                    raise Violation("comparison plot", f"{name}: no legend")
                seen.add((os.path.basename(name), xs))
            if err is None:
                if seen != {("comparison.png", "linear"), ("comparison_log.png", "log")}:
                    raise Violation("comparison images", f"{sorted(seen)}")
                left = set(os.listdir(root + "/results"))
                if not {"comparison.png", "comparison_log.png"} <= left:
                    raise Violation("comparison images", f"only {sorted(left)} was written")
                ctx.probe("batch")
                ctx.probe("more_than_ten_curves", int(len(an) > 10))
            else:
                failed_before = True
                ctx.probe("batch_failed")
            ctx.log(act, sorted(seen))
            ctx.add("batches")
    ctx.nontrivial = nontriv
    ctx.sig(scen["files"], scen["actions"], scen["plan"])


def line_ok(got, want, label):
    x, y, l = got
    if x != want[0] or len(y) != len(want[1]) or any(abs(a - b) > 1e-12 * abs(b) for a, b in zip(y, want[1])):
        raise Violation("wrong line", f"drawn {x} -> {y}, the data is {want[0]} -> {want[1]}")
    if label is not None and l != label:
        raise Violation("wrong line label", f"{l}, asked for {label}")


def shrink(scen):
    yield from generic_shrink(scen, ["actions", "plan"])
    if len(scen["files"]) > 1:
        yield from generic_shrink(scen, ["files"])
