"""C21: a drawing of a graph shows that graph, on a figure of its own, and disturbs nothing else."""
import random
import re

from dst import bench, decoding
from dst.core import Violation, generic_shrink
from dst.gen import lat_of
from dst import sut

ID = "C21"
LEVEL = "exploration"
RUNS = {"quick": 1800, "thorough": 9000}
CHUNK = 5
REAL = ["LatticeDecoder.draw, draw3D", "graphs built by the decoders (syndrome, error and matched graphs)", "matplotlib figures, axes and its notion of current figure"]
STUB = ["plt.show (records, or fails)", "failing text and marker drawing calls"]
ASSUMPTIONS = ["drawings go through matplotlib figures of the calling process"]
RULE = (
    "A run builds 1-3 decoders and makes 2-6 requests to draw their syndrome graphs, or error and matched graphs of random hits, in two or three dimensions and any order, while the simulated user "
    "opens, selects and closes figures in between and keeps earlier drawings, and showing or drawing fails at random; after every request the new figure is read back and compared with the graph, everything else with what it was; "
    "non-trivial = at least two drawings of different decoders or a drawing after a failed one; distinct by request history."
)
MUST_REACH = ["flat", "deep", "syndrome_graph", "error_graph", "matched_graph", "weighted", "empty_graph", "failed_drawing", "after_failed_drawing",
              "angle_given", "sizes_given", "size_zero", "hidden", "hidden_deep", "other_figure_current", "rectangular", "earlier_drawing_kept", "crowded"]
SPECS = [["REP", 3], ["REP", 5], ["PREP", 5], ["XXZZ", 3], ["XXZZ", [3, 5]], ["XXZZ", [5, 3]], ["XZZX", [3, 5]], ["XXZZ", [1, 5]], ["XXZZ", [5, 1]], ["XXZZ", 5]]
CROWDED = [["REP", 61, 1], ["REP", 13, 6], ["XXZZ", 9, 1], ["XZZX", [3, 17], 1], ["XXZZ", [7, 5], 4], ["PREP", 45, 1], ["XXZZ", 13, 1]]


def gen(rng, i, tier):
    decs = [[*rng.choice(SPECS), rng.choice([1, 1, 2, 3])] for _ in range(rng.randint(1, 3))]
    crowded = rng.random() < 0.03
    if crowded:
        decs = [rng.choice(CROWDED)]
    acts = []
    for _ in range(rng.randint(1, 2) if crowded else rng.randint(2, 6)):
        r = rng.random()
        if r < 0.2:
            acts.append([rng.choice(["open", "select", "close"]), rng.randrange(8)])
            continue
        kind = rng.choice(["S", "E", "E", "M", "M"])
        acts.append(["draw", rng.randrange(3), rng.choice("XZ"), kind, [rng.random() for _ in range(rng.randint(0, 14 if crowded else 5))],
                     rng.choice([None, 0.01, 0.2]), rng.random() < 0.2,
                     rng.choice([None, None, [rng.randint(-170, 170), rng.randint(-80, 80)]]),
                     rng.choice([None, None, [rng.randint(50, 200), rng.choice([0, rng.randint(100, 900)]), rng.randint(4, 12)]]),
                     rng.random() < 0.3,
                     [rng.choice(["text", "text", "scatter", "show"]), rng.randrange(12), rng.choice(["err", "int", "mem"])] if rng.random() < 0.25 else None])
    return {"decs": decs, "actions": acts, "keep": rng.random(), "seed": rng.getrandbits(32)}


def nums(s):
    return tuple(float(x) for x in re.findall(r"-?\d+\.?\d*(?:e-?\d+)?", re.sub(r"(?:int|float)\d+", "", s)))


class Faults:
    """Makes the k-th call of one drawing function fail."""

    def __init__(self, plan, ctx):
        self.plan, self.ctx, self.fired = plan, ctx, None
        self.count = 0

    def hit(self, what):
        if self.plan is None or self.plan[0] != what:
            return
        self.count += 1
        if self.count == 1 + (self.plan[1] if what != "show" else 0):
            self.ctx.fire("drawing_" + what + "_fails")
            self.fired = {"err": RuntimeError("drawing failed"), "int": KeyboardInterrupt(), "mem": MemoryError()}[self.plan[2]]
            raise self.fired


def run(scen, ctx):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from matplotlib.axes import Axes

    plt.close("all")
    saved = Axes.text, Axes.scatter, plt.show
    state = {"f": Faults(None, ctx), "shown": []}

    def text(self, *a, **kw):
        state["f"].hit("text")
        return saved[0](self, *a, **kw)

    def scatter(self, *a, **kw):
        state["f"].hit("scatter")
        return saved[1](self, *a, **kw)

    def show(*a, **kw):
        state["shown"] += [m.canvas.figure for m in plt._pylab_helpers.Gcf.get_all_fig_managers()]
        state["f"].hit("show")

    Axes.text, Axes.scatter, plt.show = text, scatter, show
    try:
        with bench.quiet():
            go(scen, ctx, plt, state)
    finally:
        Axes.text, Axes.scatter, plt.show = saved
        plt.close("all")


def own_graph(dec, hits, typ, kind):
    import rustworkx as rx

    g = rx.PyGraph(multigraph=False)
    nodes = [g.add_node(n) for n in list(hits) + [tuple(v) for v in dec.virtual[typ]] * (kind == "E")]
    for a in nodes:
        for b in nodes[:a]:
            if kind == "E" or (a % 2 and b == a - 1):
                g.add_edge(a, b, -float(a + b))
    return g


def content(g):
    return [tuple(n) for n in g.nodes()], sorted((a, b, float(w)) for a, b, w in g.weighted_edge_list())


def look(fig):
    """Enough of a figure of the user to see a stray mark."""
    return [(len(a.texts), len(a.lines), len(a.collections), len(a.patches), a.get_xlim(), a.get_xscale(), a.get_title()) for a in fig.axes]


def go(scen, ctx, plt, state):
    decs = []
    for code, d, T in scen["decs"]:
        with ctx.sut("decoder"):
            decs.append(sut.decoder(code, d, T))
    user, drawn_by, failed = [], set(), False
    kept = []  # earlier drawings the user still holds, shown or not
    keep = random.Random(scen["seed"])
    rc = dict(plt.rcParams)
    for act in scen["actions"]:
        user = [f for f in user if plt.fignum_exists(f.number)]
        if act[0] == "open":
            f = plt.figure()
            f.subplots(1, 1 + act[1] % 2)[0:1] if act[1] % 2 else f.subplots()
            f.axes[0].plot([0, 1], [1, 0])
            f.axes[0].set_title("mine")
            user.append(f)
            continue
        if act[0] in ("select", "close"):
            if user:
                f = user[act[1] % len(user)]
                if act[0] == "select":
                    plt.figure(f.number)
                else:
                    plt.close(f)
            continue
        _, k, typ, kind, where, p, deep, angle, sizes, hidden, fault = act
        k %= len(decs)
        dec = decs[k]
        code, d, T = scen["decs"][k]
        lat = lat_of({"code": code, "d": d})
        if typ not in dec.S or not lat.checks[typ]:
            typ = "Z" if typ == "X" else "X"
        nodes = [(float(t),) + c for t in range(T) for c in lat.checks[typ]]
        hits = sorted({nodes[int(x * len(nodes))] for x in where})
        with ctx.sut("make graph"):
            if kind == "S":
                g = dec.S[typ]
            elif not (hasattr(dec, "_make_error_graph") and hasattr(dec, "_run_mwpm_graph")):  # any graph will do
                g = own_graph(dec, hits, typ, kind)
            else:
                g = dec._make_error_graph(list(hits), typ, err_prob=p) if p else dec._make_error_graph(list(hits), typ)
                if kind == "M":
                    g = dec._run_mwpm_graph(g, floats=True) if p else dec._run_mwpm_graph(g)
        ctx.probe({"S": "syndrome_graph", "E": "error_graph", "M": "matched_graph"}[kind])
        ctx.probe("weighted", int(bool(p) and kind != "S"))
        before = content(g)
        ctx.probe("crowded", int(len(before[0]) > 40))
        ctx.probe("empty_graph", int(not before[0]))
        three = T > 1 or deep
        ctx.probe("deep" if three else "flat")
        ctx.probe("rectangular", int(isinstance(d, list)))
        kw = {}
        if deep:
            if angle:
                kw["angle"] = list(angle)
                ctx.probe("angle_given")
        else:
            if sizes and not three:
                kw = dict(zip(("dpi", "node_size", "font_size"), sizes))
                ctx.probe("sizes_given")
                ctx.probe("size_zero", int(not sizes[1]))
            if hidden:
                kw["show"] = False
                ctx.probe("hidden_deep" if three else "hidden")
        others = {id(f): (f, look(f)) for f in user}
        if user and plt.get_fignums() and plt.gcf() in user:
            ctx.probe("other_figure_current")
        old = set(plt.get_fignums())
        oldfigs = {id(m.canvas.figure) for m in plt._pylab_helpers.Gcf.get_all_fig_managers()}
        state["f"], state["shown"] = Faults(fault, ctx), []
        err = out = None
        try:
            with ctx.sut("draw"):
                out = dec.draw3D(g, **kw) if deep else dec.draw(g, **kw)
        except Violation as e:  # the library failed: only because it was made to
            if state["f"].fired is None:
                raise
            err = e
        except (Exception, KeyboardInterrupt) as e:
            err = e
        fired = state["f"].fired
        state["f"] = Faults(None, ctx)
        name = f"{code} {d} T={T} {'syndrome' if kind == 'S' else 'error' if kind == 'E' else 'matched'} graph of {typ}{hits if kind != 'S' else ''} {kw}"
        if fired is not None and err is None:
            raise Violation("failed drawing went unnoticed", f"{name}: {type(fired).__name__} in {fault[0]} was swallowed")
        if content(g) != before:
            raise Violation("drawing changed the graph", f"{name}: {before} became {content(g)}")
        for f, was in kept:
            if look(f) != was:
                raise Violation("drawing changed an earlier drawing", f"{name}: {was} became {look(f)}")
        for f, was in others.values():
            if look(f) != was or not plt.fignum_exists(f.number):
                raise Violation("drawing changed another figure", f"{name}: {was} became {look(f)}")
        now = dict(plt.rcParams)
        changed = sorted(x for x in now if now[x] != rc.get(x))
        if changed:
            raise Violation("drawing changed the plot settings", f"{name}: {changed[:5]}")
        if err is not None:
            failed = True
            ctx.probe("failed_drawing")
            for n in set(plt.get_fignums()) - old:
                plt.close(n)
            continue
        if isinstance(out, tuple) and any(out[0] is f for f, _ in kept):
            raise Violation("figures", f"{name}: drawn on the figure of an earlier drawing")
        new = [f for f in [out[0] if isinstance(out, tuple) else None] + state["shown"] + [m.canvas.figure for m in plt._pylab_helpers.Gcf.get_all_fig_managers()]
               if f is not None and id(f) not in oldfigs and f not in user]
        new = list({id(f): f for f in new}.values())
        if len(new) != 1:
            raise Violation("figures", f"{name}: {len(new)} new figures")
        fig = new[0]
        if kw.get("show") is False and (plt.fignum_exists(fig.number) or fig in state["shown"]):
            raise Violation("shown although hidden", name)
        if kw.get("show") is not False:
            if not (plt.fignum_exists(fig.number) or fig in state["shown"]):
                raise Violation("hidden although shown", name)
            ctx.probe("visible")
        axes = fig.axes
        if len(axes) != 1:
            raise Violation("figures", f"{name}: {len(axes)} axes")
        ax = axes[0]
        if not (out is None and deep) and not (isinstance(out, tuple) and out[0] is fig and out[1] is ax):
            raise Violation("wrong figure returned", name)
        (judge3 if three else judge2)(ax, g, T, name, kw)
        view = kw.get("angle") or [-116, 22]
        if three and (abs(ax.elev - view[1]) > 1e-9 or abs(ax.azim - view[0]) > 1e-9):
            raise Violation("wrong angle", f"{name}: azimuth {ax.azim}, elevation {ax.elev}")
        if sizes and not three and abs(fig.dpi - sizes[0]) > 1e-9:
            raise Violation("wrong size", f"{name}: dpi {fig.dpi}")
        if failed:
            ctx.probe("after_failed_drawing")
        drawn_by.add(k)
        ctx.nontrivial |= failed or len(drawn_by) > 1
        ctx.add("drawings")
        ctx.log(act[:6], before[0])
        if keep.random() < scen["keep"]:
            kept.append((fig, look(fig)))
            ctx.probe("earlier_drawing_kept")
        elif plt.fignum_exists(fig.number):
            plt.close(fig)
    ctx.sig(scen["decs"], scen["actions"])


def compare(name, ns, es, labels, texts, lines, tol, place):
    """texts: [(position, text)], lines: [(position, position)]; which text is what follows from its form."""
    close = lambda a, b: all(abs(x - y) < 1e-6 for x, y in zip(a, b))
    left = [(tuple(p), t) for p, t in texts]
    for n in ns:
        want = place(n)
        got = [x for x in left if len(nums(x[1])) == 3 and close(nums(x[1]), n)]
        if len(got) != 1 or not close(got[0][0], want):
            raise Violation("node drawn wrongly", f"{name}: {n} belongs at {want}, drawn {[x[0] for x in got]}")
        left.remove(got[0])
    todo = list(lines)
    for a, b, w in sorted(es, key=lambda e: e[2]):  # the lowest weight takes the lowest label: labels within a tolerance of two weights go to the right one
        pa, pb = place(a), place(b)
        got = [l for l in todo if close(l[0], pa) and close(l[1], pb) or close(l[0], pb) and close(l[1], pa)]
        if len(got) != 1:
            raise Violation("edge drawn wrongly", f"{name}: {a}-{b} is drawn {len(got)} times")
        todo.remove(got[0])
        mid = tuple((x + y) / 2 for x, y in zip(pa, pb))
        lab = [x for x in left if len(nums(x[1])) == 1 and close(x[0], mid) and abs(nums(x[1])[0] - w) <= tol]
        lab.sort(key=lambda x: nums(x[1])[0])
        if not lab:
            raise Violation("weight shown wrongly", f"{name}: {a}-{b} has {w}, shown in the middle {[x[1] for x in left if close(x[0], mid)]}")
        left.remove(lab[0])
    if left or todo:
        raise Violation("something else is drawn", f"{name}: texts {left}, lines {todo}")


def graph(g):
    ns = [tuple(float(x) for x in n) for n in g.nodes()]
    at = {k: n for n, k in enumerate(g.node_indexes())}
    return ns, [(ns[at[a]], ns[at[b]], float(w)) for a, b, w in g.weighted_edge_list()]


def judge2(ax, g, T, name, kw):
    ns, es = graph(g)
    place = lambda n: (n[2], -n[1])
    texts = [(t.get_position(), t.get_text()) for t in ax.texts]
    lines = [tuple(map(tuple, p._posA_posB)) for p in ax.patches if hasattr(p, "_posA_posB")]
    for c in ax.collections:
        if hasattr(c, "get_segments"):
            lines += [tuple(map(tuple, s)) for s in c.get_segments()]
    for l in ax.lines:
        lines.append(tuple(zip(l.get_xdata(), l.get_ydata())))
    compare(name, ns, es, None, texts, lines, 6e-4, place)
    marks = [tuple(map(float, o)) for c in ax.collections if not hasattr(c, "get_segments") for o in c.get_offsets()]
    marked(name, marks, [place(n) for n in ns])
    if "font_size" in kw:
        got = {t.get_fontsize() for t in ax.texts if len(nums(t.get_text())) == 3}
        if got - {kw["font_size"]}:
            raise Violation("wrong size", f"{name}: labels in {got}")
        got = {float(s) for c in ax.collections if not hasattr(c, "get_segments") for s in c.get_sizes()}
        if got - {float(kw["node_size"])}:
            raise Violation("wrong size", f"{name}: nodes in {got}")


def judge3(ax, g, T, name, kw):
    ns, es = graph(g)
    place = lambda n: (n[2], -n[1], (T - 1.0) / 2.0 if n[0] == -1 else n[0])
    texts = [(t.get_position_3d(), t.get_text()) for t in ax.texts]
    lines = []
    for l in ax.lines:
        x, y, z = l.get_data_3d()
        lines.append(tuple(zip(x, y, z)))
    compare(name, ns, es, None, texts, lines, 6e-3, place)
    marks = []
    for c in ax.collections:
        if hasattr(c, "_offsets3d"):
            x, y, z = c._offsets3d
            marks += list(zip(map(float, x), map(float, y), map(float, z)))
    marked(name, marks, [place(n) for n in ns])


def marked(name, marks, want):
    r = lambda ps: sorted(tuple(round(float(x), 6) + 0.0 for x in p) for p in ps)
    if r(marks) != r(want):
        raise Violation("node drawn wrongly", f"{name}: marks at {r(marks)}, nodes at {r(want)}")


def shrink(scen):
    yield from generic_shrink(scen, ["actions"])
    for k, a in enumerate(scen["actions"]):
        if a[0] == "draw":
            for simple in (a[:4] + [a[4][:-1]] + a[5:] if a[4] else a, a[:10] + [None], a[:7] + [None, None, False] + a[10:], a[:5] + [None] + a[6:]):
                if simple != a:
                    yield {**scen, "actions": scen["actions"][:k] + [simple] + scen["actions"][k + 1:]}
