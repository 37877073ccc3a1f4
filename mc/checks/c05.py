"""C05  grids: bounds follow the states they are declared for, nodes are the cartesian
product of the axes (last axis fastest), sums and products combine the axes.
"""
import itertools

import numpy as np

from mc import kit
from mc.kit import dolo, model

TEXT = """
symbols:
    exogenous: [e]
    states: [{states}]
    controls: [i]
    parameters: [al, wd]
equations:
    arbitrage: |
        al*i[t] - {s0}[t]
    transition: |
{tr}
calibration:
    al: 0.25
    wd: 2
    z: 0.5
    k: 2*al + wd
    b: k - 1
    i: 1
{domain}
exogenous: !UNormal
    sigma: 0.1
options:
{options}
"""
CAL = dict(al=0.25, wd=2.0, z=0.5, k=2.5, b=1.5, i=1.0)
# bounds of each state: text and value
BND = {
    "z": (("-al", "wd*al"), (-0.25, 0.5)),
    "k": (("k - wd", "k*2"), (0.5, 5.0)),
    "b": (("-3", "7.5"), (-3.0, 7.5)),
}
NS = {"z": 3, "k": 4, "b": 2}


def lattice(axes):
    """nodes of a cartesian grid, last axis fastest"""
    return np.array([list(p) for p in itertools.product(*axes)], dtype=float)


def axis(a, b, n):
    return [a + (b - a) * j / (n - 1) for j in range(n)]


def text(states, domain, options):
    return TEXT.format(
        states=", ".join(states), s0=states[0],
        tr="\n".join(f"        {s}[t] = {s}[t-1] + e[t]" for s in states),
        domain=domain, options=options,
    )


def domains(ch):
    """`domain`, in any order, with foreign entries, or old-style bounds"""
    d = ch.pick("states", [s for r in (1, 2, 3) for s in itertools.permutations("zkb", r)])
    style = ch.pick("style", ["domain", "domain+extra", "min/max", "a/b"])
    ns = [NS[s] for s in d]
    key = ch.pick("size", ["n", "orders"])
    if style.startswith("domain"):
        order = ch.pick("order", list(itertools.permutations(d)))
        lines = [f"    {s}: [{BND[s][0][0]}, {BND[s][0][1]}]" for s in order]
        if style == "domain+extra":
            lines.insert(len(lines) // 2, "    i: [0, 1]")
        dom = "domain:\n" + "\n".join(lines)
        tag = ch.pick("tag", ["!Cartesian", "!CartesianGrid", "type"])
        if tag == "type":
            opt = f"    grid:\n        type: Cartesian\n        {key}: {ns}"
        else:
            opt = f"    grid: {tag}\n        {key}: {ns}"
    else:
        lo, hi = style.split("/")
        dom = ""
        opt = "    grid: !Cartesian\n        {}: [{}]\n        {}: [{}]\n        {}: {}".format(
            lo, ", ".join(BND[s][0][0] for s in d), hi, ", ".join(BND[s][0][1] for s in d), key, ns)
    m = model(text(d, dom, opt))
    dd = m.domain
    ch.op(n=2)
    ch.close(dd.min, [BND[s][1][0] for s in d], "domain:min", 1e-12, "lower bounds of the domain")
    ch.close(dd.max, [BND[s][1][1] for s in d], "domain:max", 1e-12, "upper bounds of the domain")
    for s in d:
        ch.close(dd[s], BND[s][1], "domain:state", 1e-12, f"domain[{s!r}]")
    ch.same(tuple(dd.states), tuple(d), "domain:states", "states of the domain")
    want = lattice([axis(*BND[s][1], NS[s]) for s in d])
    g = m.endo_grid
    ch.close(g.nodes, want, "endo_grid", 1e-12, "nodes of the grid")
    ch.close(g.min, dd.min, "endo_grid:min", 1e-12, "grid.min")
    ch.close(g.max, dd.max, "endo_grid:max", 1e-12, "grid.max")
    gg, dp = m.discretize()
    ch.close(gg["endo"].nodes, want, "discretize", 1e-12, "endogenous grid of discretize()")
    over = [2 + j for j in range(len(d))]
    gg, dp = m.discretize(grid_options=dict(n=over))
    want = lattice([axis(*BND[s][1], o) for s, o in zip(d, over)])
    ch.close(gg["endo"].nodes, want, "discretize:options", 1e-12, "endogenous grid of discretize(grid_options)")
    ch.op(n=2)
    ch.state(want, np.asarray(g.nodes))


def missing(ch):
    d = ("z", "k", "b")
    keep = [s for s in d if ch.flag(s)]
    if len(keep) in (0, 3):
        ch.prune()
    dom = "domain:\n" + "\n".join(f"    {s}: [0, 1]" for s in keep)
    m = model(text(d, dom, "    grid: !Cartesian\n        n: [2,2,2]"))
    ch.op()
    ch.raises(lambda: m.domain, "domain:missing", f"domain with only {keep}")
    ch.state(keep)


def other_grids(ch):
    kind = ch.pick("grid", ["nonuniform", "smolyak", "default-n"])
    d = ch.pick("states", [("z", "k"), ("k", "z"), ("z", "k", "b")])
    order = ch.pick("order", [d, d[::-1]])
    dom = "domain:\n" + "\n".join(f"    {s}: [{BND[s][0][0]}, {BND[s][0][1]}]" for s in order)
    if kind == "nonuniform":
        ax = {"z": (["-al", "0", "1"], [-0.25, 0, 1]), "k": (["0", "1", "k", "2*k"], [0, 1, 2.5, 5]), "b": (["1", "2"], [1, 2])}
        opt = "    grid: !NonUniformCartesian\n" + "\n".join(f"        - [{', '.join(ax[s][0])}]" for s in d)
        m = model(text(d, dom, opt))
        g = m.endo_grid
        ch.close(g.nodes, lattice([ax[s][1] for s in d]), "nonuniform", 1e-12, "nodes")
        ch.close(g.min, [min(ax[s][1]) for s in d], "nonuniform:min", 1e-12, "min")
        ch.close(g.max, [max(ax[s][1]) for s in d], "nonuniform:max", 1e-12, "max")
    elif kind == "smolyak":
        mu = ch.pick("mu", [1, 2])
        m = model(text(d, dom, f"    grid: !Smolyak\n        mu: {mu}"))
        g = m.endo_grid
        lo = np.array([BND[s][1][0] for s in d])
        hi = np.array([BND[s][1][1] for s in d])
        n = np.asarray(g.nodes)
        ch.close(n.min(axis=0), lo, "smolyak:min", 1e-9, "smallest nodes")
        ch.close(n.max(axis=0), hi, "smolyak:max", 1e-9, "largest nodes")
        dist = np.abs(n - (lo + hi) / 2).max(axis=1).min()
        ch.close(dist, 0.0, "smolyak:centre", 1e-9, "the centre is a node")
        if mu == 1:
            ch.same(len(n), 1 + 2 * len(d), "smolyak:size", "number of nodes")
    else:
        m = model(text(d, dom, "    grid: !Cartesian\n        foo: 1"))
        g = m.endo_grid
        ch.same(tuple(g.n), (20,) * len(d), "default-n", "default number of nodes")
        ch.close(g.nodes, lattice([axis(*BND[s][1], 20) for s in d]), "default-n", 1e-12, "nodes")
    ch.op()
    ch.state(kind, np.asarray(g.nodes))


def run(exp):
    kit.use_fast()
    from dolo.numeric.grids import (
        EmptyGrid, NonUniformCartesianGrid, SmolyakGrid, UniformCartesianGrid, UnstructuredGrid,
        n_nodes, node, nodes,
    )

    exp.assume("states: every ordered choice of 1 to 3 among 3; axes with 1 to 5 nodes")
    exp.explore("domains", domains)
    exp.explore("missing", missing)
    exp.explore("other-grids", other_grids)

    AX = [(0.0, 1.0, 2), (-1.0, 3.0, 3), (2.0, 2.5, 5), (-4, -1, 4)]
    NU = [[0, 1], [0.25, 0.5, 4], [-1, 2.5], [3]]

    def pick_axes(ch, label, menu, most):
        k = ch.pick(f"{label}:d", list(range(1, most + 1)))
        return [ch.pick(f"{label}:{j}", menu) for j in range(k)]

    def uniform(a):
        return UniformCartesianGrid([x[0] for x in a], [x[1] for x in a], [x[2] for x in a])

    def verify(ch, g, axes, sig):
        want = lattice(axes)
        ch.close(g.nodes, want, f"{sig}:nodes", 1e-12, "nodes")
        ch.close(nodes(g), want, f"{sig}:nodes", 1e-12, "nodes(grid)")
        ch.same(g.n_nodes, len(want), f"{sig}:n_nodes", "n_nodes")
        ch.same(n_nodes(g), len(want), f"{sig}:n_nodes", "n_nodes(grid)")
        for j in range(len(want)):
            ch.close(g.node(j), want[j], f"{sig}:node", 1e-12, f"node({j})")
            ch.close(node(g, j), want[j], f"{sig}:node", 1e-12, f"node(grid,{j})")
        ch.same([int(x) for x in g.n], [len(a) for a in axes], f"{sig}:n", "n")
        ch.close(g.min, [min(a) for a in axes], f"{sig}:min", 1e-12, "min")
        ch.close(g.max, [max(a) for a in axes], f"{sig}:max", 1e-12, "max")
        ch.state(sig, want)

    def combine(kind, menu):
        make = uniform if kind == "uniform" else NonUniformCartesianGrid
        axes_of = (lambda a: [axis(*x) for x in a]) if kind == "uniform" else (lambda a: [[float(v) for v in x] for x in a])

        def scenario(ch):
            A = pick_axes(ch, "g1", menu, 2)
            op = ch.pick("op", ["none", "+", "*", "empty+", "empty*"])
            ch.op()
            if op == "none":
                verify(ch, make(A), axes_of(A), kind)
                return
            if op.startswith("empty"):
                e = EmptyGrid()
                g = e + make(A) if op == "empty+" else e * make(A)
                verify(ch, g, axes_of(A), f"{kind}:{op}")
                return
            B = pick_axes(ch, "g2", menu, 2)
            g1, g2 = make(A), make(B)
            g = g1 + g2 if op == "+" else g1 * g2
            verify(ch, g, axes_of(A) + axes_of(B), f"{kind}:{op}")
            verify(ch, g1, axes_of(A), f"{kind}:operand")
            verify(ch, g2, axes_of(B), f"{kind}:operand")

        return scenario

    exp.explore("uniform", combine("uniform", AX if exp.thorough else AX[1:]))
    exp.explore("nonuniform", combine("nonuniform", NU if exp.thorough else NU[:3]))

    def unstructured(ch):
        k = ch.pick("points", [1, 2, 3])
        d = ch.pick("d", [1, 2])
        pts = [[ch.pick(f"p{i}{j}", [0, -1.5, 2]) for j in range(d)] for i in range(k)]
        g = UnstructuredGrid(pts)
        ch.op()
        p = np.array(pts, dtype=float)
        ch.close(g.nodes, p, "unstructured", 0, "nodes")
        ch.close(g.min, p.min(axis=0), "unstructured", 0, "min")
        ch.close(g.max, p.max(axis=0), "unstructured", 0, "max")
        ch.same(g.n_nodes, k, "unstructured", "n_nodes")
        ch.state(p)

    exp.explore("unstructured", unstructured)

    def default_n(ch):
        a = pick_axes(ch, "axes", AX[:2], 2)
        g = UniformCartesianGrid([x[0] for x in a], [x[1] for x in a])
        verify(ch, g, [axis(x[0], x[1], 20) for x in a], "default-n")
        ch.op()

    exp.explore("default-n", default_n)
