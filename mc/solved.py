"""Model families whose solutions are known, shared by the checks of solution methods.

Linear family:   X[t] = A E X[t+1] + B S[t] + C e[t],   S[t] = R S[t-1] + D e[t]
has the rule  X = K S + alpha(e)  with  K = A K R + B  and  alpha solving a linear system.
"""
import numpy as np

from mc.kit import model

SHOCKS = {
    "mc": "!MarkovChain\n    values: [[-0.3],[0.2],[0.5]]\n    transitions: [[0.5,0.5,0.0],[0.1,0.6,0.3],[0.0,0.4,0.6]]",
    "mc2": "!MarkovChain\n    values: [[-0.3],[0.3]]\n    transitions: [[0.9,0.1],[0.2,0.8]]",
    "ar1": "!AR1\n    rho: 0.6\n    sigma: 0.2",
    "iid": "!UNormal\n    sigma: 0.2",
    "const": "!ConstantProcess\n    mu: [0.1]",
}
RHO, SIGMA = 0.6, 0.2

# states, controls
DIMS = [(1, 1), (2, 1), (1, 2), (2, 2)]
A4 = np.array([[0.7, 0.2], [-0.3, 0.5]])
B4 = np.array([[0.8, -0.3], [0.4, 1.0]])
C4 = np.array([[0.5], [-0.7]])
R4 = np.array([[0.8, 0.1], [-0.2, 0.6]])
D4 = np.array([[0.4], [-0.3]])
S_NAMES, X_NAMES = ["z", "k"], ["x", "n"]
LOW, HIGH = [-1.0, -2.0], [1.5, 2.0]


def mats(n_s, n_x, scale=1.0):
    return (A4[:n_x, :n_x] * scale, B4[:n_x, :n_s], C4[:n_x], R4[:n_s, :n_s], D4[:n_s])


_mem = {}


def terms(M, names, date):
    return [" + ".join(f"({v})*{n}[{date}]" for v, n in zip(row, names)) for row in M]


def linear(shock, n_s, n_x, scale=1.0, bounds=None, sizes=(4, 5), states=None, controls=None):
    """the model; bounds is a list of (lower, upper) texts, or None"""
    key = (shock, n_s, n_x, scale, str(bounds), sizes)
    if key in _mem:
        return _mem[key]
    A, B, C, R, D = mats(n_s, n_x, scale)
    sn, xn = S_NAMES[:n_s], X_NAMES[:n_x]
    arb = []
    for k in range(n_x):
        rhs = " + ".join([terms(A, xn, "t+1")[k], terms(B, sn, "t")[k], f"({C[k, 0]})*e[t]"])
        eq = f"{xn[k]}[t] - ({rhs})"
        if bounds is not None and bounds[k] is not None:
            eq += f" ⟂ {bounds[k][0]} <= {xn[k]}[t] <= {bounds[k][1]}"
        arb.append(eq)
    tra = [f"{sn[k]}[t] = {terms(R, sn, 't-1')[k]} + ({D[k, 0]})*e[t]" for k in range(n_s)]
    nl = "\n        "
    m = model(f"""
name: linear
symbols:
    exogenous: [e]
    states: [{', '.join(sn)}]
    controls: [{', '.join(xn)}]
    parameters: [beta]
equations:
    arbitrage: |
        {nl.join(arb)}
    transition: |
        {nl.join(tra)}
calibration:
    beta: 0.9
    e: 0.0
    {chr(10).join(f'    {n}: 0.0' for n in sn + xn).strip()}
domain:
    {chr(10).join(f'    {n}: [{LOW[i]}, {HIGH[i]}]' for i, n in enumerate(sn)).strip()}
exogenous: {SHOCKS[shock]}
options:
    grid: !Cartesian
        n: {list(sizes[:n_s])}
""")
    _mem[key] = m
    return m


def nodes_of(dp):
    """values of the exogenous variable, and laws of the next one"""
    N = dp.n_nodes
    e = np.array([dp.node(i)[0] for i in range(N)])
    E = [np.array([dp.inode(i, j)[0] for j in range(dp.n_inodes(i))]) for i in range(N)]
    W = [np.array([dp.iweight(i, j) for j in range(dp.n_inodes(i))]) for i in range(N)]
    return e, E, W


def linear_rule(n_s, n_x, dp, kind, scale=1.0):
    """K, alpha[i] of the linear family for a discretized process;  kind: mc, iid, gdp"""
    A, B, C, R, D = mats(n_s, n_x, scale)
    K = np.linalg.solve(np.eye(n_s * n_x) - np.kron(A, R.T), B.ravel()).reshape((n_x, n_s))
    e, E, W = nodes_of(dp)
    N = len(e)
    if kind == "mc":
        # alpha_i = C e_i + A sum_j w_ij (alpha_j + K D e_j)
        P = np.array(W)
        rhs = np.array([C[:, 0] * e[i] + A @ (K @ D[:, 0]) * (W[i] @ E[i]) for i in range(N)])
        M = np.eye(N * n_x) - np.kron(P, A)
        alpha = np.linalg.solve(M, rhs.ravel()).reshape((N, n_x))
    elif kind == "iid":
        rhs = C[:, 0] * e[0] + A @ (K @ D[:, 0]) * (W[0] @ E[0])
        alpha = np.linalg.solve(np.eye(n_x) - A, rhs)[None, :]
    else:
        # the expected next value is rho e :   G = C + A (G + K D) rho
        G = np.linalg.solve(np.eye(n_x) - A * RHO, C[:, 0] + A @ K @ D[:, 0] * RHO)
        alpha = e[:, None] * G[None, :]
    return K, alpha
