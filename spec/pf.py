"""Reference for power flow: per-unit values, bus controls, matrices, linear and non-linear flow."""
import networkx as nx
import numpy as np
import pandas as pd
from numpy import r_
from pypsa.common import as_index
from pypsa.descriptors import additional_linkports, allocate_series_dataframes, get_switchable_as_dense, update_linkports_component_attrs
from pypsa.pf import newton_raphson_sparse
from scipy.sparse import csc_matrix, csr_matrix, dok_matrix, issparse
from scipy.sparse import hstack as shstack
from scipy.sparse import vstack as svstack
from scipy.sparse.linalg import spsolve
from numpy.linalg import norm

PASSIVE = ("Line", "Transformer")


def active(table):
    return table.index[table.active]


# ------------------------------------------------------------- dependent values
def dependent_values(n):
    line_types(n)
    transformer_types(n)

    lines = n.lines
    lines["v_nom"] = lines.bus0.map(n.buses.v_nom)
    lines.loc[lines.carrier == "", "carrier"] = lines.bus0.map(n.buses.carrier)
    base = lines.v_nom ** 2
    for a in ("x", "r"):
        lines[a + "_pu"] = lines[a] / base
        lines[a + "_pu_eff"] = lines[a + "_pu"]
    for a in ("b", "g"):
        lines[a + "_pu"] = lines[a] * base

    trafos = n.transformers
    for a in ("x", "r"):
        trafos[a + "_pu"] = trafos[a] / trafos.s_nom
        trafos[a + "_pu_eff"] = trafos[a + "_pu"] * trafos.tap_ratio
    for a in ("b", "g"):
        trafos[a + "_pu"] = trafos[a] * trafos.s_nom
    t_model(n)

    shunts = n.shunt_impedances
    shunts["v_nom"] = shunts.bus.map(n.buses.v_nom)
    for a in ("b", "g"):
        shunts[a + "_pu"] = shunts[a] * shunts.v_nom ** 2

    n.links.loc[n.links.carrier == "", "carrier"] = n.links.bus0.map(n.buses.carrier)
    n.stores.loc[n.stores.carrier == "", "carrier"] = n.stores.bus.map(n.buses.carrier)
    update_linkports_component_attrs(n)


def line_types(n):
    typed = n.lines.type != ""
    if not typed.any():
        return
    if len(pd.Index(n.lines.type[typed].unique()).difference(n.line_types.index)) > 0:
        raise ValueError("unknown line type")
    own = n.lines.loc[typed]
    kind = lambda a: own.type.map(n.line_types[a])
    r = kind("r_per_length") * own.length / own.num_parallel
    x = kind("x_per_length") * own.length / own.num_parallel
    b = 2 * np.pi * kind("f_nom") * kind("c_per_length") * 1e-9 * own.length * own.num_parallel
    n.lines.loc[typed, "r"] = r
    n.lines.loc[typed, "x"] = x
    n.lines.loc[typed, "b"] = b


def transformer_types(n):
    typed = n.transformers.type != ""
    if not typed.any():
        return
    if len(pd.Index(n.transformers.type[typed].unique()).difference(n.transformer_types.index)) > 0:
        raise ValueError("unknown transformer type")
    own = n.transformers.loc[typed]
    kind = lambda a: own.type.map(n.transformer_types[a])
    r = kind("vscr") / 100
    x = np.sqrt((kind("vsc") / 100) ** 2 - r ** 2)
    g = kind("pfe") / (1000 * kind("s_nom"))
    b = -np.sqrt(((kind("i0") / 100) ** 2 - g ** 2).clip(lower=0))
    ratio = 1 + (own.tap_position - kind("tap_neutral")) * kind("tap_step") / 100
    n.transformers.loc[typed, "r"] = r / own.num_parallel
    n.transformers.loc[typed, "x"] = x / own.num_parallel
    n.transformers.loc[typed, "g"] = g * own.num_parallel
    n.transformers.loc[typed, "b"] = b * own.num_parallel
    n.transformers.loc[typed, "phase_shift"] = kind("phase_shift")
    n.transformers.loc[typed, "s_nom"] = kind("s_nom")
    n.transformers.loc[typed, "tap_side"] = kind("tap_side")
    n.transformers.loc[typed, "tap_ratio"] = ratio


def t_model(n):
    """T equivalent circuits become the pi circuit with the same terminal behaviour"""
    t = n.transformers
    series = t.r_pu + 1j * t.x_pu
    shunt = t.g_pu + 1j * t.b_pu
    pick = (t.model == "t") & (shunt != 0)
    if not pick.any():
        return
    z1 = series[pick] / 2
    z2 = series[pick] / 2
    z3 = 1 / shunt[pick]
    products = z1 * z2 + z2 * z3 + z3 * z1
    za = products / z2
    zc = products / z3
    t.loc[pick, "r_pu"] = np.real(zc)
    t.loc[pick, "x_pu"] = np.imag(zc)
    t.loc[pick, "g_pu"] = np.real(2 / za)
    t.loc[pick, "b_pu"] = np.imag(2 / za)


# ------------------------------------------------------------- controls
def slack_bus(sub_network):
    n = sub_network.n
    gens = sub_network.components.generators.static
    gens = gens[gens.active]
    if gens.empty:
        sub_network.slack_generator = None
        sub_network.slack_bus = sub_network.components.buses.static.index[0]
    else:
        slacks = gens.index[gens.control == "Slack"]
        if len(slacks) == 0:
            sub_network.slack_generator = gens.index[0]
            n.generators.loc[sub_network.slack_generator, "control"] = "Slack"
        elif len(slacks) == 1:
            sub_network.slack_generator = slacks[0]
        else:
            sub_network.slack_generator = slacks[0]
            n.generators.loc[slacks[1:], "control"] = "PV"
        sub_network.slack_bus = gens.bus[sub_network.slack_generator]
    n.sub_networks.at[sub_network.name, "slack_bus"] = sub_network.slack_bus


def bus_controls(sub_network):
    n = sub_network.n
    slack_bus(sub_network)
    gens = sub_network.components.generators.static
    gens = gens[gens.active]
    buses = sub_network.components.buses.static.index
    n.buses.loc[buses, "control"] = "PQ"
    pv = gens.index[gens.control == "PV"].to_series()
    if len(pv) > 0:
        first = pv.groupby(gens.bus).first()
        n.buses.loc[first.index, "control"] = "PV"
        n.buses.loc[first.index, "generator"] = first
    n.buses.loc[sub_network.slack_bus, "control"] = "Slack"
    n.buses.loc[sub_network.slack_bus, "generator"] = sub_network.slack_generator
    control = n.buses.loc[buses, "control"]
    sub_network.pvs = control.index[control == "PV"]
    sub_network.pqs = control.index[control == "PQ"]
    sub_network.pvpqs = sub_network.pvs.append(sub_network.pqs)
    sub_network.buses_o = sub_network.pvpqs.insert(0, sub_network.slack_bus)


# ------------------------------------------------------------- matrices
def B_H(sub_network, skip_pre=False):
    n = sub_network.n
    if not skip_pre:
        dependent_values_call(n)
        bus_controls(sub_network)
    attribute = "r_pu_eff" if n.sub_networks.at[sub_network.name, "carrier"] == "DC" else "x_pu_eff"
    parts = []
    shifts = []
    for c in sub_network.iterate_components(n.passive_branch_components):
        names = active(c.static)
        parts.append(c.static.loc[names, attribute].values)
        if c.name == "Transformer":
            shifts.append(c.static.loc[names, "phase_shift"].values * np.pi / 180)
        else:
            shifts.append(np.zeros((len(names),)))
    z = np.concatenate(parts)
    b = np.divide(1.0, z, out=np.full_like(z, np.inf), where=z != 0)
    diagonal = csr_matrix((b, (r_[: len(b)], r_[: len(b)])))
    sub_network.K = sub_network.incidence_matrix(busorder=sub_network.buses_o)
    sub_network.H = diagonal * sub_network.K.T
    sub_network.B = sub_network.K * sub_network.H
    sub_network.p_branch_shift = np.multiply(-b, np.concatenate(shifts), where=b != np.inf)
    sub_network.p_bus_shift = sub_network.K * sub_network.p_branch_shift


from pypsa.pf import calculate_dependent_values as dependent_values_call  # noqa: E402
from pypsa.pf import calculate_B_H as B_H_call  # noqa: E402
from pypsa.pf import calculate_Y as Y_call  # noqa: E402


def PTDF(sub_network, skip_pre=False):
    if not skip_pre:
        B_H_call(sub_network)
    size = len(sub_network.pvpqs)
    index = r_[:size]
    inverse = spsolve(csc_matrix(sub_network.B[1:, 1:]), csc_matrix((np.ones(size), (index, index))))
    if issparse(inverse):
        inverse = inverse.toarray()
    elif inverse.shape == (1,):
        inverse = inverse.reshape((1, 1))
    # the slack bus does not react to its own injection
    inverse = np.hstack((np.zeros((size, 1)), inverse))
    inverse = np.vstack((np.zeros(size + 1), inverse))
    sub_network.PTDF = sub_network.H * inverse


def Y(sub_network, skip_pre=False, active_branches_only=True):
    n = sub_network.n
    if not skip_pre:
        dependent_values_call(n)
    if n.sub_networks.at[sub_network.name, "carrier"] != "AC":
        return
    branches = sub_network.branches()
    if active_branches_only:
        branches = branches[branches.active]
    buses = sub_network.buses_o
    rows, cols = len(branches), len(buses)

    series = 1 / (branches.r_pu + 1j * branches.x_pu)
    shunt = branches.g_pu + 1j * branches.b_pu
    tau = branches.tap_ratio.fillna(1.0)
    tau[tau == 0] = 1.0
    tau_hv = pd.Series(1.0, branches.index)
    tau_hv[branches.tap_side == 0] = tau[branches.tap_side == 0]
    tau_lv = pd.Series(1.0, branches.index)
    tau_lv[branches.tap_side == 1] = tau[branches.tap_side == 1]
    rotation = np.exp(1j * branches.phase_shift.fillna(0.0) * np.pi / 180)
    y00 = (series + shunt / 2) / tau_hv ** 2
    y01 = -series / (tau_lv * tau_hv * np.conj(rotation))
    y10 = -series / (tau_lv * tau_hv * rotation)
    y11 = (series + shunt / 2) / tau_lv ** 2

    shunts = n.shunt_impedances
    shunts = shunts[shunts.active]
    bus_b = shunts.b_pu.groupby(shunts.bus).sum().reindex(buses, fill_value=0.0)
    bus_g = shunts.g_pu.groupby(shunts.bus).sum().reindex(buses, fill_value=0.0)
    at_bus = bus_g + 1j * bus_b

    bus0 = buses.get_indexer(branches.bus0)
    bus1 = buses.get_indexer(branches.bus1)
    k = np.arange(rows)
    C0 = csr_matrix((np.ones(rows), (k, bus0)), (rows, cols))
    C1 = csr_matrix((np.ones(rows), (k, bus1)), (rows, cols))
    both = r_[k, k]
    sub_network.Y0 = csr_matrix((r_[y00, y01], (both, r_[bus0, bus1])), (rows, cols))
    sub_network.Y1 = csr_matrix((r_[y10, y11], (both, r_[bus0, bus1])), (rows, cols))
    diagonal = csr_matrix((at_bus, (np.arange(cols), np.arange(cols))))
    sub_network.Y = C0.T * sub_network.Y0 + C1.T * sub_network.Y1 + diagonal


# ------------------------------------------------------------- output tables
def allocate(n, linear=False):
    power = ["p"] if linear else ["p", "q"]
    ends = ["p0", "p1"] if linear else ["p0", "p1", "q0", "q1"]
    voltage = ["p", "v_ang", "v_mag_pu"] if linear else ["p", "v_ang", "v_mag_pu", "q"]
    tables = {"Generator": power, "Load": power, "StorageUnit": power, "Store": power, "ShuntImpedance": power,
              "Bus": voltage, "Line": ends, "Transformer": ends,
              "Link": ["p" + col[3:] for col in n.links.columns if col[:3] == "bus"]}
    if not linear and "p" in tables["Link"]:
        tables["Link"] = tables["Link"] + ["q"]  # a column called just 'bus' makes an output 'p'
    allocate_series_dataframes(n, tables)


# ------------------------------------------------------------- linear flow
def bus_sum(values, buses, of):
    return values.T.groupby(buses).sum().T.reindex(columns=of, fill_value=0)


def link_ports(n):
    return [int(col[3:]) for col in n.links.columns if col[:3] == "bus"]


def lpf(sub_network, snapshots=None, skip_pre=False):
    n = sub_network.n
    sns = as_index(n, snapshots, "snapshots")
    if not skip_pre:
        dependent_values_call(n)
        bus_controls(sub_network)
        allocate(n, linear=True)
    order = sub_network.buses_o
    branches = sub_network.branches_i(active_only=True)

    shunts = active(sub_network.components.shunt_impedances.static)
    n.shunt_impedances_t.p.loc[sns, shunts] = n.shunt_impedances.g_pu.loc[shunts].values
    for c in sub_network.iterate_components(n.controllable_one_port_components):
        names = active(c.static)
        n.dynamic(c.name).p.loc[sns, names] = get_switchable_as_dense(n, c.name, "p_set", sns, names)

    injection = []
    for c in sub_network.iterate_components(n.one_port_components):
        names = active(c.static)
        signed = c.dynamic.p.loc[sns, names] * c.static.loc[names, "sign"]
        injection.append(bus_sum(signed, c.static.loc[names, "bus"], order))
    for c in n.iterate_components(n.controllable_branch_components):
        for i in [int(col[3:]) for col in c.static.columns if col[:3] == "bus"]:
            injection.append(-bus_sum(c.dynamic[f"p{i}"].loc[sns], c.static[f"bus{i}"], order))
    n.buses_t.p.loc[sns, order] = sum(injection)

    if not skip_pre and len(branches) > 0:
        B_H_call(sub_network, skip_pre=True)

    angle = np.zeros((len(sns), len(order)))
    if len(branches) > 0:
        p = n.buses_t.p.loc[sns, order].values - sub_network.p_bus_shift
        angle[:, 1:] = spsolve(sub_network.B[1:, 1:], p[:, 1:].T).T
        flows = pd.DataFrame(angle * sub_network.H.T, columns=branches, index=sns) + sub_network.p_branch_shift
        for c in sub_network.iterate_components(n.passive_branch_components):
            own = flows.loc[:, c.name]
            n.dynamic(c.name).p0.loc[sns, own.columns] = own
            n.dynamic(c.name).p1.loc[sns, own.columns] = -own

    if n.sub_networks.at[sub_network.name, "carrier"] == "DC":
        n.buses_t.v_mag_pu.loc[sns, order] = 1 + angle
        n.buses_t.v_ang.loc[sns, order] = 0.0
    else:
        n.buses_t.v_ang.loc[sns, order] = angle
        n.buses_t.v_mag_pu.loc[sns, order] = 1.0

    # the slack balances the rest
    adjust = -n.buses_t.p.loc[sns, order[1:]].sum(axis=1).fillna(0.0) - n.buses_t.p.loc[sns, order[0]]
    n.buses_t.p.loc[sns, order[0]] += adjust
    if sub_network.slack_generator is not None:
        n.generators_t.p.loc[sns, sub_network.slack_generator] += adjust


# ------------------------------------------------------------- non-linear flow
def controllable_balance(sub_network, network, snapshots, buses_o):
    n = network
    for q in ("q", "p"):
        for c in sub_network.iterate_components(n.controllable_one_port_components):
            names = active(c.static)
            n.dynamic(c.name)[q].loc[snapshots, names] = get_switchable_as_dense(n, c.name, q + "_set", snapshots, names)
        n.buses_t[q].loc[snapshots, buses_o] = sum(
            bus_sum(c.dynamic[q].loc[snapshots, active(c.static)] * c.static.loc[active(c.static), "sign"], c.static.loc[active(c.static), "bus"], buses_o)
            for c in sub_network.iterate_components(n.controllable_one_port_components))
        if q == "p":
            n.buses_t.p.loc[snapshots, buses_o] += sum(
                -bus_sum(c.dynamic[f"p{i}"].loc[snapshots], c.static[f"bus{i}"], buses_o)
                for c in n.iterate_components(n.controllable_branch_components)
                for i in [int(col[3:]) for col in c.static.columns if col[:3] == "bus"])


def links_fixed(n, sns):
    """links carry exactly their set point; every output is the efficiency times the input"""
    if n.links.empty:
        return
    flow = get_switchable_as_dense(n, "Link", "p_set", sns) * n.links.active
    n.links_t.p0.loc[sns] = flow.loc[sns]
    for i in ["1"] + additional_linkports(n):
        name = "efficiency" if i == "1" else "efficiency" + i
        eff = get_switchable_as_dense(n, "Link", name, sns)
        own = n.links.index[n.links["bus" + i] != ""]
        n.links_t["p" + i].loc[sns, own] = -n.links_t.p0.loc[sns, own] * eff.loc[sns, own]


def newton(F, J, start, tol):
    """at most 100 Newton steps until the largest mismatch is within the tolerance"""
    x, steps = start, 0
    mismatch = F(x)
    error = norm(mismatch, np.inf)
    while steps < 100 and error > tol:
        x = x - spsolve(J(x), mismatch)
        mismatch = F(x)
        error = norm(mismatch, np.inf)
        steps = steps + 1
    return x, steps, error, not (error > tol) and not np.isnan(error)


def share(values):
    total = values.sum()
    return values / total


def rows_share(frame):
    return frame.apply(share, axis=1).fillna(0)


def ac_flow(sub_network, snapshots=None, skip_pre=False, x_tol=1e-6, use_seed=False, distribute_slack=False, slack_weights="p_set"):
    n = sub_network.n
    if not isinstance(slack_weights, (str | pd.Series | dict)):
        raise TypeError("slack weights")
    if isinstance(slack_weights, dict):
        slack_weights = pd.Series(slack_weights)
    elif isinstance(slack_weights, str) and slack_weights not in ("p_nom", "p_nom_opt", "p_set"):
        raise ValueError("slack weights")
    sns = as_index(n, snapshots, "snapshots")
    if not skip_pre:
        dependent_values_call(n)
        bus_controls(sub_network)
        allocate(n, linear=False)
    order, slack, pv, pq, pvpq = sub_network.buses_o, sub_network.slack_bus, sub_network.pvs, sub_network.pqs, sub_network.pvpqs
    branches = sub_network.branches_i(active_only=True)
    buses = sub_network.components.buses.static.index
    gens = sub_network.components.generators.static

    by_generator = by_bus = False
    if isinstance(slack_weights, pd.Series):
        by_generator = all(g in gens.index for g in slack_weights.index)
        by_bus = not by_generator and all(b in buses for b in slack_weights.index)
        if not by_generator and not by_bus:
            raise ValueError("slack weights")
    if not skip_pre and len(branches) > 0:
        Y(sub_network, skip_pre=True)
    controllable_balance(sub_network, n, sns, order)

    # set points and start values
    voltage = get_switchable_as_dense(n, "Bus", "v_mag_pu_set", sns)
    for fixed in (pv, slack):
        n.buses_t.v_mag_pu.loc[sns, fixed] = voltage.loc[:, fixed]
    n.buses_t.v_ang.loc[sns, slack] = 0.0
    if not use_seed:
        n.buses_t.v_mag_pu.loc[sns, pq] = 1.0
        n.buses_t.v_ang.loc[sns, pvpq] = 0.0

    # share of every bus in the slack power
    per_snapshot = isinstance(slack_weights, str) and slack_weights == "p_set"
    if distribute_slack:
        if per_snapshot:
            planned = get_switchable_as_dense(n, "Generator", slack_weights, sns, active(n.generators))
            planned = planned.rename(columns=n.generators.bus)
            weights = rows_share(pd.DataFrame(planned.T.groupby(planned.columns).sum().T, columns=order))
        elif isinstance(slack_weights, str) and slack_weights in ("p_nom", "p_nom_opt"):
            if all(n.generators[slack_weights] == 0):
                raise ValueError("slack weights")
            weights = share(n.generators[n.generators.active].groupby("bus")[slack_weights].sum().reindex(order)).fillna(0)
        elif by_generator:
            weights = share(slack_weights.rename(n.generators.bus).groupby(level=0).sum().reindex(order)).fillna(0)
        elif by_bus:
            weights = share(slack_weights.reindex(order)).fillna(0)

    first_q, n_ang = 1 + len(pv), len(pvpq)
    end = -1 if distribute_slack else None

    injections = np.empty((len(sns), len(order)), dtype=complex)
    solution = np.empty((len(sns), len(pvpq) + len(pq) + (1 if distribute_slack else 0)))
    iterations = pd.Series(0, index=sns)
    errors = pd.Series(index=sns, dtype=float)
    converged = pd.Series(False, index=sns)
    for k, now in enumerate(sns):
        given = n.buses_t.p.loc[now, order] + 1j * n.buses_t.q.loc[now, order]
        injections[k] = given
        start = r_[n.buses_t.v_ang.loc[now, pvpq], n.buses_t.v_mag_pu.loc[now, pq]]
        if distribute_slack:
            start = np.append(start, [0])
            w = weights.loc[now] if per_snapshot else weights

        def voltages(x):
            n.buses_t.v_ang.loc[now, pvpq] = x[:n_ang]
            n.buses_t.v_mag_pu.loc[now, pq] = x[n_ang:end]
            return n.buses_t.v_mag_pu.loc[now, order] * np.exp(1j * n.buses_t.v_ang.loc[now, order])

        def mismatch(x):
            U = voltages(x)
            d = U * np.conj(sub_network.Y * U) - given
            if distribute_slack:
                d = d + w * x[-1]
                return r_[d.real, d.imag[first_q:]]
            return r_[d.real[1:], d.imag[first_q:]]

        def jacobian(x):
            U = voltages(x)
            k = r_[: len(order)]
            dU = csr_matrix((U, (k, k)))
            dN = csr_matrix((U / abs(U), (k, k)))
            dI = csr_matrix((sub_network.Y * U, (k, k)))
            ang = 1j * dU * np.conj(dI - sub_network.Y * dU)
            mag = dN * np.conj(dI) + dU * np.conj(sub_network.Y * dN)
            lower = [ang[first_q:, 1:].imag, mag[first_q:, first_q:].imag]
            if distribute_slack:
                upper = [ang[:, 1:].real, mag[:, first_q:].real, csr_matrix(w, (1, 1 + len(pvpq))).T]
                lower.append(csr_matrix((1, len(pq))).T)
            else:
                upper = [ang[1:, 1:].real, mag[1:, first_q:].real]
            return svstack([shstack(upper), shstack(lower)], format="csr")

        found, steps, error, ok = newton(mismatch, jacobian, start, x_tol)
        solution[k] = found
        iterations[now] = steps
        errors[now] = error
        converged[now] = ok

    n.buses_t.v_ang.loc[sns, pvpq] = solution[:, :n_ang]
    n.buses_t.v_mag_pu.loc[sns, pq] = solution[:, n_ang:end]
    mags = n.buses_t.v_mag_pu.loc[sns, order].values
    U = mags * np.exp(1j * n.buses_t.v_ang.loc[sns, order].values)

    # branch flows
    ends0, ends1 = [], []
    for c in sub_network.iterate_components(n.passive_branch_components):
        ends0 += list(c.static[c.static.active].bus0)
        ends1 += list(c.static[c.static.active].bus1)
    U0, U1 = U[:, order.get_indexer(ends0)], U[:, order.get_indexer(ends1)]
    current0 = np.empty((len(sns), sub_network.Y0.shape[0]), dtype=complex)
    current1 = np.empty((len(sns), sub_network.Y1.shape[0]), dtype=complex)
    for k, now in enumerate(sns):
        current0[k] = sub_network.Y0 * U[k]
        current1[k] = sub_network.Y1 * U[k]
    for end_, Uk, cur in (("0", U0, current0), ("1", U1, current1)):
        flow = pd.DataFrame(Uk * np.conj(cur), columns=branches, index=sns)
        for c in sub_network.iterate_components(n.passive_branch_components):
            own = flow.loc[:, c.name]
            n.dynamic(c.name)["p" + end_].loc[sns, own.columns] = own.values.real
            n.dynamic(c.name)["q" + end_].loc[sns, own.columns] = own.values.imag

    # bus injections
    S = np.empty((len(sns), len(order)), dtype=complex)
    for k in np.arange(len(sns)):
        S[k] = U[k] * np.conj(sub_network.Y * U[k])
    at_slack = order.get_loc(slack)
    if distribute_slack:
        n.buses_t.p.loc[sns, buses] = S.real[:, order.get_indexer(buses)]
    else:
        n.buses_t.p.loc[sns, slack] = S[:, at_slack].real
    n.buses_t.q.loc[sns, slack] = S[:, at_slack].imag
    n.buses_t.q.loc[sns, pv] = S[:, order.get_indexer(pv)].imag

    # shunts
    shunts = sub_network.components.shunt_impedances.static
    shunts = shunts.index[shunts.active]
    if len(shunts) > 0:
        square = mags[:, order.get_indexer(n.shunt_impedances.loc[shunts, "bus"])] ** 2
        n.shunt_impedances_t.p.loc[sns, shunts] = square * n.shunt_impedances.loc[shunts, "g_pu"].values
        n.shunt_impedances_t.q.loc[sns, shunts] = square * n.shunt_impedances.loc[shunts, "b_pu"].values

    # generators take up the slack
    if distribute_slack:
        extra = n.buses_t.p.loc[sns, buses] - injections[:, order.get_indexer(buses)].real
        for bus, group in gens[gens.active].groupby("bus"):
            if per_snapshot:
                part = rows_share(get_switchable_as_dense(n, "Generator", slack_weights, sns).loc[sns, group.index])
                n.generators_t.p.loc[sns, group.index] += part.multiply(extra.loc[sns, bus], axis=0)
            else:
                if by_generator:
                    part = share(slack_weights.reindex(group.index)).fillna(0)
                else:
                    nom = n.generators.p_nom.loc[group.index]
                    if (nom == 0).all():
                        nom = nom + 1
                    part = share(nom).fillna(0)
                n.generators_t.p.loc[sns, group.index] += extra.loc[sns, bus].apply(lambda x: x * part)
    elif sub_network.slack_generator is not None:
        n.generators_t.p.loc[sns, sub_network.slack_generator] += n.buses_t.p.loc[sns, slack] - injections[:, at_slack].real
    if sub_network.slack_generator is not None:
        n.generators_t.q.loc[sns, sub_network.slack_generator] += n.buses_t.q.loc[sns, slack] - injections[:, at_slack].imag
    n.generators_t.q.loc[sns, n.buses.loc[pv, "generator"]] += np.asarray(
        n.buses_t.q.loc[sns, pv] - injections[:, order.get_indexer(pv)].imag)
    return iterations, errors, converged


# ------------------------------------------------------------- single buses and whole networks
def single_bus(sub_network, snapshots=None, skip_pre=False, distribute_slack=False, slack_weights="p_set"):
    n = sub_network.n
    sns = as_index(n, snapshots, "snapshots")
    if not skip_pre:
        bus_controls(sub_network)
        allocate(n, linear=False)
    if isinstance(slack_weights, dict):
        slack_weights = pd.Series(slack_weights)
    bus = sub_network.slack_bus
    controllable_balance(sub_network, n, sns, sub_network.buses_o)
    n.buses_t.v_mag_pu.loc[sns, bus] = get_switchable_as_dense(n, "Bus", "v_mag_pu_set", sns).loc[:, bus]
    n.buses_t.v_ang.loc[sns, bus] = 0.0
    gens = sub_network.components.generators.static
    if distribute_slack:
        for at, group in gens[gens.active].groupby("bus"):
            missing = -n.buses_t.p.loc[sns, at]
            if isinstance(slack_weights, pd.Series) or slack_weights in ("p_nom", "p_nom_opt"):
                if isinstance(slack_weights, pd.Series):
                    if slack_weights.index.isin(gens.index).all():
                        part = share(slack_weights.reindex(group.index)).fillna(0)
                    else:
                        nom = n.generators.p_nom.loc[group.index]
                        if (nom == 0).all():
                            nom = nom + 1
                        part = share(nom).fillna(0)
                else:
                    if all(n.generators[slack_weights] == 0):
                        raise ValueError("slack weights")
                    part = share(n.generators[slack_weights].loc[group.index]).fillna(0)
                n.generators_t.p.loc[sns, group.index] += missing.apply(lambda x: x * part)
            else:
                planned = get_switchable_as_dense(n, "Generator", slack_weights, sns)
                if planned.isna().all().all():
                    raise ValueError("slack weights")
                if (planned == 0).all().all():
                    raise ValueError("slack weights")
                part = rows_share(planned.loc[sns, group.index])
                n.generators_t.p.loc[sns, group.index] += part.multiply(missing, axis=0)
    elif sub_network.slack_generator is not None:
        n.generators_t.p.loc[sns, sub_network.slack_generator] -= n.buses_t.p.loc[sns, bus]
    if sub_network.slack_generator is not None:
        n.generators_t.q.loc[sns, sub_network.slack_generator] -= n.buses_t.q.loc[sns, bus]
    n.buses_t.p.loc[sns, bus] = 0.0
    n.buses_t.q.loc[sns, bus] = 0.0
    return 0, 0.0, True


def prepare(n, snapshots, skip_pre, linear):
    if not skip_pre:
        n.determine_network_topology()
        dependent_values_call(n)
        allocate(n, linear)
    links_fixed(n, as_index(n, snapshots, "snapshots"))


def network_lpf(n, snapshots=None, skip_pre=False):
    prepare(n, snapshots, skip_pre, True)
    sns = as_index(n, snapshots, "snapshots")
    for sub in n.sub_networks.obj:
        if not skip_pre:
            find_bus_controls(sub)
            if len(sub.branches_i(active_only=True)) > 0:
                B_H_call(sub, skip_pre=True)
        sub_network_lpf(sub, snapshots=sns, skip_pre=True)


def network_pf(n, snapshots=None, skip_pre=False, x_tol=1e-6, use_seed=False, distribute_slack=False, slack_weights="p_set"):
    prepare(n, snapshots, skip_pre, False)
    sns = as_index(n, snapshots, "snapshots")
    iterations = pd.DataFrame(index=sns, columns=n.sub_networks.index, dtype=int)
    errors = pd.DataFrame(index=sns, columns=n.sub_networks.index)
    converged = pd.DataFrame(index=sns, columns=n.sub_networks.index, dtype=bool)
    for sub in n.sub_networks.obj:
        if not skip_pre:
            find_bus_controls(sub)
            if len(sub.branches_i(active_only=True)) > 0:
                Y_call(sub, skip_pre=True)
        weights = slack_weights[sub.name] if isinstance(slack_weights, dict) else slack_weights
        if isinstance(weights, dict):
            weights = pd.Series(weights)
        if len(sub.components.buses.static) <= 1:
            out = sub_network_pf_singlebus(sub, snapshots=sns, skip_pre=True, distribute_slack=distribute_slack, slack_weights=weights)
        else:
            out = sub_network_pf(sub, snapshots=sns, skip_pre=True, distribute_slack=distribute_slack, slack_weights=weights,
                                 x_tol=x_tol, use_seed=use_seed)
        iterations[sub.name], errors[sub.name], converged[sub.name] = out
    return Dict({"n_iter": iterations, "error": errors, "converged": converged})


from pypsa.pf import find_bus_controls, sub_network_lpf, sub_network_pf, sub_network_pf_singlebus  # noqa: E402
from pypsa.definitions.structures import Dict  # noqa: E402
