"""Reference model of the optimisation problem.

These functions restate, one family of variables/constraints at a time, the documented optimisation
problem (user guide, "System Optimization").  They are never executed: the analyser lowers them to the
same normal form as the code of /repo and compares both.
"""
import re
import pandas as pd
import xarray as xr
import linopy
from numpy import inf, isfinite, isnan
from scipy import sparse
from pypsa.common import as_index
from pypsa.optimization.common import get_strongly_meshed_buses
from pypsa.descriptors import get_switchable_as_dense, get_activity_mask, get_active_assets, expand_series

NOMINAL = {
    "Generator": "p_nom", "Line": "s_nom", "Transformer": "s_nom",
    "Link": "p_nom", "Store": "e_nom", "StorageUnit": "p_nom",
}
# component -> operational quantities with capacity bounds
DISPATCH = {
    "Generator": ["p"], "Line": ["s"], "Transformer": ["s"], "Link": ["p"], "Store": ["e"],
    "StorageUnit": ["p_dispatch", "p_store", "state_of_charge"],
}
BRANCHES = ["Line", "Transformer"]
COMMITTABLE = ["Generator", "Link"]


# ---------------------------------------------------------------- index sets
def extendable(n, c):
    s = n.static(c)
    return s.index[s[NOMINAL[c] + "_extendable"]]


def fixed(n, c):
    s = n.static(c)
    return s.index[~s[NOMINAL[c] + "_extendable"]]


def committable(n, c):
    s = n.static(c)
    return s.index[s["committable"]]


def dispatchable_fixed(n, c):
    """assets with fixed capacity that are not committable"""
    s = n.static(c)
    if c in COMMITTABLE:
        return s.index[~s[NOMINAL[c] + "_extendable"] & ~s["committable"]]
    return s.index[~s[NOMINAL[c] + "_extendable"]]


def modular(n, c):
    s = n.static(c)
    return s.index[s[NOMINAL[c] + "_extendable"] & (s[NOMINAL[c] + "_mod"] > 0)]


def output_ports(n):
    """suffixes of the additional link outputs, i.e. of every bus column beyond bus0 and bus1"""
    return [col[3:] for col in n.links.columns if col.startswith("bus") and col != "bus0" and col != "bus1"]


# ---------------------------------------------------------------- variables
def nominal_variables(n):
    for c in NOMINAL:
        ext = extendable(n, c)
        if len(ext) > 0:
            n.model.add_variables(coords=[ext], name=f"{c}-{NOMINAL[c]}")


def modular_variables(n):
    for c in NOMINAL:
        mod = modular(n, c)
        if len(mod) > 0:
            n.model.add_variables(lower=0, integer=True, coords=[mod], name=f"{c}-n_mod")


def dispatch_variables(n, sns):
    for c, attrs in DISPATCH.items():
        if not n.static(c).empty:
            for a in attrs:
                n.model.add_variables(coords=[sns, n.static(c).index], name=f"{c}-{a}",
                                      mask=get_activity_mask(n, c, sns))
    if not n.stores.empty:
        n.model.add_variables(coords=[sns, n.stores.index], name="Store-p", mask=get_activity_mask(n, "Store", sns))


def commitment_variables(n, sns):
    for c in COMMITTABLE:
        com = committable(n, c)
        if len(com) == 0:
            continue
        on = get_activity_mask(n, c, sns, com)
        for v in ["status", "start_up", "shut_down"]:
            if n._linearized_uc:
                n.model.add_variables(lower=0, upper=1, binary=False, coords=[sns, com], name=f"{c}-{v}", mask=on)
            else:
                n.model.add_variables(binary=True, coords=[sns, com], name=f"{c}-{v}", mask=on)


def spill_variables(n, sns):
    if n.storage_units.empty:
        return
    inflow = get_switchable_as_dense(n, "StorageUnit", "inflow", sns)
    if (inflow.max() <= 0).all():
        return
    can_spill = get_activity_mask(n, "StorageUnit", sns).where(inflow > 0, False)
    n.model.add_variables(lower=0, upper=inflow, name="StorageUnit-spill", mask=can_spill)


def loss_variables(n, sns, losses):
    if losses:
        for c in BRANCHES:
            if not n.static(c).empty:
                n.model.add_variables(lower=0, coords=[sns, n.static(c).index], name=f"{c}-loss",
                                      mask=get_activity_mask(n, c, sns))


# ---------------------------------------------------------------- capacity
def nominal_bounds(n):
    for c, nom in NOMINAL.items():
        ext = extendable(n, c)
        if len(ext) == 0:
            continue
        cap = n.model[f"{c}-{nom}"]
        lo = n.static(c).loc[ext, nom + "_min"]
        hi = n.static(c).loc[ext, nom + "_max"]
        n.model.add_constraints(cap, ">=", lo, name=f"{c}-ext-{nom}-lower")
        n.model.add_constraints(cap, "<=", hi, name=f"{c}-ext-{nom}-upper", mask=hi != inf)


def nominal_set(n):
    for c, nom in NOMINAL.items():
        if nom + "_set" not in n.static(c):
            continue
        given = n.static(c)[nom + "_set"].dropna()
        if given.empty:
            continue
        n.model.add_constraints(n.model[f"{c}-{nom}"].loc[given.index], "=", given, name=f"{c}-{nom}_set")


def modular_capacity(n):
    for c, nom in NOMINAL.items():
        mod = modular(n, c)
        if len(mod) > 0:
            size = n.static(c).loc[mod, nom + "_mod"]
            n.model.add_constraints(n.model[f"{c}-{nom}"].loc[mod] - n.model[f"{c}-n_mod"] * size, "=", 0,
                                    name=f"{c}-{nom}_modularity")


# ---------------------------------------------------------------- dispatch bounds
def bounds(n, c, a, sns, assets):
    """lower and upper per-unit bound of operational quantity `a`"""
    if c in BRANCHES:
        hi = get_switchable_as_dense(n, c, "s_max_pu", sns, assets)
        return -hi, hi
    if c == "StorageUnit" and a == "state_of_charge":
        return 0, n.static(c).loc[assets, "max_hours"]
    if c == "StorageUnit" and a == "p_store":
        return 0, -get_switchable_as_dense(n, c, "p_min_pu", sns, assets)
    if c == "StorageUnit":
        return 0, get_switchable_as_dense(n, c, "p_max_pu", sns, assets)
    pre = "e" if c == "Store" else "p"
    return (get_switchable_as_dense(n, c, pre + "_min_pu", sns, assets),
            get_switchable_as_dense(n, c, pre + "_max_pu", sns, assets))


def dispatch_bounds_fixed(n, sns, losses):
    for c, attrs in DISPATCH.items():
        assets = dispatchable_fixed(n, c)
        if len(assets) == 0:
            continue
        nom = n.static(c).loc[assets, NOMINAL[c]]
        on = get_activity_mask(n, c, sns, assets)
        for a in attrs:
            lo, hi = bounds(n, c, a, sns, assets)
            x = n.model[f"{c}-{a}"].loc[:, assets]
            if c in BRANCHES and losses:
                loss = n.model[f"{c}-loss"].loc[:, assets]
                n.model.add_constraints(x - loss, ">=", lo * nom, name=f"{c}-fix-{a}-lower", mask=on)
                n.model.add_constraints(x + loss, "<=", hi * nom, name=f"{c}-fix-{a}-upper", mask=on)
            else:
                n.model.add_constraints(x, ">=", lo * nom, name=f"{c}-fix-{a}-lower", mask=on)
                n.model.add_constraints(x, "<=", hi * nom, name=f"{c}-fix-{a}-upper", mask=on)


def dispatch_bounds_extendable(n, sns, losses):
    for c, attrs in DISPATCH.items():
        assets = extendable(n, c)
        if len(assets) == 0:
            continue
        nom = n.model[f"{c}-{NOMINAL[c]}"]
        on = get_activity_mask(n, c, sns, assets)
        for a in attrs:
            lo, hi = bounds(n, c, a, sns, assets)
            x = n.model[f"{c}-{a}"].loc[:, assets]
            if c in BRANCHES and losses:
                loss = n.model[f"{c}-loss"].loc[:, assets]
                n.model.add_constraints(x - loss - lo * nom, ">=", 0, name=f"{c}-ext-{a}-lower", mask=on)
                n.model.add_constraints(x + loss - hi * nom, "<=", 0, name=f"{c}-ext-{a}-upper", mask=on)
            else:
                n.model.add_constraints(x - lo * nom, ">=", 0, name=f"{c}-ext-{a}-lower", mask=on)
                n.model.add_constraints(x - hi * nom, "<=", 0, name=f"{c}-ext-{a}-upper", mask=on)


# ---------------------------------------------------------------- fixed operation, energy sums
def operation_set(n, sns):
    for c, attrs in DISPATCH.items():
        for a in attrs:
            if a + "_set" not in n.dynamic(c):
                continue
            given = n.dynamic(c)[a + "_set"].loc[sns]
            if given.empty:
                continue
            n.model.add_constraints(n.model[f"{c}-{a}"].loc[:, given.columns], "=", given, name=f"{c}-{a}_set",
                                    mask=given.notnull() & get_activity_mask(n, c, sns, given.columns))


def energy_sums(n, sns):
    g = n.generators
    if g.empty:
        return
    hours = n.snapshot_weightings.generators[sns]
    lower = g.index[g.e_sum_min > -inf]
    if len(lower) > 0:
        energy = (n.model["Generator-p"].loc[sns, lower] * hours).sum(dim="snapshot")
        n.model.add_constraints(energy, ">=", g.loc[lower, "e_sum_min"], name="Generator-e_sum_min")
    upper = g.index[g.e_sum_max < inf]
    if len(upper) > 0:
        energy = (n.model["Generator-p"].loc[sns, upper] * hours).sum(dim="snapshot")
        n.model.add_constraints(energy, "<=", g.loc[upper, "e_sum_max"], name="Generator-e_sum_max")


# ---------------------------------------------------------------- unit commitment
def time_in_state(state):
    """number of snapshots immediately before the horizon spent in a state"""
    backwards = state[::-1]
    unbroken = backwards.cumsum().eq(range(1, len(backwards) + 1), axis=0)
    return backwards[unbroken].sum()


def unit_commitment(n, sns):
    for c in COMMITTABLE:
        com = committable(n, c)
        if len(com) == 0:
            continue
        m = n.model
        s = n.static(c)
        status, start, stop = m[f"{c}-status"], m[f"{c}-start_up"], m[f"{c}-shut_down"]
        before = status.shift(snapshot=1)
        p = m[f"{c}-p"].loc[:, com]
        on = get_activity_mask(n, c, sns, com)
        nom = s.loc[com, NOMINAL[c]]
        low = get_switchable_as_dense(n, c, "p_min_pu", sns, com) * nom
        high = get_switchable_as_dense(n, c, "p_max_pu", sns, com) * nom

        # output only while running, between the per-unit limits
        m.add_constraints(p - low * status, ">=", 0, name=f"{c}-com-p-lower", mask=on)
        m.add_constraints(p - high * status, "<=", 0, name=f"{c}-com-p-upper", mask=on)

        up_limit = s.loc[com, "min_up_time"]
        down_limit = s.loc[com, "min_down_time"]
        if sns[0] != n.snapshots[0]:
            start_i = n.snapshots.get_loc(sns[0])
            history = n.dynamic(c).status.iloc[:start_i].reindex(columns=com)
            up = time_in_state(history)
            down = time_in_state(~history.astype(bool))
            was_up, was_down = up != 0, down != 0
            up_before, down_before = up.clip(upper=up_limit), down.clip(upper=down_limit)
        else:
            up_before = s.loc[com, "up_time_before"]
            down_before = s.loc[com, "down_time_before"]
            was_up, was_down = up_before != 0, down_before != 0

        # start-ups and shut-downs follow the change of status, the first snapshot compares with history
        rhs = pd.DataFrame(0, sns, com)
        rhs.loc[sns[0], was_up] = -1
        m.add_constraints(start - status + before, ">=", rhs, name=f"{c}-com-transition-start-up", mask=on)
        rhs = pd.DataFrame(0, sns, com)
        rhs.loc[sns[0], was_up] = 1
        m.add_constraints(stop + status - before, ">=", rhs, name=f"{c}-com-transition-shut-down", mask=on)

        # minimum up and down times
        later = sns[1:]
        limited = com[up_limit != 0]
        if len(limited) > 0:
            recent = [start.loc[:, g].rolling(snapshot=up_limit[g]).sum() for g in limited]
            expr = linopy.merge(recent, dim=f"{c}-com") - status.loc[:, limited]
            m.add_constraints(expr.sel(snapshot=later), "<=", 0, name=f"{c}-com-up-time",
                              mask=get_activity_mask(n, c, sns, com)[limited].loc[later])
        limited = com[down_limit != 0]
        if len(limited) > 0:
            recent = [stop.loc[:, g].rolling(snapshot=down_limit[g]).sum() for g in limited]
            expr = linopy.merge(recent, dim=f"{c}-com") + status.loc[:, limited]
            m.add_constraints(expr.sel(snapshot=later), "<=", 1, name=f"{c}-com-down-time",
                              mask=get_activity_mask(n, c, sns, com)[limited].loc[later])

        # units that have not yet served their minimum time keep their state
        position = pd.DataFrame([range(1, len(sns) + 1)] * len(com), com, sns).T
        if was_up.any():
            remaining = (up_limit - up_before).clip(lower=0)
            m.add_constraints(status, "=", 1, name=f"{c}-com-status-min_up_time_must_stay_up",
                              mask=(position <= remaining) & was_up & on)
        if was_down.any():
            remaining = (down_limit - down_before).clip(lower=0)
            m.add_constraints(status, "=", 0, name=f"{c}-com-status-min_down_time_must_stay_up",
                              mask=(position <= remaining) & was_down & on)

        # tightening of the linear relaxation
        equal = s.loc[com, "start_up_cost"] == s.loc[com, "shut_down_cost"]
        if n._linearized_uc and equal.any():
            tight(n, c, com, sns, equal, p, low, high, nom, on, status, start)


def tight(n, c, com, sns, equal, p, low, high, nom, on, status, start):
    m = n.model
    s = n.static(c)
    later = sns[1:]
    p = p.loc[:, equal]
    status = status.loc[:, equal]
    start = start.loc[:, equal]
    low = low.loc[:, equal]
    high = high.loc[:, equal]
    mask = on.loc[:, equal].loc[later]
    r_down_stop = (nom * s.loc[com, "ramp_limit_shut_down"]).loc[equal]
    r_up_start = (nom * s.loc[com, "ramp_limit_start_up"]).loc[equal]
    r_up = (nom * s.loc[com, "ramp_limit_up"].fillna(1)).loc[equal]
    r_down = (nom * s.loc[com, "ramp_limit_down"].fillna(1)).loc[equal]
    p_b = p.shift(snapshot=1)
    s_b = status.shift(snapshot=1)
    e = p_b - r_down_stop * s_b - (high - r_down_stop) * (status - start)
    m.add_constraints(e.sel(snapshot=later), "<=", 0, name=f"{c}-com-p-before", mask=mask)
    e = p - high * status + (high - r_up_start) * start
    m.add_constraints(e.sel(snapshot=later), "<=", 0, name=f"{c}-com-p-current", mask=mask)
    e = p - p_b - (low + r_up) * status + low * s_b + (low + r_up - r_up_start) * start
    m.add_constraints(e.sel(snapshot=later), "<=", 0, name=f"{c}-com-partly-start-up", mask=mask)
    e = p_b - p - r_down_stop * s_b + (r_down_stop - r_down) * status - (low + r_down - r_down_stop) * start
    m.add_constraints(e.sel(snapshot=later), "<=", 0, name=f"{c}-com-partly-shut-down", mask=mask)


# ---------------------------------------------------------------- ramp limits
def ramp_limits(n, sns):
    for c in COMMITTABLE:
        m = n.model
        s = n.static(c)
        up = get_switchable_as_dense(n, c, "ramp_limit_up", sns)
        down = get_switchable_as_dense(n, c, "ramp_limit_down", sns)
        if up.isnull().all().all() and down.isnull().all().all():
            continue
        if (up == 1).all().all() and (down == 1).all().all():
            continue
        a = "p" if c == "Generator" else "p0"
        start_i = n.snapshots.get_loc(sns[0]) - 1
        p_last = n.dynamic(c)[a].iloc[start_i]
        p = m[f"{c}-p"]
        # the first snapshot of the horizon is limited only if there is a dispatch before it
        continued = sns[0] != n.snapshots[0] and not p_last.empty
        if continued:
            t = sns
            offset = pd.DataFrame(0.0, index=sns, columns=s.index)
            offset.loc[sns[0]] = p_last
        else:
            t = sns[1:]
            offset = pd.DataFrame(0, index=t, columns=s.index)
        on = get_activity_mask(n, c, t)
        step = (p - p.shift(snapshot=1)).sel(snapshot=t)

        i = dispatchable_fixed(n, c)
        nom = s.loc[i, NOMINAL[c]]
        if not up[i].isnull().all().all():
            m.add_constraints(step.loc[:, i], "<=", (up.loc[t, i] * nom) + offset[i], name=f"{c}-fix-{a}-ramp_limit_up",
                              mask=on[i] & up.loc[t, i].notnull())
        if not down[i].isnull().all().all():
            m.add_constraints(step.loc[:, i], ">=", offset[i] - down.loc[t, i] * nom,
                              name=f"{c}-fix-{a}-ramp_limit_down", mask=on[i] & down.loc[t, i].notnull())
        i = extendable(n, c)
        cap = m[f"{c}-{NOMINAL[c]}"]
        if not up[i].isnull().all().all():
            m.add_constraints(step.loc[:, i] - up.loc[t, i] * cap, "<=", offset[i], name=f"{c}-ext-{a}-ramp_limit_up",
                              mask=on[i] & up.loc[t, i].notnull())
        if not down[i].isnull().all().all():
            m.add_constraints(step.loc[:, i] + down.loc[t, i] * cap, ">=", offset[i],
                              name=f"{c}-ext-{a}-ramp_limit_down", mask=on[i] & down.loc[t, i].notnull())
        i = committable(n, c)
        nom = s.loc[i, NOMINAL[c]]
        status = m[f"{c}-status"]
        now = status.sel(snapshot=t)
        before = status.shift(snapshot=1).sel(snapshot=t)
        if not s.loc[i, "ramp_limit_up"].isnull().all():
            l_up = s.loc[i, "ramp_limit_up"] * nom
            l_start = s.loc[i, "ramp_limit_start_up"] * nom
            rhs = offset[i]
            if continued:
                rhs.loc[sns[0]] += (l_up - l_start) * n.dynamic(c)["status"][i].iloc[start_i]
            m.add_constraints(step.loc[:, i] - l_up * before - l_start * (now - before), "<=", rhs,
                              name=f"{c}-com-{a}-ramp_limit_up", mask=on[i] & s.loc[i, "ramp_limit_up"].notnull())
        if not s.loc[i, "ramp_limit_down"].isnull().all():
            l_down = s.loc[i, "ramp_limit_down"] * nom
            l_stop = s.loc[i, "ramp_limit_shut_down"] * nom
            rhs = offset[i]
            if continued:
                rhs.loc[sns[0]] += -l_stop * n.dynamic(c)["status"][i].iloc[start_i]
            m.add_constraints(step.loc[:, i] + l_down * now + l_stop * (before - now), ">=", rhs,
                              name=f"{c}-com-{a}-ramp_limit_down", mask=on[i] & s.loc[i, "ramp_limit_down"].notnull())


# ---------------------------------------------------------------- nodal balance
def nodal_balance_on(n, sns, losses, buses, suffix):
    m = n.model
    terms = [
        ("Generator", "p", "bus", 1),
        ("Store", "p", "bus", 1),
        ("StorageUnit", "p_dispatch", "bus", 1),
        ("StorageUnit", "p_store", "bus", -1),
        ("Line", "s", "bus0", -1),
        ("Line", "s", "bus1", 1),
        ("Transformer", "s", "bus0", -1),
        ("Transformer", "s", "bus1", 1),
        ("Link", "p", "bus0", -1),
        ("Link", "p", "bus1", get_switchable_as_dense(n, "Link", "efficiency", sns)),
    ]
    if not n.links.empty:
        terms += [("Link", "p", f"bus{i}", get_switchable_as_dense(n, "Link", f"efficiency{i}", sns))
                  for i in output_ports(n)]
    if losses:
        for c in BRANCHES:
            terms += [(c, "loss", "bus0", -0.5), (c, "loss", "bus1", -0.5)]
    parts = []
    for c, a, col, factor in terms:
        if n.static(c).empty:
            continue
        if "sign" in n.static(c):
            factor = factor * n.static(c).sign
        at = n.static(c)[col]
        at = at[at.isin(buses)]
        if col in [f"bus{i}" for i in output_ports(n)]:
            at = at[at != ""]
        expr = (factor * m[f"{c}-{a}"]).loc[:, at.index]
        if expr.size:
            parts.append(expr.groupby(at).sum())
    lhs = linopy.merge(parts, join="outer").reindex(Bus=buses)
    on = n.loads.index[n.loads.active]
    demand = get_switchable_as_dense(n, "Load", "p_set", sns, on) * n.loads.sign[on]
    rhs = (-demand).T.groupby(n.loads.bus[on]).sum().T.reindex(columns=buses, fill_value=0)
    nothing = (lhs.vars == -1).all("_term")
    if nothing.any():
        if (nothing & (rhs != 0)).any().item():
            raise ValueError("demand without any supply")
        m.add_constraints(lhs, "=", rhs, name=f"Bus{suffix}-nodal_balance", mask=~nothing)
    else:
        m.add_constraints(lhs, "=", rhs, name=f"Bus{suffix}-nodal_balance")


# ---------------------------------------------------------------- nodal balance (all buses)
def nodal_balance(n, sns, losses, meshed):
    """one balance per bus; strongly meshed buses are only grouped separately"""
    weak = n.buses.index.difference(meshed)
    if not meshed.empty and not weak.empty:
        nodal_balance_on(n, sns, losses, weak, "")
        nodal_balance_on(n, sns, losses, meshed, "-meshed")
    else:
        nodal_balance_on(n, sns, losses, n.buses.index, "")


# ---------------------------------------------------------------- Kirchhoff voltage law
def voltage_law(n, sns):
    m = n.model
    n.calculate_dependent_values()
    comps = [c for c in BRANCHES if not n.static(c).empty]
    if len(comps) == 0:
        return
    flow = pd.concat({c: m[f"{c}-s"].to_pandas() for c in comps}, axis=1, names=["component", "name"])
    per_period = []
    for period in (sns.unique("period") if n._multi_invest else [None]):
        # the cycle basis is the one of the branches of this period
        n.determine_network_topology(investment_period=period, skip_isolated_buses=True)
        times = sns[sns.get_loc(period)] if period is not None else sns
        cycles = []
        for sub in n.sub_networks.obj:
            branches = sub.branches()
            if not sub.C.size:
                continue
            if n.sub_networks.carrier[sub.name] == "AC":
                impedance = branches.x_pu_eff
            else:
                impedance = branches.r_pu_eff
            C = 1e5 * sparse.diags(impedance.values) * sub.C
            flows = flow.loc[times, branches.index].values
            for j in range(C.shape[1]):
                col = C.getcol(j).tocoo()
                ds = xr.Dataset({
                    "coeffs": xr.DataArray(col.data, dims="_term"),
                    "vars": xr.DataArray(flows[:, col.row], dims=("snapshot", "_term"), coords={"snapshot": times}),
                })
                cycles.append(linopy.LinearExpression(ds, m))
        if len(cycles):
            expr = linopy.merge(cycles, dim="cycles")
            per_period.append(expr.assign_coords(cycles=range(len(expr.data.cycles))))
    if len(per_period):
        m.add_constraints(linopy.merge(per_period, dim="snapshot"), "=", 0, name="Kirchhoff-Voltage-Law")


# ---------------------------------------------------------------- storage
def storage_balance(n, sns):
    c = "StorageUnit"
    m = n.model
    s = n.static(c)
    if s.empty:
        return
    on = get_activity_mask(n, c, sns)
    hours = n.snapshot_weightings.stores[sns]
    keep = (1 - get_switchable_as_dense(n, c, "standing_loss", sns)).pow(hours)
    out = get_switchable_as_dense(n, c, "efficiency_dispatch", sns)
    into = get_switchable_as_dense(n, c, "efficiency_store", sns)
    inflow = get_switchable_as_dense(n, c, "inflow", sns)
    soc = m["StorageUnit-state_of_charge"]
    change = into * hours * m["StorageUnit-p_store"] - hours / out * m["StorageUnit-p_dispatch"]
    if "StorageUnit-spill" in m.variables:
        change = change - hours * m["StorageUnit-spill"]
    noncyclic = ~s.cyclic_state_of_charge
    # all active snapshots but the first one have a predecessor; with cyclic storage also the first one
    has_previous = (on.cumsum("snapshot") != 1).where(noncyclic, True)
    previous = soc.where(on).ffill("snapshot").roll(snapshot=1).ffill("snapshot").where(has_previous)
    if isinstance(sns, pd.MultiIndex):
        per_period = s.cyclic_state_of_charge_per_period | s.state_of_charge_initial_per_period
        has_previous_pp, previous_pp = previous_in_period(sns, soc, on, noncyclic)
        previous = previous.where(~per_period, previous_pp)
        has_previous = has_previous_pp.where(per_period, has_previous)
    rhs = xr.DataArray(-inflow.mul(hours))
    rhs = rhs.where(has_previous, rhs - s.state_of_charge_initial)
    m.add_constraints(keep * previous + change - soc, "=", rhs, name=f"{c}-energy_balance", mask=on)


def previous_in_period(sns, level, on, noncyclic):
    """level before each snapshot, counted inside each investment period"""
    period = level.coords["period"]
    parts = [level.data.sel(snapshot=(p, slice(None))).roll(snapshot=1) for p in sns.unique("period")]
    inside = on & (period == period.shift(snapshot=1))
    inside = inside.where(noncyclic, True)
    return inside, xr.concat(parts, dim="snapshot").where(inside.values, linopy.variables.FILL_VALUE)


def store_balance(n, sns):
    c = "Store"
    m = n.model
    s = n.static(c)
    if s.empty:
        return
    on = get_activity_mask(n, c, sns)
    hours = n.snapshot_weightings.stores[sns]
    keep = (1 - get_switchable_as_dense(n, c, "standing_loss", sns)).pow(hours)
    e = m["Store-e"]
    noncyclic = ~s.e_cyclic
    has_previous = (on.cumsum("snapshot") != 1).where(noncyclic, True)
    previous = e.where(on).ffill("snapshot").roll(snapshot=1).ffill("snapshot").where(has_previous)
    if isinstance(sns, pd.MultiIndex):
        per_period = s.e_cyclic_per_period | s.e_initial_per_period
        has_previous_pp, previous_pp = previous_in_period(sns, e, on, noncyclic)
        previous = previous.where(~per_period, previous_pp)
        has_previous = has_previous_pp.where(per_period, has_previous)
    m.add_constraints(keep * previous - hours * m["Store-p"] - e, "=", -s.e_initial.where(~has_previous, 0),
                      name=f"{c}-energy_balance", mask=on)


# ---------------------------------------------------------------- transmission losses
def losses_tangents(n, sns, losses):
    if not losses:
        return
    for c in BRANCHES:
        if n.static(c).empty:
            continue
        s = n.static(c)
        m = n.model
        on = get_activity_mask(n, c, sns)
        largest = s["s_nom_max"].where(s["s_nom_extendable"], s["s_nom"])
        if not isfinite(largest).all():
            raise ValueError("loss approximation needs finite capacities")
        cap = get_switchable_as_dense(n, c, "s_max_pu").loc[sns] * largest
        r = s["r_pu_eff"]
        loss, flow = m[f"{c}-loss"], m[f"{c}-s"]
        m.add_constraints(loss <= r * cap * cap, name=f"{c}-loss_upper", mask=on)
        for k in range(1, losses + 1):
            p = k / losses * cap
            # tangent of r*f**2 at +-p
            slope = 2 * r * p
            offset = r * p * p - slope * p
            for sign in [-1, 1]:
                m.add_constraints(loss + sign * slope * flow >= offset, name=f"{c}-loss_tangents-{k}-{sign}", mask=on)


# ---------------------------------------------------------------- objective
# component -> dispatch variables carrying a marginal cost
MARGINAL = [("Generator", "p"), ("Link", "p"), ("Store", "p"), ("StorageUnit", "p_dispatch")]
OTHER_COSTS = [
    ("marginal_cost_storage", "Store", "e"), ("marginal_cost_storage", "StorageUnit", "state_of_charge"),
    ("spill_cost", "StorageUnit", "spill"),
]


def investment_cost(n, sns, c, ext):
    """annualised cost per unit of capacity, counted for the investment periods in which the asset is active"""
    cost = n.static(c).loc[ext, "capital_cost"]
    if n._multi_invest:
        periods = sns.unique("period")
        weight = n.investment_period_weightings.objective[periods]
        active = pd.concat({p: get_active_assets(n, c, p)[ext] for p in periods}, axis=1)
        return (active @ weight) * cost
    return cost[get_active_assets(n, c)[ext]]


def objective(n, sns):
    m = n.model
    hours = n.snapshot_weightings.objective
    if n._multi_invest:
        hours = hours.mul(n.investment_period_weightings.objective[sns.unique("period")], level=0)
    hours = hours.loc[sns]
    terms = []
    quadratic = False

    # cost of the capacity that exists already
    existing = 0
    for c, nom in NOMINAL.items():
        ext = extendable(n, c)
        if len(ext) > 0:
            existing += (investment_cost(n, sns, c, ext) * n.static(c).loc[ext, nom]).sum()
    n.objective_constant = existing
    if existing != 0:
        terms.append(-1 * m.add_variables(lower=existing, upper=existing, name="objective_constant"))

    # operation
    costs = [("marginal_cost", c, v) for c, v in MARGINAL] + OTHER_COSTS
    for kind, c, v in costs:
        cost = get_switchable_as_dense(n, c, kind, sns)
        cost = cost.loc[:, (cost != 0).any()].mul(hours, axis=0)
        if not cost.empty:
            terms.append((m[f"{c}-{v}"].loc[sns, cost.columns] * cost).sum())
    for c, v in MARGINAL:
        if "marginal_cost_quadratic" in n.static(c):
            cost = get_switchable_as_dense(n, c, "marginal_cost_quadratic", sns)
            cost = cost.loc[:, (cost != 0).any()].mul(hours, axis=0)
            if not cost.empty:
                x = m[f"{c}-{v}"].loc[sns, cost.columns]
                terms.append((x * x * cost).sum())
                quadratic = True
    for c in COMMITTABLE:
        com = committable(n, c)
        if len(com) > 0:
            cost = get_switchable_as_dense(n, c, "stand_by_cost", sns, com)
            cost = cost.loc[:, (cost != 0).any()].mul(hours, axis=0)
            terms.append((m[f"{c}-status"].loc[:, cost.columns] * cost).sum())

    # investment
    for c, nom in NOMINAL.items():
        ext = extendable(n, c)
        if len(ext) > 0:
            terms.append((m[f"{c}-{nom}"] * investment_cost(n, sns, c, ext)).sum())

    # switching
    for c in COMMITTABLE:
        com = committable(n, c)
        for v in ["start_up", "shut_down"]:
            cost = n.static(c)[v + "_cost"].reindex(com)
            if cost.sum():
                terms.append((m[f"{c}-{v}"] * cost).sum())
    if len(terms) == 0:
        raise ValueError("nothing to optimise")
    m.objective = sum(terms) if quadratic else linopy.merge(terms)


# ---------------------------------------------------------------- global constraints
def sense_of(g):
    return "=" if g.sense == "==" else g.sense


def primary_energy(n, sns):
    m = n.model
    hours = n.snapshot_weightings.loc[sns]
    if n._multi_invest:
        hours = hours.mul(n.investment_period_weightings.years[sns.unique("period")], level=0, axis=0)
    limits = n.global_constraints
    for name, g in limits[limits.type == "primary_energy"].iterrows():
        if isnan(g.investment_period):
            sel = slice(None)
        elif g.investment_period in sns.unique("period"):
            sel = sns.get_loc(g.investment_period)
        else:
            continue
        specific = n.carriers[g.carrier_attribute]
        specific = specific[specific != 0]
        if specific.empty:
            continue
        lhs = []
        rhs = g.constant
        i = n.generators.index[n.generators.carrier.isin(specific.index)]
        if len(i) > 0:
            eff = get_switchable_as_dense(n, "Generator", "efficiency", sns[sel], i)
            # primary energy = output / efficiency, emissions = primary energy * specific emissions
            factor = (n.generators.carrier[i].map(specific) / eff).multiply(hours.generators[sel], axis=0)
            lhs.append((m["Generator-p"].loc[sns[sel], i] * factor).sum())
        for c, level, cyclic, initial in [
            ("StorageUnit", "state_of_charge", "cyclic_state_of_charge", "state_of_charge_initial"),
            ("Store", "e", "e_cyclic", "e_initial"),
        ]:
            s = n.static(c)
            i = s.index[s.carrier.isin(specific.index) & ~s[cyclic]]
            if len(i) > 0:
                factor = s.carrier[i].map(specific)
                final = m[f"{c}-{level}"].loc[sns[sel], i].ffill("snapshot").isel(snapshot=-1)
                lhs.append((-factor * final).sum())
                rhs -= factor @ s.loc[i, initial]
        if len(lhs):
            m.add_constraints(linopy.merge(lhs), sense_of(g), rhs, name=f"GlobalConstraint-{name}")


def operational_limit(n, sns):
    m = n.model
    hours = n.snapshot_weightings.loc[sns]
    if n._multi_invest:
        hours = hours.mul(n.investment_period_weightings.years[sns.unique("period")], level=0, axis=0)
    limits = n.global_constraints
    for name, g in limits[limits.type == "operational_limit"].iterrows():
        times = sns if isnan(g.investment_period) else sns[sns.get_loc(g.investment_period)]
        lhs = []
        rhs = g.constant
        i = n.generators.index[n.generators.carrier == g.carrier_attribute]
        if len(i) > 0:
            lhs.append((m["Generator-p"].loc[times, i] * xr.DataArray(hours.generators[times])).sum())
        for c, level, cyclic, initial in [
            ("StorageUnit", "state_of_charge", "cyclic_state_of_charge", "state_of_charge_initial"),
            ("Store", "e", "e_cyclic", "e_initial"),
        ]:
            s = n.static(c)
            i = s.index[(s.carrier == g.carrier_attribute) & ~s[cyclic]]
            if len(i) > 0:
                lhs.append(-m[f"{c}-{level}"].loc[times, i].ffill("snapshot").isel(snapshot=-1).sum())
                rhs -= s.loc[i, initial].sum()
        if len(lhs):
            m.add_constraints(linopy.merge(lhs), sense_of(g), rhs, name=f"GlobalConstraint-{name}")


def carriers_of(g):
    return [re.sub("[\\[\\]\\(\\)]", "", c.strip()) for c in g.carrier_attribute.split(",")]


def transmission_assets(n, sns, c, g):
    s = n.static(c)
    i = extendable(n, c).intersection(s.index[s.carrier.isin(carriers_of(g))])
    if not isnan(g.investment_period):
        i = i[get_active_assets(n, c, g.investment_period)[i]]
    elif isinstance(sns, pd.MultiIndex):
        i = i[get_active_assets(n, c, sns.unique("period"))[i]]
    return i


def transmission_volume(n, sns):
    m = n.model
    limits = n.global_constraints
    for name, g in limits[limits.type == "transmission_volume_expansion_limit"].iterrows():
        lhs = []
        for c in ["Line", "Link"]:
            s = n.static(c)
            ext = extendable(n, c)
            if ext.empty:
                continue
            if ext.intersection(s.index[s.carrier.isin(carriers_of(g))]).empty:
                continue
            i = transmission_assets(n, sns, c, g)
            lhs.append((s.length.reindex(i) * m[f"{c}-{NOMINAL[c]}"].loc[i]).sum())
        if len(lhs):
            m.add_constraints(linopy.merge(lhs), sense_of(g), g.constant, name=f"GlobalConstraint-{name}")


def transmission_cost(n, sns):
    m = n.model
    limits = n.global_constraints
    for name, g in limits[limits.type == "transmission_expansion_cost_limit"].iterrows():
        lhs = []
        for c in ["Line", "Link"]:
            s = n.static(c)
            if extendable(n, c).empty:
                continue
            i = transmission_assets(n, sns, c, g)
            weight = 1
            if isnan(g.investment_period) and isinstance(sns, pd.MultiIndex):
                periods = sns.unique("period")
                active = pd.concat({p: get_active_assets(n, c, p)[i] for p in periods}, axis=1)
                weight = active @ n.investment_period_weightings.objective[periods]
            lhs.append((s.capital_cost.reindex(i) * weight * m[f"{c}-{NOMINAL[c]}"].loc[i]).sum())
        if len(lhs):
            m.add_constraints(linopy.merge(lhs), sense_of(g), g.constant, name=f"GlobalConstraint-{name}")


def technology_capacity(n, sns):
    m = n.model
    limits = n.global_constraints
    limits = limits.loc[limits.type == "tech_capacity_expansion_limit"]
    for (carrier, sense, period), group in limits.groupby(["carrier_attribute", "sense", "investment_period"]):
        period = None if isnan(period) else int(period)
        per_bus = []
        for c, nom in NOMINAL.items():
            s = n.static(c)
            if "carrier" not in s:
                continue
            i = extendable(n, c).intersection(s.index[s.carrier == carrier])
            if period is not None:
                i = i[get_active_assets(n, c, period)[i]]
            if i.empty:
                continue
            col = "bus0" if c in ["Line", "Link", "Transformer"] else "bus"
            per_bus.append(m[f"{c}-{nom}"].loc[i].groupby(s.loc[i, col].rename(f"Bus-{carrier}-{period}")).sum())
        if len(per_bus) == 0:
            continue
        per_bus = linopy.merge(per_bus)
        for name, g in group.iterrows():
            bus = g.get("bus")
            if bus is None:
                lhs = per_bus.sum(f"Bus-{carrier}-{period}")
            else:
                lhs = per_bus.sel(**{f"Bus-{carrier}-{period}": str(bus)}, drop=True)
            m.add_constraints(lhs, "=" if sense == "==" else sense, g.constant, name=f"GlobalConstraint-{name}")


def capacity_per_bus(n, sns):
    m = n.model
    cols = n.buses.columns[n.buses.columns.str.startswith("nom_")]
    buses = n.buses.index[n.buses[cols].notnull().any(axis=1)]
    for col in cols:
        if col.startswith("nom_min_"):
            sense = ">="
        elif col.startswith("nom_max_"):
            sense = "<="
        else:
            continue
        rest = col[8:]
        if rest in n.carriers.index:
            carrier = rest
            period = None
        elif isinstance(n.snapshots, pd.MultiIndex):
            carrier, period = rest.rsplit("_", 1)
            period = int(period)
            if carrier not in n.carriers.index or period not in sns.unique("period"):
                continue
        else:
            continue
        lhs = []
        for c in ["Generator", "StorageUnit", "Store"]:
            s = n.static(c)
            i = extendable(n, c).intersection(s.index[s.carrier == carrier])
            if period is not None:
                i = i[get_active_assets(n, c, period)[i]]
            if not i.empty:
                expr = m[f"{c}-{NOMINAL[c]}"].loc[i].groupby(s.loc[i, "bus"].rename("Bus-nom_min_max")).sum()
                lhs.append(expr.reindex({"Bus-nom_min_max": buses}))
        if len(lhs) == 0:
            continue
        limit = n.buses.loc[buses, col]
        m.add_constraints(linopy.merge(lhs), sense, limit, name=f"Bus-{col}", mask=limit.notnull())


def growth_limit(n, sns):
    if not n._multi_invest:
        return
    m = n.model
    periods = sns.unique("period")
    limited = n.carriers.index[n.carriers.max_growth != inf]
    if limited.empty:
        return
    relative = xr.DataArray(n.carriers.loc[limited, "max_relative_growth"]).clip(min=0)
    lhs = []
    for c, nom in NOMINAL.items():
        s = n.static(c)
        if "carrier" not in s:
            continue
        i = s.index[s.carrier.isin(limited)].intersection(extendable(n, c))
        if i.empty:
            continue
        # capacity counts in the first period in which the asset is active
        active = pd.concat({p: get_active_assets(n, c, p) for p in periods}, axis=1).loc[i].T
        carriers = s.loc[i, "carrier"]
        new = m[f"{c}-{nom}"].loc[i].where(xr.DataArray(active.cumsum() == 1)).groupby(carriers).sum()
        if (relative.loc[carriers.unique()] > 0).any():
            new = new - new.shift(periods=1) * relative
        lhs.append(new)
    if len(lhs) == 0:
        return
    lhs = linopy.merge(lhs)
    m.add_constraints(lhs, "<=", xr.DataArray(n.carriers.loc[limited, "max_growth"]).reindex_like(lhs.data),
                      name="Carrier-growth_limit")


def create_model(n, snapshots, multi_investment_periods, transmission_losses, linearized_unit_commitment, consistency_check, **kwargs):
    sns = as_index(n, snapshots, "snapshots")
    n._linearized_uc = int(linearized_unit_commitment)
    n._multi_invest = int(multi_investment_periods)
    losses = transmission_losses
    if consistency_check:
        n.consistency_check()
    threshold = kwargs.pop("meshed_threshold", 45)
    kwargs.setdefault("force_dim_names", True)
    n.model = linopy.Model(**kwargs)
    n.model.parameters = n.model.parameters.assign(snapshots=sns)
    nominal_variables(n)
    modular_variables(n)
    dispatch_variables(n, sns)
    commitment_variables(n, sns)
    spill_variables(n, sns)
    loss_variables(n, sns, losses)
    nominal_bounds(n)
    nominal_set(n)
    modular_capacity(n)
    dispatch_bounds_fixed(n, sns, losses)
    dispatch_bounds_extendable(n, sns, losses)
    operation_set(n, sns)
    energy_sums(n, sns)
    unit_commitment(n, sns)
    ramp_limits(n, sns)
    nodal_balance(n, sns, losses, get_strongly_meshed_buses(n, threshold=threshold))
    voltage_law(n, sns)
    storage_balance(n, sns)
    store_balance(n, sns)
    losses_tangents(n, sns, losses)
    objective(n, sns)
    primary_energy(n, sns)
    operational_limit(n, sns)
    transmission_volume(n, sns)
    transmission_cost(n, sns)
    technology_capacity(n, sns)
    capacity_per_bus(n, sns)
    growth_limit(n, sns)
    return n.model
