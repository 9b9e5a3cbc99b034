"""Reference for what happens around the solver: solution and shadow prices written back, rolling horizons, iterations."""
import numpy as np
import pandas as pd
from pypsa.common import as_index
from pypsa.descriptors import additional_linkports, get_switchable_as_dense
from pypsa.descriptors import nominal_attrs
from pypsa.optimization.common import set_from_frame
from linopy import LinearExpression, QuadraticExpression
from linopy.solvers import available_solvers
from pypsa.optimization.optimize import assign_duals, assign_solution, create_model, optimize, post_processing
from pypsa.contingency import calculate_BODF
from pypsa.pf import calculate_dependent_values, network_pf
from linopy import merge
import xarray as xr


def merge_series(n, c, attr, df):
    """new values overwrite their rows and columns, everything missing is zero"""
    table = n.dynamic(c)
    if attr in table and not table[attr].empty:
        table[attr].loc[df.index, df.columns] = df
        table[attr] = table[attr].fillna(0.0)
    else:
        table[attr] = df.reindex(n.snapshots).fillna(0.0)


def solution(n):
    model = n.model
    sns = model.parameters.snapshots.to_index()
    for name, variable in model.variables.items():
        values = variable.solution
        if name == "objective_constant":
            continue
        try:
            component, quantity = name.split("-", 1)
            frame = values.to_pandas()
        except ValueError:
            continue
        if "snapshot" not in values.dims:
            if quantity == "n_mod":
                continue
            own = frame.index.intersection(n.static(component).index)
            n.static(component).loc[own, quantity + "_opt"] = frame.loc[own]
        elif component in n.passive_branch_components and quantity == "s":
            set_from_frame(n, component, "p0", frame)
            set_from_frame(n, component, "p1", -frame)
        elif component == "Link" and quantity == "p":
            set_from_frame(n, component, "p0", frame)
            for port in ["1"] + additional_linkports(n):
                suffix = "" if port == "1" else port
                eff = get_switchable_as_dense(n, "Link", "efficiency" + suffix, sns)
                set_from_frame(n, component, "p" + port, -frame * eff)
                absent = n.links.index[n.links["bus" + port] == ""]
                n.dynamic(component)["p" + port].loc[sns, absent] = float(n.components["Link"]["attrs"].loc["p" + port, "default"])
        else:
            set_from_frame(n, component, quantity, frame)
    for component, attribute in nominal_attrs.items():
        fixed = n.get_non_extendable_i(component)
        if not fixed.empty:
            n.static(component).loc[fixed, attribute + "_opt"] = n.static(component).loc[fixed, attribute]
    if not n.storage_units.empty:
        n.storage_units_t["p"] = n.storage_units_t["p_dispatch"] - n.storage_units_t["p_store"]
    n.objective = model.objective.value


def shadow_prices(n, assign_all_duals=False):
    model = n.model
    if all("dual" not in con for _, con in model.constraints.items()):
        return
    for name, con in model.constraints.items():
        dual = con.dual
        try:
            component, rest = name.split("-", 1)
        except ValueError:
            continue
        if "snapshot" in dual.dims:
            try:
                frame = dual.transpose("snapshot", ...).to_pandas()
                kind = rest.rsplit("-", 1)[-1]
                if rest.endswith("nodal_balance"):
                    set_from_frame(n, component, "marginal_price", frame)
                elif assign_all_duals or "mu_" + kind in n.static(component):
                    set_from_frame(n, component, "mu_" + kind, frame)
            except:  # noqa: E722
                pass
        elif component == "GlobalConstraint" and (assign_all_duals or rest in n.static(component).index):
            n.static(component).loc[rest, "mu"] = dual


def weights_of(n, sns):
    w = n.snapshot_weightings.objective
    if n._multi_invest:
        w = w.mul(n.investment_period_weightings.objective, level=0, axis=0)
    return w.loc[sns]


def derived_results(n):
    sns = n.model.parameters.snapshots.to_index()
    prices = n.buses_t.marginal_price
    prices.loc[sns] = prices.loc[sns].divide(weights_of(n, sns), axis=0)
    if len(n.loads):
        set_from_frame(n, "Load", "p", get_switchable_as_dense(n, "Load", "p_set", sns) * n.loads.active)
    for component in n.passive_branch_components:
        if component + "-loss" in n.model.variables:
            loss = n.model[component + "-loss"].solution.to_pandas()
            for end in ("p0", "p1"):
                set_from_frame(n, component, end, n.dynamic(component)[end].loc[loss.index, loss.columns] + loss / 2)

    parts = []
    for component in ("Generator", "Store", "Load", "StorageUnit"):
        parts.append((component, "p", "bus", n.static(component).sign))
    for port in ["0", "1"] + additional_linkports(n):
        parts.append(("Link", "p" + port, "bus" + port, -1))
    injections = [n.dynamic(c)[p].mul(sign).rename(columns=n.static(c)[bus]) for c, p, bus, sign in parts]
    n.buses_t.p = pd.concat(injections, axis=1).T.groupby(level=0).sum().T.reindex(columns=n.buses.index, fill_value=0.0)

    def angles(sub):
        order = sub.buses_o
        if len(order) == 1:
            return pd.DataFrame(0, index=sns, columns=order)
        sub.calculate_B_H(skip_pre=True)
        impedance = pd.DataFrame(np.linalg.pinv((sub.B).todense()), order, order)
        impedance = impedance - impedance[sub.slack_bus]
        return n.buses_t.p.reindex(columns=order) @ impedance

    if "obj" in n.sub_networks:
        n.buses_t.v_ang = pd.concat([angles(sub) for sub in n.sub_networks.obj], axis=1).reindex(columns=n.buses.index, fill_value=0.0)


# ------------------------------------------------------------ drivers
def rolling_horizon(n, snapshots=None, horizon=100, overlap=0, **kwargs):
    """windows of the horizon; each starts from where the previous one left the storage levels"""
    every = n.snapshots if snapshots is None else snapshots
    if overlap >= horizon:
        raise ValueError()
    starts = range(0, len(every), horizon - overlap)
    for k, first in enumerate(starts):
        if k != 0:
            before = every[first - 1]
            if len(n.stores) > 0:
                n.stores["e_initial"] = n.stores_t["e"].loc[before]
            if len(n.storage_units) > 0:
                n.storage_units["state_of_charge_initial"] = n.storage_units_t["state_of_charge"].loc[before]
        optimize(n, every[first:min(first + horizon, len(every))], **kwargs)
    return n


def driver(n, snapshots=None, multi_investment_periods=False, transmission_losses=0, linearized_unit_commitment=False, model_kwargs={},
           extra_functionality=None, assign_all_duals=False, solver_name="highs", solver_options={}, compute_infeasibilities=False, **kwargs):
    sns = as_index(n, snapshots, "snapshots")
    n._linearized_uc = linearized_unit_commitment
    n._multi_invest = int(multi_investment_periods)
    n.consistency_check(strict=["unknown_buses"])
    model = create_model(n, sns, multi_investment_periods, transmission_losses, linearized_unit_commitment, consistency_check=False, **model_kwargs)
    if extra_functionality:
        extra_functionality(n, sns)
    outcome = model.solve(solver_name=solver_name, **solver_options, **kwargs)
    status, condition = outcome
    if status == "ok":
        assign_solution(n)
        assign_duals(n, assign_all_duals)
        post_processing(n)
    if condition == "infeasible" and compute_infeasibilities and "gurobi" in available_solvers:
        n.model.print_infeasibilities()
    return status, condition


def solve_model(self, extra_functionality=None, solver_name="highs", solver_options={}, assign_all_duals=False, **kwargs):
    n = self.n
    if extra_functionality:
        extra_functionality(n, n.snapshots)
    status, condition = n.model.solve(solver_name=solver_name, **solver_options, **kwargs)
    if status == "ok":
        assign_solution(n)
        assign_duals(n, assign_all_duals)
        post_processing(n)
    return status, condition


def fix_capacities(self):
    n = self.n
    for c, nom in nominal_attrs.items():
        chosen = n.get_extendable_i(c)
        n.static(c).loc[chosen, nom] = n.static(c).loc[chosen, nom + "_opt"]
        n.static(c)[nom + "_extendable"] = False


def fix_dispatch(self):
    n = self.n
    for c in n.one_port_components:
        n.dynamic(c)["p_set"] = n.dynamic(c)["p"]
    for c in n.controllable_branch_components:
        n.dynamic(c)["p_set"] = n.dynamic(c)["p0"]


def then_power_flow(n, snapshots=None, skip_pre=False, x_tol=1e-06, use_seed=False, distribute_slack=False, slack_weights="p_set", **kwargs):
    sns = n.snapshots if snapshots is None else snapshots
    status, condition = optimize(n, sns, **kwargs)
    if status != "ok":
        return {"status": status, "terminantion_condition": condition}
    for c in n.one_port_components:
        n.dynamic(c)["p_set"] = n.dynamic(c)["p"]
    n.dynamic("Link")["p_set"] = n.dynamic("Link")["p0"]
    n.generators["control"] = "PV"
    for island in n.sub_networks.obj:
        n.generators.loc[island.slack_generator, "control"] = "Slack"
    for island in n.sub_networks.obj:
        rest = island.generators_i().difference([island.slack_generator])
        if len(rest):
            n.generators.loc[rest[0], "control"] = "PQ"
    info = network_pf(n, snapshots=sns, skip_pre=skip_pre, x_tol=x_tol, use_seed=use_seed, distribute_slack=distribute_slack, slack_weights=slack_weights)
    return {"status": status, "terminantion_condition": condition, **info}


def near_optimal(n, snapshots=None, multi_investment_periods=False, weights=None, sense="min", slack=0.05, model_kwargs={}, **kwargs):
    """alternatives within a cost budget"""
    sns = n.snapshots if snapshots is None else snapshots
    if weights is None:
        weights = {"Generator": {"p_nom": pd.Series(1, index=n.generators.index)}}
    if not hasattr(n, "objective"):
        raise ValueError()
    model = create_model(n, snapshots=sns, multi_investment_periods=multi_investment_periods, **model_kwargs)
    stats = n.statistics
    if multi_investment_periods:
        per = n.investment_period_weightings.objective
        optimum = (stats.capex().sum() * per + stats.opex().sum() * per).sum()
        sunk = (stats.installed_capex().sum() * per).sum()
    else:
        optimum = stats.capex().sum() + stats.opex().sum()
        sunk = stats.installed_capex().sum()
    cost = model.objective
    if not isinstance(cost, (LinearExpression | QuadraticExpression)):
        cost = cost.expression
    model.add_constraints(cost + sunk, "<=", optimum * (1 + slack), name="budget")
    if (isinstance(sense, str) and sense.startswith("min")) or (isinstance(sense, int) and sense > 0):
        sign = 1
    elif (isinstance(sense, str) and sense.startswith("max")) or (isinstance(sense, int) and sense < 0):
        sign = -1
    else:
        raise ValueError()
    terms = []
    for c, per_attr in weights.items():
        for a, w in per_attr.items():
            if isinstance(w, dict):
                w = pd.Series(w)
            if a == nominal_attrs[c] and isinstance(w, pd.Series):
                w = w.reindex(n.get_extendable_i(c))
                w.index.name = ""
            elif isinstance(w, pd.Series):
                w = w.reindex(columns=n.static(c).index)
            elif isinstance(w, pd.DataFrame):
                w = w.reindex(columns=n.static(c).index, index=sns)
            terms.append(model[c + "-" + a] * w * sign)
    model.objective = merge(terms)
    outcome = n.optimize.solve_model(**kwargs)
    status, condition = outcome

    def plain(x):
        if isinstance(x, pd.DataFrame):
            return x.to_dict(orient="list")
        if isinstance(x, pd.Series):
            return x.to_dict()
        if isinstance(x, dict):
            return {k: plain(v) for k, v in x.items()}
        return x

    n.meta["slack"] = slack
    n.meta["sense"] = sign
    n.meta["weights"] = plain(weights)
    return status, condition


def security_constrained(n, snapshots=None, branch_outages=None, multi_investment_periods=False, model_kwargs={}, **kwargs):
    """every branch limit also holds after the outage of each of the given branches"""
    branches = n.passive_branches().index
    if branch_outages is None:
        branch_outages = branches
    elif isinstance(branch_outages, (list | pd.Index)):
        branch_outages = pd.MultiIndex.from_product([("Line",), branch_outages])
        if set(branch_outages) - set(branches):
            raise ValueError()
    if len(branches) == 0:
        return optimize(n, snapshots, multi_investment_periods=multi_investment_periods, model_kwargs=model_kwargs, **kwargs)
    model = create_model(n, snapshots=snapshots, multi_investment_periods=multi_investment_periods, **model_kwargs)
    for island in n.sub_networks.obj:
        active = island.branches_i(active_only=True)
        failing = active.intersection(branch_outages)
        if failing.empty:
            continue
        calculate_BODF(island)
        factors = pd.DataFrame(island.BODF, index=active, columns=active)[failing]
        for lost in failing.unique(0):
            for hit in active.unique(0):
                names = failing.get_loc_level(lost)[1]
                outage_dim = lost + "-outage"
                flow = model.variables[lost + "-s"].loc[:, names].rename({lost: outage_dim})
                share = xr.DataArray(factors.loc[hit, lost], dims=[hit, outage_dim])
                shifted = flow * share
                for side in ("lower", "upper"):
                    for kind in ("fix", "ext"):
                        dim = hit + "-" + kind
                        base = dim + "-s-" + side
                        if base in model.constraints:
                            extra = shifted.rename({hit: dim})
                            limit = model.constraints[base]
                            common = {dim: limit.lhs.indexes[dim].intersection(extra.indexes[dim])}
                            model.add_constraints(limit.lhs.sel(common) + extra.sel(common), limit.sign.sel(common), limit.rhs.sel(common),
                                                  name=base + f"-security-for-{outage_dim}-in-{island}")
    return n.optimize.solve_model(**kwargs)


def discrete(nom_opt, nom_max, unit_size, threshold, fractional_last_unit_size, min_units=None):
    if min_units is not None:
        raise DeprecationWarning()
    whole = nom_opt // unit_size
    rounded = (whole + (nom_opt % unit_size >= threshold * unit_size)) * unit_size
    if nom_max % unit_size == 0:
        return rounded
    if nom_max - nom_opt >= unit_size:
        return rounded
    if fractional_last_unit_size and (nom_opt % unit_size) / (nom_max % unit_size) >= threshold:
        return nom_max
    if nom_max < unit_size:
        return nom_max
    return whole * unit_size


def transmission_expansion(n, snapshots=None, msq_threshold=0.05, min_iterations=1, max_iterations=100, track_iterations=False,
                           line_unit_size=None, link_unit_size=None, line_threshold=None, link_threshold=None, fractional_last_unit_size=False, **kwargs):
    n.lines["carrier"] = n.lines.bus0.map(n.buses.carrier)
    extendable = n.get_extendable_i("Line").copy()
    with_type = n.lines.index[n.lines.type != ""]
    plain = extendable.difference(with_type)
    typed = extendable.intersection(with_type)
    one_circuit = np.sqrt(3) * n.lines.type.map(n.line_types.i_nom) * n.lines.bus0.map(n.buses.v_nom)
    n.lines.loc[typed, "num_parallel"] = (n.lines.s_nom / one_circuit)[typed]
    if link_threshold is None:
        link_threshold = {}
    if track_iterations:
        for c, nom in pd.Series(nominal_attrs)[list(n.branch_components)].items():
            n.static(c)[nom + "_opt_0"] = n.static(c)[nom]
    k = 1
    error = msq_threshold
    while error >= msq_threshold or k < min_iterations:
        if k > max_iterations:
            break
        before = n.lines.s_nom_opt.copy() if k else n.lines.s_nom.copy()
        status, condition = optimize(n, snapshots, **kwargs)
        if status != "ok":
            raise RuntimeError()
        if track_iterations:
            for c, nom in pd.Series(nominal_attrs)[list(n.branch_components)].items():
                n.static(c)[f"{nom}_opt_{k}"] = n.static(c)[nom + "_opt"]
            setattr(n, f"status_{k}", status)
            setattr(n, f"objective_{k}", n.objective)
            n.iteration = k
            n.global_constraints = n.global_constraints.rename(columns={"mu": f"mu_{k}"})
        growth = n.lines.s_nom_opt / before
        ac = n.lines.index[n.lines.carrier == "AC"].intersection(plain)
        n.lines.loc[ac, "x"] /= growth[ac]
        dc = n.lines.index[n.lines.carrier == "DC"].intersection(plain)
        n.lines.loc[dc, "r"] /= growth[dc]
        n.lines.loc[typed, "num_parallel"] = (n.lines.s_nom_opt / one_circuit)[typed]
        error = np.sqrt((before - n.lines.s_nom_opt).pow(2).mean()) / n.lines["s_nom_opt"].mean()
        k += 1
    del n.model
    fixed_carriers = {"DC"} if not link_unit_size else link_unit_size.keys() | {"DC"}
    hvdc = n.links.p_nom_extendable & n.links.carrier.isin(fixed_carriers)
    old_s, old_p = n.lines.s_nom.copy(), n.links.p_nom.copy()
    n.lines.loc[extendable, "s_nom"] = n.lines.loc[extendable, "s_nom_opt"]
    n.lines.loc[extendable, "s_nom_extendable"] = False
    n.links.loc[hvdc, "p_nom"] = n.links.loc[hvdc, "p_nom_opt"]
    n.links.loc[hvdc, "p_nom_extendable"] = False
    line_threshold = line_threshold or 0.3
    link_threshold = link_threshold or {}
    if line_unit_size:
        n.lines["s_nom"] = n.lines.apply(
            lambda r: discrete(r["s_nom_opt"], r["s_nom_max"], line_unit_size, line_threshold, fractional_last_unit_size), axis=1)
    if link_unit_size:
        for carrier in link_unit_size.keys() & n.links.carrier.unique():
            these = n.links.carrier == carrier
            n.links.loc[these, "p_nom"] = n.links.loc[these].apply(
                lambda r: discrete(r["p_nom_opt"], r["p_nom_max"], link_unit_size[carrier], link_threshold.get(carrier, 0.3), fractional_last_unit_size), axis=1)
    calculate_dependent_values(n)
    status, condition = optimize(n, snapshots, **kwargs)
    n.lines.loc[extendable, "s_nom"] = old_s.loc[extendable]
    n.lines.loc[extendable, "s_nom_extendable"] = True
    n.links.loc[hvdc, "p_nom"] = old_p.loc[hvdc]
    n.links.loc[hvdc, "p_nom_extendable"] = True
    paid = (n.links[hvdc].eval("capital_cost * (p_nom_opt - p_nom_min)").sum()
            + n.lines.eval("capital_cost * (s_nom_opt - s_nom_min)").sum())
    n.objective += paid
    n.objective_constant -= paid
    return status, condition
