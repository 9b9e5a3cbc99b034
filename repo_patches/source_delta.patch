From 9ad21f02dddf1ed60f386398ad45c1f6e3831c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:53 +0000
Subject: [PATCH 01/78] fix: keep the recorded status of committable units at
 the start of a rolling window

The time a unit has been up (down) before the window was clipped at its
minimum up (down) time before it was used to decide whether the unit was on,
so a running unit without a minimum up time was treated as off and charged
another start-up.
---
 pypsa/optimization/constraints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypsa/optimization/constraints.py b/pypsa/optimization/constraints.py
index 1050442..65ff715 100644
--- a/pypsa/optimization/constraints.py
+++ b/pypsa/optimization/constraints.py
@@ -183,7 +183,7 @@ def define_operational_constraints_for_committables(
         ref = range(1, len(until_start_up) + 1)
         up_time_before = until_start_up[until_start_up.cumsum().eq(ref, axis=0)].sum()
         up_time_before_set = up_time_before.clip(upper=min_up_time_set)
-        initially_up = up_time_before_set.astype(bool)
+        initially_up = up_time_before.astype(bool)
         # get number of snapshots for generators which are offline before the first regarded snapshot
         until_start_down = ~until_start_up.astype(bool)
         ref = range(1, len(until_start_down) + 1)
@@ -191,7 +191,7 @@ def define_operational_constraints_for_committables(
             until_start_down.cumsum().eq(ref, axis=0)
         ].sum()
         down_time_before_set = down_time_before.clip(upper=min_down_time_set)
-        initially_down = down_time_before_set.astype(bool)
+        initially_down = down_time_before.astype(bool)
 
     # lower dispatch level limit
     lhs_tuple = (1, p), (-lower_p, status)
-- 
2.43.0


From b35611c76db34a9b995440814a559f2eafe8804b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:53 +0000
Subject: [PATCH 02/78] fix: count the branches of all components in the
 adjacency matrix

The number of branches of the last component decided whether the matrix is
empty, so all edges were lost if only that component had no active branches.
---
 pypsa/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypsa/graph.py b/pypsa/graph.py
index a3c85f2..74a8e1f 100644
--- a/pypsa/graph.py
+++ b/pypsa/graph.py
@@ -145,11 +145,11 @@ def adjacency_matrix(
         active = c.get_active_assets(investment_period)
         sel = c.static[active].index
 
-        no_branches = len(c.static.loc[sel])
+        no_branches += len(sel)
         bus0_inds.append(busorder.get_indexer(c.static.loc[sel, "bus0"]))
         bus1_inds.append(busorder.get_indexer(c.static.loc[sel, "bus1"]))
         weight_vals.append(
-            np.ones(no_branches) if weights is None else weights[c.name][sel].values
+            np.ones(len(sel)) if weights is None else weights[c.name][sel].values
         )
 
     if no_branches == 0:
-- 
2.43.0


From 8a127aec3b6303531519363d962cc2162f332163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:53 +0000
Subject: [PATCH 03/78] fix: ignore inactive branches when looking for cycles

Inactive lines closed cycles, so Kirchhoff's voltage law constrained the
flows of the remaining active lines.
---
 pypsa/pf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 850e69f..ecee47d 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -1387,7 +1387,9 @@ def find_cycles(sub_network: SubNetwork, weight: str = "x_pu") -> None:
     branches_i = branches_bus0.index
 
     # reduce to a non-multi-graph for cycles with > 2 edges
-    mgraph = sub_network.graph(weight=weight, inf_weight=False)
+    mgraph = sub_network.graph(
+        weight=weight, inf_weight=False, include_inactive=False
+    )
     graph = nx.Graph(mgraph)
 
     cycles = nx.cycle_basis(graph)
-- 
2.43.0


From c9f0747a5324dabb93864ccb6ed21a63f8c17be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:53 +0000
Subject: [PATCH 04/78] fix: respect the strict option for unknown carriers in
 the consistency check

---
 pypsa/consistency.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/consistency.py b/pypsa/consistency.py
index 35f5309..0c6093f 100644
--- a/pypsa/consistency.py
+++ b/pypsa/consistency.py
@@ -855,7 +855,7 @@ def consistency_check(
     for c in n.iterate_components():
         # Checks all components
         check_for_unknown_buses(n, c, "unknown_buses" in strict)
-        check_for_unknown_carriers(n, c, "unkown_carriers" in strict)
+        check_for_unknown_carriers(n, c, "unknown_carriers" in strict)
         check_time_series(n, c, "time_series" in strict)
         check_static_power_attributes(n, c, "static_power_attrs" in strict)
         check_time_series_power_attributes(n, c, "time_series_power_attrs" in strict)
-- 
2.43.0


From 4b0f852f91507398d26edc2da5e2c1e0225cbe3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:53 +0000
Subject: [PATCH 05/78] fix: keep zeros in the statistics if drop_zero is False

---
 pypsa/statistics/expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index 5951ac5..5e34508 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -257,7 +257,7 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
         )
         if round_ is not None:
             df = df.round(round_)
-        if drop_zero_ is not None:
+        if drop_zero_:
             df = df[df != 0]
 
         return df
-- 
2.43.0


From fbd0f3c286baf66b48a1ced7e3b3f504a90dc892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:53 +0000
Subject: [PATCH 06/78] fix: do not rename the index passed as snapshots or
 investment periods

---
 pypsa/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypsa/common.py b/pypsa/common.py
index f6ca82c..79de2a0 100644
--- a/pypsa/common.py
+++ b/pypsa/common.py
@@ -145,11 +145,11 @@ def as_index(
     if values is None:
         values_ = n_attr
     elif isinstance(values, pd.MultiIndex):
-        values_ = values
+        values_ = values.copy()
         values_.names = n_attr.names
         values_.name = n_attr.name
     elif isinstance(values, pd.Index):
-        values_ = values
+        values_ = values.copy()
         # If only timestep level is given for multiindex snapshots
         # TODO: This ambiguity should be resolved
         values_.names = n_attr.names[:1]
-- 
2.43.0


From 35ae92a4b7739dd81f29883a1131ed9c14fd1717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:53 +0000
Subject: [PATCH 07/78] fix: remove the stale csv files of empty components on
 export

---
 pypsa/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index b6c9b9b..e9ad9f6 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -269,10 +269,12 @@ class ExporterCSV(Exporter):
             df.to_csv(fn, encoding=self.encoding, quotechar=self.quotechar)
 
     def remove_static(self, list_name: str) -> None:
-        if fns := list(self.csv_folder_name.joinpath(list_name).glob("*.csv")):
+        fns = list(self.csv_folder_name.glob(f"{list_name}.csv"))
+        fns += self.csv_folder_name.glob(f"{list_name}-*.csv")
+        if fns:
             for fn in fns:
                 fn.unlink()
-            logger.warning(f"Stale csv file(s) {', '.join(fns)} removed")
+            logger.warning(f"Stale csv file(s) {', '.join(map(str, fns))} removed")
 
     def remove_series(self, list_name: str, attr: str) -> None:
         fn = self.csv_folder_name.joinpath(list_name + "-" + attr + ".csv")
-- 
2.43.0


From 443bd5326d69401e7c2e186555dff0f880b4b3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:53 +0000
Subject: [PATCH 08/78] fix: report missing attributes as a difference when
 comparing networks

---
 pypsa/networks.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 51f4a8f..1128525 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -436,7 +436,15 @@ class Network:
         ]
         not_equal = False
         if isinstance(other, self.__class__):
+            if missing := self.__dict__.keys() ^ other.__dict__.keys():
+                msg = f"Attributes {sorted(missing)} exist in one network only."
+                if log_mode == "strict":
+                    raise ValueError(msg)
+                logger.warning(msg)
+                not_equal = True
             for key, value in self.__dict__.items():
+                if key not in other.__dict__:
+                    continue
                 if not equals(
                     value,
                     other.__dict__[key],
-- 
2.43.0


From bcbf28763cec004f2ed7f9cf15ae5558777e1de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:53 +0000
Subject: [PATCH 09/78] fix: do not share meta data and weightings between a
 network and its copies

---
 pypsa/networks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 1128525..a3fdaf1 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1589,7 +1589,7 @@ class Network:
             "now",
         ]:
             try:
-                setattr(n, attr, getattr(self, attr))
+                setattr(n, attr, copy.deepcopy(getattr(self, attr)))
             except AttributeError:
                 pass
 
-- 
2.43.0


From 6907ff7713ac4c0c8cbbcf7dd39beafe742a326a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:19:31 +0000
Subject: [PATCH 10/78] fix: copy the snapshot weightings when slicing a
 network

---
 pypsa/networks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index a3fdaf1..bb68fcf 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1678,7 +1678,7 @@ class Network:
         for attr in ["name", "_crs"]:
             setattr(n, attr, getattr(self, attr))
 
-        n.snapshot_weightings = self.snapshot_weightings.loc[time_i]
+        n.snapshot_weightings = self.snapshot_weightings.loc[time_i].copy()
 
         return n
 
-- 
2.43.0


From b13e9db3c80d77d43c2895d93593e36bcf3daa16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:19:31 +0000
Subject: [PATCH 11/78] fix: add half of the losses to both ends of every
 passive branch

The losses of transformers were not added at all, and adding the losses of
the optimised snapshots to the whole series left NaN in all other snapshots
and for branches without loss variables.
---
 pypsa/optimization/optimize.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pypsa/optimization/optimize.py b/pypsa/optimization/optimize.py
index d42280a..679795e 100644
--- a/pypsa/optimization/optimize.py
+++ b/pypsa/optimization/optimize.py
@@ -470,10 +470,12 @@ def post_processing(n: Network) -> None:
         set_from_frame(n, "Load", "p", get_as_dense(n, "Load", "p_set", sns))
 
     # line losses
-    if "Line-loss" in n.model.variables:
-        losses = n.model["Line-loss"].solution.to_pandas()
-        n.lines_t.p0 += losses / 2
-        n.lines_t.p1 += losses / 2
+    for c in n.passive_branch_components:
+        if f"{c}-loss" in n.model.variables:
+            losses = n.model[f"{c}-loss"].solution.to_pandas()
+            for attr in ("p0", "p1"):
+                flow = n.dynamic(c)[attr].loc[losses.index, losses.columns]
+                set_from_frame(n, c, attr, flow + losses / 2)
 
     # recalculate injection
     ca = [
-- 
2.43.0


From 345e5556c209c6dd8427b50975bbe801b6f14ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:13 +0000
Subject: [PATCH 12/78] fix: do not report a load for inactive loads after the
 optimisation

---
 pypsa/optimization/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/optimization/optimize.py b/pypsa/optimization/optimize.py
index 679795e..286a36c 100644
--- a/pypsa/optimization/optimize.py
+++ b/pypsa/optimization/optimize.py
@@ -467,7 +467,8 @@ def post_processing(n: Network) -> None:
 
     # load
     if len(n.loads):
-        set_from_frame(n, "Load", "p", get_as_dense(n, "Load", "p_set", sns))
+        load = get_as_dense(n, "Load", "p_set", sns) * n.loads.active
+        set_from_frame(n, "Load", "p", load)
 
     # line losses
     for c in n.passive_branch_components:
-- 
2.43.0


From bc646b69958bcc98f1716d3b57ea81ac28e48671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:13 +0000
Subject: [PATCH 13/78] fix: use the capacity attribute of each component in
 the expression for capital costs

---
 pypsa/optimization/expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/expressions.py b/pypsa/optimization/expressions.py
index 3ff8eee..225d7e7 100644
--- a/pypsa/optimization/expressions.py
+++ b/pypsa/optimization/expressions.py
@@ -193,7 +193,7 @@ class StatisticExpressionsAccessor(AbstractStatisticsAccessor):
             capacity = capacity.rename({f"{c}-ext": c})
             if include_non_extendable:
                 query = f"~{nominal_attrs[c]}_extendable"
-                capacity = capacity + n.df(c).query(query)["p_nom"]
+                capacity = capacity + n.df(c).query(query)[nominal_attrs[c]]
             costs = n.df(c)[cost_attribute][capacity.indexes[c]]
             return capacity * costs
 
-- 
2.43.0


From 2ae5462e7817b636840b8cf873af146695c73535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:02 +0000
Subject: [PATCH 14/78] fix: do not alias the global constraints of a clustered
 network

---
 pypsa/clustering/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/clustering/spatial.py b/pypsa/clustering/spatial.py
index c5a35b2..054348a 100644
--- a/pypsa/clustering/spatial.py
+++ b/pypsa/clustering/spatial.py
@@ -503,7 +503,7 @@ def get_clustering_from_busmap(
     clustered.add("Line", lines.index, **lines)
 
     # Carry forward global constraints to clustered n.
-    clustered.global_constraints = n.global_constraints
+    clustered.global_constraints = n.global_constraints.copy()
 
     if with_time:
         clustered.set_snapshots(n.snapshots)
-- 
2.43.0


From 117d9a435ac1055f1a48d836a3106a9abd48125a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:02 +0000
Subject: [PATCH 15/78] fix: inactive links do not transport power in the power
 flow

---
 pypsa/pf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index ecee47d..1165f8a 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -150,7 +150,7 @@ def _network_prepare_and_run_pf(
 
     # deal with links
     if not n.links.empty:
-        p_set = get_as_dense(n, "Link", "p_set", sns)
+        p_set = get_as_dense(n, "Link", "p_set", sns) * n.links.active
         n.links_t.p0.loc[sns] = p_set.loc[sns]
         for i in ["1"] + additional_linkports(n):
             eff_name = "efficiency" if i == "1" else f"efficiency{i}"
-- 
2.43.0


From 54acf502dd64e474ec221fc5d788cd5ddd3967fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:02 +0000
Subject: [PATCH 16/78] fix: inactive generators do not control buses in the
 power flow

---
 pypsa/pf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 1165f8a..47917f2 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -1030,7 +1030,7 @@ def find_slack_bus(sub_network: SubNetwork) -> None:
     """
     Find the slack bus in a connected sub-network.
     """
-    gens = sub_network.generators()
+    gens = sub_network.generators().query("active")
 
     if len(gens) == 0:
         #        logger.warning("No generators in sub-network {}, better hope power is already balanced".format(sub_network.name))
@@ -1079,7 +1079,7 @@ def find_bus_controls(sub_network: SubNetwork) -> None:
 
     find_slack_bus(sub_network)
 
-    gens = sub_network.generators()
+    gens = sub_network.generators().query("active")
     buses_i = sub_network.buses_i()
 
     # default bus control is PQ
-- 
2.43.0


From 7b579ee3f1e9a82f0a34a1896b1c1b2c8d75fece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:02 +0000
Subject: [PATCH 17/78] fix: ignore inactive branches in the
 security-constrained optimisation

---
 pypsa/optimization/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index c4c6487..52e7477 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -416,7 +416,7 @@ def optimize_security_constrained(
     )
 
     for sub_network in n.sub_networks.obj:
-        branches_i = sub_network.branches_i()
+        branches_i = sub_network.branches_i(active_only=True)
         outages = branches_i.intersection(branch_outages)
 
         if outages.empty:
-- 
2.43.0


From 911bde372d2fb7540b50010a5687f0acc3c622bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:02 +0000
Subject: [PATCH 18/78] fix: copy the series of custom attributes on import

A merged network shared the series of custom attributes with its source.
---
 pypsa/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index e9ad9f6..1861662 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1564,7 +1564,7 @@ def _import_series_from_df(
     expected_attrs = attrs[lambda ds: ds.type.str.contains("series")].index
     if attr not in expected_attrs:
         if overwrite or attr not in dynamic:
-            dynamic[attr] = df
+            dynamic[attr] = df.copy()
         return
 
     # Check if any snapshots are missing
-- 
2.43.0


From 0dd650c0202be4290f1094d1370c7134516b3044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:38 +0000
Subject: [PATCH 19/78] fix: do not pass the threshold of meshed buses to the
 linopy model

---
 pypsa/optimization/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/optimize.py b/pypsa/optimization/optimize.py
index 286a36c..f489ebf 100644
--- a/pypsa/optimization/optimize.py
+++ b/pypsa/optimization/optimize.py
@@ -250,6 +250,7 @@ def create_model(
     if consistency_check:
         n.consistency_check()
 
+    meshed_threshold = kwargs.pop("meshed_threshold", 45)
     kwargs.setdefault("force_dim_names", True)
     n.model = Model(**kwargs)
     n.model.parameters = n.model.parameters.assign(snapshots=sns)
@@ -289,7 +290,6 @@ def create_model(
         define_ramp_limit_constraints(n, sns, c, attr)
         define_fixed_operation_constraints(n, sns, c, attr)
 
-    meshed_threshold = kwargs.get("meshed_threshold", 45)
     meshed_buses = get_strongly_meshed_buses(n, threshold=meshed_threshold)
     weakly_meshed_buses = n.buses.index.difference(meshed_buses)
     if not meshed_buses.empty and not weakly_meshed_buses.empty:
-- 
2.43.0


From 3c178560eab611e15dfb68418893f5ded9b68014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:38 +0000
Subject: [PATCH 20/78] fix: take the first snapshot in the contingency
 analysis as announced

An index of snapshots, as used by default, was not recognised as a sequence
while a single snapshot given as a string was.
---
 pypsa/contingency.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/contingency.py b/pypsa/contingency.py
index 1d4ddea..6472e0d 100644
--- a/pypsa/contingency.py
+++ b/pypsa/contingency.py
@@ -92,7 +92,7 @@ def network_lpf_contingency(
     if snapshots is None:
         snapshots = n.snapshots
 
-    if isinstance(snapshots, Sequence):
+    if pd.api.types.is_list_like(snapshots):
         logger.warning(
             "Apologies LPF contingency, this only works for single snapshots at the moment, taking the first snapshot."
         )
-- 
2.43.0


From d381c98a53e8d192303875b254ed79a4ae7545fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:45 +0000
Subject: [PATCH 21/78] fix: keep the flows of other sub-networks in the
 contingency analysis

The flows of branches in other sub-networks than the one with the outage
became NaN.
---
 pypsa/contingency.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pypsa/contingency.py b/pypsa/contingency.py
index 6472e0d..8b3ac13 100644
--- a/pypsa/contingency.py
+++ b/pypsa/contingency.py
@@ -126,8 +126,12 @@ def network_lpf_contingency(
         sub_network = n.sub_networks.obj[passive_branches.sub_network[branch]]
 
         branch_i = sub_network._branches.index.get_loc(branch)
-        p0_new = p0_base + pd.Series(
-            sub_network.BODF[:, branch_i] * p0_base[branch], sub_network._branches.index
+        p0_new = p0_base.add(
+            pd.Series(
+                sub_network.BODF[:, branch_i] * p0_base[branch],
+                sub_network._branches.index,
+            ),
+            fill_value=0,
         )
         p0_new.name = branch
 
-- 
2.43.0


From 01d9815cbd1dbda579be5843f337a12749ef9beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:45 +0000
Subject: [PATCH 22/78] fix: ignore inactive branches in the contingency
 analysis

---
 pypsa/contingency.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypsa/contingency.py b/pypsa/contingency.py
index 8b3ac13..4105f50 100644
--- a/pypsa/contingency.py
+++ b/pypsa/contingency.py
@@ -107,7 +107,7 @@ def network_lpf_contingency(
     passive_branches = n.passive_branches()
 
     if branch_outages is None:
-        branch_outages = passive_branches.index
+        branch_outages = passive_branches.index[passive_branches.active]
 
     p0_base = pd.concat(
         {c: n.dynamic(c).p0.loc[snapshot] for c in n.passive_branch_components}
@@ -115,7 +115,7 @@ def network_lpf_contingency(
     p0 = p0_base.to_frame("base")
 
     for sub_network in n.sub_networks.obj:
-        sub_network._branches = sub_network.branches()
+        sub_network._branches = sub_network.branches().query("active")
         sub_network.calculate_BODF()
 
     for branch in branch_outages:
-- 
2.43.0


From d4b192f602fe394b78dc05389dd3ed4fe46f9cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:05 +0000
Subject: [PATCH 23/78] fix: skip sub-networks without branches in the
 contingency analysis

---
 pypsa/contingency.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/contingency.py b/pypsa/contingency.py
index 4105f50..c2cfcd9 100644
--- a/pypsa/contingency.py
+++ b/pypsa/contingency.py
@@ -116,7 +116,8 @@ def network_lpf_contingency(
 
     for sub_network in n.sub_networks.obj:
         sub_network._branches = sub_network.branches().query("active")
-        sub_network.calculate_BODF()
+        if not sub_network._branches.empty:
+            sub_network.calculate_BODF()
 
     for branch in branch_outages:
         if not isinstance(branch, tuple):
-- 
2.43.0


From 104177f885f5e7acfdced9fa58e4ada58651f8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:19 +0000
Subject: [PATCH 24/78] fix: ignore inactive shunt impedances in the power flow

---
 pypsa/pf.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 47917f2..b251b2e 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -755,7 +755,7 @@ def sub_network_pf(
     ].imag
 
     # set shunt impedance powers
-    shunt_impedances_i = sub_network.shunt_impedances_i()
+    shunt_impedances_i = sub_network.shunt_impedances().query("active").index
     if len(shunt_impedances_i):
         # add voltages
         shunt_impedances_v_mag_pu = v_mag_pu[
@@ -1253,13 +1253,14 @@ def calculate_Y(
     Y00 = (y_se + 0.5 * y_sh) / tau_hv**2
 
     # bus shunt impedances
+    shunt_impedances = n.shunt_impedances.query("active")
     b_sh = (
-        n.shunt_impedances.b_pu.groupby(n.shunt_impedances.bus)
+        shunt_impedances.b_pu.groupby(shunt_impedances.bus)
         .sum()
         .reindex(buses_o, fill_value=0.0)
     )
     g_sh = (
-        n.shunt_impedances.g_pu.groupby(n.shunt_impedances.bus)
+        shunt_impedances.g_pu.groupby(shunt_impedances.bus)
         .sum()
         .reindex(buses_o, fill_value=0.0)
     )
@@ -1466,7 +1467,7 @@ def sub_network_lpf(
     branches_i = sub_network.branches_i(active_only=True)
 
     # allow all shunt impedances to dispatch as set
-    shunt_impedances_i = sub_network.shunt_impedances_i()
+    shunt_impedances_i = sub_network.shunt_impedances().query("active").index
     n.shunt_impedances_t.p.loc[sns, shunt_impedances_i] = n.shunt_impedances.g_pu.loc[
         shunt_impedances_i
     ].values
-- 
2.43.0


From 63e324eeca1615a9beebe9ff8d68bed716564ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:19 +0000
Subject: [PATCH 25/78] fix: distributed slack with generators without nominal
 capacity

---
 pypsa/pf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index b251b2e..1d3e9a7 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -794,8 +794,8 @@ def sub_network_pf(
                 else:
                     bus_generators_p_nom = n.generators.p_nom.loc[group.index]
                     # distribute evenly if no p_nom given
-                    if all(bus_generators_p_nom) == 0:
-                        bus_generators_p_nom = 1
+                    if (bus_generators_p_nom == 0).all():
+                        bus_generators_p_nom = bus_generators_p_nom + 1
                     bus_generator_shares = bus_generators_p_nom.pipe(normed).fillna(0)
                 n.generators_t.p.loc[sns, group.index] += (
                     distributed_slack_power.loc[
-- 
2.43.0


From f5bbf8aed4377adf3d0c82e2f1c3190a04d1b465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:43 +0000
Subject: [PATCH 26/78] fix: distributed slack with generator weights given as
 dictionary

---
 pypsa/pf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 1d3e9a7..e27dc1d 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -645,7 +645,7 @@ def sub_network_pf(
             # convert generator-based slack weights to bus-based slack weights
             slack_weights_calc = (
                 slack_weights.rename(n.generators.bus)
-                .groupby(slack_weights.index.name)
+                .groupby(level=0)
                 .sum()
                 .reindex(buses_o)
                 .pipe(normed)
-- 
2.43.0


From bee0dada42fbae82551bc176b42f59c53cab0cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:43 +0000
Subject: [PATCH 27/78] fix: no distributed slack for inactive generators

---
 pypsa/pf.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index e27dc1d..2568f8a 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -370,7 +370,7 @@ def sub_network_pf_singlebus(
     n.buses_t.v_ang.loc[sns, sub_network.slack_bus] = 0.0
 
     if distribute_slack:
-        for bus, group in sub_network.generators().groupby("bus"):
+        for bus, group in sub_network.generators().query("active").groupby("bus"):
             if slack_weights in ["p_nom", "p_nom_opt"]:
                 if all(n.generators[slack_weights] == 0):
                     msg = f"Invalid slack weights! Generator attribute {slack_weights} is always zero."
@@ -614,7 +614,9 @@ def sub_network_pf(
 
     if distribute_slack:
         if isinstance(slack_weights, str) and slack_weights == "p_set":
-            generators_t_p_choice = get_as_dense(n, "Generator", slack_weights, sns)
+            generators_t_p_choice = get_as_dense(
+                n, "Generator", slack_weights, sns, n.generators.query("active").index
+            )
             bus_generation = generators_t_p_choice.rename(columns=n.generators.bus)
             slack_weights_calc = (
                 pd.DataFrame(
@@ -634,7 +636,8 @@ def sub_network_pf(
                 raise ValueError(msg)
 
             slack_weights_calc = (
-                n.generators.groupby("bus")[slack_weights]
+                n.generators.query("active")
+                .groupby("bus")[slack_weights]
                 .sum()
                 .reindex(buses_o)
                 .pipe(normed)
@@ -773,7 +776,7 @@ def sub_network_pf(
         distributed_slack_power = (
             n.buses_t.p.loc[sns, sn_buses] - ss[:, buses_indexer(sn_buses)].real
         )
-        for bus, group in sub_network.generators().groupby("bus"):
+        for bus, group in sub_network.generators().query("active").groupby("bus"):
             if isinstance(slack_weights, str) and slack_weights == "p_set":
                 generators_t_p_choice = get_as_dense(n, "Generator", slack_weights, sns)
                 bus_generator_shares = (
-- 
2.43.0


From b4f4686e19a81994d6036f061a3ead72ed3cc390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:49 +0000
Subject: [PATCH 28/78] fix: distributed slack with weights for some of the
 generators

---
 pypsa/pf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 2568f8a..993edd1 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -792,7 +792,7 @@ def sub_network_pf(
             else:
                 if generator_slack_weights_b:
                     bus_generator_shares = (
-                        slack_weights.loc[group.index].pipe(normed).fillna(0)  # type: ignore
+                        slack_weights.reindex(group.index).pipe(normed).fillna(0)  # type: ignore
                     )
                 else:
                     bus_generators_p_nom = n.generators.p_nom.loc[group.index]
-- 
2.43.0


From 702546cb4ffa68703584faabbd72e1900ea4fcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:43 +0000
Subject: [PATCH 29/78] fix: distribute slack in single-bus sub-networks by
 nominal power or custom weights

The shares per generator were multiplied with the slack per snapshot label by label, which gave NaN, and
custom weights were compared with strings, which raised an ambiguous truth value error.
---
 pypsa/pf.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 993edd1..0b25e87 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -371,14 +371,22 @@ def sub_network_pf_singlebus(
 
     if distribute_slack:
         for bus, group in sub_network.generators().query("active").groupby("bus"):
-            if slack_weights in ["p_nom", "p_nom_opt"]:
+            if isinstance(slack_weights, pd.Series):
+                if slack_weights.index.isin(sub_network.generators().index).all():
+                    bus_weights = slack_weights.reindex(group.index)
+                else:  # weights of buses, share by nominal power
+                    bus_weights = n.generators.p_nom.loc[group.index]
+                    if (bus_weights == 0).all():
+                        bus_weights = bus_weights + 1
+                bus_generator_shares = bus_weights.pipe(normed).fillna(0)
+            elif slack_weights in ["p_nom", "p_nom_opt"]:
                 if all(n.generators[slack_weights] == 0):
                     msg = f"Invalid slack weights! Generator attribute {slack_weights} is always zero."
                     raise ValueError(msg)
                 bus_generator_shares = (
                     n.generators[slack_weights].loc[group.index].pipe(normed).fillna(0)
                 )
-            elif slack_weights == "p_set":
+            else:
                 generators_t_p_choice = get_as_dense(n, "Generator", slack_weights, sns)
                 if generators_t_p_choice.isna().all().all():
                     msg = (
@@ -398,13 +406,15 @@ def sub_network_pf_singlebus(
                     .apply(normed, axis=1)
                     .fillna(0)
                 )
+            bus_slack = -n.buses_t.p.loc[sns, bus]
+            if isinstance(bus_generator_shares, pd.Series):
+                n.generators_t.p.loc[sns, group.index] += bus_slack.apply(
+                    lambda row: row * bus_generator_shares
+                )
             else:
-                bus_generator_shares = slack_weights.pipe(normed).fillna(0)
-            n.generators_t.p.loc[sns, group.index] += (
-                bus_generator_shares.multiply(
-                    -n.buses_t.p.loc[sns, bus], axis=0
+                n.generators_t.p.loc[sns, group.index] += bus_generator_shares.multiply(
+                    bus_slack, axis=0
                 )
-            )  # fmt: skip
     else:
         n.generators_t.p.loc[sns, sub_network.slack_generator] -= (
             n.buses_t.p.loc[sns, sub_network.slack_bus]
-- 
2.43.0


From 3158c38edb18595b3415ba4e544b4476c478a30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:31 +0000
Subject: [PATCH 30/78] fix: run the power flow for sub-networks without
 generators

Without a slack generator the non-linear power flow raised KeyError: None, unlike the linear one.
---
 pypsa/pf.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 0b25e87..f6028f2 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -415,14 +415,15 @@ def sub_network_pf_singlebus(
                 n.generators_t.p.loc[sns, group.index] += bus_generator_shares.multiply(
                     bus_slack, axis=0
                 )
-    else:
+    elif sub_network.slack_generator is not None:
         n.generators_t.p.loc[sns, sub_network.slack_generator] -= (
             n.buses_t.p.loc[sns, sub_network.slack_bus]
         )  # fmt: skip
 
-    n.generators_t.q.loc[sns, sub_network.slack_generator] -= (
-        n.buses_t.q.loc[sns, sub_network.slack_bus]
-    )  # fmt: skip
+    if sub_network.slack_generator is not None:
+        n.generators_t.q.loc[sns, sub_network.slack_generator] -= (
+            n.buses_t.q.loc[sns, sub_network.slack_bus]
+        )  # fmt: skip
 
     n.buses_t.p.loc[sns, sub_network.slack_bus] = 0.0
     n.buses_t.q.loc[sns, sub_network.slack_bus] = 0.0
@@ -815,15 +816,16 @@ def sub_network_pf(
                         sns, bus
                     ].apply(lambda row: row * bus_generator_shares)
                 )  # fmt: skip
-    else:
+    elif sub_network.slack_generator is not None:
         n.generators_t.p.loc[sns, sub_network.slack_generator] += (
             n.buses_t.p.loc[sns, sub_network.slack_bus] - ss[:, slack_index].real
         )
 
     # set the Q of the slack and PV generators
-    n.generators_t.q.loc[sns, sub_network.slack_generator] += (
-        n.buses_t.q.loc[sns, sub_network.slack_bus] - ss[:, slack_index].imag
-    )
+    if sub_network.slack_generator is not None:
+        n.generators_t.q.loc[sns, sub_network.slack_generator] += (
+            n.buses_t.q.loc[sns, sub_network.slack_bus] - ss[:, slack_index].imag
+        )
 
     n.generators_t.q.loc[sns, n.buses.loc[sub_network.pvs, "generator"]] += np.asarray(
         n.buses_t.q.loc[sns, sub_network.pvs]
-- 
2.43.0


From 53d53a607abf5c8d7a339b8454f2cce604454054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:46 +0000
Subject: [PATCH 31/78] fix: renaming components other than buses raised
 KeyError after half of the renaming

---
 pypsa/components/abstract.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pypsa/components/abstract.py b/pypsa/components/abstract.py
index 2145738..0cabc2f 100644
--- a/pypsa/components/abstract.py
+++ b/pypsa/components/abstract.py
@@ -724,8 +724,10 @@ class Components(ComponentsData, ABC):
         if self.attached:
             for c in self.n_save.components.values():
                 col_name = self.name.lower()  # TODO: Generalize
-                cols = [f"{col_name}{port}" for port in c.ports]
-                if cols and not c.static.empty:
+                cols = c.static.columns.intersection(
+                    [col_name] + [f"{col_name}{port}" for port in c.ports]
+                )
+                if not cols.empty and not c.static.empty:
                     c.static[cols] = c.static[cols].replace(kwargs)
 
 
-- 
2.43.0


From 789fbaade1df43acd6eb6e82b2da929b329a216a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 32/78] fix: slicing a network took snapshots by position and
 series by label

---
 pypsa/networks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index bb68fcf..a23362c 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1660,7 +1660,7 @@ class Network:
             )
             n.add(c, static.index, **static)
 
-        n.set_snapshots(self.snapshots[time_i])
+        n.set_snapshots(self.snapshot_weightings.loc[time_i].index)
         for c in self.all_components:
             i = n.static(c).index
             try:
-- 
2.43.0


From 0bd263370f99ecc572fad821b924f357c4f2f7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 33/78] fix: a sliced network lost the investment period
 weightings

---
 pypsa/networks.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index a23362c..fc52a84 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1679,6 +1679,10 @@ class Network:
             setattr(n, attr, getattr(self, attr))
 
         n.snapshot_weightings = self.snapshot_weightings.loc[time_i].copy()
+        if self.has_investment_periods:
+            n.investment_period_weightings = self.investment_period_weightings.loc[
+                n.investment_periods
+            ].copy()
 
         return n
 
-- 
2.43.0


From 7f4f6a518e328bfe954018a6925f66382a38b972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 34/78] fix: slicing a network by a single bus name created a
 bus per attribute

---
 pypsa/networks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index fc52a84..808fc5c 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1622,6 +1622,8 @@ class Network:
             time_i, key = key
         else:
             time_i = slice(None)
+        if np.isscalar(key):
+            key = [key]
 
         # Setup new network
         n = self.__class__()
-- 
2.43.0


From 7921763b5497e36faca1f546d32f3266332280be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:17 +0000
Subject: [PATCH 35/78] fix: attribute values given as dictionary were assigned
 by position instead of being rejected

---
 pypsa/networks.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 808fc5c..bdfd61e 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1278,6 +1278,13 @@ class Network:
                 if not v.columns.equals(names):
                     raise ValueError(msg.format(f"DataFrame {k}", names_str))
 
+            if isinstance(v, dict):
+                msg = (
+                    "Dictionaries are not supported as attribute values. Please use "
+                    "pandas.Series or pandas.DataFrame instead."
+                )
+                raise NotImplementedError(msg)
+
             # Convert list-like and 1-dim array to pandas.Series
             if is_1d_list_like(v):
                 try:
@@ -1313,13 +1320,6 @@ class Network:
                     )
                     raise ValueError(msg)
 
-            if isinstance(v, dict):
-                msg = (
-                    "Dictionaries are not supported as attribute values. Please use "
-                    "pandas.Series or pandas.DataFrame instead."
-                )
-                raise NotImplementedError(msg)
-
             # Handle addition of single component
             if single_component:
                 # Read 1-dim data as time-varying attribute
-- 
2.43.0


From fad49bfdd4b2694a7aa8e6968f885264c18f6e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:02 +0000
Subject: [PATCH 36/78] fix: merging networks while skipping buses merged the
 buses nevertheless

---
 pypsa/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 1861662..8417613 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1632,7 +1632,7 @@ def merge(
         to_skip.update(components_to_skip)
     to_iterate = other.all_components - to_skip
     # ensure buses are merged first
-    to_iterate_list = ["Bus"] + sorted(to_iterate - {"Bus"})
+    to_iterate_list = sorted(to_iterate & {"Bus"}) + sorted(to_iterate - {"Bus"})
     for c in other.iterate_components(to_iterate_list):
         if not c.static.index.intersection(n.static(c.name).index).empty:
             msg = f"Component {c.name} has overlapping indices, cannot merge networks."
-- 
2.43.0


From 64ba4e864fa3fc61d1ff74a1c2313930bc39add6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:45 +0000
Subject: [PATCH 37/78] fix: adding existing components kept the old series
 despite overwrite, and set new ones without it

---
 pypsa/networks.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index bdfd61e..cc37216 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1348,6 +1348,15 @@ class Network:
             static_df = pd.DataFrame(static, index=names)
         else:
             static_df = pd.DataFrame(index=names)
+
+        # Series of existing components are either replaced or kept as they are
+        existing = names.intersection(self.static(c.name).index)
+        if overwrite:
+            for v in self.dynamic(c.name).values():
+                v.drop(columns=existing.intersection(v.columns), inplace=True)
+        else:
+            series = {k: v.drop(columns=existing) for k, v in series.items()}
+
         _import_components_from_df(self, static_df, c.name, overwrite=overwrite)
 
         # Load time-varying attributes as components
-- 
2.43.0


From 4c091d52308b0ad0f7052bd2b73522cb057a12a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:26 +0000
Subject: [PATCH 38/78] fix: networks whose values differ slightly are not
 equal

---
 pypsa/common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pypsa/common.py b/pypsa/common.py
index 79de2a0..85981f4 100644
--- a/pypsa/common.py
+++ b/pypsa/common.py
@@ -255,7 +255,9 @@ def equals(
             # TODO: Resolve with data validation PR
             # Check if dtypes are equal
             try:
-                pd_testing.assert_frame_equal(a, b, check_dtype=False)
+                pd_testing.assert_frame_equal(
+                    a, b, check_dtype=False, check_exact=True
+                )
             except AssertionError:
                 msg = f"pandas objects differ at '{current_path}'\n\n{a}\n\n!=\n\n{b}\n"
                 return handle_diff(msg)
-- 
2.43.0


From fb8e00938c0ff17ab58c2c4195df1a06aa381f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:16 +0000
Subject: [PATCH 39/78] fix: iterating over switchable attributes with series

---
 pypsa/descriptors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/descriptors.py b/pypsa/descriptors.py
index c8a3188..67262d5 100644
--- a/pypsa/descriptors.py
+++ b/pypsa/descriptors.py
@@ -150,7 +150,7 @@ def get_switchable_as_iter(
 
     return (
         reindex_maybe(
-            static.loc[fixed_i, attr].append(dynamic[attr].loc[sn, varying_i])
+            pd.concat([static.loc[fixed_i, attr], dynamic[attr].loc[sn, varying_i]])
         )
         for sn in snapshots
     )
-- 
2.43.0


From b67b366aa4af6d0f5b74d078b1887bfbaa68c758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 40/78] fix: expressions of stores use their power instead of
 their energy level

---
 pypsa/optimization/expressions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pypsa/optimization/expressions.py b/pypsa/optimization/expressions.py
index 225d7e7..36ed628 100644
--- a/pypsa/optimization/expressions.py
+++ b/pypsa/optimization/expressions.py
@@ -156,6 +156,9 @@ class StatisticExpressionsAccessor(AbstractStatisticsAccessor):
 
         if c == "Load":
             return LinearExpression(self._n.get_switchable_as_dense(c, "p_set"), m)
+        if c == "Store":
+            # the power, not the energy level
+            return m.variables[f"{c}-p"]
         attr = lookup.query("not nominal and not handle_separately").loc[c].index
         if c == "StorageUnit":
             assert set(["p_store", "p_dispatch"]) <= set(attr)
-- 
2.43.0


From 7a6f7befaea1113f2c7b28c528f1ea6afcfc7533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 41/78] fix: option_context restored a temporary value if an
 option was given twice

---
 pypsa/_options.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/_options.py b/pypsa/_options.py
index ce47df8..031ba9e 100644
--- a/pypsa/_options.py
+++ b/pypsa/_options.py
@@ -228,7 +228,7 @@ def option_context(*args: Any) -> Generator[None, None, None]:
     try:
         # Store original values and set new ones
         for option_name, value in pairs:
-            original_values[option_name] = options.get_option(option_name)
+            original_values.setdefault(option_name, options.get_option(option_name))
             options.set_option(option_name, value)
         yield
     finally:
-- 
2.43.0


From e400afab57c22939ff7d6177062f2862017915b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 42/78] fix: the weighted minimum of any attribute scaled
 p_nom_max

---
 pypsa/clustering/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/clustering/spatial.py b/pypsa/clustering/spatial.py
index 054348a..3a3b337 100644
--- a/pypsa/clustering/spatial.py
+++ b/pypsa/clustering/spatial.py
@@ -243,7 +243,7 @@ def aggregateoneport(
             static[k] = static[k] * capacity_weights
             static_strategies[k] = "sum"
         elif v == "weighted_min":
-            static["p_nom_max"] /= weights
+            static[k] = static[k] / weights
             static_strategies[k] = "min"
 
     aggregated = static.groupby(grouper).agg(static_strategies)
-- 
2.43.0


From 2100e7e50744b4ca4959eb4403977d577bc7ed51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 43/78] fix: the additional ports of links were not mapped to
 the clustered buses

---
 pypsa/clustering/spatial.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pypsa/clustering/spatial.py b/pypsa/clustering/spatial.py
index 3a3b337..9f72517 100644
--- a/pypsa/clustering/spatial.py
+++ b/pypsa/clustering/spatial.py
@@ -18,6 +18,7 @@ from packaging.version import Version, parse
 from pandas import Series
 
 from pypsa import io
+from pypsa.descriptors import additional_linkports
 from pypsa.geo import haversine_pts
 
 if TYPE_CHECKING:
@@ -564,9 +565,14 @@ def get_clustering_from_busmap(
                 if not df.empty:
                     io._import_series_from_df(clustered, df, c.name, attr)
 
+    link_buses = {col: n.links[col].map(busmap) for col in ["bus0", "bus1"]}
+    for i in additional_linkports(n):
+        bus = n.links[f"bus{i}"]
+        link_buses[f"bus{i}"] = bus.map(busmap).where(bus != "", "")
+
     new_links = (
-        n.links.assign(bus0=n.links.bus0.map(busmap), bus1=n.links.bus1.map(busmap))
-        .dropna(subset=["bus0", "bus1"])
+        n.links.assign(**link_buses)
+        .dropna(subset=list(link_buses))
         .loc[lambda df: df.bus0 != df.bus1]
     )
 
-- 
2.43.0


From 1042b641227b9c7223515ee3a57008efb8f88dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 44/78] fix: a clustered network kept the series of assets
 which are not part of it

---
 pypsa/clustering/spatial.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pypsa/clustering/spatial.py b/pypsa/clustering/spatial.py
index 9f72517..a886fd6 100644
--- a/pypsa/clustering/spatial.py
+++ b/pypsa/clustering/spatial.py
@@ -561,8 +561,10 @@ def get_clustering_from_busmap(
 
     if with_time:
         for c in n.iterate_components(one_port_components):
+            kept = clustered.static(c.name).index
             for attr, df in c.dynamic.items():
                 if not df.empty:
+                    df = df[df.columns.intersection(kept)]
                     io._import_series_from_df(clustered, df, c.name, attr)
 
     link_buses = {col: n.links[col].map(busmap) for col in ["bus0", "bus1"]}
@@ -593,6 +595,7 @@ def get_clustering_from_busmap(
     if with_time:
         for attr, df in n.links_t.items():
             if not df.empty:
+                df = df[df.columns.intersection(new_links.index)]
                 io._import_series_from_df(clustered, df, "Link", attr)
 
     clustered.add("Carrier", n.carriers.index, **n.carriers)
-- 
2.43.0


From 858d450875dc606fde41e4bea6a1e5c925cf4cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 45/78] fix: series equal to the default were not exported for
 static values which differ from it

---
 pypsa/io.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 8417613..1d6e27e 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -833,15 +833,20 @@ def _export_to_exporter(
                 default = attrs.at[attr, "default"]
 
                 if pd.isnull(default):
-                    col_export = dynamic[attr].columns[
-                        (~pd.isnull(dynamic[attr])).any()
-                    ]
+                    differs = (~pd.isnull(dynamic[attr])).any()
                 else:
-                    col_export = dynamic[attr].columns[(dynamic[attr] != default).any()]
+                    differs = (dynamic[attr] != default).any()
+
+                # a series of defaults is needed if the static value is not the default
+                if attr in static:
+                    value = static[attr].reindex(dynamic[attr].columns)
+                    differs |= value.notna() & (value != default)
+
+                col_export = dynamic[attr].columns[differs]
 
             if len(col_export) > 0:
-                static = dynamic[attr].reset_index()[col_export]
-                exporter.save_series(list_name, attr, static)
+                series = dynamic[attr].reset_index()[col_export]
+                exporter.save_series(list_name, attr, series)
             else:
                 exporter.remove_series(list_name, attr)
 
-- 
2.43.0


From 18bf1d45b84fc9090b9150c41f0b0e6771fc18b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 46/78] fix: exporting to an existing folder or workbook kept
 series of an earlier export

---
 pypsa/io.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pypsa/io.py b/pypsa/io.py
index 1d6e27e..ce73c50 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -103,6 +103,9 @@ class Exporter(ImpExper):
     def remove_series(self, list_name: str, attr: str) -> None:
         pass
 
+    def remove_all_series(self, list_name: str) -> None:
+        pass
+
     @abstractmethod
     def save_attributes(self, attrs: dict) -> None:
         pass
@@ -281,6 +284,10 @@ class ExporterCSV(Exporter):
         if fn.exists():
             fn.unlink()
 
+    def remove_all_series(self, list_name: str) -> None:
+        for fn in list(self.csv_folder_name.glob(f"{list_name}-*.csv")):
+            fn.unlink()
+
 
 class ImporterExcel(Importer):
     def __init__(self, path: str | Path, engine: str = "calamine") -> None:
@@ -454,6 +461,7 @@ class ExporterExcel(Exporter):
         if list_name in self.writer.book.sheetnames:
             del self.writer.book[list_name]
             logger.warning(f"Stale sheet {list_name} removed")
+        self.remove_all_series(list_name)
 
     def remove_series(self, list_name: str, attr: str) -> None:
         sheet_name = f"{list_name}-{attr}"
@@ -461,6 +469,11 @@ class ExporterExcel(Exporter):
             del self.writer.book[sheet_name]
             logger.warning(f"Stale sheet {sheet_name} removed")
 
+    def remove_all_series(self, list_name: str) -> None:
+        for sheet_name in list(self.writer.book.sheetnames):
+            if sheet_name.startswith(f"{list_name}-"):
+                del self.writer.book[sheet_name]
+
     def finish(self) -> None:
         # Remove temp sheet if it exists
         if "_temp" in self.writer.book.sheetnames:
@@ -824,6 +837,7 @@ def _export_to_exporter(
             col_export.append(col)
 
         exporter.save_static(list_name, static[col_export])
+        exporter.remove_all_series(list_name)
 
         # now do varying attributes
         for attr in dynamic:
-- 
2.43.0


From e68143b5b6d89a5f3ccdd231808b28b9f80dda6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 47/78] fix: excel sheets of components without non-default
 attributes were read back with a component called name

---
 pypsa/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index ce73c50..6243743 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -451,7 +451,8 @@ class ExporterExcel(Exporter):
         investment_periods.to_excel(self.writer, sheet_name="investment_periods")
 
     def save_static(self, list_name: str, df: pd.DataFrame) -> None:
-        df.to_excel(self.writer, sheet_name=list_name)
+        # write the index as column, since pandas writes an extra row if there are no columns
+        df.reset_index().to_excel(self.writer, sheet_name=list_name, index=False)
 
     def save_series(self, list_name: str, attr: str, df: pd.DataFrame) -> None:
         sheet_name = f"{list_name}-{attr}"
-- 
2.43.0


From 14419eab7431db9a4a5a28d4f3e0b7102f644dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 48/78] fix: snapshots other than datetimes were read from csv
 and excel as datetimes or failed

---
 pypsa/io.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 6243743..0a3f178 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -69,6 +69,20 @@ def _retrieve_from_url(url: str, io_function: Callable) -> pd.DataFrame | Networ
 # TODO: Restructure abc inheritance
 
 
+def _parse_snapshots(labels: pd.Series) -> pd.Series:
+    """
+    Convert snapshot labels read from a text format to datetimes if they are datetimes.
+
+    Numbers and the label of the default snapshot ("now") are kept as they are.
+    """
+    if pd.api.types.is_numeric_dtype(labels) or labels.eq("now").any():
+        return labels
+    try:
+        return pd.to_datetime(labels)
+    except (ValueError, TypeError):
+        return labels
+
+
 TImpExper = TypeVar("TImpExper", bound="ImpExper")
 
 
@@ -184,9 +198,9 @@ class ImporterCSV(Importer):
         )
         # backwards-compatibility: level "snapshot" was rename to "timestep"
         if "snapshot" in df:
-            df["snapshot"] = pd.to_datetime(df.snapshot)
+            df["snapshot"] = _parse_snapshots(df.snapshot)
         if "timestep" in df:
-            df["timestep"] = pd.to_datetime(df.timestep)
+            df["timestep"] = _parse_snapshots(df.timestep)
         return df
 
     def get_investment_periods(self) -> pd.Series:
@@ -359,9 +373,9 @@ class ImporterExcel(Importer):
             df = df.set_index(df.columns[0])
             # backwards-compatibility: level "snapshot" was rename to "timestep"
             if "snapshot" in df:
-                df["snapshot"] = pd.to_datetime(df.snapshot)
+                df["snapshot"] = _parse_snapshots(df.snapshot)
             if "timestep" in df:
-                df["timestep"] = pd.to_datetime(df.timestep)
+                df["timestep"] = _parse_snapshots(df.timestep)
             return df
         except (ValueError, KeyError):
             return None
-- 
2.43.0


From 95bf00c32e2a961d766c70742277e2626ac17785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 49/78] fix: the empty name of a network was read from csv and
 excel as NaN

---
 pypsa/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 0a3f178..a176e2b 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1248,7 +1248,8 @@ def _import_from_importer(
     pypsa_version = None
 
     if attrs is not None:
-        n.name = attrs.pop("name")
+        name = attrs.pop("name")
+        n.name = "" if pd.isnull(name) else str(name)
 
         try:
             pypsa_version = [int(s) for s in attrs.pop("pypsa_version").split(".")]
-- 
2.43.0


From b23c9795b7e48c715b47dda902449807d0a09cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 50/78] fix: lists and number-like strings in the meta data
 changed their type in excel files

---
 pypsa/io.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index a176e2b..9970393 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -446,9 +446,7 @@ class ExporterExcel(Exporter):
         meta_items = []
         for key, value in meta.items():
             # If value is a dict, serialize it as JSON
-            if isinstance(value, dict):
-                value = json.dumps(value)
-            meta_items.append([key, value])
+            meta_items.append([key, json.dumps(value)])
 
         df = pd.DataFrame(meta_items, columns=["Key", "Value"])
         df.to_excel(self.writer, sheet_name="meta", index=False)
-- 
2.43.0


From fbad88a519d24403e20b825bc6b09b98cf519a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 51/78] fix: impedances of pandapower transformers without
 standard type had the wrong base and sign

---
 pypsa/io.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 9970393..6b4f1b5 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -2072,18 +2072,14 @@ def import_from_pandapower_net(
         s_nom = net.trafo.sn_mva.values
 
         # documented at https://pandapower.readthedocs.io/en/develop/elements/trafo.html?highlight=transformer#impedance-values
-        z = net.trafo.vk_percent.values / 100.0 / net.trafo.sn_mva.values
-        r = net.trafo.vkr_percent.values / 100.0 / net.trafo.sn_mva.values
+        # NB: all values are per unit of s_nom
+        z = net.trafo.vk_percent.values / 100.0
+        r = net.trafo.vkr_percent.values / 100.0
         x = np.sqrt(z**2 - r**2)
 
         y = net.trafo.i0_percent.values / 100.0
-        g = (
-            net.trafo.pfe_kw.values
-            / net.trafo.sn_mva.values
-            / 1000
-            / net.trafo.sn_mva.values
-        )
-        b = np.sqrt(y**2 - g**2)
+        g = net.trafo.pfe_kw.values / 1000 / net.trafo.sn_mva.values
+        b = -np.sqrt(np.maximum(y**2 - g**2, 0))
 
         d["Transformer"] = pd.DataFrame(
             {
-- 
2.43.0


From 9d3ae835375f1199335fe723252c15d36657e963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 52/78] fix: the rating of pandapower lines ignored the three
 phases and parallel systems were ignored with extra line data

---
 pypsa/io.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 6b4f1b5..40ee75d 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -2033,15 +2033,16 @@ def import_from_pandapower_net(
             index=net.line.name,
         )
     else:
-        r = net.line.r_ohm_per_km.values * net.line.length_km.values
-        x = net.line.x_ohm_per_km.values * net.line.length_km.values
+        parallel = net.line.parallel.values
+        r = net.line.r_ohm_per_km.values * net.line.length_km.values / parallel
+        x = net.line.x_ohm_per_km.values * net.line.length_km.values / parallel
         # capacitance values from pandapower in nF; transformed here:
         f = net.f_hz
-        b = net.line.c_nf_per_km.values * net.line.length_km.values * 1e-9
+        b = net.line.c_nf_per_km.values * net.line.length_km.values * 1e-9 * parallel
         b = b * 2 * math.pi * f
 
         u = net.bus.vn_kv.loc[net.line.from_bus].values
-        s_nom = u * net.line.max_i_ka.values
+        s_nom = np.sqrt(3) * u * net.line.max_i_ka.values * parallel
 
         d["Line"] = pd.DataFrame(
             {
-- 
2.43.0


From 78805a1904f5ca6a0c5da6a2a337e4f618450264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 53/78] fix: chains of closed pandapower bus switches left
 components at removed buses

---
 pypsa/io.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 40ee75d..4845363 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -2129,7 +2129,13 @@ def import_from_pandapower_net(
     bus_switches["stays"] = bus_switches.bus.map(net.bus.name)
     bus_switches["goes"] = bus_switches.element.map(net.bus.name)
 
-    to_replace = pd.Series(bus_switches.stays.values, bus_switches.goes.values)
+    merged: dict = {}
+    for stays, goes in zip(bus_switches.stays.values, bus_switches.goes.values):
+        stays, goes = merged.get(stays, stays), merged.get(goes, goes)
+        if stays != goes:
+            merged = {k: stays if v == goes else v for k, v in merged.items()}
+            merged[goes] = stays
+    to_replace = pd.Series(merged, dtype=object)
 
     for i in to_replace.index:
         n.remove("Bus", i)
-- 
2.43.0


From 55c92b510dfbdf160262ff0540042ab2a0e342a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:11 +0000
Subject: [PATCH 54/78] fix: the reactive power of pandapower shunts had the
 wrong sign

---
 pypsa/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 4845363..c6ca80d 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -2100,7 +2100,8 @@ def import_from_pandapower_net(
 
     # documented at https://pypsa.readthedocs.io/en/latest/components.html#shunt-impedance
     g_shunt = net.shunt.p_mw.values / net.shunt.vn_kv.values**2
-    b_shunt = net.shunt.q_mvar.values / net.shunt.vn_kv.values**2
+    # NB: the reactive power is consumed in pandapower
+    b_shunt = -net.shunt.q_mvar.values / net.shunt.vn_kv.values**2
 
     d["ShuntImpedance"] = pd.DataFrame(
         {
-- 
2.43.0


From b36940abd07d64489835bb034fd53fd100649aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:41 +0000
Subject: [PATCH 55/78] fix: parallel pandapower transformers were imported as
 a single one

---
 pypsa/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index c6ca80d..065b621 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -2063,6 +2063,7 @@ def import_from_pandapower_net(
         d["Transformer"] = pd.DataFrame(
             {
                 "type": net.trafo.std_type.values,
+                "num_parallel": net.trafo.parallel.values,
                 "bus0": net.bus.name.loc[net.trafo.hv_bus].values,
                 "bus1": net.bus.name.loc[net.trafo.lv_bus].values,
                 "tap_position": net.trafo.tap_pos.values,
@@ -2070,7 +2071,7 @@ def import_from_pandapower_net(
             index=net.trafo.name,
         )
     else:
-        s_nom = net.trafo.sn_mva.values
+        s_nom = net.trafo.sn_mva.values * net.trafo.parallel.values
 
         # documented at https://pandapower.readthedocs.io/en/develop/elements/trafo.html?highlight=transformer#impedance-values
         # NB: all values are per unit of s_nom
-- 
2.43.0


From b00d05bc627f1e4b2de864964f1c49994fe59f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:21 +0000
Subject: [PATCH 56/78] fix: links with additional ports failed in networks
 created before another network got them

---
 pypsa/descriptors.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pypsa/descriptors.py b/pypsa/descriptors.py
index 67262d5..8abe0d4 100644
--- a/pypsa/descriptors.py
+++ b/pypsa/descriptors.py
@@ -440,17 +440,17 @@ def update_linkports_component_attrs(
 
     for i, attr in product(ports, ["bus", "efficiency", "p"]):
         target = f"{attr}{i}"
-        if target in n.components[c]["attrs"].index:
-            continue
-        j = "1" if attr != "efficiency" else ""
-        base_attr = attr + j
-        base_attr_index = n.components[c]["attrs"].index.get_loc(base_attr)
-        n.components[c]["attrs"].index.insert(base_attr_index + 1, target)
-        n.components[c]["attrs"].loc[target] = (
-            n.components[c]["attrs"]
-            .loc[attr + j]
-            .apply(update_linkports_doc_changes, args=("1", i))
-        )
+        # the attributes are shared by all networks, another one may have added the port
+        if target not in n.components[c]["attrs"].index:
+            j = "1" if attr != "efficiency" else ""
+            base_attr = attr + j
+            base_attr_index = n.components[c]["attrs"].index.get_loc(base_attr)
+            n.components[c]["attrs"].index.insert(base_attr_index + 1, target)
+            n.components[c]["attrs"].loc[target] = (
+                n.components[c]["attrs"]
+                .loc[attr + j]
+                .apply(update_linkports_doc_changes, args=("1", i))
+            )
         # Also update container for varying attributes
         if attr in ["efficiency", "p"] and target not in n.dynamic(c).keys():
             df = pd.DataFrame(index=n.snapshots, columns=[], dtype=float)
-- 
2.43.0


From 6e1055857a3dcaf59137747ad0437cbf42ad89d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:43 +0000
Subject: [PATCH 57/78] fix: exporting a network renamed the index of its
 snapshot weightings in place

---
 pypsa/io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 065b621..3ca6e94 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -799,10 +799,10 @@ def _export_to_exporter(
 
     # now export snapshots
     if isinstance(n.snapshot_weightings.index, pd.MultiIndex):
-        n.snapshot_weightings.index.rename(["period", "timestep"], inplace=True)
+        snapshots = n.snapshot_weightings.rename_axis(["period", "timestep"])
     else:
-        n.snapshot_weightings.index.rename("snapshot", inplace=True)
-    snapshots = n.snapshot_weightings.reset_index()
+        snapshots = n.snapshot_weightings.rename_axis("snapshot")
+    snapshots = snapshots.reset_index()
     exporter.save_snapshots(snapshots)
 
     # export investment period weightings
-- 
2.43.0


From f8373a501b38b75efd3ec76e5e9ef49f340b1a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:02 +0000
Subject: [PATCH 58/78] fix: importing series renamed the axes of the data of
 the caller

---
 pypsa/io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypsa/io.py b/pypsa/io.py
index 3ca6e94..86deba2 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1579,6 +1579,7 @@ def _import_series_from_df(
         except KeyError:
             pass  # Don't drop any columns if the data doesn't exist yet
 
+    df = df.copy()
     df.columns.name = cls_name
     df.index.name = "snapshot"
 
-- 
2.43.0


From f36b26c895073ac97ad451a0558ed35fc058e9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:02 +0000
Subject: [PATCH 59/78] fix: an interactive map kept style, centre and token of
 earlier maps

---
 pypsa/plot/maps/interactive.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypsa/plot/maps/interactive.py b/pypsa/plot/maps/interactive.py
index b4c4611..ee13f74 100644
--- a/pypsa/plot/maps/interactive.py
+++ b/pypsa/plot/maps/interactive.py
@@ -301,6 +301,7 @@ def iplot(
         fig["layout"].update(dict(width=size[0], height=size[1]))
 
     if mapbox:
+        mapbox_parameters = dict(mapbox_parameters)
         if mapbox_token != "":
             mapbox_parameters["accesstoken"] = mapbox_token
 
-- 
2.43.0


From bde63ce0d774fd9a3ab19ca27e9a318e70c25823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:02 +0000
Subject: [PATCH 60/78] fix: interactive charts changed the labels of the
 caller

---
 pypsa/plot/statistics/charts.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pypsa/plot/statistics/charts.py b/pypsa/plot/statistics/charts.py
index deb275f..9057948 100644
--- a/pypsa/plot/statistics/charts.py
+++ b/pypsa/plot/statistics/charts.py
@@ -430,8 +430,7 @@ class ChartGenerator(PlotsGenerator, ABC):
         carrier_colors = self.get_carrier_colors(nice_names=nice_names)
 
         # Set up labels dictionary for axis labels
-        if labels is None:
-            labels = {}
+        labels = {} if labels is None else dict(labels)
 
         # Get unit for legends
         data_label = data.attrs.get("name", "Value")
-- 
2.43.0


From 83e35f6473c7a1e60405392c36e2f2de52aab089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:47 +0000
Subject: [PATCH 61/78] fix: setting n.crs or n.srid raised when the shapes had
 another reference system

---
 pypsa/networks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index cc37216..00a6bf8 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -660,7 +660,7 @@ class Network:
         Set the coordinate reference system of the network's geometries
         (n.shapes).
         """
-        self.shapes.set_crs(new)
+        self.shapes.set_crs(new, allow_override=True, inplace=True)
         self._crs = self.shapes.crs
 
     def to_crs(self, new: int | str | pyproj.CRS) -> None:
-- 
2.43.0


From 03fe12b8fdc1d5804d3adcc4d2c519b8e1e3cd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:47 +0000
Subject: [PATCH 62/78] fix: n.to_crs swapped the axes of the bus coordinates

---
 pypsa/networks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 00a6bf8..0ea9286 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -671,7 +671,7 @@ class Network:
         current = self.crs
         self.shapes.to_crs(new, inplace=True)
         self._crs = self.shapes.crs
-        transformer = Transformer.from_crs(current, self.crs)
+        transformer = Transformer.from_crs(current, self.crs, always_xy=True)
         self.buses["x"], self.buses["y"] = transformer.transform(
             self.buses["x"], self.buses["y"]
         )
-- 
2.43.0


From 94abaaa74fb994492f2a611a57702da9c2d7fa91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:47 +0000
Subject: [PATCH 63/78] fix: shapes of a part of a network lost their reference
 system

---
 pypsa/networks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 0ea9286..8ebfd99 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1686,7 +1686,7 @@ class Network:
                 pass
 
         # catch all remaining attributes of network
-        for attr in ["name", "_crs"]:
+        for attr in ["name", "crs"]:
             setattr(n, attr, getattr(self, attr))
 
         n.snapshot_weightings = self.snapshot_weightings.loc[time_i].copy()
-- 
2.43.0


From 970bb88dbc441d208caeef8e8b8e2ff40d67a480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:47 +0000
Subject: [PATCH 64/78] fix: snapshot weightings came back from a file with
 their columns in another order

---
 pypsa/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 86deba2..d1948bb 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1287,7 +1287,7 @@ def _import_from_importer(
             df.set_index(sorted(snapshot_levels), inplace=True)
         n.set_snapshots(df.index)
 
-        cols = ["objective", "generators", "stores"]
+        cols = ["objective", "stores", "generators"]
         if not df.columns.intersection(cols).empty:
             n.snapshot_weightings = df.reindex(index=n.snapshots, columns=cols)
         elif "weightings" in df.columns:
-- 
2.43.0


From 02015ee5cb08f3272173926b8eacf1b304c9b214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:47 +0000
Subject: [PATCH 65/78] fix: a network differed from itself read back from a
 file because only one had its own reference system

---
 pypsa/networks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 8ebfd99..54acc4e 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -301,6 +301,8 @@ class Network:
 
         self._meta: dict = {}
 
+        self._crs = CRS.from_epsg(DEFAULT_EPSG)
+
         self._snapshots = pd.Index([DEFAULT_TIMESTAMP], name="snapshot")
 
         cols = ["objective", "stores", "generators"]
-- 
2.43.0


From 31ca231add4dbc0b97ab45910d8ca46577f728b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:47 +0000
Subject: [PATCH 66/78] fix: generators of add_load_shedding had an undefined
 carrier

---
 pypsa/optimization/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/optimize.py b/pypsa/optimization/optimize.py
index f489ebf..251275f 100644
--- a/pypsa/optimization/optimize.py
+++ b/pypsa/optimization/optimize.py
@@ -787,7 +787,7 @@ class OptimizationAccessor:
             buses,
             suffix,
             bus=buses,
-            carrier="load",
+            carrier="Load",
             sign=sign,
             marginal_cost=marginal_cost,
             p_nom=p_nom,
-- 
2.43.0


From 9ef6653b9570e0fae0e1190297674e633d510154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:47 +0000
Subject: [PATCH 67/78] fix: n.optimize.assign_solution, assign_duals and
 post_processing ignored positional arguments

---
 pypsa/optimization/optimize.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pypsa/optimization/optimize.py b/pypsa/optimization/optimize.py
index 251275f..8247533 100644
--- a/pypsa/optimization/optimize.py
+++ b/pypsa/optimization/optimize.py
@@ -689,15 +689,15 @@ class OptimizationAccessor:
 
     @wraps(assign_solution)
     def assign_solution(self, *args: Any, **kwargs: Any) -> Any:
-        return assign_solution(self.n, **kwargs)
+        return assign_solution(self.n, *args, **kwargs)
 
     @wraps(assign_duals)
     def assign_duals(self, *args: Any, **kwargs: Any) -> Any:
-        return assign_duals(self.n, **kwargs)
+        return assign_duals(self.n, *args, **kwargs)
 
     @wraps(post_processing)
     def post_processing(self, *args: Any, **kwargs: Any) -> Any:
-        return post_processing(self.n, **kwargs)
+        return post_processing(self.n, *args, **kwargs)
 
     @wraps(optimize_transmission_expansion_iteratively)
     def optimize_transmission_expansion_iteratively(
-- 
2.43.0


From 097fb36b644acd198491084896c79a10173309d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:34 +0000
Subject: [PATCH 68/78] fix: rename standard types also where lines and
 transformers refer to them

---
 pypsa/components/abstract.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pypsa/components/abstract.py b/pypsa/components/abstract.py
index 0cabc2f..2c47fd7 100644
--- a/pypsa/components/abstract.py
+++ b/pypsa/components/abstract.py
@@ -727,6 +727,9 @@ class Components(ComponentsData, ABC):
                 cols = c.static.columns.intersection(
                     [col_name] + [f"{col_name}{port}" for port in c.ports]
                 )
+                # Standard types are referred to by the attribute `type`
+                if self.name == f"{c.name}Type":
+                    cols = cols.union(["type"])
                 if not cols.empty and not c.static.empty:
                     c.static[cols] = c.static[cols].replace(kwargs)
 
-- 
2.43.0


From 9da0a8f27d8219045a5747c23e65b02590d82da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:18 +0000
Subject: [PATCH 69/78] fix: a component type does not silently replace one of
 the same name

The registered types are kept by list name, the check looked for the name
and never found one: registering a second 'Generator' replaced the first.
---
 pypsa/components/types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pypsa/components/types.py b/pypsa/components/types.py
index e7bf0f8..3689a00 100644
--- a/pypsa/components/types.py
+++ b/pypsa/components/types.py
@@ -86,7 +86,9 @@ def add_component_type(
     'CustomComponent' Component Type
 
     """
-    if name in all_components:
+    if list_name in all_components or any(
+        ctype.name == name for ctype in all_components.values()
+    ):
         msg = f"Component type '{name}' already exists."
         raise ValueError(msg)
 
-- 
2.43.0


From 50a88bc3ac71afad41cb07df04a1a3298c33080c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:18 +0000
Subject: [PATCH 70/78] fix: the layout given to MapPlotter is used

The condition looked at it, but the positions came from the default layout.
---
 pypsa/plot/maps/static.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pypsa/plot/maps/static.py b/pypsa/plot/maps/static.py
index 542eaf9..4d63d3d 100644
--- a/pypsa/plot/maps/static.py
+++ b/pypsa/plot/maps/static.py
@@ -236,7 +236,9 @@ class MapPlotter:
             .all()
         )
         if layouter or self._layout or is_empty:
-            self.x, self.y = apply_layouter(self.n, layouter, inplace=False)
+            self.x, self.y = apply_layouter(
+                self.n, layouter or self._layout, inplace=False
+            )
         else:
             self.x, self.y = self.n.buses["x"], self.n.buses["y"]
         self.crs = self.n.crs
-- 
2.43.0


From 2e0b7c8d63ae51c9a34646abf4c45ed3dac055cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:18 +0000
Subject: [PATCH 71/78] fix: the boundaries of a map follow the buses given to
 MapPlotter

The argument was accepted and ignored.
---
 pypsa/plot/maps/static.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/plot/maps/static.py b/pypsa/plot/maps/static.py
index 4d63d3d..eedc5d9 100644
--- a/pypsa/plot/maps/static.py
+++ b/pypsa/plot/maps/static.py
@@ -112,6 +112,7 @@ class MapPlotter:
         self._layout = layout
         self._boundaries = boundaries
         self._margin = margin
+        self._buses = buses
         self._ax: Axes | GeoAxesSubplot | None = None
         self._area_factor = 1.0
 
@@ -161,7 +162,7 @@ class MapPlotter:
     def boundaries(self) -> tuple[float, float, float, float]:
         """Get the plot boundaries."""
         if self._boundaries is None:
-            self.set_boundaries(self._boundaries, self.margin, self._n.buses.index)
+            self.set_boundaries(self._boundaries, self.margin, self._buses)
             assert self._boundaries is not None
         return self._boundaries
 
-- 
2.43.0


From 67891a972141692c8165704f718768183fad82bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:18 +0000
Subject: [PATCH 72/78] fix: the deprecated flow of a map is passed to all
 branches

Unless it was a multi-indexed series it was silently ignored, although the
documentation promises to pass it to all branches.
---
 pypsa/plot/maps/static.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypsa/plot/maps/static.py b/pypsa/plot/maps/static.py
index eedc5d9..0aa3bf3 100644
--- a/pypsa/plot/maps/static.py
+++ b/pypsa/plot/maps/static.py
@@ -1153,6 +1153,8 @@ class MapPlotter:
                 line_flow = flow.get("Line")
                 link_flow = flow.get("Link")
                 transformer_flow = flow.get("Transformer")
+            else:
+                line_flow = link_flow = transformer_flow = flow
 
         # Deprecation errors
         if isinstance(line_widths, pd.Series) and isinstance(
-- 
2.43.0


From 9041a750c506bafdbc806f9220ad6dfd9658833a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:18 +0000
Subject: [PATCH 73/78] fix: a resolution given as geomap is used as the
 resolution

The resolution was set to True and the plot failed.
---
 pypsa/plot/maps/static.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/plot/maps/static.py b/pypsa/plot/maps/static.py
index 0aa3bf3..8a3d6bb 100644
--- a/pypsa/plot/maps/static.py
+++ b/pypsa/plot/maps/static.py
@@ -1359,8 +1359,8 @@ def plot(  # noqa: D103
             "If you want to set the resolution, use the `geomap_resolution` "
             "argument instead."
         )
-        geomap = True
         geomap_resolution = geomap  # type: ignore
+        geomap = True
 
     # setup plotter
     plotter = MapPlotter(
-- 
2.43.0


From e1873dfc87dab277575197072bc4da5687161157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:18 +0000
Subject: [PATCH 74/78] fix: maps draw the geometry of branches

The flag was indexed as if it were the column. Branches without a geometry
are left out together with their widths and colors.
---
 pypsa/plot/maps/static.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pypsa/plot/maps/static.py b/pypsa/plot/maps/static.py
index 8a3d6bb..755b40a 100644
--- a/pypsa/plot/maps/static.py
+++ b/pypsa/plot/maps/static.py
@@ -677,19 +677,21 @@ class MapPlotter:
             from shapely.geometry import LineString
             from shapely.wkt import loads
 
-            linestrings = geometry[lambda ds: ds != ""].map(loads)
+            geometries = c.static.geometry[idx].fillna("")
+            linestrings = geometries[lambda ds: ds != ""].map(loads)
             if not all(isinstance(ls, LineString) for ls in linestrings):
                 msg = "The WKT-encoded geometry in the 'geometry' column must be "
                 "composed of LineStrings"
                 raise ValueError(msg)
-            segments = np.asarray(list(linestrings.map(np.asarray)))
+            segments = [np.asarray(ls.coords) for ls in linestrings]
+            idx = linestrings.index
 
         return LineCollection(
             list(segments),
-            linewidths=widths,
+            linewidths=widths[idx],
             antialiaseds=(1,),
-            colors=colors,
-            alpha=alpha,
+            colors=colors[idx],
+            alpha=alpha[idx],
         )
 
     def _get_branch_collection_patches(
-- 
2.43.0


From 228739ddb227e774b1023dde0b1e70a8dbb87251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:29 +0000
Subject: [PATCH 75/78] fix: arrows of flows have the color of their own branch

Branches without an arrow (of length zero or without a flow) shifted the
colors and transparencies of all following ones.
---
 pypsa/plot/maps/static.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pypsa/plot/maps/static.py b/pypsa/plot/maps/static.py
index 755b40a..d754139 100644
--- a/pypsa/plot/maps/static.py
+++ b/pypsa/plot/maps/static.py
@@ -803,9 +803,11 @@ class MapPlotter:
             axis=1,
         )
         data = data.dropna(subset=["arrows"])
+        if isinstance(alpha, pd.Series):
+            alpha = alpha[data.index]
         return PatchCollection(
             data.arrows,
-            color=color,
+            color=color[data.index],
             alpha=alpha,
             edgecolors="black",
             linewidths=0,
-- 
2.43.0


From 241384468e28391aa6b9f5d83847e89ffa714684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:06 +0000
Subject: [PATCH 76/78] fix: links on interactive maps lie in the reference
 system of the others

Their geometry was declared in the default one, also if the network or the
argument names another.
---
 pypsa/plot/maps/interactive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/plot/maps/interactive.py b/pypsa/plot/maps/interactive.py
index ee13f74..cb7d440 100644
--- a/pypsa/plot/maps/interactive.py
+++ b/pypsa/plot/maps/interactive.py
@@ -507,7 +507,7 @@ def explore(
                     axis=1,
                 ).T
             ),
-            crs=DEFAULT_EPSG,
+            crs=crs,
         )
 
         gdf_links[gdf_links.is_valid].explore(
-- 
2.43.0


From dd250e03103c2d567ef2bf731f471e8421ae7d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:06 +0000
Subject: [PATCH 77/78] fix: the reference system given to explore is used

Giving one replaced it by the default one.
---
 pypsa/plot/maps/interactive.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pypsa/plot/maps/interactive.py b/pypsa/plot/maps/interactive.py
index cb7d440..6bd8d00 100644
--- a/pypsa/plot/maps/interactive.py
+++ b/pypsa/plot/maps/interactive.py
@@ -380,10 +380,8 @@ def explore(
         )
         return None
 
-    if n.crs and crs is None:
-        crs = n.crs
-    else:
-        crs = DEFAULT_EPSG
+    if crs is None:
+        crs = n.crs or DEFAULT_EPSG
 
     if components is None:
         components = {"Bus", "Line", "Transformer", "Link"}
-- 
2.43.0


From 7f7869f7adee6330f7a1d17923a7a95ba2ba26fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:07 +0000
Subject: [PATCH 78/78] fix: interactive maps use the coordinates of buses

---
 pypsa/plot/maps/interactive.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pypsa/plot/maps/interactive.py b/pypsa/plot/maps/interactive.py
index 6bd8d00..b79e24c 100644
--- a/pypsa/plot/maps/interactive.py
+++ b/pypsa/plot/maps/interactive.py
@@ -167,7 +167,12 @@ def iplot(
     if bus_text is None:
         bus_text = "Bus " + n.buses.index
 
-    x, y = apply_layouter(n, layouter=layouter, inplace=False)
+    # Coordinates of buses are used unless a layouter is given or needed
+    coords = n.buses[["x", "y"]]
+    if layouter or (coords.isnull() | (coords == 0)).all().all():
+        x, y = apply_layouter(n, layouter=layouter, inplace=False)
+    else:
+        x, y = n.buses["x"], n.buses["y"]
 
     rng = np.random.default_rng()  # Create a random number generator
     if jitter is not None:
-- 
2.43.0

