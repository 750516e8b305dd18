From caa1d3cd30998f228064f493228023f77c1f7885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:40 +0000
Subject: [PATCH 01/42] fix: do not modify the caller's emissions and gas
 parameter data

Perturbed emissions and yearly natural emissions were written into the data frames sent in as emissions_data and gaspam_data, so reusing them for another instance perturbed twice.
---
 src/ciceroscm/concentrations_emissions_handler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index dbf05f9..3b33e1e 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -182,7 +182,7 @@ class ConcentrationsEmissionsHandler:
         pamset : dict
            list of physical parameters to define the run
         """
-        self.df_gas = input_handler.get_data("gaspam")
+        self.df_gas = input_handler.get_data("gaspam").copy()
         self.conc = {}
         self.forc = {}
         self.nat_emis_ch4 = input_handler.get_data("nat_ch4")
@@ -190,7 +190,7 @@ class ConcentrationsEmissionsHandler:
         self.pamset = check_pamset(pamset)
         self.years = np.arange(self.pamset["nystart"], self.pamset["nyend"] + 1)
         self.conc_in = input_handler.get_data("concentrations")
-        self.emis = input_handler.get_data("emissions")
+        self.emis = input_handler.get_data("emissions").copy()
         self.pamset["conc_run"] = input_handler.conc_run()
         if input_handler.optional_pam("perturb_em"):
             perturb_emissions(input_handler, self.emis)
-- 
2.43.0


From 6bf40c0fe837853268ca96e44a11886223c30e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:40 +0000
Subject: [PATCH 02/42] fix: just_one from an earlier run no longer applies to
 later runs of the same instance

---
 src/ciceroscm/concentrations_emissions_handler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index 3b33e1e..6dd629e 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -109,7 +109,8 @@ def check_pamset_consistency(pamset_old, pamset_new):
             )
             pamset_new[pam] = pamset_old[pam]
     for pam, value in pamset_old.items():
-        if pam not in pamset_new:
+        # just_one is a choice for a single run, it is off unless asked for
+        if pam not in pamset_new and pam != "just_one":
             pamset_new[pam] = value
     return pamset_new
 
-- 
2.43.0


From 44acd04f49715fdc55ab4f9ca51305e5c6a4a3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:40 +0000
Subject: [PATCH 03/42] fix: drop the previous run's results at the start of a
 new run

Component wise results and carbon cycle outputs of an earlier run stayed in results when the new run did not produce them.
---
 src/ciceroscm/ciceroscm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ciceroscm/ciceroscm.py b/src/ciceroscm/ciceroscm.py
index f0c6a9b..aab416d 100644
--- a/src/ciceroscm/ciceroscm.py
+++ b/src/ciceroscm/ciceroscm.py
@@ -147,6 +147,7 @@ class CICEROSCM:
         Dictionary for all results from upwelling diffusion
         model outputs is initialised with empty arrays
         """
+        self.results = {}
         output_variables = (
             list(self.thermal_model_class.get_output_dict_thermal().keys())
             + FORC_OUTPUT_LIST
-- 
2.43.0


From 41cef9ae7ff52708488686504dba4dc008e0c3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:40 +0000
Subject: [PATCH 04/42] fix: pass rs_function and rb_function from the instance
 configuration on to the carbon cycle

They were put in the emissions and concentrations parameter set, which cuts them, so these documented options had no effect.
---
 src/ciceroscm/ciceroscm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/ciceroscm.py b/src/ciceroscm/ciceroscm.py
index aab416d..f6e7e88 100644
--- a/src/ciceroscm/ciceroscm.py
+++ b/src/ciceroscm/ciceroscm.py
@@ -121,11 +121,12 @@ class CICEROSCM:
             pamset_emiconc["nyend"] = self.cfg["nyend"]
             pamset_emiconc["idtm"] = self.cfg["idtm"]
 
+            pamset_carbon = {}
             for key, value in cfg.items():
                 if key in ["rs_function", "rb_function"]:
-                    pamset_emiconc[key] = value
+                    pamset_carbon[key] = value
             self.ce_handler = ConcentrationsEmissionsHandler(
-                input_handler, pamset_emiconc
+                input_handler, pamset_emiconc, pamset_carbon
             )
             self.feedback_list = self.ce_handler.get_feedback_list()
         self.results = {}
-- 
2.43.0


From c3105e028a2152f67e4adc7e4597ba1c5a1e8338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:40 +0000
Subject: [PATCH 05/42] fix: honour the rf_volc_file and rf_volc_data options

The keys were cut from the configuration before they were looked up.
---
 src/ciceroscm/input_handler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ciceroscm/input_handler.py b/src/ciceroscm/input_handler.py
index 40cbc3d..a98783c 100644
--- a/src/ciceroscm/input_handler.py
+++ b/src/ciceroscm/input_handler.py
@@ -278,6 +278,8 @@ class InputHandler:
         for key in self.read_methods:
             used[f"{key}_file"] = 0
             used[f"{key}_data"] = 0
+        used["rf_volc_file"] = 0
+        used["rf_volc_data"] = 0
         self.cfg = cut_and_check_pamset(
             {
                 "nystart": 1750,
-- 
2.43.0


From 85945737e7331792c940ec64da2ccef79770ca1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:40 +0000
Subject: [PATCH 06/42] fix: total forcing of a hemispherically split forcing
 file is the mean for each year

The mean was taken over years, which gave nan for every year.
---
 src/ciceroscm/input_handler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/input_handler.py b/src/ciceroscm/input_handler.py
index a98783c..cad0318 100644
--- a/src/ciceroscm/input_handler.py
+++ b/src/ciceroscm/input_handler.py
@@ -174,7 +174,9 @@ def read_forc(forc_file):
         df_forc = pd.read_csv(forc_file, index_col=0)
         if "total" not in df_forc.columns:
             if "FORC_NH" in df_forc.columns and "FORC_SH" in df_forc.columns:
-                df_forc["total"] = df_forc[["FORC_NH", "FORC_SH"]].mean()
+                df_forc["total"] = df_forc[["FORC_NH", "FORC_SH"]].mean(
+                    axis=1
+                )
             else:
                 df_forc["total"] = df_forc[list(df_forc)].sum(axis=1)
                 df_forc["FORC_NH"] = df_forc["total"]
-- 
2.43.0


From 655b2b4ec98b3035631dbcd646d7af890964865f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:19 +0000
Subject: [PATCH 07/42] fix: back calculation of emissions starts from the
 preindustrial state

The scalar state left by an earlier calculation was used in the first timestep.
---
 src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py b/src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py
index a75f473..f54c45b 100644
--- a/src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py
+++ b/src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py
@@ -329,6 +329,8 @@ class AbstractCarbonCycleModel(ABC):
             Timeseries of estimated emissions to match the concentration and
             temperature timeseries sent
         """
+        # The series starts in year 0, so start from the preindustrial state
+        self._set_co2_hold()
         prev_co2_conc = self.get_preindustrial_co2_conc()
         em_series = np.zeros(len(co2_conc_series))
         if feedback_dict_series is None:
-- 
2.43.0


From 5eafc348d43355cba1ed184bc81524536ccd560a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:19 +0000
Subject: [PATCH 08/42] fix: write output files for thermal models without
 hemispheric output

Writing to file with the two-layer model raised a KeyError.
---
 src/ciceroscm/ciceroscm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ciceroscm/ciceroscm.py b/src/ciceroscm/ciceroscm.py
index f6e7e88..b5a399c 100644
--- a/src/ciceroscm/ciceroscm.py
+++ b/src/ciceroscm/ciceroscm.py
@@ -368,6 +368,8 @@ class CICEROSCM:
         list_rib = ["RIB_glob", "RIB_N", "RIB_S"]
         df_rib = pd.DataFrame(data={"Year": indices})
         for vari in list_rib:
+            if vari not in self.results:
+                continue
             df_rib[vari] = self.results[vari]
         list_temp = [
             "dT_glob",
@@ -386,6 +388,8 @@ class CICEROSCM:
         else:
             filename_start = "output"
         for vari in list_temp:
+            if vari not in self.results:
+                continue
             df_temp[vari] = self.results[vari]
 
         df_ohc.to_csv(
-- 
2.43.0


From 1cba48a5ee97ae55424d6b5724e8fdd6fa0f9982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:19 +0000
Subject: [PATCH 09/42] fix: two-layer model uses the mean of the hemispheric
 volcanic forcings

For arrays the sum of the hemispheres was used, which doubled volcanic forcing compared to the reported one and to the upwelling diffusion model.
---
 src/ciceroscm/thermal_model/two_layer_ocean.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/thermal_model/two_layer_ocean.py b/src/ciceroscm/thermal_model/two_layer_ocean.py
index 683d1ce..b02877e 100644
--- a/src/ciceroscm/thermal_model/two_layer_ocean.py
+++ b/src/ciceroscm/thermal_model/two_layer_ocean.py
@@ -144,7 +144,9 @@ class TwoLayerOceanModel(
               hemisphere-specific)
             - OHCTOT/OHC_MIXED/OHC_DEEP/OHC700: Ocean heat content diagnostics
         """
-        forc = (forc_nh + forc_sh) / 2 + np.mean(fn_volc + fs_volc)
+        forc = (forc_nh + forc_sh) / 2 + (
+            np.mean(fn_volc) + np.mean(fs_volc)
+        ) / 2
 
         # Fast layer temperature change
         dtemp_fast = (
-- 
2.43.0


From 1246a2f008585c1831d09d8d0bd43e560579a535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:19 +0000
Subject: [PATCH 10/42] fix: results of serially processed jobs come in the
 order of the configurations

---
 src/ciceroscm/parallel/_parallel_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/parallel/_parallel_process.py b/src/ciceroscm/parallel/_parallel_process.py
index be9a4f7..3a1ddf8 100644
--- a/src/ciceroscm/parallel/_parallel_process.py
+++ b/src/ciceroscm/parallel/_parallel_process.py
@@ -165,7 +165,7 @@ def _parallel_process(  # pylint:disable=too-many-arguments,too-many-positional-
             desc="Serial runs",
         )
 
-        return rest + front_serial_res
+        return front_serial_res + rest
 
     front_parallel_res = []
     if front_parallel > 0:
-- 
2.43.0


From f106ba87e02cfa255bf5de2de114dd23838e1715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:19 +0000
Subject: [PATCH 11/42] fix: keep the meta information read with the
 configurations when writing them back

---
 src/ciceroscm/parallel/distributionrun.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/parallel/distributionrun.py b/src/ciceroscm/parallel/distributionrun.py
index 0cdb749..79c7aa3 100644
--- a/src/ciceroscm/parallel/distributionrun.py
+++ b/src/ciceroscm/parallel/distributionrun.py
@@ -89,7 +89,9 @@ class DistributionRun:
         meta_info: dict, optional
             dictionary with meta optional information to add to the json file
         """
-        if meta_info is None and self.meta_info is None:
+        if meta_info is None:
+            meta_info = self.meta_info
+        if meta_info is None:
             with open(json_file_name, "w", encoding="utf-8") as wfile:
                 json.dump(self.cfgs, wfile)
         else:
-- 
2.43.0


From 83c78169fc3ef99bfada3768fd52788961018856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:19 +0000
Subject: [PATCH 12/42] fix: carbon_cycle_outputs set to False leaves out
 carbon cycle outputs

The value of the option was ignored, and emission variables could not be read without carbon cycle outputs.
---
 src/ciceroscm/concentrations_emissions_handler.py      | 4 ++--
 src/ciceroscm/formattingtools/reformat_cscm_results.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index 6dd629e..789c78d 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -949,7 +949,7 @@ class ConcentrationsEmissionsHandler:
                 "conc", results_dict["concentrations"], outdir, self.df_gas["CONC_UNIT"]
             )
 
-        if "carbon_cycle_outputs" in cfg:
+        if cfg.get("carbon_cycle_outputs"):
             # Adding carbon cycle outputs here
             # Typically back_calculated emissions for conc_run
             # Airborne fraction
@@ -1022,7 +1022,7 @@ class ConcentrationsEmissionsHandler:
         results["concentrations"] = df_conc
         results["forcing"] = df_forc
 
-        if "carbon_cycle_outputs" in cfg:
+        if cfg.get("carbon_cycle_outputs"):
             results["carbon cycle"] = self.get_carbon_cycle_data(
                 feedback_dict_series=feedback_dict_series
             )
diff --git a/src/ciceroscm/formattingtools/reformat_cscm_results.py b/src/ciceroscm/formattingtools/reformat_cscm_results.py
index 6760bd8..efa197c 100644
--- a/src/ciceroscm/formattingtools/reformat_cscm_results.py
+++ b/src/ciceroscm/formattingtools/reformat_cscm_results.py
@@ -218,7 +218,7 @@ def get_data_from_em(results, variable):
     df_temp = results["emissions"]
     years = df_temp.Year[:]
     # If concentrations run, CO2 emissions should be taken from carbon cycle back calculation
-    if "Emissions" in results["carbon cycle"].keys() and variable == "CO2":
+    if "Emissions" in results.get("carbon cycle", {}).keys() and variable == "CO2":
         timeseries = results["carbon cycle"][
             "Emissions"
         ].to_numpy()  # pylint:disable=unsubscriptable-object
-- 
2.43.0


From ecb86536daeade27502f215acedd5ab40bcf7b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:19 +0000
Subject: [PATCH 13/42] fix: treat forcing perturbations alike for all
 components

For precalculated gases only the last of several perturbations in a year counted, and perturbations outside the run raised a KeyError.
---
 src/ciceroscm/perturbations.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ciceroscm/perturbations.py b/src/ciceroscm/perturbations.py
index e8bf566..39a7900 100644
--- a/src/ciceroscm/perturbations.py
+++ b/src/ciceroscm/perturbations.py
@@ -221,8 +221,7 @@ class ForcingPerturbation:
             return
         for gas in precalc_pert_gases:
             perturb_here = self.perturb_raw[self.perturb_raw.component == gas]
-            precalc_erf.loc[perturb_here.year.values, gas] = (
-                precalc_erf.loc[perturb_here.year.values, gas].values
-                + perturb_here.forcing.values
-            )
+            for row in perturb_here.itertuples(index=False):
+                if row.year in precalc_erf.index:
+                    precalc_erf.loc[row.year, gas] += row.forcing
         return
-- 
2.43.0


From 2df083af00eabfc6e98350707203a0d25d07fe03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:19 +0000
Subject: [PATCH 14/42] fix: aerosol forcing fraction includes forcing
 perturbations in both parts

The aerosol part was summed before perturbations were added and the total after, so the fraction could exceed one.
---
 src/ciceroscm/concentrations_emissions_handler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index 789c78d..e1bc938 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -637,7 +637,7 @@ class ConcentrationsEmissionsHandler:
         tot_forc, forc_nh, forc_sh = self.calculate_forc_three_main(yr)
         yr_0 = self.years[0]
         # Finish per tracer calculations, add per tracer to printable df and sum the total
-        f_aero_mag = 0.0
+        aerosols = []
         for tracer, forc_val_series in self.forc.items():
             if tracer in ["CO2", "N2O", "CH4"]:
                 continue
@@ -652,7 +652,7 @@ class ConcentrationsEmissionsHandler:
                 "BM",
             ]:
                 q = self.calc_aerosol_forcing(yr, tracer)
-                f_aero_mag = f_aero_mag + abs(q)
+                aerosols.append(tracer)
             elif (
                 tracer in self.df_gas.index
                 and self.df_gas["ALPHA"][tracer] != 0  # pylint: disable=compare-to-zero
@@ -722,6 +722,7 @@ class ConcentrationsEmissionsHandler:
         f_abs_total = sum(
             abs(s[idx]) for k, s in self.forc.items() if k != "Total_forcing"
         )
+        f_aero_mag = sum(abs(self.forc[tracer][idx]) for tracer in aerosols)
         w_aero = f_aero_mag / f_abs_total if f_abs_total > 0 else 0.0
 
         return tot_forc, forc_nh, forc_sh, w_aero
-- 
2.43.0


From 1b51be08b745570d3403ee8b5fa21ded5aa4dff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:19 +0000
Subject: [PATCH 15/42] fix: accept emissions data that starts before the run

Only years after the run were cut when collecting results, so such data raised a ValueError.
---
 src/ciceroscm/concentrations_emissions_handler.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index e1bc938..b16629d 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -997,9 +997,7 @@ class ConcentrationsEmissionsHandler:
         cols = cols[-1:] + cols[:-1]
         df_forc = df_forc[cols]
         df_forc.rename(columns={"SO2": "SO4_DIR"}, inplace=True)
-        df_emis = self.emis.drop(labels=["CO2_FF", "CO2_AFOLU"], axis=1).drop(
-            labels=np.arange(self.years[-1] + 1, self.emis.index[-1] + 1), axis=0
-        )
+        df_emis = self.emis.drop(labels=["CO2_FF", "CO2_AFOLU"], axis=1).loc[self.years]
         df_emis["Year"] = self.years
         df_emis["CO2"] = self.emis["CO2_FF"] + self.emis["CO2_AFOLU"]
         cols = df_emis.columns.tolist()
-- 
2.43.0


From cb3c7eb6f926cc8708d28556d5281071042fad93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:19 +0000
Subject: [PATCH 16/42] fix: numpy integers and single precision numbers are
 numeric parameter values

They were silently replaced by defaults.
---
 src/ciceroscm/_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/_utils.py b/src/ciceroscm/_utils.py
index 36080a6..45542c0 100644
--- a/src/ciceroscm/_utils.py
+++ b/src/ciceroscm/_utils.py
@@ -3,6 +3,7 @@ Class for common utility functions
 """
 
 import logging
+import numbers
 
 LOGGER = logging.getLogger(__name__)
 
@@ -35,7 +36,7 @@ def check_numeric_pamset(required, pamset):
                 f"Parameter {pam} not in pamset. Using default value {value}",
             )
             pamset[pam] = value
-        elif not isinstance(pamset[pam], int) and not isinstance(pamset[pam], float):
+        elif not isinstance(pamset[pam], numbers.Real):
             LOGGER.info(  # pylint: disable=logging-fstring-interpolation
                 f"Parameter {pam} must be a number. Using default value {value}",
             )
@@ -142,7 +143,7 @@ def update_pam_if_numeric(pamset_old, pamset_new, can_change):
                 f"{key} is not a valid parameter to update this version of the Carbon cycle",
             )
             continue
-        if not isinstance(value, int) and not isinstance(value, float):
+        if not isinstance(value, numbers.Real):
             LOGGER.info(  # pylint: disable=logging-fstring-interpolation
                 f"Parameter {key} must be a number. {value} will be ignored",
             )
-- 
2.43.0


From 07d2fa63e13ed9c9a5561ff8aaf1b4cd18785b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:20 +0000
Subject: [PATCH 17/42] fix: set values of carbon decay function parameters go
 to the carbon cycle parameter set

---
 src/ciceroscm/parallel/_configdistro.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/parallel/_configdistro.py b/src/ciceroscm/parallel/_configdistro.py
index fb91c0d..b6919b4 100644
--- a/src/ciceroscm/parallel/_configdistro.py
+++ b/src/ciceroscm/parallel/_configdistro.py
@@ -200,7 +200,9 @@ class _ConfigDistro:
         for pam, value in self.setvalues.items():
             if pam in ordering_standard_forc:
                 self.pamset_udm_start[pam] = value
-            elif pam in CARBON_CYCLE_MODEL_REQUIRED_PAMSET:
+            elif pam in CARBON_CYCLE_MODEL_REQUIRED_PAMSET or pam.startswith(
+                ("rb_", "rs_")
+            ):
                 self.pamset_carbon_start[pam] = value
             else:
                 self.pamset_emiconc_start[pam] = value
-- 
2.43.0


From f6388dc00c705ab777797f2b525b215da434d4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:20 +0000
Subject: [PATCH 18/42] fix: aerosol forcing sums include all their components

Selecting components by name only found the direct sulfate effect.
---
 .../formattingtools/reformat_cscm_results.py          | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ciceroscm/formattingtools/reformat_cscm_results.py b/src/ciceroscm/formattingtools/reformat_cscm_results.py
index efa197c..8e36796 100644
--- a/src/ciceroscm/formattingtools/reformat_cscm_results.py
+++ b/src/ciceroscm/formattingtools/reformat_cscm_results.py
@@ -44,7 +44,10 @@ openscm_to_cscm_dict = {
     "Atmospheric Concentrations|N2O": "N2O",
     "Atmospheric Concentrations|Ozone|Tropospheric'": "TROP_O3",
 }
-forc_sums = ["Aerosols", "Aerosols|Direct Effect"]
+forc_sums = {
+    "Aerosols": ["SO4_DIR", "SO4_IND", "BC", "OC"],
+    "Aerosols|Direct Effect": ["SO4_DIR", "BC", "OC"],
+}
 fgas_list = [
     "HFC125",
     "HFC134a",
@@ -177,9 +180,9 @@ def get_data_from_forc_common(
     years = df_temp.Year[:]
     if variable in forc_sums:
         timeseries = np.zeros(len(years))
-        for comp, value in v_dict.items():
-            if variable in comp and value not in forc_sums:
-                timeseries = timeseries + df_temp[value].to_numpy()
+        for comp in forc_sums[variable]:
+            if comp in df_temp.columns:
+                timeseries = timeseries + df_temp[comp].to_numpy()
     elif variable in ("Fgas", "GHG"):
         timeseries = np.zeros(len(years))
         for comp in fgas_list:
-- 
2.43.0


From 902c58ecc4069150e59cf8603358b8c9cd952b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:59 +0000
Subject: [PATCH 19/42] fix: results for a configuration do not depend on which
 others share its batch

Carbon cycle parameters set by one configuration stayed in place for later configurations of the batch that did not set them.
---
 src/ciceroscm/parallel/cscmparwrapper.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/parallel/cscmparwrapper.py b/src/ciceroscm/parallel/cscmparwrapper.py
index f7a6073..c7cb4e8 100644
--- a/src/ciceroscm/parallel/cscmparwrapper.py
+++ b/src/ciceroscm/parallel/cscmparwrapper.py
@@ -2,6 +2,7 @@
 Module for running CICEROSCM in parallel
 """
 
+import copy
 import logging
 from concurrent.futures import ProcessPoolExecutor
 from itertools import product
@@ -188,7 +189,10 @@ class CSCMParWrapper:  # pylint: disable=too-few-public-methods
         """
         runs = []
         for pamset in cfgs:
-            self.cscm._run(  # pylint: disable=protected-access
+            # Start every configuration from the same state, as the carbon
+            # cycle keeps parameters from one run of an instance to the next
+            cscm = copy.deepcopy(self.cscm)
+            cscm._run(  # pylint: disable=protected-access
                 {"results_as_dict": True, "carbon_cycle_outputs": carbon_cycle_outputs},
                 pamset_udm=pamset.get("pamset_udm", None),
                 pamset_emiconc=pamset.get("pamset_emiconc", None),
@@ -200,7 +204,7 @@ class CSCMParWrapper:  # pylint: disable=too-few-public-methods
                     timeseries,
                     unit,
                 ) = self.resultsreader.get_variable_timeseries(
-                    self.cscm.results, variable, self.sdatagetter
+                    cscm.results, variable, self.sdatagetter
                 )
                 if isinstance(years, pd.DataFrame) and years.empty:  # pragma: no cover
                     continue  # pragma: no cover
-- 
2.43.0


From 8b2168bac3945b980f37757abedbc79bd2f65ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:33 +0000
Subject: [PATCH 20/42] fix: route all thermal model parameters of a
 distribution to the thermal model

Ocean fractions, interhemispheric exchange and the two-layer parameters went to the emissions and concentrations parameter set, which ignores them.
---
 src/ciceroscm/parallel/_configdistro.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ciceroscm/parallel/_configdistro.py b/src/ciceroscm/parallel/_configdistro.py
index b6919b4..b71fb0c 100644
--- a/src/ciceroscm/parallel/_configdistro.py
+++ b/src/ciceroscm/parallel/_configdistro.py
@@ -83,6 +83,11 @@ ordering_standard_forc = [
     "threstemp",
     "lm",
     "ldtime",
+    "foan",
+    "foas",
+    "ebbeta",
+    "deep",
+    "k",
 ]
 """list: Containing a default ordering of parameters for forcing run"""
 
-- 
2.43.0


From b7b5a43ba7d6cb2ce913b2f5e86b26d5e8bcc79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:33 +0000
Subject: [PATCH 21/42] fix: route box carbon cycle parameters of a
 distribution to the carbon cycle parameter set

---
 src/ciceroscm/parallel/_configdistro.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ciceroscm/parallel/_configdistro.py b/src/ciceroscm/parallel/_configdistro.py
index b71fb0c..ac95523 100644
--- a/src/ciceroscm/parallel/_configdistro.py
+++ b/src/ciceroscm/parallel/_configdistro.py
@@ -9,9 +9,15 @@ import numpy as np
 from scipy.stats import qmc
 
 from ..carbon_cycle.carbon_cycle_mod import CARBON_CYCLE_MODEL_REQUIRED_PAMSET
+from ..carbon_cycle.carbon_cycle_mod_box import CarbonCycleModel as BoxCarbonCycleModel
 
 LOGGER = logging.getLogger(__name__)
 
+CARBON_PARAMETERS = {
+    *CARBON_CYCLE_MODEL_REQUIRED_PAMSET,
+    *BoxCarbonCycleModel.get_carbon_cycle_required_pamset(),
+}
+
 # TODO: sensible standard priors for q-terms
 prior_flat = {
     "rlamdo": [5, 25],
@@ -205,7 +211,7 @@ class _ConfigDistro:
         for pam, value in self.setvalues.items():
             if pam in ordering_standard_forc:
                 self.pamset_udm_start[pam] = value
-            elif pam in CARBON_CYCLE_MODEL_REQUIRED_PAMSET or pam.startswith(
+            elif pam in CARBON_PARAMETERS or pam.startswith(
                 ("rb_", "rs_")
             ):
                 self.pamset_carbon_start[pam] = value
@@ -361,10 +367,7 @@ class _ConfigDistro:
             for j, pam in enumerate(self.ordering):
                 if pam in ordering_standard_forc:
                     pamset_udm[pam] = samples[i, j]
-                elif (
-                    not self.options["forc"]
-                    and pam in CARBON_CYCLE_MODEL_REQUIRED_PAMSET
-                ):
+                elif not self.options["forc"] and pam in CARBON_PARAMETERS:
                     pamset_carbon[pam] = samples[i, j]
                 elif not self.options["forc"] and pam.startswith(("rb_", "rs_")):
                     pamset_carbon[pam] = samples[i, j]
-- 
2.43.0


From 5c2cefe85b9e6da777b39671e7ba050872072c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:44 +0000
Subject: [PATCH 22/42] fix: emissions drive precalculated gases when emissions
 start in the last year of the run

---
 src/ciceroscm/concentrations_emissions_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index b16629d..f516e59 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -280,7 +280,7 @@ class ConcentrationsEmissionsHandler:
 
     def _precalculate_concentrations_vanilla_gases(self, df_gases_vanilla):
         conc_in_vanilla = self.conc_in.copy()[df_gases_vanilla.index]
-        if self.pamset["conc_run"] or self.pamset["nyend"] <= self.pamset["emstart"]:
+        if self.pamset["conc_run"] or self.pamset["nyend"] < self.pamset["emstart"]:
             return conc_in_vanilla.iloc[
                 self.pamset["nystart"]
                 - conc_in_vanilla.index[0] : self.pamset["nyend"]
-- 
2.43.0


From 85bb05450652c35643a18a3f7d30c231027b3414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:08 +0000
Subject: [PATCH 23/42] fix: emissions starting before or with the run drive
 precalculated gases from its first year

---
 src/ciceroscm/concentrations_emissions_handler.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index f516e59..030187c 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -288,15 +288,18 @@ class ConcentrationsEmissionsHandler:
                 + 1
             ]
 
+        # Emissions drive the whole run if they start before it does
+        emstart = max(self.pamset["emstart"], self.pamset["nystart"])
+        conc_start = conc_in_vanilla.loc[max(emstart - 1, self.pamset["nystart"])]
         conc_in_vanilla = conc_in_vanilla.iloc[
             self.pamset["nystart"]
-            - conc_in_vanilla.index[0] : self.pamset["emstart"]
+            - conc_in_vanilla.index[0] : emstart
             - conc_in_vanilla.index[0]
         ]
 
         emis_vanilla = self.emis.copy()[df_gases_vanilla.index]
         emis_vanilla = emis_vanilla.iloc[
-            self.pamset["emstart"]
+            emstart
             - emis_vanilla.index[0] : self.pamset["nyend"]
             - emis_vanilla.index[0]
             + 1
@@ -307,7 +310,7 @@ class ConcentrationsEmissionsHandler:
         for i in range(emis.shape[0]):
             emis_now = emis[i, :]
             if i == 0:
-                conc_prev = conc_in_vanilla.iloc[-1, :].to_numpy()
+                conc_prev = conc_start.to_numpy()
             else:
                 conc_prev = conc_rows[-1]
             conc = emis_now / df_gases_vanilla["BETA"].to_numpy() / q * (
-- 
2.43.0


From 7f6aa5ee86d81f2e126000b1772b30a5ffb62705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:45 +0000
Subject: [PATCH 24/42] fix: do not count a given w_aero column as a forcing
 component

---
 src/ciceroscm/input_handler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/input_handler.py b/src/ciceroscm/input_handler.py
index cad0318..4b3bad1 100644
--- a/src/ciceroscm/input_handler.py
+++ b/src/ciceroscm/input_handler.py
@@ -178,7 +178,10 @@ def read_forc(forc_file):
                     axis=1
                 )
             else:
-                df_forc["total"] = df_forc[list(df_forc)].sum(axis=1)
+                # w_aero is a share, not a forcing component
+                df_forc["total"] = df_forc.drop(columns="w_aero", errors="ignore").sum(
+                    axis=1
+                )
                 df_forc["FORC_NH"] = df_forc["total"]
                 df_forc["FORC_SH"] = df_forc["total"]
 
-- 
2.43.0


From dfe3dd951dc490c2404b9c5db91c0160780a6c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:28 +0000
Subject: [PATCH 25/42] fix: just_one works for gases whose forcing is
 precalculated

just_one is documented for any component, but for STRAT_O3 and the gases with
precalculated forcing the run ended in a KeyError.
---
 src/ciceroscm/concentrations_emissions_handler.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index 030187c..a4ee37f 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -708,10 +708,12 @@ class ConcentrationsEmissionsHandler:
         # Adding solar forcing
         # tot_forc = tot_forc + rf_sun
         if "just_one" in self.pamset:
-            tot_forc = self.forc[self.pamset["just_one"]][yr - yr_0]
-            forc_nh, forc_sh = calculate_hemispheric_forcing(
-                self.pamset["just_one"], tot_forc, 0, 0
-            )
+            just_one = self.pamset["just_one"]
+            if just_one in self.forc:
+                tot_forc = self.forc[just_one][yr - yr_0]
+            else:
+                tot_forc = self.precalc_dict["precalc_erf"][just_one][yr]
+            forc_nh, forc_sh = calculate_hemispheric_forcing(just_one, tot_forc, 0, 0)
         self.forc["Total_forcing"][yr - yr_0] = tot_forc
         forc_nh = forc_nh + rf_sun
         forc_sh = forc_sh + rf_sun
-- 
2.43.0


From f613bf859bfc44072e2e97752d7703b2a7282668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:16 +0000
Subject: [PATCH 26/42] fix: ignore solar and volcanic files when sunvolc is
 not 1

The documentation says that solar and volcanic options are ignored unless
sunvolc is 1, but files given for them were read and used, as only the
data was replaced by zeros and files take precedence.
---
 src/ciceroscm/input_handler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ciceroscm/input_handler.py b/src/ciceroscm/input_handler.py
index 4b3bad1..3de3585 100644
--- a/src/ciceroscm/input_handler.py
+++ b/src/ciceroscm/input_handler.py
@@ -435,6 +435,9 @@ class InputHandler:
                 self.cfg["rf_volc_n_data"] = self.cfg["rf_volc_data"]
                 self.cfg["rf_volc_s_data"] = self.cfg["rf_volc_data"]
         else:
+            # No solar or volcanic forcing, also if files were given
+            for what in ["rf_sun", "rf_volc_n", "rf_volc_s"]:
+                self.cfg.pop(f"{what}_file", None)
             indices = np.arange(self.cfg["nystart"], self.cfg["nyend"] + 1)
             self.cfg["rf_volc_n_data"] = pd.DataFrame(
                 data=np.zeros((self.cfg["nyend"] - self.cfg["nystart"] + 1, 12)),
-- 
2.43.0


From 6cfb554a3a0b6767c41244f496f3f925dc762670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:41 +0000
Subject: [PATCH 27/42] fix: emission units are the same for gas parameters
 given as file or as data

For data the species was missing from most units and underscores were
left in, so that rows of the results table carried units such as
'Tg / yr' for methane; tables without biomass burning rows ended in a
KeyError.
---
 .../reformat_inputdata_to_cscm_format.py      | 70 ++++++++++---------
 1 file changed, 38 insertions(+), 32 deletions(-)

diff --git a/src/ciceroscm/formattingtools/reformat_inputdata_to_cscm_format.py b/src/ciceroscm/formattingtools/reformat_inputdata_to_cscm_format.py
index ad24ddd..0ce4a3f 100644
--- a/src/ciceroscm/formattingtools/reformat_inputdata_to_cscm_format.py
+++ b/src/ciceroscm/formattingtools/reformat_inputdata_to_cscm_format.py
@@ -54,6 +54,37 @@ cicero_comp_dict = {
 # Halon1212, CH3Cl
 
 
+def get_emission_unit(component, unit):
+    """
+    Get the unit of the emissions of a component
+
+    Parameters
+    ----------
+    component : str
+        Name of the component
+    unit : str
+        Emission unit of the component in the gas parameter data
+
+    Returns
+    -------
+    str
+        Unit with the emitted species, per year
+    """
+    if component == "N2O" and unit == "Tg_N":
+        # in openscm-units, to get the mass of nitrogen, have
+        # to use the unit "Tg N2ON" (converting to "Tg N" just
+        # converts using the mass fraction of a single nitrogen
+        # atom, admittedly this isn't immediately obvious and
+        # arguably is a bug in openscm-units)
+        unit = "TgN2ON"
+    elif "_" in unit:
+        unit = unit.replace("_", "")
+    elif unit != "X":
+        comp_str = component.replace("-", "").replace("BMB_AEROS_", "")
+        unit = f"{unit}{comp_str}"
+    return f"{unit} / yr"
+
+
 class COMMONSFILEWRITER:  # pylint: disable=too-few-public-methods
     """
     Class to write scenariofiles:
@@ -85,22 +116,7 @@ class COMMONSFILEWRITER:  # pylint: disable=too-few-public-methods
                     continue
 
                 component = row[0]
-                unit = row[1]
-
-                if component == "N2O" and unit == "Tg_N":
-                    # in openscm-units, to get the mass of nitrogen, have
-                    # to use the unit "Tg N2ON" (converting to "Tg N" just
-                    # converts using the mass fraction of a single nitrogen
-                    # atom, admittedly this isn't immediately obvious and
-                    # arguably is a bug in openscm-units)
-                    unit = "TgN2ON"
-                elif "_" in unit:
-                    unit = unit.replace("_", "")
-                else:
-                    comp_str = component.replace("-", "").replace("BMB_AEROS_", "")
-                    unit = f"{unit}{comp_str}"
-
-                unit = f"{unit} / yr"
+                unit = get_emission_unit(component, row[1])
 
                 self.components.append(component)
                 self.units.append(unit)
@@ -114,22 +130,12 @@ class COMMONSFILEWRITER:  # pylint: disable=too-few-public-methods
         """
         Intialize units and compontets if pandas of gasfile is sent deal with units
         """
-        gasdata_mod = gasfile.copy()
-        # Might cause problems later, hopefully not
-        gasdata_mod.replace("Tg_N", "TgN2ON", inplace=True)
-        gasdata_mod["CONC_UNIT"] = gasdata_mod["CONC_UNIT"].replace("_", "")
-        # Not very robuste...:
-        gasdata_mod.loc["BMB_AEROS_OC", "EM_UNIT"] = gasdata_mod["EM_UNIT"][
-            "BMB_AEROS_OC"
-        ].replace("Tg", "TgOC")
-        gasdata_mod.loc["BMB_AEROS_BC", "EM_UNIT"] = gasdata_mod["EM_UNIT"][
-            "BMB_AEROS_BC"
-        ].replace("Tg", "TgBC")
-        self.components = gasdata_mod.index.values.tolist()
-        units = gasdata_mod["EM_UNIT"].values.tolist()
-        self.concunits = gasdata_mod["CONC_UNIT"].values.tolist()
-
-        self.units = [f"{unit} / yr" for unit in units]
+        self.components = gasfile.index.values.tolist()
+        self.units = [
+            get_emission_unit(component, unit)
+            for component, unit in gasfile["EM_UNIT"].items()
+        ]
+        self.concunits = gasfile["CONC_UNIT"].values.tolist()
         self.components.insert(1, "CO2_lu")
         self.units.insert(1, "PgC / yr")
         self.concunits.insert(1, "ppm")
-- 
2.43.0


From a737a04b7c6f557ab36aa417de5dcac50865412c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:45 +0000
Subject: [PATCH 28/42] fix: a scenario without any of the output variables
 does not end a parallel run

Concatenating no rows raised a ValueError, which lost the results of all
other scenarios as well.
---
 src/ciceroscm/parallel/cscmparwrapper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ciceroscm/parallel/cscmparwrapper.py b/src/ciceroscm/parallel/cscmparwrapper.py
index c7cb4e8..891a631 100644
--- a/src/ciceroscm/parallel/cscmparwrapper.py
+++ b/src/ciceroscm/parallel/cscmparwrapper.py
@@ -233,4 +233,7 @@ class CSCMParWrapper:  # pylint: disable=too-few-public-methods
                 ]
                 index.extend(years)
                 runs.append(pd.Series(data=data, index=index))
+        if not runs:
+            # None of the variables are available for this scenario
+            return pd.DataFrame()
         return pd.concat(runs, axis=1).transpose()
-- 
2.43.0


From 148be632af9a02de156e70f80a927325877e4526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:59 +0000
Subject: [PATCH 29/42] fix: latin hypercube configurations when every
 parameter has a set value

---
 src/ciceroscm/parallel/_configdistro.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ciceroscm/parallel/_configdistro.py b/src/ciceroscm/parallel/_configdistro.py
index ac95523..ef06e3c 100644
--- a/src/ciceroscm/parallel/_configdistro.py
+++ b/src/ciceroscm/parallel/_configdistro.py
@@ -233,6 +233,8 @@ class _ConfigDistro:
              latin hypercube of numvalues samples in the intervals
              given by the prior
         """
+        if not self.ordering:
+            return np.zeros((numvalues, 0))
         sampler = qmc.LatinHypercube(d=len(self.ordering))
         samples_unit = sampler.random(n=numvalues)
         print(self.prior[:, 0])
-- 
2.43.0


From 4d8e38c0c6cb5e8f597311093bb677213f30df5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:59 +0000
Subject: [PATCH 30/42] fix: chunks of configurations get a file each whatever
 the file is called

---
 src/ciceroscm/parallel/_configdistro.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/parallel/_configdistro.py b/src/ciceroscm/parallel/_configdistro.py
index ef06e3c..2003828 100644
--- a/src/ciceroscm/parallel/_configdistro.py
+++ b/src/ciceroscm/parallel/_configdistro.py
@@ -4,6 +4,7 @@ Module to make parameter distributions
 
 import json
 import logging
+import os
 
 import numpy as np
 from scipy.stats import qmc
@@ -324,7 +325,8 @@ class _ConfigDistro:
             start_num = config_num * max_chunk_size
             json_fname_now = None
             if json_fname is not None:
-                json_fname_now = json_fname.replace(".json", f"chunk_{config_num}.json")
+                root, extension = os.path.splitext(json_fname)
+                json_fname_now = f"{root}chunk_{config_num}{extension}"
             config_chunk_list[config_num] = self.make_single_config_list(
                 samples[start_num : start_num + num_this_chunk],
                 numvalues=num_this_chunk,
-- 
2.43.0


From 3aff320705bcf5e6c5d5227b1147722fe5d48c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:53 +0000
Subject: [PATCH 31/42] fix: plots for thermal models without hemispheric
 output

---
 src/ciceroscm/make_plots.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/make_plots.py b/src/ciceroscm/make_plots.py
index 00ad9a6..87c7080 100644
--- a/src/ciceroscm/make_plots.py
+++ b/src/ciceroscm/make_plots.py
@@ -77,8 +77,9 @@ def plot_output1(pamset, results, nystart, nyend):
     fig, axs = plt.subplots(nrows=1, ncols=2, sharex=True, figsize=(12, 6))
     axs[0].plot(indices, results["RIB_glob"], label="RIB_glob")
     axs[1].plot(indices, results["RIB_glob"], label="RIB_glob")
-    axs[1].plot(indices, results["RIB_N"], label="RIB_N", linestyle=":")
-    axs[1].plot(indices, results["RIB_S"], label="RIB_S", linestyle="--")
+    for comp, linestyle in (("RIB_N", ":"), ("RIB_S", "--")):
+        if comp in results:
+            axs[1].plot(indices, results[comp], label=comp, linestyle=linestyle)
     fix_plot(
         axs,
         [r"W $\mathrm{m}^{-2}$", r"W $\mathrm{m}^{-2}$"],
@@ -90,6 +91,8 @@ def plot_output1(pamset, results, nystart, nyend):
     fig, axs = plt.subplots(nrows=1, ncols=2, sharex=True, figsize=(14, 6))
 
     for comp in ["dT_glob", "dT_glob_air", "dT_glob_sea"]:
+        if comp not in results:
+            continue
         colours = {"glob": "tab:green", "air": "tab:orange", "sea": "tab:blue"}
         axs[0].plot(
             indices,
@@ -105,6 +108,8 @@ def plot_output1(pamset, results, nystart, nyend):
         "dT_SH_air",
         "dT_SHsea",
     ]:
+        if comp not in results:
+            continue
         if "NH" in comp:
             colours = {"NH": "tab:green", "air": "tab:orange", "sea": "tab:blue"}
             axs[1].plot(
-- 
2.43.0


From 999d272f45b0ddcd7f62686cab1d95fabf62b3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:20 +0000
Subject: [PATCH 32/42] fix: plots when the last figure has a single row

---
 src/ciceroscm/make_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/make_plots.py b/src/ciceroscm/make_plots.py
index 87c7080..c84ac1c 100644
--- a/src/ciceroscm/make_plots.py
+++ b/src/ciceroscm/make_plots.py
@@ -182,7 +182,7 @@ def plot_output2(
             if c == 32:
                 maxrows = int(np.ceil((len(comps) - 32) / 4))
             fig, axs = plt.subplots(
-                nrows=maxrows, ncols=4, sharex=True, figsize=(15, 10)
+                nrows=maxrows, ncols=4, sharex=True, squeeze=False, figsize=(15, 10)
             )
             if var == "forc":
                 title = (
-- 
2.43.0


From 38cb37500a27b027845be3ff36f84072b550c41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:54 +0000
Subject: [PATCH 33/42] fix: check units of files also when emissions lack some
 species of the gas table

---
 src/ciceroscm/input_handler.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ciceroscm/input_handler.py b/src/ciceroscm/input_handler.py
index 3de3585..5339c3f 100644
--- a/src/ciceroscm/input_handler.py
+++ b/src/ciceroscm/input_handler.py
@@ -339,18 +339,19 @@ class InputHandler:
                 em_header = pd.read_csv(
                     self.cfg["emissions_file"], sep=r"\s+", index_col=0, nrows=1
                 ).drop(columns=["CO2.1"])
-                if not set(df_gas.index).issubset(set(em_header.columns)):
+                missing = set(df_gas.index) - set(em_header.columns)
+                if missing:
                     LOGGER.warning(
                         "The emissions dataset does not contain emissions for all gaspam specied"
                     )
                     LOGGER.info(  # pylint: disable=logging-fstring-interpolation
-                        f"Missing species {set(df_gas.index) - set(em_header.columns)}"
+                        f"Missing species {missing}"
                     )
-                    return
-                em_header_check = em_header[df_gas.index]
+                df_gas_em = df_gas.drop(index=list(missing))
+                em_header_check = em_header[df_gas_em.index]
                 if (
                     em_header_check.loc["Unit", :].to_list()
-                    != df_gas["EM_UNIT"].to_list()
+                    != df_gas_em["EM_UNIT"].to_list()
                 ):
                     raise ValueError(
                         f"Emissions file {self.cfg['emissions_file']} has incompatible units to that of the chosen gaspam file \n Please use compatible emissions"
-- 
2.43.0


From 4cf987acac4c80ef895dce8446bb3486d30920ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:52 +0000
Subject: [PATCH 34/42] fix: refuse emission files with land use CO2 in another
 unit than the gas table's

---
 src/ciceroscm/input_handler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/input_handler.py b/src/ciceroscm/input_handler.py
index 5339c3f..c400b6f 100644
--- a/src/ciceroscm/input_handler.py
+++ b/src/ciceroscm/input_handler.py
@@ -338,7 +338,9 @@ class InputHandler:
             if "emissions_file" in self.cfg:
                 em_header = pd.read_csv(
                     self.cfg["emissions_file"], sep=r"\s+", index_col=0, nrows=1
-                ).drop(columns=["CO2.1"])
+                )
+                # CO2 from land use is in the unit of CO2
+                afolu_unit = em_header.pop("CO2.1")["Unit"]
                 missing = set(df_gas.index) - set(em_header.columns)
                 if missing:
                     LOGGER.warning(
@@ -352,6 +354,7 @@ class InputHandler:
                 if (
                     em_header_check.loc["Unit", :].to_list()
                     != df_gas_em["EM_UNIT"].to_list()
+                    or afolu_unit != df_gas.at["CO2", "EM_UNIT"]
                 ):
                     raise ValueError(
                         f"Emissions file {self.cfg['emissions_file']} has incompatible units to that of the chosen gaspam file \n Please use compatible emissions"
-- 
2.43.0


From bb243b569b0707dbef0e1628261cb73b979ecc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:32 +0000
Subject: [PATCH 35/42] fix: refuse response functions with a timescale of zero

---
 src/ciceroscm/pub_utils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/ciceroscm/pub_utils.py b/src/ciceroscm/pub_utils.py
index 23248a0..c21434e 100644
--- a/src/ciceroscm/pub_utils.py
+++ b/src/ciceroscm/pub_utils.py
@@ -89,10 +89,7 @@ def _check_array_consistency(coeffs, timescales, for_rs=False):
         raise ValueError(
             "Coefficient array length must be equal to exponent array length"
         )
-    if np.any(timescales < 0):
-        LOGGER.error("All timescales must be positive numbers")
-        raise ValueError("All timescales must be positive numbers")
-    if np.any(timescales < 0):
+    if np.any(timescales <= 0):
         LOGGER.error("All timescales must be positive numbers")
         raise ValueError("All timescales must be positive numbers")
     if np.any(coeffs < 0):
-- 
2.43.0


From aa752d4f86268fffa9fbbb617dccf6ed4468d97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:30 +0000
Subject: [PATCH 36/42] fix: a refused response function no longer leaves the
 carbon cycle without response functions

---
 src/ciceroscm/carbon_cycle/carbon_cycle_mod.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ciceroscm/carbon_cycle/carbon_cycle_mod.py b/src/ciceroscm/carbon_cycle/carbon_cycle_mod.py
index f95ad8f..8b5ad91 100644
--- a/src/ciceroscm/carbon_cycle/carbon_cycle_mod.py
+++ b/src/ciceroscm/carbon_cycle/carbon_cycle_mod.py
@@ -204,6 +204,14 @@ class CarbonCycleModel(AbstractCarbonCycleModel):
                 "rs_function" in pamset_carbon or "rb_function" in pamset_carbon
             )
 
+            # Check new functions before anything is changed
+            for key in ["rs_function", "rb_function"]:
+                if key in pamset_carbon:
+                    _check_array_consistency(
+                        pamset_carbon[key]["coeffs"],
+                        pamset_carbon[key]["timescales"],
+                        for_rs=key == "rs_function",
+                    )
             self.pamset = update_pam_if_numeric(
                 self.pamset,
                 pamset_new=pamset_carbon,
-- 
2.43.0


From d1ae416b11d154c7a1d3206b51d1222d4f8c28cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:20 +0000
Subject: [PATCH 37/42] fix: gas tables can hold isomers with names of more
 than one letter, like HCFC-225ca

---
 src/ciceroscm/pub_utils.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/ciceroscm/pub_utils.py b/src/ciceroscm/pub_utils.py
index c21434e..c12811b 100644
--- a/src/ciceroscm/pub_utils.py
+++ b/src/ciceroscm/pub_utils.py
@@ -114,11 +114,8 @@ def find_num_cl_in_hcfc(tracer):
     int
        Number of chlorine atoms in the compound
     """
-    numpart = tracer.split("-")[-1]
-    if not numpart[-1].isdigit():
-        numpart = int(numpart[:-1])
-    else:
-        numpart = int(numpart)
+    # Isomers are denoted by one or more trailing letters
+    numpart = int(tracer.split("-")[-1].rstrip("abcdefghijklmnopqrstuvwxyz"))
     double_bonds = numpart // 1000
     bonds_total = ((numpart % 1000) // 100) * 2 + 4
     hydrogen = (numpart % 100) // 10 - 1
-- 
2.43.0


From 39550bb99ee93a6ffce51317448de90ebfc5f6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:20 +0000
Subject: [PATCH 38/42] fix: count the bromine of compounds that contain
 chlorine as well

---
 src/ciceroscm/pub_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/pub_utils.py b/src/ciceroscm/pub_utils.py
index c12811b..2358714 100644
--- a/src/ciceroscm/pub_utils.py
+++ b/src/ciceroscm/pub_utils.py
@@ -157,7 +157,7 @@ def make_cl_and_br_dictionaries(gases_index):
                 chlor_dict[tracer] = int(tracer.split("Cl")[-1][0])
             else:
                 chlor_dict[tracer] = 1
-        elif "Br" in tracer:
+        if "Br" in tracer:
             if len(tracer.split("Br")[-1]) > 0 and tracer.split("Br")[-1][0].isdigit():
                 brom_dict[tracer] = int(tracer.split("Br")[-1][0])
             else:
-- 
2.43.0


From f518502fe7a5933730abccf63c3d1c050d5bd8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:48 +0000
Subject: [PATCH 39/42] fix: read a plain forcing file with a single year

---
 src/ciceroscm/input_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/input_handler.py b/src/ciceroscm/input_handler.py
index c400b6f..d389a62 100644
--- a/src/ciceroscm/input_handler.py
+++ b/src/ciceroscm/input_handler.py
@@ -168,7 +168,7 @@ def read_forc(forc_file):
         if first_line[:4].lower() == "year":
             components = True
     if not components:
-        df_forc = np.loadtxt(forc_file)
+        df_forc = np.loadtxt(forc_file, ndmin=1)
     else:
         # Decide on formatting for this
         df_forc = pd.read_csv(forc_file, index_col=0)
-- 
2.43.0


From aa3340959af9836b7aaefcf4793c388b98446386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:15 +0000
Subject: [PATCH 40/42] fix: parallel runs read gas tables separated by spaces,
 like single runs

---
 .../reformat_inputdata_to_cscm_format.py               | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ciceroscm/formattingtools/reformat_inputdata_to_cscm_format.py b/src/ciceroscm/formattingtools/reformat_inputdata_to_cscm_format.py
index 0ce4a3f..67f681f 100644
--- a/src/ciceroscm/formattingtools/reformat_inputdata_to_cscm_format.py
+++ b/src/ciceroscm/formattingtools/reformat_inputdata_to_cscm_format.py
@@ -4,7 +4,6 @@ Class will be inherited by subversions to get specific
 handling
 """
 
-import csv
 
 import numpy as np
 import pandas as pd
@@ -109,10 +108,11 @@ class COMMONSFILEWRITER:  # pylint: disable=too-few-public-methods
             self.initialize_units_comps_from_pd(gasfile)
             return
         with open(gasfile, "r", encoding="ascii") as txt_rcpfile:
-            gasreader = csv.reader(txt_rcpfile, delimiter="\t")
-            next(gasreader)
-            for row in gasreader:
-                if row[1] == "X":
+            next(txt_rcpfile)
+            for line in txt_rcpfile:
+                # Split as read_components does, which also skips empty lines
+                row = line.split()
+                if not row or row[1] == "X":
                     continue
 
                 component = row[0]
-- 
2.43.0


From 9e570c45818bdaf80f9790cc34f87f0c8d83d23e Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 22:29:48 +0000
Subject: [PATCH 41/42] fix: refuse runs that lack concentrations of N2O
 instead of using zero

---
 src/ciceroscm/concentrations_emissions_handler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index a4ee37f..be4f1fb 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -874,9 +874,10 @@ class ConcentrationsEmissionsHandler:
         for tracer, value_dict in self.conc.items():
             if avoid and tracer in avoid:
                 continue
-            if tracer in self.conc_in:
+            if tracer in self.conc_in or self.df_gas["CONC_UNIT"][tracer] != "-":
                 value_dict[yr] = self.conc_in[tracer][yr]
             else:
+                # Forcing calculated from emissions, should now only be TROP_O3
                 value_dict[yr] = 0
 
     def add_row_of_zeros_conc(self, yr):
-- 
2.43.0


From 19123f2c6a6bc76dba36b3b4226929e17b1f2dd4 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 22:32:50 +0000
Subject: [PATCH 42/42] fix: forcing files with a total column and no
 hemispheres can be used

---
 src/ciceroscm/input_handler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/input_handler.py b/src/ciceroscm/input_handler.py
index d389a62..7010e01 100644
--- a/src/ciceroscm/input_handler.py
+++ b/src/ciceroscm/input_handler.py
@@ -182,8 +182,9 @@ def read_forc(forc_file):
                 df_forc["total"] = df_forc.drop(columns="w_aero", errors="ignore").sum(
                     axis=1
                 )
-                df_forc["FORC_NH"] = df_forc["total"]
-                df_forc["FORC_SH"] = df_forc["total"]
+        if "FORC_NH" not in df_forc.columns or "FORC_SH" not in df_forc.columns:
+            df_forc["FORC_NH"] = df_forc["total"]
+            df_forc["FORC_SH"] = df_forc["total"]
 
         # Pattern-mediated feedback precomputation: when the
         # forcing file carries per-agent columns matching AEROSOL_TRACERS
-- 
2.43.0

