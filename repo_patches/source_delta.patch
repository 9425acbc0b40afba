From 89d3d63e81a0a0303819bb97c026c984bb53b160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:21 +0000
Subject: [PATCH 01/39] fix: total forcing of a hemispherically split forcing
 file is the mean per year

The mean was taken over years instead of over the two hemisphere columns,
which gave NaN as total forcing for every year.
---
 src/ciceroscm/input_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/input_handler.py b/src/ciceroscm/input_handler.py
index 40cbc3d..2b88f22 100644
--- a/src/ciceroscm/input_handler.py
+++ b/src/ciceroscm/input_handler.py
@@ -174,7 +174,7 @@ def read_forc(forc_file):
         df_forc = pd.read_csv(forc_file, index_col=0)
         if "total" not in df_forc.columns:
             if "FORC_NH" in df_forc.columns and "FORC_SH" in df_forc.columns:
-                df_forc["total"] = df_forc[["FORC_NH", "FORC_SH"]].mean()
+                df_forc["total"] = df_forc[["FORC_NH", "FORC_SH"]].mean(axis=1)
             else:
                 df_forc["total"] = df_forc[list(df_forc)].sum(axis=1)
                 df_forc["FORC_NH"] = df_forc["total"]
-- 
2.43.0


From 54f0ea8f3c60914473eb987023f318d27c33ad79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:21 +0000
Subject: [PATCH 02/39] fix: do not drop rf_volc_file and rf_volc_data from the
 configurations

The hemispherically symmetric volcanic forcing options were cut as unknown
before they were used, and the default volcanic data replaced them.
---
 src/ciceroscm/input_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/input_handler.py b/src/ciceroscm/input_handler.py
index 2b88f22..98f315b 100644
--- a/src/ciceroscm/input_handler.py
+++ b/src/ciceroscm/input_handler.py
@@ -275,7 +275,7 @@ class InputHandler:
             "conc_run": False,
             "idtm": 24,
         }
-        for key in self.read_methods:
+        for key in [*self.read_methods, "rf_volc"]:
             used[f"{key}_file"] = 0
             used[f"{key}_data"] = 0
         self.cfg = cut_and_check_pamset(
-- 
2.43.0


From 1c3a58dc96acc21830587024c4945bc64d454289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:21 +0000
Subject: [PATCH 03/39] fix: ignore solar and volcanic forcing files when
 sunvolc is not 1

---
 src/ciceroscm/input_handler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ciceroscm/input_handler.py b/src/ciceroscm/input_handler.py
index 98f315b..708eb5b 100644
--- a/src/ciceroscm/input_handler.py
+++ b/src/ciceroscm/input_handler.py
@@ -435,6 +435,9 @@ class InputHandler:
                 columns=range(12),
             )
             self.cfg["rf_volc_s_data"] = self.cfg["rf_volc_n_data"]
+            # Files would take precedence over these zeros
+            for key in ["rf_sun_file", "rf_volc_n_file", "rf_volc_s_file"]:
+                self.cfg.pop(key, None)
             self.cfg["rf_sun_data"] = pd.DataFrame(
                 data=np.zeros(self.cfg["nyend"] - self.cfg["nystart"] + 1),
                 index=indices,
-- 
2.43.0


From e3f8556c8539b08cd4fd2a0a6dde638bf92d6007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:21 +0000
Subject: [PATCH 04/39] fix: never modify input data objects sent by the user

Emission perturbations and natural emissions were written into the data
frames the user sent, so that a second instance made from the same data
was perturbed twice or got the natural emissions of the first one.
---
 src/ciceroscm/input_handler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/input_handler.py b/src/ciceroscm/input_handler.py
index 708eb5b..5473859 100644
--- a/src/ciceroscm/input_handler.py
+++ b/src/ciceroscm/input_handler.py
@@ -503,7 +503,8 @@ class InputHandler:
             return self.read_methods[f"{what}"](self.cfg[f"{what}_file"])
         if f"{what}_data" in self.cfg:
             # Sanity check of input data?
-            return self.cfg[f"{what}_data"]
+            # Return a copy so that the data of the user is never changed
+            return self.cfg[f"{what}_data"].copy()
         raise KeyError(f"No user or default data for {what}")
 
     def read_emissions(self, filename):
-- 
2.43.0


From fc931c5784ca5dcd375510d9424e472da277de08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:35 +0000
Subject: [PATCH 05/39] fix: do not count the w_aero column of a forcing file
 as a forcing

---
 src/ciceroscm/input_handler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/input_handler.py b/src/ciceroscm/input_handler.py
index 5473859..1310db4 100644
--- a/src/ciceroscm/input_handler.py
+++ b/src/ciceroscm/input_handler.py
@@ -176,7 +176,9 @@ def read_forc(forc_file):
             if "FORC_NH" in df_forc.columns and "FORC_SH" in df_forc.columns:
                 df_forc["total"] = df_forc[["FORC_NH", "FORC_SH"]].mean(axis=1)
             else:
-                df_forc["total"] = df_forc[list(df_forc)].sum(axis=1)
+                df_forc["total"] = df_forc[
+                    [col for col in df_forc.columns if col != "w_aero"]
+                ].sum(axis=1)
                 df_forc["FORC_NH"] = df_forc["total"]
                 df_forc["FORC_SH"] = df_forc["total"]
 
-- 
2.43.0


From 596c53648f853f1d524145043afe06de331b3216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:35 +0000
Subject: [PATCH 06/39] fix: let rs_function and rb_function of the
 configurations reach the carbon cycle

They were cut from the parameterset before the carbon cycle was made, so
the default functions were always used.
---
 src/ciceroscm/concentrations_emissions_handler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index dbf05f9..ddbaed0 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -187,6 +187,10 @@ class ConcentrationsEmissionsHandler:
         self.forc = {}
         self.nat_emis_ch4 = input_handler.get_data("nat_ch4")
         self.nat_emis_n2o = input_handler.get_data("nat_n2o")
+        pamset_carbon = pamset_carbon if pamset_carbon is not None else {}
+        for key in ["rs_function", "rb_function"]:
+            if key in pamset:
+                pamset_carbon[key] = pamset[key]
         self.pamset = check_pamset(pamset)
         self.years = np.arange(self.pamset["nystart"], self.pamset["nyend"] + 1)
         self.conc_in = input_handler.get_data("concentrations")
@@ -206,7 +210,6 @@ class ConcentrationsEmissionsHandler:
         # Setting up carbon cycle model
         model_type = self.pamset["carbon_cycle_model"]  # Default to "default"
         # Adding in preindustrial CO2 concentration from input concentrations
-        pamset_carbon = pamset_carbon if pamset_carbon is not None else {}
         pamset_carbon["preindustrial_co2_conc"] = self.conc_in["CO2"][
             self.pamset["nystart"]
         ]
-- 
2.43.0


From 61abb9e3dcc149991dbe71ce854b25201d7aacdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:35 +0000
Subject: [PATCH 07/39] fix: just_one from an earlier run does not apply to
 later runs of an instance

---
 src/ciceroscm/concentrations_emissions_handler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index ddbaed0..cacf270 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -109,7 +109,8 @@ def check_pamset_consistency(pamset_old, pamset_new):
             )
             pamset_new[pam] = pamset_old[pam]
     for pam, value in pamset_old.items():
-        if pam not in pamset_new:
+        # just_one only applies to the run it is sent to
+        if pam not in pamset_new and pam != "just_one":
             pamset_new[pam] = value
     return pamset_new
 
-- 
2.43.0


From 76b8417f2b353c23bc70176fc047e7a4705d9e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:35 +0000
Subject: [PATCH 08/39] fix: emissions for all gases start in emstart for any
 order of emstart, nystart and nyend

With emstart equal to nystart the run crashed, with emstart before nystart
most gases followed prescribed concentrations for most of the run, and with
emstart equal to nyend they did so in that year, unlike CO2, CH4 and N2O.
---
 src/ciceroscm/concentrations_emissions_handler.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index cacf270..ade8306 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -283,7 +283,9 @@ class ConcentrationsEmissionsHandler:
 
     def _precalculate_concentrations_vanilla_gases(self, df_gases_vanilla):
         conc_in_vanilla = self.conc_in.copy()[df_gases_vanilla.index]
-        if self.pamset["conc_run"] or self.pamset["nyend"] <= self.pamset["emstart"]:
+        # Emissions can't be used before the start of the run
+        emstart = max(self.pamset["emstart"], self.pamset["nystart"])
+        if self.pamset["conc_run"] or self.pamset["nyend"] < emstart:
             return conc_in_vanilla.iloc[
                 self.pamset["nystart"]
                 - conc_in_vanilla.index[0] : self.pamset["nyend"]
@@ -291,15 +293,18 @@ class ConcentrationsEmissionsHandler:
                 + 1
             ]
 
+        conc_prev = conc_in_vanilla.loc[
+            max(emstart - 1, self.pamset["nystart"])
+        ].to_numpy()
         conc_in_vanilla = conc_in_vanilla.iloc[
             self.pamset["nystart"]
-            - conc_in_vanilla.index[0] : self.pamset["emstart"]
+            - conc_in_vanilla.index[0] : emstart
             - conc_in_vanilla.index[0]
         ]
 
         emis_vanilla = self.emis.copy()[df_gases_vanilla.index]
         emis_vanilla = emis_vanilla.iloc[
-            self.pamset["emstart"]
+            emstart
             - emis_vanilla.index[0] : self.pamset["nyend"]
             - emis_vanilla.index[0]
             + 1
@@ -309,9 +314,7 @@ class ConcentrationsEmissionsHandler:
         conc_rows = []
         for i in range(emis.shape[0]):
             emis_now = emis[i, :]
-            if i == 0:
-                conc_prev = conc_in_vanilla.iloc[-1, :].to_numpy()
-            else:
+            if i > 0:
                 conc_prev = conc_rows[-1]
             conc = emis_now / df_gases_vanilla["BETA"].to_numpy() / q * (
                 1 - np.exp(-q)
-- 
2.43.0


From 99379cbc11686efd1bd8e0875bfa5796b019a4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:35 +0000
Subject: [PATCH 09/39] fix: output emissions for the years of the run when
 emissions data start earlier

---
 src/ciceroscm/concentrations_emissions_handler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index ade8306..41bfb0d 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -1002,9 +1002,9 @@ class ConcentrationsEmissionsHandler:
         cols = cols[-1:] + cols[:-1]
         df_forc = df_forc[cols]
         df_forc.rename(columns={"SO2": "SO4_DIR"}, inplace=True)
-        df_emis = self.emis.drop(labels=["CO2_FF", "CO2_AFOLU"], axis=1).drop(
-            labels=np.arange(self.years[-1] + 1, self.emis.index[-1] + 1), axis=0
-        )
+        df_emis = self.emis.drop(labels=["CO2_FF", "CO2_AFOLU"], axis=1).loc[
+            self.years
+        ]
         df_emis["Year"] = self.years
         df_emis["CO2"] = self.emis["CO2_FF"] + self.emis["CO2_AFOLU"]
         cols = df_emis.columns.tolist()
-- 
2.43.0


From ba9302d4b7205ed9904dc0bc79ac9e092fa57e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:35 +0000
Subject: [PATCH 10/39] fix: carbon_cycle_outputs set to False leaves out the
 carbon cycle outputs

---
 src/ciceroscm/concentrations_emissions_handler.py      | 4 ++--
 src/ciceroscm/formattingtools/reformat_cscm_results.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index 41bfb0d..18821ef 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -955,7 +955,7 @@ class ConcentrationsEmissionsHandler:
                 "conc", results_dict["concentrations"], outdir, self.df_gas["CONC_UNIT"]
             )
 
-        if "carbon_cycle_outputs" in cfg:
+        if cfg.get("carbon_cycle_outputs"):
             # Adding carbon cycle outputs here
             # Typically back_calculated emissions for conc_run
             # Airborne fraction
@@ -1028,7 +1028,7 @@ class ConcentrationsEmissionsHandler:
         results["concentrations"] = df_conc
         results["forcing"] = df_forc
 
-        if "carbon_cycle_outputs" in cfg:
+        if cfg.get("carbon_cycle_outputs"):
             results["carbon cycle"] = self.get_carbon_cycle_data(
                 feedback_dict_series=feedback_dict_series
             )
diff --git a/src/ciceroscm/formattingtools/reformat_cscm_results.py b/src/ciceroscm/formattingtools/reformat_cscm_results.py
index 6760bd8..97868f7 100644
--- a/src/ciceroscm/formattingtools/reformat_cscm_results.py
+++ b/src/ciceroscm/formattingtools/reformat_cscm_results.py
@@ -218,7 +218,7 @@ def get_data_from_em(results, variable):
     df_temp = results["emissions"]
     years = df_temp.Year[:]
     # If concentrations run, CO2 emissions should be taken from carbon cycle back calculation
-    if "Emissions" in results["carbon cycle"].keys() and variable == "CO2":
+    if variable == "CO2" and "Emissions" in results.get("carbon cycle", {}).keys():
         timeseries = results["carbon cycle"][
             "Emissions"
         ].to_numpy()  # pylint:disable=unsubscriptable-object
-- 
2.43.0


From e75b25fab6eef9e9fe3689774831ecacb6d15f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:35 +0000
Subject: [PATCH 11/39] fix: results of a run neither change those of an
 earlier run nor contain parts of them

---
 src/ciceroscm/ciceroscm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ciceroscm/ciceroscm.py b/src/ciceroscm/ciceroscm.py
index f0c6a9b..f3213d5 100644
--- a/src/ciceroscm/ciceroscm.py
+++ b/src/ciceroscm/ciceroscm.py
@@ -151,6 +151,9 @@ class CICEROSCM:
             list(self.thermal_model_class.get_output_dict_thermal().keys())
             + FORC_OUTPUT_LIST
         )
+        # A new dictionary, to not change results from earlier runs
+        # or keep outputs that are not part of this run
+        self.results = {}
         for output in output_variables:
             self.results[output] = np.zeros(self.cfg["nyend"] - self.cfg["nystart"] + 1)
 
-- 
2.43.0


From 101cf8739a47b744f79e984e64c2efb42e6632ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:35 +0000
Subject: [PATCH 12/39] fix: writing results to files works with the two layer
 thermal model

---
 src/ciceroscm/ciceroscm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/ciceroscm.py b/src/ciceroscm/ciceroscm.py
index f3213d5..513794a 100644
--- a/src/ciceroscm/ciceroscm.py
+++ b/src/ciceroscm/ciceroscm.py
@@ -366,7 +366,10 @@ class CICEROSCM:
                 "OHCTOT": self.results["OHCTOT"],
             }
         )
-        list_rib = ["RIB_glob", "RIB_N", "RIB_S"]
+        # Thermal models need not have all of these outputs
+        list_rib = [
+            vari for vari in ["RIB_glob", "RIB_N", "RIB_S"] if vari in self.results
+        ]
         df_rib = pd.DataFrame(data={"Year": indices})
         for vari in list_rib:
             df_rib[vari] = self.results[vari]
@@ -386,7 +389,7 @@ class CICEROSCM:
             filename_start = pamset["output_prefix"]
         else:
             filename_start = "output"
-        for vari in list_temp:
+        for vari in [vari for vari in list_temp if vari in self.results]:
             df_temp[vari] = self.results[vari]
 
         df_ohc.to_csv(
-- 
2.43.0


From d2be3854c79d7666e9b4c5d00d8bf97e7cce723e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:35 +0000
Subject: [PATCH 13/39] fix: the two layer model is forced by the global mean
 volcanic forcing

The sum of the volcanic forcing of the two hemispheres was used, twice the
forcing the upwelling diffusion model gets and the results report.
---
 src/ciceroscm/thermal_model/two_layer_ocean.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/thermal_model/two_layer_ocean.py b/src/ciceroscm/thermal_model/two_layer_ocean.py
index 683d1ce..b02877e 100644
--- a/src/ciceroscm/thermal_model/two_layer_ocean.py
+++ b/src/ciceroscm/thermal_model/two_layer_ocean.py
@@ -144,7 +144,9 @@ class TwoLayerOceanModel(
               hemisphere-specific)
             - OHCTOT/OHC_MIXED/OHC_DEEP/OHC700: Ocean heat content diagnostics
         """
-        forc = (forc_nh + forc_sh) / 2 + np.mean(fn_volc + fs_volc)
+        forc = (forc_nh + forc_sh) / 2 + (
+            np.mean(fn_volc) + np.mean(fs_volc)
+        ) / 2
 
         # Fast layer temperature change
         dtemp_fast = (
-- 
2.43.0


From e877f9c72ceb951cc643ae8d0bb63bda237872ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:41 +0000
Subject: [PATCH 14/39] fix: aerosol forcing aggregates sum all their
 components

The components were looked up by names that are no longer in the variable
dictionary, so both aggregates only held the direct sulphate forcing.
---
 .../formattingtools/reformat_cscm_results.py         | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/ciceroscm/formattingtools/reformat_cscm_results.py b/src/ciceroscm/formattingtools/reformat_cscm_results.py
index 97868f7..c0dba85 100644
--- a/src/ciceroscm/formattingtools/reformat_cscm_results.py
+++ b/src/ciceroscm/formattingtools/reformat_cscm_results.py
@@ -44,7 +44,10 @@ openscm_to_cscm_dict = {
     "Atmospheric Concentrations|N2O": "N2O",
     "Atmospheric Concentrations|Ozone|Tropospheric'": "TROP_O3",
 }
-forc_sums = ["Aerosols", "Aerosols|Direct Effect"]
+forc_sums = {
+    "Aerosols": ["BC", "OC", "SO4_DIR", "SO4_IND"],
+    "Aerosols|Direct Effect": ["BC", "OC", "SO4_DIR"],
+}
 fgas_list = [
     "HFC125",
     "HFC134a",
@@ -167,7 +170,7 @@ carbon_cycle_outputs = {
 
 def get_data_from_forc_common(
     df_temp, variable, v_dict, volc=0, sun=0
-):  # pylint:disable=too-many-branches
+):  # pylint:disable=too-many-branches,unused-argument
     """
     Get or calculate forcing when dataframe with forcers
     variable and variable dictionary
@@ -177,9 +180,8 @@ def get_data_from_forc_common(
     years = df_temp.Year[:]
     if variable in forc_sums:
         timeseries = np.zeros(len(years))
-        for comp, value in v_dict.items():
-            if variable in comp and value not in forc_sums:
-                timeseries = timeseries + df_temp[value].to_numpy()
+        for comp in forc_sums[variable]:
+            timeseries = timeseries + df_temp[comp].to_numpy()
     elif variable in ("Fgas", "GHG"):
         timeseries = np.zeros(len(years))
         for comp in fgas_list:
-- 
2.43.0


From 90c648a9cb307ebab1f4d638793ebda06124c771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:29 +0000
Subject: [PATCH 15/39] fix: emission units are the same for gas parameters
 sent as file and as data

---
 .../reformat_inputdata_to_cscm_format.py      | 64 ++++++++-----------
 1 file changed, 27 insertions(+), 37 deletions(-)

diff --git a/src/ciceroscm/formattingtools/reformat_inputdata_to_cscm_format.py b/src/ciceroscm/formattingtools/reformat_inputdata_to_cscm_format.py
index ad24ddd..9e74664 100644
--- a/src/ciceroscm/formattingtools/reformat_inputdata_to_cscm_format.py
+++ b/src/ciceroscm/formattingtools/reformat_inputdata_to_cscm_format.py
@@ -84,52 +84,42 @@ class COMMONSFILEWRITER:  # pylint: disable=too-few-public-methods
                 if row[1] == "X":
                     continue
 
-                component = row[0]
-                unit = row[1]
-
-                if component == "N2O" and unit == "Tg_N":
-                    # in openscm-units, to get the mass of nitrogen, have
-                    # to use the unit "Tg N2ON" (converting to "Tg N" just
-                    # converts using the mass fraction of a single nitrogen
-                    # atom, admittedly this isn't immediately obvious and
-                    # arguably is a bug in openscm-units)
-                    unit = "TgN2ON"
-                elif "_" in unit:
-                    unit = unit.replace("_", "")
-                else:
-                    comp_str = component.replace("-", "").replace("BMB_AEROS_", "")
-                    unit = f"{unit}{comp_str}"
-
-                unit = f"{unit} / yr"
-
-                self.components.append(component)
-                self.units.append(unit)
-                self.concunits.append(row[2])
+                self._add_component(row[0], row[1], row[2])
 
         self.components.insert(1, "CO2_lu")
         self.units.insert(1, "PgC / yr")
         self.concunits.insert(1, "ppm")
 
+    def _add_component(self, component, unit, concunit):
+        """
+        Add component with its emissions unit formatted with
+        the species and its concentrations unit
+        """
+        if component == "N2O" and unit == "Tg_N":
+            # in openscm-units, to get the mass of nitrogen, have
+            # to use the unit "Tg N2ON" (converting to "Tg N" just
+            # converts using the mass fraction of a single nitrogen
+            # atom, admittedly this isn't immediately obvious and
+            # arguably is a bug in openscm-units)
+            unit = "TgN2ON"
+        elif "_" in unit:
+            unit = unit.replace("_", "")
+        else:
+            comp_str = component.replace("-", "").replace("BMB_AEROS_", "")
+            unit = f"{unit}{comp_str}"
+
+        self.components.append(component)
+        self.units.append(f"{unit} / yr")
+        self.concunits.append(concunit)
+
     def initialize_units_comps_from_pd(self, gasfile):
         """
         Intialize units and compontets if pandas of gasfile is sent deal with units
         """
-        gasdata_mod = gasfile.copy()
-        # Might cause problems later, hopefully not
-        gasdata_mod.replace("Tg_N", "TgN2ON", inplace=True)
-        gasdata_mod["CONC_UNIT"] = gasdata_mod["CONC_UNIT"].replace("_", "")
-        # Not very robuste...:
-        gasdata_mod.loc["BMB_AEROS_OC", "EM_UNIT"] = gasdata_mod["EM_UNIT"][
-            "BMB_AEROS_OC"
-        ].replace("Tg", "TgOC")
-        gasdata_mod.loc["BMB_AEROS_BC", "EM_UNIT"] = gasdata_mod["EM_UNIT"][
-            "BMB_AEROS_BC"
-        ].replace("Tg", "TgBC")
-        self.components = gasdata_mod.index.values.tolist()
-        units = gasdata_mod["EM_UNIT"].values.tolist()
-        self.concunits = gasdata_mod["CONC_UNIT"].values.tolist()
-
-        self.units = [f"{unit} / yr" for unit in units]
+        for component, row in gasfile.iterrows():
+            if row["EM_UNIT"] == "X":
+                continue
+            self._add_component(component, row["EM_UNIT"], row["CONC_UNIT"])
         self.components.insert(1, "CO2_lu")
         self.units.insert(1, "PgC / yr")
         self.concunits.insert(1, "ppm")
-- 
2.43.0


From 6ea5642ae5273ed4b5fe5f49210198507628c34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:29 +0000
Subject: [PATCH 16/39] fix: results of serial processing come in the order of
 the configurations

---
 src/ciceroscm/parallel/_parallel_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/parallel/_parallel_process.py b/src/ciceroscm/parallel/_parallel_process.py
index be9a4f7..3a1ddf8 100644
--- a/src/ciceroscm/parallel/_parallel_process.py
+++ b/src/ciceroscm/parallel/_parallel_process.py
@@ -165,7 +165,7 @@ def _parallel_process(  # pylint:disable=too-many-arguments,too-many-positional-
             desc="Serial runs",
         )
 
-        return rest + front_serial_res
+        return front_serial_res + rest
 
     front_parallel_res = []
     if front_parallel > 0:
-- 
2.43.0


From c2d9fa3821b57beed86eb8511fbc274e39f72f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:29 +0000
Subject: [PATCH 17/39] fix: set values for carbon cycle decay functions go to
 the carbon parameterset

---
 src/ciceroscm/parallel/_configdistro.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/parallel/_configdistro.py b/src/ciceroscm/parallel/_configdistro.py
index fb91c0d..b6919b4 100644
--- a/src/ciceroscm/parallel/_configdistro.py
+++ b/src/ciceroscm/parallel/_configdistro.py
@@ -200,7 +200,9 @@ class _ConfigDistro:
         for pam, value in self.setvalues.items():
             if pam in ordering_standard_forc:
                 self.pamset_udm_start[pam] = value
-            elif pam in CARBON_CYCLE_MODEL_REQUIRED_PAMSET:
+            elif pam in CARBON_CYCLE_MODEL_REQUIRED_PAMSET or pam.startswith(
+                ("rb_", "rs_")
+            ):
                 self.pamset_carbon_start[pam] = value
             else:
                 self.pamset_emiconc_start[pam] = value
-- 
2.43.0


From 209ca4cbfd970c92081b24f763deba81fc9f7a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:29 +0000
Subject: [PATCH 18/39] fix: foan, foas and ebbeta go to the thermal model
 parameterset

Configurations put them with the emission and concentration parameters,
where they are silently ignored.
---
 src/ciceroscm/parallel/_configdistro.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ciceroscm/parallel/_configdistro.py b/src/ciceroscm/parallel/_configdistro.py
index b6919b4..88affa2 100644
--- a/src/ciceroscm/parallel/_configdistro.py
+++ b/src/ciceroscm/parallel/_configdistro.py
@@ -80,6 +80,9 @@ ordering_standard_forc = [
     "mixed",
     "ocean_efficacy",
     "delta_lambda_aero",
+    "foan",
+    "foas",
+    "ebbeta",
     "threstemp",
     "lm",
     "ldtime",
-- 
2.43.0


From 874b9944102a24f7aebeb86c2d81cf2069311e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:29 +0000
Subject: [PATCH 19/39] fix: keep meta information read from file when writing
 configurations

---
 src/ciceroscm/parallel/distributionrun.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/parallel/distributionrun.py b/src/ciceroscm/parallel/distributionrun.py
index 0cdb749..79c7aa3 100644
--- a/src/ciceroscm/parallel/distributionrun.py
+++ b/src/ciceroscm/parallel/distributionrun.py
@@ -89,7 +89,9 @@ class DistributionRun:
         meta_info: dict, optional
             dictionary with meta optional information to add to the json file
         """
-        if meta_info is None and self.meta_info is None:
+        if meta_info is None:
+            meta_info = self.meta_info
+        if meta_info is None:
             with open(json_file_name, "w", encoding="utf-8") as wfile:
                 json.dump(self.cfgs, wfile)
         else:
-- 
2.43.0


From f82bab739a49b59c98d68dee6560bfdd428d976f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:29 +0000
Subject: [PATCH 20/39] fix: add all forcing perturbations for the same gas and
 year

Only the last one was added for gases with precalculated forcing.
---
 src/ciceroscm/perturbations.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ciceroscm/perturbations.py b/src/ciceroscm/perturbations.py
index e8bf566..f195e05 100644
--- a/src/ciceroscm/perturbations.py
+++ b/src/ciceroscm/perturbations.py
@@ -220,9 +220,13 @@ class ForcingPerturbation:
         if precalc_pert_gases is None:
             return
         for gas in precalc_pert_gases:
-            perturb_here = self.perturb_raw[self.perturb_raw.component == gas]
-            precalc_erf.loc[perturb_here.year.values, gas] = (
-                precalc_erf.loc[perturb_here.year.values, gas].values
-                + perturb_here.forcing.values
+            perturb_here = (
+                self.perturb_raw[self.perturb_raw.component == gas]
+                .groupby("year")
+                .forcing.sum()
+            )
+            precalc_erf.loc[perturb_here.index.values, gas] = (
+                precalc_erf.loc[perturb_here.index.values, gas].values
+                + perturb_here.values
             )
         return
-- 
2.43.0


From 5d2a2321aea43fbae17558cfc2ce5f5ca12af757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:29 +0000
Subject: [PATCH 21/39] fix: accept numpy integers and single precision numbers
 as parameter values

They were silently replaced by the default values.
---
 src/ciceroscm/_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/_utils.py b/src/ciceroscm/_utils.py
index 36080a6..285d2ca 100644
--- a/src/ciceroscm/_utils.py
+++ b/src/ciceroscm/_utils.py
@@ -3,6 +3,7 @@ Class for common utility functions
 """
 
 import logging
+from numbers import Real
 
 LOGGER = logging.getLogger(__name__)
 
@@ -35,7 +36,7 @@ def check_numeric_pamset(required, pamset):
                 f"Parameter {pam} not in pamset. Using default value {value}",
             )
             pamset[pam] = value
-        elif not isinstance(pamset[pam], int) and not isinstance(pamset[pam], float):
+        elif not isinstance(pamset[pam], Real):
             LOGGER.info(  # pylint: disable=logging-fstring-interpolation
                 f"Parameter {pam} must be a number. Using default value {value}",
             )
@@ -142,7 +143,7 @@ def update_pam_if_numeric(pamset_old, pamset_new, can_change):
                 f"{key} is not a valid parameter to update this version of the Carbon cycle",
             )
             continue
-        if not isinstance(value, int) and not isinstance(value, float):
+        if not isinstance(value, Real):
             LOGGER.info(  # pylint: disable=logging-fstring-interpolation
                 f"Parameter {key} must be a number. {value} will be ignored",
             )
-- 
2.43.0


From 546875f95685c08d64e4bbea893d5f6199a58d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:29 +0000
Subject: [PATCH 22/39] fix: carbon cycle parameters do not leak between
 configurations in parallel runs

Results depended on which configurations were run before in the same batch.
---
 src/ciceroscm/parallel/cscmparwrapper.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ciceroscm/parallel/cscmparwrapper.py b/src/ciceroscm/parallel/cscmparwrapper.py
index f7a6073..666b022 100644
--- a/src/ciceroscm/parallel/cscmparwrapper.py
+++ b/src/ciceroscm/parallel/cscmparwrapper.py
@@ -2,6 +2,7 @@
 Module for running CICEROSCM in parallel
 """
 
+import copy
 import logging
 from concurrent.futures import ProcessPoolExecutor
 from itertools import product
@@ -187,7 +188,14 @@ class CSCMParWrapper:  # pylint: disable=too-few-public-methods
             over the run timeseries
         """
         runs = []
+        ce_handler = getattr(self.cscm, "ce_handler", None)
+        if ce_handler is not None:
+            carbon_cycle_start = copy.deepcopy(ce_handler.carbon_cycle)
         for pamset in cfgs:
+            if ce_handler is not None:
+                # Carbon cycle parameters are kept between runs of an instance,
+                # but should not leak between configurations
+                ce_handler.carbon_cycle = copy.deepcopy(carbon_cycle_start)
             self.cscm._run(  # pylint: disable=protected-access
                 {"results_as_dict": True, "carbon_cycle_outputs": carbon_cycle_outputs},
                 pamset_udm=pamset.get("pamset_udm", None),
-- 
2.43.0


From ca44dfa5b5f840cce6a1118e42ad92bd512ac70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:29 +0000
Subject: [PATCH 23/39] fix: aerosol forcing fraction includes forcing
 perturbations of aerosols

Only the denominator included them, so the fraction could exceed one.
---
 src/ciceroscm/concentrations_emissions_handler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index 18821ef..39858df 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -643,7 +643,7 @@ class ConcentrationsEmissionsHandler:
         tot_forc, forc_nh, forc_sh = self.calculate_forc_three_main(yr)
         yr_0 = self.years[0]
         # Finish per tracer calculations, add per tracer to printable df and sum the total
-        f_aero_mag = 0.0
+        aerosols = []
         for tracer, forc_val_series in self.forc.items():
             if tracer in ["CO2", "N2O", "CH4"]:
                 continue
@@ -658,7 +658,7 @@ class ConcentrationsEmissionsHandler:
                 "BM",
             ]:
                 q = self.calc_aerosol_forcing(yr, tracer)
-                f_aero_mag = f_aero_mag + abs(q)
+                aerosols.append(tracer)
             elif (
                 tracer in self.df_gas.index
                 and self.df_gas["ALPHA"][tracer] != 0  # pylint: disable=compare-to-zero
@@ -725,6 +725,7 @@ class ConcentrationsEmissionsHandler:
         # Returns 0.0 when all components are zero (pre-industrial),
         # which is the no-pattern-effect case anyway.
         idx = yr - yr_0
+        f_aero_mag = sum(abs(self.forc[tracer][idx]) for tracer in aerosols)
         f_abs_total = sum(
             abs(s[idx]) for k, s in self.forc.items() if k != "Total_forcing"
         )
-- 
2.43.0


From 0f087c84f615c2d46e78e7bf33360d25336e6466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:19 +0000
Subject: [PATCH 24/39] fix: volcanic forcing columns cover their own part of
 the year

---
 src/ciceroscm/thermal_model/upwelling_diffusion_model.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ciceroscm/thermal_model/upwelling_diffusion_model.py b/src/ciceroscm/thermal_model/upwelling_diffusion_model.py
index cfc1dad..8fb7578 100644
--- a/src/ciceroscm/thermal_model/upwelling_diffusion_model.py
+++ b/src/ciceroscm/thermal_model/upwelling_diffusion_model.py
@@ -509,19 +509,21 @@ class UpwellingDiffusionModel(
         dn = np.zeros(lm)
         ds = np.zeros(lm)
         for im in range(self.pamset["ldtime"]):
-            volc_idx = im % len(fn_volc)
+            # Columns of the volcanic data covering this part of the year
+            volc_idx_n = im * len(fn_volc) // self.pamset["ldtime"]
+            volc_idx_s = im * len(fs_volc) // self.pamset["ldtime"]
             if self.pamset["threstemp"] != 0:  # pylint: disable=compare-to-zero
                 self.setup_ebud2(temp1n, temp1s)
 
             dqn = (
                 (im + 1) * forc_nh * dtyear
                 + (1 - (im + 1) * dtyear) * self.prev_values["fn"]
-                + fn_volc[volc_idx]
+                + fn_volc[volc_idx_n]
             )
             dqs = (
                 (im + 1) * forc_sh * dtyear
                 + (1 - (im + 1) * dtyear) * self.prev_values["fs"]
-                + fs_volc[volc_idx]
+                + fs_volc[volc_idx_s]
             )
             dn[0] = (
                 self.varrying["dtrm1n"] * self.tn[0]
-- 
2.43.0


From 57d3c7de61c45cd94aa08cf0e3bbc62fa2f25fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:17 +0000
Subject: [PATCH 25/39] fix: agents like SOLAR or SO2F2 do not count as
 aerosols in forcing files

---
 src/ciceroscm/input_handler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/input_handler.py b/src/ciceroscm/input_handler.py
index 1310db4..dd0ac99 100644
--- a/src/ciceroscm/input_handler.py
+++ b/src/ciceroscm/input_handler.py
@@ -190,8 +190,12 @@ def read_forc(forc_file):
         # falls back to w_aero = 0 (no pattern-effect modulation).
         if "w_aero" not in df_forc.columns:
             aero_cols = [c for c in AEROSOL_TRACERS if c in df_forc.columns]
+            # Regional aerosols are named tracer_region, other agents
+            # such as SOLAR or SO2F2 are not aerosols
             aero_cols_reg = [
-                c for c in df_forc.columns if c[:2] in ["SO", "BC", "OC", "BM"]
+                c
+                for c in df_forc.columns
+                if c.split("_")[0] in ["SO2", "SO4", "BC", "OC", "BMB"]
             ]
             for c in aero_cols_reg:
                 if c not in aero_cols:
-- 
2.43.0


From acf7bbcff7aefdf2f6bfaa193141d08c1f43b093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:56 +0000
Subject: [PATCH 26/39] fix: airborne fraction is only undefined in years
 without cumulative emissions

All concentration runs have zero back calculated emissions in the first
year, which made the whole series NaN.
---
 .../carbon_cycle/common_carbon_cycle_functions.py          | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ciceroscm/carbon_cycle/common_carbon_cycle_functions.py b/src/ciceroscm/carbon_cycle/common_carbon_cycle_functions.py
index 9349c4b..aa7d0c3 100644
--- a/src/ciceroscm/carbon_cycle/common_carbon_cycle_functions.py
+++ b/src/ciceroscm/carbon_cycle/common_carbon_cycle_functions.py
@@ -47,11 +47,12 @@ def calculate_airborne_fraction(
     np.ndarray
         Airborne fraction calculated from the em_timeseries and conc_timeseries
     """
-    if any(np.cumsum(em_timeseries) == 0):
-        return np.ones_like(em_timeseries) * np.nan
+    cumulative_emissions = np.cumsum(em_timeseries, dtype=float)
+    # Not defined in years without any cumulative emissions
+    cumulative_emissions[cumulative_emissions == 0] = np.nan
     airborne_fraction = (
         (conc_timeseries - preindustrial_co2_conc)
-        / np.cumsum(em_timeseries)
+        / cumulative_emissions
         * PPM_CO2_TO_PG_C
     )
     return airborne_fraction
-- 
2.43.0


From 4d45bd58dfad48c19bb22fb91312ca3605427ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:37 +0000
Subject: [PATCH 27/39] fix: back calculation of emissions widens its span
 until it includes the solution

The starting span could lie beside the solution for e.g. falling or
noisy concentrations, giving emissions that do not reproduce them.
---
 .../carbon_cycle/carbon_cycle_abstract.py     | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py b/src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py
index a75f473..d0fd3b8 100644
--- a/src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py
+++ b/src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py
@@ -200,8 +200,25 @@ class AbstractCarbonCycleModel(ABC):
         """
         max_guess = initial_max_min_guess[0]
         min_guess = initial_max_min_guess[1]
-        guess = np.mean((min_guess, max_guess))
         hold_dict = self._get_co2_hold_values()
+        # Making sure the solution is between the guesses
+        for direction in (1, -1):
+            edge = max_guess if direction == 1 else min_guess
+            width = max_guess - min_guess
+            for _ in range(maxit):
+                edge_conc = self.co2em2conc(
+                    self.pamset["nystart"] + yrix, edge, feedback_dict=feedback_dict
+                )
+                self._set_co2_hold(hold_dict)
+                if not direction * (co2_conc_now - edge_conc) > 0:
+                    break
+                edge = edge + direction * width
+                width = 2 * width
+            if direction == 1:
+                max_guess = edge
+            else:
+                min_guess = edge
+        guess = np.mean((min_guess, max_guess))
         estimated_conc = self.co2em2conc(
             self.pamset["nystart"] + yrix, guess, feedback_dict=feedback_dict
         )
-- 
2.43.0


From 61dfb6c9d633042efbcbd24457378f7730f90b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:56 +0000
Subject: [PATCH 28/39] fix: units of all emission and concentration columns
 are checked against the gas table

---
 src/ciceroscm/input_handler.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/ciceroscm/input_handler.py b/src/ciceroscm/input_handler.py
index dd0ac99..06ccf04 100644
--- a/src/ciceroscm/input_handler.py
+++ b/src/ciceroscm/input_handler.py
@@ -337,7 +337,7 @@ class InputHandler:
             if "emissions_file" in self.cfg:
                 em_header = pd.read_csv(
                     self.cfg["emissions_file"], sep=r"\s+", index_col=0, nrows=1
-                ).drop(columns=["CO2.1"])
+                )
                 if not set(df_gas.index).issubset(set(em_header.columns)):
                     LOGGER.warning(
                         "The emissions dataset does not contain emissions for all gaspam specied"
@@ -345,11 +345,14 @@ class InputHandler:
                     LOGGER.info(  # pylint: disable=logging-fstring-interpolation
                         f"Missing species {set(df_gas.index) - set(em_header.columns)}"
                     )
-                    return
-                em_header_check = em_header[df_gas.index]
-                if (
-                    em_header_check.loc["Unit", :].to_list()
-                    != df_gas["EM_UNIT"].to_list()
+                # The second CO2 column is for land use emissions
+                em_units = {
+                    tracer: df_gas.at["CO2" if tracer == "CO2.1" else tracer, "EM_UNIT"]
+                    for tracer in em_header.columns
+                    if tracer in df_gas.index or tracer == "CO2.1"
+                }
+                if em_header.loc["Unit", list(em_units)].to_list() != list(
+                    em_units.values()
                 ):
                     raise ValueError(
                         f"Emissions file {self.cfg['emissions_file']} has incompatible units to that of the chosen gaspam file \n Please use compatible emissions"
-- 
2.43.0


From 91eec9c1d266107f2fb1c8e41cfc682e048cd999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:56 +0000
Subject: [PATCH 29/39] fix: chlorine atoms are counted for isomers with
 several letters, like HCFC-225ca

---
 src/ciceroscm/pub_utils.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/ciceroscm/pub_utils.py b/src/ciceroscm/pub_utils.py
index 23248a0..d73a195 100644
--- a/src/ciceroscm/pub_utils.py
+++ b/src/ciceroscm/pub_utils.py
@@ -5,6 +5,7 @@ Presently mainly methods to make decay functions from arrays
 """
 
 import logging
+import re
 
 import numpy as np
 
@@ -117,11 +118,8 @@ def find_num_cl_in_hcfc(tracer):
     int
        Number of chlorine atoms in the compound
     """
-    numpart = tracer.split("-")[-1]
-    if not numpart[-1].isdigit():
-        numpart = int(numpart[:-1])
-    else:
-        numpart = int(numpart)
+    # Letters at the end only tell isomers apart, and there can be several
+    numpart = int(re.match(r"\d+", tracer.split("-")[-1])[0])
     double_bonds = numpart // 1000
     bonds_total = ((numpart % 1000) // 100) * 2 + 4
     hydrogen = (numpart % 100) // 10 - 1
-- 
2.43.0


From 731db38ca5bc54e5f4f6bf76f97acbaaf12d5751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:22 +0000
Subject: [PATCH 30/39] fix: all chlorine and bromine atoms of a compound
 count, also when it has both

---
 src/ciceroscm/pub_utils.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/ciceroscm/pub_utils.py b/src/ciceroscm/pub_utils.py
index d73a195..198fc11 100644
--- a/src/ciceroscm/pub_utils.py
+++ b/src/ciceroscm/pub_utils.py
@@ -156,16 +156,13 @@ def make_cl_and_br_dictionaries(gases_index):
             brom_dict[tracer] = int(tracer[5])
             if int(tracer[4]) > 0:
                 chlor_dict[tracer] = int(tracer[4])
-        elif "Cl" in tracer:
-            if len(tracer.split("Cl")[-1]) > 0 and tracer.split("Cl")[-1][0].isdigit():
-                chlor_dict[tracer] = int(tracer.split("Cl")[-1][0])
-            else:
-                chlor_dict[tracer] = 1
-        elif "Br" in tracer:
-            if len(tracer.split("Br")[-1]) > 0 and tracer.split("Br")[-1][0].isdigit():
-                brom_dict[tracer] = int(tracer.split("Br")[-1][0])
-            else:
-                brom_dict[tracer] = 1
+        else:
+            # Compounds can have both, and in several places
+            for atom, atom_dict in (("Cl", chlor_dict), ("Br", brom_dict)):
+                if atom in tracer:
+                    atom_dict[tracer] = sum(
+                        int(num or 1) for num in re.findall(rf"{atom}(\d*)", tracer)
+                    )
 
     return chlor_dict, brom_dict
 
-- 
2.43.0


From 3a21be0a09f90efaa0f0ec52021d895e87dc6503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:47 +0000
Subject: [PATCH 31/39] fix: decay timescales of zero are rejected, they only
 give NaN

---
 src/ciceroscm/pub_utils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/ciceroscm/pub_utils.py b/src/ciceroscm/pub_utils.py
index 198fc11..248e6ad 100644
--- a/src/ciceroscm/pub_utils.py
+++ b/src/ciceroscm/pub_utils.py
@@ -90,10 +90,7 @@ def _check_array_consistency(coeffs, timescales, for_rs=False):
         raise ValueError(
             "Coefficient array length must be equal to exponent array length"
         )
-    if np.any(timescales < 0):
-        LOGGER.error("All timescales must be positive numbers")
-        raise ValueError("All timescales must be positive numbers")
-    if np.any(timescales < 0):
+    if np.any(timescales <= 0):
         LOGGER.error("All timescales must be positive numbers")
         raise ValueError("All timescales must be positive numbers")
     if np.any(coeffs < 0):
-- 
2.43.0


From 8707397b7286b734bf29583efee1f6a5850a06f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:06 +0000
Subject: [PATCH 32/39] fix: malformed decay functions are rejected before they
 replace the valid ones

---
 src/ciceroscm/carbon_cycle/carbon_cycle_mod.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ciceroscm/carbon_cycle/carbon_cycle_mod.py b/src/ciceroscm/carbon_cycle/carbon_cycle_mod.py
index f95ad8f..e948212 100644
--- a/src/ciceroscm/carbon_cycle/carbon_cycle_mod.py
+++ b/src/ciceroscm/carbon_cycle/carbon_cycle_mod.py
@@ -199,6 +199,14 @@ class CarbonCycleModel(AbstractCarbonCycleModel):
         if pamset_carbon is not None:
             # Process flat carbon cycle parameters first
             pamset_carbon = _process_flat_carbon_parameters(pamset_carbon)
+            # Malformed functions must not replace valid ones
+            for key in ["rs_function", "rb_function"]:
+                if key in pamset_carbon:
+                    _check_array_consistency(
+                        pamset_carbon[key]["coeffs"],
+                        pamset_carbon[key]["timescales"],
+                        for_rs=(key == "rs_function"),
+                    )
             # Check if we need to recompute r_functions
             needs_rfunction_recompute = (
                 "rs_function" in pamset_carbon or "rb_function" in pamset_carbon
-- 
2.43.0


From 7b0f8382ad79231270a200a0348df35c69c779e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:47 +0000
Subject: [PATCH 33/39] fix: plot runs of thermal models without hemispheric
 output

---
 src/ciceroscm/make_plots.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/make_plots.py b/src/ciceroscm/make_plots.py
index 00ad9a6..c62a4cf 100644
--- a/src/ciceroscm/make_plots.py
+++ b/src/ciceroscm/make_plots.py
@@ -77,8 +77,10 @@ def plot_output1(pamset, results, nystart, nyend):
     fig, axs = plt.subplots(nrows=1, ncols=2, sharex=True, figsize=(12, 6))
     axs[0].plot(indices, results["RIB_glob"], label="RIB_glob")
     axs[1].plot(indices, results["RIB_glob"], label="RIB_glob")
-    axs[1].plot(indices, results["RIB_N"], label="RIB_N", linestyle=":")
-    axs[1].plot(indices, results["RIB_S"], label="RIB_S", linestyle="--")
+    # Not all thermal models have hemispheric output
+    if "RIB_N" in results:
+        axs[1].plot(indices, results["RIB_N"], label="RIB_N", linestyle=":")
+        axs[1].plot(indices, results["RIB_S"], label="RIB_S", linestyle="--")
     fix_plot(
         axs,
         [r"W $\mathrm{m}^{-2}$", r"W $\mathrm{m}^{-2}$"],
@@ -90,6 +92,8 @@ def plot_output1(pamset, results, nystart, nyend):
     fig, axs = plt.subplots(nrows=1, ncols=2, sharex=True, figsize=(14, 6))
 
     for comp in ["dT_glob", "dT_glob_air", "dT_glob_sea"]:
+        if comp not in results:
+            continue
         colours = {"glob": "tab:green", "air": "tab:orange", "sea": "tab:blue"}
         axs[0].plot(
             indices,
@@ -105,6 +109,8 @@ def plot_output1(pamset, results, nystart, nyend):
         "dT_SH_air",
         "dT_SHsea",
     ]:
+        if comp not in results:
+            continue
         if "NH" in comp:
             colours = {"NH": "tab:green", "air": "tab:orange", "sea": "tab:blue"}
             axs[1].plot(
-- 
2.43.0


From 3d70188e7484a90a80eaac29d74adbfea013cfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:24 +0000
Subject: [PATCH 34/39] fix: plot figures with a single row of components

---
 src/ciceroscm/make_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/make_plots.py b/src/ciceroscm/make_plots.py
index c62a4cf..6ebf7ea 100644
--- a/src/ciceroscm/make_plots.py
+++ b/src/ciceroscm/make_plots.py
@@ -183,7 +183,7 @@ def plot_output2(
             if c == 32:
                 maxrows = int(np.ceil((len(comps) - 32) / 4))
             fig, axs = plt.subplots(
-                nrows=maxrows, ncols=4, sharex=True, figsize=(15, 10)
+                nrows=maxrows, ncols=4, sharex=True, squeeze=False, figsize=(15, 10)
             )
             if var == "forc":
                 title = (
-- 
2.43.0


From c4c635379a68ee79a0cef9f44dadfd11b161e550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:24 +0000
Subject: [PATCH 35/39] fix: plot emissions of components that are not in the
 gas file

---
 src/ciceroscm/make_plots.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/make_plots.py b/src/ciceroscm/make_plots.py
index 6ebf7ea..211ec4f 100644
--- a/src/ciceroscm/make_plots.py
+++ b/src/ciceroscm/make_plots.py
@@ -220,7 +220,8 @@ def plot_output2(
         axs[i, j].xaxis.set_tick_params(labelbottom=True)
         if var != "forc":
             axs[i, j].set_ylim(ymin=0)
-            axs[i, j].set_ylabel("[" + unit.loc[comp] + "]")
+            # Input can have components that are not in the gas file
+            axs[i, j].set_ylabel("[" + unit.get(comp, "-") + "]")
         if c in [15, 31, len(comps) - 1]:
             if c == len(comps) - 1:
                 for j_left in range(j + 1, 4):
-- 
2.43.0


From eba14c1eff94151109106310500f7492c4bf131a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:38 +0000
Subject: [PATCH 36/39] fix: plot the forcing of all components and not the
 year

---
 src/ciceroscm/make_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/make_plots.py b/src/ciceroscm/make_plots.py
index 211ec4f..dae964c 100644
--- a/src/ciceroscm/make_plots.py
+++ b/src/ciceroscm/make_plots.py
@@ -176,7 +176,7 @@ def plot_output2(
             labels=["NOx", "CO", "NMVOC", "NH3", "BMB_AEROS_OC", "BMB_AEROS_BC"], axis=1
         )
     years = df_in["Year"]
-    comps = df_in.columns[1:]
+    comps = df_in.columns.drop("Year")
     for c, comp in enumerate(comps):
         if c in [0, 16, 32]:
             maxrows = 4
-- 
2.43.0


From c29ea30aed9df865a644dea591ccc50a9efb01ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:08 +0000
Subject: [PATCH 37/39] fix: perturb emissions given as whole numbers

---
 src/ciceroscm/perturbations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ciceroscm/perturbations.py b/src/ciceroscm/perturbations.py
index f195e05..b162dc9 100644
--- a/src/ciceroscm/perturbations.py
+++ b/src/ciceroscm/perturbations.py
@@ -83,6 +83,8 @@ def perturb_emissions(input_handler, emissions_df):
         tracer = row.component
         if row.component == "CO2" and "CO2" not in emissions_df:
             tracer = "CO2_FF"
+        # Columns of whole numbers can't hold other amounts
+        emissions_df[tracer] = emissions_df[tracer].astype(float)
         emissions_df.loc[row.year, tracer] = (
             emissions_df[tracer][row.year] + row.emission
         )
-- 
2.43.0


From 385aa5af3cc719aa5ee3fcaf334a6243e96e8206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:08 +0000
Subject: [PATCH 38/39] fix: natural emission series with whole number gas
 table

---
 src/ciceroscm/concentrations_emissions_handler.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index 39858df..518914d 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -799,14 +799,15 @@ class ConcentrationsEmissionsHandler:
 
             q = 1.0 / self.df_gas["TAU1"][tracer]
 
+            # natural emissions, from gasspamfile
+            nat_em = self.df_gas["NAT_EM"][tracer]
             if tracer == "CH4":
-                self.df_gas.at[tracer, "NAT_EM"] = self.nat_emis_ch4["CH4"][yr]
+                nat_em = self.nat_emis_ch4["CH4"][yr]
                 q = self.methane_lifetime(q, conc_local, yr)
             if tracer == "N2O":
-                self.df_gas.at[tracer, "NAT_EM"] = self.nat_emis_n2o["N2O"][yr]
+                nat_em = self.nat_emis_n2o["N2O"][yr]
 
-            # natural emissions, from gasspamfile
-            emis = self.emis[tracer][yr] + self.df_gas["NAT_EM"][tracer]
+            emis = self.emis[tracer][yr] + nat_em
 
             point_conc = emis / self.df_gas["BETA"][tracer]
             # Rewrote this quite a bit from an original loop,
-- 
2.43.0


From aee42d494e7260162cdf09787fb6b7995f99e5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:00 +0000
Subject: [PATCH 39/39] fix: include regional aerosols in reported aerosol
 forcing

---
 .../formattingtools/reformat_cscm_results.py  | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/formattingtools/reformat_cscm_results.py b/src/ciceroscm/formattingtools/reformat_cscm_results.py
index c0dba85..2ac1a8d 100644
--- a/src/ciceroscm/formattingtools/reformat_cscm_results.py
+++ b/src/ciceroscm/formattingtools/reformat_cscm_results.py
@@ -48,6 +48,8 @@ forc_sums = {
     "Aerosols": ["BC", "OC", "SO4_DIR", "SO4_IND"],
     "Aerosols|Direct Effect": ["BC", "OC", "SO4_DIR"],
 }
+# Regional aerosol components, i.e. BC_ASIA, are part of these
+regional_prefixes = {"BC": "BC_", "OC": "OC_", "SO4_DIR": "SO2_"}
 fgas_list = [
     "HFC125",
     "HFC134a",
@@ -181,7 +183,7 @@ def get_data_from_forc_common(
     if variable in forc_sums:
         timeseries = np.zeros(len(years))
         for comp in forc_sums[variable]:
-            timeseries = timeseries + df_temp[comp].to_numpy()
+            timeseries = timeseries + get_component_with_regions(df_temp, comp)
     elif variable in ("Fgas", "GHG"):
         timeseries = np.zeros(len(years))
         for comp in fgas_list:
@@ -199,10 +201,23 @@ def get_data_from_forc_common(
         timeseries = timeseries + volc
         timeseries = timeseries + sun
     else:
-        timeseries = df_temp[variable].to_numpy()
+        timeseries = get_component_with_regions(df_temp, variable)
     return years, timeseries
 
 
+def get_component_with_regions(df_temp, comp):
+    """
+    Get forcing of a component including its
+    regional components if there are any
+    """
+    timeseries = df_temp[comp].to_numpy()
+    if comp in regional_prefixes:
+        for col in df_temp.columns:
+            if col.startswith(regional_prefixes[comp]):
+                timeseries = timeseries + df_temp[col].to_numpy()
+    return timeseries
+
+
 def get_data_from_conc(results, variable):
     """
     Get data from concentration files
-- 
2.43.0

