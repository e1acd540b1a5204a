From 05966b4cf50d0aa4b17e6f8f880a69b551edae6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 01/30] fix: seed the random generator before the first draw,
 and also for seed 0

---
 ramp/core/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 1578c93..dac489b 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -98,6 +98,10 @@ class UseCase:
         self.daily_profiles = None
         self.random_seed = random_seed
 
+        # Set global random seed if it is specified, before any random number is drawn
+        if self.random_seed is not None:
+            random.seed(self.random_seed)
+
         self.appliances = []
         self.users = []
         if users is None:
@@ -108,10 +112,6 @@ class UseCase:
         if self.date_start is not None and self.date_end is not None:
             self.initialize()
 
-        # Set global random seed if it is specified
-        if self.random_seed:
-            random.seed(self.random_seed)
-
     @property
     def date_start(self):
         """Start date of the daily profiles generated by the UseCase instance"""
-- 
2.43.0


From 421e2993143aec423e23b6669fa4db7878043bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 02/30] fix: export a power timeseries as a constant only when
 all its values are equal

---
 ramp/core/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index dac489b..d02481c 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1254,7 +1254,7 @@ class Appliance:
                     dm[attribute + "_end"] = window_value[1]
                 elif attribute == "power":
                     power_values = getattr(self, attribute)
-                    if np.diff(power_values).sum() == 0:
+                    if not np.diff(power_values).any():
                         power_values = power_values[0]
                     else:
                         power_values = power_values.tolist()
@@ -1271,7 +1271,7 @@ class Appliance:
                         dm[attribute + "_end"] = window_value[1]
                     elif old_attribute == "POWER":
                         power_values = getattr(self, old_attribute)
-                        if np.diff(power_values).sum() == 0:
+                        if not np.diff(power_values).any():
                             power_values = power_values[0]
                         else:
                             power_values = power_values.tolist()
-- 
2.43.0


From 23b09ebb08d06acb5a21d6f14d386cc878a189d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 03/30] fix: use the default value of a parameter whose cell is
 empty in the input file

---
 ramp/core/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index d02481c..a054002 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -590,7 +590,8 @@ class UseCase:
                 raise ValueError(
                     "'num_users' should be the same for a given user profile"
                 )
-            user_preference = user_df.user_preference.unique()
+            # an empty cell means the default value should be used
+            user_preference = user_df.user_preference.fillna(0).unique()
             if len(user_preference) == 1:
                 user_preference = user_preference[0]
             else:
@@ -608,7 +609,8 @@ class UseCase:
                 # assign Appliance arguments
                 appliance_parameters = {}
                 for k in APPLIANCE_ARGS:
-                    if k in row:
+                    # an empty cell means the default value should be used
+                    if k in row and not pd.isna(row[k]):
                         appliance_parameters[k] = row[k]
 
                 # assign windows arguments
-- 
2.43.0


From b239b8dfb6b94b194a9eede2e4249190375232a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 04/30] fix: unpack the switch-on calibration parameters in the
 order they are returned

---
 ramp/core/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index a054002..2400f47 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1933,7 +1933,7 @@ class Appliance:
             Generating high-resolution multi-energy load profiles for remote areas with an open-source stochastic model,
             Energy, 2019, https://doi.org/10.1016/j.energy.2019.04.097.
         """
-        s_peak, mu_peak, op_factor = switch_on_parameters()
+        mu_peak, s_peak, op_factor = switch_on_parameters()
 
         # check if indexes are within peak window
         if inside_peak_window is True and self.fixed == "no":
-- 
2.43.0


From 3b3bdd487f6305885792060ccf8f5a6f40aafa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 05/30] fix: read the values and not the timestamps of a two
 columns power timeseries

---
 ramp/core/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 2400f47..76f6e43 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1170,7 +1170,8 @@ class Appliance:
             power = power.values[:, 0]
 
         elif isinstance(power, str):
-            power = pd.read_json(power).values[:, 0]
+            # the last column holds the values, a first column with timestamps is optional
+            power = pd.read_json(power).values[:, -1]
 
         elif isinstance(power, (float, int)):
             power = power * np.ones(self.user.num_days + 1)
-- 
2.43.0


From 88c5891a0be75788b3b89ffed17088f3b5d12b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 06/30] fix: calculate the peak time range when the peak window
 lasts a single minute

---
 ramp/core/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 76f6e43..ae75827 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -363,7 +363,7 @@ class UseCase:
         for user in self.users:
             tot_max_profile = tot_max_profile + user.maximum_profile
         # Find the peak window within the theoretical max profile
-        peak_window = np.squeeze(
+        peak_window = np.ravel(
             np.argwhere(tot_max_profile == np.amax(tot_max_profile))
         )
         # Within the peak_window, randomly calculate the peak_time using a gaussian distribution
-- 
2.43.0


From 5765b787fc7ddace875fdd37c6ea45f25df0767d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 07/30] fix: maximum profile of an appliance depends on its
 windows, not on the last simulated day

---
 ramp/core/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index ae75827..4bcc45e 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1598,7 +1598,11 @@ class Appliance:
             It assumes the appliance is always switched-on with maximum power and
             numerosity during all of its potential windows of use
         """
-        return self.daily_use * np.mean(self.power) * self.number
+        # built from the windows, as daily_use is overwritten by each simulated day
+        profile = np.zeros(1440)
+        for window in (self.window_1, self.window_2, self.window_3):
+            profile[window[0] : window[1]] = 1
+        return profile * np.mean(self.power) * self.number
 
     def specific_cycle(self, cycle_num, **kwargs):
         """assigining specific duty cycle for the appliance (maximum of three cycles can be assigned)
-- 
2.43.0


From abdeea250985c5c139511a36288a114c00feb45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 08/30] fix: draw the daily preference of each single user in
 parallel processing

---
 ramp/core/core.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 4bcc45e..10fe9ac 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -38,7 +38,8 @@ from ramp.errors_logs.errors import InvalidType, InvalidWindow
 
 
 def single_appliance_daily_load_profile(args):
-    app, args = args
+    app, args, rand_daily_pref = args
+    app.user.rand_daily_pref = rand_daily_pref
     app.generate_load_profile(*args, power=app.power[args[0]])
 
     return args[0], app.daily_use
@@ -480,10 +481,22 @@ class UseCase:
         for day_idx, day in enumerate(self.days):
             day_type = get_day_type(day)
             for user in self.users:
-                for app in user.App_list:
-                    for _ in range(user.num_users):
+                for _ in range(user.num_users):
+                    # each single user has one daily preference, common to all its appliances
+                    rand_daily_pref = (
+                        0
+                        if user.user_preference == 0
+                        else random.randint(1, user.user_preference)
+                    )
+                    for app in user.App_list:
                         t = t + 1
-                        tasks.append((app, (day_idx, self.peak_time_range, day_type)))
+                        tasks.append(
+                            (
+                                app,
+                                (day_idx, self.peak_time_range, day_type),
+                                rand_daily_pref,
+                            )
+                        )
 
         daily_profiles_dict = {}
         timeout = 1
-- 
2.43.0


From 1a49f9092bc91496c41036eff71cb2ac08a2abb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 09/30] fix: return an empty profile in parallel processing
 when there are no appliances

---
 ramp/core/core.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 10fe9ac..5e0de0a 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -520,9 +520,11 @@ class UseCase:
             daily_profiles = np.zeros((self.num_days, 1440))
 
             for day_idx in range(self.num_days):
-                daily_profiles[day_idx, :] = np.vstack(
-                    daily_profiles_dict[day_idx]
-                ).sum(axis=0)
+                # there are no tasks if none of the users has appliances
+                if day_idx in daily_profiles_dict:
+                    daily_profiles[day_idx, :] = np.vstack(
+                        daily_profiles_dict[day_idx]
+                    ).sum(axis=0)
 
         if flat is True:
             answer = daily_profiles.reshape(1, self.num_days * 1440).squeeze()
-- 
2.43.0


From efb687faa4b163ea35127841ef6a04941bee851d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 10/30] fix: account for the loaded appliances in the peak time
 range of an initialized usecase

---
 ramp/core/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 5e0de0a..ba19b51 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -661,6 +661,12 @@ class UseCase:
 
         self.collect_appliances_from_users()
 
+        if self.is_initialized is True:
+            # what initialize() derived from the appliances has to account for the new ones
+            for app in self.appliances:
+                app.check_power_values(self.num_days)
+            self.peak_time_range = self.calc_peak_time_range()
+
 
 class User:
     def __init__(
-- 
2.43.0


From 4509b35b3bb82048f04980b16f0fc7449f8963c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 11/30] fix: read the results of a csv file with Plot.from_file

---
 ramp/post_process/post_process.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ramp/post_process/post_process.py b/ramp/post_process/post_process.py
index c0bf98d..22ccb21 100644
--- a/ramp/post_process/post_process.py
+++ b/ramp/post_process/post_process.py
@@ -156,9 +156,7 @@ class Plot:
         """
 
         if file.endswith(".csv"):
-            df = pd.read_csv(
-                file, sheet_name=sheet_name, index_col=0, header=0, sep=sep
-            )
+            df = pd.read_csv(file, index_col=0, header=0, sep=sep, parse_dates=True)
 
         elif file.endswith(".xlsx"):
             df = pd.read_excel(file, sheet_name=sheet_name, index_col=0, header=0)
-- 
2.43.0


From d9f1ff7c5f26b76b53d393fd7d257a29ce46fb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 12/30] fix: reject a dataframe without DatetimeIndex in Plot

---
 ramp/post_process/post_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramp/post_process/post_process.py b/ramp/post_process/post_process.py
index 22ccb21..64827b1 100644
--- a/ramp/post_process/post_process.py
+++ b/ramp/post_process/post_process.py
@@ -579,7 +579,7 @@ class Plot:
         if not isinstance(other, pd.DataFrame):
             raise ValueError("only pd.DataFrame object is allowed")
 
-        if not (isinstance, other.index, pd.DatetimeIndex):
+        if not isinstance(other.index, pd.DatetimeIndex):
             raise ValueError("a valid dataframe shoud has only a pd.DatatimeIndex")
         if check_index:
             if not self.index.equals(other.index):
-- 
2.43.0


From c640d5c10cfcfc18e92b67103f80dd6e3a59e6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 13/30] fix: accept a list of columns in Plot.shadow

---
 ramp/post_process/post_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramp/post_process/post_process.py b/ramp/post_process/post_process.py
index 64827b1..d6656ae 100644
--- a/ramp/post_process/post_process.py
+++ b/ramp/post_process/post_process.py
@@ -317,7 +317,7 @@ class Plot:
         else:
             df_main = (self.mean()).df["Mean"].to_frame("Average")
 
-        if columns.lower() == "all":
+        if isinstance(columns, str) and columns.lower() == "all":
             columns = self.columns
 
         df_other = self.df.copy()[columns]
-- 
2.43.0


From 96927d5a6de53456128d470b2c689e6290592f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 14/30] fix: refuse a single output path for several input
 files instead of overwriting it

---
 ramp/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramp/cli.py b/ramp/cli.py
index 394f238..bfc7296 100644
--- a/ramp/cli.py
+++ b/ramp/cli.py
@@ -160,7 +160,7 @@ def main():
             num_days = [None] * len(fnames)
 
         if month_files is False:
-            if len(ofnames) == 1:
+            if ofnames == [None]:
                 ofnames = ofnames * len(fnames)
             elif len(fnames) != len(ofnames):
                 raise ValueError(
-- 
2.43.0


From 03fcf75020b8dcab06adf0e79a6fc0a73ea73ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 15/30] fix: compare appliances whose power timeseries differ
 in length

---
 ramp/core/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index ba19b51..aa2534d 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1343,7 +1343,9 @@ class Appliance:
             if hasattr(self, attribute) and hasattr(other_appliance, attribute):
                 answer = np.append(
                     answer,
-                    [getattr(self, attribute) == getattr(other_appliance, attribute)],
+                    np.array_equal(
+                        getattr(self, attribute), getattr(other_appliance, attribute)
+                    ),
                 )
             elif (
                 hasattr(self, attribute) is False
-- 
2.43.0


From a98dbc8c1e000657b5ddd437e01be8809680518f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 16/30] fix: check the power of the appliances added after the
 creation of the usecase

---
 ramp/core/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index aa2534d..a7863c7 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -303,6 +303,8 @@ class UseCase:
                     f"You will simulate {self.__num_days} day(s) from {self.days[0]} until {self.days[-1]+datetime.timedelta(days=1)}"
                 )
 
+            # users and appliances might have been added since the last call
+            self.collect_appliances_from_users()
             # Verify that each appliance has long enough power data for the simulated time
             for app in self.appliances:
                 app.check_power_values(self.__num_days)
-- 
2.43.0


From 823469ab624fcd138479d99e2f1cd268bf4ad664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 17/30] fix: take new dates into account when the
 initialization of a usecase is forced

---
 ramp/core/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index a7863c7..07b978e 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -233,6 +233,9 @@ class UseCase:
                     f"The usecase '{self.name}' is already initialized but argument `force=True` was provided, reinitializing..."
                 )
                 self.days = None
+                if self.date_start is not None and self.date_end is not None:
+                    # the number of days follows from the dates, unless it is provided again
+                    self.__num_days = None
 
             if num_days is not None:
                 self.__num_days = num_days
-- 
2.43.0


From 319cf100f1c4c60cb9c79b9ad33992b535d3317f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 18/30] fix: keep the start of a randomised window before its
 end

---
 ramp/core/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 07b978e..6a0f0a9 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1609,6 +1609,8 @@ class Appliance:
             random.randint(_window[0] - _random_var, _window[0] + _random_var),
             random.randint(_window[1] - _random_var, _window[1] + _random_var),
         ]
+        # a large variability could put the end of the window before its start
+        rand_window.sort()
         if rand_window[0] < window_range_limits[0]:
             rand_window[0] = window_range_limits[0]
         if rand_window[1] > window_range_limits[1]:
-- 
2.43.0


From af24deabf068d49ec073ef0ec46a66b406eb79ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 19/30] fix: run .py input files without a shell and report
 their failure

---
 ramp/ramp_run.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ramp/ramp_run.py b/ramp/ramp_run.py
index 861f7e4..8a65c6e 100644
--- a/ramp/ramp_run.py
+++ b/ramp/ramp_run.py
@@ -24,6 +24,7 @@ import os
 
 # %% Import required modules
 
+import subprocess
 import sys
 from ramp.core.core import UseCase
 import ramp.post_process as pp
@@ -61,7 +62,7 @@ def run_usecase(
             return Profiles_list
     elif fname.endswith(".py"):
         if os.path.exists(fname):
-            os.system(f"python {fname}")
+            subprocess.run([sys.executable, fname], check=True)
         else:
             raise FileNotFoundError(f"{fname} is not an existing file")
     else:
-- 
2.43.0


From 471bdfce4ee7138409f29f9754473eaf92f24287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 20/30] fix: convert input files which are not in the current
 working directory

---
 ramp/ramp_convert_old_input_files.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ramp/ramp_convert_old_input_files.py b/ramp/ramp_convert_old_input_files.py
index b8c4525..bf49205 100644
--- a/ramp/ramp_convert_old_input_files.py
+++ b/ramp/ramp_convert_old_input_files.py
@@ -1,6 +1,6 @@
 # %% Import required modules
 
-import sys, os, importlib
+import sys, os, importlib.util
 
 sys.path.append("../")
 import argparse
@@ -95,7 +95,10 @@ def convert_old_user_input_file(
     output_fname = os.path.join(output_path, output_fname)
 
     sys.path.insert(0, os.path.dirname(os.path.abspath(fname_path)))
-    file_module = importlib.import_module(fname)
+    # load the module from its path, the file does not need to be in the current working directory
+    spec = importlib.util.spec_from_file_location(fname, fname_path)
+    file_module = importlib.util.module_from_spec(spec)
+    spec.loader.exec_module(file_module)
 
     user_list = file_module.User_list
 
-- 
2.43.0


From 49fa2bc101dfb15871cec44a9391f85d937f995b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 21/30] fix: read power timeseries from a sheet with spaces in
 its name

---
 ramp/core/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ramp/core/utils.py b/ramp/core/utils.py
index cac6936..9ae2d71 100644
--- a/ramp/core/utils.py
+++ b/ramp/core/utils.py
@@ -36,6 +36,8 @@ def read_input_file(filename):
             # the timeseries is provided as a range of values in the spreadsheet
             if "=" in v:
                 ts_sheet_name, ts_range = v.replace("=", "").split("!")
+                # sheet names with special characters are between quotes
+                ts_sheet_name = ts_sheet_name.strip("'")
                 cr = CellRange(ts_range)
                 if cr.size["columns"] == 1:
                     ts = json.dumps(
-- 
2.43.0


From fd9140befbc44ca8886a3a3e602db655da247110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 22/30] fix: calculate the peak time range of a usecase which
 is not initialized yet

---
 ramp/core/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 6a0f0a9..d80cbea 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1026,6 +1026,7 @@ appliances: no appliances assigned to the user.
                     "You are generating ramp demand from a User not bounded to a UseCase instance, a default one has been created for you "
                 )
                 UseCase(name=f"{self.user_name} default usecase", users=[self])
+            if self.usecase.peak_time_range is None:
                 self.usecase.peak_time_range = self.usecase.calc_peak_time_range()
             peak_time_range = self.usecase.peak_time_range
 
-- 
2.43.0


From fead2dcd4cbf8878f6ab21a7eb414ad4fe2823cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 23/30] fix: make the profiles generated in parallel
 reproducible with a random seed

---
 ramp/core/core.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index d80cbea..306a028 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -38,7 +38,9 @@ from ramp.errors_logs.errors import InvalidType, InvalidWindow
 
 
 def single_appliance_daily_load_profile(args):
-    app, args, rand_daily_pref = args
+    app, args, rand_daily_pref, task_seed = args
+    # the random generator of a worker process does not follow the one of its parent
+    random.seed(task_seed)
     app.user.rand_daily_pref = rand_daily_pref
     app.generate_load_profile(*args, power=app.power[args[0]])
 
@@ -500,6 +502,7 @@ class UseCase:
                                 app,
                                 (day_idx, self.peak_time_range, day_type),
                                 rand_daily_pref,
+                                random.getrandbits(64),
                             )
                         )
 
@@ -512,10 +515,10 @@ class UseCase:
                 desc=f"Computing appliances profiles",
                 unit="unit",
             ) as pbar:
-                imap_unordered_it = pool.imap_unordered(
+                imap_it = pool.imap(
                     single_appliance_daily_load_profile, tasks, chunksize=4
                 )
-                for prof_i, daily_load in imap_unordered_it:
+                for prof_i, daily_load in imap_it:
                     if prof_i in daily_profiles_dict:
                         daily_profiles_dict[prof_i].append(daily_load)
                     else:
-- 
2.43.0


From f23c154ca1c42a9ab7c50757a1e86d599230bce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 24/30] fix: switch-on events of an appliance whose func_cycle
 is 0

---
 ramp/core/core.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 306a028..d819b74 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1868,11 +1868,14 @@ class Appliance:
             Energy, 2019, https://doi.org/10.1016/j.energy.2019.04.097.
         """
 
+        # a switch-on event lasts at least one minute
+        func_cycle = max(self.func_cycle, 1)
+
         indexes_choice = []
         for s in self.free_spots:
-            if s.stop - s.start >= self.func_cycle:
+            if s.stop - s.start >= func_cycle:
                 indexes_choice += [
-                    *range(s.start, s.stop - self.func_cycle + 1)
+                    *range(s.start, s.stop - func_cycle + 1)
                 ]  # this will be fast with cython
         n_choices = len(indexes_choice)
         if n_choices > 0:
@@ -1881,7 +1884,7 @@ class Appliance:
             switch_on = indexes_choice[random.randint(0, n_choices - 1)]
             spot_idx = None
             for i, fs in enumerate(self.free_spots):
-                if fs.start <= switch_on <= fs.stop - self.func_cycle:
+                if fs.start <= switch_on <= fs.stop - func_cycle:
                     spot_idx = i
                     break
 
@@ -1889,16 +1892,16 @@ class Appliance:
                 rand_time, self.free_spots[spot_idx].stop - switch_on
             )
 
-            if largest_duration > self.func_cycle:
+            if largest_duration > func_cycle:
                 indexes = np.arange(
                     switch_on,
                     switch_on
-                    + (int(random.uniform(self.func_cycle, largest_duration))),
+                    + (int(random.uniform(func_cycle, largest_duration))),
                 )  # TODO randint
-            elif largest_duration == self.func_cycle:
+            elif largest_duration == func_cycle:
                 indexes = np.arange(switch_on, switch_on + largest_duration)
             else:
-                print("func time", self.func_cycle)
+                print("func time", func_cycle)
                 print("max window", self.free_spots[spot_idx].stop)
                 print("rand_time", rand_time)
                 print("upper_limit", largest_duration)
-- 
2.43.0


From 0fe719119a1200abc13852f779952e683cc1e323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:40 +0000
Subject: [PATCH 25/30] fix: withdraw a one-minute event from the free range it
 lies in

A free range ends before its stop minute, so that an event at the first
minute of a window adjacent to the previous one was looked for in the
previous range and stayed available for another event.
---
 ramp/core/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index d819b74..505dcc4 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1543,7 +1543,7 @@ class Appliance:
         # identify which of the unallocated time ranges contain the switch-on event
         spot_idx = None
         for i, fs in enumerate(self.free_spots):
-            if indexes[0] >= fs.start and indexes[-1] <= fs.stop:
+            if indexes[0] >= fs.start and indexes[-1] < fs.stop:
                 spot_idx = i
                 break
         if spot_idx is not None:
-- 
2.43.0


From cc4234f1b7bd3e8968a5afae4ea251fff27825e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:33 +0000
Subject: [PATCH 26/30] fix: refuse power texts which are json but not an array
 with a ValueError

---
 ramp/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramp/core/utils.py b/ramp/core/utils.py
index 9ae2d71..713eaa1 100644
--- a/ramp/core/utils.py
+++ b/ramp/core/utils.py
@@ -73,7 +73,7 @@ def read_input_file(filename):
             else:
                 try:
                     ts = json.loads(v)
-                    if len(ts) != 366:
+                    if not isinstance(ts, list) or len(ts) != 366:
                         raise (
                             ValueError(
                                 f"The provided power timeseries of the appliance '{appliance_name}' of user '{user_name}' in '{filename}' does not contain 366 values as expected\n{POSSIBLE_FORMATS}"
-- 
2.43.0


From 4528a3f99bb61412e783f188515e6a94e57ecf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:11 +0000
Subject: [PATCH 27/30] fix: compare appliances of which only one has a name
 without failing

---
 ramp/core/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 505dcc4..7b45359 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1363,10 +1363,12 @@ class Appliance:
                 answer = np.append(answer, [True])
             else:
                 if hasattr(self, attribute) is False:
-                    print(f"{attribute} of appliance {self.name} is not assigned")
+                    print(
+                        f"{attribute} of appliance {getattr(self, 'name', '')} is not assigned"
+                    )
                 else:
                     print(
-                        f"{attribute} of appliance {other_appliance.name} is not assigned"
+                        f"{attribute} of appliance {getattr(other_appliance, 'name', '')} is not assigned"
                     )
                 answer = np.append(answer, [False])
         return answer.all()
-- 
2.43.0


From adf4348ec8c9ddc7d6fd5f46e22e28f53e8d75a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:37 +0000
Subject: [PATCH 28/30] fix: order monthly input files by the number in their
 own name

The digits of the path of the directory were part of the number: with a digit
in that path, files without a number were simulated in an arbitrary order and
3.xlsx came before 02.xlsx.
---
 ramp/cli.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ramp/cli.py b/ramp/cli.py
index bfc7296..fd3a112 100644
--- a/ramp/cli.py
+++ b/ramp/cli.py
@@ -126,7 +126,11 @@ def main():
                     for f in os.listdir(fnames[0])
                     if f.endswith(ext)
                 ]
-                fnames.sort(key=lambda f: int("".join(filter(str.isdigit, f))))
+                fnames.sort(
+                    key=lambda f: int(
+                        "".join(filter(str.isdigit, os.path.basename(f)))
+                    )
+                )
 
                 if len(fnames) == 12:
                     print(
-- 
2.43.0


From 32907c6125b8f7fb2a2275865dc48de919bef626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:14 +0000
Subject: [PATCH 29/30] fix: convert every legacy import statement of an input
 file

Only the last line with a legacy import was changed, an input file with two of
them could not be converted (and an empty file raised IndexError).
---
 ramp/ramp_convert_old_input_files.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ramp/ramp_convert_old_input_files.py b/ramp/ramp_convert_old_input_files.py
index bf49205..32b7cca 100644
--- a/ramp/ramp_convert_old_input_files.py
+++ b/ramp/ramp_convert_old_input_files.py
@@ -72,10 +72,8 @@ def convert_old_user_input_file(
         for i, l in enumerate(lines):
             if "from core import" in l:
                 line_to_change = i
-        # Change import statement by explicitly naming the full package path
-        lines[line_to_change] = lines[line_to_change].replace(
-            "from core import", "from ramp.core.core import"
-        )
+                # Change import statement by explicitly naming the full package path
+                lines[i] = l.replace("from core import", "from ramp.core.core import")
 
     # Modify import statement in file
     if line_to_change != -1:
-- 
2.43.0


From 5cd74fd86e95ac5f7bf820f7dbe98a3d620f2f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:17 +0000
Subject: [PATCH 30/30] fix: only remove the file type from the name of the
 converted file

Every '.py' in the name was replaced by the suffix: my.pyload.py became
myload.xlsx.
---
 ramp/ramp_convert_old_input_files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramp/ramp_convert_old_input_files.py b/ramp/ramp_convert_old_input_files.py
index 32b7cca..5e1e35a 100644
--- a/ramp/ramp_convert_old_input_files.py
+++ b/ramp/ramp_convert_old_input_files.py
@@ -89,7 +89,7 @@ def convert_old_user_input_file(
 
     if output_path is None:
         output_path = os.path.dirname(fname_path)
-    output_fname = fname_path.split(os.path.sep)[-1].replace(".py", suffix)
+    output_fname = os.path.splitext(fname_path.split(os.path.sep)[-1])[0] + suffix
     output_fname = os.path.join(output_path, output_fname)
 
     sys.path.insert(0, os.path.dirname(os.path.abspath(fname_path)))
-- 
2.43.0

