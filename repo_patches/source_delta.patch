From d49e571e313bb9680cf02bd0a2e30a4bc2c5f990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:13 +0000
Subject: [PATCH 01/37] fix: seed the random generator before its first use and
 accept seed 0

---
 ramp/core/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 1578c93..acfbdd8 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -104,14 +104,14 @@ class UseCase:
             users = []
         self.add_user(users)
 
+        # Set global random seed if it is specified
+        if self.random_seed is not None:
+            random.seed(self.random_seed)
+
         self.collect_appliances_from_users()
         if self.date_start is not None and self.date_end is not None:
             self.initialize()
 
-        # Set global random seed if it is specified
-        if self.random_seed:
-            random.seed(self.random_seed)
-
     @property
     def date_start(self):
         """Start date of the daily profiles generated by the UseCase instance"""
-- 
2.43.0


From 66627535cf88362af6a43f4383c4c23465dfe366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:13 +0000
Subject: [PATCH 02/37] fix: save a power series whose first and last values
 are equal as a series

---
 ramp/core/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index acfbdd8..59c18b7 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1254,7 +1254,7 @@ class Appliance:
                     dm[attribute + "_end"] = window_value[1]
                 elif attribute == "power":
                     power_values = getattr(self, attribute)
-                    if np.diff(power_values).sum() == 0:
+                    if (power_values == power_values[0]).all():
                         power_values = power_values[0]
                     else:
                         power_values = power_values.tolist()
@@ -1271,7 +1271,7 @@ class Appliance:
                         dm[attribute + "_end"] = window_value[1]
                     elif old_attribute == "POWER":
                         power_values = getattr(self, old_attribute)
-                        if np.diff(power_values).sum() == 0:
+                        if (power_values == power_values[0]).all():
                             power_values = power_values[0]
                         else:
                             power_values = power_values.tolist()
-- 
2.43.0


From c964f39c924f86ff66e5bc93d447cc21f079d9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:13 +0000
Subject: [PATCH 03/37] fix: peak time range of a profile with a single peak
 minute

---
 ramp/core/core.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 59c18b7..796b14b 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -363,9 +363,7 @@ class UseCase:
         for user in self.users:
             tot_max_profile = tot_max_profile + user.maximum_profile
         # Find the peak window within the theoretical max profile
-        peak_window = np.squeeze(
-            np.argwhere(tot_max_profile == np.amax(tot_max_profile))
-        )
+        peak_window = np.argwhere(tot_max_profile == np.amax(tot_max_profile))[:, 0]
         # Within the peak_window, randomly calculate the peak_time using a gaussian distribution
         peak_time = round(
             random.normalvariate(
-- 
2.43.0


From 159a5eb98b5d511c40e0c29a51af29f831e93c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:13 +0000
Subject: [PATCH 04/37] fix: the theoretical maximum profile does not depend on
 the profiles generated so far

---
 ramp/core/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 796b14b..cd7b4da 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1593,7 +1593,11 @@ class Appliance:
             It assumes the appliance is always switched-on with maximum power and
             numerosity during all of its potential windows of use
         """
-        return self.daily_use * np.mean(self.power) * self.number
+        # the windows, and not daily_use, as the latter holds the last generated profile
+        profile = np.zeros(1440)
+        for window in (self.window_1, self.window_2, self.window_3):
+            profile[window[0] : window[1]] = 0.001
+        return profile * np.mean(self.power) * self.number
 
     def specific_cycle(self, cycle_num, **kwargs):
         """assigining specific duty cycle for the appliance (maximum of three cycles can be assigned)
-- 
2.43.0


From e3662d96236547cdd4d5ee24b84cfe896bb292a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:13 +0000
Subject: [PATCH 05/37] fix: remove a switch-on event from the free spot which
 contains it

---
 ramp/core/core.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index cd7b4da..f8cf0b5 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1506,20 +1506,23 @@ class Appliance:
         # identify which of the unallocated time ranges contain the switch-on event
         spot_idx = None
         for i, fs in enumerate(self.free_spots):
-            if indexes[0] >= fs.start and indexes[-1] <= fs.stop:
+            if indexes[0] >= fs.start and indexes[-1] < fs.stop:
                 spot_idx = i
                 break
         if spot_idx is not None:
             spot_to_split = self.free_spots.pop(spot_idx)
 
-            if indexes[0] == spot_to_split.start and indexes[-1] == spot_to_split.stop:
+            if (
+                indexes[0] == spot_to_split.start
+                and indexes[-1] == spot_to_split.stop - 1
+            ):
                 pass  # nothing to do as the whole range should be removed, which is already the case from line above
             elif indexes[0] == spot_to_split.start:
                 # reinsert a range going from end of indexes up to the end of picked range
                 self.free_spots.insert(
                     spot_idx, slice(indexes[-1] + 1, spot_to_split.stop, None)
                 )
-            elif indexes[-1] == spot_to_split.stop:
+            elif indexes[-1] == spot_to_split.stop - 1:
                 # reinsert a range going from beginning of picked range up to the beginning of indexes
                 self.free_spots.insert(
                     spot_idx, slice(spot_to_split.start, indexes[0], None)
-- 
2.43.0


From 2a1d606c391f18c5e80a4d442661775260512eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:13 +0000
Subject: [PATCH 06/37] fix: randomised windows whose limits cross each other

---
 ramp/core/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index f8cf0b5..90cb156 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1584,6 +1584,9 @@ class Appliance:
         if rand_window[1] > window_range_limits[1]:
             rand_window[1] = window_range_limits[1]
 
+        # the two draws may cross when the variability is larger than half of the window
+        rand_window.sort()
+
         return rand_window
 
     @property
-- 
2.43.0


From 396407b827c82a7d325ef8ba4800198ca6fab61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:13 +0000
Subject: [PATCH 07/37] fix: overlapping randomised windows do not offer the
 same minutes twice

---
 ramp/core/core.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 90cb156..db78d50 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -2039,9 +2039,13 @@ class Appliance:
 
         # steps 2c-2e repeated until the sum of the durations of all the switch-on events equals rand_time
 
-        self.free_spots = [
-            slice(rw[0], rw[1], None) for rw in rand_windows if rw[0] != rw[1]
-        ]
+        self.free_spots = []
+        for rw in sorted(rw for rw in rand_windows if rw[0] != rw[1]):
+            if self.free_spots and rw[0] < self.free_spots[-1].stop:
+                # overlapping windows are merged, such that no minute is available twice
+                last = self.free_spots.pop()
+                rw = [last.start, max(last.stop, rw[1])]
+            self.free_spots.append(slice(rw[0], rw[1], None))
 
         tot_time = 0
         while tot_time <= rand_time and rand_time != 0:
-- 
2.43.0


From 2b8d6069a53384aecc567f2f3d2f90719be76af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:13 +0000
Subject: [PATCH 08/37] fix: draw the daily preference of the users in parallel
 processing too

---
 ramp/core/core.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index db78d50..04185fb 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -38,7 +38,8 @@ from ramp.errors_logs.errors import InvalidType, InvalidWindow
 
 
 def single_appliance_daily_load_profile(args):
-    app, args = args
+    app, args, rand_daily_pref = args
+    app.user.rand_daily_pref = rand_daily_pref
     app.generate_load_profile(*args, power=app.power[args[0]])
 
     return args[0], app.daily_use
@@ -478,10 +479,17 @@ class UseCase:
         for day_idx, day in enumerate(self.days):
             day_type = get_day_type(day)
             for user in self.users:
-                for app in user.App_list:
-                    for _ in range(user.num_users):
+                for _ in range(user.num_users):
+                    user.draw_daily_preference()
+                    for app in user.App_list:
                         t = t + 1
-                        tasks.append((app, (day_idx, self.peak_time_range, day_type)))
+                        tasks.append(
+                            (
+                                app,
+                                (day_idx, self.peak_time_range, day_type),
+                                user.rand_daily_pref,
+                            )
+                        )
 
         daily_profiles_dict = {}
         timeout = 1
@@ -967,6 +975,12 @@ appliances: no appliances assigned to the user.
             name=name,
         )
 
+    def draw_daily_preference(self) -> None:
+        """Draw the preference of the user for the current day among its `user_preference` preferences"""
+        self.rand_daily_pref = (
+            0 if self.user_preference == 0 else random.randint(1, self.user_preference)
+        )
+
     def generate_single_load_profile(
         self, prof_i: int = 0, peak_time_range: np.array = None, day_type: int = 0
     ):
@@ -1001,9 +1015,7 @@ appliances: no appliances assigned to the user.
 
         single_load = np.zeros(1440)
 
-        self.rand_daily_pref = (
-            0 if self.user_preference == 0 else random.randint(1, self.user_preference)
-        )
+        self.draw_daily_preference()
 
         for (
             App
-- 
2.43.0


From 872519b469a81f9abfbfabb936159fc37e58ef85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:14 +0000
Subject: [PATCH 09/37] fix: parallel processing of a usecase without any
 appliance to simulate

---
 ramp/core/core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 04185fb..77945c6 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -513,9 +513,10 @@ class UseCase:
             daily_profiles = np.zeros((self.num_days, 1440))
 
             for day_idx in range(self.num_days):
-                daily_profiles[day_idx, :] = np.vstack(
-                    daily_profiles_dict[day_idx]
-                ).sum(axis=0)
+                if day_idx in daily_profiles_dict:
+                    daily_profiles[day_idx, :] = np.vstack(
+                        daily_profiles_dict[day_idx]
+                    ).sum(axis=0)
 
         if flat is True:
             answer = daily_profiles.reshape(1, self.num_days * 1440).squeeze()
-- 
2.43.0


From ec7b60a39bba2286c3b8d2c7bcd21a8e84c8aea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:14 +0000
Subject: [PATCH 10/37] fix: random_seed makes parallel processing reproducible

---
 ramp/core/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 77945c6..8a69851 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -38,7 +38,9 @@ from ramp.errors_logs.errors import InvalidType, InvalidWindow
 
 
 def single_appliance_daily_load_profile(args):
-    app, args, rand_daily_pref = args
+    app, args, rand_daily_pref, seed = args
+    if seed is not None:
+        random.seed(seed)
     app.user.rand_daily_pref = rand_daily_pref
     app.generate_load_profile(*args, power=app.power[args[0]])
 
@@ -488,6 +490,10 @@ class UseCase:
                                 app,
                                 (day_idx, self.peak_time_range, day_type),
                                 user.rand_daily_pref,
+                                # the workers do not share the random generator
+                                None
+                                if self.random_seed is None
+                                else random.getrandbits(64),
                             )
                         )
 
-- 
2.43.0


From 33840d0a91ddc6af89558be522d06cd5e0260bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:14 +0000
Subject: [PATCH 11/37] fix: forced reinitialization follows the start and end
 dates

---
 ramp/core/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 8a69851..6523447 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -235,6 +235,9 @@ class UseCase:
                     f"The usecase '{self.name}' is already initialized but argument `force=True` was provided, reinitializing..."
                 )
                 self.days = None
+                if self.date_start is not None and self.date_end is not None:
+                    # the dates may have changed since the previous initialization
+                    self.__num_days = None
 
             if num_days is not None:
                 self.__num_days = num_days
-- 
2.43.0


From a7f81d8fb6ef33ffa1302d392000d828ce7de559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:14 +0000
Subject: [PATCH 12/37] fix: check the power data of the appliances added after
 the creation of the usecase

---
 ramp/core/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 6523447..3fe8daf 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -309,6 +309,7 @@ class UseCase:
                 )
 
             # Verify that each appliance has long enough power data for the simulated time
+            self.collect_appliances_from_users()
             for app in self.appliances:
                 app.check_power_values(self.__num_days)
 
-- 
2.43.0


From 82b568866ac806987fd53a4b17708bb767c58a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:14 +0000
Subject: [PATCH 13/37] fix: no division by zero when the number of appliances
 is 0

---
 ramp/core/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 3fe8daf..f660cae 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1962,6 +1962,9 @@ class Appliance:
             Generating high-resolution multi-energy load profiles for remote areas with an open-source stochastic model,
             Energy, 2019, https://doi.org/10.1016/j.energy.2019.04.097.
         """
+        if self.number == 0:
+            return 0
+
         s_peak, mu_peak, op_factor = switch_on_parameters()
 
         # check if indexes are within peak window
-- 
2.43.0


From cf1d3a3368b9fe860cde753c0b2661e9afdb229e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:07 +0000
Subject: [PATCH 14/37] fix: compare appliances whose power data have different
 lengths

---
 ramp/core/core.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index f660cae..014f722 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1338,10 +1338,14 @@ class Appliance:
         answer = np.array([])
         for attribute in APPLIANCE_ATTRIBUTES:
             if hasattr(self, attribute) and hasattr(other_appliance, attribute):
-                answer = np.append(
-                    answer,
-                    [getattr(self, attribute) == getattr(other_appliance, attribute)],
-                )
+                mine = getattr(self, attribute)
+                theirs = getattr(other_appliance, attribute)
+                if attribute == "power" and np.size(mine) != np.size(theirs):
+                    # the same constant power may cover a different number of days
+                    equal = (mine == mine[0]).all() and (theirs == mine[0]).all()
+                else:
+                    equal = mine == theirs
+                answer = np.append(answer, [equal])
             elif (
                 hasattr(self, attribute) is False
                 and hasattr(other_appliance, attribute) is False
-- 
2.43.0


From c53e69fc98ca64670426e9e964d168c862cc53b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 15/37] fix: use the values, not the timestamps, of a two
 columns power timeseries

---
 ramp/core/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 014f722..d9fe938 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1189,7 +1189,8 @@ class Appliance:
             power = power.values[:, 0]
 
         elif isinstance(power, str):
-            power = pd.read_json(power).values[:, 0]
+            # the values are in the last column, the first of two columns being the timestamps
+            power = pd.read_json(power).values[:, -1]
 
         elif isinstance(power, (float, int)):
             power = power * np.ones(self.user.num_days + 1)
-- 
2.43.0


From e4f2260b94e870933f85b7f3263ffd1e33fd0407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 16/37] fix: appliances with a func_cycle of 0 minutes

---
 ramp/core/core.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index d9fe938..f279594 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1863,11 +1863,13 @@ class Appliance:
             Energy, 2019, https://doi.org/10.1016/j.energy.2019.04.097.
         """
 
+        # a switch-on event lasts at least one minute
+        min_duration = max(self.func_cycle, 1)
         indexes_choice = []
         for s in self.free_spots:
-            if s.stop - s.start >= self.func_cycle:
+            if s.stop - s.start >= min_duration:
                 indexes_choice += [
-                    *range(s.start, s.stop - self.func_cycle + 1)
+                    *range(s.start, s.stop - min_duration + 1)
                 ]  # this will be fast with cython
         n_choices = len(indexes_choice)
         if n_choices > 0:
@@ -1876,7 +1878,7 @@ class Appliance:
             switch_on = indexes_choice[random.randint(0, n_choices - 1)]
             spot_idx = None
             for i, fs in enumerate(self.free_spots):
-                if fs.start <= switch_on <= fs.stop - self.func_cycle:
+                if fs.start <= switch_on <= fs.stop - min_duration:
                     spot_idx = i
                     break
 
@@ -1884,13 +1886,12 @@ class Appliance:
                 rand_time, self.free_spots[spot_idx].stop - switch_on
             )
 
-            if largest_duration > self.func_cycle:
+            if largest_duration > min_duration:
                 indexes = np.arange(
                     switch_on,
-                    switch_on
-                    + (int(random.uniform(self.func_cycle, largest_duration))),
+                    switch_on + (int(random.uniform(min_duration, largest_duration))),
                 )  # TODO randint
-            elif largest_duration == self.func_cycle:
+            elif largest_duration == min_duration:
                 indexes = np.arange(switch_on, switch_on + largest_duration)
             else:
                 print("func time", self.func_cycle)
-- 
2.43.0


From c0c15768d7ff2d7dfad90719f2518e1fc3b05ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:40 +0000
Subject: [PATCH 17/37] fix: compute the peak time range of command line runs
 from the users of the input file

---
 ramp/ramp_run.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ramp/ramp_run.py b/ramp/ramp_run.py
index 861f7e4..a47615a 100644
--- a/ramp/ramp_run.py
+++ b/ramp/ramp_run.py
@@ -49,8 +49,12 @@ def run_usecase(
         usecase = UseCase(
             date_start=date_start, date_end=date_end, parallel_processing=parallel
         )
-        usecase.initialize(num_days=num_days)
         usecase.load(fname)
+        if usecase.is_initialized:
+            # both dates were provided and they prevail over num_days
+            usecase.initialize(force=True)
+        else:
+            usecase.initialize(num_days=num_days)
         Profiles_list = usecase.generate_daily_load_profiles(flat=False)
 
         if plot is True:
-- 
2.43.0


From 9fa764e81ad135679845e8578e233398a26d5e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 18/37] fix: comparing an appliance with an object of another
 type

---
 ramp/core/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index f279594..44ea22c 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1336,6 +1336,8 @@ class Appliance:
                 1. have the same attributes
                 2. all their attributes have the same value
         """
+        if not isinstance(other_appliance, Appliance):
+            return NotImplemented
         answer = np.array([])
         for attribute in APPLIANCE_ATTRIBUTES:
             if hasattr(self, attribute) and hasattr(other_appliance, attribute):
-- 
2.43.0


From e5ceeee3be86b8ce9ce865416e410140462b7872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:33 +0000
Subject: [PATCH 19/37] fix: an appliance with duty cycles equal to one of the
 user is not added twice

---
 ramp/core/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 44ea22c..15448f6 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -809,6 +809,8 @@ appliances: no appliances assigned to the user.
         for i in duty_cycle_parameters:
             app.specific_cycle(i, **duty_cycle_parameters[i])
 
+        # windows() adds the appliance before its duty cycles are known
+        self.App_list = [a for a in self.App_list if a is not app]
         self._add_appliance_instance(app)
 
         return app
-- 
2.43.0


From f25b2c275cce8cbbd93178eadd85a52cb46f661a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:37 +0000
Subject: [PATCH 20/37] fix: windows given as tuples compare equal to the same
 windows given as lists

---
 ramp/core/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 15448f6..36c9c67 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1348,6 +1348,9 @@ class Appliance:
                 if attribute == "power" and np.size(mine) != np.size(theirs):
                     # the same constant power may cover a different number of days
                     equal = (mine == mine[0]).all() and (theirs == mine[0]).all()
+                elif "window_" in attribute or "cw" in attribute:
+                    # windows may be lists, tuples or arrays
+                    equal = np.array_equal(mine, theirs)
                 else:
                     equal = mine == theirs
                 answer = np.append(answer, [equal])
-- 
2.43.0


From 87ac39cce11ee049325c0da247ae4477295cc7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:03 +0000
Subject: [PATCH 21/37] fix: power series on a sheet whose name has to be
 quoted could not be read

---
 ramp/core/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ramp/core/utils.py b/ramp/core/utils.py
index cac6936..727f5ac 100644
--- a/ramp/core/utils.py
+++ b/ramp/core/utils.py
@@ -36,6 +36,8 @@ def read_input_file(filename):
             # the timeseries is provided as a range of values in the spreadsheet
             if "=" in v:
                 ts_sheet_name, ts_range = v.replace("=", "").split("!")
+                # sheet names with special characters are quoted in cell references
+                ts_sheet_name = ts_sheet_name.strip("'").replace("''", "'")
                 cr = CellRange(ts_range)
                 if cr.size["columns"] == 1:
                     ts = json.dumps(
-- 
2.43.0


From 64a482079be3f3ddc8509a530b7024c104285f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:03 +0000
Subject: [PATCH 22/37] fix: a power given as the text of a single number is
 refused with a ValueError

---
 ramp/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramp/core/utils.py b/ramp/core/utils.py
index 727f5ac..aeaec31 100644
--- a/ramp/core/utils.py
+++ b/ramp/core/utils.py
@@ -73,7 +73,7 @@ def read_input_file(filename):
             else:
                 try:
                     ts = json.loads(v)
-                    if len(ts) != 366:
+                    if not isinstance(ts, list) or len(ts) != 366:
                         raise (
                             ValueError(
                                 f"The provided power timeseries of the appliance '{appliance_name}' of user '{user_name}' in '{filename}' does not contain 366 values as expected\n{POSSIBLE_FORMATS}"
-- 
2.43.0


From f37a39b23ff1ad95382aa8a768d7290daed8d642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:05 +0000
Subject: [PATCH 23/37] fix: duty cycles whose phases are randomised to 0
 minutes

---
 ramp/core/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 36c9c67..bd0b08d 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1954,8 +1954,9 @@ class Appliance:
                     )
                     return self.rand_switch_on_window(rand_time)
 
+                # a cycle whose phases were all rounded down to 0 minutes cannot limit the event
                 if (
-                    indexes.size > duty_cycle_duration
+                    indexes.size > duty_cycle_duration > 0
                     and self.continuous_duty_cycle == 0
                 ):
                     # Limit switch_on_window to duration of duty_cycle
-- 
2.43.0


From b1ee6f48b895f22d09e84846ef78bbd602756231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:05 +0000
Subject: [PATCH 24/37] fix: no endless search of a switch-on event when the
 remaining free time lies outside the duty cycle windows

---
 ramp/core/core.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index bd0b08d..e434e51 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1874,6 +1874,19 @@ class Appliance:
         min_duration = max(self.func_cycle, 1)
         indexes_choice = []
         for s in self.free_spots:
+            if self.fixed_cycle > 0 and not any(
+                range_within_window(s.start, s.stop - 1, cw)
+                for cw in (
+                    self.cw11,
+                    self.cw12,
+                    self.cw21,
+                    self.cw22,
+                    self.cw31,
+                    self.cw32,
+                )
+            ):
+                # an event in this spot would fall outside the windows of all duty cycles
+                continue
             if s.stop - s.start >= min_duration:
                 indexes_choice += [
                     *range(s.start, s.stop - min_duration + 1)
-- 
2.43.0


From 8b430a4467653fa93cc69738a7f314a8421139a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:47 +0000
Subject: [PATCH 25/37] fix: ramp_convert only found input files that are
 importable from the current folder

---
 ramp/ramp_convert_old_input_files.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ramp/ramp_convert_old_input_files.py b/ramp/ramp_convert_old_input_files.py
index b8c4525..8211780 100644
--- a/ramp/ramp_convert_old_input_files.py
+++ b/ramp/ramp_convert_old_input_files.py
@@ -1,6 +1,6 @@
 # %% Import required modules
 
-import sys, os, importlib
+import sys, os, importlib.util
 
 sys.path.append("../")
 import argparse
@@ -87,15 +87,17 @@ def convert_old_user_input_file(
         with open(fname_path, "a") as fp:
             fp.write(convert_names)
 
-    fname = fname_path.replace(".py", "").replace(os.path.sep, ".")
+    fname = os.path.splitext(os.path.basename(fname_path))[0]
 
     if output_path is None:
         output_path = os.path.dirname(fname_path)
-    output_fname = fname_path.split(os.path.sep)[-1].replace(".py", suffix)
-    output_fname = os.path.join(output_path, output_fname)
+    output_fname = os.path.join(output_path, fname + suffix)
 
     sys.path.insert(0, os.path.dirname(os.path.abspath(fname_path)))
-    file_module = importlib.import_module(fname)
+    # the file can be anywhere, it does not need to be importable from the current folder
+    spec = importlib.util.spec_from_file_location(fname, fname_path)
+    file_module = importlib.util.module_from_spec(spec)
+    spec.loader.exec_module(file_module)
 
     user_list = file_module.User_list
 
-- 
2.43.0


From 7078140ab54b58b73f6085b16474bf000e382709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:47 +0000
Subject: [PATCH 26/37] fix: only the last 'from core import' line of a legacy
 input file was adapted

---
 ramp/ramp_convert_old_input_files.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/ramp/ramp_convert_old_input_files.py b/ramp/ramp_convert_old_input_files.py
index 8211780..5fa3f72 100644
--- a/ramp/ramp_convert_old_input_files.py
+++ b/ramp/ramp_convert_old_input_files.py
@@ -61,7 +61,7 @@ def convert_old_user_input_file(
 
     """
 
-    line_to_change = -1
+    lines_to_change = []
 
     # Check if the lines to save the names of the Appliance instances is already there
     # And check if the import of the User class is correct, otherwise adapt the file
@@ -71,14 +71,13 @@ def convert_old_user_input_file(
             keep_names = False
         for i, l in enumerate(lines):
             if "from core import" in l:
-                line_to_change = i
-        # Change import statement by explicitly naming the full package path
-        lines[line_to_change] = lines[line_to_change].replace(
-            "from core import", "from ramp.core.core import"
-        )
-
-    # Modify import statement in file
-    if line_to_change != -1:
+                lines_to_change.append(i)
+        # Change import statements by explicitly naming the full package path
+        for i in lines_to_change:
+            lines[i] = lines[i].replace("from core import", "from ramp.core.core import")
+
+    # Modify import statements in file
+    if lines_to_change:
         with open(fname_path, "w") as fp:
             fp.writelines(lines)
 
-- 
2.43.0


From 7eccc6ee0bcee518745d079dba62e29eeaea6160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:36 +0000
Subject: [PATCH 27/37] fix: Plot.from_file could not read any csv file

---
 ramp/post_process/post_process.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ramp/post_process/post_process.py b/ramp/post_process/post_process.py
index c0bf98d..b01b335 100644
--- a/ramp/post_process/post_process.py
+++ b/ramp/post_process/post_process.py
@@ -156,9 +156,7 @@ class Plot:
         """
 
         if file.endswith(".csv"):
-            df = pd.read_csv(
-                file, sheet_name=sheet_name, index_col=0, header=0, sep=sep
-            )
+            df = pd.read_csv(file, index_col=0, header=0, sep=sep)
 
         elif file.endswith(".xlsx"):
             df = pd.read_excel(file, sheet_name=sheet_name, index_col=0, header=0)
-- 
2.43.0


From ea43de288088ed27567e98563af0be4a10826adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:36 +0000
Subject: [PATCH 28/37] fix: Plot.shadow did not accept a list of columns

---
 ramp/post_process/post_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramp/post_process/post_process.py b/ramp/post_process/post_process.py
index b01b335..0c11f29 100644
--- a/ramp/post_process/post_process.py
+++ b/ramp/post_process/post_process.py
@@ -317,7 +317,7 @@ class Plot:
         else:
             df_main = (self.mean()).df["Mean"].to_frame("Average")
 
-        if columns.lower() == "all":
+        if isinstance(columns, str) and columns.lower() == "all":
             columns = self.columns
 
         df_other = self.df.copy()[columns]
-- 
2.43.0


From 504f68b4758eef1ba9d183e31128daaf4e5899ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:26 +0000
Subject: [PATCH 29/37] fix: the last digits of power series loaded from an
 input file were lost

---
 ramp/core/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index e434e51..96c212f 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1192,7 +1192,7 @@ class Appliance:
 
         elif isinstance(power, str):
             # the values are in the last column, the first of two columns being the timestamps
-            power = pd.read_json(power).values[:, -1]
+            power = pd.read_json(power, precise_float=True).values[:, -1]
 
         elif isinstance(power, (float, int)):
             power = power * np.ones(self.user.num_days + 1)
-- 
2.43.0


From 00c81b6f456507e3333e4f22c13941e251b13558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:27 +0000
Subject: [PATCH 30/37] fix: power ranges with timestamps were rounded to 10
 decimals

---
 ramp/core/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ramp/core/utils.py b/ramp/core/utils.py
index aeaec31..83cc45a 100644
--- a/ramp/core/utils.py
+++ b/ramp/core/utils.py
@@ -56,7 +56,8 @@ def read_input_file(filename):
                             for col in cr.cols
                         ]
                     ).T
-                    ts = ts.to_json(orient="values")
+                    # only the values are needed, to_json would round them to 10 decimals
+                    ts = json.dumps(ts.iloc[:, -1].tolist())
                 else:
                     raise (
                         ValueError(
-- 
2.43.0


From 159af27c786e4be2101f8a5b898988f08e63e2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:27 +0000
Subject: [PATCH 31/37] fix: users and appliances added after the
 initialization count for the peak time range and have their power checked

---
 ramp/core/core.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 96c212f..8920413 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -102,6 +102,7 @@ class UseCase:
         self.random_seed = random_seed
 
         self.appliances = []
+        self.__initialized_appliances = []
         self.users = []
         if users is None:
             users = []
@@ -312,6 +313,7 @@ class UseCase:
             self.collect_appliances_from_users()
             for app in self.appliances:
                 app.check_power_values(self.__num_days)
+            self.__initialized_appliances = self.appliances
 
             if peak_enlarge is not None:
                 self.peak_enlarge = peak_enlarge
@@ -335,6 +337,17 @@ class UseCase:
             answer = True
         return answer
 
+    def _update_appliances(self):
+        """Take into account the users and appliances added since the initialization of the usecase"""
+        self.collect_appliances_from_users()
+        if self.is_initialized is True and [id(app) for app in self.appliances] != [
+            id(app) for app in self.__initialized_appliances
+        ]:
+            for app in self.appliances:
+                app.check_power_values(self.__num_days)
+            self.__initialized_appliances = self.appliances
+            self.peak_time_range = self.calc_peak_time_range()
+
     def calc_peak_time_range(self, peak_enlarge=None):
         """
         Calculate the peak time range, which is used to discriminate between off-peak and on-peak coincident switch-on probability
@@ -431,6 +444,7 @@ class UseCase:
             if self.parallel_processing is True:
                 daily_profiles = self.generate_daily_load_profiles_parallel(flat=False)
             else:
+                self._update_appliances()
                 daily_profiles = np.zeros((self.num_days, 1440))
                 for day_idx, day in enumerate(self.days):
                     # initialise an empty daily profile (or profile load)
@@ -479,6 +493,7 @@ class UseCase:
                     "You must provide days either with start and end date and run initialize() method of UseCase instance or as an argument of 'generate_daily_load_profiles'"
                 )
 
+        self._update_appliances()
         max_parallel_processes = multiprocessing.cpu_count()
         tasks = []
         t = 0
-- 
2.43.0


From fb5752631cd6389a88d14a0ecea05afba9e41df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:27 +0000
Subject: [PATCH 32/37] fix: profile of a single user of a usecase which is not
 initialized yet

---
 ramp/core/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 8920413..d05eeb9 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1038,6 +1038,7 @@ appliances: no appliances assigned to the user.
                     "You are generating ramp demand from a User not bounded to a UseCase instance, a default one has been created for you "
                 )
                 UseCase(name=f"{self.user_name} default usecase", users=[self])
+            if self.usecase.peak_time_range is None:
                 self.usecase.peak_time_range = self.usecase.calc_peak_time_range()
             peak_time_range = self.usecase.peak_time_range
 
-- 
2.43.0


From 0b03821739d7e8cb3b39172cb166c2aa8f21c4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:39 +0000
Subject: [PATCH 33/37] fix: an appliance added to another user than the one it
 was created for follows the preferences of its user

---
 ramp/core/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index d05eeb9..5df0778 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -735,6 +735,7 @@ appliances: no appliances assigned to the user.
                 if app.name == "":
                     app.name = f"appliance_{len(self.App_list) + 1}"
                 self.App_list.append(app)
+                app.user = self
 
     def add_appliance(self, *args, **kwargs):
         """Adds an appliance to the user category with all the appliance characteristics in a single function
@@ -887,6 +888,8 @@ appliances: no appliances assigned to the user.
         2. Appliances are added to the user-type only if **'windows'** method of the Appliance is called.
         """
 
+        for app in self.App_list:
+            app.user = self  # the appliance might be shared with other users
         try:
             answer = pd.concat([app.save() for app in self.App_list], ignore_index=True)
         except ValueError:
@@ -1049,6 +1052,7 @@ appliances: no appliances assigned to the user.
         for (
             App
         ) in self.App_list:  # iterates for all the App types in the given User class
+            App.user = self  # the appliance might be shared with other users
             App.generate_load_profile(
                 prof_i, peak_time_range, day_type, power=App.power[prof_i]
             )
-- 
2.43.0


From 8ea5234eb4e2754837e28d36cee67c60500b0aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:36 +0000
Subject: [PATCH 34/37] fix: the deprecated User.Appliance accepts the user as
 first argument, as in legacy input files

---
 ramp/core/core.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 5df0778..930d0cd 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -960,7 +960,25 @@ appliances: no appliances assigned to the user.
         """
         return self.save()
 
-    def Appliance(
+    def Appliance(self, *args, **kwargs):
+        """Back-compatibility with legacy code, where the user may be the first argument
+
+        Notes
+        ------
+        refer to Appliance class docs
+        """
+
+        warnings.warn(
+            "This function is deprecated and not supported since version v0.4.0. Instead use the add_appliance method.",
+            DeprecationWarning,
+        )
+
+        if len(args) > 0 and args[0] is self:
+            args = args[1:]
+
+        return self._add_legacy_appliance(*args, **kwargs)
+
+    def _add_legacy_appliance(
         self,
         number=1,
         power=0,
@@ -977,18 +995,6 @@ appliances: no appliances assigned to the user.
         wd_we_type=2,
         name="",
     ):
-        """Back-compatibility with legacy code
-
-        Notes
-        ------
-        refer to Appliance class docs
-        """
-
-        warnings.warn(
-            "This function is deprecated and not supported since version v0.4.0. Instead use the add_appliance method.",
-            DeprecationWarning,
-        )
-
         return self.add_appliance(
             number=number,
             power=power,
-- 
2.43.0


From 9f6d907024fa2d8b7b7f4df3dedd44cc01d71081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:30 +0000
Subject: [PATCH 35/37] fix: compare the name, number and preference of users

---
 ramp/core/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 930d0cd..be4fd38 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -909,12 +909,12 @@ appliances: no appliances assigned to the user.
         answer = np.array([])
         for attribute in ("user_name", "num_users", "user_preference"):
             if hasattr(self, attribute) and hasattr(other_user, attribute):
-                np.append(
+                answer = np.append(
                     answer, [getattr(self, attribute) == getattr(other_user, attribute)]
                 )
             else:
                 print(f"Problem with {attribute} of user")
-                np.append(answer, False)
+                answer = np.append(answer, False)
         answer = answer.all()
 
         if answer is True:
-- 
2.43.0


From c3eaed2eb8191aba260996a0821d288481970612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:05 +0000
Subject: [PATCH 36/37] fix: simulate the days given to the generation of a use
 case that is not initialised

---
 ramp/core/core.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index be4fd38..1fe3ee1 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -265,6 +265,9 @@ class UseCase:
                 else:
                     self.__num_days = len(self.days)
 
+            if self.__num_days is None and self.days is not None:
+                self.__num_days = len(self.days)
+
             if self.__num_days is None:
                 # asks the user how many days (i.e. code runs) they want
                 self.__num_days = int(
@@ -436,7 +439,8 @@ class UseCase:
         else:
             if self.days is None:
                 if days is not None:
-                    self.days = days  # TODO this might be wrong need to update the date_start, end num_days etc
+                    self.days = pd.DatetimeIndex(days)
+                    self.initialize()
                 else:
                     raise ValueError(
                         "You must provide days either with start and end date and run initialize() method of UseCase instance or as an argument of 'generate_daily_load_profiles'"
@@ -487,7 +491,8 @@ class UseCase:
         """
         if self.days is None:
             if days is not None:
-                self.days = days  # TODO this might be wrong need to update the date_start, end num_days etc
+                self.days = pd.DatetimeIndex(days)
+                self.initialize()
             else:
                 raise ValueError(
                     "You must provide days either with start and end date and run initialize() method of UseCase instance or as an argument of 'generate_daily_load_profiles'"
-- 
2.43.0


From 997d3453a94aac3f12ce09d0aa73a333357bae84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:24 +0000
Subject: [PATCH 37/37] fix: a single row or column can be selected from a Plot
 object

---
 ramp/post_process/post_process.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/ramp/post_process/post_process.py b/ramp/post_process/post_process.py
index 0c11f29..8ae63a7 100644
--- a/ramp/post_process/post_process.py
+++ b/ramp/post_process/post_process.py
@@ -531,7 +531,16 @@ class Plot:
             a Plot object using the index and columns filters
         """
 
-        return Plot(self.DataFrame.loc[index, columns])
+        # selections of a single row or column remain a DataFrame
+        if isinstance(columns, (str, tuple)):
+            columns = [columns] if isinstance(columns, str) else list(columns)
+        if isinstance(index, tuple):
+            index = list(index)
+        df = self.DataFrame.loc[index, columns]
+        if isinstance(df, pd.Series):
+            df = df.to_frame().T
+
+        return Plot(df)
 
     def iloc(self, index=slice(None), columns=slice(None)):
         """iloc method to filter the data based on position index
@@ -549,6 +558,12 @@ class Plot:
             a Plot object using the index and columns filters
         """
 
+        # selections of a single row or column remain a DataFrame
+        if isinstance(index, (int, tuple)):
+            index = [index] if isinstance(index, int) else list(index)
+        if isinstance(columns, (int, tuple)):
+            columns = [columns] if isinstance(columns, int) else list(columns)
+
         return Plot(self.DataFrame.iloc[index, columns])
 
     def head(self, var):
-- 
2.43.0

