From d53a94826a26e87aa6b639a7b3c086f1731dc2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:58 +0000
Subject: [PATCH 01/43] fix: reject SparseTPM arrays of different lengths

---
 demod/utils/sparse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demod/utils/sparse.py b/demod/utils/sparse.py
index 4d91c90..dd9a0cf 100644
--- a/demod/utils/sparse.py
+++ b/demod/utils/sparse.py
@@ -72,8 +72,8 @@ class SparseTPM():
         length = len(times)
         if not (
                 length == len(inds_from)
-                & length == len(inds_to)
-                & length == len(values)):
+                and length == len(inds_to)
+                and length == len(values)):
             raise ValueError('Inputs must match in length')
         self.times = np.array(times, dtype=np.uint16)
         self.inds_from = np.array(inds_from, dtype=np.uint16)
-- 
2.43.0


From d7395f3156ebd38dc6d27b54e871097f70d59ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:58 +0000
Subject: [PATCH 02/43] fix: sampling from a SparseTPM must not overwrite the
 caller's states

---
 demod/utils/sparse.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/demod/utils/sparse.py b/demod/utils/sparse.py
index dd9a0cf..01c55f1 100644
--- a/demod/utils/sparse.py
+++ b/demod/utils/sparse.py
@@ -188,9 +188,10 @@ class SparseTPM():
             warnings.warn('Are some dead states at step {}'.format(time))
             if self.dead_state_value is not None:
                 # change the dead states and resample a montecarlo draw
-                states[
-                    ~np.isin(states, self.inds_from[mask])
-                ] = self.dead_state_value
+                states = np.where(
+                    np.isin(states, self.inds_from[mask]),
+                    states, self.dead_state_value
+                )
                 return self.sparse_monte_carlo(time, states)
 
         # compute a flattened cdf containing all the states cdf
-- 
2.43.0


From 0b00be73d6a723c7d946af1658404fa358d7dee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:58 +0000
Subject: [PATCH 03/43] fix: sample every state from its own entries of a
 SparseTPM

---
 demod/utils/sparse.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/demod/utils/sparse.py b/demod/utils/sparse.py
index 01c55f1..0c42b59 100644
--- a/demod/utils/sparse.py
+++ b/demod/utils/sparse.py
@@ -194,8 +194,13 @@ class SparseTPM():
                 )
                 return self.sparse_monte_carlo(time, states)
 
+        # entries of the required pdfs, grouped by the state they start from
+        entries = np.nonzero(mask)[0]
+        entries = entries[
+            np.argsort(self.inds_from[entries], kind='stable')]
+
         # compute a flattened cdf containing all the states cdf
-        flattened_cdf = np.cumsum(self.values[mask])
+        flattened_cdf = np.cumsum(self.values[entries])
         # print('cdf',flattened_cdf)
 
         # monte carlo part
@@ -203,7 +208,8 @@ class SparseTPM():
         rand = np.random.uniform(size=states.shape) + inv
         # print('r', rand)
         # look for the position in the array
-        new_states = self.inds_to[mask][np.searchsorted(flattened_cdf, rand)]
+        new_states = self.inds_to[entries][np.searchsorted(
+            flattened_cdf, rand, side='right')]
         # print('new states', new_states)
         return np.array(new_states)
 
-- 
2.43.0


From f9241888016ef60f7506b3cca175d7af152ba530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:58 +0000
Subject: [PATCH 04/43] fix: keep the numbers of times and states of a saved
 SparseTPM

---
 demod/utils/sparse.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/demod/utils/sparse.py b/demod/utils/sparse.py
index 0c42b59..1dbae3e 100644
--- a/demod/utils/sparse.py
+++ b/demod/utils/sparse.py
@@ -6,6 +6,7 @@ Very useful when the TPMs are large and have a lot of 0 values in them.
 from __future__ import annotations
 
 from typing import Tuple
+import os
 import warnings
 import numpy as np
 
@@ -225,6 +226,7 @@ class SparseTPM():
         np.save(path+'_tpm_inds_from', self.inds_from)
         np.save(path+'_tpm_inds_to', self.inds_to)
         np.save(path+'_tpm_values', self.values)
+        np.save(path+'_tpm_shape', np.array([self.n_times, self.n_states]))
 
     @ staticmethod
     def load(path: str) -> SparseTPM:
@@ -242,4 +244,11 @@ class SparseTPM():
         inds_from = np.load(path+'_tpm_inds_from.npy', )
         inds_to = np.load(path+'_tpm_inds_to.npy', )
         values = np.load(path+'_tpm_values.npy', )
-        return SparseTPM(times, inds_from, inds_to, values)
+        if not os.path.isfile(path+'_tpm_shape.npy'):
+            # saved without the numbers of times and states
+            return SparseTPM(times, inds_from, inds_to, values)
+        n_times, n_states = np.load(path+'_tpm_shape.npy', )
+        return SparseTPM(
+            times, inds_from, inds_to, values,
+            n_states=n_states, n_times=n_times
+        )
-- 
2.43.0


From 95511cd5210816ba29beb176f8c24b8a21bf2625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:49 +0000
Subject: [PATCH 05/43] fix: rounding must not make a SparseTPM draw from
 another state

---
 demod/utils/sparse.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/demod/utils/sparse.py b/demod/utils/sparse.py
index 1dbae3e..bb7c336 100644
--- a/demod/utils/sparse.py
+++ b/demod/utils/sparse.py
@@ -209,8 +209,15 @@ class SparseTPM():
         rand = np.random.uniform(size=states.shape) + inv
         # print('r', rand)
         # look for the position in the array
-        new_states = self.inds_to[entries][np.searchsorted(
-            flattened_cdf, rand, side='right')]
+        inds = np.searchsorted(flattened_cdf, rand, side='right')
+        # rounding must not lead to the entries of another state
+        sorted_from = self.inds_from[entries]
+        inds = np.clip(
+            inds,
+            np.searchsorted(sorted_from, states, side='left'),
+            np.searchsorted(sorted_from, states, side='right') - 1,
+        )
+        new_states = self.inds_to[entries][inds]
         # print('new states', new_states)
         return np.array(new_states)
 
-- 
2.43.0


From 7856b23cea64199ff04bcc86e692f8a555a1b244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:28 +0000
Subject: [PATCH 06/43] fix: call on_before_next_day also at the end of the
 month

---
 demod/simulators/base_simulators.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/base_simulators.py b/demod/simulators/base_simulators.py
index 444448e..77d4ccf 100644
--- a/demod/simulators/base_simulators.py
+++ b/demod/simulators/base_simulators.py
@@ -927,7 +927,7 @@ class Callbacks():
         """
         def decorated_step(self: TimeAwareSimulator, *args, **kwargs) -> None:
             next_datetime = self.current_time + self.step_size
-            if next_datetime.day > self.current_time.day:
+            if next_datetime.date() != self.current_time.date():
                 self.on_before_next_day()
             return step_method(self, *args, **kwargs)
         decorated_step.__doc__ = step_method.__doc__
@@ -986,7 +986,8 @@ class Callbacks():
 # TODO: remove the following once backward compatibility is ensured
 def before_next_day_callback(step_method):
     def decorated_step(self:TimeAwareSimulator, *args, **kwargs):
-        if (self.current_time + self.step_size).day > self.current_time.day:
+        next_datetime = self.current_time + self.step_size
+        if next_datetime.date() != self.current_time.date():
             self.on_before_next_day()
         return step_method(self, *args, **kwargs)
     return decorated_step
-- 
2.43.0


From e608d5bf7f98cc8361a5c051fac17350704393b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:24 +0000
Subject: [PATCH 07/43] fix: a copied SimLogger has recorded nothing

---
 demod/simulators/base_simulators.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/demod/simulators/base_simulators.py b/demod/simulators/base_simulators.py
index 77d4ccf..b28c9b0 100644
--- a/demod/simulators/base_simulators.py
+++ b/demod/simulators/base_simulators.py
@@ -210,7 +210,6 @@ class SimLogger():
             An empty logger with the same attributes.
         """
         new_logger = SimLogger(self.attributes_list.copy(), aggregated=self.aggregated)
-        new_logger.length = self.length
         return new_logger
 
     def visit_simulator(self:SimLogger, sim:Simulator) -> None:
-- 
2.43.0


From 31c1d8384d5a110bd58b4e6dc9d5bf701feb0787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:58 +0000
Subject: [PATCH 08/43] fix: update the states before the step is counted,
 cached and logged

---
 demod/simulators/activity_simulators.py | 6 +++---
 demod/simulators/sparse_simulators.py   | 9 ++++-----
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/demod/simulators/activity_simulators.py b/demod/simulators/activity_simulators.py
index 4a8a00f..6098afc 100644
--- a/demod/simulators/activity_simulators.py
+++ b/demod/simulators/activity_simulators.py
@@ -443,9 +443,6 @@ class SemiMarkovSimulator(MarkovChain1rstOrder):
         Then it updates the new states of these subjects, and from that
         it samples the duration of that new state.
         """
-        # Bypass the first order change of states
-        Simulator.step(self)
-
         mask_change_state = self.times_left < 1
         previous_change_states = self.current_states[mask_change_state]
         # draw a montecarlo estimate on the current time
@@ -474,6 +471,9 @@ class SemiMarkovSimulator(MarkovChain1rstOrder):
         # update the time
         self.times_left -= 1
 
+        # Bypass the first order change of states
+        Simulator.step(self)
+
 
 class SubgroupsIndividualsActivitySimulator(
     ActivitySimulator,
diff --git a/demod/simulators/sparse_simulators.py b/demod/simulators/sparse_simulators.py
index 7f1f9c6..966c009 100644
--- a/demod/simulators/sparse_simulators.py
+++ b/demod/simulators/sparse_simulators.py
@@ -295,16 +295,15 @@ class SparseStatesSimulator(Simulator):
             ):  # if it has been reinitialized
                 self.update_new_day()
 
-        # update the time step
-        super().step()
-
         # draw a montecarlo estimate on the current time
-
         self.current_states = self.tpm.sparse_monte_carlo(
-            self.current_time_step - 1,  # -1 because it was already updated
+            self.current_time_step,
             self.current_states,
         )
 
+        # update the time step
+        super().step()
+
 
 class SparseActivitySimulator(SparseStatesSimulator):
     """Should be able to simulate any kind of activitys.
-- 
2.43.0


From 111aa82be5da295ca52db9c17f03ee54ddd786b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:09 +0000
Subject: [PATCH 09/43] fix: a state lost on a new day becomes the first state,
 not the value of its label

---
 demod/simulators/sparse_simulators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/simulators/sparse_simulators.py b/demod/simulators/sparse_simulators.py
index 966c009..0ddf5a7 100644
--- a/demod/simulators/sparse_simulators.py
+++ b/demod/simulators/sparse_simulators.py
@@ -574,7 +574,7 @@ class SparseTransitStatesSimulator(SparseStatesSimulator):
         #     'out of : ', len(old_labels_position_in_new) )
         # TODO: change the assignement of too dangerous
         mask_lost_transition = old_labels_position_in_new == -1
-        old_labels_position_in_new[mask_lost_transition] = labels[0]
+        old_labels_position_in_new[mask_lost_transition] = 0
 
         # convert states to the new ones
         self.current_states = old_labels_position_in_new[inverse].reshape(-1)
-- 
2.43.0


From ab410afa1604c62d1cb7df336411fccd998d9191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:09 +0000
Subject: [PATCH 10/43] fix: the clock of a time aware SparseStatesSimulator
 starts at start_datetime

---
 demod/simulators/sparse_simulators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/demod/simulators/sparse_simulators.py b/demod/simulators/sparse_simulators.py
index 0ddf5a7..e21bd7c 100644
--- a/demod/simulators/sparse_simulators.py
+++ b/demod/simulators/sparse_simulators.py
@@ -151,6 +151,9 @@ class SparseStatesSimulator(Simulator):
             start_datetimestep = self._getstart_time_step_from_datetime(
                 start_datetime
             )
+            # the steps performed during the initialization advance the
+            # time until start_datetime
+            self.time -= start_datetimestep * datetime.timedelta(minutes=10)
         else:
             start_datetimestep = 0
 
-- 
2.43.0


From bc5669e02a72958397efb0a713d579cf5080c742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:37 +0000
Subject: [PATCH 11/43] fix: Markov simulators can perform preliminary steps at
 initialisation

---
 demod/simulators/activity_simulators.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/activity_simulators.py b/demod/simulators/activity_simulators.py
index 6098afc..50e6f15 100644
--- a/demod/simulators/activity_simulators.py
+++ b/demod/simulators/activity_simulators.py
@@ -169,7 +169,6 @@ class MarkovChain1rstOrder(Simulator):
             AssertionError:
                 If the parameters have wrong types or shapes
         """
-        super().initialize_starting_state(start_time_step=start_time_step)
         # generates from the distribution of states
         assert len(starting_state_pdf) == self.n_states, (
             'the starting states'
@@ -196,6 +195,9 @@ class MarkovChain1rstOrder(Simulator):
 
         self._set_tpm(self.transition_prob_matrices, checkcdf=checkcdf)
 
+        # perform the steps once everything they need is set
+        super().initialize_starting_state(start_time_step=start_time_step)
+
     def _set_tpm(
         self, tpms: np.ndarray, checkcdf: bool = True,
         new_labels: np.ndarray = None
@@ -391,7 +393,6 @@ class SemiMarkovSimulator(MarkovChain1rstOrder):
         """
         super().initialize_starting_state(
             starting_state_pdf,
-            start_time_step=start_time_step,
             checkcdf=checkcdf,
         )
         # Adds the time based
@@ -401,6 +402,11 @@ class SemiMarkovSimulator(MarkovChain1rstOrder):
         ) - 1  # Duration are uploaded after step, and changed when == 0
         self._set_duration_pdfs(self.duration_pdfs)
 
+        # perform the steps once everything they need is set
+        super(MarkovChain1rstOrder, self).initialize_starting_state(
+            start_time_step=start_time_step
+        )
+
     def _set_duration_pdfs(
         self, duration_pdfs: np.ndarray, checkcdf: bool = True,
     ) -> None:
-- 
2.43.0


From 85b24b0d97a11128203f55d2760134b45fc34c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:12 +0000
Subject: [PATCH 12/43] fix: several appliances can follow the end of other
 appliances

---
 demod/simulators/appliance_simulators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index d49d9d8..38be5af 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1925,7 +1925,7 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         # Must switchon the appliances that follow a specific switchoff
         new_app_id = np.where(  # ID where the appliance follows a previous one
             self.appliances['previous_appliance_type'] != 'nan'
-        )
+        )[0]
         indexes_app_start = np.array([], dtype=int)
         indexes_hh_start = np.array([], dtype=int)
         # Iterates over the appliances with a previous type
-- 
2.43.0


From ef0ef3ba802dc7315351c89311925f1a238c53b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:12 +0000
Subject: [PATCH 13/43] fix: appliances that a household does not own are never
 started

---
 demod/simulators/appliance_simulators.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index 38be5af..d8ef3dc 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1866,6 +1866,9 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         return (
             (
                 ~self.get_current_usage()[indexes_household, indexes_appliance]
+                & self.available_appliances[
+                    indexes_household, indexes_appliance
+                ]
                 & ~np.isin(indexes_appliance, self.apps_dictated_start)
             )
             * self.switch_on_probs[indexes_household, indexes_appliance]
@@ -1880,7 +1883,12 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         or when activity stops.
         """
         return (
-            (~self.get_current_usage()[indexes_household, indexes_appliance])
+            (
+                ~self.get_current_usage()[indexes_household, indexes_appliance]
+                & self.available_appliances[
+                    indexes_household, indexes_appliance
+                ]
+            )
             * self.switch_on_probs[indexes_household, indexes_appliance]
         )
 
-- 
2.43.0


From 718febb9d291d403c12ffa9384cd0526da492e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:12 +0000
Subject: [PATCH 14/43] fix: which appliances can start does not depend on the
 getters called before the step

---
 demod/simulators/appliance_simulators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index d8ef3dc..611d221 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1783,6 +1783,8 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         mask_decrement_time = self.n_steps_left > 0
         self.n_steps_left[mask_decrement_time] -= 1
         self.n_steps_till_refresh[self.n_steps_till_refresh > 0] -= 1
+        # The values of the getters before this update are outdated
+        self._cache.clear()
 
         turned_off_hh, turned_off_app = np.where(
             mask_decrement_time & ~(self.n_steps_left > 0)
-- 
2.43.0


From 0a110126d05cdc709b7a7f77b032dfd11329f58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:12 +0000
Subject: [PATCH 15/43] fix: appliances that are always on are used from the
 start

---
 demod/simulators/appliance_simulators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index 611d221..612aa44 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -549,6 +549,8 @@ class AppliancesSimulator(TimeAwareSimulator):
             # Starts at 1 as they are on
             1, self.load_duration[mask_real_loads_on]
         )
+        # The usage before the appliances were started is outdated
+        self._cache.clear()
 
     @ cached_getter
     def get_mask_available_appliances(self):
-- 
2.43.0


From c152b63eb13876ca0f747f835d7977134b7db0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:12 +0000
Subject: [PATCH 16/43] fix: a cycle of an occupancy appliance lasts for its
 whole duration

---
 demod/simulators/appliance_simulators.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index 612aa44..f24eb4e 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1234,6 +1234,11 @@ class OccupancyApplianceSimulator(AppliancesSimulator):
             len(active_occupancy_) == self.n_households
         ), "active occupnacy length must match the number of households"
 
+        # updates the appliances that were already switched on
+        super().update_iteration_variables()
+        # The values of the getters before this update are outdated
+        self._cache.clear()
+
         # keeps track of the iterations to update the activities pdf
         if (self.current_time.minute % 10) == 0:
             # update the activites pdf every 10 min
@@ -1253,6 +1258,13 @@ class OccupancyApplianceSimulator(AppliancesSimulator):
 
         super().step()  # Updates the variables
 
+    def update_iteration_variables(self) -> None:
+        """Update the iteration variables of the sim."""
+        # Don't update, as already taken care of at the start of the step
+        # method, such that a cycle lasts from the step where it is
+        # switched on for its whole duration
+        pass
+
 
 class SubgroupApplianceSimulator(OccupancyApplianceSimulator):
     """Deprecated in versions > 0.1.
-- 
2.43.0


From ef03ef5e5990ac4373dd45cf67169a902a7a4cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:24 +0000
Subject: [PATCH 17/43] fix: appliances start after an activity that no other
 appliance is related to

---
 demod/simulators/appliance_simulators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index f24eb4e..31aa33e 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1812,7 +1812,10 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         for act, n_performing in activities_dict.items():
             # Get the appliances related to that activity
             mask_apps_this_act = self.appliances['related_activity'] == act
-            if not np.any(mask_apps_this_act):
+            if not np.any(mask_apps_this_act) and not np.any(
+                # Appliances can also start when this activity ends
+                self.appliances.get('previous_activity', None) == act
+            ):
                 # If no appliance is concerned by this activity
                 continue
 
-- 
2.43.0


From 5d94ee7bdbcda6526e48b79353ab611db95e85e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:08 +0000
Subject: [PATCH 18/43] fix: the probabilistic simulator must not change the
 appliance table it is given

---
 demod/simulators/appliance_simulators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index 31aa33e..ccf3850 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1605,6 +1605,8 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         appliance_dict: AppliancesDict,
         initial_activities_dict: ActivitiesDict
     ) -> AppliancesDict:
+        # The table of the caller must keep its values
+        appliance_dict = dict(appliance_dict)
         # Check if probabilistic is given, else assume all appliances are it.
         if 'probabilistic' not in appliance_dict:
             warnings.warn((
-- 
2.43.0


From c7212f9ba8822a24614128203c039ecd0b8a5720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:08 +0000
Subject: [PATCH 19/43] fix: report an unknown real_profiles_algo as ValueError

---
 demod/simulators/appliance_simulators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index ccf3850..992b690 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -371,8 +371,8 @@ class AppliancesSimulator(TimeAwareSimulator):
 
         if real_profiles_algo != 'uniform':
             raise ValueError(UNIMPLEMENTED_ALGO_IN_METHOD.format(
-                real_profiles_algo,
-                type(self).__name__ + '.sample_real_load_profiles'
+                algo=real_profiles_algo,
+                method=type(self).__name__ + '.sample_real_load_profiles'
             ) + "Only 'uniform' is implemented at the moment.")
 
         self._sample_switched_on_load_profiles()
-- 
2.43.0


From 865c18bba663180de1c36dea156cf0361db1ddc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:08 +0000
Subject: [PATCH 20/43] fix: compute the heat demand for the step size of the
 heating simulator

---
 demod/simulators/heating_simulators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 7a5e4bc..28db556 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1682,6 +1682,7 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
             n_households,
             self.heatingsystem,
             self.building_sim,
+            step_size=step_size,
             heatdemand_algo=heatdemand_algo,
             deadbands=self.thermostats_sim.thermostat['deadband']
         )
-- 
2.43.0


From 7e30d0c2db03274dff3736c1177d547008ffde77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:23 +0000
Subject: [PATCH 21/43] fix: missing external target temperatures keep the
 simulated ones

---
 demod/simulators/heating_simulators.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 28db556..f71bfda 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -799,10 +799,14 @@ class Thermostats(Simulator):
         """
         if isinstance(target_temperatures, dict):
             for key, item in target_temperatures.items():
-                self.target_temperatures[key] = item
+                self.target_temperatures[key] = np.where(
+                    np.isnan(item), self.target_temperatures[key], item
+                )
         elif isinstance(target_temperatures, np.ndarray):
             # assume the room temperature was given as target_temperature
-            self.target_temperatures["space_heating"] = np.array(
+            self.target_temperatures["space_heating"] = np.where(
+                np.isnan(target_temperatures),
+                self.target_temperatures["space_heating"],
                 target_temperatures
             )
         else:
-- 
2.43.0


From 747632c1e988cdd79a4b40f757b9ba26ba435b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:43 +0000
Subject: [PATCH 22/43] fix: gas flow of the heating system in m^3/s and its
 energy in W

---
 demod/simulators/heating_simulators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index f71bfda..3b8a1e9 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1446,7 +1446,7 @@ class HeatingSystem(Simulator):
                 out_dict[h_type] = np.where(
                     (self.fuel_types == h_type) & heating_occurs,
                     self.dblFuelFlowRate
-                    * 3600.  # m^3/ h -> m^3/ sec
+                    / 3600.  # m^3/ h -> m^3/ sec
                     * (
                         phi_space / self.max_Phi_h_space
                         + phi_dhw / self.max_Phi_h_dhw
@@ -1484,7 +1484,7 @@ class HeatingSystem(Simulator):
         elec = fuel_cons["Electricity"] if "Electricity" in fuel_cons else 0
         gas = fuel_cons["Mainsgas"] if "Mainsgas" in fuel_cons else 0
         # convert gas flow to Watts
-        gas = gas / self.dblFuelFlowRate * self.flow_rate_to_W
+        gas = gas * 3600. / self.dblFuelFlowRate * self.flow_rate_to_W
         return self.get_pumps_power_consumptions() + elec + gas
 
     @cached_getter
-- 
2.43.0


From d42da43674a96e450cfcad9cb5681336bbe8103c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:52 +0000
Subject: [PATCH 23/43] fix: heating systems without a heat output consume no
 fuel instead of nan

---
 demod/simulators/heating_simulators.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 3b8a1e9..9116053 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1439,6 +1439,13 @@ class HeatingSystem(Simulator):
         heat_outputs = self.get_heat_outputs()
         phi_space = heat_outputs["space_heating"]
         phi_dhw = heat_outputs["dhw"]
+        # share of the maximum outputs, zero if there is no such output
+        share = (
+            phi_space / np.where(
+                self.max_Phi_h_space > 0, self.max_Phi_h_space, 1.)
+            + phi_dhw / np.where(
+                self.max_Phi_h_dhw > 0, self.max_Phi_h_dhw, 1.)
+        )
 
         for h_type in np.unique(self.fuel_types):
             if h_type == "Mainsgas":
@@ -1447,10 +1454,7 @@ class HeatingSystem(Simulator):
                     (self.fuel_types == h_type) & heating_occurs,
                     self.dblFuelFlowRate
                     / 3600.  # m^3/ h -> m^3/ sec
-                    * (
-                        phi_space / self.max_Phi_h_space
-                        + phi_dhw / self.max_Phi_h_dhw
-                    ),
+                    * share,
                     0,
                 )
             elif h_type == "Electricity":
@@ -1459,10 +1463,7 @@ class HeatingSystem(Simulator):
                     (self.fuel_types == h_type) & heating_occurs,
                     self.dblFuelFlowRate
                     * 1000.  # kW -> W
-                    * (
-                        phi_space / self.max_Phi_h_space
-                        + phi_dhw / self.max_Phi_h_dhw
-                    ),
+                    * share,
                     0,
                 )
             else:
@@ -1484,7 +1485,9 @@ class HeatingSystem(Simulator):
         elec = fuel_cons["Electricity"] if "Electricity" in fuel_cons else 0
         gas = fuel_cons["Mainsgas"] if "Mainsgas" in fuel_cons else 0
         # convert gas flow to Watts
-        gas = gas * 3600. / self.dblFuelFlowRate * self.flow_rate_to_W
+        flow_rate = np.where(
+            self.dblFuelFlowRate > 0, self.dblFuelFlowRate, 1.)
+        gas = gas * 3600. / flow_rate * self.flow_rate_to_W
         return self.get_pumps_power_consumptions() + elec + gas
 
     @cached_getter
-- 
2.43.0


From ae100251e9dd80234f489b91975c3c337fd12635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:43 +0000
Subject: [PATCH 24/43] fix: the lights are updated before the step of the
 CREST lighting is counted and logged

---
 demod/simulators/lighting_simulators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/lighting_simulators.py b/demod/simulators/lighting_simulators.py
index d58a8ed..d980cfa 100644
--- a/demod/simulators/lighting_simulators.py
+++ b/demod/simulators/lighting_simulators.py
@@ -407,8 +407,6 @@ class CrestLightingSimulator(Simulator):
             active_occupancy: number of active occupants in each households.
             irradiance: irradiation from the sun.
         """
-        super().step()
-
         # update the times left
         self.bulbs_times_left[self.bulbs_times_left > 0] -= 1
 
@@ -448,4 +446,6 @@ class CrestLightingSimulator(Simulator):
         # If there are no active occupants, turn off the light
         self.bulbs_times_left[active_occupancy == 0, :] = 0
 
+        super().step()
+
 
-- 
2.43.0


From 87bdacd658bec2598c9e62033201fbbbe332063e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:43 +0000
Subject: [PATCH 25/43] fix: Fisher lighting without initial occupancy has a
 power for every household

---
 demod/simulators/lighting_simulators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/simulators/lighting_simulators.py b/demod/simulators/lighting_simulators.py
index d980cfa..572da7b 100644
--- a/demod/simulators/lighting_simulators.py
+++ b/demod/simulators/lighting_simulators.py
@@ -93,7 +93,7 @@ class FisherLightingSimulator(Simulator):
             initial_irradiance: value of initial irradiance
         """
         self.active_occupancy = (
-            np.ones_like(self.n_households)
+            np.ones(self.n_households)
             if initial_active_occupancy is None else initial_active_occupancy
         )
         self.irradiance = initial_irradiance or 0
-- 
2.43.0


From ab622ce4ad214128daf2b2fc6545f1e7bb39d650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:46 +0000
Subject: [PATCH 26/43] fix: the CREST irradiance is a number, so that the
 CREST climate can be simulated

---
 demod/simulators/weather_simulators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/weather_simulators.py b/demod/simulators/weather_simulators.py
index 3211be0..1924545 100644
--- a/demod/simulators/weather_simulators.py
+++ b/demod/simulators/weather_simulators.py
@@ -151,9 +151,9 @@ class CrestIrradianceSimulator(ClimateSimulator):
 
     def _next_clearness(self):
         # update the state through a Markov Chain Monte Carlo algorithm
-        self._clearness_state = monte_carlo_from_1d_cdf(
+        self._clearness_state = int(monte_carlo_from_1d_cdf(
             self.clearness_cdf[self._clearness_state]
-        )
+        )[0])
         return self.clearness_values[
             self._clearness_state
         ]  # return the value of the clearness
-- 
2.43.0


From 99fa3a3204368304303497bdc2df348c25778921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:46 +0000
Subject: [PATCH 27/43] fix: the irradiance of the CREST climate is that of the
 current time for any start time

---
 demod/simulators/weather_simulators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/weather_simulators.py b/demod/simulators/weather_simulators.py
index 1924545..11d30ed 100644
--- a/demod/simulators/weather_simulators.py
+++ b/demod/simulators/weather_simulators.py
@@ -327,9 +327,11 @@ class CrestClimateSimulator(ClimateSimulator):
         super().__init__(start_datetime=start_datetime, **kwargs)
         # remove some kwargs for irradiance
         kwargs.pop("logger", None)
+        # the irradiance is simulated for whole days, which start at midnight
         self.irradiance_sim = CrestIrradianceSimulator(
             data,
-            start_datetime=start_datetime,
+            start_datetime=start_datetime.replace(
+                hour=0, minute=0, second=0, microsecond=0),
             initial_clearness=initial_clearness,
             **kwargs)
 
-- 
2.43.0


From 3a5b688f0e3cc9a90366af59b8b9b3e136d9d940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:46 +0000
Subject: [PATCH 28/43] fix: climate data has utc times, which are converted to
 the time zone of the start

---
 demod/simulators/weather_simulators.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/demod/simulators/weather_simulators.py b/demod/simulators/weather_simulators.py
index 11d30ed..3a9e51e 100644
--- a/demod/simulators/weather_simulators.py
+++ b/demod/simulators/weather_simulators.py
@@ -636,9 +636,11 @@ class RealClimate(ClimateSimulator):
         intialization_time = climate_data['datetime'][0].astype(
             datetime.datetime
         )
-        intialization_time = intialization_time.replace(
-            tzinfo=start_datetime.tzinfo
-        )
+        if start_datetime.tzinfo is not None:
+            # the data has utc times
+            intialization_time = intialization_time.replace(
+                tzinfo=datetime.timezone.utc
+            ).astimezone(start_datetime.tzinfo)
         # Checks that the data does not start after the start datetime
         if intialization_time > start_datetime:
             raise ValueError(
@@ -762,9 +764,11 @@ class RealInterpolatedClimate(ClimateSimulator):
         intialization_time = self.datetime_values_utc[0].astype(
             datetime.datetime
         )
-        intialization_time = intialization_time.replace(
-            tzinfo=start_datetime.tzinfo
-        )
+        if start_datetime.tzinfo is not None:
+            # the data has utc times
+            intialization_time = intialization_time.replace(
+                tzinfo=datetime.timezone.utc
+            ).astimezone(start_datetime.tzinfo)
 
         # Checks that the data does not start after the start datetime
         if intialization_time > start_datetime:
-- 
2.43.0


From 0bc4b923e56792560c904d169d05ccf1cab13c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:59 +0000
Subject: [PATCH 29/43] fix: the CREST irradiance at the start is that of the
 start time, not that of midnight

---
 demod/simulators/weather_simulators.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/weather_simulators.py b/demod/simulators/weather_simulators.py
index 3a9e51e..35e0a9a 100644
--- a/demod/simulators/weather_simulators.py
+++ b/demod/simulators/weather_simulators.py
@@ -143,11 +143,12 @@ class CrestIrradianceSimulator(ClimateSimulator):
 
         self.on_after_next_day()
 
+        # Assuume midnight sun is down
+        self.irradiance = 0
+
         super().initialize_starting_state(
             initialization_time=datetime.time(0, 0, 0)
         )
-        # Assuume midnight sun is down
-        self.irradiance = 0
 
     def _next_clearness(self):
         # update the state through a Markov Chain Monte Carlo algorithm
-- 
2.43.0


From c54ebd9baa6da6d1b70cd13f861fa1c668e7f96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:42 +0000
Subject: [PATCH 30/43] fix: a sampled population has no household of an
 impossible subgroup

---
 demod/simulators/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/util.py b/demod/simulators/util.py
index 2293c74..8485a1a 100644
--- a/demod/simulators/util.py
+++ b/demod/simulators/util.py
@@ -108,8 +108,11 @@ def sample_population(
     cdf = np.cumsum(pdf)
     check_valid_cdf(cdf)
     if population_sampling_algo == 'real_population':
-        lin_space = np.linspace(0, 1, n_samples)
+        # the cdf might end slightly before 1
+        lin_space = np.linspace(0, cdf[-1], n_samples)
         inds = np.searchsorted(cdf, lin_space)
+        # 0 is reached by the first values, also if they are not possible
+        inds = np.maximum(inds, np.argmax(cdf > 0))
     elif population_sampling_algo == 'monte_carlo':
         inds = monte_carlo_from_1d_cdf(cdf, n_samples=n_samples)
     else:
-- 
2.43.0


From a7a4e8c60d98d2b7a56e86a5312a3f0b19dcc2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:24 +0000
Subject: [PATCH 31/43] fix: a subgroup with more keys or larger values is the
 greater one

---
 demod/utils/subgroup_handling.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/demod/utils/subgroup_handling.py b/demod/utils/subgroup_handling.py
index 29f085a..bbc0167 100644
--- a/demod/utils/subgroup_handling.py
+++ b/demod/utils/subgroup_handling.py
@@ -36,9 +36,9 @@ class Subgroup(dict):
                     type(self), type(other)
                 )
             )
-        if len(other) > len(self):
+        if len(self) > len(other):
             return True
-        elif len(other) < len(self):
+        elif len(self) < len(other):
             return False
         else:
             for key in sorted(list(self.keys()) + list(other.keys())):
@@ -46,9 +46,9 @@ class Subgroup(dict):
                     return True
                 if key not in self:
                     return False
-                if other[key] > self[key]:
+                if self[key] > other[key]:
                     return True
-                if other[key] < self[key]:
+                if self[key] < other[key]:
                     return False
         return False
 
-- 
2.43.0


From 23f15ab4ea099b23de97106843e552b4ebd0830a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:49 +0000
Subject: [PATCH 32/43] fix: transition tables count the observed transitions

A list of index arrays is no longer read as a tuple by numpy: the counts
were assigned to whole rows, or could not be assigned at all.
---
 demod/utils/parse_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/utils/parse_helpers.py b/demod/utils/parse_helpers.py
index 9faa4e7..b84a2df 100644
--- a/demod/utils/parse_helpers.py
+++ b/demod/utils/parse_helpers.py
@@ -646,7 +646,7 @@ def states_to_tpms(
             axis=1, return_counts=True
         )
         # converts the indexes for accessing the matrix later
-        states_indices = [(i) for i in states_indices]
+        states_indices = tuple(states_indices)
 
         # compute the sum of the transitions for each states
         transition_matrice = np.full((n_states, n_states), 0)
-- 
2.43.0


From 9a0e38bbba1e28e6b07ad68972588b92c1e8ab4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:49 +0000
Subject: [PATCH 33/43] fix: secondary transitions are listed with the person
 that does them

The persons of the secondary transitions were listed before those of the
primary ones, the states after them.
---
 demod/utils/parse_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/utils/parse_helpers.py b/demod/utils/parse_helpers.py
index b84a2df..8a81205 100644
--- a/demod/utils/parse_helpers.py
+++ b/demod/utils/parse_helpers.py
@@ -159,8 +159,8 @@ def states_to_transitions_secondary(
         transition_times.append(
             np.full(np.sum(mask_transition_p) + np.sum(mask_transition_s), i)
         )
-        transition_person.append(np.where(mask_transition_s)[0])
         transition_person.append(np.where(mask_transition_p)[0])
+        transition_person.append(np.where(mask_transition_s)[0])
         transition_new_state.append(np.array(p[mask_transition_p]))
         transition_new_state.append(np.array(s[mask_transition_s]))
         transition_old_state.append(np.array(old_p_states[mask_transition_p]))
-- 
2.43.0


From fb5e6d24a787a573469e18148319873b88dc3b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:08 +0000
Subject: [PATCH 34/43] fix: durations of states that never change

Without any transition in the diaries, the first transition of a
household was still looked up.
---
 demod/metrics/states.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/demod/metrics/states.py b/demod/metrics/states.py
index e6fcdbb..594d0de 100644
--- a/demod/metrics/states.py
+++ b/demod/metrics/states.py
@@ -42,9 +42,9 @@ def get_states_durations(states: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
     time_indices = transitions_indices[1]
 
     # find in the indices the start and end of each household
-    indices_first_household = np.where(
-        household_indices != np.roll(household_indices, 1)
-    )[0] if len(np.unique(household_indices)) > 1 else np.array([0], dtype=int)
+    indices_first_household = np.unique(
+        household_indices, return_index=True
+    )[1]
     indices_last_household = np.roll(indices_first_household - 1, -1)
 
     # calculate the durations
-- 
2.43.0


From 337e2fdc3a3901143173da365abf953202a4d5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:08 +0000
Subject: [PATCH 35/43] fix: compare durations of a state that only one side
 visits

The states of both sides are compared, but looking up one that does not
occur on the other side raised a KeyError.
---
 demod/metrics/states.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/demod/metrics/states.py b/demod/metrics/states.py
index 594d0de..d2b2e28 100644
--- a/demod/metrics/states.py
+++ b/demod/metrics/states.py
@@ -355,14 +355,17 @@ def state_duration_distribution_metric(
     dic_out = {}
     # Each state is handled separately
     for state in set((*dur_dict_sim.keys(), *dur_dict_mes.keys())):
+        # A state that never occurs has no durations
+        dur_sim = dur_dict_sim.get(state, np.array([], dtype=int))
+        dur_mes = dur_dict_mes.get(state, np.array([], dtype=int))
         # Finds the cdf of the duration for that state
         cdf_sim = np.cumsum(
-            np.bincount(dur_dict_sim[state], minlength=n_times + 1)
-            / len(dur_dict_sim[state])
+            np.bincount(dur_sim, minlength=n_times + 1)
+            / max(1, len(dur_sim))
         )
         cdf_mes = np.cumsum(
-            np.bincount(dur_dict_mes[state], minlength=n_times + 1)
-            / len(dur_dict_mes[state])
+            np.bincount(dur_mes, minlength=n_times + 1)
+            / max(1, len(dur_mes))
         )
         # Error between cdfs
         err = np.abs(cdf_sim - cdf_mes)
-- 
2.43.0


From 130a12e13c1c134b943652eec4a9fc40c77edf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:08 +0000
Subject: [PATCH 36/43] fix: load duration of a single profile

The rearranged one dimensional input was discarded.
---
 demod/metrics/loads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/metrics/loads.py b/demod/metrics/loads.py
index ed79f54..aaf8c7b 100644
--- a/demod/metrics/loads.py
+++ b/demod/metrics/loads.py
@@ -251,7 +251,7 @@ def load_duration(
 
     if len(profiles.shape) == 1:
         # One dimensional input gets rearranged
-        profiles.reshape((1, -1))
+        profiles = profiles.reshape((1, -1))
 
     # First finds where the load is higher than loads
     mask_high = profiles[:, :, np.newaxis] >= loads[np.newaxis, np.newaxis, :]
-- 
2.43.0


From d0cca5a983aa0e823f5e478b182425724bac9edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:08 +0000
Subject: [PATCH 37/43] fix: normalized changes in demand use normalized bins

The bins and the check of given edges still used the maximum before
normalization, and profiles of integers or without change failed.
---
 demod/metrics/loads.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/demod/metrics/loads.py b/demod/metrics/loads.py
index aaf8c7b..bbc55e5 100644
--- a/demod/metrics/loads.py
+++ b/demod/metrics/loads.py
@@ -175,8 +175,9 @@ def cumulative_changes_in_demand(
 
     max_change = np.max(changes)
 
-    if normalize:
-        changes /= max_change
+    if normalize and max_change > 0:
+        changes = changes / max_change
+        max_change = 1.
     if bin_edges is None:
         # Use linearly spaced bin_edges
         hist, bin_edges = np.histogram(
-- 
2.43.0


From 1c09cf28d5a53bfd577d4cd97921b074a976ed47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:08 +0000
Subject: [PATCH 38/43] fix: changes in demand in all the given bins

Changes equal to the first edge were not counted, the bins above the
largest change were missing, and edges from 0 to 1 were rejected for
normalized changes. The bins are now the same as the default ones.
---
 demod/metrics/loads.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/demod/metrics/loads.py b/demod/metrics/loads.py
index bbc55e5..451d77f 100644
--- a/demod/metrics/loads.py
+++ b/demod/metrics/loads.py
@@ -185,10 +185,10 @@ def cumulative_changes_in_demand(
         )
     else:
         # Use the user specified bin_edges
-        if max_change >= bin_edges[-1]:
+        if max_change > bin_edges[-1]:
             raise ValueError((
                 "bin_edges largest value is {}, which is too small for the "
-                "largest value change {}. (must be striclty greater)."
+                "largest value change {}. (must be greater or equal)."
             ).format(bin_edges[-1], max_change))
         if np.min(changes) < bin_edges[0]:
             raise ValueError((
@@ -196,9 +196,7 @@ def cumulative_changes_in_demand(
                 "smallest value change {}. (must be smaller or equal)."
             ).format(bin_edges[0], np.min(changes)))
         # Counts where the transtions are in the bin_edges
-        hist = np.bincount(
-            np.searchsorted(bin_edges, changes)
-        )[1:]
+        hist, _ = np.histogram(changes, bins=bin_edges)
     # Convert to cdf
     return np.cumsum(hist/np.sum(hist)), bin_edges
 
-- 
2.43.0


From 15e9db38f5a72e91693e9020bc4e6a68b5d5d026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:15 +0000
Subject: [PATCH 39/43] fix: sparse and full transition matrices are saved in
 different files

load_sparse_tpm overwrote the file saved by load_tpm for the same
subgroup and activity type, which could not be loaded any more.
---
 demod/datasets/tou_loader.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/demod/datasets/tou_loader.py b/demod/datasets/tou_loader.py
index 3a35467..3a1a458 100644
--- a/demod/datasets/tou_loader.py
+++ b/demod/datasets/tou_loader.py
@@ -202,7 +202,12 @@ class LoaderTOU(DatasetLoader):
 
             sparse_tpm = SparseTPM.load(file_path)
 
-            parsed = self._load_parsed_data(file_name)
+            parsed = self._load_parsed_data(
+                file_name + '_sparse'
+                if os.path.isfile(file_path + '_sparse.npz')
+                # saved under the name that load_tpm uses
+                else file_name
+            )
             labels, activity_labels, initial_pdf = parsed
 
         except FileNotFoundError as err:
@@ -214,7 +219,7 @@ class LoaderTOU(DatasetLoader):
             sparse_tpm.save(file_path)
             parsed = (labels, activity_labels, initial_pdf)
             self._save_parsed_data(
-                file_name,
+                file_name + '_sparse',
                 parsed, npz=True
             )
             # Saves a legend of the files created
-- 
2.43.0


From 2c49374a4b1cb99dd890af8c119efd9c79263108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:15 +0000
Subject: [PATCH 40/43] fix: saved parsed data replaces the same data in the
 other format

After saving a file as npz, an npy file saved before was still loaded.
---
 demod/datasets/base_loader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/demod/datasets/base_loader.py b/demod/datasets/base_loader.py
index b664b4a..69152ee 100644
--- a/demod/datasets/base_loader.py
+++ b/demod/datasets/base_loader.py
@@ -327,6 +327,11 @@ class DatasetLoader:
         else:
             raise TypeError("Arg 'array' must be ndarray or list or tuple.")
 
+        # Data saved before in the other format would be loaded instead
+        old_file = file_path + (".npy" if compress or npz else ".npz")
+        if os.path.isfile(old_file):
+            os.remove(old_file)
+
         if compress:
             np.savez_compressed(file_path, *array_list)
         elif npz:
-- 
2.43.0


From 02b8670a6c249b9d962c48f83a67a4166f9455d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:31 +0000
Subject: [PATCH 41/43] fix: individuals must follow the transition tables of
 the current time of the day

---
 demod/simulators/activity_simulators.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/demod/simulators/activity_simulators.py b/demod/simulators/activity_simulators.py
index 50e6f15..179cdda 100644
--- a/demod/simulators/activity_simulators.py
+++ b/demod/simulators/activity_simulators.py
@@ -862,14 +862,18 @@ class SubgroupsIndividualsActivitySimulator(
     def get_performing_activity(self, activity_name: str) -> np.ndarray:
         return self.get_n_doing_activity(activity_name)
 
-    @ Callbacks.after_refresh_time
+    @ Callbacks.before_refresh_time
     def step(self) -> None:
         """Update the simulator."""
         # Simply calls the parents (Multi for the sims and TimeAware for time)
         return super().step()
 
-    def on_after_refresh_time(self) -> None:
-        """Update the tpms."""
+    def on_before_refresh_time(self) -> None:
+        """Update the tpms.
+
+        Must happen before the step, as the first transition of the new
+        tpms that is used is the one that starts at the refresh time.
+        """
         # Check if we want to update the tpms
         if self.time_aware:
             self._update_subgroups_with_time()
-- 
2.43.0


From 064a02b65d97b8be0b98a504308d8c3f002c0967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:44 +0000
Subject: [PATCH 42/43] fix: Crest4StatesModel must follow the transition
 tables of the current time of the day

---
 demod/simulators/crest_simulators.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/demod/simulators/crest_simulators.py b/demod/simulators/crest_simulators.py
index 0fa39bc..6a1c199 100644
--- a/demod/simulators/crest_simulators.py
+++ b/demod/simulators/crest_simulators.py
@@ -307,13 +307,15 @@ class Crest4StatesModel(TimeAwareSimulator, MultiSimulator):
             initialization_time=self.data.refresh_time,
         )
 
-    def on_after_refresh_time(self) -> None:
+    def on_before_refresh_time(self) -> None:
         """Update the TPMs for the new daytype.
 
         Note:
-            It was deduced that the change of TPM must be perform after
-            midnight, as deduction seem to make think that the first
-            TPM is for the transition 00:00 -> 00:10.
+            The change of TPM must be performed right before the step
+            that starts at midnight, as a simulator always starts with
+            the transition from the first time (00:00 -> 00:10) when
+            its TPM are set. Otherwise all the transitions after a
+            change of daytype would be one step late.
         """
         day_type = "d" if self.current_time.isoweekday() <= 5 else "e"
         if day_type != self.current_day_type:
@@ -335,7 +337,7 @@ class Crest4StatesModel(TimeAwareSimulator, MultiSimulator):
             [sim.state_labels[sim.current_states] for sim in self.simulators]
         )
 
-    @Callbacks.after_refresh_time
+    @Callbacks.before_refresh_time
     def step(self) -> None:
         """Updates the states of the residents."""
         return super().step()
-- 
2.43.0


From a92638ef0826e96c646866a6815173f8edc77076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:35 +0000
Subject: [PATCH 43/43] fix: RealInterpolatedClimate must interpolate at the
 current time, not at its minute

---
 demod/simulators/weather_simulators.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/demod/simulators/weather_simulators.py b/demod/simulators/weather_simulators.py
index 35e0a9a..d953e2f 100644
--- a/demod/simulators/weather_simulators.py
+++ b/demod/simulators/weather_simulators.py
@@ -736,7 +736,7 @@ class RealInterpolatedClimate(ClimateSimulator):
         super().__init__(start_datetime=start_datetime, **kwargs)
 
         self.datetime_values_utc = np.array(
-            climate_dict.pop('datetime'), dtype='datetime64[m]')
+            climate_dict.pop('datetime'), dtype='datetime64[us]')
         self.initial_time = self.datetime_values_utc[0]
         # Check where is the end of the data
         self.last_time = self.datetime_values_utc[-1].astype(datetime.datetime)
@@ -745,7 +745,10 @@ class RealInterpolatedClimate(ClimateSimulator):
             else datetime.timezone.utc
         )
         # must use real values for interp1d
-        minutes = (self.datetime_values_utc - self.initial_time).astype(float)
+        minutes = (
+            (self.datetime_values_utc - self.initial_time)
+            / np.timedelta64(1, 'm')
+        )
 
         self.interpolators = {
             key: interp1d(
@@ -805,13 +808,13 @@ class RealInterpolatedClimate(ClimateSimulator):
                 datetime.datetime.utcfromtimestamp(
                     self.current_time.timestamp()
                 ) if self.current_time.tzinfo is not None
-                else self.current_time, dtype='datetime64[m]'
+                else self.current_time, dtype='datetime64[us]'
             )
             # gets the relative position
             minute = (
                 np_current_time_utc
                 - self.initial_time
-            ).astype(float)
+            ) / np.timedelta64(1, 'm')
             return self.interpolators[_key](minute)
 
         return interpolated_getter
-- 
2.43.0

