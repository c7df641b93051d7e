From 123ef8efe726a2ada624d04dc53fc8aa84ecbd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:41 +0000
Subject: [PATCH 01/30] fix: recalculating birth-death mode swapped copied and
 overwritten walker

Moves are (dup, kill) tuples, but with recalculate-probabilities a walker with
positive rate was copied onto another one instead of being removed, and vice versa.
---
 bdld/actions/birth_death.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bdld/actions/birth_death.py b/bdld/actions/birth_death.py
index 690140b..7fa222d 100644
--- a/bdld/actions/birth_death.py
+++ b/bdld/actions/birth_death.py
@@ -208,10 +208,10 @@ class BirthDeath(Action):
                 if rand[i] <= prob:
                     rand_other = self.random_other(num_part, i)
                     if beta[i] > 0:
-                        curr_event = (i, rand_other)
+                        curr_event = (rand_other, i)
                         self.stats.kill_count += 1
                     elif beta[i] < 0:
-                        curr_event = (rand_other, i)
+                        curr_event = (i, rand_other)
                         self.stats.dup_count += 1
                     self.perform_moves([curr_event])
                     event_list.append(curr_event)
-- 
2.43.0


From 2e72040f75780892afb49dc4163141aab599ba13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:41 +0000
Subject: [PATCH 02/30] fix: seed 0 left the birth-death random numbers
 unseeded

---
 bdld/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/main.py b/bdld/main.py
index 5e4e45f..0c881f4 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -267,7 +267,7 @@ def setup_birth_death(options: Dict, ld: BussiParinelloLD) -> BirthDeath:
         options["recalculate-probabilities"],
         approx_variant,
         eq_density,
-        options["seed"] + 1000 if options["seed"] else None,
+        options["seed"] + 1000 if options["seed"] is not None else None,
         options["stats-stride"],
         options["stats-filename"],
     )
-- 
2.43.0


From 39037f3c86610f04a3b13e746a3b8839284970c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:02 +0000
Subject: [PATCH 03/30] fix: scaling a Mueller-Brown potential changed all
 others

The scaling factor was multiplied into the module level amplitudes, so every
scaled instance altered the potentials created before and after it.
---
 bdld/potential/mueller_brown.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/bdld/potential/mueller_brown.py b/bdld/potential/mueller_brown.py
index 774c08f..3da3a58 100644
--- a/bdld/potential/mueller_brown.py
+++ b/bdld/potential/mueller_brown.py
@@ -45,9 +45,7 @@ class MuellerBrownPotential(Potential):
         self.n_dim = 2
         self.ranges = [(-1.5, 1.5), (-0.5, 2.5)]
         self.scaling_factor = scaling_factor or 1.0
-        if scaling_factor:
-            global A
-            A *= self.scaling_factor
+        self.A = A * self.scaling_factor
 
     def __str__(self) -> str:
         """Give out coefficients"""
@@ -72,12 +70,12 @@ class MuellerBrownPotential(Potential):
                 + b[i] * (x - x0[i]) * (y - y0[i])
                 + c[i] * (y - y0[i]) ** 2
             )
-            pot += A[i] * exp_tmp1
+            pot += self.A[i] * exp_tmp1
             force[0] += (
-                -A[i] * (2.0 * a[i] * (x - x0[i]) + b[i] * (y - y0[i])) * exp_tmp1
+                -self.A[i] * (2.0 * a[i] * (x - x0[i]) + b[i] * (y - y0[i])) * exp_tmp1
             )
             force[1] += (
-                -A[i] * (b[i] * (x - x0[i]) + 2.0 * c[i] * (y - y0[i])) * exp_tmp1
+                -self.A[i] * (b[i] * (x - x0[i]) + 2.0 * c[i] * (y - y0[i])) * exp_tmp1
             )
         pot += pot_shift
         return (pot, force)
@@ -92,7 +90,7 @@ class MuellerBrownPotential(Potential):
         x = pos[0]
         y = pos[1]
         for i in range(4):
-            pot += A[i] * np.exp(
+            pot += self.A[i] * np.exp(
                 a[i] * (x - x0[i]) ** 2
                 + b[i] * (x - x0[i]) * (y - y0[i])
                 + c[i] * (y - y0[i]) ** 2
@@ -116,9 +114,9 @@ class MuellerBrownPotential(Potential):
                 + c[i] * (y - y0[i]) ** 2
             )
             force[0] += (
-                -A[i] * (2.0 * a[i] * (x - x0[i]) + b[i] * (y - y0[i])) * exp_tmp1
+                -self.A[i] * (2.0 * a[i] * (x - x0[i]) + b[i] * (y - y0[i])) * exp_tmp1
             )
             force[1] += (
-                -A[i] * (b[i] * (x - x0[i]) + 2.0 * c[i] * (y - y0[i])) * exp_tmp1
+                -self.A[i] * (b[i] * (x - x0[i]) + 2.0 * c[i] * (y - y0[i])) * exp_tmp1
             )
         return force
-- 
2.43.0


From 3cd72d276b93d601f0b2642f3a3780f05817acd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:03 +0000
Subject: [PATCH 04/30] fix: periodic boundary condition wrapped by one box
 length only

A step of more than one box length left the walker outside of the range.
---
 bdld/potential/potential.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bdld/potential/potential.py b/bdld/potential/potential.py
index cd7d69a..ef88089 100644
--- a/bdld/potential/potential.py
+++ b/bdld/potential/potential.py
@@ -173,7 +173,7 @@ class Potential:
         :param mom: momentum of particle per direction (not actually changed)
         """
         for i, x in enumerate(pos):
-            if x < self.ranges[i][0]:
-                pos[i] += self.ranges[i][1] - self.ranges[i][0]
-            elif x > self.ranges[i][1]:
-                pos[i] -= self.ranges[i][1] - self.ranges[i][0]
+            if x < self.ranges[i][0] or x > self.ranges[i][1]:
+                start, end = self.ranges[i]
+                # the minimum only guards against rounding
+                pos[i] = min(start + (x - start) % (end - start), end)
-- 
2.43.0


From 1d5845f6cfab626f24681e6bbd449fe47e9140ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:24 +0000
Subject: [PATCH 05/30] fix: more than 3 dimensions of the potential were
 accepted by the parser

---
 bdld/inputparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index 1b41d9c..fa4e435 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -121,7 +121,7 @@ class Input:
         lambda lst: all(x > 0 for x in lst), "all values must be greater than zero"
     )
     positive_or_zero = Condition(lambda x: x >= 0, "must be greater or equal than zero")
-    at_most_3dim = Condition(lambda x: x > 0 & x < 4, "must be between 1 and 3")
+    at_most_3dim = Condition(lambda x: 0 < x < 4, "must be between 1 and 3")
 
     # @staticmethod
     # def match_dimensions(n_dim: int) -> Condition:
-- 
2.43.0


From df84f79aa37c44d1b1e3d2a885fdd4019788a374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:25 +0000
Subject: [PATCH 06/30] fix: coeffs-file was ignored for one-dimensional
 potentials

The documentation allows either coeffs or coeffs-file in 1D, but only the former
was read. Having neither is now reported as missing option instead of failing
while setting up the potential.
---
 bdld/inputparser.py | 3 ++-
 bdld/main.py        | 7 +++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index fa4e435..b05a384 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -213,7 +213,8 @@ class Input:
                 options = [
                     type_option,
                     n_dim_option,
-                    InputOption("coeffs", [float], False),
+                    InputOption("coeffs", [float], "coeffs-file" not in section),
+                    InputOption("coeffs-file", str, False),
                     InputOption("min", float, True),
                     InputOption("max", float, True),
                 ]
diff --git a/bdld/main.py b/bdld/main.py
index 0c881f4..21c976e 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -128,15 +128,14 @@ def setup_potential(options: Dict) -> Potential:
     if options["type"] == "polynomial":
         if options["n_dim"] == 1:
             ranges = [(options["min"], options["max"])]
-            pot: Potential = potential.polynomial.PolynomialPotential(
-                options["coeffs"], ranges
-            )
         else:
             ranges = list(zip(options["min"], options["max"]))
+        coeffs = options.get("coeffs")
+        if coeffs is None:
             coeffs = potential.polynomial.coefficients_from_file(
                 options["coeffs-file"], options["n_dim"]
             )
-            pot = potential.polynomial.PolynomialPotential(coeffs, ranges)
+        pot: Potential = potential.polynomial.PolynomialPotential(coeffs, ranges)
     elif options["type"] == "mueller-brown":
         pot = potential.mueller_brown.MuellerBrownPotential(options["scaling-factor"])
     else:
-- 
2.43.0


From e157f09d0119add886f14bd00cb11c7769cc18f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:26 +0000
Subject: [PATCH 07/30] fix: coefficient files with a single row could not be
 read

---
 bdld/potential/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/potential/polynomial.py b/bdld/potential/polynomial.py
index dc5279e..32b75fb 100644
--- a/bdld/potential/polynomial.py
+++ b/bdld/potential/polynomial.py
@@ -96,7 +96,7 @@ def coefficients_from_file(filename: str, n_dim: int) -> np.ndarray:
     :param filename: path to file holding the coefficients
     :param n_dim: dimensions of potential
     """
-    file_data = np.genfromtxt(filename)
+    file_data = np.atleast_2d(np.genfromtxt(filename))
 
     # highest polynomial order per dimension
     shape = [int(max(file_data[:, i])) + 1 for i in range(n_dim)]
-- 
2.43.0


From 2e25f97e75e4a1f6daa932d88cbf746685b610ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:42 +0000
Subject: [PATCH 08/30] fix: report list options that cannot be converted like
 all others

---
 bdld/inputparser.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index b05a384..231a533 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -100,7 +100,14 @@ class InputOption:
         # parsing of lists is a bit more complicated
         if isinstance(self.keytype, list):
             val = section.get(self.key)
-            val = [self.keytype[0](x) for x in val.split(",")]
+            try:
+                val = [self.keytype[0](x) for x in val.split(",")]
+            except ValueError as e:
+                raise OptionError(
+                    f"could not be converted to list of {self.keytype[0].__name__}",
+                    self.key,
+                    section.name,
+                ) from e
         if self.condition:
             if not self.condition.function(val):
                 raise OptionError(self.condition.desc, self.key, section.name)
-- 
2.43.0


From 1e28a17b9e9808442a984bf878a06821dee315ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:42 +0000
Subject: [PATCH 09/30] fix: unknown approximation variant was not reported as
 input error

ApproxVariant.from_str() raises a TypeError, but only KeyErrors were caught. The
option and section were also swapped in the message.
---
 bdld/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bdld/main.py b/bdld/main.py
index 21c976e..f91054a 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -240,9 +240,9 @@ def setup_birth_death(options: Dict, ld: BussiParinelloLD) -> BirthDeath:
         if options[key]:
             try:
                 approx_variant = ApproxVariant.from_str(options[key])
-            except KeyError as err:
+            except TypeError as err:
                 e = "The specified {} could not be understood".format(key)
-                raise inputparser.OptionError(e, "birth-death", key) from err
+                raise inputparser.OptionError(e, key, "birth-death") from err
             return approx_variant
         return None
 
-- 
2.43.0


From a1c17bf5da61010a78e05667ba870676a86c996b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:43 +0000
Subject: [PATCH 10/30] fix: missing histogram or fes section was not reported
 as input error

---
 bdld/inputparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index 231a533..c23a65a 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -342,7 +342,7 @@ class Input:
     def parse_fes(self, section: configparser.SectionProxy) -> None:
         """Define and parse the fes section"""
         if not self.histogram:
-            raise configparser.NoSectionError("histogram")
+            raise SectionError("histogram")
         options = [
             InputOption("kt", float, True, Input.positive),
             InputOption("stride", int, False, Input.positive),
@@ -359,7 +359,7 @@ class Input:
     def parse_delta_f(self, section: configparser.SectionProxy) -> None:
         """Define and parse if delta f should be calculated section"""
         if not self.fes:
-            raise configparser.NoSectionError("fes")
+            raise SectionError("fes")
         options = [
             InputOption("stride", int, False, Input.positive),
             InputOption("filename", str, False),
-- 
2.43.0


From e9c68883f81db72dbc65ffcbf6ba6ea21dced3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:43 +0000
Subject: [PATCH 11/30] fix: unknown boundary conditions were silently ignored

---
 bdld/inputparser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index c23a65a..8577a75 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -245,7 +245,13 @@ class Input:
                 "type",
                 section.name,
             )
-        options.append(InputOption("boundary-condition", str, False))
+        boundary_conditions = ["reflective", "periodic"]
+        allowed_boundary_condition = Condition(
+            lambda x: x in boundary_conditions, f"must be one of {boundary_conditions}"
+        )
+        options.append(
+            InputOption("boundary-condition", str, False, allowed_boundary_condition)
+        )
         self.potential = self.parse_section(section, options)
 
     def parse_particles(self, section: configparser.SectionProxy) -> None:
-- 
2.43.0


From 63ee24a809c9886f87532ef697617bc9de1bcc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:44 +0000
Subject: [PATCH 12/30] fix: missing start positions were not reported as input
 error

---
 bdld/inputparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index 8577a75..2472f9a 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -280,7 +280,8 @@ class Input:
         options.append(init_dist_option)
 
         if init_dist in ["random-pos", "fractions-pos"]:
-            for i, _ in enumerate(get_all_numbered_values(section, "pos")):
+            n_pos = len(get_all_numbered_values(section, "pos"))
+            for i in range(max(n_pos, 1)):  # at least one is required
                 options.append(InputOption(f"pos{i+1}", [float], True))
 
         if init_dist == "fractions-pos":
-- 
2.43.0


From a44e76f0ca24e88e11d992e533cffced4516938b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:55 +0000
Subject: [PATCH 13/30] fix: new histograms already contained one count

---
 bdld/histogram.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bdld/histogram.py b/bdld/histogram.py
index b2f86a9..c4472e4 100644
--- a/bdld/histogram.py
+++ b/bdld/histogram.py
@@ -46,6 +46,7 @@ class Histogram(grid.Grid):
             bins=self.n_points,
             range=self.histo_ranges,
         )
+        self.clear()  # don't count the arbitrary value
         self.ranges = [
             (a[0], a[-1]) for a in self.axes()
         ]  # ranges of points in underlying grid
-- 
2.43.0


From 6fe0e14fa82970893cb1092186ec093feac12eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:56 +0000
Subject: [PATCH 14/30] fix: old data was written again if there was none since
 the last write

With an update stride larger than 1 the last write can be before the current step
without any new data point in between, e.g. at the end of the simulation. This
returned the whole array.
---
 bdld/actions/action.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bdld/actions/action.py b/bdld/actions/action.py
index 8ae81e7..9873be8 100644
--- a/bdld/actions/action.py
+++ b/bdld/actions/action.py
@@ -63,7 +63,8 @@ def get_valid_data(
     :param update_stride: number of time steps between data points
     :param last_write: when the data was last written (needs to be less than write_stride ago)
     """
-    if step == last_write:  # manual check because already_written is 0 due to modulo
+    # manual check because already_written is 0 due to modulo
+    if step // update_stride == last_write // update_stride:
         return data[:0]  # empty view
 
     write_stride = data.shape[0] * update_stride  # wrapping time of data
-- 
2.43.0


From d43060163f2a1621dd6b9f59c4579b3c1f64e72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:19 +0000
Subject: [PATCH 15/30] fix: histogram lost or double counted the data of the
 last block

The data to add was determined from the last write of the trajectory files, which
is already done when the histogram is updated at the end of the simulation and
never done if no filename is given. The last block of data was thus added twice, or
not at all, or with the wrong offset for strides larger than 1.
---
 bdld/actions/histogram_action.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/bdld/actions/histogram_action.py b/bdld/actions/histogram_action.py
index e616625..606a25c 100644
--- a/bdld/actions/histogram_action.py
+++ b/bdld/actions/histogram_action.py
@@ -95,6 +95,8 @@ class HistogramAction(Action):
                 f"Saving histogram every {self.write_stride} time steps to '{filename}'"
             )
         self.update_stride = traj_action.write_stride
+        # not the last write of the trajectory, that might never be written
+        self.last_update: int = 0
         print()
 
     def run(self, step: int):
@@ -124,23 +126,19 @@ class HistogramAction(Action):
             self.write()
 
     def get_traj_data(self, step: int) -> np.ndarray:
-        """Get the right data from the trajectory array
+        """Get the data that was not yet added from the trajectory array
 
         :param step: current simulation step
         """
-        # take into account that the traj might have been written this step
-        last_write = (
-            self.traj_action.last_write
-            if self.traj_action.last_write != step
-            else self.traj_action.last_write - self.traj_action.write_stride
-        )
-        return get_valid_data(
+        data = get_valid_data(
             self.traj_action.positions,
             step,
             self.stride,
             1,  # assumes that traj data is stored even if not written
-            last_write,
+            self.last_update,
         )
+        self.last_update = step
+        return data
 
     def write(self, step: int = None):
         """Write histogram to file
-- 
2.43.0


From f22880f56a145115a9f0aa1ec30acae750dd03b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:19 +0000
Subject: [PATCH 16/30] fix: histogram kept positions from before a reset

Positions that were sampled before the reset but not yet added to the histogram
were still counted afterwards.
---
 bdld/actions/histogram_action.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bdld/actions/histogram_action.py b/bdld/actions/histogram_action.py
index 606a25c..8163eff 100644
--- a/bdld/actions/histogram_action.py
+++ b/bdld/actions/histogram_action.py
@@ -113,6 +113,7 @@ class HistogramAction(Action):
         if step in self.reset:
             logging.info("Reset of histogram at step %s", step)
             self.histo.clear()
+            self.last_update = step  # also drop data that was not added yet
 
     def final_run(self, step: int):
         """Same as run without stride checks
-- 
2.43.0


From a85842dab923b759516772e944daf0184e335778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:20 +0000
Subject: [PATCH 17/30] fix: delta-f could not be used in more than one
 dimension

The masks hold one value per point of the flattened FES, but were compared to the
shape of the multidimensional one.
---
 bdld/actions/delta_f_action.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bdld/actions/delta_f_action.py b/bdld/actions/delta_f_action.py
index 45bb8e0..57fb7b3 100644
--- a/bdld/actions/delta_f_action.py
+++ b/bdld/actions/delta_f_action.py
@@ -140,8 +140,8 @@ class DeltaFAction(Action):
 
 
 def check_mask_shapes(masks: List[np.ndarray], fes: np.ndarray) -> None:
-    """Check if the shape of all masks is equal to the shape of the FES"""
-    if any(mask.shape != fes.shape for mask in masks):
+    """Check if the shape of all masks is equal to the shape of the flattened FES"""
+    if any(mask.shape != (fes.size,) for mask in masks):
         raise ValueError("Shapes of mask not equal to FES shape")
 
 
-- 
2.43.0


From 58ed0c9358ee928a8c92c7f2a7139e9c1586103f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:20 +0000
Subject: [PATCH 18/30] fix: points of 3d grids were not in row-major order

The second and first axis were swapped with respect to the data.
---
 bdld/grid.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bdld/grid.py b/bdld/grid.py
index 637f5b3..f3e471e 100644
--- a/bdld/grid.py
+++ b/bdld/grid.py
@@ -145,8 +145,10 @@ class Grid:
 
     def points(self) -> np.ndarray:
         """Return all grid points as a array of shape (n_points, dim) in row-major order"""
-        return np.array(np.meshgrid(*self.axes())).T.reshape(
-            np.prod(self.n_points), self.n_dim
+        return (
+            np.array(np.meshgrid(*self.axes(), indexing="ij"))
+            .reshape(self.n_dim, np.prod(self.n_points))
+            .T
         )
 
     def set_from_func(self, func: Callable[..., float]) -> None:
-- 
2.43.0


From ac6fbf50e2dd5b8b516a0bbc9117188f3dad116a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:43 +0000
Subject: [PATCH 19/30] fix: plots with plot-stride asked for a filename
 instead of being saved

Appending the time step to e.g. 'fes.png' gave an unknown image format, which made
the simulation wait for user input.
---
 bdld/actions/fes_action.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bdld/actions/fes_action.py b/bdld/actions/fes_action.py
index c3df662..d02926e 100644
--- a/bdld/actions/fes_action.py
+++ b/bdld/actions/fes_action.py
@@ -5,6 +5,7 @@ Also holds functions for calculating and plotting the FES
 
 from collections import OrderedDict
 import logging
+import os
 from typing import List, Optional, Tuple
 
 import numpy as np
@@ -161,14 +162,16 @@ class FesAction(Action):
     def plot(self, step: int = None) -> None:
         """Plot fes with reference and optionally save to file
 
-        If a step is specified it will be appended to the filename, i.e. it is written
-        to a new file. It will also be used for the plot title
+        If a step is specified it will be added to the filename (before the extension),
+        i.e. it is written to a new file. It will also be used for the plot title
 
         :param step: current simulation step, optional
         """
         if self.plot_filename:
             if step:
-                plot_filename = f"{self.plot_filename}_{step}"
+                # keep file extension, it determines the image format
+                root, ext = os.path.splitext(self.plot_filename)
+                plot_filename = f"{root}_{step}{ext}"
                 plot_title = f"{self.plot_title}_{step}"
             else:
                 plot_filename = self.plot_filename
-- 
2.43.0


From 314c9de1f7a62bf0d51d7c81b97d8da58f4f5272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:43 +0000
Subject: [PATCH 20/30] fix: 2d plots of the FES had the axes swapped

---
 bdld/actions/fes_action.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/actions/fes_action.py b/bdld/actions/fes_action.py
index d02926e..144ac2b 100644
--- a/bdld/actions/fes_action.py
+++ b/bdld/actions/fes_action.py
@@ -254,7 +254,7 @@ def plot_fes(
             vmin = None
             vmax = None
         img = ax.imshow(
-            fes,
+            fes.T,  # first index of array is vertical axis
             origin="lower",
             extent=(axes[0][0], axes[0][-1], axes[-1][0], axes[-1][-1]),
             vmin=vmin,
-- 
2.43.0


From 2d37d86b09c4742b5a3aa4f5d12433895ec09fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:44 +0000
Subject: [PATCH 21/30] fix: header of delta-f and particle distribution files
 missed the time

The first column was not named, so all names were off by one column.
---
 bdld/actions/delta_f_action.py        | 2 +-
 bdld/actions/particle_distribution.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/bdld/actions/delta_f_action.py b/bdld/actions/delta_f_action.py
index 57fb7b3..a37e1f2 100644
--- a/bdld/actions/delta_f_action.py
+++ b/bdld/actions/delta_f_action.py
@@ -82,7 +82,7 @@ class DeltaFAction(Action):
             if ref:
                 for i, val in enumerate(self.ref_values):
                     constants[f"ref_{fields[i]}"] = val
-            initialize_file(self.filename, fields, constants)
+            initialize_file(self.filename, ["time"] + fields, constants)
             stride_str = (
                 f"of every {make_ordinal(self.stride)} time step "
                 if self.stride
diff --git a/bdld/actions/particle_distribution.py b/bdld/actions/particle_distribution.py
index da5bc1d..2acbfc0 100644
--- a/bdld/actions/particle_distribution.py
+++ b/bdld/actions/particle_distribution.py
@@ -67,7 +67,8 @@ class ParticleDistributionAction(Action):
         # writing
         self.filename = filename
         if self.filename:
-            fields = [f"n_particles_{i}" for i in range(len(self.states))]
+            fields = ["timestep"]
+            fields += [f"n_particles_{i}" for i in range(len(self.states))]
             constants = OrderedDict()  # add state ranges to file header
             for i, state in enumerate(self.states):
                 constants[f"state_{i}"] = str(state)
-- 
2.43.0


From c979d72c40639714449c1f929fac2956eb420d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:42 +0000
Subject: [PATCH 22/30] fix: rounding errors changed the number of particles
 per start position

E.g. the absolute numbers 48 and 1 for 49 particles resulted in 49 and 0.
---
 bdld/main.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bdld/main.py b/bdld/main.py
index f91054a..4947c73 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -204,7 +204,10 @@ def init_particles(options: Dict, ld: LdType) -> None:
         normalized_fractions = np.array(options["fractions"]) / np.sum(
             options["fractions"]
         )
-        counts = [int(frac * options["number"]) for frac in normalized_fractions]
+        # round first: the product can be slightly below the desired whole number
+        counts = [
+            int(round(frac * options["number"], 8)) for frac in normalized_fractions
+        ]
         counts[0] += options["number"] - np.sum(counts)  # rounding offset
         init_pos_choices = cast(
             List[List[float]], inputparser.get_all_numbered_values(options, "pos")
-- 
2.43.0


From 16ce192e5928c70fb36d7aa15690546b9f3cbe4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:43 +0000
Subject: [PATCH 23/30] fix: probability density of deep potentials was not
 finite

The exponential overflowed (or was zero everywhere) if the minimum of the potential
was far from zero in units of kt.
---
 bdld/potential/potential.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bdld/potential/potential.py b/bdld/potential/potential.py
index ef88089..57a6ea1 100644
--- a/bdld/potential/potential.py
+++ b/bdld/potential/potential.py
@@ -92,7 +92,8 @@ class Potential:
             raise ValueError("Dimension of grid_points do not match potential")
         fes = grid.from_npoints(ranges, grid_points)
         fes.set_from_func(self.energy)
-        prob = np.exp(-fes / kt)
+        # shift minimum to zero to avoid overflows, this is removed by the normalization
+        prob = np.exp(-(fes - np.min(fes.data)) / kt)
         # normalize with volume element from stepsizes
         prob /= np.sum(prob.data) * np.prod(prob.stepsizes)
         return prob
-- 
2.43.0


From 214845c09fc2db5e2a5d9c1872666825b92d8c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:44 +0000
Subject: [PATCH 24/30] fix: birth-death approximations gave invalid rates for
 high potentials

If the equilibrium density underflows anywhere in the range of the potential, the
integral of the additive variant was nan for all walkers and the rates of the
multiplicative variant became infinite.
---
 bdld/main.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bdld/main.py b/bdld/main.py
index 4947c73..a161d89 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -296,7 +296,10 @@ def bd_prob_density(pot: Potential, bd_bw: np.ndarray, kt: float) -> Grid:
         if tmp_grid_points % 2 == 0:
             tmp_grid_points += 1  # odd number is better for convolution
         n_grid_points.append(tmp_grid_points)
-    return pot.calculate_probability_density(kt, pot.ranges, n_grid_points)
+    prob = pot.calculate_probability_density(kt, pot.ranges, n_grid_points)
+    # the approximations need the logarithm: avoid zeros from underflows
+    prob.data = np.maximum(prob.data, np.finfo(float).tiny)
+    return prob
 
 
 def setup_trajectories(options: Dict, ld: LdType) -> TrajectoryAction:
-- 
2.43.0


From 579c46803458d0a26b69989983776c413447e1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:02 +0000
Subject: [PATCH 25/30] fix: kt of the [fes] section was ignored

The documentation states that the FES is calculated with the given temperature, but
always the one of the Langevin dynamics was used (1 for the overdamped ones).
---
 bdld/actions/delta_f_action.py | 4 ++--
 bdld/actions/fes_action.py     | 4 +++-
 bdld/main.py                   | 1 +
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/bdld/actions/delta_f_action.py b/bdld/actions/delta_f_action.py
index a37e1f2..7657667 100644
--- a/bdld/actions/delta_f_action.py
+++ b/bdld/actions/delta_f_action.py
@@ -67,8 +67,8 @@ class DeltaFAction(Action):
         else:  # just store one data set
             self.delta_f = np.empty((len(self.masks)))
 
-        # copy temp and timestep from LD
-        self.kt = self.fes_action.histo_action.traj_action.ld.kt
+        # copy temp from FES and timestep from LD
+        self.kt = self.fes_action.kt
         self.dt = self.fes_action.histo_action.traj_action.ld.dt
 
         if ref:
diff --git a/bdld/actions/fes_action.py b/bdld/actions/fes_action.py
index 144ac2b..411349e 100644
--- a/bdld/actions/fes_action.py
+++ b/bdld/actions/fes_action.py
@@ -42,6 +42,7 @@ class FesAction(Action):
         plot_domain: Optional[Tuple[float, float]] = None,
         plot_title: str = None,
         ref: Optional[np.ndarray] = None,
+        kt: Optional[float] = None,
     ) -> None:
         """Set up fes calculation for a Histogram
 
@@ -60,6 +61,7 @@ class FesAction(Action):
         :param plot_filename: filename for plot, optional
         :param plot_domain: specify domain for plots, optional
         :param ref: reference fes for plot, optional
+        :param kt: thermal energy, defaults to the one of the Langevin dynamics
         :raise ValueError: if a write_stride but no stride is passed
         :raise ValueError: if a write_stride but no filename is passed
         :raise ValueError: if a plot_stride but no stride is passed
@@ -67,7 +69,7 @@ class FesAction(Action):
         """
         print("Setting up FES calculation for the histogram\n" + "Parameters:")
         self.histo_action = histo_action
-        self.kt = self.histo_action.traj_action.ld.kt
+        self.kt = kt or self.histo_action.traj_action.ld.kt
         print(f"  kt = {self.kt}")
         # set up grid by running analysis to have dimensions and allow checks on shape
         self.fes = calculate_fes(self.histo_action.histo, self.kt)
diff --git a/bdld/main.py b/bdld/main.py
index a161d89..5990070 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -351,6 +351,7 @@ def setup_fes(options: Dict, histo_action: HistogramAction) -> FesAction:
         options["plot-domain"],
         options["plot-title"],
         ref,
+        options["kt"],
     )
 
 
-- 
2.43.0


From 829ee51adc34250843fc566431b7a2c6698c4edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:56 +0000
Subject: [PATCH 26/30] fix: delta-f with less than two states is refused like
 other bad options

The ValueError of setup_delta_f ended the program with a traceback that names
neither the option nor the section; raise the OptionError main() reports.
---
 bdld/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/main.py b/bdld/main.py
index 5990070..48fb37d 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -362,7 +362,7 @@ def setup_delta_f(options: Dict, fes_action: FesAction) -> DeltaFAction:
     state_ranges = inputparser.min_max_to_ranges(min_list, max_list)
     if len(state_ranges) < 2:
         e_msg = "You need to specify at least 2 states for delta F calculations"
-        raise ValueError(e_msg)
+        raise inputparser.OptionError(e_msg, "state2-min / state2-max", "delta-f")
 
     fes_points = fes_action.histo_action.histo.points()
     masks = pos_inside_ranges(fes_points, state_ranges)
-- 
2.43.0


From 280989daecdbb8e111faa009c49034cbff585005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:47 +0000
Subject: [PATCH 27/30] fix: scaling factor zero of the Mueller-Brown potential
 was ignored

---
 bdld/potential/mueller_brown.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/potential/mueller_brown.py b/bdld/potential/mueller_brown.py
index 3da3a58..364b124 100644
--- a/bdld/potential/mueller_brown.py
+++ b/bdld/potential/mueller_brown.py
@@ -44,7 +44,7 @@ class MuellerBrownPotential(Potential):
 
         self.n_dim = 2
         self.ranges = [(-1.5, 1.5), (-0.5, 2.5)]
-        self.scaling_factor = scaling_factor or 1.0
+        self.scaling_factor = 1.0 if scaling_factor is None else scaling_factor
         self.A = A * self.scaling_factor
 
     def __str__(self) -> str:
-- 
2.43.0


From b075ee96c96714e6aba799cd424174520503a924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:28 +0000
Subject: [PATCH 28/30] fix: center the kernel of the density convolution

The kernel grid started at -5 sigma and was extended at its upper end to a whole
number of steps, so its center was up to half a step away from zero unless the
width is a multiple of the step. The tabulated term of the additive and
multiplicative approximation was shifted by that distance.
---
 bdld/actions/birth_death.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bdld/actions/birth_death.py b/bdld/actions/birth_death.py
index 7fa222d..c874d04 100644
--- a/bdld/actions/birth_death.py
+++ b/bdld/actions/birth_death.py
@@ -502,7 +502,9 @@ def dens_kernel_convolution(
                       If 'same' it will use exactly the ranges of the original grid.
     :return conv: grid holding the convolution values
     """
-    kernel_ranges = [(-x, x) for x in 5 * bw]  # cutoff at 5 sigma
+    # cutoff at 5 sigma, use full steps in both directions to center the kernel
+    stepsizes = np.array(eq_density.stepsizes)
+    kernel_ranges = [(-x, x) for x in np.ceil(5 * bw / stepsizes) * stepsizes]
     kernel = grid.from_stepsizes(kernel_ranges, eq_density.stepsizes)
     kernel.data = calc_kernel(kernel.points(), bw)
     # direct method is needed to avoid getting negative values instead of really small ones
-- 
2.43.0


From 2e0e882dda6fe314d67929372ec04a8f61dca0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:35 +0000
Subject: [PATCH 29/30] fix: write also grids with three dimensions to file

---
 bdld/grid.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bdld/grid.py b/bdld/grid.py
index f3e471e..4cbbc23 100644
--- a/bdld/grid.py
+++ b/bdld/grid.py
@@ -212,6 +212,16 @@ class Grid:
                 fmt,
                 header,
             )
+        else:  # higher dimensions: just one line per point
+            np.savetxt(
+                filename,
+                np.c_[self.points(), self.data.reshape(-1)],
+                fmt=fmt,
+                header=header,
+                delimiter=" ",
+                newline="\n",
+                comments="",
+            )
 
 
 def convolve(g1: Grid, g2: Grid, mode: str = "valid", method: str = "auto") -> Grid:
-- 
2.43.0


From 2a509b2e1c196065c6a9c5b3116e3705b9c75057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:35 +0000
Subject: [PATCH 30/30] fix: do not count walkers without rate as birth
 attempts

---
 bdld/actions/birth_death.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/actions/birth_death.py b/bdld/actions/birth_death.py
index c874d04..4efbed3 100644
--- a/bdld/actions/birth_death.py
+++ b/bdld/actions/birth_death.py
@@ -169,7 +169,7 @@ class BirthDeath(Action):
         if not self.recalc_probs:
             curr_kill_attempts = np.count_nonzero(beta > 0)
             self.stats.kill_attempts += curr_kill_attempts
-            self.stats.dup_attempts += num_part - curr_kill_attempts
+            self.stats.dup_attempts += np.count_nonzero(beta < 0)
 
             # lists with particles to be killed and duplicated (in order)
             dup_list: List[int] = []
-- 
2.43.0

