From a7cdfc4f15cbfa7459ded8a00a74ce9484390fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:33 +0000
Subject: [PATCH 01/30] fix: recognise CSV input files without a header

The sniffer was given a single line, for which it always claims a header, so
the first row of header-less files was taken for column names.
---
 src/disc_solver/solve/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/disc_solver/solve/utils.py b/src/disc_solver/solve/utils.py
index 5201d52..49e2fd6 100644
--- a/src/disc_solver/solve/utils.py
+++ b/src/disc_solver/solve/utils.py
@@ -2,7 +2,7 @@
 """
 Utility function and classes for solver associated code
 """
-from csv import DictReader, Sniffer, get_dialect
+from csv import DictReader, Sniffer, get_dialect, reader
 from multiprocessing import current_process
 from pathlib import Path
 
@@ -233,10 +233,12 @@ class CSVReaderHelper:
         """
         Checks if csv file has header
         """
+        # The sniffer cannot tell from the first line only (and guesses when
+        # given more), but no value is the name of a column.
         self.file.seek(0)
-        has_header = Sniffer().has_header(next(iter(self)))
+        first_row = next(reader(self, dialect="unix"), [])
         self.file.seek(0)
-        return has_header
+        return any(name in CONFIG_FIELDS for name in first_row)
 
     def get_dialect(self, *args, lines=5, **kwargs):
         """
-- 
2.43.0


From 86edb4155a9f79a537c312a704b56febc821f634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 02/30] fix: report why the pool of workers could not be
 started

The failure was hidden by an UnboundLocalError raised when closing the pool
that was never created.
---
 src/disc_solver/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disc_solver/utils.py b/src/disc_solver/utils.py
index ecabbe2..f8d9a8b 100644
--- a/src/disc_solver/utils.py
+++ b/src/disc_solver/utils.py
@@ -384,8 +384,9 @@ def nicer_mp_pool(*args, **kwargs):
     """
     Wrapper around multiprocessing.Pool - maybe look at forks or alternatives?
     """
+    # Outside the try, as there is nothing to close if starting the pool fails
+    pool = Pool(*args, **kwargs)  # pylint: disable=consider-using-with
     try:
-        pool = Pool(*args, **kwargs)  # pylint: disable=consider-using-with
         yield pool
     finally:
         # terminate is usually called, which can break stuff if there's a
-- 
2.43.0


From a4c22fdbfbb832577ea049406fbf2af76725df72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 03/30] fix: close the output file when writing to it failed

open_or_stream only closed the file it opened if its body did not raise.
---
 src/disc_solver/utils.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/disc_solver/utils.py b/src/disc_solver/utils.py
index f8d9a8b..1962ecf 100644
--- a/src/disc_solver/utils.py
+++ b/src/disc_solver/utils.py
@@ -334,18 +334,12 @@ def open_or_stream(filename, *args, **kwargs):
     Passing '-' as the filename uses stdout.
     """
     if filename == '-':
-        file = None
         yield stdout
     elif isinstance(filename, IOBase):
-        file = None
         yield filename
     else:
-        # pylint: disable=consider-using-with
-        file = open(filename, *args, **kwargs)
-        yield file
-
-    if file is not None:
-        file.close()
+        with open(filename, *args, **kwargs) as file:
+            yield file
 
 
 def main_entry_point_wrapper(description, **kwargs):
-- 
2.43.0


From 179d7d129d71822e1a567f10665ece9713c1ae6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 04/30] fix: misspelt status flag in sonic_root

A sonic solution which did not fail raised AttributeError, as there is no
flag called SUCESS.
---
 src/disc_solver/solve/sonic_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/sonic_root.py b/src/disc_solver/solve/sonic_root.py
index ddffd0d..4458d65 100644
--- a/src/disc_solver/solve/sonic_root.py
+++ b/src/disc_solver/solve/sonic_root.py
@@ -232,7 +232,7 @@ def write_solution(run, initial_solution, sonic_solution):
         logger.warn("Sonic solution failed with flag {}".format(
             sonic_solution.flag.name
         ))
-    elif sonic_solution.flag != StatusFlag.SUCESS:
+    elif sonic_solution.flag != StatusFlag.SUCCESS:
         logger.info("Sonic solution ended with flag {}".format(
             sonic_solution.flag.name
         ))
-- 
2.43.0


From 596ec27f55bb849159c01144be732afa9d3f6a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 05/30] fix: sonic_root changed the initial conditions it
 started from

Each guess was written into the array belonging to the initial conditions
of the midplane solution, so these were neither those stored nor those used
from the second guess on.
---
 src/disc_solver/solve/sonic_root.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/disc_solver/solve/sonic_root.py b/src/disc_solver/solve/sonic_root.py
index 4458d65..341778a 100644
--- a/src/disc_solver/solve/sonic_root.py
+++ b/src/disc_solver/solve/sonic_root.py
@@ -187,6 +187,8 @@ def total_vars_to_mod_cons(*, initial_conditions, guess, sonic_stop):
     """
     θ_sonic = guess[TotalVars.θ_sonic]
     mod_cons = InitialConditions(**vars(initial_conditions))
+    # The array is shared with the original initial conditions
+    mod_cons.init_con = mod_cons.init_con.copy()
     mod_cons.angles = linspace(
         θ_sonic, sonic_stop, len(initial_conditions.angles)
     )
-- 
2.43.0


From 923bb77d78ae6dde7cff3fef7e33e64c76337c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 06/30] fix: mcmc solver claimed success without a solution

---
 src/disc_solver/solve/mcmc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/solve/mcmc.py b/src/disc_solver/solve/mcmc.py
index 9974e49..a2876a1 100644
--- a/src/disc_solver/solve/mcmc.py
+++ b/src/disc_solver/solve/mcmc.py
@@ -93,8 +93,9 @@ def solver(soln_input, run, store_internal=True):
             generate_initial_positions(soln_input, sys_vars_enum),
             soln_input.iterations, progress=True,
         )
-    run.final_solution = logprobfunc.best_solution
-    return True
+    best_solution = logprobfunc.best_solution
+    run.final_solution = best_solution
+    return best_solution is not None
 
 
 class LogProbGenerator:
-- 
2.43.0


From fc80517a435e637d224b8f0bd3f71acc338a8841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 07/30] fix: stepping changed the input of the solution stepped
 from

The dictionary updated was the one of the SolutionInput itself, so solutions
kept in memory claimed to have been computed with the input of the next
attempt.
---
 src/disc_solver/solve/fast_crosser.py | 2 +-
 src/disc_solver/solve/stepper.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/solve/fast_crosser.py b/src/disc_solver/solve/fast_crosser.py
index 7715080..1e9a4b4 100644
--- a/src/disc_solver/solve/fast_crosser.py
+++ b/src/disc_solver/solve/fast_crosser.py
@@ -71,7 +71,7 @@ def stepper_creator(soln_writer, *, step_size, solution_input):
         """
         nonlocal phase
         soln_writer(soln, attempt)
-        inp_dict = vars(soln.solution_input)
+        inp_dict = dict(vars(soln.solution_input))
         current_v_r = inp_dict["v_rin_on_c_s"]
         current_quality = compute_quality(soln)
         log.notice("v_r is {}", current_v_r)
diff --git a/src/disc_solver/solve/stepper.py b/src/disc_solver/solve/stepper.py
index 23ed565..a4218bf 100644
--- a/src/disc_solver/solve/stepper.py
+++ b/src/disc_solver/solve/stepper.py
@@ -279,7 +279,7 @@ def step_input():
         """
         Return new input
         """
-        inp_dict = vars(soln.solution_input)
+        inp_dict = dict(vars(soln.solution_input))
         prev_γ = inp_dict["γ"]
         if soln_type == SplitterStatus.DIVERGE:
             inp_dict["γ"] -= step_size
-- 
2.43.0


From b07291394d21c8f240fb3212a2911f85d7d5df44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 08/30] fix: golden-section search of fast_crosser left its
 bracket

The first probe was below the lower limit found, not between the limits.
---
 src/disc_solver/solve/fast_crosser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/fast_crosser.py b/src/disc_solver/solve/fast_crosser.py
index 1e9a4b4..8f8dc9d 100644
--- a/src/disc_solver/solve/fast_crosser.py
+++ b/src/disc_solver/solve/fast_crosser.py
@@ -120,7 +120,7 @@ def stepper_creator(soln_writer, *, step_size, solution_input):
             # golden ratio
             return SolutionInput(**get_next_input(
                 inp_dict, limits["min"] + (
-                    (limits["min"] - limits["max"]) / (GOLDEN_RATIO - 1)
+                    (limits["max"] - limits["min"]) / GOLDEN_RATIO
                 )
             ))
         if phase == Phase.BISECTING:
-- 
2.43.0


From 52a8fcf2a170d4c02253c47ec3ff026ab09528ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 09/30] fix: fast_crosser raised IndexError when no solution
 was found

---
 src/disc_solver/solve/fast_crosser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/fast_crosser.py b/src/disc_solver/solve/fast_crosser.py
index 8f8dc9d..7f8d744 100644
--- a/src/disc_solver/solve/fast_crosser.py
+++ b/src/disc_solver/solve/fast_crosser.py
@@ -227,8 +227,10 @@ def solver(
     if not isinstance(run.final_solution, Solution):
         if isinstance(best_solution, Solution):
             run.final_solution = best_solution
-        else:
+        elif len(run.solutions) > 0:
             run.final_solution = run.solutions.get_last_solution()
+        else:
+            run.final_solution = None
 
     if run.final_solution is None:
         # This implies there were no solutions found
-- 
2.43.0


From a96d1ba875b650fdf86ee7705c4566c84949af43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 10/30] fix: raise SolverError if the angles are too close to
 start

All callers handle SolverError, but none the error of the integrator, so one
such input aborted a whole batch of inputs.
---
 src/disc_solver/solve/hydrostatic.py | 2 +-
 src/disc_solver/solve/mod_hydro.py   | 2 +-
 src/disc_solver/solve/solution.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/disc_solver/solve/hydrostatic.py b/src/disc_solver/solve/hydrostatic.py
index c5c4f4e..0180d78 100644
--- a/src/disc_solver/solve/hydrostatic.py
+++ b/src/disc_solver/solve/hydrostatic.py
@@ -605,7 +605,7 @@ def hydrostatic_solution(
             )
         )
         if soln.flag == StatusEnum.TOO_CLOSE:
-            raise e
+            raise SolverError("Angles to solve at are too close") from e
     except CVODESolveFoundRoot as e:
         soln = e.soln
         log.notice("Found root at {}".format(
diff --git a/src/disc_solver/solve/mod_hydro.py b/src/disc_solver/solve/mod_hydro.py
index df3bdf1..4f93598 100644
--- a/src/disc_solver/solve/mod_hydro.py
+++ b/src/disc_solver/solve/mod_hydro.py
@@ -657,7 +657,7 @@ def mod_hydro_solution(
             )
         )
         if soln.flag == StatusEnum.TOO_CLOSE:
-            raise e
+            raise SolverError("Angles to solve at are too close") from e
     except CVODESolveFoundRoot as e:
         soln = e.soln
         log.notice("Found root at {}".format(
diff --git a/src/disc_solver/solve/solution.py b/src/disc_solver/solve/solution.py
index 3ede174..9a672ea 100644
--- a/src/disc_solver/solve/solution.py
+++ b/src/disc_solver/solve/solution.py
@@ -581,7 +581,7 @@ def main_solution(
             )
         )
         if soln.flag == StatusEnum.TOO_CLOSE:
-            raise e
+            raise SolverError("Angles to solve at are too close") from e
     except CVODESolveFoundRoot as e:
         soln = e.soln
         log.notice("Found root at {}".format(
-- 
2.43.0


From d8c421d8dcdedc674fbd0a8513a1b0e1c0c2bb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 11/30] fix: plots inherited settings of earlier plots
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

get_common_arguments changed the module wide defaults, e.g. the offset of v_φ
of one run was applied to later plots which ask for no offset.
---
 src/disc_solver/analyse/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/analyse/utils.py b/src/disc_solver/analyse/utils.py
index 114949b..b40077b 100644
--- a/src/disc_solver/analyse/utils.py
+++ b/src/disc_solver/analyse/utils.py
@@ -124,7 +124,7 @@ def get_common_arguments(
     parameters
     """
     params = PLOT_ORDERINGS[ordering]
-    args = [COMMON_ARGUMENTS[param] for param in params]
+    args = [dict(COMMON_ARGUMENTS[param]) for param in params]
 
     if "v_θ" in params:
         args[ODEIndex.v_θ]["scale"] = v_θ_scale
-- 
2.43.0


From 7c82631c5bad40caedcea639a138e011a6447426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 12/30] fix: ds-flow-file passed an argument save_trajectory
 does not take

---
 src/disc_solver/analyse/trajectory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/disc_solver/analyse/trajectory.py b/src/disc_solver/analyse/trajectory.py
index fec9190..a876037 100644
--- a/src/disc_solver/analyse/trajectory.py
+++ b/src/disc_solver/analyse/trajectory.py
@@ -221,6 +221,8 @@ def traj_main(soln, *, soln_range, out_args, traj_args):
     """
     Entry point for ds-traj
     """
+    # Only used when plotting
+    del traj_args["with_max_v_angle"]
     return save_trajectory(
         soln, soln_range=soln_range, **out_args, **traj_args
     )
-- 
2.43.0


From aed38c62d012433475ccd06a9c4ab69393177c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 13/30] fix: --quiet and --verbose kept records from the log
 file

Records handled on stderr did not reach the handler of the log file.
---
 src/disc_solver/logging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/logging.py b/src/disc_solver/logging.py
index 6cf685a..1b7d361 100644
--- a/src/disc_solver/logging.py
+++ b/src/disc_solver/logging.py
@@ -42,9 +42,9 @@ def log_handler(args, thread_wrapping=True):
     if not isinstance(args, dict):
         args = vars(args)
     if args.get("quiet"):
-        stderr_handler = ColorizedStderrHandler(level="ERROR")
+        stderr_handler = ColorizedStderrHandler(level="ERROR", bubble=True)
     elif args.get("verbose"):
-        stderr_handler = ColorizedStderrHandler(level="DEBUG")
+        stderr_handler = ColorizedStderrHandler(level="DEBUG", bubble=True)
     else:
         stderr_handler = ColorizedStderrHandler(
             level=args.get("stderr_level", "NOTICE").upper(), bubble=True
-- 
2.43.0


From 20da410f766f2779d2072c07b72d792a55ff3df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 14/30] fix: write all records logged before a command ends

The threads writing the records were never told to finish, so records still
queued when the command ended were lost.
---
 src/disc_solver/logging.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/disc_solver/logging.py b/src/disc_solver/logging.py
index 1b7d361..fe37027 100644
--- a/src/disc_solver/logging.py
+++ b/src/disc_solver/logging.py
@@ -35,6 +35,17 @@ def logging_options(parser):
     )
 
 
+class ClosingNestedSetup(NestedSetup):
+    """
+    NestedSetup which closes its handlers at the end of the with block, so that
+    records still queued for a thread are written.
+    """
+    def __exit__(self, exc_type, exc_value, tb):
+        super().__exit__(exc_type, exc_value, tb)
+        for handler in reversed(self.objects):
+            handler.close()
+
+
 def log_handler(args, thread_wrapping=True):
     """
     Return log handler with given config
@@ -68,7 +79,7 @@ def log_handler(args, thread_wrapping=True):
             file_handler = ThreadedWrapperHandler(file_handler)
             stderr_handler = ThreadedWrapperHandler(stderr_handler)
 
-    return NestedSetup([
+    return ClosingNestedSetup([
         NullHandler(),  # catch everything else
         file_handler, stderr_handler
     ])
-- 
2.43.0


From 9f8009d2542a86bb8d5f57c1671e816def6fcc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:41 +0000
Subject: [PATCH 15/30] fix: raise SolverError if there are too few angles for
 any solver

---
 src/disc_solver/solve/hydrostatic.py | 5 +++++
 src/disc_solver/solve/mod_hydro.py   | 5 +++++
 src/disc_solver/solve/solution.py    | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/src/disc_solver/solve/hydrostatic.py b/src/disc_solver/solve/hydrostatic.py
index 0180d78..1887501 100644
--- a/src/disc_solver/solve/hydrostatic.py
+++ b/src/disc_solver/solve/hydrostatic.py
@@ -572,6 +572,11 @@ def hydrostatic_solution(
         else:
             raise SolverError("Need to specify size of root array")
 
+    if len(angles) < 2:
+        raise SolverError(
+            f"Insufficient angles to solve at - angles: {angles}"
+        )
+
     system, internal_data = ode_system(
         a_0=a_0, norm_kepler_sq=norm_kepler_sq,
         init_con=initial_conditions, η_derivs=η_derivs,
diff --git a/src/disc_solver/solve/mod_hydro.py b/src/disc_solver/solve/mod_hydro.py
index 4f93598..295fe7a 100644
--- a/src/disc_solver/solve/mod_hydro.py
+++ b/src/disc_solver/solve/mod_hydro.py
@@ -624,6 +624,11 @@ def mod_hydro_solution(
         else:
             raise SolverError("Need to specify size of root array")
 
+    if len(angles) < 2:
+        raise SolverError(
+            f"Insufficient angles to solve at - angles: {angles}"
+        )
+
     system, internal_data = ode_system(
         a_0=a_0, norm_kepler_sq=norm_kepler_sq,
         init_con=initial_conditions, η_derivs=η_derivs,
diff --git a/src/disc_solver/solve/solution.py b/src/disc_solver/solve/solution.py
index 9a672ea..21478f5 100644
--- a/src/disc_solver/solve/solution.py
+++ b/src/disc_solver/solve/solution.py
@@ -375,6 +375,11 @@ def taylor_solution(
     """
     Compute solution using taylor series
     """
+    if len(angles) < 2:
+        raise SolverError(
+            f"Insufficient angles to solve at - angles: {angles}"
+        )
+
     taylor_stop_angle = rad_to_scaled(taylor_stop_angle, θ_scale)
     system, internal_data = ode_system(
         γ=γ, a_0=a_0, norm_kepler_sq=norm_kepler_sq,
-- 
2.43.0


From 71ec11a5f8d697d2ea09859f4c432e25089f774a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:56 +0000
Subject: [PATCH 16/30] fix: raise SolverError if the root solver cannot
 continue

---
 src/disc_solver/solve/sonic_root.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/disc_solver/solve/sonic_root.py b/src/disc_solver/solve/sonic_root.py
index 341778a..e1140c8 100644
--- a/src/disc_solver/solve/sonic_root.py
+++ b/src/disc_solver/solve/sonic_root.py
@@ -71,11 +71,16 @@ def solver(inp, run, *, store_internal=True):
     root_func = wrap_root_catch_error(root_solver_func)
     best_guess = guess_root_vals(inp, initial_solution)
 
-    result = root(
-        root_func, best_guess, method=ROOT_METHOD, options={
-            "maxiter": inp.iterations, "line_search": LINE_SEARCH_METHOD,
-        },
-    )
+    try:
+        result = root(
+            root_func, best_guess, method=ROOT_METHOD, options={
+                "maxiter": inp.iterations, "line_search": LINE_SEARCH_METHOD,
+            },
+        )
+    except ValueError as e:
+        # The root solver cannot recover from the values standing for failed
+        # solutions
+        raise SolverError("Root solver failed: {}".format(e)) from e
 
     if not result.success:
         logger.error("Root solver failed with message: {}".format(
-- 
2.43.0


From 9379dd8a1da9de41b8cfbed217b7aa56603f9d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:44 +0000
Subject: [PATCH 17/30] fix: stepping could go on for ever at the numerical
 limit

---
 src/disc_solver/solve/stepper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/solve/stepper.py b/src/disc_solver/solve/stepper.py
index a4218bf..5b60561 100644
--- a/src/disc_solver/solve/stepper.py
+++ b/src/disc_solver/solve/stepper.py
@@ -295,9 +295,9 @@ def step_input():
                 raise StepperStop("Hit numerical limit")
 
             # we've got a sign flip solution then
-            bigger_step = 0
+            bigger_step = step_size
             while prev_γ == inp_dict["γ"]:
-                bigger_step += step_size
+                bigger_step *= 2
                 inp_dict["γ"] += bigger_step
         return SolutionInput(**inp_dict)
     return step_func
-- 
2.43.0


From 5408ad1819c67e2542790c5e579e0b95f613223a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:45 +0000
Subject: [PATCH 18/30] fix: mcmc search was aborted by a solution containing
 NaN

---
 src/disc_solver/solve/mcmc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/mcmc.py b/src/disc_solver/solve/mcmc.py
index a2876a1..0e134a6 100644
--- a/src/disc_solver/solve/mcmc.py
+++ b/src/disc_solver/solve/mcmc.py
@@ -134,7 +134,8 @@ class LogProbGenerator:
             return - float("inf")
         logprob = get_logprob_of_soln(soln)
         if not isfinite(logprob):
-            return logprob
+            # the sampler does not accept NaN
+            return - float("inf")
         soln_index = self._run.solutions.add_solution(soln)
         if logprob > self._best_logprob:
             self._best_logprob = logprob
-- 
2.43.0


From bdd217eb35a18c71c930b59f498e99c8f50ad106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:50 +0000
Subject: [PATCH 19/30] fix: fast_crosser was aborted by a failing final solve

---
 src/disc_solver/solve/fast_crosser.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/disc_solver/solve/fast_crosser.py b/src/disc_solver/solve/fast_crosser.py
index 7f8d744..0a9fe6c 100644
--- a/src/disc_solver/solve/fast_crosser.py
+++ b/src/disc_solver/solve/fast_crosser.py
@@ -182,18 +182,18 @@ def solution_generator(
             step_solver(
                 inp, run, store_internal=store_internal, no_final_solution=True
             )
+            final_solution_dict = get_last_solution().solution_input.asdict()
+            final_solution_dict.update(
+                stop=final_stop, num_angles=final_steps,
+            )
+            single_solver(
+                SolutionInput(**final_solution_dict), run,
+                store_internal=store_internal, no_final_solution=True,
+            )
         except SolverError as e:
             log.info(e)
             invalid_soln = get_known_broken_solution(inp)
             return invalid_soln, False
-        final_solution_dict = get_last_solution().solution_input.asdict()
-        final_solution_dict.update(
-            stop=final_stop, num_angles=final_steps,
-        )
-        single_solver(
-            SolutionInput(**final_solution_dict), run,
-            store_internal=store_internal, no_final_solution=True,
-        )
         return get_last_solution(), False
 
     return solution_func
-- 
2.43.0


From cfb4d8ed0e218a77f13da06a8f89986ccd2523b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 20/30] fix: ds-stats goes on after any failure to compute the
 statistics of one solution

---
 src/disc_solver/analyse/stats.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/disc_solver/analyse/stats.py b/src/disc_solver/analyse/stats.py
index 57e02f1..1a316d5 100644
--- a/src/disc_solver/analyse/stats.py
+++ b/src/disc_solver/analyse/stats.py
@@ -240,14 +240,14 @@ def write_stats(solutions, *, output_file):
             if soln is not None:
                 soln_info.update(soln.solution_input.asdict())
                 try:
-                    csvwriter.writerow(compute_solution_stats(
-                        soln, metadata=soln_info
-                    ))
-                except ValueError:
+                    stats = compute_solution_stats(soln, metadata=soln_info)
+                except Exception:  # pylint: disable=broad-except
                     log.exception(
                         "Failed to collect stats for {} {}",
                         filename, soln_name,
                     )
+                else:
+                    csvwriter.writerow(stats)
                 out.flush()
                 del soln
 
-- 
2.43.0


From 21400cdae82f4563d242acc3a6152375e46b1b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 21/30] fix: batch commands accepted logging options but
 ignored them

---
 src/disc_solver/solve/csvrunner.py  | 18 +++++++++++++-----
 src/disc_solver/solve/hdf5runner.py | 20 ++++++++++++++------
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/disc_solver/solve/csvrunner.py b/src/disc_solver/solve/csvrunner.py
index 3e2bfe8..cd6a83b 100644
--- a/src/disc_solver/solve/csvrunner.py
+++ b/src/disc_solver/solve/csvrunner.py
@@ -5,6 +5,8 @@ csvrunner module
 from csv import DictWriter
 from multiprocessing import current_process
 
+from logbook.compat import redirected_warnings, redirected_logging
+
 from pympler.asizeof import asizeof
 
 from . import SONIC_METHOD_MAP
@@ -16,6 +18,7 @@ from .utils import (
 from .. import __version__ as ds_version
 from ..file_format import Run, ConfigInput, SOLUTION_INPUT_FIELDS
 from ..float_handling import float_type
+from ..logging import log_handler
 from ..utils import open_or_stream, main_entry_point_wrapper, nicer_mp_pool
 
 
@@ -131,8 +134,13 @@ def main(argv, parser):
 
     overrides = validate_overrides(args.override)
 
-    csvrunner(
-        input_file=args.input_file, nworkers=args.nworkers,
-        sonic_method=args.sonic_method, store_internal=args.store_internal,
-        overrides=overrides, output_file=args.output_file,
-    )
+    # The workers inherit the handlers, but not any threads of them
+    with (
+        log_handler(args, thread_wrapping=False),
+        redirected_warnings(), redirected_logging(),
+    ):
+        csvrunner(
+            input_file=args.input_file, nworkers=args.nworkers,
+            sonic_method=args.sonic_method, store_internal=args.store_internal,
+            overrides=overrides, output_file=args.output_file,
+        )
diff --git a/src/disc_solver/solve/hdf5runner.py b/src/disc_solver/solve/hdf5runner.py
index bd519a2..f600669 100644
--- a/src/disc_solver/solve/hdf5runner.py
+++ b/src/disc_solver/solve/hdf5runner.py
@@ -6,6 +6,8 @@ from multiprocessing import current_process
 from pathlib import Path
 
 import arrow
+from logbook.compat import redirected_warnings, redirected_logging
+
 from pympler.asizeof import asizeof
 
 from h5preserve import open as h5open
@@ -19,6 +21,7 @@ from .utils import (
 from .. import __version__ as ds_version
 from ..file_format import registries, Run, ConfigInput
 from ..float_handling import float_type
+from ..logging import log_handler
 from ..utils import expanded_path, main_entry_point_wrapper, nicer_mp_pool
 
 
@@ -128,9 +131,14 @@ def main(argv, parser):
 
     overrides = validate_overrides(args.override)
 
-    hdf5runner(
-        output_dir=args.output_dir, input_file=args.input_file,
-        nworkers=args.nworkers, sonic_method=args.sonic_method,
-        store_internal=args.store_internal, overrides=overrides,
-        label=args.label,
-    )
+    # The workers inherit the handlers, but not any threads of them
+    with (
+        log_handler(args, thread_wrapping=False),
+        redirected_warnings(), redirected_logging(),
+    ):
+        hdf5runner(
+            output_dir=args.output_dir, input_file=args.input_file,
+            nworkers=args.nworkers, sonic_method=args.sonic_method,
+            store_internal=args.store_internal, overrides=overrides,
+            label=args.label,
+        )
-- 
2.43.0


From ea396482a3b7558649a2d97c7d9453efd5b1302f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:53 +0000
Subject: [PATCH 22/30] fix: do not cross the sonic point from where the
 integration failed

The jump and the interpolation across the sonic point were done from wherever
the first integration ended, also if the integrator had given up, or never got
near the sonic point. The flag of the solution hid it as well, being that of
the first integration only.
---
 src/disc_solver/solve/solution.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/disc_solver/solve/solution.py b/src/disc_solver/solve/solution.py
index 21478f5..984b80f 100644
--- a/src/disc_solver/solve/solution.py
+++ b/src/disc_solver/solve/solution.py
@@ -678,6 +678,10 @@ def solution(
         sonic_interp_size=sonic_interp_size,
     )
 
+    flag = soln.flag
+    # The sonic point can only be crossed from where the crossing starts
+    reached_sonic = flag == StatusEnum.ROOT_RETURN
+
     if store_internal and taylor_stop_angle is not None:
         if taylor_internal is not None:
             internal_data = taylor_internal + internal_data
@@ -691,7 +695,7 @@ def solution(
         )
         joined_solution = concatenate((taylor_soln.params, soln.values.y))
 
-    if sonic_interp_size is not None:
+    if sonic_interp_size is not None and reached_sonic:
         int_soln, int_internal, int_angles, int_init_con = interp_cross_sonic(
             base_solution=soln, angles=post_taylor_angles,
             system_initial_conditions=init_con, γ=γ, a_0=a_0,
@@ -713,7 +717,9 @@ def solution(
             joined_solution = concatenate(
                 (joined_solution, int_soln.values.y)
             )
+            flag = int_soln.flag
 
+        if int_soln is not None and flag == StatusEnum.ROOT_RETURN:
             post_interp_soln, post_interp_internal_data = main_solution(
                 angles=int_angles, system_initial_conditions=init_con,
                 ode_initial_conditions=int_init_con, γ=γ, a_0=a_0,
@@ -738,8 +744,9 @@ def solution(
             joined_solution = concatenate(
                 (joined_solution, post_interp_soln.values.y)
             )
+            flag = post_interp_soln.flag
 
-    elif jump_before_sonic is not None:
+    elif jump_before_sonic is not None and reached_sonic:
         log.info("jumping over sonic point with jump size {}".format(
             jump_before_sonic
         ))
@@ -772,13 +779,14 @@ def solution(
         joined_solution = concatenate(
             (joined_solution, post_jump_soln.values.y)
         )
+        flag = post_jump_soln.flag
 
     sonic_point = None
     sonic_point_values = None
 
     return Solution(
         solution_input=soln_input, initial_conditions=initial_conditions,
-        flag=soln.flag, coordinate_system=COORDS, internal_data=internal_data,
+        flag=flag, coordinate_system=COORDS, internal_data=internal_data,
         angles=joined_angles, solution=joined_solution,
         t_roots=(
             scaled_to_rad(soln.roots.t, θ_scale)
-- 
2.43.0


From b6746c108c69a697073d5acd5e83b874353dfc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:24 +0000
Subject: [PATCH 23/30] fix: slice_to_str reads back when the slice or its ends
 are not given

slice_to_str failed with an AttributeError for None (the solution input
of a shock), and dropped an end which is not given, so slice(None, 5)
became "5".
---
 src/disc_solver/file_format/_containers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/disc_solver/file_format/_containers.py b/src/disc_solver/file_format/_containers.py
index 356d24e..b11e51b 100644
--- a/src/disc_solver/file_format/_containers.py
+++ b/src/disc_solver/file_format/_containers.py
@@ -51,6 +51,10 @@ def slice_to_str(slice_):
     """
     Convert a slice back to a string
     """
+    if slice_ is None:
+        return "None"
+    if slice_.start is None or slice_.stop is None:
+        return str(slice_)
     return ','.join([
         str(i) for i in (slice_.start, slice_.stop, slice_.step)
         if i is not None
-- 
2.43.0


From 391fa275e1330a42bfde08d0300703444cdb0d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:24 +0000
Subject: [PATCH 24/30] =?UTF-8?q?fix:=20MCMCVars=20with=20only=20=CE=B3=20?=
 =?UTF-8?q?reads=20back=20from=20its=20string?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

With none of v_r, v_a and v_k the string was empty, which is read as
None, i.e. all of them, from config and csv files.
---
 src/disc_solver/file_format/_containers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/disc_solver/file_format/_containers.py b/src/disc_solver/file_format/_containers.py
index b11e51b..172b533 100644
--- a/src/disc_solver/file_format/_containers.py
+++ b/src/disc_solver/file_format/_containers.py
@@ -730,6 +730,9 @@ class MCMCVars:
             true_vars.append("v_a")
         if self.with_v_k:
             true_vars.append("v_k")
+        if not true_vars:
+            # γ always varies; an empty string would be read as all of them
+            return "γ"
         return ','.join(true_vars)
 
 # pylint: enable=too-few-public-methods
-- 
2.43.0


From 0a2fc1b138bc5043a9d2da867bca5f058783ee64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:24 +0000
Subject: [PATCH 25/30] fix: escape % in the label in config files

ConfigParser refuses a single % (as it starts an interpolation), hence
ds-tocfg failed for solutions with such a label.
---
 src/disc_solver/file_format/_containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/file_format/_containers.py b/src/disc_solver/file_format/_containers.py
index 172b533..88a9b60 100644
--- a/src/disc_solver/file_format/_containers.py
+++ b/src/disc_solver/file_format/_containers.py
@@ -149,7 +149,7 @@ class ConfigInput:
         cfg["config"]["taylor_stop_angle"] = self.taylor_stop_angle
         cfg["config"]["max_steps"] = self.max_steps
         cfg["config"]["num_angles"] = self.num_angles
-        cfg["config"]["label"] = self.label
+        cfg["config"]["label"] = self.label.replace("%", "%%")
         cfg["config"]["relative_tolerance"] = self.relative_tolerance
         cfg["config"]["absolute_tolerance"] = self.absolute_tolerance
         cfg["config"]["nwalkers"] = self.nwalkers
-- 
2.43.0


From d746a8645758cc18503f9b11e6428be55ba9e97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 26/30] =?UTF-8?q?fix:=20do=20not=20take=20a=20csv=20row=20?=
 =?UTF-8?q?with=20mcmc=5Fvars=20=CE=B3=20for=20a=20header?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/disc_solver/solve/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/solve/utils.py b/src/disc_solver/solve/utils.py
index 49e2fd6..045b8ff 100644
--- a/src/disc_solver/solve/utils.py
+++ b/src/disc_solver/solve/utils.py
@@ -234,11 +234,12 @@ class CSVReaderHelper:
         Checks if csv file has header
         """
         # The sniffer cannot tell from the first line only (and guesses when
-        # given more), but no value is the name of a column.
+        # given more), but hardly any value is the name of a column (mcmc_vars
+        # may be γ), and most columns are needed.
         self.file.seek(0)
         first_row = next(reader(self, dialect="unix"), [])
         self.file.seek(0)
-        return any(name in CONFIG_FIELDS for name in first_row)
+        return sum(name in CONFIG_FIELDS for name in first_row) > 1
 
     def get_dialect(self, *args, lines=5, **kwargs):
         """
-- 
2.43.0


From fcd984e90d159af9f2cafceb86ef16996aa5e01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:02 +0000
Subject: [PATCH 27/30] fix: flow lines starting beyond the end of the solution

follow_trajectory failed with a TypeError instead of stopping, as the position
of the step before the first was a number.
---
 src/disc_solver/analyse/trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/analyse/trajectory.py b/src/disc_solver/analyse/trajectory.py
index a876037..34642b1 100644
--- a/src/disc_solver/analyse/trajectory.py
+++ b/src/disc_solver/analyse/trajectory.py
@@ -65,7 +65,7 @@ def follow_trajectory(
     # Using 0 means that no change will happen on the first scaling if there is
     # an error
     prev_vals = 0
-    prev_pos = 0
+    prev_pos = pos
     for step in range(max_steps):
         try:
             vals = compute_values(
-- 
2.43.0


From 72babda1adcd695b9a5278bebfab743eb1d3a168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:27 +0000
Subject: [PATCH 28/30] fix: critical points where a speed falls again right
 after the crossing

interp1d sorts by the values it is given, so a lower value after the crossing
moved the point beyond it.
---
 src/disc_solver/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/utils.py b/src/disc_solver/utils.py
index 1962ecf..39714af 100644
--- a/src/disc_solver/utils.py
+++ b/src/disc_solver/utils.py
@@ -431,8 +431,9 @@ def interp_for_value(*, xs, ys, y, **kwargs):
     if ys[initial_index] == y:
         return xs[initial_index]
     min_index = max(0, initial_index - 1)
-    # Add 2 as we want the next index, plus stop is non-inclusive
-    interp_slice = slice(min_index, initial_index + 2)
+    # y is first reached between these two, whatever the values do afterwards.
+    # Add 1 as stop is non-inclusive
+    interp_slice = slice(min_index, initial_index + 1)
     return interp1d(ys[interp_slice], xs[interp_slice], **kwargs)(y)
 
 
-- 
2.43.0


From 06665b2c6da025638bffb05ef4ac5c1943e67620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:27 +0000
Subject: [PATCH 29/30] fix: ds-taylor-plot converted angles to degrees twice

---
 src/disc_solver/analyse/taylor_plot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/disc_solver/analyse/taylor_plot.py b/src/disc_solver/analyse/taylor_plot.py
index 3dea2c7..3e6b5f1 100644
--- a/src/disc_solver/analyse/taylor_plot.py
+++ b/src/disc_solver/analyse/taylor_plot.py
@@ -155,15 +155,15 @@ def generate_taylor_plot(
         )
     else:
         axes[0].plot(
-            degrees(deriv_angles),
+            deriv_angles,
             np.abs(v_r_normal / v_r_taylor), '.'
         )
         axes[1].plot(
-            degrees(deriv_angles),
+            deriv_angles,
             np.abs(v_φ_normal / v_φ_taylor), '.'
         )
         axes[2].plot(
-            degrees(deriv_angles),
+            deriv_angles,
             np.abs(ρ_normal / ρ_taylor), '.'
         )
 
-- 
2.43.0


From 724a43566ffd43c3c19268af34ddcc81fd92b1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:49 +0000
Subject: [PATCH 30/30] fix: halve the v_r term in the radial terms of the
 component plot

The radial momentum equation contains v_r ** 2 / 2, as the line of all
terms does; the radial terms had v_r ** 2, so that the shown terms did
not add up.
---
 src/disc_solver/analyse/component_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/analyse/component_plot.py b/src/disc_solver/analyse/component_plot.py
index a685195..a348277 100644
--- a/src/disc_solver/analyse/component_plot.py
+++ b/src/disc_solver/analyse/component_plot.py
@@ -161,7 +161,7 @@ def compute_components(soln, indexes, angles):
 
     components = {
         "radial momentum": {
-            "radial terms": v_r ** 2 + v_θ ** 2 + 5 / 2 - 2 * γ,
+            "radial terms": v_r ** 2 / 2 + v_θ ** 2 + 5 / 2 - 2 * γ,
             "keplerian terms": (v_φ - norm_kepler) * (v_φ + norm_kepler),
             "magnetic terms": (
                 a_0 / ρ * (B_θ * deriv_B_r + (1/4 - γ) * (B_θ ** 2 + B_φ ** 2))
-- 
2.43.0

