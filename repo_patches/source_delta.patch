From 41ae348e9064c19f7e8730544b0190bf66ea8253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 01/14] fix: command line arguments only override config.yml
 when they are given

The defaults declared for -t, -r and -o always replaced the values from
config.yml, and '-r false' was ignored because only its presence was tested.
---
 src/cli.rs    | 11 +++++------
 src/config.rs | 10 ++++++++--
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index 3c47c90..558284a 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -6,7 +6,7 @@ pub struct Args {
     pub solution_path: Option<String>,
     pub time_limit: Option<u64>,
     pub max_iterations: Option<u64>,
-    pub rounded: bool,
+    pub rounded: Option<bool>,
 }
 
 impl Args {
@@ -25,8 +25,7 @@ impl Args {
                 Arg::with_name("solution_path")
                     .short("o")
                     .takes_value(true)
-                    .default_value("output.sol")
-                    .help("Path to solution output"),
+                    .help("Path to solution output [default: output.sol]"),
             )
             .arg(
                 Arg::with_name("iterations")
@@ -38,14 +37,12 @@ impl Args {
                 Arg::with_name("time_limit")
                     .short("t")
                     .takes_value(true)
-                    .default_value("10")
                     .help("Time limit in seconds"),
             )
             .arg(
                 Arg::with_name("rounded")
                     .short("r")
                     .takes_value(true)
-                    .default_value("true")
                     .help("Rounded distances"),
             )
             .get_matches();
@@ -65,7 +62,9 @@ impl Args {
             .value_of("time_limit")
             .map(|value| value.parse::<u64>().expect("Invalid time limit argument!"));
 
-        let rounded = matches.is_present("rounded");
+        let rounded = matches
+            .value_of("rounded")
+            .map(|value| value.parse::<bool>().expect("Invalid rounded argument!"));
 
         Self {
             instance_path,
diff --git a/src/config.rs b/src/config.rs
index b1a5ef6..c969e13 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -213,13 +213,19 @@ impl Config {
     /// Update config with command line arguments
     pub fn update_from_args(&mut self, args: &Args) {
         self.instance_path = args.instance_path.clone();
-        self.solution_path = args.solution_path.clone();
+        if let Some(solution_path) = args.solution_path.as_ref() {
+            self.solution_path = Some(solution_path.clone());
+        } else if self.solution_path.is_none() {
+            self.solution_path = Some(String::from("output.sol"));
+        }
         if let Some(max_iterations) = args.max_iterations {
             self.max_iterations_without_improvement = max_iterations;
         }
         if let Some(time_limit) = args.time_limit {
             self.time_limit = time_limit;
         }
-        self.round_distances = args.rounded;
+        if let Some(rounded) = args.rounded {
+            self.round_distances = rounded;
+        }
     }
 }
-- 
2.43.0


From 94ddf65f3b43faf5a5226b5ebc4ff2e76a2d54cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 02/14] fix: never hand out more neighbours than a row of the
 correlation matrix has

With fewer than granularity + 2 nodes the local search read and shuffled past
the end of the row, and past the end of the allocation for the last rows.
---
 src/models/matrix.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/models/matrix.rs b/src/models/matrix.rs
index 0a0e797..2ae78e4 100644
--- a/src/models/matrix.rs
+++ b/src/models/matrix.rs
@@ -417,11 +417,11 @@ impl CorrelationMatrix {
     }
 
     pub fn top_slice(&self, index: usize, number: usize) -> &[usize] {
-        self.slice(index, 0, number)
+        self.slice(index, 0, number.min(self.width))
     }
 
     pub fn top_slice_mut(&self, index: usize, number: usize) -> &mut [usize] {
-        self.storage.slice_mut(index, 0, number)
+        self.storage.slice_mut(index, 0, number.min(self.width))
     }
 
     fn slice(&self, row: usize, start: usize, number: usize) -> &[usize] {
-- 
2.43.0


From d8235e14f4f176f49d4a562ab65e1fae3dd11e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 03/14] fix: do not allocate or free zero bytes for an empty
 matrix

Lazy distance matrices are built on Matrix::new(0, 0).
---
 src/models/matrix.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/models/matrix.rs b/src/models/matrix.rs
index 2ae78e4..e1b2dd3 100644
--- a/src/models/matrix.rs
+++ b/src/models/matrix.rs
@@ -26,9 +26,11 @@ impl<T: Copy> Matrix<T> {
         // Allocate memory for the matrix
         let elements = rows * cols;
         let layout = Layout::array::<T>(elements).expect("Failed to create layout for matrix");
-        let ptr = unsafe {
-            let ptr = alloc_zeroed(layout) as *mut T;
-            ptr
+        // Allocating zero bytes is undefined behavior
+        let ptr = if layout.size() == 0 {
+            std::ptr::NonNull::dangling().as_ptr()
+        } else {
+            unsafe { alloc_zeroed(layout) as *mut T }
         };
 
         Self { rows, cols, ptr }
@@ -123,7 +125,9 @@ where
     fn drop(&mut self) {
         let layout =
             Layout::array::<T>(self.rows * self.cols).expect("Failed to create layout for matrix");
-        unsafe { dealloc(self.ptr as *mut u8, layout) };
+        if layout.size() > 0 {
+            unsafe { dealloc(self.ptr as *mut u8, layout) };
+        }
     }
 }
 
-- 
2.43.0


From 6c47a3892abfc885b943452a6a6ec158ee99d794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 04/14] fix: evaluate a loaded solution before copying it to
 the current solution

The first move was accepted or rejected against the cost of the previously
loaded individual (or infinity), so a worse solution could replace it.
---
 src/solver/improvement/ruin_recreate/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/improvement/ruin_recreate/mod.rs b/src/solver/improvement/ruin_recreate/mod.rs
index 2368413..15e3770 100644
--- a/src/solver/improvement/ruin_recreate/mod.rs
+++ b/src/solver/improvement/ruin_recreate/mod.rs
@@ -176,9 +176,9 @@ impl RuinRecreate {
 
         // Load solution
         self.solution.load(individual);
-        self.current_solution = self.solution.clone();
         let routes: Vec<usize> = (0..self.solution.routes.len()).into_iter().collect();
         self.solution.evaluate(self.ctx, routes.iter());
+        self.current_solution = self.solution.clone();
         self.acceptance.reset();
         // self.acceptance.print();
 
-- 
2.43.0


From cfbf67cb708f2f5ba122c393c3fcdab2e80848a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 05/14] fix: seed the set of ruined routes from the solver's
 random state

Its iteration order decided the order of the candidate insertions, so two
deterministic runs with the same seed could differ.
---
 src/solver/improvement/ruin_recreate/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/improvement/ruin_recreate/mod.rs b/src/solver/improvement/ruin_recreate/mod.rs
index 15e3770..1dcf53b 100644
--- a/src/solver/improvement/ruin_recreate/mod.rs
+++ b/src/solver/improvement/ruin_recreate/mod.rs
@@ -40,7 +40,7 @@ impl RuinRecreateSolution {
         Self {
             routes,
             unassigned,
-            ruined_routes: HashSet::with_hasher(RandomState::new()),
+            ruined_routes: HashSet::with_hasher(ctx.random.random_state()),
             locations,
             cost: f64::INFINITY,
         }
-- 
2.43.0


From 30ccaa083a67c69b784d14a72ef30866ee8f44ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 06/14] fix: a circle sector holding only angle 0 is not an
 empty sector

Extending it replaced angle 0 instead of covering both angles, so SWAP* could
skip overlapping routes.
---
 src/models/circle_sector.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/models/circle_sector.rs b/src/models/circle_sector.rs
index fcbd570..712dbfc 100644
--- a/src/models/circle_sector.rs
+++ b/src/models/circle_sector.rs
@@ -1,6 +1,9 @@
 // Used to represent the polar angles as integers
 const MAX_ANGLE: i32 = 65536;
 
+// Start and end of a sector without any angle. Angles are never negative.
+const EMPTY: i32 = -1;
+
 /// Represents the sector with start and end polar angles in a circle
 #[derive(Clone, Debug)]
 pub struct CircleSector {
@@ -10,12 +13,15 @@ pub struct CircleSector {
 
 impl CircleSector {
     pub fn new() -> Self {
-        Self { start: 0, end: 0 }
+        Self {
+            start: EMPTY,
+            end: EMPTY,
+        }
     }
 
     pub fn reset(&mut self) {
-        self.start = 0;
-        self.end = 0;
+        self.start = EMPTY;
+        self.end = EMPTY;
     }
 
     pub fn from_angle(&mut self, angle: i32) {
@@ -24,7 +30,7 @@ impl CircleSector {
     }
 
     pub fn extend(&mut self, angle: i32) {
-        if self.start == 0 && self.end == 0 {
+        if self.start == EMPTY && self.end == EMPTY {
             self.from_angle(angle);
         } else {
             if !self.is_enclosed(angle) {
-- 
2.43.0


From 8c9fe2a59be46f8829926c4ace573bf74edb1ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:06 +0000
Subject: [PATCH 07/14] fix: keep the best feasible solution also when R&R has
 already recorded it

The sub solution of a decomposition was taken from a stale best solution, which
lost the improvement, or panicked when there was none.
---
 src/solver/genetic/decomposition.rs | 5 ++++-
 src/solver/genetic/genetic.rs       | 8 +++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/solver/genetic/decomposition.rs b/src/solver/genetic/decomposition.rs
index 78e886c..df3aa32 100644
--- a/src/solver/genetic/decomposition.rs
+++ b/src/solver/genetic/decomposition.rs
@@ -163,7 +163,10 @@ impl<'a> Decomposition<'a> {
             sub_ga.iterate(&self.ctx);
         }
 
-        self.solution = sub_ga.best_solution.unwrap();
+        // Keep the original sub solution if no feasible solution is found
+        if let Some(best_solution) = sub_ga.best_solution {
+            self.solution = best_solution;
+        }
     }
 
     pub fn finish(self, ctx: &Context) {
diff --git a/src/solver/genetic/genetic.rs b/src/solver/genetic/genetic.rs
index ddfd35c..2f67d52 100644
--- a/src/solver/genetic/genetic.rs
+++ b/src/solver/genetic/genetic.rs
@@ -251,12 +251,18 @@ impl GeneticAlgorithm {
         {
             self.best_iteration = self.iterations;
             self.current_best_solution_cost = self.child.penalized_cost();
+            // The history may already hold this solution, as R&R records its improvements
+            if self.best_solution.as_ref().map_or(true, |best| {
+                self.current_best_solution_cost
+                    .approx_lt(best.penalized_cost())
+            }) {
+                self.best_solution = Some(self.child.clone());
+            }
             let mut search_history = ctx.search_history.borrow_mut();
             if self
                 .current_best_solution_cost
                 .approx_lt(search_history.best_cost)
             {
-                self.best_solution = Some(self.child.clone());
                 search_history.add_message(format!("New best: {:.2}", self.child.penalized_cost()));
                 search_history.add(ctx, &self.child);
             }
-- 
2.43.0


From caff0061ffe36ece5f863dd013a907ba8394719f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:34 +0000
Subject: [PATCH 08/14] fix: keep the number of vehicles of the global solution
 across a decomposition

Merging a sub solution with another number of routes changed the number of
routes of the global solution, which R&R then refused to load (panic).
---
 src/solver/genetic/decomposition.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/solver/genetic/decomposition.rs b/src/solver/genetic/decomposition.rs
index df3aa32..1bce427 100644
--- a/src/solver/genetic/decomposition.rs
+++ b/src/solver/genetic/decomposition.rs
@@ -163,9 +163,15 @@ impl<'a> Decomposition<'a> {
             sub_ga.iterate(&self.ctx);
         }
 
-        // Keep the original sub solution if no feasible solution is found
+        // Keep the original sub solution if no feasible solution is found, or if it needs more
+        // vehicles than the rest of the global solution leaves available
+        let num_vehicles = self.ctx.config.borrow().num_vehicles as usize;
         if let Some(best_solution) = sub_ga.best_solution {
-            self.solution = best_solution;
+            if self.global.num_nonempty_routes() + best_solution.num_nonempty_routes()
+                <= num_vehicles
+            {
+                self.solution = best_solution;
+            }
         }
     }
 
@@ -179,6 +185,12 @@ impl<'a> Decomposition<'a> {
                 self.global.phenotype.push(new_route);
             }
         }
+        // The global solution always has one (possibly empty) route for each vehicle
+        let num_vehicles = ctx.config.borrow().num_vehicles as usize;
+        self.global.phenotype.retain(|route| !route.is_empty());
+        while self.global.phenotype.len() < num_vehicles {
+            self.global.phenotype.push(Vec::new());
+        }
         self.global.genotype = self.global.phenotype.iter().flatten().copied().collect();
         self.global.sort_routes(ctx);
         self.global.evaluate(ctx);
-- 
2.43.0


From 0069d8d4ed26b4c4520a98262928e02ea7d713b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 09/14] fix: crossover terminates for an instance with a single
 customer

There are no two different ends to draw, so the loop never ended.
---
 src/solver/genetic/genetic.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/solver/genetic/genetic.rs b/src/solver/genetic/genetic.rs
index 2f67d52..a8c7112 100644
--- a/src/solver/genetic/genetic.rs
+++ b/src/solver/genetic/genetic.rs
@@ -65,6 +65,14 @@ impl GeneticAlgorithm {
         parent_one: &Individual,
         parent_two: &Individual,
     ) -> Individual {
+        // A crossover zone needs two different ends
+        if parent_one.genotype.len() < 2 {
+            return Individual::new(
+                parent_one.genotype.clone(),
+                self.population.total_individuals_count,
+            );
+        }
+
         // Randomly select start of the crossover zone
         let start = ctx.random.range_usize(0, parent_one.genotype.len());
 
-- 
2.43.0


From 8bba772489994e00e6a997feae6dd33bb81facae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 10/14] fix: sort the infeasible individuals with a total order

Vec::sort may panic, or leave the individuals unsorted, when several costs are
within the comparison tolerance of each other.
---
 src/solver/genetic/genetic.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/solver/genetic/genetic.rs b/src/solver/genetic/genetic.rs
index a8c7112..4997c7d 100644
--- a/src/solver/genetic/genetic.rs
+++ b/src/solver/genetic/genetic.rs
@@ -176,7 +176,12 @@ impl GeneticAlgorithm {
             individual.evaluate(ctx);
         }
 
-        self.population.infeasible.population.sort();
+        // Equality of individuals has a tolerance, so their `Ord` is no total order to sort with
+        self.population.infeasible.population.sort_by(|a, b| {
+            a.penalized_cost()
+                .partial_cmp(&b.penalized_cost())
+                .expect("Failed to compare individuals")
+        });
     }
 
     pub fn educate(&mut self, ctx: &Context) {
-- 
2.43.0


From 385a94a4eadd2810ef064dcd28b2413deceb142b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 11/14] fix: the Bellman-based split never loses customers

When the capacity factor leaves no path for the allowed number of vehicles, the
routes were rebuilt from stale predecessors. Fall back to the linear split.
---
 src/solver/genetic/split.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/solver/genetic/split.rs b/src/solver/genetic/split.rs
index ce64233..49af8fb 100644
--- a/src/solver/genetic/split.rs
+++ b/src/solver/genetic/split.rs
@@ -269,6 +269,11 @@ impl Split {
             }
         }
 
+        // The customers cannot be split without exceeding the capacity factor
+        if self.path_cost.get(0, dim - 1) > 1e29 {
+            return false;
+        }
+
         individual.phenotype.clear();
         let mut end = ctx.problem.dim() - 1;
         while end > 0 {
@@ -297,13 +302,27 @@ impl Split {
         ctx: &Context,
         individual: &mut Individual,
         max_vehicles: usize,
+    ) -> bool {
+        // The Bellman-based split may find no path with `max_vehicles` routes that respects the
+        // capacity factor, the linear split always does
+        let linear_split = ctx.config.borrow().linear_split;
+        self.split_limited_fleet_with(ctx, individual, max_vehicles, linear_split)
+            || self.split_limited_fleet_with(ctx, individual, max_vehicles, true)
+    }
+
+    fn split_limited_fleet_with(
+        &mut self,
+        ctx: &Context,
+        individual: &mut Individual,
+        max_vehicles: usize,
+        linear_split: bool,
     ) -> bool {
         self.reset(true);
         let dim = ctx.problem.dim();
         let cap = ctx.problem.vehicle.cap;
         let capacity_factor = ctx.config.borrow().split_capacity_factor;
 
-        if ctx.config.borrow().linear_split {
+        if linear_split {
             let mut queue: MyVecDeque<usize> = MyVecDeque::new(ctx.problem.dim());
 
             for k in 0..max_vehicles {
@@ -394,6 +413,10 @@ impl Split {
             }
         }
 
+        if min_cost > 1e29 {
+            return false;
+        }
+
         individual.phenotype.clear();
         let mut end = ctx.problem.dim() - 1;
         let mut vehicle_number = num_routes;
-- 
2.43.0


From 2a77ff6d60dde2e4fbabf227baf581f6cf12a6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 12/14] fix: resetting a time based schedule also resets
 temperature and completion

A completed schedule stayed completed, so it could not be used again.
---
 src/solver/improvement/ruin_recreate/schedule.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/improvement/ruin_recreate/schedule.rs b/src/solver/improvement/ruin_recreate/schedule.rs
index 8dbc737..8b03a5f 100644
--- a/src/solver/improvement/ruin_recreate/schedule.rs
+++ b/src/solver/improvement/ruin_recreate/schedule.rs
@@ -158,6 +158,8 @@ impl Acceptance for TimeSchedule {
         self.start = Instant::now();
         self.iterations = 0;
         self.iterations_since_update = 0;
+        self.temp = self.start_temp;
+        self.completed = false;
     }
 
     fn print(&self) {
-- 
2.43.0


From 33aa81c0f6911102efd7f6c51a05ca81cadd4edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 13/14] verif: accessors for the verification harness, compiled
 only with --cfg hybridcvrp_verif

---
 src/solver/genetic/genetic.rs    | 38 ++++++++++++++++++++++++++++++++
 src/solver/genetic/population.rs | 15 +++++++++++++
 2 files changed, 53 insertions(+)

diff --git a/src/solver/genetic/genetic.rs b/src/solver/genetic/genetic.rs
index 4997c7d..2e3b207 100644
--- a/src/solver/genetic/genetic.rs
+++ b/src/solver/genetic/genetic.rs
@@ -408,3 +408,41 @@ impl Metaheuristic for GeneticAlgorithm {
         self.state == State::Terminated
     }
 }
+
+/// Access to private functions for the verification harness
+#[cfg(hybridcvrp_verif)]
+impl GeneticAlgorithm {
+    pub fn verif_crossover(
+        &self,
+        ctx: &Context,
+        parent_one: &Individual,
+        parent_two: &Individual,
+    ) -> Individual {
+        self.crossover(ctx, parent_one, parent_two)
+    }
+
+    pub fn verif_crossover_ox(
+        &self,
+        ctx: &Context,
+        parent_one: &Individual,
+        parent_two: &Individual,
+        start: usize,
+        end: usize,
+    ) -> Individual {
+        self.crossover_ox(ctx, parent_one, parent_two, start, end)
+    }
+
+    pub fn verif_update_penalty(&mut self, ctx: &Context) {
+        self.update_penalty(ctx)
+    }
+
+    pub fn verif_state(&self) -> &'static str {
+        match self.state {
+            State::Created => "created",
+            State::EliteEducation => "elite",
+            State::Initialization => "initialization",
+            State::Cycle => "cycle",
+            State::Terminated => "terminated",
+        }
+    }
+}
diff --git a/src/solver/genetic/population.rs b/src/solver/genetic/population.rs
index 0cb4255..415edfc 100644
--- a/src/solver/genetic/population.rs
+++ b/src/solver/genetic/population.rs
@@ -455,3 +455,18 @@ impl Population {
         winner.expect("No winner found")
     }
 }
+
+/// Access to private data for the verification harness
+#[cfg(hybridcvrp_verif)]
+impl SubPopulation {
+    /// The sorted (distance, number) pairs stored for an individual
+    pub fn verif_diversity(&self, number: u64) -> Option<Vec<(i64, u64)>> {
+        self.diversity
+            .get(&number)
+            .map(|vec| vec.iter().map(|d| (d.distance, d.to_number)).collect())
+    }
+
+    pub fn verif_diversity_len(&self) -> usize {
+        self.diversity.len()
+    }
+}
-- 
2.43.0


From 476f94dbf68fa815951fe22382acdab660d48c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 14/14] fix: broken pairs distance looks at the successor of
 the customer, not of the depot

---
 src/solver/genetic/individual.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/genetic/individual.rs b/src/solver/genetic/individual.rs
index 481d778..634d6ba 100644
--- a/src/solver/genetic/individual.rs
+++ b/src/solver/genetic/individual.rs
@@ -115,7 +115,7 @@ impl Individual {
             // If the predecessor of self is a depot, but neither the predecessor or successor of the other is a depot
             if self.predecessor(index) == 0
                 && other.predecessor(index) != 0
-                && other.successor(0) != 0
+                && other.successor(index) != 0
             {
                 distance += 1;
             }
-- 
2.43.0

