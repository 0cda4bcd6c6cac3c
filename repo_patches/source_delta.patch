From 32aba519232cbb437c032dd70c184a415ccfe3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:24 +0000
Subject: [PATCH 01/41] fix: evaluate RK4 stage Jacobians at the stage times

RungeKutta4::Jacobian used 0.5*t and t instead of t + 0.5*h and t + h, so the
discrete Jacobian was wrong for time-varying dynamics.
---
 altro/problem/integration.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/altro/problem/integration.hpp b/altro/problem/integration.hpp
index 5827f91..c423eb1 100644
--- a/altro/problem/integration.hpp
+++ b/altro/problem/integration.hpp
@@ -141,13 +141,13 @@ class RungeKutta4 final : public ExplicitIntegrator<NStates, NControls> {
     dynamics->Jacobian(x, u, t, jac);
     A_[0] = jac.topLeftCorner(n, n);
     B_[0] = jac.topRightCorner(n, m);
-    dynamics->Jacobian(x + 0.5 * k1_ * h, u, 0.5 * t, jac);  // NOLINT(readability-magic-numbers)
+    dynamics->Jacobian(x + 0.5 * k1_ * h, u, t + 0.5 * h, jac);  // NOLINT(readability-magic-numbers)
     A_[1] = jac.topLeftCorner(n, n);
     B_[1] = jac.topRightCorner(n, m);
-    dynamics->Jacobian(x + 0.5 * k2_ * h, u, 0.5 * t, jac);  // NOLINT(readability-magic-numbers)
+    dynamics->Jacobian(x + 0.5 * k2_ * h, u, t + 0.5 * h, jac);  // NOLINT(readability-magic-numbers)
     A_[2] = jac.topLeftCorner(n, n);
     B_[2] = jac.topRightCorner(n, m);
-    dynamics->Jacobian(x + k3_ * h, u, t, jac);
+    dynamics->Jacobian(x + k3_ * h, u, t + h, jac);
     A_[3] = jac.topLeftCorner(n, n);
     B_[3] = jac.topRightCorner(n, m);
 
-- 
2.43.0


From f691e58b04cfc89c70c4ec967276566d03608bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:24 +0000
Subject: [PATCH 02/41] fix: honour the position indices in the circle
 constraint Jacobian

CircleConstraint::Jacobian always wrote columns 0 and 1, ignoring SetXYIndices.
---
 examples/obstacle_constraints.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/examples/obstacle_constraints.hpp b/examples/obstacle_constraints.hpp
index 79ce563..259beba 100644
--- a/examples/obstacle_constraints.hpp
+++ b/examples/obstacle_constraints.hpp
@@ -110,13 +110,14 @@ class CircleConstraint : public constraints::Constraint<constraints::NegativeOrt
                 Eigen::Ref<MatrixXd> jac) override {
     const double px = x(x_index_);
     const double py = x(y_index_);
+    jac.setZero();
     for (size_t i = 0; i < obstacles_.size(); ++i) {
       // TODO(bjackson): Store Jacobians in row-major format so that the 
       // raw columns can be passed to each obstacle to compute the gradient
       const double cx = obstacles_[i].x;
       const double cy = obstacles_[i].y;
-      jac(i, 0) = 2 * (cx - px);
-      jac(i, 1) = 2 * (cy - py);
+      jac(i, x_index_) = 2 * (cx - px);
+      jac(i, y_index_) = 2 * (cy - py);
     }
   }
 
-- 
2.43.0


From c3885561f4f3aab83cc6dd1fc8391d1edad249a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:34 +0000
Subject: [PATCH 03/41] fix: do not deadlock when clearing the thread-safe
 queue

Clear() called IsEmpty() while already holding the head mutex, so it (and with
it the move assignment of the queue and of the thread pool) never returned. It
also left the size untouched.
---
 altro/common/threadsafe_queue.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/altro/common/threadsafe_queue.hpp b/altro/common/threadsafe_queue.hpp
index 68b3be1..6ee79ac 100644
--- a/altro/common/threadsafe_queue.hpp
+++ b/altro/common/threadsafe_queue.hpp
@@ -130,7 +130,8 @@ bool ThreadSafeQueue<T>::IsEmpty() {
 template <class T>
 void ThreadSafeQueue<T>::Clear() {
   std::lock_guard<std::mutex> head_lock(*head_mutex_);
-  while (!IsEmpty()) {
+  while (head_.get() != GetTail()) {
+    --(*size_);
     PopHead();
   }
 }
-- 
2.43.0


From 256a4f3df0fbfacc945adbe3d5cfb29285e75da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:34 +0000
Subject: [PATCH 04/41] fix: count a queue element before it can be popped

Push() incremented the size after releasing the tail lock, so a concurrent pop
could decrement it first and Size() wrapped around to a huge value.
---
 altro/common/threadsafe_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/altro/common/threadsafe_queue.hpp b/altro/common/threadsafe_queue.hpp
index 6ee79ac..a2b20b4 100644
--- a/altro/common/threadsafe_queue.hpp
+++ b/altro/common/threadsafe_queue.hpp
@@ -110,8 +110,8 @@ void ThreadSafeQueue<T>::Push(T new_value) {
     Node* const new_tail = new_tail_node.get();
     tail_->next = std::move(new_tail_node);
     tail_ = new_tail;
+    ++(*size_);  // must be visible before the element can be popped
   }
-  ++(*size_);
   data_cond_->notify_one();  // wake up 1 thread to process the new data
 }
 
-- 
2.43.0


From 48c9a784ff1adfb40994eae6d863e1074db21124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:34 +0000
Subject: [PATCH 05/41] fix: destroy a long queue without recursion

The nodes own each other, so destroying a queue with very many pending elements
overflowed the stack.
---
 altro/common/threadsafe_queue.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/altro/common/threadsafe_queue.hpp b/altro/common/threadsafe_queue.hpp
index a2b20b4..c3eee30 100644
--- a/altro/common/threadsafe_queue.hpp
+++ b/altro/common/threadsafe_queue.hpp
@@ -39,6 +39,13 @@ class ThreadSafeQueue {
   ThreadSafeQueue(ThreadSafeQueue&& other) noexcept;
   ThreadSafeQueue<T>& operator=(ThreadSafeQueue<T>&& other) noexcept;
 
+  // Release the nodes one by one, instead of recursively through Node::next
+  ~ThreadSafeQueue() {
+    while (head_) {
+      head_ = std::move(head_->next);
+    }
+  }
+
   bool TryPop(T& value);
   void Push(T new_value);
   void Clear();
-- 
2.43.0


From e29710cb88deb053c16a0300f53a511bac39541f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:39 +0000
Subject: [PATCH 06/41] fix: link a trajectory created by MakeTrajectory
 completely

MakeTrajectory only set the current guess, so Solve() dereferenced the null
candidate trajectory.
---
 altro/ilqr/ilqr.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 1425ea3..e5111bf 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -214,8 +214,9 @@ class iLQR {
    * @return std::shared_ptr<Trajectory<n, m>> A new zero-initialized trajectory.
    */
   std::shared_ptr<Trajectory<n, m>> MakeTrajectory(float dt) {
-    Z_ = std::make_shared<Trajectory<n, m>>(NumSegments());
-    Z_->SetUniformStep(dt);
+    std::shared_ptr<Trajectory<n, m>> traj = std::make_shared<Trajectory<n, m>>(NumSegments());
+    traj->SetUniformStep(dt);
+    SetTrajectory(std::move(traj));
     return Z_;
   }
 
-- 
2.43.0


From 9238e948a36a452b3f73ded763789789aa9557af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:10 +0000
Subject: [PATCH 07/41] fix: always include the terminal index in the default
 task assignment

Accumulating the step in floating point could overshoot the last index (e.g.
100 segments on 6 threads), which aborted the solver, depending on the number
of segments and tasks.
---
 altro/ilqr/ilqr.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index e5111bf..9070244 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -741,11 +741,13 @@ class iLQR {
   void DefaultTaskAssignment() {
     int nthreads = GetOptions().NumThreads();
     int ntasks = nthreads * GetOptions().tasks_per_thread;
+    ALTRO_ASSERT(ntasks > 0, "Must have at least one task.");
     double step = NumSegments() / static_cast<double>(ntasks);
     work_inds_.clear();
-    for (double val = 0.0; val <= NumSegments(); val += step) {
-      work_inds_.emplace_back(static_cast<int>(round(val)));
+    for (int i = 0; i < ntasks; ++i) {
+      work_inds_.emplace_back(static_cast<int>(round(i * step)));
     }
+    work_inds_.emplace_back(NumSegments());
     ALTRO_ASSERT(work_inds_.back() == NumSegments(),
                  "Work inds should include the terminal index.");
     work_inds_.back() += 1;  // Increment the last index to include the terminal index.
-- 
2.43.0


From 4c7c788d145666dca4203da1d5b840f37341ffc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:43 +0000
Subject: [PATCH 08/41] fix: validate and use the task assignment passed by the
 user

SetTaskAssignment validated the previous (possibly empty) assignment instead of
its argument, and an assignment set after the threads were launched was never
turned into tasks.
---
 altro/ilqr/ilqr.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 9070244..8540ec2 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -257,12 +257,11 @@ class iLQR {
    * interval [`inds[i]`, `inds[i+1]`).
    */
   void SetTaskAssignment(std::vector<int> inds) {
-    ALTRO_ASSERT(work_inds_.back() == NumSegments() + 1,
-                 "Work inds should include the terminal index.");
-    ALTRO_ASSERT(work_inds_[0] == 0, "Work inds should start with a 0.");
-    ALTRO_ASSERT(work_inds_.size() >= 2, "Work inds must have at least 2 elements.");
+    ALTRO_ASSERT(inds.size() >= 2, "Work inds must have at least 2 elements.");
+    ALTRO_ASSERT(inds.back() == NumSegments() + 1, "Work inds should include the terminal index.");
+    ALTRO_ASSERT(inds[0] == 0, "Work inds should start with a 0.");
     bool is_sorted = true;
-    for (int i = 1; i < inds.size(); ++i) {
+    for (size_t i = 1; i < inds.size(); ++i) {
       if (inds[i] <= inds[i - 1]) {
         is_sorted = false;
       }
@@ -270,6 +269,7 @@ class iLQR {
     ALTRO_ASSERT(is_sorted, "Work inds must be a set of strictly increasing integers.");
     work_inds_ = std::move(inds);
     custom_work_assignment_ = true;
+    work_inds_changed_ = true;
   }
 
   /***************************** Algorithm **************************************/
@@ -715,11 +715,12 @@ class iLQR {
       return;
     }
     bool num_threads_changed = nthreads != NumThreads();
-    if (N_ > 0 && (num_threads_changed || ShouldRedoTaskAssignment())) {
+    if (N_ > 0 && (num_threads_changed || work_inds_changed_ || ShouldRedoTaskAssignment())) {
       if (pool_.IsRunning()) {
         pool_.StopThreads();
       }
       tasks_.clear();
+      work_inds_changed_ = false;
 
       // Create tasks
       std::vector<int>& work_inds = GetTaskAssignment();
@@ -808,6 +809,7 @@ class iLQR {
 
   bool is_initial_state_set = false;
   bool custom_work_assignment_ = false;  // Has user assigned a custom task assignment
+  bool work_inds_changed_ = false;       // Has the assignment changed since the tasks were created
 
   std::function<double()> max_violation_callback_ = []() { return 0.0; };
   std::vector<std::function<void()>> tasks_;
-- 
2.43.0


From fd12d65c0cc382b3c88d75aee4baae74fb6cbea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:16 +0000
Subject: [PATCH 09/41] fix: keep moved and copied solver statistics
 self-contained

SolverStats mapped log titles to raw pointers to its own vectors, so a moved or
copied object (for example inside a moved solver) logged into the vectors of the
object it was made from, a use after free once that was gone.
---
 altro/common/solver_stats.cpp | 31 ++++++++++++++++---------------
 altro/common/solver_stats.hpp |  7 ++++---
 2 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/altro/common/solver_stats.cpp b/altro/common/solver_stats.cpp
index 0094f8b..897ddca 100644
--- a/altro/common/solver_stats.cpp
+++ b/altro/common/solver_stats.cpp
@@ -9,8 +9,8 @@
 namespace altro {
 
 template <>
-void SolverStats::SetPtr<double>(const LogEntry& entry, std::vector<double>& data) {
-  floats_[entry.GetTitle()] = &data;
+void SolverStats::SetPtr<double>(const LogEntry& entry, std::vector<double> SolverStats::* data) {
+  floats_[entry.GetTitle()] = data;
 }
 
 void SolverStats::SetTolerances(const double& cost, const double& viol, const double& grad) {
@@ -24,7 +24,7 @@ void SolverStats::SetTolerances(const double& cost, const double& viol, const do
 
 void SolverStats::SetCapacity(int n) {
   for (auto kv : floats_) {
-    kv.second->reserve(n);
+    (this->*kv.second).reserve(n);
   }
 }
 
@@ -35,7 +35,7 @@ void SolverStats::Reset() {
   iterations_outer = 0;
   len_ = 0;
   for (auto kv : floats_) {
-    kv.second->clear();
+    (this->*kv.second).clear();
   }
   logger_.Clear();
   
@@ -54,13 +54,14 @@ void SolverStats::Reset() {
 void SolverStats::NewIteration() {
   len_++;
   for (auto& kv : floats_) {
-    kv.second->resize(len_);
+    std::vector<double>& data = this->*kv.second;
+    data.resize(len_);
 
     // Copy data from previous iteration
     if (len_ > 1) {
-      kv.second->back() = kv.second->rbegin()[1];
+      data.back() = data.rbegin()[1];
     } else {
-      kv.second->back() = 0.0;
+      data.back() = 0.0;
     }
   }
 }
@@ -86,30 +87,30 @@ void SolverStats::DefaultLogger() {
       .SetName("iterations_outer")
       .SetLevel(LogLevel::kOuter)
       .SetWidth(8);  // NOLINT(readability-magic-numbers)
-  SetPtr(logger_.AddEntry(-1, "cost", "{:>.4g}"), cost);
-  SetPtr(logger_.AddEntry(-1, "viol", "{:>.3e}").SetName("constraint_violation"), violations);
-  SetPtr(logger_.AddEntry(-1, "dJ", "{:>.2e}").SetName("cost_improvement"), cost_decrease);
-  SetPtr(logger_.AddEntry(-1, "grad", "{:>.2e}").SetName("gradient").SetLevel(LogLevel::kOuterDebug), gradient);
+  SetPtr(logger_.AddEntry(-1, "cost", "{:>.4g}"), &SolverStats::cost);
+  SetPtr(logger_.AddEntry(-1, "viol", "{:>.3e}").SetName("constraint_violation"), &SolverStats::violations);
+  SetPtr(logger_.AddEntry(-1, "dJ", "{:>.2e}").SetName("cost_improvement"), &SolverStats::cost_decrease);
+  SetPtr(logger_.AddEntry(-1, "grad", "{:>.2e}").SetName("gradient").SetLevel(LogLevel::kOuterDebug), &SolverStats::gradient);
   SetPtr(logger_.AddEntry(-1, "alpha", "{:>.2f}")
              .SetName("line_search_step_length")
              .SetLevel(LogLevel::kInner)
              .SetWidth(6),  // NOLINT(readability-magic-numbers)
-         alpha);
+         &SolverStats::alpha);
   SetPtr(logger_.AddEntry(-1, "reg", "{:>.1e}")
              .SetName("regularization")
              .SetLevel(LogLevel::kInnerDebug)
              .SetWidth(7),  // NOLINT(readability-magic-numbers)
-         regularization);
+         &SolverStats::regularization);
   SetPtr(logger_.AddEntry(-1, "z", "{:>.3f}")
              .SetName("cost_improvement_ratio")
              .SetLevel(LogLevel::kInnerDebug)
              .SetWidth(5),  // NOLINT(readability-magic-numbers)
-         improvement_ratio);
+         &SolverStats::improvement_ratio);
   SetPtr(logger_.AddEntry(-1, "pen", "{:>.1e}")
              .SetName("max_penalty")
              .SetLevel(LogLevel::kDebug)
              .SetWidth(7),  // NOLINT(readability-magic-numbers)
-         max_penalty);
+         &SolverStats::max_penalty);
   logger_.SetHeaderColor(fmt::color::yellow);
 }
 
diff --git a/altro/common/solver_stats.hpp b/altro/common/solver_stats.hpp
index 68d1dd8..906d900 100644
--- a/altro/common/solver_stats.hpp
+++ b/altro/common/solver_stats.hpp
@@ -170,7 +170,7 @@ class SolverStats {
    * @param data One of the publically-accessible vectors stored in this class.
    */
   template <class T>
-  void SetPtr(const LogEntry& entry, std::vector<T>& data) {
+  void SetPtr(const LogEntry& entry, std::vector<T> SolverStats::* data) {
     ALTRO_UNUSED(entry);
     ALTRO_UNUSED(data);
   }
@@ -181,7 +181,8 @@ class SolverStats {
    */
   void DefaultLogger();
 
-  std::unordered_map<std::string, std::vector<double>*> floats_;
+  // Pointers to members, so that a copied or moved object never refers to another one
+  std::unordered_map<std::string, std::vector<double> SolverStats::*> floats_;
 
   int len_ = 0;
   SolverLogger logger_;
@@ -198,7 +199,7 @@ void SolverStats::SetData(const std::string& title, T value) {
   // Search for the title
   auto search_float = floats_.find(title);
   if (search_float != floats_.end()) {
-    search_float->second->back() = value;
+    (this->*(search_float->second)).back() = value;
   }
 }
 
-- 
2.43.0


From 8a7d012b060868ba1077259076826eead6aa9344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:16 +0000
Subject: [PATCH 10/41] fix: do not keep pointers into another logger when
 copying

The column order held pointers to the titles stored in the map of the original
logger, which dangle in a copy that outlives it.
---
 altro/common/solver_logger.cpp | 8 ++++----
 altro/common/solver_logger.hpp | 8 ++------
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/altro/common/solver_logger.cpp b/altro/common/solver_logger.cpp
index 0113ac6..75879a4 100644
--- a/altro/common/solver_logger.cpp
+++ b/altro/common/solver_logger.cpp
@@ -11,8 +11,8 @@ void SolverLogger::PrintHeader() {
   }
   int total_width = 0;
   bool any_active = false;
-  for (const std::string* title : order_) {
-    LogEntry& entry = entries_[*title];
+  for (const std::string& title : order_) {
+    LogEntry& entry = entries_[title];
     entry.PrintHeader(cur_level_, header_color_);
     if (entry.IsActive(cur_level_)) {
       any_active = true;
@@ -31,8 +31,8 @@ void SolverLogger::PrintData() {
     return;
   }
   bool any_active = false;
-  for (const std::string* title : order_) {
-    LogEntry& entry = entries_[*title];
+  for (const std::string& title : order_) {
+    LogEntry& entry = entries_[title];
     entry.Print(cur_level_);
     if (entry.IsActive(cur_level_)) {
       any_active = true;
diff --git a/altro/common/solver_logger.hpp b/altro/common/solver_logger.hpp
index cac8e1c..929d7e1 100644
--- a/altro/common/solver_logger.hpp
+++ b/altro/common/solver_logger.hpp
@@ -168,7 +168,7 @@ class SolverLogger {
   int frequency_ = kDefaultFrequency;        // frequency of the header print
   int count_ = 0;                            // number of prints since header
   std::unordered_map<std::string, LogEntry> entries_;
-  std::vector<const std::string*> order_;
+  std::vector<std::string> order_;
   fmt::color header_color_ = fmt::color::white;
 };
 
@@ -189,10 +189,6 @@ LogEntry& SolverLogger::AddEntry(const int& col, Args... args) {
   const std::string title = entry.GetTitle();
   auto insert = entries_.emplace(std::make_pair(title, std::move(entry)));
 
-  // Get a pointer to the title string used in the map
-  // insert.first is an iterator over key-value pairs for the map entries_
-  const std::string* title_ptr = &(insert.first->first);
-
   // Specify the output order
   auto it = order_.begin();
   if (col < 0) {
@@ -201,7 +197,7 @@ LogEntry& SolverLogger::AddEntry(const int& col, Args... args) {
   } else {
     it += col;
   }
-  order_.insert(it, title_ptr);
+  order_.insert(it, title);
 
   return insert.first->second;
 }
-- 
2.43.0


From 513dc5b6af001cbf3dbf07d804d6ad5f67b411da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:36 +0000
Subject: [PATCH 11/41] fix: keep a custom task assignment when moving the iLQR
 solver

---
 altro/ilqr/ilqr.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 8540ec2..11c7c4b 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -68,7 +68,10 @@ class iLQR {
                                 drho_(other.drho_),
                                 deltaV_(std::move(other.deltaV_)),
                                 is_initial_state_set(other.is_initial_state_set),
-                                max_violation_callback_(std::move(other.max_violation_callback_)) {}
+                                custom_work_assignment_(other.custom_work_assignment_),
+                                work_inds_changed_(other.work_inds_changed_),
+                                max_violation_callback_(std::move(other.max_violation_callback_)),
+                                work_inds_(std::move(other.work_inds_)) {}
 
   /**
    * @brief Copy the data from a Problem class into the iLQR solver
-- 
2.43.0


From 652b5583662233ac8529ef3c0a7d760b7a06a7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:00 +0000
Subject: [PATCH 12/41] fix: rebind the violation callback when moving the AL
 solver

The implicit move left the inner solver calling back into the moved-from object.
---
 altro/augmented_lagrangian/al_solver.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/altro/augmented_lagrangian/al_solver.hpp b/altro/augmented_lagrangian/al_solver.hpp
index 7e90171..39a53fa 100644
--- a/altro/augmented_lagrangian/al_solver.hpp
+++ b/altro/augmented_lagrangian/al_solver.hpp
@@ -34,6 +34,13 @@ class AugmentedLagrangianiLQR {
  public:
   explicit AugmentedLagrangianiLQR(int N) : ilqr_solver_(N), costs_(), max_violation_(N + 1) {}
   explicit AugmentedLagrangianiLQR(const problem::Problem& prob);
+  AugmentedLagrangianiLQR(AugmentedLagrangianiLQR&& other) noexcept
+      : ilqr_solver_(std::move(other.ilqr_solver_)),
+        costs_(std::move(other.costs_)),
+        status_(other.status_),
+        max_violation_(std::move(other.max_violation_)) {
+    SetViolationCallback();
+  }
 
   void InitializeFromProblem(const problem::Problem& prob);
 
@@ -215,6 +222,11 @@ class AugmentedLagrangianiLQR {
   void ResetDualVariables();
 
  private:
+  // The callback refers to this object, so it must be set again after a move
+  void SetViolationCallback() {
+    auto max_violation_callback = [this]() -> double { return this->GetMaxViolation(); };
+    ilqr_solver_.SetConstraintCallback(max_violation_callback);
+  }
   Stopwatch CreateTimer(const std::string& name) { return GetStats().GetTimer()->Start(name); }
 
   ilqr::iLQR<n, m> ilqr_solver_;
@@ -244,8 +256,7 @@ void AugmentedLagrangianiLQR<n, m>::InitializeFromProblem(const problem::Problem
                            prob.NumSegments(), costs_.size()));
   // ilqr_solver_.InitializeFromProblem(prob_al);
   ilqr_solver_.CopyFromProblem(prob_al, 0, prob.NumSegments() + 1);
-  auto max_violation_callback = [this]() -> double { return this->GetMaxViolation(); };
-  ilqr_solver_.SetConstraintCallback(max_violation_callback);
+  SetViolationCallback();
 }
 
 template <int n, int m>
-- 
2.43.0


From 3ae8478be318f93c1c5b4d8232e796a8f9bec257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:00 +0000
Subject: [PATCH 13/41] fix: copy the number of segments when copying or moving
 a problem

The copy and move constructors left it uninitialised and the assignments kept
the old value.
---
 altro/problem/problem.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/altro/problem/problem.hpp b/altro/problem/problem.hpp
index 670ff4e..bfa443e 100644
--- a/altro/problem/problem.hpp
+++ b/altro/problem/problem.hpp
@@ -77,6 +77,7 @@ class Problem {
       : N_(N), initial_state_(initial_state), costfuns_(N + 1, nullptr), models_(N + 1, nullptr), eq_(N + 1), ineq_(N + 1) {}
 
   Problem& operator=(const Problem& other) {
+    N_ = other.N_;
     *initial_state_ = *(other.initial_state_);
     costfuns_ = other.costfuns_;
     models_ = other.models_;
@@ -86,11 +87,12 @@ class Problem {
   }
 
   Problem(const Problem& other)
-      : costfuns_(other.costfuns_), models_(other.models_), eq_(other.eq_), ineq_(other.ineq_) {
+      : N_(other.N_), costfuns_(other.costfuns_), models_(other.models_), eq_(other.eq_), ineq_(other.ineq_) {
     *initial_state_ = *(other.initial_state_);
   }
 
   Problem& operator=(Problem&& other) {
+    N_ = other.N_;
     *initial_state_ = *(other.initial_state_);
     costfuns_ = std::move(other.costfuns_);
     models_ = std::move(other.models_);
@@ -100,7 +102,7 @@ class Problem {
   }
 
   Problem(Problem&& other)
-      : initial_state_(other.initial_state_),
+      : N_(other.N_), initial_state_(other.initial_state_),
         costfuns_(std::move(other.costfuns_)),
         models_(std::move(other.models_)),
         eq_(std::move(other.eq_)),
-- 
2.43.0


From 9e64eccd370380659cdc3d2e63da684383bcd92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:26 +0000
Subject: [PATCH 14/41] fix: report missing initial dynamics instead of
 dereferencing null

IsFullyDefined crashed when the initial state was set but the dynamics at the
first knot point were not.
---
 altro/problem/problem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/altro/problem/problem.cpp b/altro/problem/problem.cpp
index 7b32f0d..8798e03 100644
--- a/altro/problem/problem.cpp
+++ b/altro/problem/problem.cpp
@@ -20,7 +20,8 @@ bool Problem::IsFullyDefined(const bool verbose) const {
     bool good_state_dim = true;
     if (k == 0) {
       has_initial_state = initial_state_->size() > 0;
-      good_state_dim = has_initial_state && (models_[k]->StateDimension() == initial_state_->size());
+      good_state_dim = has_initial_state && (models_[k] != nullptr) &&
+                       (models_[k]->StateDimension() == initial_state_->size());
       valid_k = valid_k && has_initial_state && good_state_dim;
     }
     valid = valid && valid_k;
-- 
2.43.0


From 44f892432f0dc561b871454a1803fee650f2d007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:26 +0000
Subject: [PATCH 15/41] fix: reject constraints at invalid knot points

SetConstraint wrote out of bounds, unlike SetCostFunction and SetDynamics.
---
 altro/problem/problem.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/altro/problem/problem.cpp b/altro/problem/problem.cpp
index 8798e03..479f47b 100644
--- a/altro/problem/problem.cpp
+++ b/altro/problem/problem.cpp
@@ -46,6 +46,7 @@ void Problem::SetConstraint<constraints::Equality>(
     std::shared_ptr<constraints::Constraint<constraints::Equality>> con, int k) {
   ALTRO_ASSERT(con != nullptr, "Must provide a valid constraint pointer.");
   ALTRO_ASSERT(con->OutputDimension() > 0, "Constraint must have a length greater than zero.");
+  ALTRO_ASSERT((k >= 0) && (k <= N_), "Invalid knot point index.");
   eq_[k].emplace_back(std::move(con));
 }
 
@@ -54,6 +55,7 @@ void Problem::SetConstraint<constraints::Inequality>(
     std::shared_ptr<constraints::Constraint<constraints::Inequality>> con, int k) {
   ALTRO_ASSERT(con != nullptr, "Must provide a valid constraint pointer.");
   ALTRO_ASSERT(con->OutputDimension() > 0, "Constraint must have a length greater than zero.");
+  ALTRO_ASSERT((k >= 0) && (k <= N_), "Invalid knot point index.");
   ineq_[k].emplace_back(std::move(con));
 }
 
-- 
2.43.0


From 03c129b47aad96232166ad3cd5f42e132816582a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:26 +0000
Subject: [PATCH 16/41] fix: restart the expected cost decrease with the
 backward pass

After a failed Cholesky factorization the expected decrease kept the terms of
the abandoned pass, so the line search compared against a wrong value.
---
 altro/ilqr/ilqr.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 11c7c4b..e764115 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -414,6 +414,10 @@ class iLQR {
 
           IncreaseRegularization();
 
+          // The restarted backward pass accumulates the expected decrease again
+          deltaV_[0] = 0.0;
+          deltaV_[1] = 0.0;
+
           // Reset the cost-to-go pointers to the terminal expansion
           Sxx_prev = &(knotpoints_[N_]->GetCostToGoHessian());
           Sx_prev = &(knotpoints_[N_]->GetCostToGoGradient());
-- 
2.43.0


From 5dd350e1a05ee85642a312c73bef27e658e623bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:46 +0000
Subject: [PATCH 17/41] fix: stop after a failed backward pass instead of
 rolling out stale gains

---
 altro/ilqr/ilqr.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index e764115..fae99b9 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -304,6 +304,9 @@ class iLQR {
     for (int iter = 0; iter < GetOptions().max_iterations_inner; ++iter) {
       UpdateExpansions();
       BackwardPass();
+      if (status_ == SolverStatus::kBackwardPassRegularizationFailed) {
+        break;  // there is no valid policy to roll out
+      }
       ForwardPass();
       UpdateConvergenceStatistics();
 
-- 
2.43.0


From cb01890967fcab2c023ad755e789e93c5e3c5027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:01 +0000
Subject: [PATCH 18/41] fix: keep cost and constraint data consistent after a
 failed line search

---
 altro/ilqr/ilqr.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index fae99b9..07e1f63 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -560,6 +560,10 @@ class iLQR {
     } else {
       IncreaseRegularization();
       J = J0;
+      // The trajectory is unchanged: log its cost, and make sure the individual costs (and the
+      // constraint values) are those of the trajectory and not of the rejected candidate.
+      Cost(*Z_);
+      stats_.Log("cost", J0);
     }
 
     if (J > J0) {
-- 
2.43.0


From 10218ad9baa7fb594f2ac2a9d019cbd851bce490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:01 +0000
Subject: [PATCH 19/41] fix: do not divide by a header frequency of zero

---
 altro/common/solver_logger.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/altro/common/solver_logger.cpp b/altro/common/solver_logger.cpp
index 75879a4..6750a50 100644
--- a/altro/common/solver_logger.cpp
+++ b/altro/common/solver_logger.cpp
@@ -45,7 +45,8 @@ void SolverLogger::PrintData() {
 }
 
 void SolverLogger::Print() {
-  if ((count_ % frequency_) == 0) {
+  // A frequency of 0 never prints the header automatically
+  if (frequency_ > 0 && (count_ % frequency_) == 0) {
     count_ = 0;
     PrintHeader();
   }
-- 
2.43.0


From 06fcfcdeac19450dda2c410ab11a3f5aed0ec693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:01 +0000
Subject: [PATCH 20/41] fix: close the profiler file when the output changes

---
 altro/common/timer.cpp | 10 ++++++++++
 altro/common/timer.hpp |  3 ++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/altro/common/timer.cpp b/altro/common/timer.cpp
index 32367f8..e647100 100644
--- a/altro/common/timer.cpp
+++ b/altro/common/timer.cpp
@@ -12,8 +12,13 @@ Timer::~Timer() {
     PrintSummary(); 
   }
   // Close the file if the Timer has ownship
+  CloseFile();
+}
+
+void Timer::CloseFile() {
   if (using_file_) {
     fclose(io_);
+    using_file_ = false;
   }
 }
 
@@ -105,6 +110,11 @@ Stopwatch Timer::Start(const std::string& name) {
   return Stopwatch();
 }
 
+void Timer::SetOutput(FILE* io) {
+  CloseFile();
+  io_ = io;
+}
+
 void Timer::SetOutput(const std::string& filename) {
   FILE* io = fopen(filename.c_str(), "w");
   if (io == nullptr) {
diff --git a/altro/common/timer.hpp b/altro/common/timer.hpp
index 636b6db..479ef45 100644
--- a/altro/common/timer.hpp
+++ b/altro/common/timer.hpp
@@ -54,11 +54,12 @@ class Timer : public std::enable_shared_from_this<Timer> {
   void Activate() { active_ = true; }
   void Deactivate() { active_ = false; }
   bool IsActive() const { return active_; }
-  void SetOutput(FILE* io) { io_ = io; }  // ownership of resource remains with user
+  void SetOutput(FILE* io);  // ownership of resource remains with user
   void SetOutput(const std::string& filename);  // takes ownership of the file resource
   friend Stopwatch;  // so that it can populate times_
 
  private:
+  void CloseFile();  // close the current output if it's owned by the Timer
   Timer() = default;  // Make constructor private so it can only be created as a shared ptr
   std::vector<std::string> stack_;  // current profiler call stack e.g. "al/ilqr/cost"
   std::map<std::string, std::chrono::microseconds> times_;
-- 
2.43.0


From decf66ae3d01691fae0ecff7c23355df451e59c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:01 +0000
Subject: [PATCH 21/41] fix: avoid integer overflow in the profiler percentages

---
 altro/common/profile_entry.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/altro/common/profile_entry.cpp b/altro/common/profile_entry.cpp
index ce9d56f..d499c91 100644
--- a/altro/common/profile_entry.cpp
+++ b/altro/common/profile_entry.cpp
@@ -36,8 +36,8 @@ ProfileEntry::Ptr ProfileEntry::GetRoot() {
 void ProfileEntry::CalcStats() {
   time_t total_time = GetRoot()->time;
   time_t parent_time = parent ? parent->time : time;
-  int time_us = time.count();
-  int total_us = total_time.count();
+  const auto time_us = time.count();
+  const auto total_us = total_time.count();
   const int percent_scaling = 100;
   if (total_us == 0) {
     percent_total = -1;
-- 
2.43.0


From b818370a7e5ecfb971975958cc376a926fb05341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:01 +0000
Subject: [PATCH 22/41] fix: write the scalar Jacobian with the stride of the
 output

---
 altro/common/functionbase.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/altro/common/functionbase.hpp b/altro/common/functionbase.hpp
index 18a7386..f27001b 100644
--- a/altro/common/functionbase.hpp
+++ b/altro/common/functionbase.hpp
@@ -146,9 +146,10 @@ class ScalarFunction : public FunctionBase {
 
   void Jacobian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> jac) override {
     ALTRO_ASSERT(jac.rows() == 1, "Jacobian of a scalar function must have a single row.");
-    // Reinterpret the 1xN Jacobian as an Nx1 column vector
-    Eigen::Map<VectorNd<jac.ColsAtCompileTime>> grad(jac.data(), jac.cols());
+    // The row of a larger matrix isn't contiguous, so it can't be passed as a column vector
+    VectorXd grad = jac.transpose();
     Gradient(x, u, grad);
+    jac = grad.transpose();
   }
 
   void Hessian(const VectorXdRef& x, const VectorXdRef& u, const VectorXdRef& b,
-- 
2.43.0


From 089b49ed48cdb659e3dc0f43946b53e60d1560be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:01 +0000
Subject: [PATCH 23/41] fix: fill both off-diagonal blocks of the joint cost
 Hessian

---
 altro/problem/costfunction.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/altro/problem/costfunction.hpp b/altro/problem/costfunction.hpp
index b4a7c38..dd14f59 100644
--- a/altro/problem/costfunction.hpp
+++ b/altro/problem/costfunction.hpp
@@ -69,6 +69,7 @@ class CostFunction : public altro::ScalarFunction {
     constexpr int Nu = NControls;
     Hessian(x, u, hess.topLeftCorner<Nx, Nx>(n, n), hess.topRightCorner<Nx, Nu>(n, m),
             hess.bottomRightCorner<Nu, Nu>(m, m));
+    hess.bottomLeftCorner<Nu, Nx>(m, n) = hess.topRightCorner<Nx, Nu>(n, m).transpose();
   }
 };
 }  // namespace problem
-- 
2.43.0


From dacd68c2ebd7b5077219f971f62f210bbac60d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:01 +0000
Subject: [PATCH 24/41] fix: size the joint state and control vector of a
 dynamic knot point

---
 altro/common/knotpoint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/altro/common/knotpoint.hpp b/altro/common/knotpoint.hpp
index f6e0c2a..9b0efcc 100644
--- a/altro/common/knotpoint.hpp
+++ b/altro/common/knotpoint.hpp
@@ -116,7 +116,7 @@ class KnotPoint : public StateControlSized<n, m> {
   const StateVector& State() const { return x_; }
   const ControlVector& Control() const { return u_; }
   VectorN<AddSizes(n,m), T> GetStateControl() const {
-    VectorN<AddSizes(n,m), T> z;
+    VectorN<AddSizes(n,m), T> z(x_.size() + u_.size());
     z << x_, u_;
     return z;
   }
-- 
2.43.0


From 29e31a8f6505b5e0cc63d2f159483e17cbe764a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:26 +0000
Subject: [PATCH 25/41] fix: initialize the reference control of the triple
 integrator problem

---
 examples/problems/triple_integrator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/problems/triple_integrator.hpp b/examples/problems/triple_integrator.hpp
index 45381d6..a645d53 100644
--- a/examples/problems/triple_integrator.hpp
+++ b/examples/problems/triple_integrator.hpp
@@ -48,7 +48,7 @@ class TripleIntegratorProblem {
 
     // Cost Function
     Eigen::VectorXd xref = xf;
-    Eigen::VectorXd uref(m);
+    Eigen::VectorXd uref = Eigen::VectorXd::Zero(m);
     const bool is_term = true;
     std::shared_ptr<CostFunType> qterm =
         std::make_shared<CostFunType>(CostFunType::LQRCost(Qf, R * 0, xref, uref, is_term));
-- 
2.43.0


From 33b6f13890b6a17b2f53fe0a41353ec573f8f4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:26 +0000
Subject: [PATCH 26/41] fix: zero the off-diagonal terms of the negative
 orthant Jacobian

---
 altro/constraints/constraint.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/altro/constraints/constraint.hpp b/altro/constraints/constraint.hpp
index 5eeabf1..57887c8 100644
--- a/altro/constraints/constraint.hpp
+++ b/altro/constraints/constraint.hpp
@@ -108,6 +108,7 @@ class NegativeOrthant {
   }
   static void Jacobian(const VectorXdRef& x, Eigen::Ref<MatrixXd> jac) {
     ALTRO_ASSERT(jac.rows() == jac.cols(), "Jacobian must be square.");
+    jac.setZero();
     for (int i = 0; i < x.size(); ++i) {
       jac(i, i) = x(i) > 0 ? 0 : 1;
     }
-- 
2.43.0


From a4b6791d4eedc758330cb12a1835d3617bb867e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:26 +0000
Subject: [PATCH 27/41] fix: find the parent of a profiler entry by its name

---
 altro/common/timer.cpp | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/altro/common/timer.cpp b/altro/common/timer.cpp
index e647100..135a6e6 100644
--- a/altro/common/timer.cpp
+++ b/altro/common/timer.cpp
@@ -31,13 +31,12 @@ void Timer::PrintSummary(std::map<std::string, std::chrono::microseconds>* const
 
   using EntryPtr = std::shared_ptr<ProfileEntry>;
   std::vector<EntryPtr> entries;
-  std::vector<EntryPtr> parents;
+  std::map<std::string, EntryPtr> recorded;  // entries by their full name
 
   // Add first (top level) entry
   // This is just temporary to provide the total time
   auto times_iter = times.begin();
   entries.emplace_back(std::make_shared<ProfileEntry>("top", std::chrono::microseconds(0)));
-  parents.emplace_back(entries.front());
 
   // Add all the logged entries, assigning parents
   // Each ProfileEntry object splits the "stack" of names (e.g. "al/ilqr/cost" => ["al", "ilqr", "cost"])
@@ -51,27 +50,22 @@ void Timer::PrintSummary(std::map<std::string, std::chrono::microseconds>* const
     entries.emplace_back(std::make_shared<ProfileEntry>(times_iter->first, times_iter->second));
     EntryPtr entry = entries.back();
 
-    // Get how "deep" the profile stack is.
-    // e.g. level of "al/ilqr/cost" is 3.
-    size_t curlevel = entry->NumLevels(); 
-
-    // Add another level if needed
-    // The "parents" vector contains the current parent for each level
-    // parents[0] is equal to the base level, so it's length is equal to the
-    // maximum "curlevel" seen so far +1.
-    if (curlevel >= parents.size()) {
-      parents.resize(curlevel + 1);  // the +1 accounts for the 0-level.
+    // Assign the parent to be the closest recorded ancestor (e.g. "al/ilqr" or, if it has not been
+    // recorded, "al" for "al/ilqr/cost"). Ancestors are always sorted before their descendants.
+    recorded[times_iter->first] = entry;
+    entry->parent = entries.front();
+    std::string ancestor = times_iter->first;
+    for (size_t pos = ancestor.rfind('/'); pos != std::string::npos; pos = ancestor.rfind('/')) {
+      ancestor.resize(pos);
+      auto search = recorded.find(ancestor);
+      if (search != recorded.end()) {
+        entry->parent = search->second;
+        break;
+      }
     }
 
-    // Always set the current entry as the parent for it's level
-    parents[curlevel] = entry;
-
-    // Assign the parent to be the last entry in the previous level
-    // This is ensured by the fact that the entries are sorted alphabetically
-    entry->parent = parents[curlevel - 1];
-
     // Add up all the base level entries to get the total time
-    if (curlevel == 1) {
+    if (entry->parent == entries.front()) {
       entries.front()->time += entry->time;
     }
 
-- 
2.43.0


From fc467bbb539add9871d5b707b2bfd90238e9183b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:06 +0000
Subject: [PATCH 28/41] fix: reset the status at the start of an AL solve

---
 altro/augmented_lagrangian/al_solver.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/altro/augmented_lagrangian/al_solver.hpp b/altro/augmented_lagrangian/al_solver.hpp
index 39a53fa..9afc36d 100644
--- a/altro/augmented_lagrangian/al_solver.hpp
+++ b/altro/augmented_lagrangian/al_solver.hpp
@@ -300,6 +300,7 @@ void AugmentedLagrangianiLQR<n, m>::Init() {
   Stopwatch sw = CreateTimer("init");
 
   SolverStats& stats = GetStats();
+  status_ = SolverStatus::kUnsolved;
   if (GetOptions().reset_duals) {
     ResetDualVariables();
   }
-- 
2.43.0


From ada6085c4d89fe9cf8c577952fc0016a73391002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:59 +0000
Subject: [PATCH 29/41] fix: do not lose undefined constraint values in the
 violation

---
 altro/augmented_lagrangian/al_cost.hpp   |  4 ++--
 altro/augmented_lagrangian/al_solver.hpp |  2 +-
 altro/constraints/constraint.hpp         |  2 +-
 altro/constraints/constraint_values.hpp  |  7 +++----
 altro/eigentypes.hpp                     | 11 +++++++++++
 5 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/altro/augmented_lagrangian/al_cost.hpp b/altro/augmented_lagrangian/al_cost.hpp
index d702796..9ab055a 100644
--- a/altro/augmented_lagrangian/al_cost.hpp
+++ b/altro/augmented_lagrangian/al_cost.hpp
@@ -348,8 +348,8 @@ class ALCost : public problem::CostFunction {
     for (size_t i = 0; i < ineq_.size(); ++i) {
       ineq_tmp_(i) = ineq_[i]->template MaxViolation<p>();
     }
-    Eigen::Vector2d tmp(eq_tmp_.template lpNorm<p>(), ineq_tmp_.template lpNorm<p>());
-    return tmp.template lpNorm<p>();
+    Eigen::Vector2d tmp(NormWithNaN<p>(eq_tmp_), NormWithNaN<p>(ineq_tmp_));
+    return NormWithNaN<p>(tmp);
   }
 
   /**
diff --git a/altro/augmented_lagrangian/al_solver.hpp b/altro/augmented_lagrangian/al_solver.hpp
index 9afc36d..6191403 100644
--- a/altro/augmented_lagrangian/al_solver.hpp
+++ b/altro/augmented_lagrangian/al_solver.hpp
@@ -432,7 +432,7 @@ double AugmentedLagrangianiLQR<n, m>::GetMaxViolation() {
   for (int k = 0; k <= NumSegments(); ++k) {
     max_violation_(k) = costs_[k]->template MaxViolation<p>();
   }
-  return max_violation_.template lpNorm<p>();
+  return NormWithNaN<p>(max_violation_);
 }
 
 template <int n, int m>
diff --git a/altro/constraints/constraint.hpp b/altro/constraints/constraint.hpp
index 57887c8..f91b90f 100644
--- a/altro/constraints/constraint.hpp
+++ b/altro/constraints/constraint.hpp
@@ -103,7 +103,7 @@ class NegativeOrthant {
   static void Projection(const VectorXdRef& x, Eigen::Ref<VectorXd> x_proj) {
     ALTRO_ASSERT(x.size() == x_proj.size(), "x and x_proj must be the same size");
     for (int i = 0; i < x.size(); ++i) {
-      x_proj(i) = std::min(0.0, x(i));
+      x_proj(i) = std::min(x(i), 0.0);  // in this order a NaN is kept
     }
   }
   static void Jacobian(const VectorXdRef& x, Eigen::Ref<MatrixXd> jac) {
diff --git a/altro/constraints/constraint_values.hpp b/altro/constraints/constraint_values.hpp
index bc37072..2b2f882 100644
--- a/altro/constraints/constraint_values.hpp
+++ b/altro/constraints/constraint_values.hpp
@@ -62,7 +62,8 @@ class ConstraintValues : public Constraint<ConType> {
 
   VectorNd<p>& GetViolation() {
     ConType::Projection(c_, c_proj_);
-    c_proj_ = c_ - c_proj_;
+    // No violation where c is in the cone, which includes infinite values
+    c_proj_ = (c_.array() == c_proj_.array()).select(0.0, c_.array() - c_proj_.array()).matrix().eval();
     return c_proj_;
   }
 
@@ -214,9 +215,7 @@ class ConstraintValues : public Constraint<ConType> {
    */
   template <int p = Eigen::Infinity>
   double MaxViolation() {
-    ConType::Projection(c_, c_proj_);
-    c_proj_ = c_ - c_proj_;
-    return c_proj_.template lpNorm<p>();
+    return NormWithNaN<p>(GetViolation());
   }
 
   /**
diff --git a/altro/eigentypes.hpp b/altro/eigentypes.hpp
index bb1eb63..ae8cc70 100644
--- a/altro/eigentypes.hpp
+++ b/altro/eigentypes.hpp
@@ -3,6 +3,7 @@
 #pragma once
 
 #include <eigen3/Eigen/Dense>
+#include <limits>
 
 namespace altro {
 
@@ -27,4 +28,14 @@ using VectorXf = Eigen::VectorXf;
 using MatrixXd = Eigen::MatrixXd;
 using MatrixXf = Eigen::MatrixXf;
 
+/**
+ * @brief The p-norm of a vector, which is NaN if any of its elements is
+ *
+ * Eigen's maximum norm may skip NaN elements.
+ */
+template <int p, class Derived>
+double NormWithNaN(const Eigen::MatrixBase<Derived>& x) {
+  return x.hasNaN() ? std::numeric_limits<double>::quiet_NaN() : x.template lpNorm<p>();
+}
+
 }  // namespace altro 
\ No newline at end of file
-- 
2.43.0


From 399e67f041b684242a3fbff9cc8916b784662baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:59 +0000
Subject: [PATCH 30/41] fix: sort constraints with undefined violations

---
 altro/augmented_lagrangian/al_solver.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/altro/augmented_lagrangian/al_solver.hpp b/altro/augmented_lagrangian/al_solver.hpp
index 6191403..eb9c911 100644
--- a/altro/augmented_lagrangian/al_solver.hpp
+++ b/altro/augmented_lagrangian/al_solver.hpp
@@ -101,9 +101,14 @@ class AugmentedLagrangianiLQR {
       i_last = coninfo.size();
     }
     if (should_sort) {
-      auto comp = [](const constraints::ConstraintInfo& info1,
-                     const constraints::ConstraintInfo& info2) {
-        return info1.violation.lpNorm<Eigen::Infinity>() > info2.violation.lpNorm<Eigen::Infinity>();
+      // Undefined violations come first, since NaN isn't ordered
+      auto violation = [](const constraints::ConstraintInfo& info) {
+        const double viol = NormWithNaN<Eigen::Infinity>(info.violation);
+        return std::isnan(viol) ? std::numeric_limits<double>::infinity() : viol;
+      };
+      auto comp = [violation](const constraints::ConstraintInfo& info1,
+                              const constraints::ConstraintInfo& info2) {
+        return violation(info1) > violation(info2);
       };
       std::sort(coninfo.begin(), coninfo.end(), comp);
     }
-- 
2.43.0


From a859877426f93e12284f3c7108756becb81f84fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:56 +0000
Subject: [PATCH 31/41] Revert "fix: honour the position indices in the circle
 constraint Jacobian"

This reverts commit f691e58b04cfc89c70c4ec967276566d03608bd7.
---
 examples/obstacle_constraints.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/examples/obstacle_constraints.hpp b/examples/obstacle_constraints.hpp
index 259beba..79ce563 100644
--- a/examples/obstacle_constraints.hpp
+++ b/examples/obstacle_constraints.hpp
@@ -110,14 +110,13 @@ class CircleConstraint : public constraints::Constraint<constraints::NegativeOrt
                 Eigen::Ref<MatrixXd> jac) override {
     const double px = x(x_index_);
     const double py = x(y_index_);
-    jac.setZero();
     for (size_t i = 0; i < obstacles_.size(); ++i) {
       // TODO(bjackson): Store Jacobians in row-major format so that the 
       // raw columns can be passed to each obstacle to compute the gradient
       const double cx = obstacles_[i].x;
       const double cy = obstacles_[i].y;
-      jac(i, x_index_) = 2 * (cx - px);
-      jac(i, y_index_) = 2 * (cy - py);
+      jac(i, 0) = 2 * (cx - px);
+      jac(i, 1) = 2 * (cy - py);
     }
   }
 
-- 
2.43.0


From fd59c04457646ec3b6d0973adf2d34366097a967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:56 +0000
Subject: [PATCH 32/41] Revert "fix: initialize the reference control of the
 triple integrator problem"

This reverts commit 29e31a8f6505b5e0cc63d2f159483e17cbe764a4.
---
 examples/problems/triple_integrator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/problems/triple_integrator.hpp b/examples/problems/triple_integrator.hpp
index a645d53..45381d6 100644
--- a/examples/problems/triple_integrator.hpp
+++ b/examples/problems/triple_integrator.hpp
@@ -48,7 +48,7 @@ class TripleIntegratorProblem {
 
     // Cost Function
     Eigen::VectorXd xref = xf;
-    Eigen::VectorXd uref = Eigen::VectorXd::Zero(m);
+    Eigen::VectorXd uref(m);
     const bool is_term = true;
     std::shared_ptr<CostFunType> qterm =
         std::make_shared<CostFunType>(CostFunType::LQRCost(Qf, R * 0, xref, uref, is_term));
-- 
2.43.0


From 88b3e442bde7d83a1275ce04b6900f2d4675c475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:29 +0000
Subject: [PATCH 33/41] fix: check that a pool is not running before moving its
 queue

---
 altro/common/threadpool.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/altro/common/threadpool.cpp b/altro/common/threadpool.cpp
index 3dd6fc8..d19633d 100644
--- a/altro/common/threadpool.cpp
+++ b/altro/common/threadpool.cpp
@@ -9,17 +9,11 @@ namespace altro {
 
 constexpr int ThreadPool::kTaskTimeout;
 
-ThreadPool::ThreadPool(ThreadPool&& other) noexcept
-    : is_running_(static_cast<bool>(other.is_running_)),
-      threads_(std::move(other.threads_)),
-      futures_(std::move(other.futures_)),
-      queue_(std::move(other.queue_)),
-      timeout_(other.timeout_) {
-  ALTRO_ASSERT(!is_running_, "Cannot move a pool while it's running");
-}
+// The assignment checks that no threads are running before it moves anything
+ThreadPool::ThreadPool(ThreadPool&& other) noexcept : ThreadPool() { *this = std::move(other); }
 
 ThreadPool& ThreadPool::operator=(ThreadPool&& other) noexcept {
-  ALTRO_ASSERT(!other.IsRunning(), "Cannot move a pool while it's running");
+  ALTRO_ASSERT(!IsRunning() && !other.IsRunning(), "Cannot move a pool while it's running");
   is_running_ = static_cast<bool>(other.is_running_);
   threads_ = std::move(other.threads_);
   futures_ = std::move(other.futures_);
-- 
2.43.0


From 5539020dd5fe0bec238b2b2b8f3223785c341146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:22 +0000
Subject: [PATCH 34/41] fix: zero the Jacobian between the stages of the
 Runge-Kutta integrator

---
 altro/problem/integration.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/altro/problem/integration.hpp b/altro/problem/integration.hpp
index c423eb1..937cdcb 100644
--- a/altro/problem/integration.hpp
+++ b/altro/problem/integration.hpp
@@ -138,15 +138,19 @@ class RungeKutta4 final : public ExplicitIntegrator<NStates, NControls> {
     dynamics->Evaluate(x + k1_ * 0.5 * h, u, t + 0.5 * h, k2_);  // NOLINT(readability-magic-numbers)
     dynamics->Evaluate(x + k2_ * 0.5 * h, u, t + 0.5 * h, k3_);  // NOLINT(readability-magic-numbers)
 
+    // The model may only write some of the entries, so don't leave those of the previous stage
     dynamics->Jacobian(x, u, t, jac);
     A_[0] = jac.topLeftCorner(n, n);
     B_[0] = jac.topRightCorner(n, m);
+    jac.setZero();
     dynamics->Jacobian(x + 0.5 * k1_ * h, u, t + 0.5 * h, jac);  // NOLINT(readability-magic-numbers)
     A_[1] = jac.topLeftCorner(n, n);
     B_[1] = jac.topRightCorner(n, m);
+    jac.setZero();
     dynamics->Jacobian(x + 0.5 * k2_ * h, u, t + 0.5 * h, jac);  // NOLINT(readability-magic-numbers)
     A_[2] = jac.topLeftCorner(n, n);
     B_[2] = jac.topRightCorner(n, m);
+    jac.setZero();
     dynamics->Jacobian(x + k3_ * h, u, t + h, jac);
     A_[3] = jac.topLeftCorner(n, n);
     B_[3] = jac.topRightCorner(n, m);
-- 
2.43.0


From 22adb984a5c3b534ae0a2234f89ced6245f0f9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:22 +0000
Subject: [PATCH 35/41] fix: zero the constraint Jacobian before evaluating it

---
 altro/constraints/constraint_values.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/altro/constraints/constraint_values.hpp b/altro/constraints/constraint_values.hpp
index 2b2f882..75dd276 100644
--- a/altro/constraints/constraint_values.hpp
+++ b/altro/constraints/constraint_values.hpp
@@ -135,6 +135,7 @@ class ConstraintValues : public Constraint<ConType> {
 
     // TODO(bjackson): Avoid these redundant calls.
     con_->Evaluate(x, u, c_);
+    jac_.setZero();  // the constraint may only write some of the entries
     con_->Jacobian(x, u, jac_);
     ConType::DualCone::Projection(lambda_ - rho * c_, lambda_proj_);
     ConType::DualCone::Jacobian(lambda_ - rho * c_, proj_jac_);
@@ -160,6 +161,7 @@ class ConstraintValues : public Constraint<ConType> {
 
     // TODO(bjackson): Avoid these redundant calls.
     con_->Evaluate(x, u, c_);
+    jac_.setZero();  // the constraint may only write some of the entries
     con_->Jacobian(x, u, jac_);
     ConType::DualCone::Projection(lambda_ - rho * c_, lambda_proj_);
     ConType::DualCone::Jacobian(lambda_ - rho * c_, proj_jac_);
@@ -247,6 +249,7 @@ class ConstraintValues : public Constraint<ConType> {
    */
   void CalcExpansion(const VectorXdRef& x, const VectorXdRef& u) {
     con_->Evaluate(x, u, c_);
+    jac_.setZero();  // the constraint may only write some of the entries
     con_->Jacobian(x, u, jac_);
   }
 
-- 
2.43.0


From 3abffe1cd9bf3675f0a4111170c82dd729c98a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:22 +0000
Subject: [PATCH 36/41] fix: reject missing problems and unsuitable
 trajectories instead of crashing

---
 altro/ilqr/ilqr.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 07e1f63..7131931 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -156,6 +156,8 @@ class iLQR {
    */
   KnotPointFunctions<n, m>& GetKnotPointFunction(int k) {
     ALTRO_ASSERT((k >= 0) && (k <= N_), "Invalid knot point index.");
+    ALTRO_ASSERT(static_cast<int>(knotpoints_.size()) == N_ + 1,
+                 "The problem must be set before using the knot point functions.");
     return *(knotpoints_[k]);
   }
 
@@ -233,6 +235,7 @@ class iLQR {
    * @param traj Pointer to the trajectory
    */
   void SetTrajectory(std::shared_ptr<Trajectory<n, m>> traj) {
+    ALTRO_ASSERT(traj != nullptr, "Cannot pass a nullptr for the trajectory.");
     Z_ = std::move(traj);
     Zbar_ = std::make_unique<Trajectory<n, m>>(*Z_);
     Zbar_->SetZero();
@@ -335,6 +338,7 @@ class iLQR {
     return Cost(*Z_);
   }
   double Cost(const Trajectory<n, m>& Z) {
+    ALTRO_ASSERT(Z.NumSegments() == N_, fmt::format("Trajectory must have length {}", N_));
     Stopwatch sw = stats_.GetTimer()->Start("cost");
     CalcIndividualCosts(Z);
     return costs_.sum();
@@ -462,6 +466,9 @@ class iLQR {
    *
    */
   void Rollout() {
+    ALTRO_ASSERT(Z_ != nullptr, "Invalid trajectory pointer. May be uninitialized.");
+    ALTRO_ASSERT(is_initial_state_set, "Initial state must be set before simulating.");
+    ALTRO_ASSERT(Z_->NumSegments() == N_, fmt::format("Trajectory must have length {}", N_));
     Z_->State(0) = *initial_state_;
     for (int k = 0; k < N_; ++k) {
       knotpoints_[k]->Dynamics(Z_->State(k), Z_->Control(k), Z_->GetTime(k), Z_->GetStep(k),
-- 
2.43.0


From 3d94c3122e56041dc2f9e218afbc6359c665ddeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 37/41] fix: reject an AL solver without a problem instead of
 crashing

---
 altro/augmented_lagrangian/al_solver.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/altro/augmented_lagrangian/al_solver.hpp b/altro/augmented_lagrangian/al_solver.hpp
index eb9c911..d9fe7d5 100644
--- a/altro/augmented_lagrangian/al_solver.hpp
+++ b/altro/augmented_lagrangian/al_solver.hpp
@@ -91,6 +91,7 @@ class AugmentedLagrangianiLQR {
    * @return std::vector<constraints::ConstraintInfo>
    */
   std::vector<constraints::ConstraintInfo> GetConstraintInfo(bool should_sort = false) const {
+    AssertInitialized();
     std::vector<constraints::ConstraintInfo> coninfo;
     int i_last = 0;
     for (int k = 0; k <= NumSegments(); ++k) {
@@ -227,6 +228,11 @@ class AugmentedLagrangianiLQR {
   void ResetDualVariables();
 
  private:
+  void AssertInitialized() const {
+    ALTRO_ASSERT(static_cast<int>(costs_.size()) == NumSegments() + 1,
+                 "The solver must be initialized with a problem.");
+  }
+
   // The callback refers to this object, so it must be set again after a move
   void SetViolationCallback() {
     auto max_violation_callback = [this]() -> double { return this->GetMaxViolation(); };
@@ -286,6 +292,7 @@ int AugmentedLagrangianiLQR<n, m>::NumConstraints() const {
 
 template <int n, int m>
 void AugmentedLagrangianiLQR<n, m>::SetPenalty(const double& rho) {
+  AssertInitialized();
   for (int k = 0; k <= NumSegments(); ++k) {
     costs_[k]->template SetPenalty<constraints::Equality>(rho);
     costs_[k]->template SetPenalty<constraints::Inequality>(rho);
@@ -294,6 +301,7 @@ void AugmentedLagrangianiLQR<n, m>::SetPenalty(const double& rho) {
 
 template <int n, int m>
 void AugmentedLagrangianiLQR<n, m>::SetPenaltyScaling(const double& phi) {
+  AssertInitialized();
   for (int k = 0; k <= NumSegments(); ++k) {
     costs_[k]->template SetPenaltyScaling<constraints::Equality>(phi);
     costs_[k]->template SetPenaltyScaling<constraints::Inequality>(phi);
@@ -352,6 +360,7 @@ void AugmentedLagrangianiLQR<n, m>::Solve() {
 
 template <int n, int m>
 void AugmentedLagrangianiLQR<n, m>::UpdateDuals() {
+  AssertInitialized();
   Stopwatch sw = CreateTimer("dual_update");
 
   int N = this->NumSegments();
@@ -363,6 +372,7 @@ void AugmentedLagrangianiLQR<n, m>::UpdateDuals() {
 
 template <int n, int m>
 void AugmentedLagrangianiLQR<n, m>::UpdatePenalties() {
+  AssertInitialized();
   Stopwatch sw = CreateTimer("penalty_update");
 
   int N = this->NumSegments();
@@ -434,6 +444,7 @@ double AugmentedLagrangianiLQR<n, m>::MaxViolation(const Trajectory<n, m>& Z) {
 template <int n, int m>
 template <int p>
 double AugmentedLagrangianiLQR<n, m>::GetMaxViolation() {
+  AssertInitialized();
   for (int k = 0; k <= NumSegments(); ++k) {
     max_violation_(k) = costs_[k]->template MaxViolation<p>();
   }
@@ -442,6 +453,7 @@ double AugmentedLagrangianiLQR<n, m>::GetMaxViolation() {
 
 template <int n, int m>
 double AugmentedLagrangianiLQR<n, m>::GetMaxPenalty() const {
+  AssertInitialized();
   double max_penalty = 0.0;
 
   for (int k = 0; k <= NumSegments(); ++k) {
-- 
2.43.0


From 350796cbf90b949fdd585feb0455680b8d5ffafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:20 +0000
Subject: [PATCH 38/41] fix: flush the profiler file before opening it again

---
 altro/common/timer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/altro/common/timer.cpp b/altro/common/timer.cpp
index 135a6e6..e04605b 100644
--- a/altro/common/timer.cpp
+++ b/altro/common/timer.cpp
@@ -110,6 +110,10 @@ void Timer::SetOutput(FILE* io) {
 }
 
 void Timer::SetOutput(const std::string& filename) {
+  // Nothing may remain buffered for a file that is opened (and emptied) again
+  if (using_file_) {
+    fflush(io_);
+  }
   FILE* io = fopen(filename.c_str(), "w");
   if (io == nullptr) {
     std::string errmsg = fmt::format("Error opening profiler file \"{}\". Got errno {}.", filename, errno);
-- 
2.43.0


From dc37f19154d15ae829eb78d303787c79ce5ac63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:20 +0000
Subject: [PATCH 39/41] fix: do not accept undefined times as consistent

---
 altro/common/trajectory.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/altro/common/trajectory.hpp b/altro/common/trajectory.hpp
index e77516b..c579921 100644
--- a/altro/common/trajectory.hpp
+++ b/altro/common/trajectory.hpp
@@ -140,7 +140,8 @@ class Trajectory {
     for (int k = 0; k < NumSegments(); ++k) {
       float h_calc = GetTime(k + 1) - GetTime(k);
       float h_stored = GetStep(k);
-      if (std::abs(h_stored - h_calc) > eps) {
+      // Written such that undefined times are never consistent
+      if (!(std::abs(h_stored - h_calc) <= eps)) {
         if (verbose) {
           std::cout << "k=" << k << "\t h=" << h_stored << std::endl;
           std::cout << "t-=" << GetTime(k) << "\t t+=" << GetTime(k + 1)
-- 
2.43.0


From 3ae1075764febaf3c57172c9d09204455ca08e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:20 +0000
Subject: [PATCH 40/41] fix: create the terminal control without reading a
 previous one

---
 altro/common/trajectory.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/altro/common/trajectory.hpp b/altro/common/trajectory.hpp
index c579921..1e40453 100644
--- a/altro/common/trajectory.hpp
+++ b/altro/common/trajectory.hpp
@@ -59,7 +59,9 @@ class Trajectory {
       float h = times[k + 1] - times[k];
       traj_.emplace_back(X[k], U[k], times[k], h);
     }
-    traj_.emplace_back(X[N], 0 * U[N-1], times[N], 0.0);
+    // There is no control at the terminal knot point (and there may be no other control either)
+    const int control_dim = N > 0 ? U[N - 1].size() : std::max(m, 0);
+    traj_.emplace_back(X[N], ControlVector::Zero(control_dim), times[N], 0.0);
   }
 
 
-- 
2.43.0


From 53a0fd4e53a88b8fb0b74d915bd08a3a1ac14712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:15 +0000
Subject: [PATCH 41/41] fix: hand exceptions of parallel expansions to the
 caller

---
 altro/ilqr/ilqr.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 7131931..5d79699 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -3,6 +3,7 @@
 #pragma once
 
 #include <array>
+#include <exception>
 #include <functional>
 #include <future>
 #include <iostream>
@@ -366,13 +367,26 @@ class iLQR {
     if (nthreads <= 1) {
       UpdateExpansionsBlock(0, NumSegments() + 1);
     } else {
+      // The threads only keep what a user function throws, so it's handed on to the caller here.
+      auto errors = std::make_shared<std::vector<std::exception_ptr>>(tasks_.size());
       {
         Stopwatch sw2 = stats_.GetTimer()->Start("add_tasks");
-        for (const std::function<void()>& task : tasks_) {
-          pool_.AddTask(task);
+        for (size_t i = 0; i < tasks_.size(); ++i) {
+          pool_.AddTask([errors, i, task = tasks_[i]]() {
+            try {
+              task();
+            } catch (...) {
+              (*errors)[i] = std::current_exception();
+            }
+          });
         }
       }
       pool_.Wait();
+      for (const std::exception_ptr& error : *errors) {
+        if (error) {
+          std::rethrow_exception(error);
+        }
+      }
     }
   }
 
-- 
2.43.0

