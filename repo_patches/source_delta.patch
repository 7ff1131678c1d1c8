From 9c8352fce884155c45c8eb2a2dedd6312c10c0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:25 +0000
Subject: [PATCH 01/56] fix: division or modulo by zero in an expression traps
 the simulator

---
 src/eval.cc | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/eval.cc b/src/eval.cc
index 5a783a1..d82b6a8 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -376,6 +376,20 @@ Expr* parse(const std::string& value, DebugExpression& debug_expression) {
     }
 }
 
+// like every other operator, division and modulo have to produce a value: these would trap otherwise,
+// taking the simulator down with them. dividing by zero gives 0 (false), and the one quotient that
+// doesn't fit wraps around
+static ExpressionType divide_value(ExpressionType left, ExpressionType right) {
+    if (right == 0) return 0;
+    if (right == -1) return static_cast<ExpressionType>(0 - static_cast<uint64_t>(left));
+    return left / right;
+}
+
+static ExpressionType mod_value(ExpressionType left, ExpressionType right) {
+    if (right == 0 || right == -1) return 0;
+    return left % right;
+}
+
 ExpressionType Expr::eval() const {
     switch (op) {
         case Operator::None:
@@ -391,9 +405,9 @@ ExpressionType Expr::eval() const {
         case Operator::Multiply:
             return left->eval() * right->eval();
         case Operator::Divide:
-            return left->eval() / right->eval();
+            return divide_value(left->eval(), right->eval());
         case Operator::Mod:
-            return left->eval() % right->eval();
+            return mod_value(left->eval(), right->eval());
         case Operator::Eq:
             return left->eval() == right->eval();
         case Operator::Neq:
-- 
2.43.0


From 06fb7a7922523e6dec27f4928aaa80a2eac72896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:25 +0000
Subject: [PATCH 02/56] fix: hex literals with the 64th bit set are clamped

---
 src/eval.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eval.cc b/src/eval.cc
index d82b6a8..67e514e 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -238,9 +238,10 @@ struct action<hex_integer> {
         auto pos = value.find_first_of('\'');
         std::stringstream ss;
         ss << std::hex << value.substr(pos + 2);
-        ExpressionType v;
+        // the literal is a 64-bit pattern, i.e. the top bit can be set
+        uint64_t v;
         ss >> v;
-        expr->set_value(v);
+        expr->set_value(static_cast<ExpressionType>(v));
         state.push(expr);
     }
 };
-- 
2.43.0


From a3fc8e41b03a171d727de0c2aa69ec3048433b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:25 +0000
Subject: [PATCH 03/56] fix: symbols are destroyed through a base class without
 virtual destructor

---
 src/eval.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eval.hh b/src/eval.hh
index e031788..e650459 100644
--- a/src/eval.hh
+++ b/src/eval.hh
@@ -37,6 +37,7 @@ enum class Operator {
 class Expr {
 public:
     explicit Expr(Operator op) : op(op) {}
+    virtual ~Expr() = default;
     void set_value(ExpressionType value) { value_ = value; }
 
     Expr *left = nullptr;
-- 
2.43.0


From 6c68a1631c943e8e91522561b5228fcc4e2889a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:20 +0000
Subject: [PATCH 04/56] fix: slices that reach bit 63 or beyond shift by too
 much

---
 src/rtl.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index e36525b..a5b41f1 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -255,8 +255,12 @@ int64_t get_slice(int64_t value, const std::tuple<vpiHandle, uint32_t, uint32_t>
     // notice that hi and lo are inclusive
     auto [parent, hi, lo] = info;
     auto v = static_cast<uint64_t>(value);
-    auto hi_mask = ~(std::numeric_limits<uint64_t>::max() << (hi + 1));
-    v = v & hi_mask;
+    // shifting by 64 or more is undefined
+    if (lo >= 64) return 0;
+    if (hi < 63) {
+        auto hi_mask = ~(std::numeric_limits<uint64_t>::max() << (hi + 1));
+        v = v & hi_mask;
+    }
     v = v >> lo;
     return static_cast<int64_t>(v);
 }
-- 
2.43.0


From 465d97b6f9d8a294f6d5778717f58590ae87e9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:20 +0000
Subject: [PATCH 05/56] fix: formatted slices contain all the bits above the
 slice

---
 src/rtl.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index a5b41f1..b96ac1f 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -329,12 +329,12 @@ std::string get_slice(const std::string &value,
     auto [parent, hi, lo] = info;
     // notice that it's in reverse order!
     // hi and lo are inclusive as in RTL
-    if (lo > value.size() - 1) {
+    if (lo >= value.size()) {
         return "0";
     }
 
-    auto pos = std::min<uint32_t>(value.size() - hi - 1, 0);
-    auto lo_pos = std::max<uint32_t>(value.size() - lo - 1, 0);
+    auto pos = hi < value.size() ? value.size() - hi - 1 : 0;
+    auto lo_pos = value.size() - lo - 1;
     auto result = value.substr(pos, lo_pos - pos + 1);
     // now we have binary result, need to convert it into hex
     // pad string to multiple of 4
-- 
2.43.0


From a7639ef3d188897e4cae365af98a33f0be7732ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:20 +0000
Subject: [PATCH 06/56] fix: formatting a slice with x or z bits throws

---
 src/rtl.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rtl.cc b/src/rtl.cc
index b96ac1f..4e05458 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -344,6 +344,11 @@ std::string get_slice(const std::string &value,
     std::string s;
     for (auto i = 0u; i < result.size(); i += 4) {
         auto str = result.substr(i, 4);
+        if (str.find_first_not_of("01") != std::string::npos) {
+            // four-state values. can't be converted to a number
+            s.append(str.find_first_not_of("zZ") == std::string::npos ? "Z" : "X");
+            continue;
+        }
         auto v = std::stoul(str, nullptr, 2);
         s.append(fmt::format("{0:X}", v));
     }
-- 
2.43.0


From 37a09be312e7780c62f85cbc4d729ba5370862f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:20 +0000
Subject: [PATCH 07/56] fix: made-up slice handles are passed to the simulator

---
 src/rtl.cc | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index 4e05458..6ecb28f 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -274,6 +274,12 @@ std::optional<int64_t> RTLSimulatorClient::get_value(vpiHandle handle, bool is_s
     auto *target_handle = handle;
 
     if (is_signal) {
+        // if we have mock vpi handle, use it
+        // optimize for unlikely
+        is_slice_handle = mock_slice_handles_.find(handle) != mock_slice_handles_.end();
+        if (is_slice_handle) [[unlikely]]
+            handle = std::get<0>(mock_slice_handles_.at(handle));
+
         // get value size. Verilator will freak out if the width is larger than 64
         // notice this is mostly cached result
         if (is_verilator()) {
@@ -285,12 +291,6 @@ std::optional<int64_t> RTLSimulatorClient::get_value(vpiHandle handle, bool is_s
                 return {};
             }
         }
-
-        // if we have mock vpi handle, use it
-        // optimize for unlikely
-        is_slice_handle = mock_slice_handles_.find(handle) != mock_slice_handles_.end();
-        if (is_slice_handle) [[unlikely]]
-            handle = std::get<0>(mock_slice_handles_.at(handle));
     }
 
     s_vpi_value v;
@@ -984,6 +984,9 @@ void RTLSimulatorClient::set_vpi_allocator(const std::function<vpiHandle()> &fun
 
 PLI_INT32 RTLSimulatorClient::get_vpi_type(vpiHandle handle) {
     if (!handle) return vpiError;
+    // the simulator doesn't know about the slices we made up
+    if (mock_slice_handles_.find(handle) != mock_slice_handles_.end()) [[unlikely]]
+        return vpiPartSelect;
     std::lock_guard guard(cached_vpi_types_lock_);
     if (cached_vpi_types_.find(handle) != cached_vpi_types_.end()) [[likely]] {
         return cached_vpi_types_.at(handle);
@@ -996,6 +999,10 @@ PLI_INT32 RTLSimulatorClient::get_vpi_type(vpiHandle handle) {
 
 uint32_t RTLSimulatorClient::get_vpi_size(vpiHandle handle) {
     if (!handle) return 0;
+    if (auto it = mock_slice_handles_.find(handle); it != mock_slice_handles_.end()) [[unlikely]] {
+        auto const &[parent, hi, lo] = it->second;
+        return hi - lo + 1;
+    }
     std::lock_guard guard(cached_vpi_size_lock_);
     if (cached_vpi_size_.find(handle) != cached_vpi_size_.end()) [[likely]] {
         return cached_vpi_size_.at(handle);
-- 
2.43.0


From d1d0732d7992fe615dd01dbdba264597d628794f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:20 +0000
Subject: [PATCH 08/56] fix: handles resolved by brute force are cached under
 the wrong name

---
 src/rtl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index 6ecb28f..c012c9b 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -169,7 +169,7 @@ vpiHandle RTLSimulatorClient::get_handle(const std::string &name) {
             // deal with verilator. remove []
             auto tokens = util::get_tokens(full_name, ".[]");
             ptr = get_handle(tokens);
-            if (ptr) handle_map_.emplace(name, ptr);
+            if (ptr) handle_map_.emplace(full_name, ptr);
         }
         return ptr;
     }
-- 
2.43.0


From e1c1763b06be78f3df207614dbeec7fd05644d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:20 +0000
Subject: [PATCH 09/56] fix: large array indices throw

---
 src/rtl.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index c012c9b..57c4ce2 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -243,8 +243,10 @@ vpiHandle RTLSimulatorClient::access_arrays(StringIterator begin, StringIterator
         if (!std::all_of(idx.begin(), idx.end(), ::isdigit)) {
             return nullptr;
         }
-        auto index_value = std::stoi(idx);
-        var_handle = vpi_->vpi_handle_by_index(var_handle, index_value);
+        auto index_value = util::stoul(idx);
+        if (!index_value || *index_value > std::numeric_limits<PLI_INT32>::max()) return nullptr;
+        var_handle =
+            vpi_->vpi_handle_by_index(var_handle, static_cast<PLI_INT32>(*index_value));
         if (!var_handle) return nullptr;
         it++;
     }
-- 
2.43.0


From 84d726a38b8fb82ba2cb5feb8d11ab75d0fcd282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:20 +0000
Subject: [PATCH 10/56] fix: instance matching without definition names reads
 out of bounds and maps one level too deep

---
 src/rtl.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index 57c4ce2..845a621 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -754,7 +754,7 @@ std::pair<bool, std::string> match(const std::string &full_name,
     auto full_tokens = util::get_tokens(full_name, ".");
     // the test bench should contain the top, as a result, the full token should be
     // at least + 1
-    if (full_tokens.size() < (tokens.size() - 1)) return false_;
+    if (full_tokens.size() < (tokens.size() + 1)) return false_;
 
     for (auto i = 0u; i < tokens.size(); i++) {
         auto const &t_value = tokens[tokens.size() - 1 - i];
@@ -762,8 +762,8 @@ std::pair<bool, std::string> match(const std::string &full_name,
         if (t_value != ref_value) return false_;
     }
 
-    // compute the prefix
-    auto size_diff = static_cast<uint32_t>(full_tokens.size() - tokens.size()) + 1;
+    // compute the prefix, i.e. everything up to the top
+    auto size_diff = static_cast<uint32_t>(full_tokens.size() - tokens.size());
     auto prefix =
         fmt::format("{0}.", fmt::join(full_tokens.begin(), full_tokens.begin() + size_diff, "."));
 
-- 
2.43.0


From 3d1ca5092fc4b74171a1cf42073cc763e1611069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:20 +0000
Subject: [PATCH 11/56] fix: consecutive $parent in a path only go up one level

---
 src/rtl.cc | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index 845a621..c6a4af5 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -575,17 +575,14 @@ std::string resolve_rtl_path(const std::string &path) {
         return path;
     }
 
-    auto tokens = util::get_tokens(path, ".");
-    for (auto i = 1u; i < tokens.size(); i++) {
-        if (tokens[i] == "$parent") {
-            tokens[i] = "";
-            tokens[i - 1] = "";
+    std::vector<std::string> tokens;
+    for (auto const &token : util::get_tokens(path, ".")) {
+        if (token == "$parent" && !tokens.empty()) {
+            tokens.pop_back();
+        } else {
+            tokens.emplace_back(token);
         }
     }
-    // filter empty ones
-    tokens.erase(
-        std::remove_if(tokens.begin(), tokens.end(), [](auto const &s) { return s.empty(); }),
-        tokens.end());
     auto res = fmt::format("{0}", fmt::join(tokens.begin(), tokens.end(), "."));
     return res;
 }
-- 
2.43.0


From 3cdf784225f3be5e5d6a36c3892f598c1744f87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:59 +0000
Subject: [PATCH 12/56] fix: don't skip breakpoints that cannot be evaluated in
 the same batch

While collecting a batch the scan walked over breakpoints on the same line that have a
different enable condition (or are data breakpoints) and carried on. Since the next batch
starts after the last breakpoint of this one, those in between were never evaluated in
that cycle. Stop the scan at the first breakpoint that can't join.
---
 src/scheduler.cc | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/scheduler.cc b/src/scheduler.cc
index 5a612b3..ea81793 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -576,20 +576,21 @@ void Scheduler::scan_breakpoints(uint64_t ref_index, bool forward,
             next_bp->column_num != ref_bp->column_num) {
             return false;
         }
-        // if we see a data breakpoint, don't stop, just skip it
-        if (next_bp->type == DebugBreakPoint::Type::data) {
-            return true;
-        }
-        // same enable expression but different instance id
-        if (next_bp->instance_id != ref_bp->instance_id &&
-            next_bp->enable_expr->expression() == target_expr) {
-            result.emplace_back(next_bp.get());
+        // only the same enable expression but different instance id can join. anything else,
+        // including data breakpoints, has to be evaluated on its own. we have to stop the scan
+        // there, otherwise it will be skipped since the next scan resumes after the last
+        // breakpoint of this batch
+        if (next_bp->type == DebugBreakPoint::Type::data ||
+            next_bp->instance_id == ref_bp->instance_id ||
+            next_bp->enable_expr->expression() != target_expr) {
+            return false;
         }
+        result.emplace_back(next_bp.get());
         return true;
     };
 
     if (forward) {
-        for (auto i = ref_index; i < static_cast<uint64_t>(breakpoints_.size()); i++) {
+        for (auto i = ref_index + 1; i < static_cast<uint64_t>(breakpoints_.size()); i++) {
             if (!match(i)) break;
         }
     } else {
-- 
2.43.0


From dda597823cc874e915523e1e9e48ae80cb2cbcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:16 +0000
Subject: [PATCH 13/56] fix: keep the execution order when a breakpoint is
 added by id

handle_breakpoint sorts the inserted breakpoints afterwards, handle_breakpoint_id did not.
---
 src/debug.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/debug.cc b/src/debug.cc
index 9aaa5c4..d56e5c2 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -594,6 +594,7 @@ void Debugger::handle_breakpoint_id(const BreakPointIDRequest &req, uint64_t con
             return;
         }
         add_breakpoint(bp_info, *bp);
+        scheduler_->reorder_breakpoints();
     } else {
         scheduler_->remove_breakpoint(bp_info, DebugBreakPoint::Type::normal);
     }
-- 
2.43.0


From 5c86a488870f3e088945750af1e1a7e8bcd2fc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:02 +0000
Subject: [PATCH 14/56] fix: continue from the current breakpoint after
 stepping

Changing the evaluation mode forgets which breakpoints have been evaluated, so going from
stepping back to continue started over at the first inserted breakpoint and reported
breakpoints before the current one again in the same cycle.
---
 src/scheduler.cc | 16 ++++++++++++++++
 src/scheduler.hh |  1 +
 2 files changed, 17 insertions(+)

diff --git a/src/scheduler.cc b/src/scheduler.cc
index ea81793..100cafd 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -309,6 +309,22 @@ void Scheduler::set_evaluation_mode(EvaluationMode mode) {
     if (evaluation_mode_ != mode) {
         clear_breakpoints(breakpoints_);
         evaluation_mode_ = mode;
+        mark_passed_breakpoints();
+    }
+}
+
+void Scheduler::mark_passed_breakpoints() {
+    // the new mode has to pick up from where we are in the current cycle: when going forward,
+    // everything up to the current breakpoint has been passed already
+    std::lock_guard guard(breakpoint_lock_);
+    if (!current_breakpoint_id_ || evaluation_mode_ != EvaluationMode::BreakPointOnly) return;
+    auto current = bp_ordering_table_.find(*current_breakpoint_id_);
+    if (current == bp_ordering_table_.end()) return;
+    for (auto &bp : breakpoints_) {
+        auto order = bp_ordering_table_.find(bp->id);
+        if (order != bp_ordering_table_.end() && order->second <= current->second) {
+            bp->evaluated = true;
+        }
     }
 }
 
diff --git a/src/scheduler.hh b/src/scheduler.hh
index eee36d3..ca24fc5 100644
--- a/src/scheduler.hh
+++ b/src/scheduler.hh
@@ -113,6 +113,7 @@ private:
         const std::optional<BreakPoint> &bp_info);
     std::unique_ptr<DebugBreakPoint> remove_breakpoint(uint64_t bp_id, DebugBreakPoint::Type type);
     void remove_assert_breakpoints();
+    void mark_passed_breakpoints();
 
     // log
     static void log_error(const std::string &msg);
-- 
2.43.0


From 2098d6140c57fe7bd87dbdeb43193a41b77fd691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:22 +0000
Subject: [PATCH 15/56] fix: reverse continue from a breakpoint that is not
 inserted

After stepping, the current breakpoint is not necessarily one of the inserted ones. The search
for it then found nothing and the check for that ('!target_index && target_index >= size')
could never be true, so an empty optional was dereferenced. Use the evaluated flags to find
where we are instead, as the forward search does.
---
 src/scheduler.cc | 72 +++++++++++++++++++-----------------------------
 1 file changed, 28 insertions(+), 44 deletions(-)

diff --git a/src/scheduler.cc b/src/scheduler.cc
index 100cafd..d9fb381 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -164,50 +164,32 @@ std::vector<DebugBreakPoint *> Scheduler::next_reverse_breakpoints() {
 
     std::vector<DebugBreakPoint *> result;
 
-    // if the current breakpoint is the first one already, we need to reverse the time to previous
-    // cycle
-    std::optional<uint64_t> target_index;
-    if (current_breakpoint_id_) {
-        if (breakpoints_.front()->id == *current_breakpoint_id_) {
-            // we have reached the first one of the current
-            // call reverse
-            auto handles = clock_handles_;
-            auto res = namespaces_.default_rtl()->reverse_last_posedge(handles);
-            if (!res) {
-                // can't revert the time. use the current timestamp
-                // just return the first one
-                target_index = 0;
-            } else {
-                // time reversed
-                current_breakpoint_id_ = std::nullopt;
-                target_index = breakpoints_.size() - 1;
-            }
-        } else {
-            // find the next inserted breakpoint
-            // notice that breakpoints are already ordered,
-            // so we search from the beginning
-            for (auto i = breakpoints_.size() - 1; i >= 1; i--) {
-                auto id = breakpoints_[i]->id;
-                if (id == *current_breakpoint_id_) {
-                    // find it
-                    target_index = i - 1;
-                    break;
-                }
-            }
-        }
-    } else {
-        // just return the last one
-        target_index = breakpoints_.size() - 1;
+    // breakpoints are already ordered and everything from the current one on has been marked, no
+    // matter whether the current one is inserted or not
+    uint64_t target_index = 0;
+    while (target_index < breakpoints_.size() && !breakpoints_[target_index]->evaluated) {
+        target_index++;
     }
 
-    if (!target_index && target_index >= breakpoints_.size()) {
-        current_breakpoint_id_ = std::nullopt;
-        return {};
+    if (target_index > 0) {
+        target_index--;
+    } else {
+        // we have reached the first one of the current cycle. call reverse
+        auto handles = clock_handles_;
+        auto res = namespaces_.default_rtl()->reverse_last_posedge(handles);
+        if (res) {
+            // time reversed
+            for (auto &bp : breakpoints_) bp->evaluated = false;
+            target_index = breakpoints_.size() - 1;
+        }
+        // otherwise we can't revert the time. use the current timestamp and just return the first
+        // one
     }
-    result.emplace_back(breakpoints_[*target_index].get());
+
+    result.emplace_back(breakpoints_[target_index].get());
     // if it's not single thread mode
     if (!single_thread_mode_) {
-        scan_breakpoints(*target_index, false, result);
+        scan_breakpoints(target_index, false, result);
     }
     // use the last one as the breakpoint id
     current_breakpoint_id_ = result.back()->id;
@@ -315,16 +297,18 @@ void Scheduler::set_evaluation_mode(EvaluationMode mode) {
 
 void Scheduler::mark_passed_breakpoints() {
     // the new mode has to pick up from where we are in the current cycle: when going forward,
-    // everything up to the current breakpoint has been passed already
+    // everything up to the current breakpoint has been passed already, when going backward,
+    // everything from it on
     std::lock_guard guard(breakpoint_lock_);
-    if (!current_breakpoint_id_ || evaluation_mode_ != EvaluationMode::BreakPointOnly) return;
+    if (!current_breakpoint_id_ || !breakpoint_only()) return;
     auto current = bp_ordering_table_.find(*current_breakpoint_id_);
     if (current == bp_ordering_table_.end()) return;
     for (auto &bp : breakpoints_) {
         auto order = bp_ordering_table_.find(bp->id);
-        if (order != bp_ordering_table_.end() && order->second <= current->second) {
-            bp->evaluated = true;
-        }
+        if (order == bp_ordering_table_.end()) continue;
+        bp->evaluated = evaluation_mode_ == EvaluationMode::BreakPointOnly
+                            ? order->second <= current->second
+                            : order->second >= current->second;
     }
 }
 
-- 
2.43.0


From d57ef13ec640166cdf8e447e08d251c33b07d6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:46 +0000
Subject: [PATCH 16/56] fix: don't loop forever when there is nothing left to
 go back to

If the simulator can't rewind, reverse continue and step back offer the first breakpoint over
and over. When that one isn't hit, eval never returned.
---
 src/debug.cc     | 3 +++
 src/scheduler.cc | 7 +++++--
 src/scheduler.hh | 3 +++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index d56e5c2..7843f21 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -143,6 +143,9 @@ void Debugger::eval() {
             send_monitor_values(MonitorRequest::MonitorType::breakpoint);
             // then pause the execution
             lock_.wait();
+        } else if (scheduler_->beginning_reached()) {
+            // nothing to stop at, and the scheduler can only offer the same breakpoints again
+            break;
         }
     }
 
diff --git a/src/scheduler.cc b/src/scheduler.cc
index d9fb381..14b24d2 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -31,6 +31,7 @@ Scheduler::Scheduler(DebuggerNamespaceManager &namespaces, SymbolTableProvider *
 }
 
 std::vector<DebugBreakPoint *> Scheduler::next_breakpoints() {
+    beginning_reached_ = false;
     switch (evaluation_mode_) {
         case EvaluationMode::BreakPointOnly: {
             return next_normal_breakpoints();
@@ -145,6 +146,7 @@ std::vector<DebugBreakPoint *> Scheduler::next_step_back_breakpoints() {
             } else {
                 // fail to reverse time, use the first one
                 next_breakpoint_id = bp_ordering_[0];
+                beginning_reached_ = true;
             }
         }
     }
@@ -181,9 +183,10 @@ std::vector<DebugBreakPoint *> Scheduler::next_reverse_breakpoints() {
             // time reversed
             for (auto &bp : breakpoints_) bp->evaluated = false;
             target_index = breakpoints_.size() - 1;
+        } else {
+            // can't revert the time. use the current timestamp and just return the first one
+            beginning_reached_ = true;
         }
-        // otherwise we can't revert the time. use the current timestamp and just return the first
-        // one
     }
 
     result.emplace_back(breakpoints_[target_index].get());
diff --git a/src/scheduler.hh b/src/scheduler.hh
index ca24fc5..54ab837 100644
--- a/src/scheduler.hh
+++ b/src/scheduler.hh
@@ -80,6 +80,8 @@ public:
 
     // breakpoint mode
     bool breakpoint_only() const;
+    // true if the last breakpoints are the first ones again since we can't go back any further
+    [[nodiscard]] bool beginning_reached() const { return beginning_reached_; }
 
     [[nodiscard]] const std::vector<vpiHandle> &clock_handles() const { return clock_handles_; }
 
@@ -88,6 +90,7 @@ private:
     std::optional<uint32_t> current_breakpoint_id_;
 
     EvaluationMode evaluation_mode_ = EvaluationMode::BreakPointOnly;
+    bool beginning_reached_ = false;
 
     std::vector<std::unique_ptr<DebugBreakPoint>> breakpoints_;
     std::unordered_set<uint32_t> inserted_breakpoints_;
-- 
2.43.0


From 7629767506b24479f3388fdb0a1ece2e082938a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:31 +0000
Subject: [PATCH 17/56] fix: breakpoints and data breakpoints with the same ID
 affect each other

---
 src/scheduler.cc | 103 +++++++++++++++++------------------------------
 src/scheduler.hh |   1 -
 2 files changed, 36 insertions(+), 68 deletions(-)

diff --git a/src/scheduler.cc b/src/scheduler.cc
index 14b24d2..f189413 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -244,35 +244,27 @@ std::vector<DebugBreakPoint *> Scheduler::create_next_breakpoints(
 std::unique_ptr<DebugBreakPoint> Scheduler::remove_breakpoint(uint64_t bp_id,
                                                               DebugBreakPoint::Type type) {
     // notice that removal doesn't need reordering
-    for (auto pos = breakpoints_.begin(); pos != breakpoints_.end(); pos++) {
-        if ((*pos)->id == bp_id) {
-            // erase the type first. if the remaining type is 0, then we completely erase the
-            // breakpoint
-            auto t = static_cast<uint32_t>((*pos)->type);
-            t &= ~(static_cast<uint32_t>(type));
-            if (t == 0) {
-                // remove it before after transfer the ownership
-                std::unique_ptr<DebugBreakPoint> res = std::move(*pos);
-                breakpoints_.erase(pos);
-                inserted_breakpoints_.erase(bp_id);
-                return res;
-            } else {
-                (*pos)->type = static_cast<DebugBreakPoint::Type>(t);
-            }
-            break;
+    // breakpoints of different types can share the same ID, and there is one for each namespace
+    std::unique_ptr<DebugBreakPoint> res;
+    for (auto pos = breakpoints_.begin(); pos != breakpoints_.end();) {
+        if ((*pos)->id == bp_id && (*pos)->type == type) {
+            // remove it after transfer the ownership
+            res = std::move(*pos);
+            pos = breakpoints_.erase(pos);
+        } else {
+            pos++;
         }
     }
-    return nullptr;
+    return res;
 }
 
 void Scheduler::remove_assert_breakpoints() {
-    auto ids =
-        std::unordered_set<uint32_t>(inserted_breakpoints_.begin(), inserted_breakpoints_.end());
+    std::unordered_set<uint32_t> ids;
+    for (auto const &bp : breakpoints_) {
+        if (bp->type == DebugBreakPoint::Type::assert && bp->evaluated) ids.emplace(bp->id);
+    }
     for (auto bp_id : ids) {
-        auto *bp = get_breakpoint(bp_id);
-        if (bp && bp->has_type_flag(DebugBreakPoint::Type::assert) && bp->evaluated) {
-            remove_breakpoint(bp_id, DebugBreakPoint::Type::assert);
-        }
+        remove_breakpoint(bp_id, DebugBreakPoint::Type::assert);
     }
 }
 
@@ -316,7 +308,6 @@ void Scheduler::mark_passed_breakpoints() {
 }
 
 void Scheduler::clear() {
-    inserted_breakpoints_.clear();
     breakpoints_.clear();
 }
 
@@ -388,7 +379,6 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
             return holder.get();
         } else {
             auto &ptr = breakpoints_.emplace_back(std::move(bp));
-            inserted_breakpoints_.emplace(db_bp.id);
             log_info(
                 fmt::format("Breakpoint inserted into {0}:{1}", db_bp.filename, db_bp.line_num));
             return ptr.get();
@@ -401,37 +391,30 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
 
     switch (bp_type) {
         case DebugBreakPoint::Type::normal: {
-            if (inserted_breakpoints_.find(db_bp.id) == inserted_breakpoints_.end()) {
-                DebugBreakPoint *p = nullptr;
-                for (auto *ns : namespaces) {
-                    p = insert_bp(ns);
-                }
-                // Only need to return one
-                return p;
-            } else {
-                // update breakpoint entry
-                for (auto &b : breakpoints_) {
-                    if (db_bp.id == b->id) {
-                        b->expr = std::make_unique<DebugExpression>(cond);
-                        auto *ns = namespaces_[b->ns_id];
-                        auto *rtl = ns->rtl.get();
-                        util::validate_expr(rtl, db_, b->expr.get(), db_bp.id, *db_bp.instance_id);
-                        if (!b->expr->correct()) [[unlikely]] {
-                            log_error("Unable to validate breakpoint expression: " + cond);
-                        }
-                        // need to update the bp type flag
-                        b->type = static_cast<DebugBreakPoint::Type>(static_cast<int>(b->type) |
-                                                                     static_cast<int>(bp_type));
-                        return b.get();
-                    }
+            DebugBreakPoint *p = nullptr;
+            // update breakpoint entries if it has been inserted already
+            for (auto &b : breakpoints_) {
+                if (db_bp.id != b->id || b->type != bp_type) continue;
+                b->expr = std::make_unique<DebugExpression>(cond);
+                auto *ns = namespaces_[b->ns_id];
+                auto *rtl = ns->rtl.get();
+                util::validate_expr(rtl, db_, b->expr.get(), db_bp.id, *db_bp.instance_id);
+                if (!b->expr->correct()) [[unlikely]] {
+                    log_error("Unable to validate breakpoint expression: " + cond);
                 }
-                return nullptr;
+                p = b.get();
             }
+            if (p) return p;
+            for (auto *ns : namespaces) {
+                p = insert_bp(ns);
+            }
+            // Only need to return one
+            return p;
         }
         case DebugBreakPoint::Type::data: {
             // we skip insertion if everything matches
             for (auto const &b : breakpoints_) {
-                if (b->id == db_bp.id && b->has_type_flag(DebugBreakPoint::Type::data)) {
+                if (b->id == db_bp.id && b->type == bp_type) {
                     // check if it's data breakpoint as well
                     if (b->target_rtl_var_name == target_var && b->expr->expression() == cond) {
                         // no need to insert
@@ -483,26 +466,12 @@ DebugBreakPoint *Scheduler::add_assert_breakpoint(hgdb::DebuggerNamespace *ns,
 
 void Scheduler::clear_data_breakpoints() {
     std::lock_guard guard(breakpoint_lock_);
-    // if it has both data breakpoints and normal breakpoints, clear the flag
-    // else remove this breakpoint
     std::unordered_set<uint32_t> bps;
-    for (auto &bp : breakpoints_) {
-        if (bp->has_type_flag(DebugBreakPoint::Type::data)) {
-            if (bp->has_type_flag(DebugBreakPoint::Type::normal)) {
-                bp->type = DebugBreakPoint::Type::normal;
-            } else {
-                // remove this breakpoint
-                bps.emplace(bp->id);
-            }
-        }
+    for (auto const &bp : breakpoints_) {
+        if (bp->type == DebugBreakPoint::Type::data) bps.emplace(bp->id);
     }
     for (auto id : bps) {
-        auto pos = std::find_if(breakpoints_.begin(), breakpoints_.end(),
-                                [id](auto const &bp) { return bp->id == id; });
-        if (pos != breakpoints_.end()) {
-            breakpoints_.erase(pos);
-            inserted_breakpoints_.erase(id);
-        }
+        remove_breakpoint(id, DebugBreakPoint::Type::data);
     }
 }
 
diff --git a/src/scheduler.hh b/src/scheduler.hh
index 54ab837..09ab6a2 100644
--- a/src/scheduler.hh
+++ b/src/scheduler.hh
@@ -93,7 +93,6 @@ private:
     bool beginning_reached_ = false;
 
     std::vector<std::unique_ptr<DebugBreakPoint>> breakpoints_;
-    std::unordered_set<uint32_t> inserted_breakpoints_;
     // look up table for ordering of breakpoints
     std::unordered_map<uint32_t, uint64_t> bp_ordering_table_;
     std::vector<uint32_t> bp_ordering_;
-- 
2.43.0


From 18a13ba2124d7f3428a4058adc6eb20d3d7742cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:27 +0000
Subject: [PATCH 18/56] fix: conditions that contain || are combined without
 brackets

---
 src/db.cc        | 4 ++--
 src/debug.cc     | 4 ++--
 src/scheduler.cc | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index b44e6c7..ac1007d 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -441,7 +441,7 @@ struct ScopeEntry {
                 if (cond.empty()) {
                     cond = p->condition;
                 } else {
-                    cond.append(" && ").append(p->condition);
+                    cond = fmt::format("({0}) && ({1})", cond, p->condition);
                 }
             }
 
@@ -1759,7 +1759,7 @@ std::string merge_condition(const std::string &cond1, const std::string &cond2)
     } else if (cond1.empty() && !cond2.empty()) {
         return cond2;
     } else {
-        return fmt::format("{0} && {1}", cond1, cond2);
+        return fmt::format("({0}) && ({1})", cond1, cond2);
     }
 }
 
diff --git a/src/debug.cc b/src/debug.cc
index 7843f21..5ac6666 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -1021,11 +1021,11 @@ void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t
                 std::string bp_condition;
                 if (req.condition().empty())
                     bp_condition = data_condition;
-                else if (bp_condition.empty())
+                else if (data_condition.empty())
                     bp_condition = req.condition();
                 else
                     // merge these two
-                    bp_condition = fmt::format("{0} && {1}", req.condition(), data_condition);
+                    bp_condition = fmt::format("({0}) && ({1})", req.condition(), data_condition);
                 auto *bp =
                     scheduler_->add_data_breakpoint(var_name, bp_condition, *bp_opt, dry_run);
                 if (!bp) {
diff --git a/src/scheduler.cc b/src/scheduler.cc
index f189413..69d1148 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -343,7 +343,7 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
     std::string cond = "1";
     if (!db_bp.condition.empty()) cond = db_bp.condition;
     if (!bp_info.condition.empty()) {
-        cond.append(" && " + bp_info.condition);
+        cond = fmt::format("({0}) && ({1})", cond, bp_info.condition);
     }
 
     auto insert_bp = [bp_type, this, &db_bp, cond,
-- 
2.43.0


From 954bee204b7b02b60f380891debdc4fafcf62160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:25 +0000
Subject: [PATCH 19/56] fix: breakpoints that cannot be inserted are
 acknowledged or half inserted

---
 src/debug.cc     | 18 ++++++++++++++----
 src/debug.hh     |  2 +-
 src/scheduler.cc | 13 ++++++++-----
 3 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 5ac6666..17faf94 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -563,11 +563,16 @@ void Debugger::handle_breakpoint(const BreakPointRequest &req, uint64_t conn_id)
             return;
         }
 
+        bool inserted = false;
         for (auto const &bp : bps) {
-            add_breakpoint(bp_info, bp);
+            if (add_breakpoint(bp_info, bp)) inserted = true;
         }
 
         scheduler_->reorder_breakpoints();
+        if (!inserted) {
+            send_error(req, "Invalid breakpoint condition", conn_id);
+            return;
+        }
     } else {
         // remove
         auto bps = db_->get_breakpoints(bp_info.filename, bp_info.line_num, bp_info.column_num);
@@ -596,8 +601,12 @@ void Debugger::handle_breakpoint_id(const BreakPointIDRequest &req, uint64_t con
             send_message(error_response.str(log_enabled_), conn_id);
             return;
         }
-        add_breakpoint(bp_info, *bp);
+        auto inserted = add_breakpoint(bp_info, *bp);
         scheduler_->reorder_breakpoints();
+        if (!inserted) {
+            send_error(req, "Invalid breakpoint condition", conn_id);
+            return;
+        }
     } else {
         scheduler_->remove_breakpoint(bp_info, DebugBreakPoint::Type::normal);
     }
@@ -1368,9 +1377,10 @@ void Debugger::eval_breakpoint(const std::vector<DebugBreakPoint *> &bps, std::v
     }
 }
 
-void Debugger::add_breakpoint(const BreakPoint &bp_info, const BreakPoint &db_bp) {
-    scheduler_->add_breakpoint(bp_info, db_bp);
+bool Debugger::add_breakpoint(const BreakPoint &bp_info, const BreakPoint &db_bp) {
+    if (!scheduler_->add_breakpoint(bp_info, db_bp)) return false;
     process_delayed_breakpoint(db_bp.id);
+    return true;
 }
 
 void Debugger::start_breakpoint_evaluation() {
diff --git a/src/debug.hh b/src/debug.hh
index fdf35dd..d0b300f 100644
--- a/src/debug.hh
+++ b/src/debug.hh
@@ -158,7 +158,7 @@ private:
     void eval_breakpoint(const std::vector<DebugBreakPoint *> &bps, std::vector<bool> &result,
                          uint64_t start, uint64_t end);
     std::vector<bool> eval_breakpoints(const std::vector<DebugBreakPoint *> &bps);
-    void add_breakpoint(const BreakPoint &bp_info, const BreakPoint &db_bp);
+    bool add_breakpoint(const BreakPoint &bp_info, const BreakPoint &db_bp);
     void start_breakpoint_evaluation();
 
     // cached wrapper
diff --git a/src/scheduler.cc b/src/scheduler.cc
index 69d1148..03c7ec6 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -395,18 +395,20 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
             // update breakpoint entries if it has been inserted already
             for (auto &b : breakpoints_) {
                 if (db_bp.id != b->id || b->type != bp_type) continue;
-                b->expr = std::make_unique<DebugExpression>(cond);
+                auto expr = std::make_unique<DebugExpression>(cond);
                 auto *ns = namespaces_[b->ns_id];
                 auto *rtl = ns->rtl.get();
-                util::validate_expr(rtl, db_, b->expr.get(), db_bp.id, *db_bp.instance_id);
-                if (!b->expr->correct()) [[unlikely]] {
+                util::validate_expr(rtl, db_, expr.get(), db_bp.id, *db_bp.instance_id);
+                if (!expr->correct()) [[unlikely]] {
                     log_error("Unable to validate breakpoint expression: " + cond);
+                    return nullptr;
                 }
+                b->expr = std::move(expr);
                 p = b.get();
             }
             if (p) return p;
             for (auto *ns : namespaces) {
-                p = insert_bp(ns);
+                if (auto *bp = insert_bp(ns)) p = bp;
             }
             // Only need to return one
             return p;
@@ -424,7 +426,6 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
             }
             DebugBreakPoint *data_bp = nullptr;
             for (auto *ns : namespaces) {
-                data_bp = insert_bp(ns);
                 auto *rtl = ns->rtl.get();
                 auto expr = DebugExpression(target_var);
                 util::validate_expr(rtl, db_, &expr, db_bp.id, *db_bp.instance_id);
@@ -433,6 +434,8 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
                     log_error("Unable to validate variable in data breakpoint: " + target_var);
                     return nullptr;
                 }
+                data_bp = insert_bp(ns);
+                if (!data_bp) return nullptr;
                 data_bp->full_rtl_handle = handles.begin()->second;
                 data_bp->full_rtl_name = rtl->get_full_name(data_bp->full_rtl_handle);
                 data_bp->target_rtl_var_name = target_var;
-- 
2.43.0


From ac4736156621d0813e1255f46aecdbdf8d0f4956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:03 +0000
Subject: [PATCH 20/56] fix: conditions with unbalanced brackets are combined
 with the enable condition

---
 src/debug.cc     | 4 ++++
 src/scheduler.cc | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/debug.cc b/src/debug.cc
index 17faf94..33a50a3 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -1014,6 +1014,10 @@ void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t
                 send_error(req, "Invalid data breakpoint", conn_id);
                 return;
             }
+            if (!req.condition().empty() && !DebugExpression(req.condition()).correct()) {
+                send_error(req, "Invalid data breakpoint expression/data_condition", conn_id);
+                return;
+            }
             std::unordered_set<std::string> var_names;
             for (auto const &iter : bp_ids) {
                 auto full_name = fmt::format("{0}.{1}", *inst_name, std::get<1>(iter));
diff --git a/src/scheduler.cc b/src/scheduler.cc
index 03c7ec6..a57f99d 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -343,6 +343,11 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
     std::string cond = "1";
     if (!db_bp.condition.empty()) cond = db_bp.condition;
     if (!bp_info.condition.empty()) {
+        // has to be an expression by itself
+        if (!DebugExpression(bp_info.condition).correct()) {
+            log_error("Invalid breakpoint expression: " + bp_info.condition);
+            return nullptr;
+        }
         cond = fmt::format("({0}) && ({1})", cond, bp_info.condition);
     }
 
-- 
2.43.0


From ce9ceb7794894753b0e1594a59576c8a1f9d0b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:56 +0000
Subject: [PATCH 21/56] fix: variables whose name starts with the instance name
 cannot be resolved

---
 src/symbol.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/symbol.cc b/src/symbol.cc
index 0a6d542..790b090 100644
--- a/src/symbol.cc
+++ b/src/symbol.cc
@@ -66,7 +66,7 @@ std::optional<std::string> SymbolTableProvider::resolve_scoped_name_breakpoint(
         auto const &[ctx, var] = *it;
         if (rtl_equivalent(ctx.name, scoped_name) || var.value == scoped_name) {
             if (var.is_rtl) {
-                if (var.value.starts_with(*inst_name)) {
+                if (var.value.starts_with(*inst_name + ".")) {
                     return var.value;
                 } else {
                     return fmt::format("{0}.{1}", *inst_name, var.value);
@@ -87,7 +87,7 @@ std::optional<std::string> SymbolTableProvider::resolve_scoped_name_instance(
     for (auto const &[gen, var] : vars) {
         if (rtl_equivalent(gen.name, scoped_name) || var.value == scoped_name) {
             if (var.is_rtl) {
-                if (var.value.starts_with(*inst_name)) {
+                if (var.value.starts_with(*inst_name + ".")) {
                     return var.value;
                 } else {
                     return fmt::format("{0}.{1}", *inst_name, var.value);
-- 
2.43.0


From 0fbab4fc9690cc89f48118a3a0ac207999e44465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:04 +0000
Subject: [PATCH 22/56] fix: data breakpoints that watch the same signal, or in
 one of several namespaces, are never hit

---
 src/debug.cc     | 14 ++++++++------
 src/scheduler.cc | 32 +++++++++++++++++++++++---------
 src/scheduler.hh |  6 +++---
 3 files changed, 34 insertions(+), 18 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 33a50a3..fec7069 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -1040,7 +1040,7 @@ void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t
                     // merge these two
                     bp_condition = fmt::format("({0}) && ({1})", req.condition(), data_condition);
                 auto *bp =
-                    scheduler_->add_data_breakpoint(var_name, bp_condition, *bp_opt, dry_run);
+                    scheduler_->add_data_breakpoint(ns, var_name, bp_condition, *bp_opt, dry_run);
                 if (!bp) {
                     send_error(req, "Invalid data breakpoint expression/data_condition", conn_id);
                     return;
@@ -1060,7 +1060,9 @@ void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t
                 if (!dry_run) {
                     auto watched = monitor->is_monitored(bp->full_rtl_handle,
                                                          MonitorRequest::MonitorType::data);
-                    if (!watched) {
+                    if (watched) {
+                        bp->watch_id = *watched;
+                    } else {
                         bp->watch_id = monitor->add_monitor_variable(
                             bp->full_rtl_name, MonitorRequest::MonitorType::data, value_ptr);
                         log_info(fmt::format("Added watch variable with ID {0}", bp->watch_id));
@@ -1077,12 +1079,12 @@ void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t
             break;
         }
         case DataBreakpointRequest::Action::remove: {
-            auto watch_id = scheduler_->remove_data_breakpoint(req.breakpoint_id());
+            auto watch_ids = scheduler_->remove_data_breakpoint(ns, req.breakpoint_id());
             // remove from monitor as well
-            if (watch_id) {
+            for (auto watch_id : watch_ids) {
                 auto &monitor = ns->monitor;
-                monitor->remove_monitor_variable(*watch_id);
-                log_info(fmt::format("Remove watch variable with ID {0}", *watch_id));
+                monitor->remove_monitor_variable(watch_id);
+                log_info(fmt::format("Remove watch variable with ID {0}", watch_id));
             }
             // tell client we're good
             auto success_resp = GenericResponse(status_code::success, req);
diff --git a/src/scheduler.cc b/src/scheduler.cc
index a57f99d..5692c90 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -421,7 +421,8 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
         case DebugBreakPoint::Type::data: {
             // we skip insertion if everything matches
             for (auto const &b : breakpoints_) {
-                if (b->id == db_bp.id && b->type == bp_type) {
+                if (b->id == db_bp.id && b->type == bp_type &&
+                    (!target_ns || b->ns_id == target_ns->id)) {
                     // check if it's data breakpoint as well
                     if (b->target_rtl_var_name == target_var && b->expr->expression() == cond) {
                         // no need to insert
@@ -431,6 +432,7 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
             }
             DebugBreakPoint *data_bp = nullptr;
             for (auto *ns : namespaces) {
+                if (target_ns && ns != target_ns) continue;
                 auto *rtl = ns->rtl.get();
                 auto expr = DebugExpression(target_var);
                 util::validate_expr(rtl, db_, &expr, db_bp.id, *db_bp.instance_id);
@@ -456,14 +458,15 @@ DebugBreakPoint *Scheduler::add_breakpoint(const BreakPoint &bp_info, const Brea
     return nullptr;
 }
 
-DebugBreakPoint *Scheduler::add_data_breakpoint(const std::string &full_name,
+DebugBreakPoint *Scheduler::add_data_breakpoint(DebuggerNamespace *ns,
+                                                const std::string &full_name,
                                                 const std::string &expression,
                                                 const BreakPoint &db_bp, bool dry_run) {
     // we use the same add breakpoint function with different flags on
     BreakPoint bp;
     bp.condition = expression;
     // we allow duplicated breakpoints to be inserted here
-    auto *data_bp = add_breakpoint(bp, db_bp, DebugBreakPoint::Type::data, full_name, dry_run);
+    auto *data_bp = add_breakpoint(bp, db_bp, DebugBreakPoint::Type::data, full_name, dry_run, ns);
     return data_bp;
 }
 
@@ -500,14 +503,25 @@ void Scheduler::remove_breakpoint(const BreakPoint &bp, DebugBreakPoint::Type ty
     remove_breakpoint(bp.id, type);
 }
 
-std::optional<uint64_t> Scheduler::remove_data_breakpoint(uint64_t bp_id) {
+std::vector<uint64_t> Scheduler::remove_data_breakpoint(DebuggerNamespace *ns, uint64_t bp_id) {
     std::lock_guard guard(breakpoint_lock_);
-    auto ptr = remove_breakpoint(bp_id, DebugBreakPoint::Type::data);
-    if (ptr) {
-        return ptr->watch_id;
-    } else {
-        return std::nullopt;
+    std::unordered_set<uint64_t> watch_ids;
+    for (auto pos = breakpoints_.begin(); pos != breakpoints_.end();) {
+        auto const &bp = *pos;
+        if (bp->id == bp_id && bp->type == DebugBreakPoint::Type::data && bp->ns_id == ns->id) {
+            watch_ids.emplace(bp->watch_id);
+            pos = breakpoints_.erase(pos);
+        } else {
+            pos++;
+        }
+    }
+    // the same variable can be watched by other data breakpoints
+    for (auto const &bp : breakpoints_) {
+        if (bp->type == DebugBreakPoint::Type::data && bp->ns_id == ns->id) {
+            watch_ids.erase(bp->watch_id);
+        }
     }
+    return {watch_ids.begin(), watch_ids.end()};
 }
 
 std::vector<const DebugBreakPoint *> Scheduler::get_current_breakpoints() {
diff --git a/src/scheduler.hh b/src/scheduler.hh
index 09ab6a2..59f0880 100644
--- a/src/scheduler.hh
+++ b/src/scheduler.hh
@@ -70,13 +70,13 @@ public:
     void reorder_breakpoints();
     void remove_breakpoint(const BreakPoint &bp, DebugBreakPoint::Type type);
     std::vector<const DebugBreakPoint *> get_current_breakpoints();
-    DebugBreakPoint *add_data_breakpoint(const std::string &full_name,
+    DebugBreakPoint *add_data_breakpoint(DebuggerNamespace *ns, const std::string &full_name,
                                          const std::string &expression, const BreakPoint &db_bp,
                                          bool dry_run);
     DebugBreakPoint *add_assert_breakpoint(DebuggerNamespace *ns, const BreakPoint &db_bp);
     void clear_data_breakpoints();
-    // also return associated monitor id, if any
-    std::optional<uint64_t> remove_data_breakpoint(uint64_t bp_id);
+    // also return associated monitor ids that are not used any more
+    std::vector<uint64_t> remove_data_breakpoint(DebuggerNamespace *ns, uint64_t bp_id);
 
     // breakpoint mode
     bool breakpoint_only() const;
-- 
2.43.0


From e038dd252f7581b19981cf4cca3a8010d763f02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:33 +0000
Subject: [PATCH 23/56] fix: malformed requests abort the simulator or are
 taken for other ones

---
 src/proto.cc | 53 ++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/src/proto.cc b/src/proto.cc
index 1ca4c3e..644f081 100644
--- a/src/proto.cc
+++ b/src/proto.cc
@@ -197,7 +197,8 @@ static std::optional<T> get_member(K &document, const char *member_name, std::st
             error = fmt::format("Invalid type for {0}", member_name);
         }
     } else if constexpr (std::is_integral<T>::value && !std::is_same<T, bool>::value) {
-        if (document[member_name].IsNumber()) {
+        // need to be representable in the target type
+        if (document[member_name].template Is<T>()) {
             return document[member_name].template Get<T>();
         } else if (check_type) {
             error = fmt::format("Invalid type for {0}", member_name);
@@ -690,19 +691,27 @@ std::unique_ptr<Request> Request::parse_request(const std::string &str) {
     Document document;
     document.Parse(str.c_str());
 
-    if (document.HasParseError()) return std::make_unique<ErrorRequest>("Invalid json object");
+    if (document.HasParseError() || !document.IsObject())
+        return std::make_unique<ErrorRequest>("Invalid json object");
 
     std::string error;
+    // get token
+    auto token = get_member<std::string>(document, "token", error, false, true);
+    auto make_error = [&token](const std::string &reason) {
+        auto req = std::make_unique<ErrorRequest>(reason);
+        if (token) req->token_ = *token;
+        return req;
+    };
+
     auto request = get_member<bool>(document, "request", error);
-    if (!request || !(*request)) return std::make_unique<ErrorRequest>(error);
+    if (!request) return make_error(error);
+    if (!(*request)) return make_error("Not a request");
 
     auto type = get_member<std::string>(document, "type", error);
-    if (!type) return std::make_unique<ErrorRequest>(error);
+    if (!type) return make_error(error);
     // get payload
     auto payload = check_member(document, "payload", error);
-    if (!payload) return std::make_unique<ErrorRequest>(error);
-    // get token
-    auto token = get_member<std::string>(document, "token", error, false, true);
+    if (!payload) return make_error(error);
 
     auto const &type_str = *type;
     std::unique_ptr<Request> result;
@@ -750,7 +759,7 @@ std::unique_ptr<Request> Request::parse_request(const std::string &str) {
 }
 
 bool check_json(rapidjson::Document &document, status_code &status, std::string &error_reason) {
-    if (document.HasParseError()) {
+    if (document.HasParseError() || !document.IsObject()) {
         status = status_code::error;
         error_reason = "Invalid JSON file";
         return false;
@@ -781,17 +790,22 @@ void BreakPointRequest::parse_payload(const std::string &payload) {
         bp_action_ = action::remove;
     } else {
         status_code_ = status_code::error;
+        error_reason_ = "Unknown action " + action_str;
         return;
     }
 
     bool line_num_required = bp_action_ == action::add;
-    auto line_num = get_member<uint64_t>(document, "line_num", error_reason_, line_num_required);
-    if (line_num_required || line_num)
+    auto line_num = get_member<uint32_t>(document, "line_num", error_reason_, line_num_required);
+    if (!line_num && (line_num_required || document.HasMember("line_num"))) {
+        status_code_ = status_code::error;
+        return;
+    }
+    if (line_num)
         bp_.line_num = *line_num;
     else
         bp_.line_num = 0;
 
-    auto column_num = get_member<uint64_t>(document, "column_num", error_reason_, false);
+    auto column_num = get_member<uint32_t>(document, "column_num", error_reason_, false);
     auto condition = get_member<std::string>(document, "condition", error_reason_, false);
     if (column_num)
         bp_.column_num = *column_num;
@@ -806,7 +820,7 @@ void BreakPointIDRequest::parse_payload(const std::string &payload) {
     document.Parse(payload.c_str());
     if (!check_json(document, status_code_, error_reason_)) return;
 
-    auto id = get_member<uint64_t>(document, "id", error_reason_);
+    auto id = get_member<uint32_t>(document, "id", error_reason_);
     auto bp_act = get_member<std::string>(document, "action", error_reason_);
     if (!id || !bp_act) {
         status_code_ = status_code::error;
@@ -822,6 +836,7 @@ void BreakPointIDRequest::parse_payload(const std::string &payload) {
         bp_action_ = action::remove;
     } else {
         status_code_ = status_code::error;
+        error_reason_ = "Unknown action " + action_str;
         return;
     }
 
@@ -868,8 +883,12 @@ void BreakPointLocationRequest::parse_payload(const std::string &payload) {
     }
     filename_ = *filename;
 
-    line_num_ = get_member<uint64_t>(document, "line_num", error_reason_);
-    column_num_ = get_member<uint64_t>(document, "column_num", error_reason_);
+    line_num_ = get_member<uint32_t>(document, "line_num", error_reason_);
+    column_num_ = get_member<uint32_t>(document, "column_num", error_reason_);
+    if ((!line_num_ && document.HasMember("line_num")) ||
+        (!column_num_ && document.HasMember("column_num"))) {
+        status_code_ = status_code::error;
+    }
 }
 
 void CommandRequest::parse_payload(const std::string &payload) {
@@ -1016,6 +1035,7 @@ void MonitorRequest::parse_payload(const std::string &payload) {
         action_type_ = ActionType::remove;
     } else {
         error_reason_ = "Unknown action type " + *action_type;
+        status_code_ = status_code::error;
         return;
     }
 
@@ -1036,6 +1056,7 @@ void MonitorRequest::parse_payload(const std::string &payload) {
             monitor_type_ = MonitorType::changed;
         } else {
             status_code_ = status_code::error;
+            error_reason_ = "Unknown monitor type " + *monitor_type;
             return;
         }
 
@@ -1281,7 +1302,7 @@ void DataBreakpointRequest::parse_payload(const std::string &payload) {
         action_ = Action::clear;
     } else if (action == "remove") {
         action_ = Action::remove;
-        auto bp_id_opt = get_member<uint64_t>(document, "breakpoint-id", error_reason_);
+        auto bp_id_opt = get_member<uint32_t>(document, "breakpoint-id", error_reason_);
         if (!bp_id_opt) {
             status_code_ = status_code::error;
             return;
@@ -1307,7 +1328,7 @@ void DataBreakpointRequest::parse_payload(const std::string &payload) {
             return;
         }
 
-        auto bp_id_opt = get_member<uint64_t>(document, "breakpoint-id", error_reason_);
+        auto bp_id_opt = get_member<uint32_t>(document, "breakpoint-id", error_reason_);
         if (!bp_id_opt) {
             status_code_ = status_code::error;
             return;
-- 
2.43.0


From 4a76eaee77cfd0ff0173ae5e1f619d9fe0b98277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:51 +0000
Subject: [PATCH 24/56] fix: strings with NUL characters are cut off

---
 src/proto.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/proto.cc b/src/proto.cc
index 644f081..f8da7a7 100644
--- a/src/proto.cc
+++ b/src/proto.cc
@@ -192,7 +192,8 @@ static std::optional<T> get_member(K &document, const char *member_name, std::st
     if (!check_member(document, member_name, error, set_error)) return std::nullopt;
     if constexpr (std::is_same<T, std::string>::value) {
         if (document[member_name].IsString()) {
-            return std::string(document[member_name].GetString());
+            return std::string(document[member_name].GetString(),
+                               document[member_name].GetStringLength());
         } else if (check_type) {
             error = fmt::format("Invalid type for {0}", member_name);
         }
@@ -275,7 +276,7 @@ void set_member(K &json_value, A &allocator, const char *name, const T &value) {
     using LocalVarCompareMap =
         std::map<std::string, std::string, BreakPointResponse::LocalVarNameCompare>;
     if constexpr (std::is_same<T, std::string>::value) {
-        rapidjson::Value v(value.c_str(), allocator);
+        rapidjson::Value v(value.c_str(), value.size(), allocator);
         json_value.AddMember(key, v, allocator);
     } else if constexpr (std::is_integral<T>::value) {
         json_value.AddMember(key.Move(), value, allocator);
-- 
2.43.0


From 9183c60365801bf3fe22cbd4382a9f3d92fd2fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:26 +0000
Subject: [PATCH 25/56] fix: requests without a symbol table or for an unknown
 namespace crash the simulator

---
 src/debug.cc | 32 +++++++++++++++++++++++---------
 src/debug.hh |  2 +-
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index fec7069..2109ff6 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -477,6 +477,8 @@ std::optional<std::string> Debugger::resolve_var_name(
     uint32_t ns_id, const std::string &var_name, const std::optional<uint64_t> &instance_id,
     const std::optional<uint64_t> &breakpoint_id) {
     std::optional<std::string> full_name;
+    // scoped names can only be resolved with the db
+    if (!db_ && (breakpoint_id || instance_id)) return std::nullopt;
     if (breakpoint_id) {
         auto bp = *breakpoint_id;
         full_name = db_->resolve_scoped_name_breakpoint(var_name, bp);
@@ -542,7 +544,7 @@ void Debugger::handle_connection(const ConnectionRequest &req, uint64_t conn_id)
 }
 
 void Debugger::handle_breakpoint(const BreakPointRequest &req, uint64_t conn_id) {
-    if (!check_send_db_error(req.type(), conn_id)) return;
+    if (!check_send_db_error(req, conn_id)) return;
 
     // depends on whether it is "add" or "remove"
     auto const &bp_info = req.breakpoint();
@@ -588,7 +590,7 @@ void Debugger::handle_breakpoint(const BreakPointRequest &req, uint64_t conn_id)
 }
 
 void Debugger::handle_breakpoint_id(const BreakPointIDRequest &req, uint64_t conn_id) {
-    if (!check_send_db_error(req.type(), conn_id)) return;
+    if (!check_send_db_error(req, conn_id)) return;
     // depends on whether it is "add" or "remove"
     auto const &bp_info = req.breakpoint();
     if (req.bp_action() == BreakPointRequest::action::add) {
@@ -617,7 +619,7 @@ void Debugger::handle_breakpoint_id(const BreakPointIDRequest &req, uint64_t con
 
 void Debugger::handle_bp_location(const BreakPointLocationRequest &req, uint64_t conn_id) {
     // if db is not connected correctly, abort
-    if (!check_send_db_error(req.type(), conn_id)) return;
+    if (!check_send_db_error(req, conn_id)) return;
 
     auto const &filename = req.filename();
     auto const &line_num = req.line_num();
@@ -641,6 +643,8 @@ void Debugger::handle_bp_location(const BreakPointLocationRequest &req, uint64_t
 }
 
 void Debugger::handle_command(const CommandRequest &req, uint64_t conn_id) {
+    // if db is not connected correctly, there is no scheduler
+    if (!check_send_db_error(req, conn_id)) return;
     status_code status = status_code::success;
     std::string error;
 
@@ -706,6 +710,7 @@ void Debugger::handle_command(const CommandRequest &req, uint64_t conn_id) {
 void Debugger::handle_debug_info(const DebuggerInformationRequest &req, uint64_t conn_id) {
     switch (req.command_type()) {
         case DebuggerInformationRequest::CommandType::breakpoints: {
+            if (!check_send_db_error(req, conn_id)) return;
             auto bps = scheduler_->get_current_breakpoints();
             std::vector<const DebugBreakPoint *> bps_;
             bps_.reserve(bps.size());
@@ -750,6 +755,7 @@ void Debugger::handle_debug_info(const DebuggerInformationRequest &req, uint64_t
             return;
         }
         case DebuggerInformationRequest::CommandType::filename: {
+            if (!check_send_db_error(req, conn_id)) return;
             auto filenames = db_->get_filenames();
             auto resp = DebuggerInformationResponse(filenames);
             req.set_token(resp);
@@ -796,10 +802,9 @@ DebuggerNamespace *get_namespace(std::optional<uint32_t> instance_id,
                                  DebuggerNamespaceManager &namespaces_, SymbolTableProvider *db) {
     DebuggerNamespace *ns = namespaces_.default_namespace();
     if (namespace_id) {
-        if (namespaces_.size() > *namespace_id) {
-            return namespaces_[*namespace_id];
-        }
+        return namespaces_.size() > *namespace_id ? namespaces_[*namespace_id] : nullptr;
     }
+    if (!db) return ns;
     std::optional<std::string> instance_name;
     if (instance_id) {
         instance_name = db->get_instance_name(*instance_id);
@@ -834,6 +839,10 @@ void Debugger::handle_evaluation(const EvaluationRequest &req, uint64_t conn_id)
         auto *ns = get_namespace(req.instance_id(), req.breakpoint_id(), req.namespace_id(),
                                  namespaces_, db_.get());
 
+        if (!ns && req.namespace_id()) {
+            send_error(req, "Unable to determine design namespace", conn_id);
+            return;
+        }
         if (!ns) ns = namespaces_.default_namespace();
 
         // if we don't have any breakpoint id and instance id provided
@@ -898,6 +907,10 @@ void Debugger::handle_monitor(const MonitorRequest &req, uint64_t conn_id) {
         // depends on whether it is an add or remove action
         auto *ns = get_namespace(req.instance_id(), req.breakpoint_id(), req.namespace_id(),
                                  namespaces_, db_.get());
+        if (!ns) {
+            send_error(req, "Unable to determine design namespace", conn_id);
+            return;
+        }
 
         auto &monitor = *ns->monitor;
         if (req.action_type() == MonitorRequest::ActionType::add) {
@@ -966,7 +979,7 @@ void Debugger::handle_set_value(const SetValueRequest &req, uint64_t conn_id) {
             send_message(resp.str(log_enabled_), conn_id);
             return;
         } else {
-            send_error(req, req.error_reason(), conn_id);
+            send_error(req, "Unable to set value", conn_id);
             return;
         }
 
@@ -983,6 +996,7 @@ void Debugger::handle_symbol(const SymbolRequest &, uint64_t) {
 
 // NOLINTNEXTLINE
 void Debugger::handle_data_breakpoint(const DataBreakpointRequest &req, uint64_t conn_id) {
+    if (!check_send_db_error(req, conn_id)) return;
     auto *ns = get_namespace(std::nullopt, req.breakpoint_id(), req.namespace_id(), namespaces_,
                              db_.get());
     if (!ns) {
@@ -1217,10 +1231,10 @@ void Debugger::set_vendor_initial_options() {
     }
 }
 
-bool Debugger::check_send_db_error(RequestType type, uint64_t conn_id) {
+bool Debugger::check_send_db_error(const Request &req, uint64_t conn_id) {
     if (!db_) {
         // need to send error response
-        auto resp = GenericResponse(status_code::error, type,
+        auto resp = GenericResponse(status_code::error, req,
                                     "Database is not initialized or is initialized incorrectly");
         send_message(resp.str(log_enabled_), conn_id);
         return false;
diff --git a/src/debug.hh b/src/debug.hh
index d0b300f..e384664 100644
--- a/src/debug.hh
+++ b/src/debug.hh
@@ -150,7 +150,7 @@ private:
     void set_vendor_initial_options();
 
     // common checker
-    bool check_send_db_error(RequestType type, uint64_t conn_id);
+    bool check_send_db_error(const Request &req, uint64_t conn_id);
 
     // scheduler
     bool should_trigger(DebugBreakPoint *bp);
-- 
2.43.0


From 7690aa37e3f548638fc67f54ed83d877d1d0d583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:13 +0000
Subject: [PATCH 26/56] fix: plus args without a value of their own, ports out
 of range and an empty command line

---
 src/debug.cc | 5 +++--
 src/util.hh  | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 2109ff6..e7f86b2 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -354,7 +354,8 @@ uint16_t Debugger::get_port() {
     if (!port_str) return default_port_num;
     uint16_t value;
     try {
-        value = std::stoul(*port_str);
+        auto port = std::stoul(*port_str);
+        value = port <= std::numeric_limits<uint16_t>::max() ? port : default_port_num;
     } catch (const std::invalid_argument &) {
         value = default_port_num;
     } catch (const std::out_of_range &) {
@@ -369,7 +370,7 @@ std::optional<std::string> Debugger::get_value_plus_arg(const std::string &arg_n
     auto const &args = namespaces_.default_rtl()->get_argv();
     auto const plus_arg = fmt::format("+{0}=", arg_name);
     for (auto const &arg : args) {
-        if (arg.find(plus_arg) != std::string::npos) {
+        if (arg.starts_with(plus_arg)) {
             auto value = arg.substr(plus_arg.size());
             return value;
         }
diff --git a/src/util.hh b/src/util.hh
index 590c11d..5e00270 100644
--- a/src/util.hh
+++ b/src/util.hh
@@ -18,6 +18,7 @@ std::string join(T begin, T end, const std::string &sep) {
     // more efficient way will be using ostream_joiner,
     // but it is still experimental
     auto it = begin;
+    if (it == end) return {};
     stream << *it;
     it++;
     while (it != end) {
-- 
2.43.0


From 2c6c23636cedfc48aa4ba2104b40a1b77174de36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:18 +0000
Subject: [PATCH 27/56] fix: variables delayed by more than one cycle abort the
 simulator

---
 src/monitor.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/monitor.cc b/src/monitor.cc
index 3a188a7..38f851d 100644
--- a/src/monitor.cc
+++ b/src/monitor.cc
@@ -109,7 +109,8 @@ std::vector<std::pair<uint64_t, std::optional<int64_t>>> Monitor::get_watched_va
                 // we assume this will be called every clock cycle
                 auto new_value = rtl_->get_value(watch_var->handle);
                 // we use the old value
-                auto old_value = *watch_var->get_value();
+                // which is not available until the buffer is filled up
+                auto old_value = watch_var->get_value();
                 watch_var->set_value(new_value);
                 result.emplace_back(std::make_pair(watch_id, old_value));
             }
@@ -176,7 +177,7 @@ Monitor::WatchVariableBuffer::WatchVariableBuffer(std::string full_name, vpiHand
     : WatchVariable(WatchType::delay_clock_edge, std::move(full_name), handle), depth_(depth) {}
 
 std::optional<int64_t> Monitor::WatchVariableBuffer::get_value() const {
-    if (values_.size() == depth_) [[likely]] {
+    if (!values_.empty() && values_.size() == depth_) [[likely]] {
         return values_.front();
     } else {
         return std::nullopt;
-- 
2.43.0


From 57551fa0496b40fe4519982da6571f83aabd1deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:28 +0000
Subject: [PATCH 28/56] fix: monitored changes are never reported

---
 src/debug.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/debug.cc b/src/debug.cc
index e7f86b2..a1f9e2d 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -150,6 +150,7 @@ void Debugger::eval() {
     }
 
     send_monitor_values(MonitorRequest::MonitorType::clock_edge);
+    send_monitor_values(MonitorRequest::MonitorType::changed);
 }
 
 [[maybe_unused]] bool Debugger::is_verilator() {
-- 
2.43.0


From da55bca74fdea058535b35cf385b971c409f2cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:08 +0000
Subject: [PATCH 29/56] fix: cached signal values survive going back in time

---
 src/debug.cc     | 10 +++++++++-
 src/debug.hh     |  1 +
 src/scheduler.cc |  5 +++++
 src/scheduler.hh |  2 ++
 4 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/debug.cc b/src/debug.cc
index a1f9e2d..2b405a8 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -126,6 +126,8 @@ void Debugger::eval() {
             perf::PerfCount perf_get_bp("next breakpoints", perf_count_);
             bps = scheduler_->next_breakpoints();
         }
+        // cached values are from another cycle if the time has been reversed
+        if (scheduler_->reversing()) clear_cached_signal_values();
 
         if (bps.empty()) break;
         auto hits = eval_breakpoints(bps);
@@ -160,6 +162,11 @@ void Debugger::eval() {
     return false;
 }
 
+void Debugger::clear_cached_signal_values() {
+    std::lock_guard guard(cached_signal_values_lock_);
+    cached_signal_values_.clear();
+}
+
 std::vector<RTLSimulatorClient *> Debugger::rtl_clients() const {
     std::vector<RTLSimulatorClient *> result;
     result.reserve(namespaces_.size());
@@ -695,6 +702,7 @@ void Debugger::handle_command(const CommandRequest &req, uint64_t conn_id) {
                 error = "Underlying RTL simulator does not support rewind";
                 log_error(error);
             }
+            clear_cached_signal_values();
             lock_.ready();
             break;
         }
@@ -1407,7 +1415,7 @@ bool Debugger::add_breakpoint(const BreakPoint &bp_info, const BreakPoint &db_bp
 
 void Debugger::start_breakpoint_evaluation() {
     scheduler_->start_breakpoint_evaluation();
-    cached_signal_values_.clear();
+    clear_cached_signal_values();
     update_delayed_values();
 }
 
diff --git a/src/debug.hh b/src/debug.hh
index e384664..6c2316b 100644
--- a/src/debug.hh
+++ b/src/debug.hh
@@ -160,6 +160,7 @@ private:
     std::vector<bool> eval_breakpoints(const std::vector<DebugBreakPoint *> &bps);
     bool add_breakpoint(const BreakPoint &bp_info, const BreakPoint &db_bp);
     void start_breakpoint_evaluation();
+    void clear_cached_signal_values();
 
     // cached wrapper
     std::optional<int64_t> get_signal_value(uint32_t ns_id, vpiHandle handle,
diff --git a/src/scheduler.cc b/src/scheduler.cc
index 5692c90..ab47ef5 100644
--- a/src/scheduler.cc
+++ b/src/scheduler.cc
@@ -539,6 +539,11 @@ bool Scheduler::breakpoint_only() const {
            evaluation_mode_ == EvaluationMode::ReverseBreakpointOnly;
 }
 
+bool Scheduler::reversing() const {
+    return evaluation_mode_ == EvaluationMode::StepBack ||
+           evaluation_mode_ == EvaluationMode::ReverseBreakpointOnly;
+}
+
 void Scheduler::log_error(const std::string &msg) { log::log(log::log_level::error, msg); }
 
 void Scheduler::log_info(const std::string &msg) const {
diff --git a/src/scheduler.hh b/src/scheduler.hh
index 59f0880..463293d 100644
--- a/src/scheduler.hh
+++ b/src/scheduler.hh
@@ -80,6 +80,8 @@ public:
 
     // breakpoint mode
     bool breakpoint_only() const;
+    // true if going backward, in which case the time might be reversed
+    bool reversing() const;
     // true if the last breakpoints are the first ones again since we can't go back any further
     [[nodiscard]] bool beginning_reached() const { return beginning_reached_; }
 
-- 
2.43.0


From 24b655750c5a2b2913d1b05027b1e9e0440f0d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:07 +0000
Subject: [PATCH 30/56] fix: path mapping and evaluation errors without a
 symbol table have no reason

---
 src/debug.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 2b405a8..5658182 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -776,7 +776,8 @@ void Debugger::handle_debug_info(const DebuggerInformationRequest &req, uint64_t
 }
 
 void Debugger::handle_path_mapping(const PathMappingRequest &req, uint64_t conn_id) {
-    if (db_ && req.status() == status_code::success) [[likely]] {
+    if (!check_send_db_error(req, conn_id)) return;
+    if (req.status() == status_code::success) [[likely]] {
         db_->set_src_mapping(req.path_mapping());
         auto resp = GenericResponse(status_code::success, req);
         send_message(resp.str(log_enabled_), conn_id);
@@ -837,9 +838,10 @@ DebuggerNamespace *get_namespace(std::optional<uint32_t> instance_id,
 
 // NOLINTNEXTLINE
 void Debugger::handle_evaluation(const EvaluationRequest &req, uint64_t conn_id) {
+    if (!check_send_db_error(req, conn_id)) return;
     std::string error_reason = req.error_reason();
 
-    if (db_ && req.status() == status_code::success) [[likely]] {
+    if (req.status() == status_code::success) [[likely]] {
         DebugExpression expr(req.expression());
         if (!expr.correct()) {
             error_reason = "Invalid expression";
-- 
2.43.0


From f9cc5d61f5e0ba9171defb798f4a3a4d43cc7780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:41 +0000
Subject: [PATCH 31/56] fix: symbol tables with unknown variables and empty
 instance names are read out of bounds

---
 src/db.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/db.cc b/src/db.cc
index ac1007d..3b480a1 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -703,7 +703,9 @@ std::shared_ptr<AssignEntry> parse_assign(const rapidjson::Value &value, JSONPar
         auto const &indices = value["indices"];
         for (auto const &index : indices.GetArray()) {
             AssignEntry::IndexInfo idx;
-            idx.var = parse_var(index["var"], info)[0];
+            auto vars = parse_var(index["var"], info);
+            if (vars.empty()) continue;  // the error is reported by parse_var
+            idx.var = vars[0];
             idx.min = index["min"].GetUint();
             idx.max = index["max"].GetUint();
             result->indices.emplace_back(idx);
@@ -1092,6 +1094,7 @@ JSONSymbolTableProvider::JSONSymbolTableProvider(const std::string &filename) {
         }
     }
 
+    std::string error_reason;
     {
         auto stream = std::ifstream(filename);
         rapidjson::IStreamWrapper isw(stream);
@@ -1101,8 +1104,14 @@ JSONSymbolTableProvider::JSONSymbolTableProvider(const std::string &filename) {
         roots_ = db::json::parse(document, info);
 
         reordering_ = reordering(document);
+        error_reason = info.error_reason;
     }
     parse_db();
+
+    if (!error_reason.empty()) {
+        log::log(log::log_level::error, error_reason);
+        roots_.clear();
+    }
 }
 
 JSONSymbolTableProvider::JSONSymbolTableProvider(std::unique_ptr<JSONSymbolTableProvider> db) {
@@ -1368,6 +1377,7 @@ std::optional<uint64_t> JSONSymbolTableProvider::get_instance_id(uint64_t breakp
 
 std::optional<uint64_t> JSONSymbolTableProvider::get_instance_id(const std::string &instance_name) {
     auto instances = util::get_tokens(instance_name, ".");
+    if (instances.empty()) return std::nullopt;
     for (auto const &root : roots_) {
         if (instances[0] == root->name) {
             auto const *p = root.get();
-- 
2.43.0


From 5c251e394e0f87d0f8ad2dc81dfef799b5bf1d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:41 +0000
Subject: [PATCH 32/56] fix: modules that contain themselves overflow the stack

---
 src/db.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index 3b480a1..cc7bf4c 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -1891,8 +1891,9 @@ bool JSONSymbolTableProvider::parse(const std::string &db_content) {
 }
 
 void resolve_module_instances(db::json::ModuleDef &def, db::json::ModuleDefDict &defs,
-                              bool &has_error) {
+                              std::set<const db::json::ModuleDef *> &parents, bool &has_error) {
     if (has_error) return;
+    parents.emplace(&def);
     std::set<db::json::ModuleDef *> subs;
     for (auto const &[name, module] : def.unresolved_instances) {
         if (defs.find(module) == defs.end()) {
@@ -1907,8 +1908,14 @@ void resolve_module_instances(db::json::ModuleDef &def, db::json::ModuleDefDict
     def.unresolved_instances.clear();
     // recursively check the child instances
     for (auto *m : subs) {
-        resolve_module_instances(*m, defs, has_error);
+        if (parents.find(m) != parents.end()) {
+            // a module cannot contain itself
+            has_error = true;
+            return;
+        }
+        resolve_module_instances(*m, defs, parents, has_error);
     }
+    parents.erase(&def);
 }
 
 void JSONSymbolTableProvider::parse_db() {
@@ -1920,8 +1927,9 @@ void JSONSymbolTableProvider::parse_db() {
         }
         // resolve the module names
         bool has_error = false;
+        std::set<const db::json::ModuleDef *> parents;
         resolve_module_instances(*(const_cast<db::json::ModuleDef *>(root->definition)),
-                                 module_defs_, has_error);
+                                 module_defs_, parents, has_error);
         if (has_error) {
             log::log(log::log_level::error, "Unable to resolve all referenced instances");
             roots_.clear();
-- 
2.43.0


From 1e96799f20aeb55605d747ceb21dc561fbe298c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:55 +0000
Subject: [PATCH 33/56] fix: constants that are overwritten, empty or out of
 range

---
 src/symbol.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/symbol.cc b/src/symbol.cc
index 790b090..c416ef0 100644
--- a/src/symbol.cc
+++ b/src/symbol.cc
@@ -1,7 +1,9 @@
 #include "symbol.hh"
 
+#include <charconv>
 #include <filesystem>
 #include <mutex>
+#include <unordered_set>
 
 #include "asio.hpp"
 #include "db.hh"
@@ -168,13 +170,18 @@ std::unordered_map<std::string, int64_t> SymbolTableProvider::get_context_static
     uint32_t breakpoint_id) {
     auto vars = get_context_variables(breakpoint_id);
     std::unordered_map<std::string, int64_t> result;
+    std::unordered_set<std::string> names;
 
     // NOLINTNEXTLINE
     for (auto it = vars.rbegin(); it != vars.rend(); it++) {
         auto const &[ctx, var] = *it;
+        // only the newest one counts, whether it's a constant or not
+        if (!names.emplace(ctx.name).second) continue;
         if (!var.is_rtl) {
-            if (std::all_of(var.value.begin(), var.value.end(), ::isdigit)) {
-                auto v = std::stoll(var.value);
+            int64_t v = 0;
+            auto const *end = var.value.data() + var.value.size();
+            auto [ptr, ec] = std::from_chars(var.value.data(), end, v);
+            if (ec == std::errc() && ptr == end && std::isdigit(var.value[0])) {
                 result.emplace(ctx.name, v);
             }
         }
-- 
2.43.0


From 11c49ee1f883a33ccdfad475c5f480f5f4715703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:39 +0000
Subject: [PATCH 34/56] fix: numbers out of range and incomplete attributes in
 a symbol table abort the simulator

---
 src/db.cc | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index cc7bf4c..21044d3 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -590,13 +590,15 @@ std::shared_ptr<VarDeclEntry> parse_var_decl(const rapidjson::Value &value, JSON
 std::shared_ptr<AssignEntry> parse_assign(const rapidjson::Value &value, JSONParseInfo &info);
 std::vector<std::shared_ptr<VarDef>> parse_var(const rapidjson::Value &value, JSONParseInfo &info);
 
+// the schema only guarantees an integer, which may be out of range
+uint32_t get_uint(const rapidjson::Value &value, const char *name, uint32_t default_value) {
+    if (!value.HasMember(name) || !value[name].IsUint()) return default_value;
+    return value[name].GetUint();
+}
+
 void set_scope_entry_value(const rapidjson::Value &value, ScopeEntry &result) {
-    if (value.HasMember("line")) {
-        result.line = value["line"].GetUint();
-    }
-    if (value.HasMember("column")) {
-        result.column = value["column"].GetUint();
-    }
+    result.line = get_uint(value, "line", 0);
+    result.column = get_uint(value, "column", 0);
     if (value.HasMember("condition")) {
         result.condition = value["condition"].GetString();
     }
@@ -706,8 +708,8 @@ std::shared_ptr<AssignEntry> parse_assign(const rapidjson::Value &value, JSONPar
             auto vars = parse_var(index["var"], info);
             if (vars.empty()) continue;  // the error is reported by parse_var
             idx.var = vars[0];
-            idx.min = index["min"].GetUint();
-            idx.max = index["max"].GetUint();
+            idx.min = get_uint(index, "min", 0);
+            idx.max = get_uint(index, "max", std::numeric_limits<uint32_t>::max());
             result->indices.emplace_back(idx);
         }
     }
@@ -735,9 +737,7 @@ std::vector<std::shared_ptr<VarDef>> parse_var(const rapidjson::Value &value, JS
             if (t == "delay") {
                 var->type = VariableType::delay;
 
-                if (value.HasMember("depth")) {
-                    var->depth = value["depth"].GetUint();
-                }
+                var->depth = get_uint(value, "depth", 1);
             }
         }
     }
@@ -767,6 +767,7 @@ void parse_attributes(const rapidjson::Document &document, JSONParseInfo &info)
     if (!document.HasMember("attributes")) return;
     auto attributes = document["attributes"].GetArray();
     for (auto const &attr : attributes) {
+        if (!attr.HasMember("name") || !attr.HasMember("value")) continue;
         std::string name = attr["name"].GetString();
         std::string value = attr["value"].GetString();
         info.attributes.emplace_back(std::make_pair(name, value));
-- 
2.43.0


From 487249eb285db819444dea65459b24c267cc0201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:39 +0000
Subject: [PATCH 35/56] fix: relative file names with a directory never match

---
 src/db.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db.cc b/src/db.cc
index 21044d3..702d7b9 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -1172,7 +1172,7 @@ private:
         if (ref_path.empty()) return false;
         if (is_relative(ref_path)) {
             auto f = base_name(query_path);
-            return ref_path == f;
+            return ref_path == f || ref_path == query_path;
         } else {
             return query_path == ref_path;
         }
-- 
2.43.0


From 505135c32eed50fc5a73730af3e61cb226a17f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:35 +0000
Subject: [PATCH 36/56] fix: breakpoints of a nested block are found under the
 file around it

---
 src/db.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index 702d7b9..783a20b 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -1190,9 +1190,9 @@ private:
         while (p) {
             if (p->type == db::json::ScopeEntryType::Block) {
                 auto const *block = reinterpret_cast<const db::json::BlockEntry *>(p);
-                if (blocks.find(block) != blocks.end() &&
-                    is_filename_equivalent(filename_, block->filename)) {
-                    return block;
+                if (blocks.find(block) != blocks.end()) {
+                    // the innermost one decides which file it is
+                    return is_filename_equivalent(filename_, block->filename) ? block : nullptr;
                 }
             }
 
-- 
2.43.0


From ae4e2c39e4031842bf274052078cfc8d2bb4eb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:54 +0000
Subject: [PATCH 37/56] fix: path mappings depend on local files and apply to
 directories that share a prefix

---
 src/symbol.cc | 46 ++++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/src/symbol.cc b/src/symbol.cc
index c416ef0..4d3bf00 100644
--- a/src/symbol.cc
+++ b/src/symbol.cc
@@ -23,17 +23,22 @@ namespace hgdb {
 std::string resolve(const std::string &src_path, const std::string &dst_path,
                     const std::string &target) {
     namespace fs = std::filesystem;
-    if (src_path.empty() || target.starts_with(src_path)) [[likely]] {
-        std::error_code ec;
-        auto path = fs::relative(target, src_path, ec);
-        if (ec.value()) [[unlikely]]
-            return target;
-        fs::path start = dst_path;
-        auto r = start / path;
-        return r;
-    } else {
+    // purely lexical, since the paths may refer to a different machine
+    auto path =
+        fs::path(target).lexically_normal().lexically_relative(fs::path(src_path).lexically_normal());
+    if (path.empty()) [[unlikely]]
         return target;
-    }
+    if (path == ".") return dst_path;
+    fs::path start = dst_path;
+    auto r = start / path;
+    return r;
+}
+
+// whether the file is in the directory, which is not the same as having it as a prefix
+bool is_inside(const std::string &filename, const std::string &dir) {
+    if (dir.empty()) return std::filesystem::path(filename).is_relative();
+    return filename.starts_with(dir) &&
+           (dir.back() == '/' || filename.size() == dir.size() || filename[dir.size()] == '/');
 }
 
 std::optional<std::string> SymbolTableProvider::get_instance_name_from_bp(uint32_t breakpoint_id) {
@@ -198,12 +203,15 @@ std::string SymbolTableProvider::resolve_filename_to_db(const std::string &filen
     // optimize for local use case
     if (src_remap_.empty()) [[likely]]
         return filename;
-    for (auto const &[src_path, dst_path] : src_remap_) {
-        if (filename.starts_with(src_path)) {
-            return resolve(src_path, dst_path, filename);
+    // the innermost directory decides
+    const std::pair<const std::string, std::string> *match = nullptr;
+    for (auto const &entry : src_remap_) {
+        if (is_inside(filename, entry.first) &&
+            (!match || entry.first.size() > match->first.size())) {
+            match = &entry;
         }
     }
-    return filename;
+    return match ? resolve(match->first, match->second, filename) : filename;
 }
 
 std::string SymbolTableProvider::resolve_filename_to_client(const std::string &filename) {
@@ -211,12 +219,14 @@ std::string SymbolTableProvider::resolve_filename_to_client(const std::string &f
     // optimize for local use case
     if (src_remap_.empty()) [[likely]]
         return filename;
-    for (auto const &[dst_path, src_path] : src_remap_) {
-        if (src_path.empty() || filename.starts_with(src_path)) {
-            return resolve(src_path, dst_path, filename);
+    const std::pair<const std::string, std::string> *match = nullptr;
+    for (auto const &entry : src_remap_) {
+        if (is_inside(filename, entry.second) &&
+            (!match || entry.second.size() > match->second.size())) {
+            match = &entry;
         }
     }
-    return filename;
+    return match ? resolve(match->second, match->first, filename) : filename;
 }
 
 // abstract out ws and tcp connections
-- 
2.43.0


From db7e15ece9b51a0f63e0fb55f316c7be6558e09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:03 +0000
Subject: [PATCH 38/56] fix: path mappings are ignored with a JSON symbol table

---
 src/db.cc | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/db.cc b/src/db.cc
index 783a20b..76e8e3e 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -1261,11 +1261,13 @@ std::vector<BreakPoint> JSONSymbolTableProvider::get_breakpoints(const std::stri
                                                                  uint32_t line_num,
                                                                  uint32_t col_num) {
     std::vector<BreakPoint> result;
+    auto const resolved_filename = resolve_filename_to_db(filename);
     for (auto const &root : roots_) {
-        BreakPointVisitor v(filename, line_num, col_num);
+        BreakPointVisitor v(resolved_filename, line_num, col_num);
         v.visit(*root);
         result.reserve(result.size() + v.results.size());
         for (auto &bp : v.results) {
+            bp.filename = resolve_filename_to_client(bp.filename);
             result.emplace_back(std::move(bp));
         }
     }
@@ -1273,16 +1275,7 @@ std::vector<BreakPoint> JSONSymbolTableProvider::get_breakpoints(const std::stri
 }
 
 std::vector<BreakPoint> JSONSymbolTableProvider::get_breakpoints(const std::string &filename) {
-    std::vector<BreakPoint> result;
-    for (auto const &root : roots_) {
-        BreakPointVisitor v(filename, 0, 0);
-        v.visit(*root);
-        result.reserve(result.size() + v.results.size());
-        for (auto &bp : v.results) {
-            result.emplace_back(std::move(bp));
-        }
-    }
-    return result;
+    return get_breakpoints(filename, 0, 0);
 }
 
 std::optional<BreakPoint> JSONSymbolTableProvider::get_breakpoint(uint32_t breakpoint_id) {
@@ -1291,7 +1284,9 @@ std::optional<BreakPoint> JSONSymbolTableProvider::get_breakpoint(uint32_t break
         BreakPointVisitor v(breakpoint_id);
         v.visit(*root);
         if (!v.results.empty()) [[likely]] {
-            return std::move(v.results[0]);
+            auto &bp = v.results[0];
+            bp.filename = resolve_filename_to_client(bp.filename);
+            return std::move(bp);
         }
     }
     return std::nullopt;
-- 
2.43.0


From 78ba461c054112331cf039016ef33cd68bbdca16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:43 +0000
Subject: [PATCH 39/56] fix: requests that arrive while the simulation runs
 free breakpoints under evaluation

---
 src/debug.cc | 8 +++++++-
 src/debug.hh | 2 ++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/debug.cc b/src/debug.cc
index 5658182..38fbadd 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -31,6 +31,7 @@ Debugger::Debugger(std::shared_ptr<AVPIProvider> vpi) {
 
     // set up some call backs
     server_->set_on_call_client_disconnect([this]() {
+        std::lock_guard guard(eval_lock_);
         if (detach_after_disconnect_) detach();
     });
 
@@ -115,7 +116,8 @@ void Debugger::eval() {
     // notice that there is a hidden race condition
     // when we trigger the breakpoint, the runtime (simulation side) will be paused via a lock.
     // however, the server side can still take breakpoint requests, hence modifying the
-    // breakpoints_.
+    // breakpoints_. the lock is thus only released while the simulation is paused
+    std::unique_lock guard(eval_lock_);
     log_info("Start breakpoint evaluation...");
     start_breakpoint_evaluation();  // clean the state and fetch values
 
@@ -144,7 +146,9 @@ void Debugger::eval() {
             // also send any breakpoint values
             send_monitor_values(MonitorRequest::MonitorType::breakpoint);
             // then pause the execution
+            guard.unlock();
             lock_.wait();
+            guard.lock();
         } else if (scheduler_->beginning_reached()) {
             // nothing to stop at, and the scheduler can only offer the same breakpoints again
             break;
@@ -264,6 +268,8 @@ void Debugger::on_message(const std::string &message, uint64_t conn_id) {
         return;
     }
     log_info("Start handling " + to_string(req->type()));
+    // the breakpoints and signals must not change while they are being evaluated
+    std::lock_guard guard(eval_lock_);
     switch (req->type()) {
         case RequestType::connection: {
             // this is a connection request
diff --git a/src/debug.hh b/src/debug.hh
index 6c2316b..31daee5 100644
--- a/src/debug.hh
+++ b/src/debug.hh
@@ -65,6 +65,8 @@ private:
     std::thread server_thread_;
     // runtime lock
     RuntimeLock lock_;
+    // held by the simulation during the evaluation, and by the server when it handles requests
+    std::mutex eval_lock_;
     std::atomic<bool> is_running_ = false;
 
     // used for scheduler
-- 
2.43.0


From b3869c97779b3a780080d95a4710f2b2a3501660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:41 +0000
Subject: [PATCH 40/56] fix: results of breakpoints evaluated by several
 threads are lost

The threads write neighbouring elements of a vector<bool>, which share words.
---
 src/debug.cc | 9 +++++----
 src/debug.hh | 4 ++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 38fbadd..51b6950 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -1372,8 +1372,9 @@ bool Debugger::eval_breakpoint(DebugBreakPoint *bp) {
     return false;
 }
 
-std::vector<bool> Debugger::eval_breakpoints(const std::vector<DebugBreakPoint *> &bps) {
-    std::vector<bool> hits(bps.size());
+std::vector<uint8_t> Debugger::eval_breakpoints(const std::vector<DebugBreakPoint *> &bps) {
+    // written by several threads, which vector<bool> does not allow since its bits share words
+    std::vector<uint8_t> hits(bps.size());
     std::fill(hits.begin(), hits.end(), false);
     // most of the time is on getting simulation values, so using many threads
     // doesn't make any sense
@@ -1407,8 +1408,8 @@ std::vector<bool> Debugger::eval_breakpoints(const std::vector<DebugBreakPoint *
     return hits;
 }
 
-void Debugger::eval_breakpoint(const std::vector<DebugBreakPoint *> &bps, std::vector<bool> &result,
-                               uint64_t start, uint64_t end) {
+void Debugger::eval_breakpoint(const std::vector<DebugBreakPoint *> &bps,
+                               std::vector<uint8_t> &result, uint64_t start, uint64_t end) {
     for (auto index = start; index < end; index++) {
         bool r = eval_breakpoint(bps[index]);
         result[index] = r;
diff --git a/src/debug.hh b/src/debug.hh
index 31daee5..4fd8903 100644
--- a/src/debug.hh
+++ b/src/debug.hh
@@ -157,9 +157,9 @@ private:
     // scheduler
     bool should_trigger(DebugBreakPoint *bp);
     bool eval_breakpoint(DebugBreakPoint *bp);
-    void eval_breakpoint(const std::vector<DebugBreakPoint *> &bps, std::vector<bool> &result,
+    void eval_breakpoint(const std::vector<DebugBreakPoint *> &bps, std::vector<uint8_t> &result,
                          uint64_t start, uint64_t end);
-    std::vector<bool> eval_breakpoints(const std::vector<DebugBreakPoint *> &bps);
+    std::vector<uint8_t> eval_breakpoints(const std::vector<DebugBreakPoint *> &bps);
     bool add_breakpoint(const BreakPoint &bp_info, const BreakPoint &db_bp);
     void start_breakpoint_evaluation();
     void clear_cached_signal_values();
-- 
2.43.0


From 1b38a71366dfedb405f19ebcd87c34a49fb38d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:57 +0000
Subject: [PATCH 41/56] fix: waveform values at the end of a file, real values,
 comments and long times are misread

---
 tools/vcd/vcd.cc | 74 ++++++++++++++++++++++++++++++------------------
 1 file changed, 46 insertions(+), 28 deletions(-)

diff --git a/tools/vcd/vcd.cc b/tools/vcd/vcd.cc
index f2e94f7..12be71c 100644
--- a/tools/vcd/vcd.cc
+++ b/tools/vcd/vcd.cc
@@ -1,6 +1,8 @@
 #include "vcd.hh"
 
+#include <charconv>
 #include <filesystem>
+#include <limits>
 #include <sstream>
 
 namespace hgdb::vcd {
@@ -23,9 +25,9 @@ std::string next_token(std::istream &stream) {
         return {};
     std::stringstream result;
     uint64_t length = 0;
-    while (!stream.eof()) {
-        char c = '\0';
-        stream.get(c);
+    char c = '\0';
+    // the last token may not be followed by anything
+    while (stream.get(c)) {
         if (c == ' ' || c == '\t' || c == '\r' || c == '\n' || c == '\f') {
             if (length == 0)
                 continue;
@@ -41,6 +43,14 @@ std::string next_token(std::istream &stream) {
 
 std::string next_token(std::istream *stream) { return next_token(*stream); }
 
+std::optional<uint64_t> parse_number(const std::string &token) {
+    uint64_t value = 0;
+    auto const *end = token.data() + token.size();
+    auto [ptr, error] = std::from_chars(token.data(), end, value);
+    if (error != std::errc() || ptr != end) return std::nullopt;
+    return value;
+}
+
 bool VCDParser::parse() {  // NOLINT
     if (has_error_) return false;
     // the code below is mostly designed by Teguh Hofstee (https://github.com/hofstee)
@@ -152,6 +162,7 @@ void VCDParser::parse_meta(VCDMetaInfo::MetaType type) {
     uint64_t start_pos = tellg();
 
     while ((token = next_token(stream_)) != end_str) {
+        if (token.empty()) break;
         ss << " " << token;
     }
     if (on_meta_info_) {
@@ -183,7 +194,12 @@ bool VCDParser::parse_var_def() {
     static VCDVarDef var_def;
     var_def.start_pos = tellg();
     var_def.type = next_token(stream_);
-    var_def.width = std::stoul(next_token(stream_));
+    auto width = parse_number(next_token(stream_));
+    if (!width || *width > std::numeric_limits<uint32_t>::max()) {
+        error_message_ = "Illegal VCD variable width";
+        return false;
+    }
+    var_def.width = *width;
     var_def.identifier = next_token(stream_);
     var_def.name = next_token(stream_);
 
@@ -193,6 +209,7 @@ bool VCDParser::parse_var_def() {
         var_def.slice = token;
         token = next_token(stream_);
         if (token != end_str) {
+            error_message_ = "Illegal VCD file";
             return false;
         }
     } else {
@@ -223,43 +240,44 @@ bool VCDParser::parse_vcd_values() {  // NOLINT
         }
     };
 
+    auto parse_value = [this, &add_value](const std::string &token) {
+        auto value_type = token[0];
+        if (std::string("01xXzZ").find(value_type) != std::string::npos) {
+            if (token.size() > 1) add_value(token.substr(1), token.substr(0, 1), true);
+        } else if (std::string("bB").find(value_type) != std::string::npos) {
+            auto ident = next_token(stream_);
+            if (!ident.empty()) add_value(ident, token.substr(1));
+        } else if (std::string("rRsS").find(value_type) != std::string::npos) {
+            // not supported, but its identifier may look like another value
+            next_token(stream_);
+        }
+    };
+
     while (true) {
         start_pos = tellg();
         auto token = next_token(stream_);
         if (token.empty()) return true;
 
         if (token[0] == '#') {
-            timestamp = std::stoi(std::string(token.substr(1)));
+            auto time = parse_number(token.substr(1));
+            if (!time) {
+                error_message_ = "Illegal VCD timestamp " + token;
+                return false;
+            }
+            timestamp = *time;
             if (on_time_change_) (*on_time_change_)(timestamp);
-        } else if (std::string("01xz").find(token[0]) != std::string::npos) {
-            auto value = std::string(1, token[0]);
-            auto ident = std::string(token.substr(1));
-
-            add_value(ident, value, true);
-        } else if (std::string("b").find(token[0]) != std::string::npos) {
-            auto value = std::string(token.substr(1));
-            auto ident = std::string(next_token(stream_));
-
-            add_value(ident, value);
         } else if (token == "$dumpvars" || token == "$dumpall" || token == "$dumpon" ||
                    token == "$dumpoff") {
             if (on_dump_var_action_) (*on_dump_var_action_)(token);
             while (true) {
                 token = next_token(stream_);
-                if (token == "$end") {
-                    break;
-                } else if (std::string("01xz").find(token[0]) != std::string::npos) {
-                    auto value = std::string(1, token[0]);
-                    auto ident = std::string(token.substr(1));
-
-                    add_value(ident, value, true);
-                } else if (std::string("b").find(token[0]) != std::string::npos) {
-                    auto value = std::string(token.substr(1));
-                    auto ident = std::string(next_token(stream_));
-
-                    add_value(ident, value);
-                }
+                if (token == end_str || token.empty()) break;
+                parse_value(token);
             }
+        } else if (token == "$comment") {
+            while (!token.empty() && token != end_str) token = next_token(stream_);
+        } else {
+            parse_value(token);
         }
     }
 }
-- 
2.43.0


From 02ddad333629701f5cabd54d0eed05a947171bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:24 +0000
Subject: [PATCH 42/56] fix: names that do not exist resolve to the module
 around them

---
 src/rtl.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rtl.cc b/src/rtl.cc
index c6a4af5..d681b77 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -192,6 +192,8 @@ vpiHandle RTLSimulatorClient::get_handle(const std::vector<std::string> &tokens)
             auto handle_name = util::join(
                 tokens.begin(), tokens.begin() + static_cast<uint32_t>(tokens.size()) - 1, ".");
             ptr = get_handle_raw(handle_name);
+            // modules don't have any bits
+            if (ptr && get_vpi_type(ptr) == vpiModule) ptr = nullptr;
         }
 
         if (!ptr) [[likely]] {
@@ -212,6 +214,8 @@ vpiHandle RTLSimulatorClient::get_handle(const std::vector<std::string> &tokens)
                         ptr = access_arrays(pos, tokens.begin() + array_size_end + 1, ptr);
                         break;
                     }
+                    // a module that contains the name is not the variable itself
+                    ptr = nullptr;
                 }
             }
         }
-- 
2.43.0


From cbf874e756543057c72c34614488fd091bdd6359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:24 +0000
Subject: [PATCH 43/56] fix: members of interfaces and structs are looked up
 under a name that is gone

---
 src/rtl.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index d681b77..5b78aa6 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -604,8 +604,9 @@ std::vector<std::pair<std::string, std::string>> RTLSimulatorClient::resolve_rtl
                             int property, std::vector<std::pair<std::string, std::string>> &res) {
         if (auto *it = vpi_->vpi_iterate(property, handle)) {
             while (auto *h = vpi_->vpi_scan(it)) {
-                auto *rtl = vpi_->vpi_get_str(vpiFullName, h);
-                auto *n = vpi_->vpi_get_str(vpiName, h);
+                // the buffer is reused by the next call
+                std::string rtl = vpi_->vpi_get_str(vpiFullName, h);
+                std::string n = vpi_->vpi_get_str(vpiName, h);
                 // make it recursive to account for
                 auto new_res = resolve_rtl_variable(front_name + "." + n, rtl);
                 res.insert(res.end(), new_res.begin(), new_res.end());
-- 
2.43.0


From 169530be0dee2dee0948e254c7fdbe6ea6688afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:34 +0000
Subject: [PATCH 44/56] fix: negative values are shown with a minus sign in
 hexadecimal

---
 src/debug.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/debug.cc b/src/debug.cc
index 51b6950..b097625 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -441,6 +441,9 @@ std::string value_to_str(std::optional<int64_t> value, bool use_hex, uint32_t wi
     }
     if (use_hex) {
         std::string format;
+        // show the bits. negative values would be shown with a minus sign
+        auto bits = static_cast<uint64_t>(*value);
+        if (width > 0 && width < 64) bits &= (1ull << width) - 1;
         if (width == 0) {
             format = "0x{0:X}";
         } else if (width == 1) {
@@ -450,7 +453,7 @@ std::string value_to_str(std::optional<int64_t> value, bool use_hex, uint32_t wi
             width = (width % 4 == 0) ? width / 4 : (width / 4 + 1);
             format = fmt::format("0x{{0:0{0}X}}", width);
         }
-        return fmt::format(format.c_str(), *value);
+        return fmt::format(format.c_str(), bits);
 
     } else {
         return fmt::format("{0}", *value);
-- 
2.43.0


From 5501aced1e0bd86bcec508d770f9864ff16a15a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:34 +0000
Subject: [PATCH 45/56] fix: delayed variables get the value of another depth
 or of another copy of the design

---
 src/debug.cc | 27 +++++++++++++--------------
 src/debug.hh | 10 ++++++----
 2 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index b097625..cffa82c 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -462,7 +462,7 @@ std::string value_to_str(std::optional<int64_t> value, bool use_hex, uint32_t wi
 
 // NOLINTNEXTLINE
 std::string Debugger::get_value_str(uint32_t ns_id, const std::string &rtl_name, bool is_rtl,
-                                    bool use_delay) {
+                                    std::optional<uint32_t> delay) {
     std::string value_str;
     if (is_rtl) {
         auto &rtl = namespaces_[ns_id]->rtl;
@@ -474,12 +474,13 @@ std::string Debugger::get_value_str(uint32_t ns_id, const std::string &rtl_name,
             width = width_opt ? *width_opt : 0u;
         }
 
-        if (use_delay) {
-            if (delayed_variables_.find(handle) == delayed_variables_.end()) [[unlikely]] {
+        if (delay) {
+            auto const it = delayed_variables_.find({handle, *delay});
+            if (it == delayed_variables_.end()) [[unlikely]] {
                 log_error("Internal error on handling delayed variables");
                 value_str = error_value_str;
             } else {
-                value_str = value_to_str(delayed_variables_.at(handle).value, use_hex_str_, width);
+                value_str = value_to_str(it->second.value, use_hex_str_, width);
             }
         } else {
             auto value = rtl->get_value(handle);
@@ -1199,9 +1200,10 @@ void Debugger::send_breakpoint_hit(const std::vector<const DebugBreakPoint *> &b
             auto var_names = resolve_context_name(var.value, ctx_var.name, bp->id, rtl, db_.get());
             for (auto const &[front_name, rtl_name] : var_names) {
                 using VariableType = SymbolTableProvider::VariableType;
-                std::string value_str =
-                    get_value_str(bp->ns_id, rtl_name, var.is_rtl,
-                                  static_cast<VariableType>(ctx_var.type) == VariableType::delay);
+                std::optional<uint32_t> delay;
+                if (static_cast<VariableType>(ctx_var.type) == VariableType::delay)
+                    delay = ctx_var.depth;
+                std::string value_str = get_value_str(bp->ns_id, rtl_name, var.is_rtl, delay);
                 scope.add_local_value(front_name, value_str);
             }
         }
@@ -1308,8 +1310,7 @@ std::string Debugger::get_full_name(uint32_t ns_id, uint64_t instance_id,
     return full_name;
 }
 
-std::optional<int64_t> Debugger::get_signal_value(uint32_t ns_id, vpiHandle handle,
-                                                  bool use_delayed) {
+std::optional<int64_t> Debugger::get_signal_value(uint32_t ns_id, vpiHandle handle) {
     // assume the name is already elaborated/mapped
     if (use_signal_cache_) [[unlikely]] {
         std::lock_guard guard(cached_signal_values_lock_);
@@ -1319,10 +1320,6 @@ std::optional<int64_t> Debugger::get_signal_value(uint32_t ns_id, vpiHandle hand
     }
     // need to actually get the value
     std::optional<int64_t> value;
-    if (use_delayed && delayed_variables_.find(handle) != delayed_variables_.end()) [[unlikely]] {
-        return delayed_variables_.at(handle).value;
-    }
-
     value = namespaces_[ns_id]->rtl->get_value(handle);
 
     if (!value)
@@ -1532,6 +1529,7 @@ void Debugger::update_delayed_values() {
             ns->monitor->get_watched_values(MonitorRequest::MonitorType::delay_clock_edge);
         for (auto &iter : delayed_variables_) {
             auto &var_info = iter.second;
+            if (var_info.ns_id != ns->id) continue;
             auto pos = std::find_if(values.begin(), values.end(), [&var_info](auto const &iter) {
                 return iter.first == var_info.watch_id;
             });
@@ -1567,9 +1565,10 @@ void Debugger::process_delayed_breakpoint(uint32_t bp_id) {
                 DelayedVariable delayed_var;
                 delayed_var.rtl_name = rtl_name;
                 delayed_var.watch_id = watch_id;
+                delayed_var.ns_id = ns->id;
                 auto *handle = rtl->get_handle(rtl_name);
                 if (handle) {
-                    delayed_variables_.emplace(handle, delayed_var);
+                    delayed_variables_.emplace(std::make_pair(handle, ctx.depth), delayed_var);
                 }
             }
         }
diff --git a/src/debug.hh b/src/debug.hh
index 4fd8903..a3df4b4 100644
--- a/src/debug.hh
+++ b/src/debug.hh
@@ -84,8 +84,11 @@ private:
         std::string rtl_name;
         std::optional<int64_t> value;
         uint64_t watch_id;
+        // watch ids are only unique within the namespace
+        uint32_t ns_id;
     };
-    std::unordered_map<vpiHandle, DelayedVariable> delayed_variables_;
+    // the same signal can be delayed by different depths
+    std::map<std::pair<vpiHandle, uint32_t>, DelayedVariable> delayed_variables_;
 
     // options
     // if in single thread mode, instances with the same fn/ln won't be evaluated as a batch
@@ -121,7 +124,7 @@ private:
     bool has_cli_flag(const std::string &flag);
     [[nodiscard]] static std::string get_monitor_topic(uint64_t watch_id);
     std::string get_value_str(uint32_t ns_id, const std::string &rtl_name, bool is_rtl,
-                              bool use_delay = false);
+                              std::optional<uint32_t> delay = std::nullopt);
     std::optional<std::string> resolve_var_name(uint32_t ns_id, const std::string &var_name,
                                                 const std::optional<uint64_t> &instance_id,
                                                 const std::optional<uint64_t> &breakpoint_id);
@@ -165,8 +168,7 @@ private:
     void clear_cached_signal_values();
 
     // cached wrapper
-    std::optional<int64_t> get_signal_value(uint32_t ns_id, vpiHandle handle,
-                                            bool use_delayed = false);
+    std::optional<int64_t> get_signal_value(uint32_t ns_id, vpiHandle handle);
     std::string get_full_name(uint32_t ns_id, uint64_t instance_id, const std::string &var_name);
 
     // callbacks
-- 
2.43.0


From 4b820140115a099eedc6b1f43eb7760c042ab2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:46 +0000
Subject: [PATCH 46/56] fix: breakpoints from the environment have an arbitrary
 column

---
 src/debug.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/debug.cc b/src/debug.cc
index cffa82c..ae89ea4 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -1463,7 +1463,7 @@ void Debugger::setup_init_breakpoint_from_env() {
             std::cerr << "Invalid breakpoint expression " << breakpoint_name << std::endl;
             continue;
         }
-        BreakPoint breakpoint;
+        BreakPoint breakpoint{};
         breakpoint.filename = fn_ln[0];
         auto ln = util::stoul(fn_ln[1]);
         if (!ln) {
-- 
2.43.0


From fb6badc1b941e4e285744e1754f33cb14a9f9324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:54 +0000
Subject: [PATCH 47/56] fix: +DEBUG_LOG=1 does not turn on the log

---
 src/debug.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/debug.cc b/src/debug.cc
index ae89ea4..bffd417 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -411,7 +411,9 @@ bool Debugger::get_test_plus_arg(const std::string &arg_name, bool check_env) {
 }
 
 bool Debugger::get_logging() {
-    auto logging = get_test_plus_arg(DEBUG_LOGGING_ENV, true);
+    // either +DEBUG_LOG or +DEBUG_LOG=1
+    auto logging = get_test_plus_arg(DEBUG_LOGGING_ENV, true) ||
+                   get_value_plus_arg(DEBUG_LOGGING_ENV, true) == "1";
     return logging ? true : default_logging;  // NOLINT
 }
 
-- 
2.43.0


From 8af450faa5fa62fb7008f532a016bca4e0a7c491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:54 +0000
Subject: [PATCH 48/56] fix: clients that connect or leave while the simulation
 sends messages

The list of connections was read without its lock. The callback for the last
client that leaves is now made without that lock, since it may have to wait for
the simulation.
---
 src/server.cc | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/server.cc b/src/server.cc
index 1f5865f..d3d1f4c 100644
--- a/src/server.cc
+++ b/src/server.cc
@@ -26,17 +26,22 @@ DebugServer::DebugServer(bool enable_logging) {
     };
     // on disconnection
     auto on_disconnect = [this](websocketpp::connection_hdl hdl) {
-        std::lock_guard<std::mutex> guard{connections_lock_};
-        auto conn = server_.get_con_from_hdl(std::move(hdl));
-        // not efficient, but we assume client won't disconnect often
-        for (auto const &[id, c] : connections_) {
-            if (conn == c) {
-                connections_.erase(id);
-                connection_id_map_.erase(conn.get());
-                break;
+        bool all_disconnected;
+        {
+            std::lock_guard<std::mutex> guard{connections_lock_};
+            auto conn = server_.get_con_from_hdl(std::move(hdl));
+            // not efficient, but we assume client won't disconnect often
+            for (auto const &[id, c] : connections_) {
+                if (conn == c) {
+                    connections_.erase(id);
+                    connection_id_map_.erase(conn.get());
+                    break;
+                }
             }
+            all_disconnected = connections_.empty();
         }
-        if (connections_.empty() && on_all_client_disconnect_) {
+        // the callback may have to wait for the simulation, which may be sending a message
+        if (all_disconnected && on_all_client_disconnect_) {
             (*on_all_client_disconnect_)();
         }
     };
@@ -75,12 +80,15 @@ void DebugServer::stop() {
 }
 
 void DebugServer::send(const std::string &payload) {
+    // clients can connect and disconnect while the simulation sends messages
+    std::lock_guard<std::mutex> guard{connections_lock_};
     for (const auto &[id, conn] : connections_) {
         conn->send(payload);
     }
 }
 
 void DebugServer::send(const std::string &payload, const std::string &topic) {
+    std::lock_guard<std::mutex> guard{connections_lock_};
     if (topics_.find(topic) != topics_.end()) [[likely]] {
         auto const &ids = topics_.at(topic);
         // to ensure high performance during runtime, we don't do clean up
@@ -94,6 +102,7 @@ void DebugServer::send(const std::string &payload, const std::string &topic) {
 }
 
 void DebugServer::send(const std::string &payload, uint64_t conn_id) {
+    std::lock_guard<std::mutex> guard{connections_lock_};
     if (connections_.find(conn_id) != connections_.end()) [[likely]] {
         connections_.at(conn_id)->send(payload);
     }
@@ -105,7 +114,14 @@ void DebugServer::set_on_message(
                                        const raw_message &msg) {
         auto str = msg->get_payload();
         auto conn = server_.get_con_from_hdl(hdl);
-        auto id = connection_id_map_.at(conn.get());
+        uint64_t id;
+        {
+            std::lock_guard<std::mutex> guard{connections_lock_};
+            // no longer known once the server has been stopped
+            auto it = connection_id_map_.find(conn.get());
+            if (it == connection_id_map_.end()) return;
+            id = it->second;
+        }
         callback(str, id);
     };
     server_.set_message_handler(on_message);
@@ -116,10 +132,12 @@ void DebugServer::set_on_call_client_disconnect(const std::function<void()> &fun
 }
 
 void DebugServer::add_to_topic(const std::string &topic, uint64_t conn_id) {
+    std::lock_guard<std::mutex> guard{connections_lock_};
     topics_[topic].emplace(conn_id);
 }
 
 void DebugServer::remove_from_topic(const std::string &topic, uint64_t conn_id) {
+    std::lock_guard<std::mutex> guard{connections_lock_};
     if (topics_[topic].find(conn_id) != topics_[topic].end()) {
         topics_[topic].erase(conn_id);
     }
-- 
2.43.0


From af319791a659cf795af77ea2b4c6e3c2cec7959b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:34 +0000
Subject: [PATCH 49/56] fix: a run command given before a stop is reported
 releases that stop

---
 src/debug.cc  | 2 ++
 src/thread.cc | 5 +++++
 src/thread.hh | 2 ++
 3 files changed, 9 insertions(+)

diff --git a/src/debug.cc b/src/debug.cc
index bffd417..9e2a1b6 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -141,6 +141,8 @@ void Debugger::eval() {
         }
 
         if (!result.empty()) {
+            // a command given before the client is told about the hit is no answer to it
+            lock_.reset();
             // send the breakpoint hit information
             send_breakpoint_hit(result);
             // also send any breakpoint values
diff --git a/src/thread.cc b/src/thread.cc
index deb24b8..d7606ae 100644
--- a/src/thread.cc
+++ b/src/thread.cc
@@ -18,4 +18,9 @@ void RuntimeLock::ready() {
     }
 }
 
+void RuntimeLock::reset() {
+    std::unique_lock<std::mutex> lock_(m_);
+    ready_.store(false);
+}
+
 }  // namespace hgdb
\ No newline at end of file
diff --git a/src/thread.hh b/src/thread.hh
index 0d4968c..1532efd 100644
--- a/src/thread.hh
+++ b/src/thread.hh
@@ -12,6 +12,8 @@ public:
     RuntimeLock() = default;
     void wait();
     void ready();
+    // forget an earlier ready that nobody has waited for
+    void reset();
 
 private:
     std::mutex m_;
-- 
2.43.0


From 33ff3c711901ed83801763bfe5624ec649b4a71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:57 +0000
Subject: [PATCH 50/56] fix: every breakpoint is set twice after a second
 connection

The namespaces were created and mapped again on top of the existing ones.
---
 src/namespace.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/namespace.cc b/src/namespace.cc
index 5a8ce9a..7fe265a 100644
--- a/src/namespace.cc
+++ b/src/namespace.cc
@@ -33,7 +33,9 @@ void DebuggerNamespaceManager::compute_instance_mapping(SymbolTableProvider *db)
     auto mapping =
         default_rtl()->compute_instance_mapping(instances, default_rtl()->vpi()->has_defname());
 
-    for (auto i = 1u; i < mapping.size(); i++) {
+    // the symbol table can be loaded again, in which case there may be namespaces already
+    if (namespaces_.size() > mapping.size()) namespaces_.resize(mapping.empty() ? 1 : mapping.size());
+    while (namespaces_.size() < mapping.size()) {
         add_namespace(default_rtl()->vpi());
     }
 
@@ -45,6 +47,7 @@ void DebuggerNamespaceManager::compute_instance_mapping(SymbolTableProvider *db)
 }
 
 void DebuggerNamespaceManager::compute_mapping() {
+    mapped_namespaces_.clear();
     for (auto &ns : namespaces_) {
         mapped_namespaces_[ns->def_name].emplace_back(ns.get());
     }
-- 
2.43.0


From 5e5c3188ea045caae314bcb67757fb35342bd998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:18 +0000
Subject: [PATCH 51/56] fix: signals wider than 32 bits are truncated, and
 slices can't be set

---
 src/debug.cc |   6 +--
 src/rtl.cc   | 101 ++++++++++++++++++++++++++++++++++++++-------------
 src/rtl.hh   |   3 ++
 3 files changed, 80 insertions(+), 30 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 9e2a1b6..bb0f8d3 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -995,11 +995,9 @@ void Debugger::handle_set_value(const SetValueRequest &req, uint64_t conn_id) {
         if (res) {
             // we need to remove cached value
             if (use_signal_cache_) {
-                auto *handle = rtl->get_handle(*full_name);
+                // slices of the signal are cached on their own
                 std::lock_guard guard(cached_signal_values_lock_);
-                if (cached_signal_values_.find(handle) != cached_signal_values_.end()) {
-                    cached_signal_values_.erase(handle);
-                }
+                cached_signal_values_.clear();
             }
             auto resp = GenericResponse(status_code::success, req);
             send_message(resp.str(log_enabled_), conn_id);
diff --git a/src/rtl.cc b/src/rtl.cc
index 5b78aa6..2dbdaf1 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -271,31 +271,43 @@ int64_t get_slice(int64_t value, const std::tuple<vpiHandle, uint32_t, uint32_t>
     return static_cast<int64_t>(v);
 }
 
+// unknown bits are 0, same as vpiIntVal
+int64_t get_bits(const std::string &value, uint64_t hi, uint64_t lo) {
+    uint64_t result = 0;
+    for (uint64_t i = 0; i < 64 && lo + i <= hi && lo + i < value.size(); i++) {
+        if (value[value.size() - 1 - (lo + i)] == '1') result |= static_cast<uint64_t>(1) << i;
+    }
+    return static_cast<int64_t>(result);
+}
+
 std::optional<int64_t> RTLSimulatorClient::get_value(vpiHandle handle, bool is_signal) {
     if (!handle) [[unlikely]] {
         return std::nullopt;
     }
 
-    bool is_slice_handle = false;
-    auto *target_handle = handle;
+    std::optional<std::tuple<vpiHandle, uint32_t, uint32_t>> slice;
 
     if (is_signal) {
         // if we have mock vpi handle, use it
         // optimize for unlikely
-        is_slice_handle = mock_slice_handles_.find(handle) != mock_slice_handles_.end();
-        if (is_slice_handle) [[unlikely]]
-            handle = std::get<0>(mock_slice_handles_.at(handle));
+        slice = get_mock_slice(handle);
+        if (slice) [[unlikely]]
+            handle = std::get<0>(*slice);
 
         // get value size. Verilator will freak out if the width is larger than 64
         // notice this is mostly cached result
-        if (is_verilator()) {
-            auto width = get_vpi_size(handle);
-            if (width > 64) [[unlikely]] {
-                auto *name = vpi_->vpi_get_str(vpiName, handle);
-                log::log(log::log_level::info,
-                         fmt::format("{0} is too large to display as an integer", name));
-                return {};
-            }
+        auto width = get_vpi_size(handle);
+        if (is_verilator() && width > 64) [[unlikely]] {
+            auto *name = vpi_->vpi_get_str(vpiName, handle);
+            log::log(log::log_level::info,
+                     fmt::format("{0} is too large to display as an integer", name));
+            return {};
+        }
+        // vpiIntVal only has the lower 32 bits
+        if (width > 32) [[unlikely]] {
+            auto bits = get_raw_str_value(handle, vpiBinStrVal);
+            return slice ? get_bits(bits, std::get<1>(*slice), std::get<2>(*slice))
+                         : get_bits(bits, width - 1, 0);
         }
     }
 
@@ -304,8 +316,8 @@ std::optional<int64_t> RTLSimulatorClient::get_value(vpiHandle handle, bool is_s
     vpi_->vpi_get_value(handle, &v);
     int64_t result = v.value.integer;
 
-    if (is_slice_handle) [[unlikely]] {
-        result = get_slice(result, mock_slice_handles_.at(target_handle));
+    if (slice) [[unlikely]] {
+        result = get_slice(result, *slice);
     }
 
     return result;
@@ -374,15 +386,12 @@ std::optional<std::string> RTLSimulatorClient::get_str_value(vpiHandle handle, b
     if (is_signal) {
         vpiHandle request_handle = handle;
 
-        bool is_slice = mock_slice_handles_.find(handle) != mock_slice_handles_.end();
-        handle = is_slice ? std::get<0>(mock_slice_handles_.at(handle)) : handle;
+        auto slice = get_mock_slice(handle);
+        handle = slice ? std::get<0>(*slice) : handle;
 
-        s_vpi_value v;
-        v.format = is_slice ? vpiBinStrVal : vpiHexStrVal;
-        vpi_->vpi_get_value(handle, &v);
-        std::string result = v.value.str;
-        if (is_slice) [[unlikely]] {
-            result = get_slice(result, mock_slice_handles_.at(request_handle));
+        auto result = get_raw_str_value(handle, slice ? vpiBinStrVal : vpiHexStrVal);
+        if (slice) [[unlikely]] {
+            result = get_slice(result, *slice);
         }
         // we only add 0x to any signal that has more than 1bit
         auto width = get_vpi_size(request_handle);
@@ -402,6 +411,27 @@ bool RTLSimulatorClient::set_value(vpiHandle handle, int64_t value) {
     vpi_value.value.integer = static_cast<int>(value);
     vpi_value.format = vpiIntVal;
 
+    std::string bits;
+    auto slice = get_mock_slice(handle);
+    if (slice) handle = std::get<0>(*slice);
+    auto width = get_vpi_size(handle);
+    if (slice || width > 32) [[unlikely]] {
+        // vpiIntVal only has the lower 32 bits, and the simulator doesn't know about slices
+        uint64_t hi = width, lo = 0;
+        if (slice) {
+            bits = get_raw_str_value(handle, vpiBinStrVal);
+            hi = std::get<1>(*slice) + static_cast<uint64_t>(1);
+            lo = std::get<2>(*slice);
+        }
+        if (bits.size() < width) bits.insert(0, width - bits.size(), '0');
+        for (auto i = lo; i < hi && i < bits.size(); i++) {
+            auto bit = i - lo < 64 ? (static_cast<uint64_t>(value) >> (i - lo)) & 1 : value < 0;
+            bits[bits.size() - 1 - i] = bit ? '1' : '0';
+        }
+        vpi_value.value.str = bits.data();
+        vpi_value.format = vpiBinStrVal;
+    }
+
     // If the flag argument also has the bit mask vpiReturnEvent,
     // vpi_put_value() shall return a handle of type vpiSchedEvent to the newly scheduled event,
     // provided there is some form of a delay and an event is scheduled.
@@ -989,7 +1019,7 @@ void RTLSimulatorClient::set_vpi_allocator(const std::function<vpiHandle()> &fun
 PLI_INT32 RTLSimulatorClient::get_vpi_type(vpiHandle handle) {
     if (!handle) return vpiError;
     // the simulator doesn't know about the slices we made up
-    if (mock_slice_handles_.find(handle) != mock_slice_handles_.end()) [[unlikely]]
+    if (get_mock_slice(handle)) [[unlikely]]
         return vpiPartSelect;
     std::lock_guard guard(cached_vpi_types_lock_);
     if (cached_vpi_types_.find(handle) != cached_vpi_types_.end()) [[likely]] {
@@ -1003,8 +1033,8 @@ PLI_INT32 RTLSimulatorClient::get_vpi_type(vpiHandle handle) {
 
 uint32_t RTLSimulatorClient::get_vpi_size(vpiHandle handle) {
     if (!handle) return 0;
-    if (auto it = mock_slice_handles_.find(handle); it != mock_slice_handles_.end()) [[unlikely]] {
-        auto const &[parent, hi, lo] = it->second;
+    if (auto slice = get_mock_slice(handle)) [[unlikely]] {
+        auto const &[parent, hi, lo] = *slice;
         return hi - lo + 1;
     }
     std::lock_guard guard(cached_vpi_size_lock_);
@@ -1020,6 +1050,25 @@ uint32_t RTLSimulatorClient::get_vpi_size(vpiHandle handle) {
     }
 }
 
+std::optional<std::tuple<vpiHandle, uint32_t, uint32_t>> RTLSimulatorClient::get_mock_slice(
+    vpiHandle handle) {
+    auto it = mock_slice_handles_.find(handle);
+    if (it == mock_slice_handles_.end()) [[likely]] {
+        return std::nullopt;
+    }
+    return it->second;
+}
+
+std::string RTLSimulatorClient::get_raw_str_value(vpiHandle handle, PLI_INT32 format) {
+    // the string belongs to the simulator and is only valid until the next one is requested
+    static std::mutex lock;
+    std::lock_guard guard(lock);
+    s_vpi_value v;
+    v.format = format;
+    vpi_->vpi_get_value(handle, &v);
+    return v.value.str;
+}
+
 RTLSimulatorClient::~RTLSimulatorClient() {
     // free callback handles
     for (auto const &iter : cb_handles_) {
diff --git a/src/rtl.hh b/src/rtl.hh
index d829b69..8f7c232 100644
--- a/src/rtl.hh
+++ b/src/rtl.hh
@@ -222,6 +222,9 @@ private:
     // cached helper methods
     PLI_INT32 get_vpi_type(vpiHandle handle);
     uint32_t get_vpi_size(vpiHandle handle);
+    // parent, hi, and lo if it's a slice we made up
+    std::optional<std::tuple<vpiHandle, uint32_t, uint32_t>> get_mock_slice(vpiHandle handle);
+    std::string get_raw_str_value(vpiHandle handle, PLI_INT32 format);
 
     // other helper functions
     void remove_call_back(vpiHandle cb_handle);
-- 
2.43.0


From a18b67e4627c6ad5caf14d862a391837fccf9483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:18 +0000
Subject: [PATCH 52/56] fix: slices of different designs share their handles

---
 src/rtl.cc | 7 ++++++-
 src/rtl.hh | 1 -
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rtl.cc b/src/rtl.cc
index 2dbdaf1..ce18d1e 100644
--- a/src/rtl.cc
+++ b/src/rtl.cc
@@ -2,6 +2,7 @@
 
 #include <fmt/format.h>
 
+#include <atomic>
 #include <cstdarg>
 #include <queue>
 #include <unordered_set>
@@ -1133,7 +1134,11 @@ vpiHandle RTLSimulatorClient::add_mock_slice_vpi(vpiHandle parent, const std::st
     auto slice_num = extract_slice(slice);
     if (!slice_num) return nullptr;
     auto [hi, lo] = *slice_num;
-    auto *new_handle = vpi_allocator_ ? (*vpi_allocator_)() : ++mock_slice_handle_counter_;
+    // values are cached by handle, no matter which design it is from
+    static std::atomic<uintptr_t> num_slices = 0;
+    auto *new_handle = vpi_allocator_
+                           ? (*vpi_allocator_)()
+                           : reinterpret_cast<vpiHandle>(++num_slices * sizeof(PLI_UINT32));
     mock_slice_handles_.emplace(new_handle, std::make_tuple(parent, hi, lo));
     return new_handle;
 }
diff --git a/src/rtl.hh b/src/rtl.hh
index 8f7c232..4a03597 100644
--- a/src/rtl.hh
+++ b/src/rtl.hh
@@ -191,7 +191,6 @@ private:
     // simulator vendors that deal with slices. As a result, we need to fake vpiHandles to deal
     // with slices
     std::unordered_map<vpiHandle, std::tuple<vpiHandle, uint32_t, uint32_t>> mock_slice_handles_;
-    vpiHandle mock_slice_handle_counter_ = nullptr;
     std::optional<std::function<vpiHandle()>> vpi_allocator_;
 
     // simulator info
-- 
2.43.0


From 612ac3ac6d43d91ec577cbcbfd46939f382882b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:49 +0000
Subject: [PATCH 53/56] fix: the replay skips changes and reports ones that
 don't happen

---
 tools/hgdb-replay/engine.cc | 44 +++++++++++++++++--------------------
 tools/hgdb-replay/engine.hh |  3 ++-
 tools/hgdb-replay/vpi.hh    |  1 +
 3 files changed, 23 insertions(+), 25 deletions(-)

diff --git a/tools/hgdb-replay/engine.cc b/tools/hgdb-replay/engine.cc
index 1ebeb9c..1e476b1 100644
--- a/tools/hgdb-replay/engine.cc
+++ b/tools/hgdb-replay/engine.cc
@@ -43,14 +43,16 @@ void EmulationEngine::finish() {
 void EmulationEngine::on_cb_added(p_cb_data cb_data) {
     auto* handle = cb_data->obj;
     if (vpi_->is_valid_handle(handle)) {
-        watched_values_.emplace(std::make_pair(handle, std::nullopt));
+        // a signal can be watched by several callbacks
+        watched_handles_[handle]++;
     }
 }
 
 void EmulationEngine::on_cb_removed(const s_cb_data& cb_data) {
     auto* handle = cb_data.obj;
-    if (watched_values_.find(handle) != watched_values_.end()) {
-        watched_values_.erase(handle);
+    auto it = watched_handles_.find(handle);
+    if (it != watched_handles_.end() && --it->second == 0) {
+        watched_handles_.erase(it);
     }
 }
 
@@ -62,7 +64,8 @@ bool EmulationEngine::on_rewound(hgdb::AVPIProvider::rewind_data* rewind_data) {
         auto signal = vpi_->get_signal_id(handle);
         if (signal) {
             auto time = vpi_->db().get_prev_value_change_time(*signal, max_time, "1");
-            if (time) {
+            // the value at time 0 is the initial one, not an edge
+            if (time && *time > 0) {
                 times.emplace_back(*time);
             }
         }
@@ -84,18 +87,15 @@ void EmulationEngine::emulation_loop() {
         std::sort(times.begin(), times.end());
         // only need the first signal
         auto time = times[0];
-        // change time to the place where value changes happens
-        change_time(time);
-        // retrieve all the watched values and compare their value change
-        std::unordered_map<vpiHandle, int64_t> changed_values;
-        for (auto const& [handle, pre_value] : watched_values_) {
-            s_vpi_value value_p;
-            value_p.format = vpiIntVal;
-            vpi_->vpi_get_value(handle, &value_p);
-            auto current_value = value_p.value.integer;
-            if (!pre_value || (pre_value && (*pre_value != current_value))) {
+        // compare the values of all the watched signals before and after the change
+        std::vector<std::pair<vpiHandle, int64_t>> changed_values;
+        for (auto const& [handle, count] : watched_handles_) {
+            auto signal_id = vpi_->get_signal_id(handle);
+            if (!signal_id) continue;
+            auto value = vpi_->db().get_signal_value(*signal_id, time);
+            if (value && value != vpi_->db().get_signal_value(*signal_id, time - 1)) {
                 // this is a value change
-                changed_values.emplace(handle, current_value);
+                changed_values.emplace_back(handle, convert_value(*value));
             }
         }
         // notice that since we are doing emulation, at the callback only that particular
@@ -122,18 +122,14 @@ void EmulationEngine::emulation_loop() {
         vpi_->clear_overridden_values();
 
         // advance the timestamp
-        // depends on the timestamp value, we decides differently
         // there might be a race condition here
         // i.e. when we are doing comparison and user send a time change request
         // however this is an undefined behavior since we don't expect user to send
         // requests when the simulator is running. only when the simulator is paused is
         // the request well-defined. in this case, inside the trigger_cb call
-        if (timestamp_.load() == (time - 1)) {
-            change_time(time + 1);
-        } else {
-            // advance the timestamp a little to align the proper clock period
-            timestamp_.fetch_add(1);
-        }
+        // notice that the next change is looked up after this timestamp, so we advance
+        // exactly to the time that is dealt with, whether or not it has been rewound
+        change_time(timestamp_.load() + 1);
     }
 }
 
@@ -144,8 +140,8 @@ void EmulationEngine::change_time(uint64_t time) {
 
 std::vector<uint64_t> EmulationEngine::get_next_changed_times() {
     std::vector<uint64_t> times;
-    times.reserve(watched_values_.size());
-    for (auto const& iter : watched_values_) {
+    times.reserve(watched_handles_.size());
+    for (auto const& iter : watched_handles_) {
         auto signal_id = vpi_->get_signal_id(iter.first);
         if (signal_id) {
             auto time = vpi_->db().get_next_value_change_time(*signal_id, timestamp_);
diff --git a/tools/hgdb-replay/engine.hh b/tools/hgdb-replay/engine.hh
index ce5a270..e44aded 100644
--- a/tools/hgdb-replay/engine.hh
+++ b/tools/hgdb-replay/engine.hh
@@ -19,7 +19,8 @@ public:
 private:
     ReplayVPIProvider* vpi_;
     std::atomic<uint64_t> timestamp_ = 0;
-    std::map<vpiHandle, std::optional<int64_t>> watched_values_;
+    // signals with value change callbacks, and how many of them
+    std::map<vpiHandle, uint64_t> watched_handles_;
 
     // use for non-blocking conditions
     // normally it's for testing
diff --git a/tools/hgdb-replay/vpi.hh b/tools/hgdb-replay/vpi.hh
index 1bdc2eb..26e60e7 100644
--- a/tools/hgdb-replay/vpi.hh
+++ b/tools/hgdb-replay/vpi.hh
@@ -8,6 +8,7 @@
 
 namespace hgdb::replay {
 // helper functions
+int64_t convert_value(const std::string &raw_value);
 std::string convert_str_value(const std::string &raw_value);
 
 class ReplayVPIProvider : public hgdb::AVPIProvider {
-- 
2.43.0


From b98e6f1b3c4fbe74b4938adda7caf2aa0374f425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:49 +0000
Subject: [PATCH 54/56] fix: callbacks added by a callback invalidate the
 replay's iteration

---
 tools/hgdb-replay/vpi.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tools/hgdb-replay/vpi.cc b/tools/hgdb-replay/vpi.cc
index a32d13e..687b678 100644
--- a/tools/hgdb-replay/vpi.cc
+++ b/tools/hgdb-replay/vpi.cc
@@ -437,8 +437,15 @@ bool ReplayVPIProvider::is_valid_handle(const vpiHandle handle) const {
 }
 
 void ReplayVPIProvider::trigger_cb(uint32_t reason, vpiHandle handle, int64_t value) {  // NOLINT
-    for (auto const &iter : callbacks_) {
-        auto cb_data = iter.second;
+    // callbacks can be added and removed while being called
+    std::vector<vpiHandle> handles;
+    handles.reserve(callbacks_.size());
+    for (auto const &iter : callbacks_) handles.emplace_back(iter.first);
+    auto const time = current_time_;
+    for (auto const &cb_handle : handles) {
+        // the callback may change the time, after which it's not this change anymore
+        if (reason == cbValueChange && current_time_ != time) return;
+        auto cb_data = callbacks_.at(cb_handle);
         if (cb_data.deleted) continue;
         s_vpi_value vpi_value;
         if (cb_data.data.reason == reason) {
-- 
2.43.0


From d904e6ec0d1eabe319244a7fd60c08e29e81b907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:49 +0000
Subject: [PATCH 55/56] fix: the replay's arguments dangle once one is added

---
 tools/hgdb-replay/vpi.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/tools/hgdb-replay/vpi.cc b/tools/hgdb-replay/vpi.cc
index 687b678..b7aef91 100644
--- a/tools/hgdb-replay/vpi.cc
+++ b/tools/hgdb-replay/vpi.cc
@@ -401,18 +401,17 @@ bool ReplayVPIProvider::vpi_rewind(rewind_data *rewind_data) {
 void ReplayVPIProvider::set_argv(int argc, char **argv) {
     argv_str_.reserve(argc);
     for (int i = 0; i < argc; i++) {
-        std::string arg = argv[i];
-        argv_str_.emplace_back(arg);
-    }
-    argv_.reserve(argv_str_.size());
-    for (auto const &arg : argv_str_) {
-        argv_.emplace_back(const_cast<char *>(arg.c_str()));
+        add_argv(argv[i]);
     }
 }
 
 void ReplayVPIProvider::add_argv(const std::string &arg) {
     argv_str_.emplace_back(arg);
-    argv_.emplace_back(const_cast<char *>(argv_str_.back().c_str()));
+    // the strings may have been moved
+    argv_.clear();
+    for (auto &str : argv_str_) {
+        argv_.emplace_back(str.data());
+    }
 }
 
 void ReplayVPIProvider::set_on_cb_added(const std::function<void(p_cb_data)> &on_cb_added) {
-- 
2.43.0


From e02b37b25b6795103ec4c5fe818a560f92fb9444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:49 +0000
Subject: [PATCH 56/56] fix: values of array elements and wide signals in a
 replay

---
 tools/hgdb-replay/vpi.cc | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/tools/hgdb-replay/vpi.cc b/tools/hgdb-replay/vpi.cc
index b7aef91..877ee18 100644
--- a/tools/hgdb-replay/vpi.cc
+++ b/tools/hgdb-replay/vpi.cc
@@ -20,7 +20,7 @@ int64_t convert_value(const std::string &raw_value) {
         auto bit = bits - i - 1;
         char v = raw_value[i];
         if (v == '1') {
-            result |= 1 << bit;
+            if (bit < 64) result |= static_cast<int64_t>(1ull << bit);
         } else if (v == 'z' || v == 'x') {
             // invalid value we display 0, which is consistent with Verilator
             return 0;
@@ -29,6 +29,13 @@ int64_t convert_value(const std::string &raw_value) {
     return result;
 }
 
+// values are recorded without redundant leading bits
+std::string extend_value(const std::string &raw_value, uint64_t width) {
+    if (raw_value.size() >= width) return raw_value;
+    auto bit = raw_value.empty() || raw_value[0] == '1' ? '0' : raw_value[0];
+    return std::string(width - raw_value.size(), bit) + raw_value;
+}
+
 std::string convert_str_value(const std::string &raw_value) {
     uint64_t bits = raw_value.size();
     std::string result;
@@ -112,17 +119,23 @@ void ReplayVPIProvider::vpi_get_value(vpiHandle expr, p_vpi_value value_p) {
         auto signal_id = signal_id_map_.at(expr);
         auto value = db_->get_signal_value(signal_id, current_time_);
         if (value) {
+            auto signal = db_->get_signal(signal_id);
+            // only the leading x and z matter
+            if (signal && !value->empty() && value->front() != '0' && value->front() != '1') {
+                value = extend_value(*value, signal->width);
+            }
             set_value(value_p, *value, str_buffer_);
         } else {
             // if unable to get value, 0 should be returned
             set_value(value_p, 0, str_buffer_);
         }
     } else if (array_info_.find(expr) != array_info_.end()) {
-        // if there is any error, we return
-        value_p->value.integer = 0;
-        value_p->value.str = nullptr;
         auto info = get_array_info(expr);
-        if (!info) return;
+        if (!info) {
+            // if there is any error, 0 should be returned
+            set_value(value_p, 0, str_buffer_);
+            return;
+        }
         auto hi = info->hi;
         auto lo = info->lo;
         auto width = hi - lo;
@@ -131,6 +144,9 @@ void ReplayVPIProvider::vpi_get_value(vpiHandle expr, p_vpi_value value_p) {
         lo = hi - width;
         auto value = info->raw_value.substr(lo, hi - lo);
         set_value(value_p, value, str_buffer_);
+    } else {
+        // not a value
+        set_value(value_p, 0, str_buffer_);
     }
 }
 
@@ -142,6 +158,12 @@ PLI_INT32 ReplayVPIProvider::vpi_get(PLI_INT32 property, vpiHandle object) {
         if (instance_id_map_.find(object) != instance_id_map_.end()) {
             return vpiModule;
         }
+        if (array_info_.find(object) != array_info_.end()) {
+            return vpiNet;
+        }
+        if (array_map_.find(object) != array_map_.end()) {
+            return vpiNetArray;
+        }
     } else if (property == vpiSize) {
         // don't care about vpi size since we can't read array size from VCD files
         // it has to be a signal
@@ -598,8 +620,8 @@ std::optional<ReplayVPIProvider::PackedArrayInfo> ReplayVPIProvider::get_array_i
     auto const &[parent_handle, slice_info] = array_info_.at(expr);
     if (signal_id_map_.find(parent_handle) != signal_id_map_.end()) {
         auto raw_value = db_->get_signal_value(signal_id_map_.at(parent_handle), current_time_);
-        if (!raw_value) return std::nullopt;
         auto signal = db_->get_signal(signal_id_map_.at(parent_handle));
+        raw_value = extend_value(raw_value ? *raw_value : "0", signal->width);
         auto array_size = array_map_.at(parent_handle).size();
         auto slice_size = signal->width / array_size;
         uint32_t lo = slice_size * slice_info[0];
-- 
2.43.0

