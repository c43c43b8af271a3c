From 7c5469e20fbdaf179b50f571d2b543ce3c99585d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:06 +0000
Subject: [PATCH 01/24] fix: Choice repeats the child of an index that occurs
 more than once

The documentation says that an index repeated inside the array repeats the
corresponding child, but a child that had succeeded was skipped.
---
 src/lib/sup/oac-tree/instructions/choice.cpp | 58 ++++++++------------
 src/lib/sup/oac-tree/instructions/choice.h   |  3 +
 2 files changed, 27 insertions(+), 34 deletions(-)

diff --git a/src/lib/sup/oac-tree/instructions/choice.cpp b/src/lib/sup/oac-tree/instructions/choice.cpp
index ed00ae3..b9f0b6b 100644
--- a/src/lib/sup/oac-tree/instructions/choice.cpp
+++ b/src/lib/sup/oac-tree/instructions/choice.cpp
@@ -46,6 +46,7 @@ Choice::Choice()
   : CompoundInstruction(Choice::Type)
   , m_instruction_list{}
   , m_instruction_list_initialized{false}
+  , m_current{0}
 {
   AddAttributeDefinition(Constants::GENERIC_VARIABLE_NAME_ATTRIBUTE_NAME)
     .SetCategory(AttributeCategory::kVariableName).SetMandatory();
@@ -64,17 +65,19 @@ ExecutionStatus Choice::ExecuteSingleImpl(UserInterface& ui, Workspace& ws)
     }
     return ExecutionStatus::NOT_FINISHED;
   }
-  for (auto instruction : m_instruction_list)
+  if (m_current < m_instruction_list.size())
   {
-    auto child_status = instruction->GetStatus();
-    if (child_status == ExecutionStatus::SUCCESS)
+    auto instruction = m_instruction_list[m_current];
+    instruction->ExecuteSingle(ui, ws);
+    if (instruction->GetStatus() == ExecutionStatus::SUCCESS)
     {
-      continue;
-    }
-    if (NeedsExecute(child_status))
-    {
-      instruction->ExecuteSingle(ui, ws);
-      break;
+      ++m_current;
+      // A repeated index needs to execute the same child again:
+      if (m_current < m_instruction_list.size()
+          && m_instruction_list[m_current]->GetStatus() == ExecutionStatus::SUCCESS)
+      {
+        m_instruction_list[m_current]->Reset(ui);
+      }
     }
   }
   return CalculateCompoundStatus();
@@ -84,25 +87,17 @@ void Choice::ResetHook(UserInterface& ui)
 {
   m_instruction_list.clear();
   m_instruction_list_initialized = false;
+  m_current = 0;
   ResetChildren(ui);
 }
 
 std::vector<const Instruction*> Choice::NextInstructionsImpl() const
 {
   std::vector<const Instruction*> result;
-  for (auto instruction : m_instruction_list)
+  if (m_current < m_instruction_list.size()
+      && ReadyForExecute(m_instruction_list[m_current]->GetStatus()))
   {
-    auto child_status = instruction->GetStatus();
-    if (child_status == ExecutionStatus::SUCCESS)
-    {
-      continue;
-    }
-    if (ReadyForExecute(child_status))
-    {
-      result.push_back(instruction);
-      return result;
-    }
-    break;
+    result.push_back(m_instruction_list[m_current]);
   }
   return result;
 }
@@ -143,21 +138,16 @@ bool Choice::CreateInstructionList(UserInterface& ui, Workspace& ws)
 
 ExecutionStatus Choice::CalculateCompoundStatus() const
 {
-  for (auto instruction : m_instruction_list)
+  if (m_current >= m_instruction_list.size())
   {
-    auto child_status = instruction->GetStatus();
-    if (child_status == ExecutionStatus::SUCCESS)
-    {
-      continue;
-    }
-    if (child_status == ExecutionStatus::NOT_STARTED
-        || child_status == ExecutionStatus::NOT_FINISHED)
-    {
-      return ExecutionStatus::NOT_FINISHED;
-    }
-    return child_status;
+    return ExecutionStatus::SUCCESS;
+  }
+  auto child_status = m_instruction_list[m_current]->GetStatus();
+  if (child_status == ExecutionStatus::NOT_STARTED)
+  {
+    return ExecutionStatus::NOT_FINISHED;
   }
-  return ExecutionStatus::SUCCESS;
+  return child_status;
 }
 
 }  // namespace oac_tree
diff --git a/src/lib/sup/oac-tree/instructions/choice.h b/src/lib/sup/oac-tree/instructions/choice.h
index 7c4ceef..f318378 100644
--- a/src/lib/sup/oac-tree/instructions/choice.h
+++ b/src/lib/sup/oac-tree/instructions/choice.h
@@ -53,6 +53,9 @@ private:
 
   bool m_instruction_list_initialized;
 
+  // Position in the list of the child that is executed or needs to be executed next
+  std::size_t m_current;
+
   ExecutionStatus ExecuteSingleImpl(UserInterface& ui, Workspace& ws) override;
 
   void ResetHook(UserInterface& ui) override;
-- 
2.43.0


From 7ffed0a9a0263009790dac5ac0be51eb59a2369c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:03 +0000
Subject: [PATCH 02/24] fix: user input instructions synchronise halting with
 polling the input

Halt is called from another thread and reset the future while the executing
thread polled it, which could end in a null dereference.
---
 src/lib/sup/oac-tree/instructions/input.cpp   | 29 ++++++++++++++-----
 src/lib/sup/oac-tree/instructions/input.h     |  2 ++
 .../sup/oac-tree/instructions/user_choice.cpp | 29 ++++++++++++++-----
 .../sup/oac-tree/instructions/user_choice.h   |  3 ++
 .../instructions/user_confirmation.cpp        | 29 ++++++++++++++-----
 .../oac-tree/instructions/user_confirmation.h |  4 +++
 6 files changed, 75 insertions(+), 21 deletions(-)

diff --git a/src/lib/sup/oac-tree/instructions/input.cpp b/src/lib/sup/oac-tree/instructions/input.cpp
index 6c145c3..7efdc72 100644
--- a/src/lib/sup/oac-tree/instructions/input.cpp
+++ b/src/lib/sup/oac-tree/instructions/input.cpp
@@ -38,6 +38,7 @@ const std::string Input::Type = "Input";
 Input::Input()
   : Instruction(Input::Type)
   , m_future{}
+  , m_future_mtx{}
 {
   AddAttributeDefinition(Constants::OUTPUT_VARIABLE_NAME_ATTRIBUTE_NAME)
     .SetCategory(AttributeCategory::kVariableName).SetMandatory();
@@ -59,17 +60,19 @@ bool Input::InitHook(UserInterface& ui, Workspace& ws)
   {
     return false;
   }
-  m_future = CreateUserValueFuture(ui, *this, value, description);
-  if (!m_future)
+  auto future = CreateUserValueFuture(ui, *this, value, description);
+  if (!future)
   {
     return false;
   }
+  std::lock_guard<std::mutex> lk{m_future_mtx};
+  m_future = std::move(future);
   return true;
 }
 
 ExecutionStatus Input::ExecuteSingleImpl(UserInterface& ui, Workspace& ws)
 {
-  if (IsHaltRequested() || !m_future)
+  if (IsHaltRequested())
   {
     return ExecutionStatus::FAILURE;
   }
@@ -83,16 +86,28 @@ void Input::ResetHook(UserInterface& ui)
 
 void Input::HaltImpl()
 {
-  m_future.reset();
+  std::unique_ptr<IUserInputFuture> future;
+  {
+    std::lock_guard<std::mutex> lk{m_future_mtx};
+    std::swap(future, m_future);
+  }
 }
 
 ExecutionStatus Input::PollInputFuture(UserInterface& ui, Workspace& ws)
 {
-  if (!m_future->IsReady())
+  UserInputReply reply{};
   {
-    return ExecutionStatus::RUNNING;
+    std::lock_guard<std::mutex> lk{m_future_mtx};
+    if (!m_future)
+    {
+      return ExecutionStatus::FAILURE;
+    }
+    if (!m_future->IsReady())
+    {
+      return ExecutionStatus::RUNNING;
+    }
+    reply = m_future->GetValue();
   }
-  auto reply = m_future->GetValue();
   auto [success, user_value] = ParseUserValueReply(reply);
   if (!success)
   {
diff --git a/src/lib/sup/oac-tree/instructions/input.h b/src/lib/sup/oac-tree/instructions/input.h
index 32ed0e9..bd37e5e 100644
--- a/src/lib/sup/oac-tree/instructions/input.h
+++ b/src/lib/sup/oac-tree/instructions/input.h
@@ -26,6 +26,7 @@
 #include <sup/oac-tree/instruction.h>
 
 #include <memory>
+#include <mutex>
 
 namespace sup
 {
@@ -49,6 +50,7 @@ public:
 
 private:
   std::unique_ptr<IUserInputFuture> m_future;
+  std::mutex m_future_mtx;  // Halt can be called from another thread
 
   bool InitHook(UserInterface& ui, Workspace& ws) override;
 
diff --git a/src/lib/sup/oac-tree/instructions/user_choice.cpp b/src/lib/sup/oac-tree/instructions/user_choice.cpp
index 69a569e..76cab1f 100644
--- a/src/lib/sup/oac-tree/instructions/user_choice.cpp
+++ b/src/lib/sup/oac-tree/instructions/user_choice.cpp
@@ -36,6 +36,7 @@ UserChoice::UserChoice()
   : CompoundInstruction(UserChoice::Type)
   , m_choice{-1}
   , m_future{}
+  , m_future_mtx{}
 {
   AddAttributeDefinition(Constants::DESCRIPTION_ATTRIBUTE_NAME)
     .SetCategory(AttributeCategory::kBoth);
@@ -55,27 +56,37 @@ bool UserChoice::InitHook(UserInterface& ui, Workspace& ws)
   metadata.AddMember(Constants::USER_CHOICES_DIALOG_TYPE_NAME,
                      {sup::dto::UnsignedInteger32Type, dialog_type::kSelection});
   auto options = GetChoices();
-  m_future = CreateUserChoiceFuture(ui, *this, options, metadata);
-  if (!m_future)
+  auto future = CreateUserChoiceFuture(ui, *this, options, metadata);
+  if (!future)
   {
     return false;
   }
+  std::lock_guard<std::mutex> lk{m_future_mtx};
+  m_future = std::move(future);
   return true;
 }
 
 ExecutionStatus UserChoice::ExecuteSingleImpl(UserInterface& ui, Workspace& ws)
 {
-  if (IsHaltRequested() || !m_future)
+  if (IsHaltRequested())
   {
     return ExecutionStatus::FAILURE;
   }
   if (m_choice < 0)
   {
-    if (!m_future->IsReady())
+    UserInputReply reply{};
     {
-      return ExecutionStatus::RUNNING;
+      std::lock_guard<std::mutex> lk{m_future_mtx};
+      if (!m_future)
+      {
+        return ExecutionStatus::FAILURE;
+      }
+      if (!m_future->IsReady())
+      {
+        return ExecutionStatus::RUNNING;
+      }
+      reply = m_future->GetValue();
     }
-    auto reply = m_future->GetValue();
     auto [success, choice] = ParseUserChoiceReply(reply);
     if (!success)
     {
@@ -109,7 +120,11 @@ void UserChoice::ResetHook(UserInterface& ui)
 
 void UserChoice::HaltImpl()
 {
-  m_future.reset();
+  std::unique_ptr<IUserInputFuture> future;
+  {
+    std::lock_guard<std::mutex> lk{m_future_mtx};
+    std::swap(future, m_future);
+  }
 }
 
 std::vector<const Instruction*> UserChoice::NextInstructionsImpl() const
diff --git a/src/lib/sup/oac-tree/instructions/user_choice.h b/src/lib/sup/oac-tree/instructions/user_choice.h
index c9be1da..60c2dee 100644
--- a/src/lib/sup/oac-tree/instructions/user_choice.h
+++ b/src/lib/sup/oac-tree/instructions/user_choice.h
@@ -25,6 +25,8 @@
 
 #include <sup/oac-tree/compound_instruction.h>
 
+#include <memory>
+#include <mutex>
 #include <string>
 #include <vector>
 
@@ -50,6 +52,7 @@ public:
 private:
   sup::dto::int32 m_choice;
   std::unique_ptr<IUserInputFuture> m_future;
+  std::mutex m_future_mtx;  // Halt can be called from another thread
 
   bool InitHook(UserInterface& ui, Workspace& ws) override;
 
diff --git a/src/lib/sup/oac-tree/instructions/user_confirmation.cpp b/src/lib/sup/oac-tree/instructions/user_confirmation.cpp
index 05bfd65..295ac72 100644
--- a/src/lib/sup/oac-tree/instructions/user_confirmation.cpp
+++ b/src/lib/sup/oac-tree/instructions/user_confirmation.cpp
@@ -37,6 +37,7 @@ const std::string DEFAULT_CANCEL_TEXT = "Cancel";
 UserConfirmation::UserConfirmation()
   : Instruction(UserConfirmation::Type)
   , m_future{}
+  , m_future_mtx{}
 {
   AddAttributeDefinition(Constants::DESCRIPTION_ATTRIBUTE_NAME)
     .SetCategory(AttributeCategory::kBoth).SetMandatory();
@@ -69,17 +70,19 @@ bool UserConfirmation::InitHook(UserInterface& ui, Workspace& ws)
   metadata.AddMember(Constants::USER_CHOICES_DIALOG_TYPE_NAME,
                      {sup::dto::UnsignedInteger32Type, dialog_type::kConfirmation});
   std::vector<std::string> options = { ok_text, cancel_text };
-  m_future = CreateUserChoiceFuture(ui, *this, options, metadata);
-  if (!m_future)
+  auto future = CreateUserChoiceFuture(ui, *this, options, metadata);
+  if (!future)
   {
     return false;
   }
+  std::lock_guard<std::mutex> lk{m_future_mtx};
+  m_future = std::move(future);
   return true;
 }
 
 ExecutionStatus UserConfirmation::ExecuteSingleImpl(UserInterface& ui, Workspace& ws)
 {
-  if (IsHaltRequested() || !m_future)
+  if (IsHaltRequested())
   {
     return ExecutionStatus::FAILURE;
   }
@@ -93,16 +96,28 @@ void UserConfirmation::ResetHook(UserInterface& ui)
 
 void UserConfirmation::HaltImpl()
 {
-  m_future.reset();
+  std::unique_ptr<IUserInputFuture> future;
+  {
+    std::lock_guard<std::mutex> lk{m_future_mtx};
+    std::swap(future, m_future);
+  }
 }
 
 ExecutionStatus UserConfirmation::PollInputFuture(UserInterface& ui, Workspace& ws)
 {
-  if (!m_future->IsReady())
+  UserInputReply reply{};
   {
-    return ExecutionStatus::RUNNING;
+    std::lock_guard<std::mutex> lk{m_future_mtx};
+    if (!m_future)
+    {
+      return ExecutionStatus::FAILURE;
+    }
+    if (!m_future->IsReady())
+    {
+      return ExecutionStatus::RUNNING;
+    }
+    reply = m_future->GetValue();
   }
-  auto reply = m_future->GetValue();
   auto [success, choice] = ParseUserChoiceReply(reply);
   if (!success)
   {
diff --git a/src/lib/sup/oac-tree/instructions/user_confirmation.h b/src/lib/sup/oac-tree/instructions/user_confirmation.h
index 086299f..ed052c6 100644
--- a/src/lib/sup/oac-tree/instructions/user_confirmation.h
+++ b/src/lib/sup/oac-tree/instructions/user_confirmation.h
@@ -25,6 +25,9 @@
 
 #include <sup/oac-tree/instruction.h>
 
+#include <memory>
+#include <mutex>
+
 namespace sup
 {
 namespace oac_tree
@@ -44,6 +47,7 @@ public:
 
 private:
   std::unique_ptr<IUserInputFuture> m_future;
+  std::mutex m_future_mtx;  // Halt can be called from another thread
 
   bool InitHook(UserInterface& ui, Workspace& ws) override;
 
-- 
2.43.0


From a5deb3b55cc409adbc84d81d56b1ba85ebd968ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:03 +0000
Subject: [PATCH 03/24] fix: halting a UserChoice halts its children

---
 src/lib/sup/oac-tree/instructions/user_choice.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/sup/oac-tree/instructions/user_choice.cpp b/src/lib/sup/oac-tree/instructions/user_choice.cpp
index 76cab1f..3a20a46 100644
--- a/src/lib/sup/oac-tree/instructions/user_choice.cpp
+++ b/src/lib/sup/oac-tree/instructions/user_choice.cpp
@@ -125,6 +125,7 @@ void UserChoice::HaltImpl()
     std::lock_guard<std::mutex> lk{m_future_mtx};
     std::swap(future, m_future);
   }
+  HaltChildren();
 }
 
 std::vector<const Instruction*> UserChoice::NextInstructionsImpl() const
-- 
2.43.0


From b81b55afd4c6bab2a4780374bfa04b6b7eec3f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:26 +0000
Subject: [PATCH 04/24] fix: a run that stops at no breakpoint reports none

Runner kept the instructions of an earlier breakpoint when the next run was
never again about to start an instruction (breakpoint, step to a running
instruction, start). AsyncRunner then reported the finished job as paused.
---
 src/lib/sup/oac-tree/runner/runner.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/sup/oac-tree/runner/runner.cpp b/src/lib/sup/oac-tree/runner/runner.cpp
index 70abdd8..43f9b82 100644
--- a/src/lib/sup/oac-tree/runner/runner.cpp
+++ b/src/lib/sup/oac-tree/runner/runner.cpp
@@ -88,6 +88,7 @@ std::vector<Breakpoint> Runner::GetBreakpoints() const
 void Runner::ExecuteProcedure()
 {
   m_halt.store(false);
+  m_current_breakpoint_instructions.clear();
   if (!m_proc)
   {
     return;
-- 
2.43.0


From 4b7fcda16b928fbf2be8b61d907742caab872478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:28 +0000
Subject: [PATCH 05/24] fix: resetting a job re-arms the breakpoint at which it
 was stopped

A breakpoint stays released from the moment execution stops at it until the
next tick. When the job was halted and reset in between, the next run passed
the instruction without stopping.
---
 src/lib/sup/oac-tree/runner.h                | 7 +++++++
 src/lib/sup/oac-tree/runner/async_runner.cpp | 1 +
 src/lib/sup/oac-tree/runner/runner.cpp       | 5 +++++
 3 files changed, 13 insertions(+)

diff --git a/src/lib/sup/oac-tree/runner.h b/src/lib/sup/oac-tree/runner.h
index e86a039..dc4cfe6 100644
--- a/src/lib/sup/oac-tree/runner.h
+++ b/src/lib/sup/oac-tree/runner.h
@@ -109,6 +109,13 @@ public:
    */
   std::vector<Breakpoint> GetBreakpoints() const;
 
+  /**
+   * @brief Re-arm all breakpoints that were released when execution stopped at them.
+   *
+   * @note This member function should be called when the procedure is reset.
+   */
+  void ResetBreakpoints();
+
   /**
    * @brief Execute the procedure
    */
diff --git a/src/lib/sup/oac-tree/runner/async_runner.cpp b/src/lib/sup/oac-tree/runner/async_runner.cpp
index 1268140..cbd7174 100644
--- a/src/lib/sup/oac-tree/runner/async_runner.cpp
+++ b/src/lib/sup/oac-tree/runner/async_runner.cpp
@@ -244,6 +244,7 @@ AsyncRunner::Action AsyncRunner::HandleFinished(JobCommand command)
       break;
     case JobCommand::kReset:
       m_proc.Reset(m_ui);
+      m_runner.ResetBreakpoints();
       SetState(JobState::kInitial);
       break;
     case JobCommand::kHalt:
diff --git a/src/lib/sup/oac-tree/runner/runner.cpp b/src/lib/sup/oac-tree/runner/runner.cpp
index 43f9b82..eaafa04 100644
--- a/src/lib/sup/oac-tree/runner/runner.cpp
+++ b/src/lib/sup/oac-tree/runner/runner.cpp
@@ -85,6 +85,11 @@ std::vector<Breakpoint> Runner::GetBreakpoints() const
   return std::vector<Breakpoint>{ list.begin(), list.end() };
 }
 
+void Runner::ResetBreakpoints()
+{
+  m_breakpoint_manager->ResetBreakpoints();
+}
+
 void Runner::ExecuteProcedure()
 {
   m_halt.store(false);
-- 
2.43.0


From 891026ce8d4a1b508b061c15e05cb215e322f19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:29 +0000
Subject: [PATCH 06/24] fix: SimpleJobStateMonitor wakes every waiter on a
 state change

Several threads can wait for different states; with notify_one the waiter whose
condition holds may not be the one that is woken and then waits for ever.
---
 src/lib/sup/oac-tree/base/application_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/base/application_utils.cpp b/src/lib/sup/oac-tree/base/application_utils.cpp
index ed5c08a..31ea5e6 100644
--- a/src/lib/sup/oac-tree/base/application_utils.cpp
+++ b/src/lib/sup/oac-tree/base/application_utils.cpp
@@ -91,7 +91,7 @@ void SimpleJobStateMonitor::OnStateChange(JobState state) noexcept
     std::lock_guard<std::mutex> lk{m_mtx};
     m_state = state;
   }
-  m_cv.notify_one();
+  m_cv.notify_all();
 }
 
 void SimpleJobStateMonitor::OnBreakpointChange(const Instruction* instruction,
-- 
2.43.0


From 964bb0d9d204fbf53e5df15b69837feb63ed6094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:46 +0000
Subject: [PATCH 07/24] fix: a job's instruction states are updated under a
 lock

Breakpoints are changed by a controller's thread while the job's threads report
instruction statuses; both modified and read the same InstructionState.
---
 src/lib/sup/oac-tree/job_interface_adapter.h          | 2 ++
 src/lib/sup/oac-tree/runner/job_interface_adapter.cpp | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/src/lib/sup/oac-tree/job_interface_adapter.h b/src/lib/sup/oac-tree/job_interface_adapter.h
index 1444aa7..1f01246 100644
--- a/src/lib/sup/oac-tree/job_interface_adapter.h
+++ b/src/lib/sup/oac-tree/job_interface_adapter.h
@@ -29,6 +29,7 @@
 #include <sup/oac-tree/job_interface.h>
 #include <sup/oac-tree/job_map.h>
 
+#include <mutex>
 #include <vector>
 
 namespace sup
@@ -65,6 +66,7 @@ public:
 private:
   JobMap m_job_map;
   std::vector<InstructionState> m_instr_states;
+  std::mutex m_instr_states_mtx;
   IJobInfoIO& m_job_info_io;
   AsyncInputAdapter m_input_adapter;
 };
diff --git a/src/lib/sup/oac-tree/runner/job_interface_adapter.cpp b/src/lib/sup/oac-tree/runner/job_interface_adapter.cpp
index 47bf8db..3a331f8 100644
--- a/src/lib/sup/oac-tree/runner/job_interface_adapter.cpp
+++ b/src/lib/sup/oac-tree/runner/job_interface_adapter.cpp
@@ -42,6 +42,7 @@ using namespace std::placeholders;
 JobInterfaceAdapter::JobInterfaceAdapter(const Procedure& proc, IJobInfoIO& job_info_io)
   : m_job_map{proc}
   , m_instr_states{}
+  , m_instr_states_mtx{}
   , m_job_info_io{job_info_io}
   , m_input_adapter{std::bind(&ForwardUserInput, std::ref(m_job_info_io), _1, _2),
                     std::bind(&ForwardInterrupt, std::ref(m_job_info_io), _1)}
@@ -71,6 +72,9 @@ std::vector<const Instruction*> JobInterfaceAdapter::GetOrderedInstructions() co
 void JobInterfaceAdapter::UpdateInstructionStatus(const Instruction* instruction)
 {
   auto instr_idx = m_job_map.GetInstructionIndex(instruction);
+  // Instruction statuses and breakpoints are updated from different threads: keep the reported
+  // states consistent and in order.
+  std::lock_guard<std::mutex> lk{m_instr_states_mtx};
   auto status = instruction->GetStatus();
   auto& instr_state = m_instr_states[instr_idx];
   instr_state.m_execution_status = status;
@@ -115,6 +119,7 @@ void JobInterfaceAdapter::OnBreakpointChange(const Instruction* instruction,
                                              bool breakpoint_set) noexcept
 {
   auto instr_idx = m_job_map.GetInstructionIndex(instruction);
+  std::lock_guard<std::mutex> lk{m_instr_states_mtx};
   auto& instr_state = m_instr_states[instr_idx];
   instr_state.m_breakpoint_set = breakpoint_set;
   m_job_info_io.InstructionStateUpdated(instr_idx, instr_state);
-- 
2.43.0


From 37af81244301e97b9e56bf79575ab6cddec6679c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:28 +0000
Subject: [PATCH 08/24] fix: AsyncInputAdapter wakes every requester when an
 answer has come

Requesters wait for different answers; with notify_one the one whose answer has
come may not be the one that is woken and then sleeps until its time-out.
---
 src/lib/sup/oac-tree/base/async_input_adapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/base/async_input_adapter.cpp b/src/lib/sup/oac-tree/base/async_input_adapter.cpp
index aa4a0bc..74aa2be 100644
--- a/src/lib/sup/oac-tree/base/async_input_adapter.cpp
+++ b/src/lib/sup/oac-tree/base/async_input_adapter.cpp
@@ -100,7 +100,7 @@ void AsyncInputAdapter::HandleRequestQueue()
     if (m_current_id == id)
     {
       m_replies[m_current_id] = reply;
-      m_reply_cv.notify_one();
+      m_reply_cv.notify_all();
     }
     m_current_id = 0;
   }
-- 
2.43.0


From 33a106988d2102deb9cfe493e435065404760b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:28 +0000
Subject: [PATCH 09/24] fix: AsyncInputAdapter awaits its thread before its
 members are destroyed

The mutex and the condition variables are declared after the future of the
handler thread and were destroyed while that thread could still use them.
---
 src/lib/sup/oac-tree/base/async_input_adapter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/sup/oac-tree/base/async_input_adapter.cpp b/src/lib/sup/oac-tree/base/async_input_adapter.cpp
index 74aa2be..e22a2b5 100644
--- a/src/lib/sup/oac-tree/base/async_input_adapter.cpp
+++ b/src/lib/sup/oac-tree/base/async_input_adapter.cpp
@@ -60,6 +60,8 @@ AsyncInputAdapter::~AsyncInputAdapter()
     m_halt = true;
   }
   m_cv.notify_one();
+  // The handler thread uses members that are destroyed before the future that waits for it.
+  m_handler_future.wait();
 }
 
 std::unique_ptr<IUserInputFuture> AsyncInputAdapter::AddUserInputRequest(
-- 
2.43.0


From f9784beb6909ec2c792fac5fb3bdc228a9032181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:14 +0000
Subject: [PATCH 10/24] fix: waiting for a variable misses no update

---
 src/lib/sup/oac-tree/procedure/workspace.cpp | 21 +++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/lib/sup/oac-tree/procedure/workspace.cpp b/src/lib/sup/oac-tree/procedure/workspace.cpp
index f7e759d..f42c91c 100644
--- a/src/lib/sup/oac-tree/procedure/workspace.cpp
+++ b/src/lib/sup/oac-tree/procedure/workspace.cpp
@@ -161,20 +161,31 @@ bool Workspace::WaitForVariable(const std::string& name, double timeout_sec, boo
   {
     return false;
   }
+  using clock = std::chrono::steady_clock;
   auto timeout_duration = std::chrono::duration<double>(timeout_sec);
+  auto deadline = clock::now() + std::chrono::duration_cast<clock::duration>(timeout_duration);
   int dummy_listener; // to get a unique address
   std::mutex mx;
-  std::unique_lock<std::mutex> lk(mx);
   std::condition_variable cv;
+  bool updated = false; // an update between checking and waiting must not be missed
   auto cb_guard = GetCallbackGuard(&dummy_listener);
-  auto callback = [&cv](const auto&, auto){
+  auto callback = [&mx, &cv, &updated](const auto&, auto){
+                    std::lock_guard<std::mutex> cb_lk(mx);
+                    updated = true;
                     cv.notify_one();
                   };
   RegisterCallback(name, callback, &dummy_listener);
-  cv.wait_for(lk, timeout_duration, [&it, availability]{
+  // Do not query the variable while holding the mutex: its updates hold the variable's own lock
+  while (it->second->IsAvailable() != availability)
+  {
+    std::unique_lock<std::mutex> lk(mx);
+    if (!cv.wait_until(lk, deadline, [&updated]{ return updated; }))
+    {
       return it->second->IsAvailable() == availability;
-    });
-  return it->second->IsAvailable() == availability;
+    }
+    updated = false;
+  }
+  return true;
 }
 
 std::vector<const Variable*> Workspace::GetVariables() const
-- 
2.43.0


From 7764ea5dd399d669ee6f750ad0522b3c39c8aa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:14 +0000
Subject: [PATCH 11/24] fix: listeners of a local variable get its new,
 converted value

---
 src/lib/sup/oac-tree/variables/local_variable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/variables/local_variable.cpp b/src/lib/sup/oac-tree/variables/local_variable.cpp
index b53e95b..921602d 100644
--- a/src/lib/sup/oac-tree/variables/local_variable.cpp
+++ b/src/lib/sup/oac-tree/variables/local_variable.cpp
@@ -87,7 +87,7 @@ bool LocalVariable::SetValueImpl(const sup::dto::AnyValue& value)
   }
   if (result)
   {
-    Notify(value, true);
+    Notify(m_value, true);
   }
   return result;
 }
-- 
2.43.0


From 1857ed185a878854363f8d55dd02a423857d5c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:20 +0000
Subject: [PATCH 12/24] fix: a failed workspace set-up only tears down what was
 set up

---
 src/lib/sup/oac-tree/procedure/workspace.cpp | 47 +++++++++++---------
 src/lib/sup/oac-tree/workspace.h             |  6 +--
 2 files changed, 29 insertions(+), 24 deletions(-)

diff --git a/src/lib/sup/oac-tree/procedure/workspace.cpp b/src/lib/sup/oac-tree/procedure/workspace.cpp
index f42c91c..049b517 100644
--- a/src/lib/sup/oac-tree/procedure/workspace.cpp
+++ b/src/lib/sup/oac-tree/procedure/workspace.cpp
@@ -29,7 +29,6 @@
 #include <algorithm>
 #include <atomic>
 #include <condition_variable>
-#include <set>
 #include <mutex>
 #include <utility>
 
@@ -99,10 +98,17 @@ void Workspace::Setup()
   };
   std::for_each(m_var_map.begin(), m_var_map.end(), setup_var);
   // call registered global setup functions
-  auto setup_actions = ParseSetupTeardownActions(setup_teardown_actions);
-  for (const auto& setup_action : setup_actions)
+  for (const auto& action : GetUniqueActions(setup_teardown_actions))
   {
-    setup_action();
+    if (action.m_setup)
+    {
+      action.m_setup();
+    }
+    // only tear down what was successfully set up
+    if (action.m_teardown)
+    {
+      m_teardown_actions.push_back(action.m_teardown);
+    }
   }
   m_setup_done = true;
 }
@@ -258,36 +264,35 @@ bool Workspace::ContainsVariableName(const std::string& name) const
   return true;
 }
 
-std::vector<std::function<void()>> Workspace::ParseSetupTeardownActions(
+std::vector<SetupTeardownActions> Workspace::GetUniqueActions(
     const std::vector<SetupTeardownActions>& actions)
 {
-  m_teardown_actions.clear();
-  std::set<std::string> setup_identifiers;
-  std::set<std::string> teardown_identifiers;
-  std::vector<std::function<void()>> setup_actions;
+  std::vector<SetupTeardownActions> unique_actions;
   for (const auto& action : actions)
   {
     if (action.m_identifier.empty())
     {
       continue;
     }
-
-    auto setup_iter =
-      std::find(setup_identifiers.begin(), setup_identifiers.end(), action.m_identifier);
-    auto teardown_iter =
-      std::find(teardown_identifiers.begin(), teardown_identifiers.end(), action.m_identifier);
-    if (action.m_setup && setup_iter == setup_identifiers.end())
+    auto iter = std::find_if(unique_actions.begin(), unique_actions.end(),
+                             [&action](const SetupTeardownActions& unique_action) {
+                               return unique_action.m_identifier == action.m_identifier;
+                             });
+    if (iter == unique_actions.end())
     {
-      setup_actions.push_back(action.m_setup);
-      setup_identifiers.insert(action.m_identifier);
+      unique_actions.push_back(action);
+      continue;
     }
-    if (action.m_teardown && teardown_iter == teardown_identifiers.end())
+    if (!iter->m_setup)
     {
-      m_teardown_actions.push_back(action.m_teardown);
-      teardown_identifiers.insert(action.m_identifier);
+      iter->m_setup = action.m_setup;
+    }
+    if (!iter->m_teardown)
+    {
+      iter->m_teardown = action.m_teardown;
     }
   }
-  return setup_actions;
+  return unique_actions;
 }
 
 void Workspace::VariableUpdated(const std::string name, const sup::dto::AnyValue& value,
diff --git a/src/lib/sup/oac-tree/workspace.h b/src/lib/sup/oac-tree/workspace.h
index ad58cfc..9d3f5be 100644
--- a/src/lib/sup/oac-tree/workspace.h
+++ b/src/lib/sup/oac-tree/workspace.h
@@ -242,12 +242,12 @@ private:
   bool ContainsVariableName(const std::string& name) const;
 
   /**
-   * @brief Store unique teardown actions and return unique setup actions.
+   * @brief Merge actions with the same identifier, ignoring those without identifier.
    *
    * @param actions list of SetupTeardownActions.
-   * @return List of unique (according to identifier) setup actions.
+   * @return List of unique (according to identifier) setup/teardown actions.
    */
-  std::vector<std::function<void()>> ParseSetupTeardownActions(
+  static std::vector<SetupTeardownActions> GetUniqueActions(
     const std::vector<SetupTeardownActions>& actions);
 
   /**
-- 
2.43.0


From bc3168bc7509616ee27909a6f3e41a9f218004d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:40 +0000
Subject: [PATCH 13/24] fix: a constraint without content can be copied

---
 src/lib/sup/oac-tree/attributes/constraint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/attributes/constraint.cpp b/src/lib/sup/oac-tree/attributes/constraint.cpp
index 5436e16..f936223 100644
--- a/src/lib/sup/oac-tree/attributes/constraint.cpp
+++ b/src/lib/sup/oac-tree/attributes/constraint.cpp
@@ -31,7 +31,7 @@ IConstraint::~IConstraint() = default;
 Constraint::~Constraint() = default;
 
 Constraint::Constraint(const Constraint& other)
-  : m_impl{other.m_impl->Clone()}
+  : m_impl{other.m_impl ? other.m_impl->Clone() : nullptr}
 {}
 
 Constraint::Constraint(Constraint&& other)
-- 
2.43.0


From c1ef3b2c5b2a0b037dcaf5c0aa34a368af57ada9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 14/24] fix: writing a procedure keeps the procedure's own
 attributes

---
 .../sup/oac-tree/parser/procedure_to_treedata_utils.cpp    | 4 ++++
 src/lib/sup/oac-tree/procedure.h                           | 7 +++++++
 src/lib/sup/oac-tree/procedure/procedure.cpp               | 5 +++++
 3 files changed, 16 insertions(+)

diff --git a/src/lib/sup/oac-tree/parser/procedure_to_treedata_utils.cpp b/src/lib/sup/oac-tree/parser/procedure_to_treedata_utils.cpp
index 72077d4..85a5b05 100644
--- a/src/lib/sup/oac-tree/parser/procedure_to_treedata_utils.cpp
+++ b/src/lib/sup/oac-tree/parser/procedure_to_treedata_utils.cpp
@@ -92,6 +92,10 @@ namespace oac_tree
 std::unique_ptr<sup::xml::TreeData> ToTreeData(const Procedure& procedure)
 {
   auto result = internal::make_unique<sup::xml::TreeData>(Constants::PROCEDURE_ELEMENT_NAME);
+  for (const auto& [attr_name, attr_value] : procedure.GetStringAttributes())
+  {
+    result->AddAttribute(attr_name, attr_value);
+  }
   internal::AddPreamble(*result, procedure.GetPreamble());
   for (auto instruction : procedure.GetTopInstructions())
   {
diff --git a/src/lib/sup/oac-tree/procedure.h b/src/lib/sup/oac-tree/procedure.h
index 5b2b60e..aca4b99 100644
--- a/src/lib/sup/oac-tree/procedure.h
+++ b/src/lib/sup/oac-tree/procedure.h
@@ -252,6 +252,13 @@ public:
    */
   bool AddAttributes(const StringAttributeList& str_attributes);
 
+  /**
+   * @brief Get all attributes in the order they were added.
+   *
+   * @return List of attributes.
+   */
+  const StringAttributeList& GetStringAttributes() const;
+
   /**
    * @brief Get attribute value with given name and type.
    *
diff --git a/src/lib/sup/oac-tree/procedure/procedure.cpp b/src/lib/sup/oac-tree/procedure/procedure.cpp
index 71de808..ffd2366 100644
--- a/src/lib/sup/oac-tree/procedure/procedure.cpp
+++ b/src/lib/sup/oac-tree/procedure/procedure.cpp
@@ -261,6 +261,11 @@ bool Procedure::AddAttributes(const StringAttributeList& str_attributes)
   return result;
 }
 
+const StringAttributeList& Procedure::GetStringAttributes() const
+{
+  return m_attribute_handler.GetStringAttributes();
+}
+
 const Workspace& Procedure::GetWorkspace() const
 {
   return *m_workspace;
-- 
2.43.0


From 051cb84cc290199ba59247b343abc5405c7e4b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 15/24] fix: CreateDir finds the parent of the directory it
 creates

---
 src/lib/sup/oac-tree/base/generic_utils.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/sup/oac-tree/base/generic_utils.cpp b/src/lib/sup/oac-tree/base/generic_utils.cpp
index 2ab0d1f..4ca7346 100644
--- a/src/lib/sup/oac-tree/base/generic_utils.cpp
+++ b/src/lib/sup/oac-tree/base/generic_utils.cpp
@@ -98,12 +98,16 @@ bool CreateDir(const std::string& pathname, unsigned mode)
     switch (errno)
     {
       case ENOENT:
-        // parent folder doesn't exist, so try to create it
-        if (CreateDir(pathname.substr(0, pathname.find_last_of('/'))))
+      {
+        // parent folder doesn't exist, so try to create it; a name without parent is relative to a
+        // working directory that no longer exists and trailing separators are not part of the name
+        auto parent_end = pathname.find_last_of('/', pathname.find_last_not_of('/'));
+        if (parent_end != std::string::npos && CreateDir(pathname.substr(0, parent_end)))
         {
           return ::mkdir(pathname.c_str(), mode) == 0;
         }
         break;
+      }
       case EEXIST:
         // the folder already exists, so success
         return true;
-- 
2.43.0


From e648bdd2bc2451f23afb695af92a7af6314aa0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 16/24] fix: a timeout that is not a number is refused

---
 src/lib/sup/oac-tree/instructions/instruction_utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/instructions/instruction_utils.cpp b/src/lib/sup/oac-tree/instructions/instruction_utils.cpp
index 3e9e829..dbab4c9 100644
--- a/src/lib/sup/oac-tree/instructions/instruction_utils.cpp
+++ b/src/lib/sup/oac-tree/instructions/instruction_utils.cpp
@@ -37,7 +37,8 @@ namespace instruction_utils
 
 bool ConvertToTimeoutNanoseconds(sup::dto::float64 timeout_sec, sup::dto::int64& timeout_ns)
 {
-  if (timeout_sec < 0.0 || timeout_sec > kMaxTimeoutSeconds)
+  // negated, so that NaN is refused as well
+  if (!(timeout_sec >= 0.0 && timeout_sec <= kMaxTimeoutSeconds))
   {
     return false;
   }
-- 
2.43.0


From bc4a707bb29a641cc435fff1ed25cc00f56bbee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 17/24] fix: WaitForVariables takes its variable type from the
 workspace when asked to

---
 src/lib/sup/oac-tree/instructions/wait_for_variables.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/instructions/wait_for_variables.cpp b/src/lib/sup/oac-tree/instructions/wait_for_variables.cpp
index d2cded5..d8d476d 100644
--- a/src/lib/sup/oac-tree/instructions/wait_for_variables.cpp
+++ b/src/lib/sup/oac-tree/instructions/wait_for_variables.cpp
@@ -69,7 +69,11 @@ bool WaitForVariables::InitHook(UserInterface& ui, Workspace& ws)
     return false;
   }
   m_finish = utils::GetNanosecsSinceEpoch() + timeout_ns;
-  const auto var_type = GetAttributeString(Constants::VARIABLE_TYPE_ATTRIBUTE_NAME);
+  std::string var_type{};
+  if (!GetAttributeValueAs(Constants::VARIABLE_TYPE_ATTRIBUTE_NAME, ws, ui, var_type))
+  {
+    return false;
+  }
   m_var_names = GetVarNamesOfType(ws, var_type);
   return true;
 }
-- 
2.43.0


From 23067c249a99636286b5c7aa8f7fbd21ee71ca9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:18 +0000
Subject: [PATCH 18/24] fix: instructions are reset before the workspaces they
 use

---
 src/lib/sup/oac-tree/procedure/procedure.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/lib/sup/oac-tree/procedure/procedure.cpp b/src/lib/sup/oac-tree/procedure/procedure.cpp
index ffd2366..39a2a29 100644
--- a/src/lib/sup/oac-tree/procedure/procedure.cpp
+++ b/src/lib/sup/oac-tree/procedure/procedure.cpp
@@ -218,12 +218,13 @@ void Procedure::Halt()
 
 void Procedure::Reset(UserInterface& ui)
 {
-  m_workspace->Teardown();
-  m_procedure_store->ResetProcedureWorkspaces(ui);
+  // instructions first: their reset waits for parallel branches that still use the workspaces
   if (RootInstruction() != nullptr)
   {
     RootInstruction()->Reset(ui);
   }
+  m_workspace->Teardown();
+  m_procedure_store->ResetProcedureWorkspaces(ui);
   m_workspace->Setup();
 }
 
@@ -323,14 +324,14 @@ void Procedure::SetupPreamble()
 
 void Procedure::Teardown(UserInterface& ui)
 {
-  m_workspace->Teardown();
-  m_procedure_store->TearDownProcedures(ui);
-  if (RootInstruction() == nullptr)
+  // instructions first: their reset waits for parallel branches that still use the workspaces
+  if (RootInstruction() != nullptr)
   {
-    return;
+    RootInstruction()->Reset(ui);  // instructions are reset instead of torn down.
+    m_attribute_handler.ClearFailedConstraints();
   }
-  RootInstruction()->Reset(ui);  // instructions are reset instead of torn down.
-  m_attribute_handler.ClearFailedConstraints();
+  m_workspace->Teardown();
+  m_procedure_store->TearDownProcedures(ui);
 }
 
 const ProcedureStore& Procedure::GetProcedureStore() const
-- 
2.43.0


From 65615f38ddab2cffbebf6481fd779b9889f1bcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:16 +0000
Subject: [PATCH 19/24] fix: a user input request that meets a halt is
 withdrawn

---
 src/lib/sup/oac-tree/instructions/input.cpp             | 6 +++++-
 src/lib/sup/oac-tree/instructions/user_choice.cpp       | 6 +++++-
 src/lib/sup/oac-tree/instructions/user_confirmation.cpp | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/lib/sup/oac-tree/instructions/input.cpp b/src/lib/sup/oac-tree/instructions/input.cpp
index 7efdc72..62803bc 100644
--- a/src/lib/sup/oac-tree/instructions/input.cpp
+++ b/src/lib/sup/oac-tree/instructions/input.cpp
@@ -66,7 +66,11 @@ bool Input::InitHook(UserInterface& ui, Workspace& ws)
     return false;
   }
   std::lock_guard<std::mutex> lk{m_future_mtx};
-  m_future = std::move(future);
+  // a halt that came before the request was stored could not withdraw it
+  if (!IsHaltRequested())
+  {
+    m_future = std::move(future);
+  }
   return true;
 }
 
diff --git a/src/lib/sup/oac-tree/instructions/user_choice.cpp b/src/lib/sup/oac-tree/instructions/user_choice.cpp
index 3a20a46..469174c 100644
--- a/src/lib/sup/oac-tree/instructions/user_choice.cpp
+++ b/src/lib/sup/oac-tree/instructions/user_choice.cpp
@@ -62,7 +62,11 @@ bool UserChoice::InitHook(UserInterface& ui, Workspace& ws)
     return false;
   }
   std::lock_guard<std::mutex> lk{m_future_mtx};
-  m_future = std::move(future);
+  // a halt that came before the request was stored could not withdraw it
+  if (!IsHaltRequested())
+  {
+    m_future = std::move(future);
+  }
   return true;
 }
 
diff --git a/src/lib/sup/oac-tree/instructions/user_confirmation.cpp b/src/lib/sup/oac-tree/instructions/user_confirmation.cpp
index 295ac72..37d086a 100644
--- a/src/lib/sup/oac-tree/instructions/user_confirmation.cpp
+++ b/src/lib/sup/oac-tree/instructions/user_confirmation.cpp
@@ -76,7 +76,11 @@ bool UserConfirmation::InitHook(UserInterface& ui, Workspace& ws)
     return false;
   }
   std::lock_guard<std::mutex> lk{m_future_mtx};
-  m_future = std::move(future);
+  // a halt that came before the request was stored could not withdraw it
+  if (!IsHaltRequested())
+  {
+    m_future = std::move(future);
+  }
   return true;
 }
 
-- 
2.43.0


From 7598078ef9040c623ce2c079413c41419c0019ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 20/24] fix: accept user input for variables of type int64 in
 the CLI

---
 src/app/oac-tree-cli/cl_interface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/app/oac-tree-cli/cl_interface.cpp b/src/app/oac-tree-cli/cl_interface.cpp
index 8729d48..adf9f52 100644
--- a/src/app/oac-tree-cli/cl_interface.cpp
+++ b/src/app/oac-tree-cli/cl_interface.cpp
@@ -271,6 +271,7 @@ static std::map<std::string, ParseFunction> CreateParserMap()
   parser_map["uint16"] = ParserFunctionT<sup::dto::uint16>;
   parser_map["int32"] = ParserFunctionT<sup::dto::int32>;
   parser_map["uint32"] = ParserFunctionT<sup::dto::uint32>;
+  parser_map["int64"] = ParserFunctionT<sup::dto::int64>;
   parser_map["uint64"] = ParserFunctionT<sup::dto::uint64>;
   parser_map["float32"] = ParserFunctionT<sup::dto::float32>;
   parser_map["float64"] = ParserFunctionT<sup::dto::float64>;
-- 
2.43.0


From ec32bbfcdca578b1034452d0922891e10b2308fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 21/24] fix: read 8-bit integers as numbers in the CLI

---
 src/app/oac-tree-cli/cl_interface.cpp | 30 +++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/app/oac-tree-cli/cl_interface.cpp b/src/app/oac-tree-cli/cl_interface.cpp
index adf9f52..5d5cf07 100644
--- a/src/app/oac-tree-cli/cl_interface.cpp
+++ b/src/app/oac-tree-cli/cl_interface.cpp
@@ -30,6 +30,7 @@
 
 #include <cstring>
 #include <iostream>
+#include <limits>
 #include <map>
 #include <sstream>
 
@@ -235,6 +236,35 @@ bool ParserFunctionT(sup::dto::AnyValue &value, const std::string &str)
   return true;
 }
 
+/**
+ * 8-bit integers are read as numbers: the stream operators would extract a single character.
+ */
+template <typename T>
+bool ParseSmallInteger(sup::dto::AnyValue &value, const std::string &str)
+{
+  std::istringstream istr(str);
+  sup::dto::int32 val;
+  istr >> val;
+  if (istr.fail() || val < std::numeric_limits<T>::min() || val > std::numeric_limits<T>::max())
+  {
+    return false;
+  }
+  value = static_cast<T>(val);
+  return true;
+}
+
+template <>
+bool ParserFunctionT<sup::dto::int8>(sup::dto::AnyValue &value, const std::string &str)
+{
+  return ParseSmallInteger<sup::dto::int8>(value, str);
+}
+
+template <>
+bool ParserFunctionT<sup::dto::uint8>(sup::dto::AnyValue &value, const std::string &str)
+{
+  return ParseSmallInteger<sup::dto::uint8>(value, str);
+}
+
 /**
  * TODO: Extend possible input values: currently only 'true' or 'false'. Possible alternatives
  * are integers (zero is false), case insensitive true/false, yes/no, etc.
-- 
2.43.0


From 49fe37c72858fb2baacb29752aab704b62243cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:46 +0000
Subject: [PATCH 22/24] fix: refuse CLI input that is only partly a value or
 choice

---
 src/app/oac-tree-cli/cl_interface.cpp | 34 ++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/app/oac-tree-cli/cl_interface.cpp b/src/app/oac-tree-cli/cl_interface.cpp
index 5d5cf07..93aaf45 100644
--- a/src/app/oac-tree-cli/cl_interface.cpp
+++ b/src/app/oac-tree-cli/cl_interface.cpp
@@ -33,9 +33,13 @@
 #include <limits>
 #include <map>
 #include <sstream>
+#include <type_traits>
 
 static bool ParseStringToScalarAnyvalue(sup::dto::AnyValue &value, const std::string &str);
 
+// Returns true if only whitespace is left to read.
+static bool IsFullyRead(std::istringstream &istr);
+
 namespace sup
 {
 namespace oac_tree
@@ -194,7 +198,7 @@ int CLInterface::GetUserChoice(const std::vector<std::string>& options,
   std::getline(std::cin, input_str);
   std::istringstream istr(input_str);
   istr >> input;
-  if (istr.fail())
+  if (istr.fail() || !IsFullyRead(istr))
   {
     std::string error_message =
       "CLInterface::GetUserChoice(): user provided value [" + input_str +
@@ -202,16 +206,16 @@ int CLInterface::GetUserChoice(const std::vector<std::string>& options,
     m_logger.LogMessage(log::SUP_SEQ_LOG_ERR, error_message);
     return -1;
   }
-  // Decrement input as the interface uses 1-based indexing
-  --input;
-  if (input < 0 || input >= options.size())
+  if (input < 1 || input > options.size())
   {
     std::string error_message =
       "CLInterface::GetUserChoice(): user provided value [" +
-      std::to_string(input + 1) + "] must be in the range [1, " + std::to_string(options.size()) + "]";
+      std::to_string(input) + "] must be in the range [1, " + std::to_string(options.size()) + "]";
     m_logger.LogMessage(log::SUP_SEQ_LOG_ERR, error_message);
     return -1;
   }
+  // Decrement input as the interface uses 1-based indexing
+  --input;
   std::cout << options[input] << " selected" << std::endl;
   return input;
 }
@@ -220,15 +224,28 @@ int CLInterface::GetUserChoice(const std::vector<std::string>& options,
 
 }  // namespace sup
 
+static bool IsFullyRead(std::istringstream &istr)
+{
+  std::string rest;
+  istr >> rest;
+  return rest.empty();
+}
+
 using ParseFunction = bool (*)(sup::dto::AnyValue &, const std::string &);
 
 template <typename T>
 bool ParserFunctionT(sup::dto::AnyValue &value, const std::string &str)
 {
+  // Extraction of an unsigned integer would accept a negative number and wrap it around
+  if (std::is_unsigned<T>::value && !std::is_same<T, sup::dto::char8>::value
+      && str.find('-') != std::string::npos)
+  {
+    return false;
+  }
   std::istringstream istr(str);
   T val;
   istr >> val;
-  if (istr.fail())
+  if (istr.fail() || !IsFullyRead(istr))
   {
     return false;
   }
@@ -245,7 +262,8 @@ bool ParseSmallInteger(sup::dto::AnyValue &value, const std::string &str)
   std::istringstream istr(str);
   sup::dto::int32 val;
   istr >> val;
-  if (istr.fail() || val < std::numeric_limits<T>::min() || val > std::numeric_limits<T>::max())
+  if (istr.fail() || !IsFullyRead(istr)
+      || val < std::numeric_limits<T>::min() || val > std::numeric_limits<T>::max())
   {
     return false;
   }
@@ -275,7 +293,7 @@ bool ParserFunctionT<sup::dto::boolean>(sup::dto::AnyValue &value, const std::st
   std::istringstream istr(str);
   sup::dto::boolean val;
   istr >> std::boolalpha >> val;
-  if (istr.fail())
+  if (istr.fail() || !IsFullyRead(istr))
   {
     return false;
   }
-- 
2.43.0


From 1d09be3d1b0fd31dd22bf5d41fb4d014cf075b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 23/24] fix: write each variable under its name in the
 workspace

A variable may be added to a workspace under a name that its own name
attribute does not hold. Such a variable was written without that name, so
that the procedure could not be read again, or was read with another name.
---
 .../parser/procedure_to_treedata_utils.cpp    | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/lib/sup/oac-tree/parser/procedure_to_treedata_utils.cpp b/src/lib/sup/oac-tree/parser/procedure_to_treedata_utils.cpp
index 85a5b05..232098c 100644
--- a/src/lib/sup/oac-tree/parser/procedure_to_treedata_utils.cpp
+++ b/src/lib/sup/oac-tree/parser/procedure_to_treedata_utils.cpp
@@ -52,6 +52,24 @@ std::unique_ptr<sup::xml::TreeData> CreateTreeData(const Instruction* instructio
   return tree_data;
 }
 
+// A variable is known to the rest of the procedure by the name under which it was added to its
+// workspace. This may differ from its own name attribute, which may also be missing.
+std::unique_ptr<sup::xml::TreeData> CreateTreeData(const Variable& variable,
+                                                   const std::string& name)
+{
+  auto tree_data = internal::make_unique<sup::xml::TreeData>(variable.GetType());
+  if (!variable.HasAttribute(Constants::NAME_ATTRIBUTE_NAME))
+  {
+    tree_data->AddAttribute(Constants::NAME_ATTRIBUTE_NAME, name);
+  }
+  for (const auto& [attr_name, attr_value] : variable.GetStringAttributes())
+  {
+    const bool is_name = attr_name == Constants::NAME_ATTRIBUTE_NAME;
+    tree_data->AddAttribute(attr_name, is_name ? name : attr_value);
+  }
+  return tree_data;
+}
+
 void Iterate(const Instruction* instruction, sup::xml::TreeData* parent)
 {
   for (auto& child : instruction->ChildInstructions())
@@ -118,9 +136,9 @@ std::unique_ptr<sup::xml::TreeData> ToTreeData(const Variable& variable)
 std::unique_ptr<sup::xml::TreeData> ToTreeData(const Workspace& workspace)
 {
   auto result = internal::make_unique<sup::xml::TreeData>(Constants::WORKSPACE_ELEMENT_NAME);
-  for (auto variable : workspace.GetVariables())
+  for (const auto& name : workspace.VariableNames())
   {
-    result->AddChild(*ToTreeData(*variable));
+    result->AddChild(*internal::CreateTreeData(*workspace.GetVariable(name), name));
   }
   return result;
 }
-- 
2.43.0


From 4dcabedc7d34aa50fbfad07533789f10a75a98cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:55 +0000
Subject: [PATCH 24/24] fix: a variable is set up and torn down under its
 access lock

---
 src/lib/sup/oac-tree/variables/variable.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/variables/variable.cpp b/src/lib/sup/oac-tree/variables/variable.cpp
index 7b32f8c..e1f8a3a 100644
--- a/src/lib/sup/oac-tree/variables/variable.cpp
+++ b/src/lib/sup/oac-tree/variables/variable.cpp
@@ -82,6 +82,8 @@ SetupTeardownActions Variable::Setup(const Workspace& ws)
       VariableSetupExceptionMessage(*this, m_attribute_handler.GetFailedConstraints());
     throw VariableSetupException(error_message);
   }
+  // Other threads that hear about the update will find the variable set up
+  std::lock_guard<std::mutex> lock(m_access_mutex);
   auto actions = SetupImpl(ws);
   m_setup_successful = true;
   return actions;
@@ -166,9 +168,13 @@ void Variable::SetNotifyCallback(Callback func)
 
 void Variable::Teardown()
 {
+  {
+    // Refuse access from other threads before the value is released
+    std::lock_guard<std::mutex> lock(m_access_mutex);
+    m_setup_successful = false;
+  }
   TeardownImpl();
   m_attribute_handler.ClearFailedConstraints();
-  m_setup_successful = false;
 }
 
 bool Variable::HasAttribute(const std::string &name) const
-- 
2.43.0

