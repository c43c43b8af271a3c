// Helpers of the demonstrations: scripted leaves, a recording user interface, creation of variables.
#ifndef DEMO_H
#define DEMO_H
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <chrono>
#include <vector>
#include <sup/oac-tree/instruction.h>
#include <sup/oac-tree/instruction_registry.h>
#include <sup/oac-tree/procedure.h>
#include <sup/oac-tree/user_interface.h>
#include <sup/oac-tree/constants.h>
#include <sup/oac-tree/workspace.h>
#include <sup/oac-tree/exceptions.h>
#include <sup/oac-tree/variable_registry.h>
#include <sup/dto/anyvalue.h>
#define REQ(x) do { if (!(x)) { std::printf("failed: %s (line %d)\n", #x, __LINE__); std::fflush(stdout); std::_Exit(1); } } while (0)
#define THROWS(x) do { bool t_ = false; try { x; } catch (const std::exception&) { t_ = true; } if (!t_) { std::printf("no exception: %s (line %d)\n", #x, __LINE__); std::fflush(stdout); std::_Exit(1); } } while (0)
using namespace sup::oac_tree;
using sup::dto::AnyValue;
constexpr auto NS = ExecutionStatus::NOT_STARTED, NF = ExecutionStatus::NOT_FINISHED, RUN = ExecutionStatus::RUNNING, OK = ExecutionStatus::SUCCESS, BAD = ExecutionStatus::FAILURE;
struct Ui : DefaultUserInterface
{
  std::mutex mx; std::vector<std::pair<const Instruction*, ExecutionStatus>> ev;
  void UpdateInstructionStatus(const Instruction* i) override { std::lock_guard<std::mutex> g(mx); ev.push_back({i, i->GetStatus()}); }
  void Log(int, const std::string&) override {}
};
struct Leaf : Instruction
{
  std::vector<ExecutionStatus> script; int execs = 0, resets = 0, halts = 0, inits = 0; bool initOk = true; std::function<ExecutionStatus(Workspace&)> act;
  explicit Leaf(std::vector<ExecutionStatus> s = {}) : Instruction("Leaf"), script(std::move(s)) {}
  bool InitHook(UserInterface&, Workspace&) override { ++inits; return initOk; }
  ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace& ws) override { int k = execs++; if (act) return act(ws); return k < (int)script.size() ? script[k] : script.empty() ? OK : script.back(); }
  void HaltImpl() override { ++halts; }
  void ResetHook(UserInterface&) override { ++resets; }
};
inline Leaf* leaf(Instruction& parent, std::vector<ExecutionStatus> s = {}) { auto l = std::make_unique<Leaf>(s); Leaf* p = l.get(); parent.InsertInstruction(std::move(l), parent.ChildrenCount()); return p; }
inline std::unique_ptr<Instruction> make(const std::string& t) { return GlobalInstructionRegistry().Create(t); }
inline std::unique_ptr<Instruction> make(const std::string& t, std::vector<std::pair<std::string, std::string>> a) { auto i = make(t); for (auto& x : a) i->AddAttribute(x.first, x.second); return i; }
inline std::unique_ptr<Variable> local(const std::string& type = "", const std::string& value = "")
{ auto v = GlobalVariableRegistry().Create("Local"); if (!type.empty()) v->AddAttribute("type", type[0] == '{' ? type : "{\"type\":\"" + type + "\"}"); if (!value.empty()) v->AddAttribute("value", value); return v; }
#endif
