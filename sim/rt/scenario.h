#pragma once
struct Scenario {
  const char* name;
  void (*fn)();
  const char* tags;
};
struct RegisterScenario {
  RegisterScenario(const char* name, void (*fn)(), const char* tags);
};
#define SIM_CAT2(a, b) a##b
#define SIM_CAT(a, b) SIM_CAT2(a, b)
#define SCENARIO(name, fn, tags) static RegisterScenario SIM_CAT(reg_, __COUNTER__)(name, fn, tags);
