#pragma once
#include "world.h"
namespace props {
void c01(); void c02(); void c03(); void c04(); void c05(); void c06(); void c07();
void c08(); void c09(); void c10(); void c11(); void c12(); void c13(); void c14();
void c15(); void c16(); void c17(); void c18(); void c19(); void c22(); void c23();

// helpers shared by the scenarios (props_vm.cpp)
void heap_mode();
void start_entries(world::Machine &m, bool all);
void drain(world::Machine &m, int limit = 4000);
world::Func *some_helper(world::Machine &m, bool shared);
int small_budget();
void drive_partitioned(world::Machine &m, int ops, bool forced_gc, bool lines, bool breakpoints);
void drive_shared(world::Machine &m, int ops, bool forced_gc);
std::string image(nano::program_t &p, bool calls);
std::string first_difference(const std::string &a, const std::string &b);
// a well formed text and its functions (props_build.cpp)
std::string grammar_text(std::vector<std::pair<std::string, int>> &funcs);
void compare_runs(world::Machine &a, world::Machine &b, bool cycles);
}
