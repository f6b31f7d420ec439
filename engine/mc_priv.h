#pragma once
#include <string>
bool mc_asan();
void rt_reset();
void rt_scratch_dir(const std::string& d);
void rt_scratch_cleanup();
