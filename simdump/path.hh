#pragma once
#include <cstdint>
const char* sim_dump_path();
