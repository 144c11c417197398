// Force-included before everything: the engine behind std::mt19937 is provided by the simulator (rt.cpp).
#pragma once
#include <random>
template <>
std::mt19937::result_type std::mt19937::operator()();
