// Force-included before every translation unit of the system under test.
// Puts the random engines behind the simulator: explicit specialisations of
// the engines' generation operator, so that every draw made anywhere in the
// planner library is supplied by the seeded simulator.
#pragma once
#include <cassert>
#include <algorithm>
#include <random>
#include <cstdint>
extern "C" uint64_t sim_draw(const void* engine);
namespace std {
	template <>
	inline mt19937_64::result_type mt19937_64::operator()() { return sim_draw(this); }
	template <>
	inline mt19937::result_type mt19937::operator()() { return static_cast<uint32_t>(sim_draw(this) >> 32); }
}
