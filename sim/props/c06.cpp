// C06: RRT.
#include "rrt.h"
static void generate(sim::Rng& r, sim::Plan& p) { rrt::generateRrt(r, p, false); }
static void execute(const sim::Plan& p) { rrt::runRrt<Planner::RRTR2, Planner::RRTParameters>(p, false); }
const sim::Property sim::property = { "C06", generate, execute };
