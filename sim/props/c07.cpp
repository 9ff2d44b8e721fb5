// C07: RRT*.
#include "rrt.h"
static void generate(sim::Rng& r, sim::Plan& p) { rrt::generateRrt(r, p, true); }
static void execute(const sim::Plan& p) { rrt::runRrt<Planner::RRTStarR2, Planner::RRTStarParameters>(p, true); }
const sim::Property sim::property = { "C07", generate, execute };
