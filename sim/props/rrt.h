// Workload, environment and history oracle shared by the sampling-based
// planners (C06: RRT, C07: RRT*).  The planner runs for real; samples, path
// connections and the validator are simulator components behind its own seams.
#pragma once
#include "sim.h"
#include "core/base.h"
#include "algo/rrt.h"
#include "algo/rrt_star.h"
#include "paths/path_r2.h"
#include "state_space/state_space.h"
#include "state_validator/state_validator.h"
#include <limits>

namespace rrt {
	using namespace Planner;
	using namespace sim;

	struct Env;

	/// state space of the simulator: the samples come from the run's own stream
	struct Space : StateSpace<Point2d, 2, double> {
		Env* env;
		Space(Env* e, const Point2d& lb, const Point2d& ub) : StateSpace<Point2d, 2, double>(std::array<Point2d, 2>({ lb, ub })), env(e) { }
		void EnforceBounds(Point2d& s) override
		{
			s.x() = std::clamp(s.x(), bounds[0].x(), bounds[1].x());
			s.y() = std::clamp(s.y(), bounds[0].y(), bounds[1].y());
		}
		bool ValidateBounds(const Point2d& s) override { return s.x() >= bounds[0].x() && s.x() <= bounds[1].x() && s.y() >= bounds[0].y() && s.y() <= bounds[1].y(); }
		Point2d SampleUniform() override;
		Point2d SampleGaussian(const Point2d& m, const Point2d&) override { return m; }
	};
	struct Connection : PathConnection<Point2d> {
		Env* env;
		explicit Connection(Env* e) : env(e) { }
		Ref<PathR2Base> Connect(const Point2d& from, const Point2d& to) override;
	};
	/// a user-defined motion: along x, then along y
	struct PathBent : PathR2Base {
		PathBent(const Point2d& from, const Point2d& to) : PathR2Base(from, std::fabs(from.x() - to.x()) + std::fabs(from.y() - to.y())) { m_final = to; }
		Point2d Interpolate(double ratio) const override
		{
			double dx = m_final.x() - m_init.x(), dy = m_final.y() - m_init.y(), l = ratio * m_length;
			if (ratio >= 1) return m_final;
			if (l < std::fabs(dx)) return Point2d(m_init.x() + std::copysign(l, dx), m_init.y());
			return Point2d(m_final.x(), m_init.y() + std::copysign(std::min(l - std::fabs(dx), std::fabs(dy)), dy));
		}
		void Truncate(double ratio) override
		{
			m_final = Interpolate(ratio);
			m_length = std::fabs(m_init.x() - m_final.x()) + std::fabs(m_init.y() - m_final.y());
		}
	};
	struct Validator : StateValidator<Point2d, 2, double> {
		Env* env;
		Validator(Env* e, const Ref<StateSpace<Point2d, 2, double>>& s) : StateValidator<Point2d, 2, double>(s), env(e) { }
		bool IsStateValid(const Point2d& s) override;
		bool IsPathValid(const PathR2Base& path, float* last = nullptr) override;
	};

	struct Env {
		Rng samples { 1 };
		double W = 10, H = 10, step = 1;
		std::vector<std::array<double, 3>> discs;
		bool bent = false; // motions go along x, then along y
		double blockRate = 0; // validator noise: a motion is refused for no visible reason
		u64 blockSeed = 0;
		Point2d init, goal, last = Point2d(0, 0);
		int sampleMode = 0;
		// history of the running search
		bool star = false;
		long nSamples = 0, nConnect = 0, nIter = 0;
		u64 drawsSeen = 0;
		bool sampledSince = false;
		bool steering = false;
		Point2d target;                             // target of the current iteration
		std::vector<Point2d> nodes;                 // states of the tree, in order of addition
		std::vector<double> cost;                   // RRT*: least cost each state can have
		bool ambiguous = false;
		std::vector<std::pair<Point2d, Point2d>> approved; // motions the validator accepted

		void begin(const Point2d& s, const Point2d& g, bool isStar)
		{
			star = isStar;
			init = s;
			goal = g;
			nSamples = nConnect = nIter = 0;
			drawsSeen = rngDraws();
			sampledSince = steering = ambiguous = false;
			nodes = { s };
			cost = { 0 };
			approved.clear();
		}
		/// length of the motion from a to b
		double dist(const Point2d& a, const Point2d& b) const { return bent ? std::fabs(a.x() - b.x()) + std::fabs(a.y() - b.y()) : (b - a).norm(); }
		bool freeLine(const Point2d& a, const Point2d& b) const
		{
			double len = (b - a).norm();
			int n = 1 + (int)(len / (0.005 * (W + H)));
			for (auto& d : discs) {
				for (int i = 0; i <= n; i++) {
					Point2d p = a + (b - a) * ((double)i / n);
					if ((p - Point2d(d[0], d[1])).norm() < d[2]) return false;
				}
			}
			return true;
		}
		bool free(const Point2d& a, const Point2d& b) const
		{
			if (bent) {
				Point2d c(b.x(), a.y());
				if (!freeLine(a, c) || !freeLine(c, b)) return false;
			} else if (!freeLine(a, b))
				return false;
			if (blockRate > 0 && !(a == b)) {
				Hash h;
				h.add(blockSeed);
				h.addd(a.x()); h.addd(a.y()); h.addd(b.x()); h.addd(b.y());
				if ((mix(h.h) >> 11) * (1.0 / 9007199254740992.0) < blockRate) return false;
			}
			return true;
		}
		void onSample(const Point2d& s)
		{
			nSamples++;
			sampledSince = true;
			target = s;
		}
		void onConnect(const Point2d& from, const Point2d& to)
		{
			nConnect++;
			bool fresh = sampledSince || rngDraws() != drawsSeen;
			if (!fresh) return;
			// first motion of an iteration: from the nearest state of the tree towards the target
			nIter++;
			if (!sampledSince) target = goal;
			sampledSince = false;
			drawsSeen = rngDraws();
			steering = true;
			if (!(to == target)) violate("steer-target", "the tree is steered towards (%g,%g), not towards the sample (%g,%g)", to.x(), to.y(), target.x(), target.y());
			double best = std::numeric_limits<double>::infinity();
			bool member = false;
			for (auto& n : nodes) {
				best = std::min(best, (n - target).norm());
				member |= n == from;
			}
			if (!member) violate("steer-from-unknown", "the tree is extended from (%.9g,%.9g), which is not one of its %zu states", from.x(), from.y(), nodes.size());
			double d = (from - target).norm();
			if (d > best + 1e-9 * (1 + best)) violate("not-nearest", "the tree is extended from a state %.9g away from the sample, the nearest one is %.9g away (%zu states)", d, best, nodes.size());
		}
		void onVerdict(const PathR2Base& path, bool ok)
		{
			if (ok) approved.push_back({ path.GetInitialState(), path.GetFinalState() });
			if (!steering) return;
			steering = false;
			if (!ok) return;
			Point2d from = path.GetInitialState(), to = path.GetFinalState();
			double len = dist(from, to);
			if (len > step * (1 + 1e-9)) violate("motion-too-long", "a motion of length %.9g was tried, at most %.9g is allowed", len, step);
			for (auto& n : nodes)
				if (n == to) return; // already in the tree
			if (star) {
				// cheapest way to reach the new state through its nearest neighbours
				size_t k = std::min<size_t>(nodes.size(), std::max(1u, (unsigned)std::log((double)nodes.size())));
				std::vector<std::pair<double, size_t>> near;
				for (size_t i = 0; i < nodes.size(); i++) near.push_back({ (nodes[i] - to).norm(), i });
				std::sort(near.begin(), near.end());
				if (k < near.size() && near[k].first - near[k - 1].first < 1e-9) ambiguous = true;
				double best = std::numeric_limits<double>::infinity(), fallback = 0;
				for (size_t i = 0; i < nodes.size(); i++)
					if (nodes[i] == from) fallback = cost[i] + len;
				for (size_t j = 0; j < k; j++)
					if (free(nodes[near[j].second], to)) best = std::min(best, cost[near[j].second] + dist(nodes[near[j].second], to));
				if (!std::isfinite(best)) {
					best = fallback;
					probe("no-valid-neighbour");
				}
				cost.push_back(best);
			}
			nodes.push_back(to);
		}
	};

	inline Point2d Space::SampleUniform()
	{
		if (due("throw:sample")) throw Injected("sample");
		Quiet q;
		Point2d s(env->W * env->samples.real(), env->H * env->samples.real());
		double u = env->samples.real();
		if (env->sampleMode == 1 && u < 0.3) s = env->last;
		if (env->sampleMode == 2 && u < 0.3 && !env->nodes.empty()) s = env->nodes[env->samples.below(env->nodes.size())];
		if (env->sampleMode == 3) s = Point2d(std::round(s.x()), std::round(s.y())); // lattice: many ties
		if (env->sampleMode == 4 && u < 0.3) s = Point2d(u < 0.15 ? 0 : env->W, s.y()); // on the boundary
		env->last = s;
		env->onSample(s);
		return s;
	}
	inline Ref<PathR2Base> Connection::Connect(const Point2d& from, const Point2d& to)
	{
		if (due("throw:connect")) throw Injected("connect");
		{
			Quiet q;
			env->onConnect(from, to);
		}
		if (env->bent) return makeRef<PathBent>(from, to);
		return makeRef<PathR2>(from, to);
	}
	inline bool Validator::IsStateValid(const Point2d& s)
	{
		Quiet q;
		return env->free(s, s);
	}
	inline bool Validator::IsPathValid(const PathR2Base& path, float* last)
	{
		if (due("throw:valid")) throw Injected("valid");
		Quiet q;
		bool ok = env->free(path.GetInitialState(), path.GetFinalState());
		env->onVerdict(path, ok);
		if (last) *last = ok ? 1.0f : 0.0f;
		return ok;
	}

	inline void generateRrt(Rng& r, Plan& p, bool star)
	{
		double W = r.range(2, 12), H = r.range(2, 12);
		if (r.chance(0.15)) { double k = r.pick(std::vector<double> { 10, 100 }); W *= k; H *= k; }
		p.cfg["size"] = { W, H };
		p.cfg["mode"] = { (double)r.below(5) };
		p.cfg["block"] = { r.chance(0.5) ? 0.0 : r.real(0, star ? 0.9 : 0.4), (double)r.below(1 << 20) };
		p.cfg["bent"] = { r.chance(0.3) ? 1.0 : 0.0 };
		double faultRate = r.pick(std::vector<double> { 0, 0.15, 0.4 });
		for (long i = r.range(1, 5); i > 0; i--) {
			for (long j = r.geo(0.5, 4); j > 0; j--) p.ops.push_back(Op("disc", { std::round(r.real(0, W) * 64) / 64, std::round(r.real(0, H) * 64) / 64, std::round(r.real(0.1, W / 4) * 64) / 64 }));
			if (r.chance(0.2)) p.ops.push_back(Op("clear"));
			double bias = r.pick(std::vector<double> { 0, 0.05, 0.3, 1 });
			// steps from a thousandth of the world to several times its size
			double step = std::round(r.real(0.1, 2.5) * 64) / 64;
			if (r.chance(0.3)) step = std::max(1.0, std::round(W * 4096 * std::pow(10.0, r.real(-3, 0.7)))) / 4096;
			p.ops.push_back(Op("params", { (double)r.range(1, r.chance(0.5) ? 60 : 600), (double)r.range(1, r.chance(0.3) ? 30 : 2000), step, bias }));
			auto q = [](double v) { return std::round(v * 64) / 64; };
			Op op("search", { q(r.real(0, W)), q(r.real(0, H)), q(r.real(0, W)), q(r.real(0, H)), (double)r.below(1 << 30) });
			if (r.chance(0.05)) { op.a[2] = op.a[0]; op.a[3] = op.a[1]; }
			if (r.chance(faultRate)) {
				static const std::vector<std::string> kinds = { "throw:sample", "throw:connect", "throw:valid" };
				op.f.push_back({ r.pick(kinds), r.chance(0.5) ? r.below(20) : r.below(600) });
			}
			p.ops.push_back(op);
		}
		if (r.chance(0.4)) {
			auto& v = p.cfg["rngx"];
			for (long i = r.range(1, 6); i > 0; i--) { v.push_back(r.below(60)); v.push_back(r.below(4)); }
		}
	}

	template <typename Planner, typename Params>
	void runRrt(const Plan& p, bool star)
	{
		Env env;
		env.W = p.cv("size").size() ? p.cv("size")[0] : 10;
		env.H = p.cv("size").size() > 1 ? p.cv("size")[1] : 10;
		env.sampleMode = (int)p.ci("mode");
		env.bent = p.ci("bent");
		if (p.cv("block").size() > 1) {
			env.blockRate = p.cv("block")[0];
			env.blockSeed = (u64)p.cv("block")[1];
		}
		auto space = makeRef<Space>(&env, Point2d(0, 0), Point2d(env.W, env.H));
		auto planner = makeRef<Planner>(space, makeRef<Validator>(&env, space), makeRef<Connection>(&env));
		Params par;
		bool hadSuccess = false, hadAbort = false;
		for (size_t k = 0; k < p.ops.size(); k++) {
			const Op& op = p.ops[k];
			if (op.name == "disc") { env.discs.push_back({ op.arg(0), op.arg(1), op.arg(2) }); continue; }
			if (op.name == "clear") { env.discs.clear(); continue; }
			if (op.name == "params") {
				par.maxIteration = (unsigned)std::max(1l, op.iarg(0, 1));
				par.maxNumberTreeNode = (unsigned)std::max(1l, op.iarg(1, 1));
				par.maxConnectionDistance = env.step = std::max(1e-4, op.arg(2, 1));
				par.goalBias = op.arg(3);
				planner->SetParameters(par);
				continue;
			}
			if (op.name != "search") continue;
			env.step = par.maxConnectionDistance;
			Point2d s(op.arg(0), op.arg(1)), g(op.arg(2), op.arg(3));
			env.samples = Rng((u64)op.arg(4) + 77);
			env.begin(s, g, star);
			planner->SetInitState(s);
			planner->SetGoalState(g);
			Status st = Status::Failure;
			bool aborted = false;
			stepBudget(3000000000ull);
			{
				Armed a(op);
				try {
					st = planner->SearchPath();
				} catch (const Injected&) {
					aborted = true;
				} catch (const std::bad_alloc&) {
					aborted = true;
				}
			}
			if (aborted && firedInOp() == 0) violate("unexpected-failure", "the search threw although nothing was injected");
			auto path = planner->GetPath();
			Hash h;
			for (auto& q : path) { h.addd(q.x()); h.addd(q.y()); }
			for (auto& q : env.nodes) h.addd(q.x());
			state(h.h);
			ev("%zu search status %d aborted %d nodes %zu iterations %ld path %zu %016llx", k, (int)st, aborted, env.nodes.size(), env.nIter, path.size(), (unsigned long long)h.h);
			// limits
			if (env.nIter > (long)par.maxIteration + 1) violate("iteration-limit", "%ld iterations with a limit of %u", env.nIter, par.maxIteration);
			if (env.nodes.size() > (size_t)par.maxNumberTreeNode + 1) violate("node-limit", "%zu states with a limit of %u", env.nodes.size(), par.maxNumberTreeNode);
			if (!path.empty()) {
				if (!(path.front() == s)) violate("path-start", "the path starts at (%g,%g), not at (%g,%g)", path.front().x(), path.front().y(), s.x(), s.y());
				double miss = (path.back() - g).norm();
				if (star ? !(path.back() == g) : !(miss < 1)) violate("path-end", "the path ends %.9g away from the goal", miss);
				double len = 0;
				for (size_t i = 1; i < path.size(); i++) {
					double l = env.dist(path[i - 1], path[i]);
					len += l;
					if (!star && l > env.step * (1 + 1e-9)) violate("motion-too-long", "motion %zu of the path is %.9g long, at most %.9g is allowed", i, l, env.step);
					bool ok = false;
					for (auto& m : env.approved) ok |= m.first == path[i - 1] && m.second == path[i];
					if (!ok) violate("motion-unchecked", "motion %zu of the path, (%g,%g)-(%g,%g), was never accepted by the validator", i, path[i - 1].x(), path[i - 1].y(), path[i].x(), path[i].y());
				}
				if (star && !aborted) {
					double want = -1;
					for (size_t i = 0; i < env.nodes.size(); i++)
						if (env.nodes[i] == g) want = env.cost[i];
					if (want < 0 && !(g == s)) violate("path-end", "the path reaches the goal although the tree does not");
					if (!env.ambiguous && want >= 0 && len > want + 1e-7 * (1 + want)) violate("not-cheapest", "the path is %.9g long, connecting every state through its cheapest neighbour gives %.9g", len, want);
					if (!env.ambiguous) probe("cost-checked");
				}
			}
			if (aborted) {
				hadAbort = true;
				probe("aborted");
				continue;
			}
			if (st == Status::Success) {
				if (path.empty()) violate("empty-success", "success reported with an empty path");
				if (hadAbort) probe("success-after-abort");
				if (hadSuccess) probe("success-on-reuse");
				hadSuccess = true;
				if (path.size() > 3) nontrivial();
			} else {
				if (!path.empty()) violate("stale-path", "a failed search still returns a path of %zu states", path.size());
				if (env.nIter < (long)par.maxIteration && env.nodes.size() < par.maxNumberTreeNode)
					violate("gave-up", "failure after %ld of %u iterations and %zu of %u states", env.nIter, par.maxIteration, env.nodes.size(), par.maxNumberTreeNode);
				probe("failure");
				// progress: with the goal as only target and nothing in the way the search must arrive
				double need = env.dist(s, g) / env.step + 3;
				if (par.goalBias >= 1 && env.discs.empty() && env.blockRate == 0 && par.maxIteration > need && par.maxNumberTreeNode > need && !p.cfg.count("rngx"))
					violate("no-progress", "nothing in the way and %u iterations, but the goal was not reached", par.maxIteration);
			}
		}
	}
}
