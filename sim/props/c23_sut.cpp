// C23: A* and bidirectional A*, as templates over any state, action, hash,
// equality and explored set, find a cheapest path of any graph whenever there is
// one, through every history of searches, graph changes and failing callbacks.
#include "sim.h"
#include "core/base.h"
#include "algo/a_star.h"
#include "algo/bidirectional_a_star.h"
#include <algorithm>
#include <limits>
#include <map>
#include <set>
#include <tuple>
using namespace sim;
using namespace Planner;

static const double INF = std::numeric_limits<double>::infinity();
static long g_mod = 1; // hashes collide modulo this

/// Equal states may carry different tags (the edge by which they were entered).
struct St {
	long id = -1;
	long tag = -1;
};
struct StHash {
	size_t operator()(const St& s) const { return s.id % g_mod; }
};
struct StEq {
	bool operator()(const St& a, const St& b) const { return a.id == b.id; }
};
struct Act {
	std::vector<long> edge; // allocates
};

struct Edge {
	long u, v;
	double c;
};
struct Graph {
	long n = 1;
	std::vector<Edge> e; // cost < 0: removed
	std::vector<std::vector<double>> d;
	void distances()
	{
		d.assign(n, std::vector<double>(n, INF));
		for (long i = 0; i < n; i++) d[i][i] = 0;
		for (auto& x : e)
			if (x.c >= 0) d[x.u][x.v] = std::min(d[x.u][x.v], x.c);
		for (long k = 0; k < n; k++)
			for (long i = 0; i < n; i++)
				for (long j = 0; j < n; j++) d[i][j] = std::min(d[i][j], d[i][k] + d[k][j]);
	}
	bool cyclicFrom(long s) const
	{
		for (auto& x : e)
			if (x.c >= 0 && d[s][x.u] < INF && d[x.v][x.u] < INF) return true;
		return false;
	}
};

struct Propagator : AStarStatePropagator<St, Act> {
	const Graph* g = nullptr;
	bool reverse = false;
	std::vector<long> expanded;
	std::function<void()> inside; // runs inside the next call
	std::vector<std::tuple<St, Act, double>> GetNeighborStates(const St& s) override
	{
		maybeThrow("throw:next");
		addStep();
		if (s.id < 0 || s.id >= g->n) violate("state", "the propagator is asked about state %ld, which does not exist", s.id);
		{
			Quiet q;
			expanded.push_back(s.id);
			if (expanded.size() > 400000) violate("hang", "more than 400000 states are expanded");
		}
		if (inside) {
			auto f = std::move(inside);
			inside = nullptr;
			f();
		}
		std::vector<std::tuple<St, Act, double>> out;
		for (size_t i = 0; i < g->e.size(); i++) {
			auto& x = g->e[i];
			if (x.c < 0 || (reverse ? x.v : x.u) != s.id) continue;
			St t;
			t.id = reverse ? x.u : x.v;
			t.tag = i;
			Act a;
			a.edge = { (long)i };
			out.emplace_back(t, a, x.c);
		}
		return out;
	}
};

/// Estimates of the distance to the goal: every kind but 4 is consistent,
/// all but 5 are admissible.
struct Est {
	int kind = 0;
	double k = 0;
	u64 seed = 0;
	double cap = 1000; // instead of infinity
	bool reverse = false;
	double value(const Graph& g, long v, long goal) const
	{
		double d = reverse ? g.d[goal][v] : g.d[v][goal];
		d = std::min(d, cap);
		switch (kind) {
		case 0: return 0;
		case 1: return d;
		case 2: return d / 2;
		case 3: return std::max(0.0, d - k);
		case 4: {
			double f = mix(seed ^ mix(v * 64 + goal)) % 5 / 4.0; // 0, 1/4 ... 1
			return d == INF ? (f < 0.5 ? INF : f * 8) : std::floor(d * f * 4) / 4;
		}
		default: return std::isfinite(d) ? d + mix(seed ^ mix(v * 64 + goal)) % 9 : d;
		}
	}
	bool consistent() const { return kind <= 3; }
	bool admissible() const { return kind <= 4; }
};

struct Instance {
	Graph g;
	Ref<Propagator> fwd = makeRef<Propagator>(), rev = makeRef<Propagator>();
	std::vector<Est> est;
	Ref<AStarHeuristic<St>> heur;
	// bidirectional
	Ref<AStarHeuristic<St>> hf, hr;
	bool pairConstant = false;
	double pk1 = 0, pk2 = 0;
	long curS = 0, curG = 0;

	using AG = AStar<St, Act, StHash, StEq>;
	using AM = AStar<St, Act, StHash, StEq, true, ExploredMap<St, Act, StHash, StEq>>;
	using AT = AStar<St, Act, StHash, StEq, false, ExploredVoid<St>>;
	using BG = BidirectionalAStar<St, Act, StHash, StEq>;
	using BT = BidirectionalAStar<St, Act, StHash, StEq, false>;
	Scope<AG> ag;
	Scope<AM> am;
	Scope<AT> at;
	Scope<BG> bg;
	Scope<BT> bt;
	bool hadAbort = false;
	long searches = 0;

	double h(long v, long goal) const
	{
		double x = -INF;
		for (auto& e : est) x = std::max(x, e.value(g, v, goal));
		return x;
	}
	Ref<AStarHeuristic<St>> leaf(const Est& e, bool adapter)
	{
		if (adapter) {
			auto f = [this, e](const long& v, const long& goal) { maybeThrow("throw:heur"); return e.value(g, v, goal); };
			auto inner = makeRef<AStarConcreteHeuristicFcn<long, decltype(f)>>(f);
			auto ad = [](const St& s) { return s.id; };
			return makeRef<AStarHeuristicAdapter<St, long, decltype(ad)>>(inner, ad);
		}
		auto f = [this, e](const St& v, const St& goal) { maybeThrow("throw:heur"); return e.value(g, v.id, goal.id); };
		return makeRef<AStarConcreteHeuristicFcn<St, decltype(f)>>(f);
	}
	void setHeuristic(const Op& op)
	{
		Quiet q;
		long n = std::max(1l, std::min(3l, op.iarg(0)));
		est.clear();
		std::vector<Ref<AStarHeuristic<St>>> l;
		for (long i = 0; i < n; i++) {
			Est e;
			e.kind = std::max(0l, std::min(5l, op.iarg(1 + 2 * i)));
			e.k = e.kind == 3 ? op.arg(2 + 2 * i) / 4 : 0;
			e.seed = op.iarg(2 + 2 * i);
			e.cap = op.iarg(8) ? INF : 1000;
			est.push_back(e);
			l.push_back(leaf(e, op.iarg(7) >> i & 1));
		}
		if (n == 1) heur = l[0];
		else {
			auto c = makeRef<AStarCombinedHeuristic<St>>();
			if (n == 2) c->Add(l[0], l[1]);
			else if (op.iarg(9)) c->Add(l[0], l[1], l[2]);
			else { c->Add(l[0]); c->Add(l[1]); c->Add(l[2]); }
			heur = c;
		}
		// bidirectional: estimates towards the goal, and towards the start on the reversed graph
		Est a = est[0], b = est[n - 1];
		a.cap = b.cap = 1000;
		if (!a.consistent()) a.kind = 1;
		if (!b.consistent()) b.kind = 2;
		b.reverse = true;
		pairConstant = op.iarg(10) == 2;
		if (op.iarg(10) == 1) {
			a.kind = b.kind = 0; // no estimate at all, no averaging
			hf = leaf(a, false);
			hr = leaf(b, false);
		} else if (pairConstant) {
			// any pair with a constant sum will do
			pk1 = op.iarg(11) % 5 / 4.0;
			pk2 = op.iarg(12) % 5 / 4.0;
			auto p = [this, a, b](long v) { return (a.value(g, v, curG) - b.value(g, v, curS)) / 2; };
			auto half = [this](double k) { return std::floor(std::min(1000.0, g.d[curS][curG]) / 2 * k * 4) / 4; };
			auto f1 = [this, p, half](const St& v, const St&) { maybeThrow("throw:heur"); return p(v.id) + half(pk1) * kscale(); };
			auto f2 = [this, p, half](const St& v, const St&) { maybeThrow("throw:heur"); return -p(v.id) + half(pk2) * kscale(); };
			hf = makeRef<AStarConcreteHeuristicFcn<St, decltype(f1)>>(f1);
			hr = makeRef<AStarConcreteHeuristicFcn<St, decltype(f2)>>(f2);
			kexact = a.kind == 1 && b.kind == 1;
		} else
			std::tie(hf, hr) = BG::GetAverageHeuristicPair(leaf(a, op.iarg(7) & 1), leaf(b, op.iarg(7) >> 1 & 1));
		configure();
	}
	bool kexact = true;
	double kscale() const { return kexact ? 1 : 0; } // the shift keeps the estimates admissible only when they are exact
	template <typename P>
	void configureOne(P& p)
	{
		if (!p->Initialize(fwd, heur)) violate("initialize", "the planner refuses a propagator and a heuristic");
	}
	void configure()
	{
		Quiet q;
		fwd->g = rev->g = &g;
		rev->reverse = true;
		if (ag) configureOne(ag);
		if (am) configureOne(am);
		if (at) configureOne(at);
		if (bg && !bg->Initialize(fwd, rev, hf, hr)) violate("initialize", "the planner refuses propagators and heuristics");
		if (bt && !bt->Initialize(fwd, rev, hf, hr)) violate("initialize", "the planner refuses propagators and heuristics");
	}
	void renew(bool keep)
	{
		Quiet q;
		if (!keep) {
			ag = makeScope<AG>();
			am = makeScope<AM>();
			at = makeScope<AT>();
			bg = makeScope<BG>();
			bt = makeScope<BT>();
		}
		configure();
	}

	// ---- checks
	void walk(const std::vector<St>& path, long s, long t, const char* who)
	{
		if (path.empty()) violate("path-empty", "%s: success without a path", who);
		if (path.front().id != s) violate("path-start", "%s: the path starts at state %ld, not at %ld", who, path.front().id, s);
		if (path.back().id != t) violate("path-end", "%s: the path ends at state %ld, not at %ld", who, path.back().id, t);
	}
	template <typename P>
	void checkUni(P& p, Status st, long s, long t, bool graph, const char* who)
	{
		Quiet q;
		double best = g.d[s][t];
		bool cons = true, adm = true;
		for (auto& e : est) {
			cons = cons && e.consistent();
			adm = adm && e.admissible();
		}
		bool optimal = graph ? cons : adm;
		auto path = p.GetPath();
		auto acts = p.GetActions();
		double cost = p.GetOptimalCost();
		if ((st == Status::Success) != (best < INF)) violate("completeness", "%s: state %ld is %s from state %ld, the search %s", who, t, best < INF ? "reachable" : "not reachable", s, st == Status::Success ? "succeeds" : "fails");
		std::map<long, long> times;
		for (long v : fwd->expanded) times[v]++;
		for (auto& [v, k] : times) {
			if (g.d[s][v] == INF) violate("expanded", "%s: state %ld is expanded, which cannot be reached", who, v);
			if (graph && k > 1) violate("expanded-twice", "%s: state %ld is expanded %ld times", who, v, k);
			if (optimal && st == Status::Success && g.d[s][v] + h(v, t) > best) violate("expanded-beyond", "%s: state %ld is expanded, %.10g + %.10g is more than the %.10g of the solution", who, v, g.d[s][v], h(v, t), best);
			if (graph && st == Status::Success && v == t) violate("expanded-goal", "%s: the goal is expanded", who);
		}
		if (st != Status::Success) {
			if (!path.empty() || !acts.empty() || cost != INF) violate("stale", "%s: a failed search leaves a path of %zu states, %zu actions and cost %.10g", who, path.size(), acts.size(), cost);
			for (long v = 0; v < g.n; v++)
				if (g.d[s][v] < INF && !times.count(v)) violate("gave-up", "%s: the search fails before state %ld is expanded", who, v);
			probe("failed");
			return;
		}
		walk(path, s, t, who);
		if (acts.size() + 1 != path.size()) violate("actions", "%s: %zu actions for %zu states", who, acts.size(), path.size());
		if (path.front().tag != -7) violate("path-start", "%s: the path does not start with the given state", who);
		double sum = 0;
		for (size_t i = 0; i < acts.size(); i++) {
			if (acts[i].edge.size() != 1 || acts[i].edge[0] < 0 || acts[i].edge[0] >= (long)g.e.size()) violate("actions", "%s: action %zu is none of the graph", who, i);
			auto& x = g.e[acts[i].edge[0]];
			if (x.c < 0 || x.u != path[i].id || x.v != path[i + 1].id || path[i + 1].tag != acts[i].edge[0])
				violate("path-step", "%s: step %zu goes from state %ld to %ld by an action from %ld to %ld", who, i, path[i].id, path[i + 1].id, x.u, x.v);
			sum += x.c;
		}
		if (sum != cost) violate("cost", "%s: the cost is said to be %.10g, the path costs %.10g", who, cost, sum);
		if (cost < best) violate("cost", "%s: the cost is said to be %.10g, the cheapest path costs %.10g", who, cost, best);
		if (optimal && cost != best) violate("optimality", "%s: a path of cost %.10g is found, the cheapest costs %.10g", who, cost, best);
		if constexpr (!std::is_same_v<P, AT>) checkExplored(p, path, s, who);
		if (path.size() > 2) nontrivial();
		if (!cons && graph) probe("inconsistent");
		if (!cons && !graph) probe("tree-admissible");
		Hash hh;
		for (auto& x : path) hh.add(x.tag);
		hh.addd(cost);
		for (long v : fwd->expanded) hh.add(v);
		state(hh.h);
	}
	template <typename P>
	void checkExplored(P& p, const std::vector<St>& path, long s, const char* who)
	{
		std::set<long> in;
		long cnt = 0;
		for (auto& x : p.GetExploredStates()) {
			long id;
			if constexpr (std::is_same_v<P, AG>) id = x.id;
			else {
				id = x.first.id;
				if ((*x.second)->state.id != id) violate("explored", "%s: explored state %ld is stored with the node of another", who, id);
			}
			in.insert(id);
			cnt++;
		}
		if (cnt != (long)in.size()) violate("explored", "%s: a state is in the explored set twice", who);
		for (long v : in)
			if (v != s && !std::count(fwd->expanded.begin(), fwd->expanded.end(), v)) violate("explored", "%s: state %ld is said to be explored", who, v);
		for (long v : fwd->expanded)
			if (!in.count(v)) violate("explored", "%s: state %ld was expanded but is not in the explored set", who, v);
		for (size_t i = 0; i + 1 < path.size(); i++)
			if (!in.count(path[i].id)) violate("explored", "%s: state %ld of the path is not in the explored set", who, path[i].id);
	}
	template <typename P>
	void checkBi(P& p, Status st, long s, long t, const char* who)
	{
		Quiet q;
		double best = g.d[s][t];
		auto path = p.GetPath();
		double cost = p.GetOptimalCost();
		if ((st == Status::Success) != (best < INF)) violate("completeness", "%s: state %ld is %s from state %ld, the search %s", who, t, best < INF ? "reachable" : "not reachable", s, st == Status::Success ? "succeeds" : "fails");
		for (long v : fwd->expanded)
			if (g.d[s][v] == INF) violate("expanded", "%s: state %ld is expanded, which cannot be reached", who, v);
		for (long v : rev->expanded)
			if (g.d[v][t] == INF) violate("expanded", "%s: state %ld is expanded backwards, which does not lead to the goal", who, v);
		if (st != Status::Success) {
			if (!path.empty() || cost != INF) violate("stale", "%s: a failed search leaves a path of %zu states and cost %.10g", who, path.size(), cost);
			probe("failed");
			return;
		}
		walk(path, s, t, who);
		double sum = 0;
		for (size_t i = 0; i + 1 < path.size(); i++) {
			double c = INF;
			for (auto& x : g.e)
				if (x.c >= 0 && x.u == path[i].id && x.v == path[i + 1].id) c = std::min(c, x.c);
			if (c == INF) violate("path-step", "%s: step %zu goes from state %ld to %ld, no edge does", who, i, path[i].id, path[i + 1].id);
			sum += c;
		}
		if (sum != cost) violate("cost", "%s: the cost is said to be %.10g, the path costs %.10g", who, cost, sum);
		if (cost != best) violate("optimality", "%s: a path of cost %.10g is found, the cheapest costs %.10g", who, cost, best);
		probe("bidirectional");
		if (path.size() > 2) nontrivial();
		Hash hh;
		for (auto& x : path) hh.add(x.id);
		hh.addd(cost);
		for (long v : fwd->expanded) hh.add(v);
		for (long v : rev->expanded) hh.add(v);
		state(hh.h);
	}

	/// a search with planner kind which; faults are armed by the caller
	void search(long which, long s, long t, bool& aborted)
	{
		const char* who = which == 0 ? "A*" : which == 1 ? "A* with an explored map" : which == 2 ? "A* tree search" : which == 3 ? "bidirectional A*" : "bidirectional tree search";
		bool tree = which == 2 || which == 4;
		Status st = Status::Failure;
		{
			Quiet q;
			g.distances();
			if (tree) {
				if (g.d[s][t] == INF) {
					// a tree search of a cyclic graph does not end unless there is a solution
					if (g.cyclicFrom(s)) return;
					if (which == 4)
						for (auto& x : g.e)
							if (x.c >= 0 && g.d[x.v][t] < INF && g.d[x.v][x.u] < INF) return;
				}
				for (auto& x : g.e)
					{
					if (x.c >= 0 && x.c < 2) return;
					for (auto& y : g.e)
						if (y.c >= 0 && y.c > 3 * x.c && x.c >= 0) return;
				}
				if (g.n > 6) return;
			}
			fwd->expanded.clear();
			rev->expanded.clear();
			curS = s;
			curG = t;
		}
		St a, b;
		a.id = s;
		a.tag = -7;
		b.id = t;
		b.tag = -8;
		auto go = [&](auto& p) {
			p->SetInitState(a);
			p->SetGoalState(b);
			try {
				st = p->SearchPath();
			} catch (const Injected&) { aborted = true; } catch (const std::bad_alloc&) { aborted = true; }
		};
		if (which == 0) go(ag);
		else if (which == 1) go(am);
		else if (which == 2) go(at);
		else if (which == 3) go(bg);
		else go(bt);
		{
			Quiet q;
			fwd->inside = rev->inside = nullptr;
		}
		ev("%s %ld -> %ld: %s, expanded %zu + %zu", who, s, t, aborted ? "aborted" : st == Status::Success ? "success" : "failure", fwd->expanded.size(), rev->expanded.size());
		if (aborted) {
			Quiet q;
			hadAbort = true;
			probe("aborted");
			// what it leaves may be asked for, though nothing is promised
			if (which == 0) ag->GetPath();
			else if (which == 1) am->GetPath();
			else if (which == 2) at->GetPath();
			else if (which == 3) bg->GetPath();
			else bt->GetPath();
			return;
		}
		if (hadAbort) probe("search-after-abort");
		if (tree) probe("tree");
		if (which == 0) checkUni(*ag, st, s, t, true, who);
		else if (which == 1) checkUni(*am, st, s, t, true, who);
		else if (which == 2) checkUni(*at, st, s, t, false, who);
		else if (which == 3) checkBi(*bg, st, s, t, who);
		else checkBi(*bt, st, s, t, who);
	}
};

static void generate(Rng& r, Plan& p)
{
	bool small = r.chance(0.4);
	long n = small ? r.range(1, 6) : r.range(2, 24);
	p.cfg["n"] = { (double)n };
	p.cfg["base"] = { (double)r.pick(std::vector<long> { 0, 0, 0, 1 << 22, 1 << 30 }), (double)r.chance(0.6) }; // costs that differ little, or a lot
	p.cfg["mod"] = { (double)r.pick(std::vector<long> { 1, 2, 5, 1000 }) };
	long spread = r.pick(std::vector<long> { 1, 4, 16, 64 });
	bool zero = r.chance(0.3);
	int shape = r.below(4); // 0: random, 1: layered, 2: symmetric, 3: chain with shortcuts
	double dens = r.pick(std::vector<double> { 1.2, 2, 3 });
	auto cost = [&] {
		if (small) return 2 + r.below(std::min(9l, spread)) / 4.0; // tree searches need costs that are not too small
		return zero && r.chance(0.4) ? 0.0 : (1 + r.below(spread)) / 4.0;
	};
	auto edge = [&](long u, long v) {
		p.ops.push_back(Op("edge", { (double)u, (double)v, cost() }));
	};
	long m = std::lround(dens * n);
	if (shape == 3)
		for (long i = 0; i + 1 < n; i++) edge(i, i + 1);
	for (long i = 0; i < m; i++) {
		long u = r.below(n), v = r.below(n);
		if (shape == 1) {
			if (u > v) std::swap(u, v);
			if (u == v) continue;
		}
		edge(u, v);
		if (shape == 2) {
			edge(v, u);
			p.ops.back().a[2] = p.ops[p.ops.size() - 2].a[2];
		}
		if (r.chance(0.1)) edge(u, v); // parallel
	}
	auto heur = [&] {
		Op op("heur", { (double)r.range(1, 3) });
		bool only = r.chance(0.5);
		for (int i = 0; i < 3; i++) {
			op.a.push_back(only ? r.below(4) : r.pick(std::vector<long> { 0, 1, 2, 3, 4, 4, 4, 5 }));
			op.a.push_back(r.below(40));
		}
		op.a.push_back(r.below(8));              // 7: adapters
		op.a.push_back(r.below(2));              // 8: infinite estimates
		op.a.push_back(r.below(2));              // 9: how they are added
		op.a.push_back(r.below(3));              // 10: pair of the bidirectional search
		op.a.push_back(r.below(5));
		op.a.push_back(r.below(5));
		p.ops.push_back(op);
	};
	heur();
	double faultRate = r.pick(std::vector<double> { 0, 0, 0.2, 0.5 });
	for (long i = r.range(1, 10); i > 0; i--) {
		double x = r.real();
		if (x < 0.12) heur();
		else if (x < 0.2) edge(r.below(n), r.below(n));
		else if (x < 0.28) p.ops.push_back(Op("drop", { (double)r.below(100) }));
		else if (x < 0.33) p.ops.push_back(Op("recost", { (double)r.below(100), cost() }));
		else if (x < 0.37) p.ops.push_back(Op("renew", { (double)r.below(3) }));
		Op op("search", { (double)(small ? r.below(5) : r.pick(std::vector<long> { 0, 0, 1, 3, 3 })), (double)r.below(n), (double)r.below(n) });
		if (r.chance(0.15)) op.a.insert(op.a.end(), { 1.0, (double)r.below(5), (double)r.below(n), (double)r.below(n) });
		if (r.chance(faultRate)) {
			static const std::vector<std::string> kinds = { "throw:next", "throw:heur", "alloc" };
			auto k = r.pick(kinds);
			op.f.push_back({ k, r.chance(0.5) ? r.below(6) : r.below(k == "alloc" ? 200 : 40) });
		}
		p.ops.push_back(op);
	}
}

static void execute(const Plan& p)
{
	stepBudget(400000000ull);
	g_mod = std::max(1l, p.ci("mod", 1));
	Instance a, b; // b is used inside the searches of a
	a.g.n = b.g.n = std::max(1l, p.ci("n", 1));
	a.g.distances();
	b.g.distances();
	a.renew(true);
	b.renew(true);
	Op zero("heur", { 1, 2, 0 });
	a.setHeuristic(zero);
	b.setHeuristic(zero);
	a.renew(false);
	b.renew(false);
	const double base = std::max(0.0, p.c("base"));
	const bool mixed = p.cv("base").size() > 1 && p.cv("base")[1] > 0;
	auto price = [&](double c, double k) { return c <= 0 ? 0.0 : mixed && mix((u64)k) % 3 ? c : c + base; };
	auto both = [&](auto f) { f(a); f(b); };
	for (auto& op : p.ops) {
		long n = a.g.n;
		if (op.name == "edge") {
			both([&](Instance& i) { i.g.e.push_back({ std::abs(op.iarg(0)) % n, std::abs(op.iarg(1)) % n, price(op.arg(2), i.g.e.size()) }); });
		} else if (op.name == "drop" || op.name == "recost") {
			if (a.g.e.empty()) continue;
			long k = std::abs(op.iarg(0)) % (long)a.g.e.size();
			if (op.name == "recost" && a.g.e[k].c < 0) continue;
			both([&](Instance& i) { i.g.e[k].c = op.name == "drop" ? -1 : price(op.arg(1), k); });
		} else if (op.name == "heur") {
			both([&](Instance& i) { i.g.distances(); i.setHeuristic(op); });
			ev("heur %ld kinds %ld %ld %ld", op.iarg(0), op.iarg(1), op.iarg(3), op.iarg(5));
		} else if (op.name == "renew") {
			if (op.iarg(0) == 2) {
				// refused configurations must not run; a proper one makes the planner usable again
				Quiet q;
				bool r1 = a.ag->Initialize(nullptr, a.heur), r2 = a.at->Initialize(a.fwd, nullptr), r3 = a.bg->Initialize(a.fwd, nullptr, a.hf, a.hr);
				if (r1 || r2 || r3) violate("initialize", "a planner accepts a missing propagator or heuristic");
				if (a.ag->SearchPath() != Status::Failure || a.at->SearchPath() != Status::Failure || a.bg->SearchPath() != Status::Failure) violate("initialize", "a planner that is not initialised succeeds");
				probe("refused");
				a.configure();
			} else
				a.renew(op.iarg(0) == 0);
			ev("renew %ld", op.iarg(0));
		} else if (op.name == "search") {
			bool aborted = false, inner = false;
			long which = std::abs(op.iarg(0)) % 5;
			Armed arm(op);
			if (op.iarg(3)) {
				Quiet q;
				a.fwd->inside = [&] {
					probe("nested");
					b.search(std::abs(op.iarg(4)) % 5, std::abs(op.iarg(5)) % n, std::abs(op.iarg(6)) % n, inner);
					if (inner) throw Injected("nested");
				};
			}
			a.search(which, std::abs(op.iarg(1)) % n, std::abs(op.iarg(2)) % n, aborted);
			Quiet q;
			a.fwd->inside = nullptr;
			if (aborted && firedInOp() == 0) violate("unexpected-failure", "the search failed although nothing was injected");
		}
	}
}
const sim::Property sim::property = { "C23", generate, execute };
