// C01: the occupancy grid is exactly the union of the footprints of the
// registered obstacles, through every history of additions, removals, moves
// and failed operations.
#include "world.h"
using namespace world;
using namespace sim;

static void generate(Rng& r, Plan& p)
{
	genMap(r, p, 3, r.chance(0.8) ? 16 : 45, true);
	double faultRate = r.pick(std::vector<double> { 0, 0, 0.1, 0.3 });
	genMapHistory(r, p, r.range(3, r.chance(0.7) ? 14 : 60), faultRate, true, 0.15);
	p.cfg["late"] = { (double)r.chance(0.3) }; // map placed after it was sized
}

/// The footprint must trace every edge of the outline and nothing else.
static void checkFootprint(const Ref<Obstacle>& o, const std::vector<double>& spec, const OccupancyMap& map, const Geo& g, const Cells& fp)
{
	auto verts = o->GetBoundaryWorldPosition();
	// independent cell coordinates (continuous)
	double gx = g.ox - (double)g.w / 2, gy = g.oy - (double)g.h / 2;
	std::vector<std::pair<Point2d, Point2d>> edges;
	size_t k = 0;
	for (int n : outlineSizes(spec)) {
		if (k + n > verts.size()) violate("footprint", "outline of %zu vertices where %zu were expected", verts.size(), k + n);
		for (int i = 0; i < n; i++) {
			auto a = verts[k + i], b = verts[k + (i + 1) % n];
			edges.push_back({ Point2d((a.x() - gx) / g.res, (a.y() - gy) / g.res), Point2d((b.x() - gx) / g.res, (b.y() - gy) / g.res) });
		}
		k += n;
	}
	// every footprint cell touches the neighbourhood of an edge
	for (auto& c : fp) {
		if (c.first < 0 || c.first >= map.Rows() || c.second < 0 || c.second >= map.Columns())
			violate("footprint", "cell (%d,%d) outside the %dx%d map", c.first, c.second, map.Rows(), map.Columns());
		double best = 1e9;
		for (auto& [a, b] : edges) {
			Point2d q(c.first + 0.5, c.second + 0.5), d = b - a;
			double t = d.squaredNorm() > 0 ? std::clamp((q - a).dot(d) / d.squaredNorm(), 0.0, 1.0) : 0.0;
			best = std::min(best, (q - a - t * d).norm());
		}
		if (best > 1.75) violate("footprint", "cell (%d,%d) is %.2f cells away from the outline", c.first, c.second, best);
	}
	// every edge is covered along its major axis, without holes
	for (auto& [a, b] : edges) {
		int a0 = (int)std::floor(a.x()), a1 = (int)std::floor(a.y()), b0 = (int)std::floor(b.x()), b1 = (int)std::floor(b.y());
		// numerically ambiguous cells are not judged
		auto amb = [](double v) { return std::fabs(v - std::round(v)) < 1e-4; };
		if (amb(a.x()) || amb(a.y()) || amb(b.x()) || amb(b.y())) continue;
		bool steep = std::abs(b1 - a1) > std::abs(b0 - a0);
		if (steep) { std::swap(a0, a1); std::swap(b0, b1); }
		if (a0 > b0) { std::swap(a0, b0); std::swap(a1, b1); }
		int R = steep ? map.Columns() : map.Rows(), C = steep ? map.Rows() : map.Columns();
		for (int m = std::max(0, a0); m <= std::min(b0, R - 1); m++) {
			double exact = b0 == a0 ? a1 : a1 + (double)(b1 - a1) * (m - a0) / (b0 - a0);
			if (exact < 1 || exact > C - 2) continue;
			bool hit = false;
			for (int s = (int)std::floor(exact - 1); s <= (int)std::ceil(exact + 1) && !hit; s++)
				if (std::fabs(s - exact) <= 1.0 + 1e-9) hit = fp.count(steep ? Cell(s, m) : Cell(m, s)) > 0;
			if (!hit) violate("footprint-hole", "no cell of the footprint at step %d of an edge (%s axis)", m, steep ? "column" : "row");
		}
		for (int e = 0; e < 2; e++) {
			const Point2d& v = e ? b : a;
			Cell c((int)std::floor(v.x()), (int)std::floor(v.y()));
			if (c.first >= 0 && c.first < map.Rows() && c.second >= 0 && c.second < map.Columns() && !fp.count(c))
				violate("footprint-vertex", "the cell (%d,%d) of a vertex is not in the footprint", c.first, c.second);
		}
	}
}

static void execute(const Plan& p)
{
	Geo g(p);
	MapWorld w;
	if (p.ci("late")) {
		auto m = makeRef<ObstacleListOccupancyMap>(g.res);
		m->InitializeSize(g.w, g.h);
		m->SetPosition({ g.ox, g.oy });
		w.create(p, m);
	} else
		w.createFlat(p);
	auto& map = *w.map;
	std::map<long, Cells> model; // registered obstacle -> footprint when it was added
	std::map<long, int> id;      // learnt identifier
	stepBudget(2000000000ull);
	for (size_t k = 0; k < p.ops.size(); k++) {
		const Op& op = p.ops[k];
		long i = w.idx(op);
		Cells fp;
		bool had = model.count(i) > 0;
		if (op.name == "add" && w.count()) {
			fp = footprint(w.obs[i], map);
			auto s = w.spec[i];
			checkFootprint(w.obs[i], s, map, g, fp);
		}
		auto out = w.apply(op);
		ev("%zu %s %ld -> %d", k, op.name.c_str(), i, (int)out);
		if (out == MapWorld::NotMine) continue;
		if (op.name == "add" && w.count()) {
			if (out == MapWorld::True) {
				if (had) violate("double-add", "an obstacle already on the map was added again");
				model[i] = fp;
				nontrivial();
			} else if (out == MapWorld::False && !had)
				violate("refused-add", "an obstacle that is not on the map was refused");
			else if (out == MapWorld::Failed)
				probe(had ? "failed-add-present" : "failed-add");
		} else if (op.name == "remove" && w.count()) {
			if (out == MapWorld::True) {
				if (!had) violate("remove-absent", "removal of an absent obstacle reported success");
				for (auto& [j, f] : model)
					if (j != i)
						for (auto& c : f)
							if (model[i].count(c)) { probe("remove-shared-cells"); break; }
				model.erase(i);
				id.erase(i);
			} else if (out == MapWorld::False && had)
				violate("refused-remove", "an obstacle that is on the map could not be removed");
			else if (out == MapWorld::Failed) {
				// a failed removal may leave it on the map or have removed it; ask the map
				probe("failed-remove");
				bool still = !w.map->AddObstacle(w.obs[i]);
				if (had && !still) model[i] = footprint(w.obs[i], map);
				if (!had && still) violate("remove-absent", "a failed removal registered an absent obstacle");
				if (!had) { w.map->RemoveObstacle(w.obs[i]); }
			}
		} else if (op.name == "move")
			probe(had ? "move-registered" : "move-free");

		// --- invariant: occupancy equals the union of the footprints
		Cells want;
		std::map<Cell, int> cover;
		for (auto& [j, f] : model)
			for (auto& c : f) { want.insert(c); cover[c]++; }
		Hash h;
		for (int r = 0; r < map.Rows(); r++)
			for (int c = 0; c < map.Columns(); c++) {
				bool occ = map.IsOccupied({ r, c }), exp = want.count({ r, c }) > 0;
				int val = map.GetOccupancyValue(r, c);
				if (occ && !exp) violate("ghost-cell", "after operation %zu (%s): cell (%d,%d) is occupied but no registered obstacle covers it", k, op.name.c_str(), r, c);
				if (!occ && exp) violate("lost-cell", "after operation %zu (%s): cell (%d,%d) is free but a registered obstacle covers it", k, op.name.c_str(), r, c);
				if (occ != (val >= 0)) violate("value", "cell (%d,%d): occupied=%d but value %d", r, c, occ, val);
				if (occ) h.add((u64)r * 4096 + c);
			}
		state(h.h);
		// --- identifiers: each cell names one registered obstacle that covers it
		for (auto& [j, f] : model)
			for (auto& c : f)
				if (cover[c] == 1) {
					int v = map.GetOccupancyValue(c.first, c.second);
					if (!id.count(j)) {
						for (auto& [j2, v2] : id)
							if (v2 == v) violate("identifier", "two registered obstacles share the identifier %d", v);
						id[j] = v;
					} else if (id[j] != v)
						violate("identifier", "cell (%d,%d) names obstacle %d where only obstacle %d lies", c.first, c.second, v, id[j]);
				}
		for (auto& [c, n] : cover)
			if (n > 1) {
				int v = map.GetOccupancyValue(c.first, c.second);
				bool known = true, match = false;
				for (auto& [j, f] : model)
					if (f.count(c)) {
						if (!id.count(j)) known = false;
						else if (id[j] == v) match = true;
					}
				if (known && !match) violate("identifier", "shared cell (%d,%d) names %d, which is none of the obstacles lying there", c.first, c.second, v);
				probe("shared-cell-checked");
			}
		if (map.GetNumObstacles() != (int)model.size())
			violate("count", "%d obstacles counted, %zu are registered", map.GetNumObstacles(), model.size());
	}
	ev("end %zu", model.size());
}

const Property sim::property = { "C01", generate, execute };
