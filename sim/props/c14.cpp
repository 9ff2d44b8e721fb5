// C14: an exported image shows the field it was made from, or is recognisably
// incomplete; exports never disturb the planner, other files or later exports.
#include "world.h"
#include "disk.h"
#include "algo/heuristics.h"
#include <queue>
#include <limits>
using namespace world;
using namespace sim;

struct Heur : ObstaclesHeuristic {
	using ObstaclesHeuristic::ObstaclesHeuristic;
	void Goal(const Pose2d& g) { SetGoal(g); }
};

static void generate(Rng& r, Plan& p)
{
	genMap(r, p, 1, r.chance(0.6) ? 10 : r.chance(0.6) ? 40 : 120, true);
	Geo g(p);
	double faultRate = r.pick(std::vector<double> { 0, 0.3, 0.6 });
	genMapHistory(r, p, r.range(0, 8), 0.0, false, 0.0);
	auto base = p.ops;
	p.ops.clear();
	size_t k = 0;
	for (long i = r.range(2, 8); i > 0; i--) {
		for (long j = r.range(0, 3); j > 0 && k < base.size(); j--) p.ops.push_back(base[k++]);
		if (r.chance(0.5)) p.ops.push_back(Op("update"));
		if (r.chance(0.6)) p.ops.push_back(Op("goal", { std::round((g.ox + g.w * r.real(-0.5, 0.5)) * 1024) / 1024, std::round((g.oy + g.h * r.real(-0.5, 0.5)) * 1024) / 1024 }));
		if (r.chance(faultRate * 0.3)) p.ops.push_back(Op("space", { r.chance(0.4) ? -1.0 : (double)r.below(20000) }));
		Op op(r.chance(0.5) ? "gvd" : "heur", { (double)r.below(3) });
		if (r.chance(faultRate)) {
			double u = r.real();
			if (u < 0.2) op.f.push_back({ "open", 0, r.real() });
			else if (u < 0.4) op.f.push_back({ "eio", r.below(4) });
			else if (u < 0.9) { for (long n = r.range(1, 3); n > 0; n--) op.f.push_back({ r.chance(0.5) ? "short" : "eintr", r.below(6), r.real() }); }
			else op.f.push_back({ "close", 0 });
		}
		p.ops.push_back(op);
	}
}

static void execute(const Plan& p)
{
	diskUse(true);
	MapWorld w;
	auto map = w.createSim(p);
	auto gvd = makeRef<GVD>(map);
	auto h = makeRef<Heur>(map, 1.0, 1.0);
	int R = map->Rows(), C = map->Columns();
	Geo g(p);
	double res = map->resolution;
	const double inf = std::numeric_limits<double>::infinity();
	std::vector<double> cost;
	bool fresh = false, heurFresh = false; // the fields are those of the present obstacles
	std::map<std::string, std::string> files; // as we last saw them
	stepBudget(8000000000ull);
	for (size_t k = 0; k < p.ops.size(); k++) {
		const Op& op = p.ops[k];
		if (op.name == "space") { diskSpace((long)op.arg(0)); continue; }
		if (op.name == "update") { gvd->Update(); fresh = true; continue; }
		if (op.name == "goal") {
			Pose2d goal(op.arg(0), op.arg(1), 0);
			h->Goal(goal);
			h->Update(goal);
			cost.assign((size_t)R * C, inf);
			int gr = (int)std::floor((goal.x() - (g.ox - (double)g.w / 2)) / res), gc = (int)std::floor((goal.y() - (g.oy - (double)g.h / 2)) / res);
			if (gr >= 0 && gc >= 0 && gr < R && gc < C) {
				using E = std::pair<double, int>;
				std::priority_queue<E, std::vector<E>, std::greater<E>> pq;
				cost[gr * C + gc] = 0;
				pq.push({ 0, gr * C + gc });
				while (!pq.empty()) {
					auto [d, q] = pq.top();
					pq.pop();
					if (d > cost[q]) continue;
					int r = q / C, c = q % C;
					for (int dr = -1; dr <= 1; dr++)
						for (int dc = -1; dc <= 1; dc++) {
							int nr = r + dr, nc = c + dc;
							if ((!dr && !dc) || nr < 0 || nc < 0 || nr >= R || nc >= C || map->IsOccupied({ nr, nc })) continue;
							if (dr && dc && map->IsOccupied({ nr, c }) && map->IsOccupied({ r, nc })) continue;
							double nd = d + (dr && dc ? std::sqrt(2.0) : 1.0);
							if (nd < cost[nr * C + nc] - 1e-12) {
								cost[nr * C + nc] = nd;
								pq.push({ nd, nr * C + nc });
							}
						}
				}
			}
			heurFresh = true;
			continue;
		}
		bool isG = op.name == "gvd", isH = op.name == "heur";
		if (!isG && !isH) {
			w.apply(op);
			fresh = heurFresh = false;
			continue;
		}
		if (isG ? !fresh : cost.empty()) continue; // nothing to show yet
		std::string path = "image" + std::to_string(std::labs(op.iarg(0)) % 3) + ".ppm";
		DiskStats before = diskStats();
		{
			Armed a(op);
			try {
				if (isG) gvd->Visualize(path);
				else h->Visualize(path);
			} catch (const std::exception& e) {
				violate("export-threw", "operation %zu: an export threw %s", k, e.what());
			}
		}
		DiskStats now = diskStats();
		bool failedOpen = now.failedOpens > before.failedOpens, failedWrite = now.failedWrites > before.failedWrites;
		if (diskOpen() != 0) violate("handle-leak", "operation %zu: the exported file was not closed", k);
		// every other file is as it was
		for (auto& n : diskPaths())
			if (n != path && *diskFile(n) != files[n]) violate("other-file", "operation %zu: exporting %s changed %s", k, path.c_str(), n.c_str());
		const std::string* f = diskFile(path);
		if (failedOpen) {
			probe("failed-open");
			if (f && *f != files[path]) violate("failed-open", "operation %zu: the file changed although it could not be opened", k);
			continue;
		}
		if (!f) violate("no-file", "operation %zu: nothing was exported", k);
		files[path] = *f;
		char head[64];
		snprintf(head, sizeof head, "%d %d", R, C);
		// header: magic, optional comments, width, height, 255
		size_t pos = 0;
		auto token = [&]() {
			std::string t;
			for (;;) {
				while (pos < f->size() && isspace((unsigned char)(*f)[pos])) pos++;
				if (pos < f->size() && (*f)[pos] == '#') { while (pos < f->size() && (*f)[pos] != '\n') pos++; continue; }
				break;
			}
			while (pos < f->size() && !isspace((unsigned char)(*f)[pos])) t += (*f)[pos++];
			return t;
		};
		std::string magic = token(), wd = token(), ht = token(), mx = token();
		pos++;
		bool full = magic == "P6" && wd == std::to_string(R) && ht == std::to_string(C) && mx == "255" && pos <= f->size() && f->size() - pos == (size_t)R * C * 3;
		if (!full) {
			if (failedWrite) { probe("recognisably-incomplete"); continue; }
			violate("bad-image", "operation %zu: header '%s %s %s %s' and %zu bytes for a map of %dx%d although every byte could be written", k, magic.substr(0, 8).c_str(), wd.substr(0, 8).c_str(), ht.substr(0, 8).c_str(), mx.substr(0, 8).c_str(), f->size(), R, C);
		}
		double top = 0;
		for (double c : cost)
			if (std::isfinite(c)) top = std::max(top, c);
		Hash hh;
		long shades = 0;
		for (int y = C - 1, i = 0; y >= 0; y--)
			for (int x = 0; x < R; x++, i++) {
				const unsigned char* px = (const unsigned char*)f->data() + pos + 3 * i;
				int mxc = std::max({ px[0], px[1], px[2] }), mnc = std::min({ px[0], px[1], px[2] });
				hh.add(px[0] << 16 | px[1] << 8 | px[2]);
				double want;
				if (isG) {
					auto n = gvd->GetNearestObstacleCell(x, y);
					want = map->IsOccupied({ x, y }) || !n.IsValid() ? 0 : 255 * (1 - std::min(1.f, std::max(0.f, gvd->GetPathCost(GridCellPosition(x, y)))));
				} else {
					double c = cost[x * C + y];
					want = !std::isfinite(c) || top == 0 ? 0 : 255 * (top - c) / top;
					if (mnc != mxc) violate("wrong-pixel", "operation %zu: pixel of cell (%d,%d) is not grey: %d %d %d", k, x, y, px[0], px[1], px[2]);
					if (top == 0 && std::isfinite(c)) want = mxc; // a single cell has no scale
				}
				if (std::fabs(mxc - want) > 1.5) violate("wrong-pixel", "operation %zu: brightness %d at cell (%d,%d) of the %s image, %.2f expected", k, mxc, x, y, isG ? "Voronoi" : "heuristic", want);
				shades += want > 1 && want < 254;
			}
		// cells that belong to the same obstacle have the same hue
		if (isG) {
			std::map<int, std::array<double, 3>> hue;
			for (int y = C - 1, i = 0; y >= 0; y--)
				for (int x = 0; x < R; x++, i++) {
					const unsigned char* px = (const unsigned char*)f->data() + pos + 3 * i;
					auto n = gvd->GetNearestObstacleCell(x, y);
					int mxc = std::max({ px[0], px[1], px[2] });
					if (map->IsOccupied({ x, y }) || !n.IsValid() || mxc < 60 || !map->IsOccupied(n)) continue;
					std::array<double, 3> v = { px[0] / (double)mxc, px[1] / (double)mxc, px[2] / (double)mxc };
					auto [it, isNew] = hue.insert({ map->GetOccupancyValue(n), v });
					for (int j = 0; j < 3; j++)
						if (std::fabs(it->second[j] - v[j]) > 0.06) violate("wrong-colour", "operation %zu: two cells of one obstacle have different colours at (%d,%d)", k, x, y);
				}
			if (hue.size() > 1) probe("several-colours");
		}
		if (shades > 2) nontrivial();
		if (f->size() > 4096) probe("larger-than-a-buffer");
		state(hh.h);
		ev("%zu %s %s %zu bytes %016llx writes %ld", k, op.name.c_str(), path.c_str(), f->size(), (unsigned long long)hh.h, now.writes - before.writes);
	}
	(void)heurFresh;
}

const Property sim::property = { "C14", generate, execute };
