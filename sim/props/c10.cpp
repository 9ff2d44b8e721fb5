// C10: samples stay inside the state space for every random stream, and sampling
// survives a failing entropy source.
#include "sim.h"
#include "core/base.h"
#include "state_space/state_space_r2.h"
#include "state_space/state_space_se2.h"
#include <memory>
using namespace Planner;
using namespace sim;

static void generate(Rng& r, Plan& p)
{
	double faultRate = r.pick(std::vector<double> { 0, 0.2, 0.5 });
	auto pair = [&](double& lo, double& hi, double cap) {
		double u = r.real();
		if (u < 0.3) { lo = r.real(-cap, cap); hi = lo + r.real(0, cap); }
		else if (u < 0.5) { lo = std::round(r.real(-9, 9)) / 10; hi = lo + std::round(r.real(0, 20)) / 10; }
		else if (u < 0.6) lo = hi = r.real(-cap, cap);
		else if (u < 0.8) { lo = r.real(-cap, cap); hi = lo + cap * std::pow(10.0, r.real(-15, -1)); }
		else if (u < 0.9 && cap > 10) { lo = -r.real(0, 1e15); hi = r.real(0, 1e15); }
		else { lo = -cap; hi = cap; }
		lo = std::clamp(lo, -std::max(cap, 1e15), 1e15);
		if (cap < 10) { lo = std::clamp(lo, -cap, cap); hi = std::clamp(hi, lo, cap); }
		if (hi < lo) std::swap(lo, hi);
	};
	long live = 0;
	for (long i = r.range(3, 14); i > 0; i--) {
		if (!live || r.chance(0.25)) {
			double b[6];
			pair(b[0], b[1], 50);
			pair(b[2], b[3], 50);
			pair(b[4], b[5], M_PI);
			Op op("space", { (double)r.below(2), b[0], b[1], b[2], b[3], b[4], b[5] });
			if (r.chance(faultRate)) op.f.push_back({ r.chance(0.7) ? "entropy" : "alloc", r.below(3) });
			p.ops.push_back(op);
			live++;
			continue;
		}
		if (r.chance(0.2)) { // states anywhere: how far out each coordinate is, and on which side
			Op op("bounds", { (double)r.below(4) });
			for (long n = r.range(1, 12); n > 0; n--)
				for (int i = 0; i < 3; i++) {
					op.a.push_back((double)r.below(7));
					op.a.push_back(r.chance(0.3) ? std::pow(10.0, r.real(-12, 6)) : r.real());
				}
			p.ops.push_back(op);
			continue;
		}
		double u = r.real();
		Op op(u < 0.25 ? "uniform" : u < 0.45 ? "gauss" : u < 0.6 ? "batch" : u < 0.75 ? "batchg" : u < 0.87 ? "stat" : "statg");
		op.a = { (double)r.below(4), (double)(op.name[0] == 's' ? r.range(200, 600) : r.chance(0.1) ? 0 : r.range(1, 40)), r.real(-0.2, 1.2), std::pow(10.0, r.real(-3, 2)) };
		if (op.name[0] != 's') {
			for (long k = r.geo(0.5, 6); k > 0; k--) op.a.push_back(r.chance(0.5) ? r.below(4) : r.below(80)), op.a.push_back(r.below(4));
			if (op.name[0] == 'b' && r.chance(faultRate * 0.5)) op.f.push_back({ "alloc", 0 });
		}
		p.ops.push_back(op);
	}
}

struct Space {
	std::unique_ptr<StateSpaceR2> r2;
	std::unique_ptr<StateSpaceSE2> se2;
	double lo[3] = {}, hi[3] = {};
	int dim() const { return r2 ? 2 : 3; }
};
typedef std::array<double, 3> Val;
static Val val(const Point2d& p) { return { p.x(), p.y(), 0 }; }
static Val val(const Pose2d& p) { return { p.x(), p.y(), p.theta }; }

static void execute(const Plan& p)
{
	std::vector<std::unique_ptr<Space>> spaces;
	rngReset(p.seed);
	bool failedOnce = false;
	for (size_t k = 0; k < p.ops.size(); k++) {
		const Op& op = p.ops[k];
		stepBudget(50000000ull);
		if (op.name == "space") {
			auto s = std::make_unique<Space>();
			for (int i = 0; i < 3; i++) { s->lo[i] = op.arg(1 + 2 * i); s->hi[i] = std::max(s->lo[i], op.arg(2 + 2 * i)); }
			bool failed = false;
			{
				Armed a(op);
				try {
					if (op.iarg(0) == 0) s->r2.reset(new StateSpaceR2(Point2d(s->lo[0], s->lo[1]), Point2d(s->hi[0], s->hi[1])));
					else s->se2.reset(new StateSpaceSE2(Pose2d(s->lo[0], s->lo[1], s->lo[2]), Pose2d(s->hi[0], s->hi[1], s->hi[2])));
				} catch (const std::exception&) {
					failed = true;
				}
			}
			if (failed && !firedInOp()) violate("unexpected-failure", "a state space could not be created although nothing was injected");
			failedOnce |= firedInOp() > 0;
			ev("%zu space dim %ld failed %d", k, op.iarg(0) + 2, failed);
			if (failed) probe("space-failed");
			else spaces.push_back(std::move(s));
			continue;
		}
		if (spaces.empty()) continue;
		Space& s = *spaces[op.iarg(0) % spaces.size()];
		const int dim = s.dim();
		if (op.name == "bounds") {
			Hash h;
			for (size_t j = 1; j + 5 < op.a.size(); j += 6) {
				Val v = {}, want = {};
				bool in = true;
				for (int i = 0; i < dim; i++) {
					double t = op.a[j + 2 * i + 1], range = s.hi[i] - s.lo[i];
					switch ((int)op.a[j + 2 * i]) {
					case 0: v[i] = s.lo[i]; break;
					case 1: v[i] = s.hi[i]; break;
					case 2: v[i] = s.lo[i] - t; break;
					case 3: v[i] = s.hi[i] + t; break;
					case 4: v[i] = std::nextafter(t < 0.5 ? s.lo[i] : s.hi[i], t < 0.5 ? -HUGE_VAL : HUGE_VAL); break;
					default: v[i] = std::clamp(s.lo[i] + range * std::min(t, 1.0), s.lo[i], s.hi[i]);
					}
					want[i] = std::min(std::max(v[i], s.lo[i]), s.hi[i]);
					in &= v[i] == want[i];
				}
				Val got = {};
				bool ok, after;
				if (s.r2) {
					Point2d q(v[0], v[1]);
					ok = s.r2->ValidateBounds(q);
					s.r2->EnforceBounds(q);
					after = s.r2->ValidateBounds(q);
					got = val(q);
				} else {
					Pose2d q;
					q.x() = v[0]; q.y() = v[1]; q.theta = v[2];
					ok = s.se2->ValidateBounds(q);
					s.se2->EnforceBounds(q);
					after = s.se2->ValidateBounds(q);
					got = val(q);
				}
				if (ok != in) violate("bounds-verdict", "state (%.17g, %.17g, %.17g) is %s the bounds but was %s", v[0], v[1], v[2], in ? "inside" : "outside", ok ? "accepted" : "rejected");
				for (int i = 0; i < dim; i++)
					if (got[i] != want[i]) violate("bounds-enforced", "coordinate %d: %.17g became %.17g, the bounds are [%.17g, %.17g]", i, v[i], got[i], s.lo[i], s.hi[i]);
				if (!after) violate("bounds-enforced", "a state moved inside the bounds is rejected");
				h.addd(v[0]); h.add(in);
				probe(in ? "state-inside" : "state-outside");
			}
			ev("%zu bounds %016llx", k, (unsigned long long)h.h);
			continue;
		}
		for (size_t i = 4; i + 1 < op.a.size(); i += 2) rngOverride((long)op.a[i], (int)op.a[i + 1]);
		long n = std::max(0l, op.iarg(1));
		Val mean, dev;
		for (int i = 0; i < 3; i++) {
			double range = s.hi[i] - s.lo[i];
			mean[i] = s.lo[i] + range * op.arg(2);
			dev[i] = range * op.arg(3);
		}
		if (dim == 3) mean[2] = std::clamp(mean[2], -M_PI, M_PI);
		Point2d m2(mean[0], mean[1]), d2(dev[0], dev[1]);
		Pose2d m3, d3;
		m3.x() = mean[0]; m3.y() = mean[1]; m3.theta = mean[2];
		d3.x() = dev[0]; d3.y() = dev[1]; d3.theta = dev[2];
		std::vector<Val> out;
		bool gauss = op.name == "gauss" || op.name == "batchg" || op.name == "statg", batch = op.name == "batch" || op.name == "batchg", failed = false;
		u64 before = rngDraws();
		{
			Armed a(op);
			try {
				if (batch) {
					if (s.r2) {
						StateSpace<Point2d, 2, double>& sp = *s.r2;
						auto v = gauss ? sp.SampleGaussian(m2, d2, (unsigned)n) : sp.SampleUniform((unsigned)n);
						Quiet q;
						for (auto& x : v) out.push_back(val(x));
					} else {
						StateSpace<Pose2d, 3, double>& sp = *s.se2;
						auto v = gauss ? sp.SampleGaussian(m3, d3, (unsigned)n) : sp.SampleUniform((unsigned)n);
						Quiet q;
						for (auto& x : v) out.push_back(val(x));
					}
				} else
					for (long i = 0; i < n; i++) {
						if (s.r2) {
							auto x = gauss ? s.r2->SampleGaussian(m2, d2) : s.r2->SampleUniform();
							Quiet q;
							out.push_back(val(x));
						} else {
							auto x = gauss ? s.se2->SampleGaussian(m3, d3) : s.se2->SampleUniform();
							Quiet q;
							out.push_back(val(x));
						}
					}
			} catch (const std::exception&) {
				failed = true;
			}
		}
		if (failed && !firedInOp()) violate("unexpected-failure", "sampling failed although nothing was injected");
		if (failed) {
			probe("batch-failed");
			continue;
		}
		Hash h;
		for (auto& v : out)
			for (int i = 0; i < dim; i++) h.addd(v[i]);
		state(h.h);
		ev("%zu %s n %ld draws %llu %016llx", k, op.name.c_str(), n, (unsigned long long)(rngDraws() - before), (unsigned long long)h.h);
		if ((long)out.size() != n) violate("batch-size", "%ld samples were asked for, %zu were returned", n, out.size());
		for (size_t j = 0; j < out.size(); j++) {
			for (int i = 0; i < dim; i++)
				if (!(out[j][i] >= s.lo[i] && out[j][i] <= s.hi[i])) violate("out-of-bounds", "sample %zu: coordinate %d is %.17g, the bounds are [%.17g, %.17g]", j, i, out[j][i], s.lo[i], s.hi[i]);
			bool ok = s.r2 ? s.r2->ValidateBounds(Point2d(out[j][0], out[j][1])) : [&] { Pose2d q; q.x() = out[j][0]; q.y() = out[j][1]; q.theta = out[j][2]; return s.se2->ValidateBounds(q); }();
			if (!ok) violate("out-of-bounds", "sample %zu is not inside the state space", j);
		}
		if (n && failedOnce) probe("sampled-after-failure");
		if (n > 1) nontrivial();
		// distribution, from an undisturbed stream
		if (op.name == "stat") {
			for (int i = 0; i < dim; i++) {
				double range = s.hi[i] - s.lo[i];
				if (!(range > 1e-9 * (std::fabs(s.lo[i]) + std::fabs(s.hi[i])))) continue;
				long bin[4] = {};
				for (auto& v : out) bin[std::min(3, (int)((v[i] - s.lo[i]) / range * 4))]++;
				for (int b = 0; b < 4; b++)
					if (std::fabs(bin[b] - n / 4.0) > 7 * std::sqrt(n * 3.0 / 16)) violate("not-uniform", "coordinate %d: %ld of %ld samples in quarter %d of its range", i, bin[b], n, b);
				// coordinates and successive samples are independent of each other
				auto corr = [&](auto fx, auto fy, long m) {
					double sx = 0, sy = 0, xx = 0, yy = 0, xy = 0;
					for (long j = 0; j < m; j++) {
						double x = fx(j), y = fy(j);
						sx += x; sy += y; xx += x * x; yy += y * y; xy += x * y;
					}
					double vx = xx / m - sx / m * (sx / m), vy = yy / m - sy / m * (sy / m);
					return vx > 1e-6 && vy > 1e-6 ? (xy / m - sx / m * (sy / m)) / std::sqrt(vx * vy) : 0.0;
				};
				auto coord = [&](int c) { return [&, c](long j) { double q = s.hi[c] - s.lo[c]; return q > 0 ? (out[j][c] - s.lo[c]) / q : 0.0; }; };
				double lag = corr(coord(i), [&](long j) { return coord(i)(j + 1); }, n - 1);
				if (std::fabs(lag) > 8 / std::sqrt((double)n)) violate("dependent", "coordinate %d: successive samples are correlated (%.3f)", i, lag);
				for (int c = 0; c < i; c++) {
					double rr = s.hi[c] - s.lo[c];
					if (!(rr > 1e-9 * (std::fabs(s.lo[c]) + std::fabs(s.hi[c])))) continue;
					double x = corr(coord(c), coord(i), n);
					if (std::fabs(x) > 8 / std::sqrt((double)n)) violate("dependent", "coordinates %d and %d are correlated (%.3f)", c, i, x);
				}
			}
			probe("uniform-checked");
		}
		if (op.name == "statg") {
			for (int i = 0; i < dim; i++) {
				double range = s.hi[i] - s.lo[i];
				if (!(range > 1e-9 * (std::fabs(s.lo[i]) + std::fabs(s.hi[i])))) continue;
				double mu = mean[i], sd = dev[i];
				// fraction of the mass below a few points inside the bounds
				for (double t : { 0.02, 0.25, 0.5, 0.75, 0.98 }) {
					double x = s.lo[i] + range * t, want = 0.5 * std::erfc(-(x - mu) / sd / std::sqrt(2.0));
					long below = 0;
					for (auto& v : out) below += v[i] < x;
					if (std::fabs(below - want * n) > 7.5 * std::sqrt(n * want * (1 - want)) + 4) violate("not-gaussian", "coordinate %d: %ld of %ld samples below %.6g, %.1f expected (mean %.6g, deviation %.6g)", i, below, n, x, want * n, mu, sd);
				}
			}
			probe("gauss-checked");
		}
	}
}
const sim::Property sim::property = { "C10", generate, execute };
