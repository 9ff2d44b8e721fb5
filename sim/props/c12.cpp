// C12: the profiling trace holds every completed scope exactly once, in order, from
// the moment the scope ends, through write faults, full disks, failed opens,
// allocation failures, exceptions, several sessions and the death of the process.
#include "world.h"
#include "disk.h"
#include <cstring>
#include "trace.h"
#include "debug/profiler.h"
#include <memory>
using namespace world;
using namespace sim;

static const char* kNames[] = { "h:a", "h:plan(int, double)", "h:<std::vector<int>>", "h:with 'quote'", "h:x", "h:long name that does not fit into a small string buffer of sixteen bytes, long name that does not fit into a small string buffer" };

static void generate(Rng& r, Plan& p)
{
	genMap(r, p, 2, 6, true);
	double faultRate = r.pick(std::vector<double> { 0, 0.1, 0.3 });
	genMapHistory(r, p, r.range(0, 3), 0.1, false, 0.0);
	auto base = p.ops;
	p.ops.clear();
	size_t k = 0;
	auto faults = [&](Op& op, long cap) {
		if (!r.chance(faultRate)) return;
		double u = r.real();
		if (u < 0.25) op.f.push_back({ "short", r.below(cap), r.real() });
		else if (u < 0.45) op.f.push_back({ "eintr", r.below(cap) });
		else if (u < 0.6) { for (long i = r.range(1, 4); i > 0; i--) op.f.push_back({ r.chance(0.5) ? "short" : "eintr", r.below(2 * cap), r.real() }); }
		else if (u < 0.75) op.f.push_back({ "alloc", r.below(6) });
		else if (u < 0.85) op.f.push_back({ "eio", r.below(cap) });
		else if (u < 0.95) op.f.push_back({ "open", 0, r.real() });
		else op.f.push_back({ "close", 0 });
	};
	for (long i = r.range(2, 16); i > 0; i--) {
		double u = r.real();
		if (u < 0.1) { Op op("init"); faults(op, 1); p.ops.push_back(op); }
		else if (u < 0.2) { Op op("release"); faults(op, 1); p.ops.push_back(op); }
		else if (u < 0.25) p.ops.push_back(Op("space", { r.chance(0.4) ? -1.0 : (double)r.below(400) }));
		else if (u < 0.35) p.ops.push_back(Op("pass", { std::floor(std::pow(10.0, r.real(0, 13))) }));
		else if (u < 0.4) p.ops.push_back(Op("jump", { std::floor(r.real(-1e15, 1e15)) }));
		else if (u < 0.5 && k < base.size()) { Op op = base[k++]; op.f.clear(); p.ops.push_back(op); }
		else if (u < 0.58) {
			Op op("update");
			if (r.chance(faultRate)) op.f.push_back({ r.pick(std::vector<std::string> { "short", "eintr", "eio", "open" }), r.below(4), r.real() });
			p.ops.push_back(op);
		} else if (u < 0.68) {
			Op op("write", { (double)r.below(6), std::floor(std::pow(10.0, r.real(0, 15))), std::floor(std::pow(10.0, r.real(0, 12))) });
			faults(op, 1);
			p.ops.push_back(op);
		} else {
			// a scope: name, kind (plain, stopped, thrown through, macro), depth, time per level
			Op op("scope", { (double)r.below(6), (double)r.below(5), (double)r.geo(0.4, 5), std::floor(std::pow(10.0, r.real(0, 10))) });
			faults(op, op.iarg(2) + 1);
			p.ops.push_back(op);
		}
	}
}

static const std::string kPath = "profiling.json";
struct Model {
	bool session = false; // a session is open and its file is healthy
	bool dead = false;    // a session is open and its file failed: nothing more is promised
	size_t durable = 0;   // events that were in the file when it failed
	std::vector<trace::Event> done;  // completed events of the current or last session
	std::vector<bool> may;           // ... that are allowed to be missing
};
static Model m;
static bool contains(const std::vector<trace::Event>& got, std::string& why, size_t n, bool all)
{
	// got restricted to the harness' own events must be the completed ones, those
	// that may have been dropped optional (which of two alike ones was is undecided)
	std::vector<const trace::Event*> own;
	for (auto& e : got)
		if (e.name.compare(0, 2, "h:") == 0) own.push_back(&e);
	std::vector<char> ok(own.size() + 1, 0), next; // ok[g]: the first i completed ones explain the first g
	ok[0] = 1;
	for (size_t i = 0; i < n; i++) {
		auto& w = m.done[i];
		next.assign(own.size() + 1, 0);
		size_t far = 0;
		bool any = false;
		for (size_t g = 0; g <= own.size(); g++) {
			if (!ok[g]) continue;
			far = g;
			if (m.may[i]) next[g] = any = true;
			if (g < own.size() && own[g]->name == w.name && own[g]->ph == "X" && std::llabs(own[g]->ts - w.ts) <= 1 && std::llabs(own[g]->dur - w.dur) <= 1) next[g + 1] = any = true;
		}
		if (!any) {
			char b[400];
			snprintf(b, sizeof b, "event %zu should be '%.60s' ts %lld dur %lld, the file has %s '%.60s' ts %lld dur %lld", i, w.name.c_str(), w.ts, w.dur,
				far < own.size() ? "" : "nothing", far < own.size() ? own[far]->name.c_str() : "", far < own.size() ? own[far]->ts : 0, far < own.size() ? own[far]->dur : 0);
			why = b;
			return false;
		}
		ok.swap(next);
	}
	if (all && !ok[own.size()]) {
		why = "an event that was never recorded, or one twice: '" + (own.empty() ? std::string() : own.back()->name.substr(0, 60)) + "'";
		return false;
	}
	return true;
}
static void checkFile(size_t k, bool closed)
{
	if (!m.session && !closed) return;
	const std::string* f = diskFile(kPath);
	if (!f) violate("no-file", "operation %zu: the session is open but there is no file", k);
	auto d = trace::read(*f);
	std::string why;
	if (d.malformed) violate("malformed", "operation %zu: the trace cannot be read: %s", k, d.why.c_str());
	if (!contains(d.events, why, m.done.size(), true)) violate("lost-event", "operation %zu: %s", k, why.c_str());
	if (closed && !d.complete) violate("not-closed", "operation %zu: the finished trace is not a complete document", k);
	probe("traces-checked");
	if (closed) probe("closed-traces-checked");
	if (m.done.size() > 3) nontrivial();
	Hash h;
	for (auto& e : d.events) { h.add(e.ts); h.add(e.dur); for (char c : e.name.substr(0, 12)) h.add(c); }
	h.add(closed);
	state(h.h);
}
static long long us(long long ns) { return ns / 1000; }
static void completed(const char* name, long long start, long long end, bool may)
{
	Quiet q;
	trace::Event e;
	e.name = name;
	e.ts = start;
	e.dur = end - start;
	e.ph = "X";
	m.done.push_back(e);
	m.may.push_back(may);
}
static bool g_mayDrop = false;
struct Thrown { };
static void scope(const char* name, int kind, long depth, long long ns)
{
	long long t0 = clockMono();
	auto inner = [&] {
		clockAdvance(ns);
		if (depth > 0) scope(name, kind == 4 ? 0 : kind, depth - 1, ns / 2 + 1);
		clockAdvance(ns / 3);
	};
	if (kind == 0 || kind >= 4) {
		{
			ProfilingTimer t(name);
			inner();
		}
		completed(name, us(t0), us(clockMono()), g_mayDrop);
	} else if (kind == 1) {
		ProfilingTimer t(name);
		inner();
		try {
			t.Stop();
			completed(name, us(t0), us(clockMono()), g_mayDrop);
			clockAdvance(ns);
		} catch (const std::bad_alloc&) {
			if (!g_mayDrop) throw;
			completed(name, us(t0), us(clockMono()), true); // the destructor tries again
		}
	} else if (kind == 2) {
		bool thrown = false;
		try {
			ProfilingTimer t(name);
			inner();
			throw Thrown();
		} catch (const Thrown&) {
			thrown = true;
		}
		if (!thrown) violate("swallowed", "an exception did not leave a profiled scope");
		completed(name, us(t0), us(clockMono()), g_mayDrop);
	} else {
		{
			PP_PROFILE_SCOPE("h:macro \"quoted\" __cdecl name");
			inner();
		}
		completed("h:macro 'quoted' name", us(t0), us(clockMono()), g_mayDrop);
	}
}

static void execute(const Plan& p)
{
	clockUse(true);
	diskUse(true);
	m = Model();
	MapWorld w, ref;
	auto map = w.createSim(p);
	auto refMap = ref.createSim(p);
	stepBudget(4000000000ull);
	bool exists = false; // the profiler object
	for (size_t k = 0; k < p.ops.size(); k++) {
		const Op& op = p.ops[k];
		long failedW = diskStats().failedWrites, opens = diskStats().opens, failedO = diskStats().failedOpens;
		bool allocFault = false;
		size_t before = m.done.size();
		for (auto& f : op.f) allocFault |= f.kind == "alloc";
		g_mayDrop = allocFault;
		if (op.name == "space") { diskSpace((long)op.arg(0)); continue; }
		if (op.name == "pass") { clockAdvance((long long)std::fabs(op.arg(0))); continue; }
		if (op.name == "jump") { wallJump((long long)op.arg(0)); fired("clock:jump"); continue; }
		bool closing = op.name == "release" && m.session;
		bool known = op.name == "init" || op.name == "release" || op.name == "update" || op.name == "write" || op.name == "scope";
		if (!known) { // map history, applied to both worlds
			w.apply(op);
			ref.apply(op);
		} else {
			// events recorded while no session can exist are dropped by design
			if (op.name == "update") { Armed a(op); map->Update(); }
			else {
				Armed a(op);
				bool failed = false;
								try {
					if (op.name == "init") Profiler::Init();
					else if (op.name == "release") Profiler::Release();
					else if (op.name == "write") {
						const char* n = kNames[std::labs(op.iarg(0)) % 6];
						long long t = (long long)op.arg(1), d = (long long)op.arg(2);
						Profiler::Get().WriteProfile({ n, t, t + d, std::this_thread::get_id() });
						completed(n, t, t + d, allocFault);
					} else
						scope(kNames[std::labs(op.iarg(0)) % 6], (int)std::labs(op.iarg(1)) % 5, std::min<long>(8, std::labs(op.iarg(2))), (long long)std::fabs(op.arg(3)));
				} catch (const std::bad_alloc&) {
					failed = true;
				}
				if (failed && (firedInOp() == 0 || op.name == "scope")) violate("unexpected-failure", "operation %zu (%s) threw although %s", k, op.name.c_str(), firedInOp() ? "profiling a scope never may" : "nothing was injected");
				
			}
			if (op.name == "update") {
				refMap->Update();
				for (int r = 0; r < map->Rows(); r++)
					for (int c = 0; c < map->Columns(); c++)
						if (map->GetObstacleDistanceMap()->GetDistanceToNearestObstacle(r, c) != refMap->GetObstacleDistanceMap()->GetDistanceToNearestObstacle(r, c))
							violate("planner-affected", "operation %zu: the profiled map update gave another clearance at (%d,%d) because its trace could not be written", k, r, c);
			}
		}
		// sessions that began in this operation
		bool began = diskStats().opens > opens;
		if (began) {
			// only events recorded by this operation can be in the new file
			m.session = !(allocFault && diskOpen() == 0); // failed while it was being opened
			m.dead = false;
		}
		if (diskStats().failedOpens > failedO) { m.session = false; m.dead = true; probe("failed-open"); }
		if (diskStats().failedWrites > failedW) {
			if (m.session) m.durable = before;
			m.session = false;
			m.dead = true;
			probe("failed-write");
		}
		if (m.dead && diskFile(kPath)) {
			std::string why;
			if (m.durable && !contains(trace::read(*diskFile(kPath)).events, why, m.durable, false))
				violate("lost-event", "operation %zu, after a failed write: %s", k, why.c_str());
			if (m.durable) probe("durable-after-failed-write");
		}
		(void)exists;
		if (closing && m.session) {
			checkFile(k, true);
			m.session = false;
		} else if (op.name == "release") {
			m.session = m.dead = false;
		}
		if (op.name == "release") {
			if (diskOpen() != 0) violate("handle-leak", "operation %zu: %ld files open after the profiler was released", k, diskOpen());
			m.durable = 0;
			m.done.clear();
			m.may.clear();
		}
		checkFile(k, false);
		ev("%zu %s session %d events %zu writes %ld size %zu", k, op.name.c_str(), m.session, m.done.size(), diskStats().writes, diskFile(kPath) ? diskFile(kPath)->size() : 0);
	}
}

const Property sim::property = { "C12", generate, execute };
