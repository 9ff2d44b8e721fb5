// C18: a singleton has one instance at a time, however and from wherever it is asked
// for; a construction that fails leaves none and the next request tries again.
#include "sim.h"
#include "simthreads.h"
#include <cassert>
#include <cstring>
#include "utils/singleton.h"
using namespace sim;
using namespace Planner;

// what the world looks like from outside the code under test
struct Ledger {
	long attempts = 0, built = 0, destroyed = 0, failures = 0;
	long building = 0;
	std::vector<char> fails; // which attempts fail
	bool threads = false;
	void* alive = nullptr;
	bool begin(void* who)
	{
		sched::Outside out;
		if (alive) violate("two-instances", "a second instance is constructed while one exists");
		if (building) violate("two-instances", "two instances are constructed at the same time");
		building++;
		(void)who;
		size_t k = (size_t)attempts++;
		return k < fails.size() && fails[k];
	}
	void failed() { sched::Outside out; building--; failures++; fired("throw:constructor"); }
	void ready(void* who) { sched::Outside out; building--; built++; alive = who; }
	void gone(void* who)
	{
		sched::Outside out;
		if (alive != who) violate("destroyed", "an instance is destroyed that does not exist");
		alive = nullptr;
		destroyed++;
	}
};
static Ledger g_ledger[3]; // thread safe, plain, with arguments

struct Content {
	Ledger& l;
	long a = 0, b = 0;
	std::string s;
	std::vector<long> v;
	Content(Ledger& ledger, long x) : l(ledger)
	{
		bool fail = l.begin(this);
		a = x;
		sched::point();
		s = std::string(40, (char)('a' + x % 20));
		for (int i = 0; i < 4; i++) v.push_back(x + i);
		sched::point();
		if (fail) {
			l.failed();
			throw Injected("constructor");
		}
		b = x;
		l.ready(this);
	}
	~Content() { l.gone(this); }
	bool whole() const { return a == b && v.size() == 4 && v[3] == a + 3 && s.size() == 40 && s[39] == (char)('a' + a % 20); }
};
struct Safe : Content, SingletonThreadSafe<Safe> {
	Safe() : Content(g_ledger[0], 7) { }
};
struct Plain : Content, Singleton<Plain> {
	Plain() : Content(g_ledger[1], 8) { }
};
struct Args : Content, SingletonInit<Args> {
	Args(long x, std::string) : Content(g_ledger[2], x) { }
};

static void generate(Rng& r, Plan& p)
{
	long n = r.range(2, 3);
	p.cfg["threads"] = { (double)n };
	double fail = r.pick(std::vector<double> { 0, 0.4 });
	for (int k = 0; k < 3; k++) {
		std::vector<double> f;
		for (int i = 0; i < 8; i++) f.push_back(r.chance(fail));
		p.cfg["fail" + std::to_string(k)] = f;
	}
	for (long ph = r.range(1, 5); ph > 0; ph--) {
		double x = r.real(0, 1);
		if (x < 0.65) {
			p.ops.push_back(Op("phase", {}));
			for (long t = 0; t < n; t++)
				for (long j = r.range(0, 3); j > 0; j--) p.ops.push_back(Op("get", { (double)t }));
			double lo = r.real(0, 1), hi = lo + r.real(0.2, 1.5);
			for (long i = r.range(0, 25); i > 0; i--) p.ops.push_back(Op("sw", { std::floor(std::pow(10.0, r.real(lo, hi))), (double)r.below(n) }));
		} else if (x < 0.85) {
			p.ops.push_back(Op("phase", {}));
			for (long t = 0; t < n; t++)
				if (r.chance(0.6)) p.ops.push_back(Op("release", { (double)t }));
			for (long i = r.range(0, 10); i > 0; i--) p.ops.push_back(Op("sw", { (double)r.range(1, 20), (double)r.below(n) }));
		} else {
			p.ops.push_back(Op("alone", { (double)r.below(7), (double)r.below(100) }));
		}
		if (r.chance(0.3)) p.ops.push_back(Op("alone", { (double)r.below(7), (double)r.below(100) }));
	}
}

static long g_thrown = 0, g_gets = 0;
static std::vector<Safe*> g_seen;
static void note(Safe* s)
{
	sched::Outside out;
	g_gets++;
	if (std::find(g_seen.begin(), g_seen.end(), s) == g_seen.end()) g_seen.push_back(s);
	if (s != g_ledger[0].alive) violate("not-the-instance", "Get gives an object that is not the instance");
}
static void thrown() { sched::Outside out; g_thrown++; }

static void execute(const Plan& p)
{
	int n = (int)std::clamp(p.ci("threads", 2), 1l, 3l);
	for (int k = 0; k < 3; k++)
		for (double d : p.cv("fail" + std::to_string(k))) g_ledger[k].fails.push_back(d != 0);
	stepBudget(100000000ull);
	bool interleaved = false;
	for (size_t i = 0; i < p.ops.size();) {
		const Op& op = p.ops[i];
		if (op.name == "alone") {
			long what = std::labs(op.iarg(0)) % 7;
			Ledger& l = g_ledger[what < 3 ? 1 : 2];
			Ledger before = l;
			bool threw = false, usable = true;
			try {
				switch (what) {
				case 0: usable = Plain::Get().whole() && &Plain::Get() == &Plain::Get(); break;
				case 1: Plain::Init(); break;
				case 2: Plain::Release(); break;
				case 3:
				case 4: // asking for it twice is a programming error
					if (l.alive) break;
					Args::Init((long)op.arg(1), std::string("x"));
					usable = Args::Get().whole() && Args::Get().a == (long)op.arg(1);
					break;
				case 5:
					if (l.alive) usable = &Args::Get() == (Args*)l.alive && Args::Get().whole();
					break;
				case 6: Args::Release(); break;
				}
			} catch (const Injected&) {
				threw = true;
			}
			bool release = what == 2 || what == 6;
			if (!usable) violate("not-the-instance", "the instance is not the one that was initialised");
			if (threw != (l.failures != before.failures)) violate("failure", "a failing constructor is not reported to who asked");
			if (release && l.alive) violate("destroyed", "an instance remains after its release");
			if (!release && !threw && what < 5 && !l.alive) violate("not-the-instance", "no instance after it was asked for");
			if (!release && before.alive && (l.attempts != before.attempts || l.alive != before.alive)) violate("two-instances", "an existing instance is replaced");
			i++;
			ev("alone %ld threw %d alive %d", what, threw, l.alive != nullptr);
			continue;
		}
		// a phase: operations until the next phase
		std::vector<std::vector<int>> todo(n);
		std::vector<sched::Switch> sw;
		bool releasing = false;
		long ops = 0;
		size_t j = i;
		for (; j < p.ops.size() && (j == i || (p.ops[j].name != "phase" && p.ops[j].name != "alone")); j++) {
			auto& o = p.ops[j];
			if (o.name == "sw") sw.push_back({ o.iarg(0), (int)o.iarg(1) });
			else if (o.name == "get" || o.name == "release") {
				bool rel = o.name == "release";
				if (ops == 0) releasing = rel;
				if (rel != releasing) continue; // using an instance while it is released is a programming error
				ops++;
				todo[std::labs(o.iarg(0)) % n].push_back(rel);
			}
		}
		i = j;
		Ledger& l = g_ledger[0];
		Ledger before = l;
		g_seen.clear();
		g_thrown = g_gets = 0;
		std::vector<sched::Body> bodies;
		for (int t = 0; t < n; t++)
			bodies.push_back({ t + 1, [&, t] {
				for (int rel : todo[t]) {
					if (rel) {
						Safe::Release();
						continue;
					}
					try {
						Safe& s = Safe::Get();
						if (!s.whole()) violate("not-whole", "Get gives an instance that is not completely constructed");
						note(&s);
					} catch (const Injected&) {
						thrown();
					}
				}
			} });
		sched::run(bodies, sw);
		if (releasing) {
			if (ops && l.alive) violate("destroyed", "the instance remains after its release");
			if (l.destroyed - before.destroyed != (ops && before.alive ? 1 : 0)) violate("destroyed", "the instance is destroyed %ld times", l.destroyed - before.destroyed);
		} else {
			if (g_seen.size() > 1) violate("two-instances", "threads get %zu different instances", g_seen.size());
			if (g_thrown != l.failures - before.failures) violate("failure", "%ld constructions failed, %ld callers were told", l.failures - before.failures, g_thrown);
			if (l.built - before.built > (before.alive ? 0 : 1) || (before.alive && l.attempts != before.attempts)) violate("two-instances", "%ld instances are built", l.built - before.built);
			if (l.destroyed != before.destroyed) violate("destroyed", "an instance in use is destroyed");
			if (g_gets + g_thrown != ops) violate("not-the-instance", "a request has no answer");
		}
		state(sched::signature());
		if (ops > 1 && sched::stats().preemptions > 0) interleaved = true;
		ev("phase %s ops %ld gets %ld thrown %ld alive %d", releasing ? "release" : "get", ops, g_gets, g_thrown, l.alive != nullptr);
	}
	if (sched::stats().blocked) probe("waited-for-a-lock");
	if (interleaved) nontrivial();
	Safe::Release();
	Plain::Release();
	Args::Release();
	for (auto& l : g_ledger)
		if (l.alive || l.built != l.destroyed) violate("destroyed", "%ld built, %ld destroyed", l.built, l.destroyed);
	ev("preemptions %ld sig %016llx", sched::stats().preemptions, (unsigned long long)sched::signature());
}

const Property sim::property = { "C18", generate, execute };
