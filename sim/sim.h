// Deterministic simulator core: plans, seeded PRNG, fault arming, event log,
// probes, violation reporting.  One Plan is one exactly repeatable execution.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <stdexcept>

namespace sim {
	using u64 = uint64_t;

	inline u64 mix(u64 x)
	{
		x += 0x9e3779b97f4a7c15ull;
		x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
		x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
		return x ^ (x >> 31);
	}

	/// The only source of choices in the simulator.
	struct Rng {
		u64 s;
		explicit Rng(u64 seed = 1) : s(mix(seed)) { }
		u64 next()
		{
			s += 0x9e3779b97f4a7c15ull;
			u64 z = s;
			z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
			z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
			return z ^ (z >> 31);
		}
		long below(long n) { return n <= 0 ? 0 : (long)(next() % (u64)n); }
		long range(long a, long b) { return a + below(b - a + 1); } // inclusive
		double real() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
		double real(double a, double b) { return a + (b - a) * real(); }
		bool chance(double p) { return real() < p; }
		template <typename T>
		const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
		/// skewed small count: mostly small, sometimes large
		long geo(double p, long cap)
		{
			long n = 0;
			while (n < cap && chance(p)) n++;
			return n;
		}
	};

	struct Fault {
		std::string kind; // e.g. "alloc", "throw:cost"
		long at;          // fires at the at-th opportunity (0-based) inside the operation
		double arg = 0;
	};

	struct Op {
		std::string name;
		std::vector<double> a;
		std::vector<Fault> f;
		Op() = default;
		Op(const std::string& n, std::vector<double> args = {}) : name(n), a(std::move(args)) { }
		double arg(size_t i, double def = 0) const { return i < a.size() ? a[i] : def; }
		long iarg(size_t i, long def = 0) const { return i < a.size() ? (long)a[i] : def; }
	};

	struct Plan {
		std::string prop;
		u64 seed = 0; // seed of the simulated random stream, also the run's name
		std::map<std::string, std::vector<double>> cfg;
		std::vector<Op> ops;
		double c(const std::string& k, double def = 0) const
		{
			auto it = cfg.find(k);
			return it == cfg.end() || it->second.empty() ? def : it->second[0];
		}
		long ci(const std::string& k, long def = 0) const { return (long)c(k, (double)def); }
		const std::vector<double>& cv(const std::string& k) const
		{
			static const std::vector<double> empty;
			auto it = cfg.find(k);
			return it == cfg.end() ? empty : it->second;
		}
		std::string str() const;
		static bool parse(const std::string& text, Plan& out);
	};

	/// ---- execution context (valid inside execute()) ----
	[[noreturn]] void violate(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
	/// append to the event log (hash; text in verbose mode)
	void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
	/// the run reached a condition worth counting
	void probe(const char* name, long n = 1);
	/// a fault of that kind was actually injected
	void fired(const char* kind);
	/// a distinct system state was reached (signature)
	void state(u64 signature);
	/// the run did something a trivial run would not
	void nontrivial();
	bool verbose();

	/// Arms the faults of an operation; the destructor disarms.
	struct Armed {
		explicit Armed(const Op& op);
		~Armed();
	};
	/// Callback seam: true when an armed fault of that kind is due now.
	bool due(const char* kind, double* arg = nullptr);
	/// While held, allocations are not counted as opportunities for a failure.
	void allocHold(bool on);
	/// Number of armed faults that have fired since the operation began.
	long firedInOp();
	/// Suspend fault injection and step accounting while the harness itself works.
	struct Quiet {
		Quiet();
		~Quiet();
	};

	/// Exception thrown by injected callback failures.
	struct Injected : std::runtime_error {
		explicit Injected(const std::string& k) : std::runtime_error("injected:" + k) { }
	};
	inline void maybeThrow(const char* kind)
	{
		if (due(kind)) throw Injected(kind);
	}

	/// ---- simulated randomness ----
	void rngReset(u64 seed);
	/// override the n-th draw from now: kind 0 -> 0, 1 -> max, 2 -> repeat previous, 3 -> 2^63
	void rngOverride(long nth, int kind);
	u64 rngDraws();
	/// every draw is 0 until switched off (the most eager random stream)
	void rngZero(bool on);

	/// ---- simulated clocks ----
	void clockAdvance(long long ns);   // both clocks move
	void wallJump(long long ns);       // only the wall clock moves
	long long clockMono();
	void clockUse(bool simulated);

	/// ---- step budget (deterministic hang detection) ----
	void stepBudget(u64 steps); // from now; exceeding it is a "hang" violation
	u64 steps();
	void addStep();

	/// ---- hash helper ----
	struct Hash {
		u64 h = 1469598103934665603ull;
		void add(u64 v) { h = mix(h ^ v) + 0x9e37; }
		void addd(double d)
		{
			u64 v;
			if (d == 0) d = 0;
			__builtin_memcpy(&v, &d, 8);
			add(v);
		}
	};

	struct Property {
		const char* id;
		/// describe one run; pure function of rng
		void (*generate)(Rng& rng, Plan& plan);
		/// execute one run; pure function of the plan and the code under test
		void (*execute)(const Plan& plan);
	};
	extern const Property property; // defined by each property module
}
