#include "sim.h"
#include <chrono>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <set>
#include <unordered_set>
#include <new>
#include <random>
#include <csignal>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>

namespace sim {
	// ------------------------------------------------------------------
	// Result page shared between the zygote and the forked run.
	// ------------------------------------------------------------------
	enum { RUNNING = 0, OK = 1, VIOLATION = 2 };
	static const int kMaxCounter = 160, kMaxState = 4096, kCovBits = 1 << 16;
	struct Counter {
		char name[48];
		long n;
	};
	struct Result {
		int status;
		int nontrivial;
		char cls[96];
		char msg[2048];
		u64 hash, steps, events, simns;
		long nstate;
		u64 states[kMaxState];
		Counter counters[kMaxCounter];
		unsigned char cov[kCovBits / 8];
	};
	static Result* R = nullptr;
	static bool g_verbose = false;
	static volatile int g_quiet = 1; // >0: harness code, no faults, no steps

	bool verbose() { return g_verbose; }

	static void count(const char* prefix, const char* name, long n)
	{
		char full[48];
		snprintf(full, sizeof full, "%s%s", prefix, name);
		for (int i = 0; i < kMaxCounter; i++) {
			if (R->counters[i].name[0] == 0)
				strcpy(R->counters[i].name, full);
			if (!strcmp(R->counters[i].name, full)) {
				R->counters[i].n += n;
				return;
			}
		}
	}
	void probe(const char* name, long n) { Quiet q; count("probe:", name, n); }
	void fired(const char* kind) { count("fault:", kind, 1); }
	void nontrivial() { R->nontrivial = 1; }
	void state(u64 s)
	{
		if (R->nstate < kMaxState)
			R->states[R->nstate++] = s;
	}

	static void logText(const char* t)
	{
		for (const char* p = t; *p; p++)
			R->hash = (R->hash ^ (unsigned char)*p) * 1099511628211ull;
		R->hash = mix(R->hash);
		R->events++;
		if (g_verbose) {
			fputs(t, stdout);
			fputc('\n', stdout);
			fflush(stdout);
		}
	}
	void ev(const char* fmt, ...)
	{
		Quiet q;
		char buf[1024];
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(buf, sizeof buf, fmt, ap);
		va_end(ap);
		logText(buf);
	}
	void violate(const char* cls, const char* fmt, ...)
	{
		g_quiet++;
		va_list ap;
		va_start(ap, fmt);
		snprintf(R->cls, sizeof R->cls, "%s", cls);
		vsnprintf(R->msg, sizeof R->msg, fmt, ap);
		va_end(ap);
		logText(R->cls);
		logText(R->msg);
		R->status = VIOLATION;
		_exit(0);
	}

	Quiet::Quiet() { g_quiet++; }
	Quiet::~Quiet() { g_quiet--; }

	// ------------------------------------------------------------------
	// Plans
	// ------------------------------------------------------------------
	static std::string num(double v)
	{
		char b[40];
		if (v == std::floor(v) && std::fabs(v) < 9e15)
			snprintf(b, sizeof b, "%lld", (long long)v);
		else
			snprintf(b, sizeof b, "%.17g", v);
		return b;
	}
	std::string Plan::str() const
	{
		std::string s = "prop " + prop + "\nseed " + std::to_string(seed) + "\n";
		for (auto& [k, v] : cfg) {
			s += "cfg " + k;
			for (double d : v) s += " " + num(d);
			s += "\n";
		}
		for (auto& op : ops) {
			s += "op " + op.name;
			for (double d : op.a) s += " " + num(d);
			for (auto& f : op.f) s += " !" + f.kind + "@" + std::to_string(f.at) + (f.arg != 0 ? "=" + num(f.arg) : "");
			s += "\n";
		}
		return s;
	}
	bool Plan::parse(const std::string& text, Plan& p)
	{
		std::istringstream in(text);
		std::string line;
		while (std::getline(in, line)) {
			std::istringstream ls(line);
			std::string key, tok;
			if (!(ls >> key) || key[0] == '#') continue;
			if (key == "prop") ls >> p.prop;
			else if (key == "seed") ls >> p.seed;
			else if (key == "cfg") {
				std::string name;
				ls >> name;
				auto& v = p.cfg[name];
				while (ls >> tok) v.push_back(strtod(tok.c_str(), nullptr));
			} else if (key == "op") {
				Op op;
				ls >> op.name;
				while (ls >> tok) {
					if (tok[0] == '!') {
						Fault f;
						auto at = tok.find('@');
						if (at == std::string::npos) return false;
						f.kind = tok.substr(1, at - 1);
						auto eq = tok.find('=', at);
						f.at = strtol(tok.c_str() + at + 1, nullptr, 10);
						if (eq != std::string::npos) f.arg = strtod(tok.c_str() + eq + 1, nullptr);
						op.f.push_back(f);
					} else
						op.a.push_back(strtod(tok.c_str(), nullptr));
				}
				p.ops.push_back(op);
			} else
				return false;
		}
		return !p.prop.empty();
	}

	// ------------------------------------------------------------------
	// Faults
	// ------------------------------------------------------------------
	struct ArmedFault {
		const char* kind;
		long at, seen;
		double arg;
		bool done;
	};
	static ArmedFault g_armed[32];
	static int g_numArmed = 0;
	static bool g_allocArmed = false, g_allocHold = false;
	void allocHold(bool on) { g_allocHold = on; }
	static long g_firedInOp = 0;

	Armed::Armed(const Op& op)
	{
		g_numArmed = 0;
		g_firedInOp = 0;
		g_allocArmed = false;
		for (auto& f : op.f)
			if (g_numArmed < 32) {
				g_armed[g_numArmed++] = { f.kind.c_str(), f.at, 0, f.arg, false };
				if (f.kind == "alloc") g_allocArmed = true;
			}
		g_quiet--;
	}
	Armed::~Armed()
	{
		g_quiet++;
		g_numArmed = 0;
		g_allocArmed = false;
	}
	bool due(const char* kind, double* arg)
	{
		bool hit = false;
		for (int i = 0; i < g_numArmed; i++) {
			auto& f = g_armed[i];
			if (f.done || strcmp(f.kind, kind)) continue;
			if (f.seen++ == f.at) {
				f.done = true;
				hit = true;
				if (arg) *arg = f.arg;
				fired(kind);
				g_firedInOp++;
			}
		}
		return hit;
	}
	long firedInOp() { return g_firedInOp; }

	// ------------------------------------------------------------------
	// Step counter (one step per basic block of the code under test)
	// ------------------------------------------------------------------
	static u64 g_steps = 0, g_budget = ~0ull;
	void stepBudget(u64 n) { g_budget = g_steps + n; }
	u64 steps() { return g_steps; }
	void addStep()
	{
		if (++g_steps > g_budget) {
			g_budget = ~0ull;
			violate("hang", "no completion within the step budget (%llu steps)", (unsigned long long)g_steps);
		}
	}

	// ------------------------------------------------------------------
	// Randomness
	// ------------------------------------------------------------------
	static Rng g_stream(1);
	static u64 g_draws = 0, g_prev = 0;
	static std::map<u64, int> g_over;
	void rngReset(u64 seed)
	{
		g_stream = Rng(seed);
		g_draws = 0;
		g_prev = 0;
		g_over.clear();
	}
	void rngOverride(long nth, int kind) { g_over[g_draws + nth] = kind; }
	u64 rngDraws() { return g_draws; }
	static bool g_zero = false;
	void rngZero(bool on) { g_zero = on; }
	u64 streamDraw()
	{
		u64 v = g_stream.next();
		if (!g_over.empty()) {
			auto it = g_over.find(g_draws);
			if (it != g_over.end()) {
				switch (it->second) {
				case 0: v = 0; fired("rng:zero"); break;
				case 1: v = ~0ull; fired("rng:max"); break;
				case 2: v = g_prev; fired("rng:repeat"); break;
				default: v = 1ull << 63; fired("rng:half"); break;
				}
			}
		}
		if (g_zero) v = 0;
		g_draws++;
		g_prev = v;
		return v;
	}

	// ------------------------------------------------------------------
	// Clocks
	// ------------------------------------------------------------------
	static bool g_simClock = false;
	static long long g_mono = 1000000000ll, g_wall = 1700000000000000000ll;
	void clockAdvance(long long ns)
	{
		g_mono += ns;
		g_wall += ns;
		if (R) R->simns += ns;
	}
	void wallJump(long long ns) { g_wall += ns; }
	long long clockMono() { return g_mono; }
	void clockUse(bool s) { g_simClock = s; }
	static long long realClock(clockid_t id)
	{
		timespec t;
		clock_gettime(id, &t);
		return t.tv_sec * 1000000000ll + t.tv_nsec;
	}
	long long simWall() { return g_simClock ? g_wall : realClock(CLOCK_REALTIME); }
	long long simMono() { return g_simClock ? g_mono : realClock(CLOCK_MONOTONIC); }

	// live allocation accounting (runaway memory)
	static long g_live = 0;
}

// ----------------------------------------------------------------------
// Seams: definitions that replace the standard library's
// ----------------------------------------------------------------------
extern "C" uint64_t __attribute__((weak)) sim_draw(const void*)
{
	sim::Quiet q;
	return sim::streamDraw();
}

namespace std {
	namespace chrono {
		inline namespace _V2 {
			system_clock::time_point system_clock::now() noexcept
			{
				return time_point(duration(sim::simWall()));
			}
			steady_clock::time_point steady_clock::now() noexcept
			{
				return time_point(duration(sim::simMono()));
			}
		}
	}
	static void entropy()
	{
		if (sim::g_quiet == 0 && sim::due("entropy")) throw std::runtime_error("injected:entropy");
	}
	void random_device::_M_init(const std::string&) { entropy(); }
	void random_device::_M_fini() { }
	random_device::result_type random_device::_M_getval() { entropy(); return (unsigned)sim::streamDraw(); }
}

#ifdef SIM_ALLOC
static void* simAlloc(size_t n, size_t align)
{
	if (__builtin_expect(sim::g_allocArmed && !sim::g_allocHold && sim::g_quiet == 0, 0)) {
		if (sim::due("alloc")) throw std::bad_alloc();
	}
	if (sim::g_quiet == 0 && n > (size_t)2 << 30)
		sim::violate("runaway-memory", "single allocation of %zu bytes requested", n);
	void* p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
	if (!p) throw std::bad_alloc();
	if (sim::g_quiet == 0) {
		sim::g_live += (long)n;
		if (sim::g_live > (4l << 30)) sim::violate("runaway-memory", "more than 4 GB allocated by one run");
	}
	return p;
}
void* operator new(size_t n) { return simAlloc(n, 0); }
void* operator new[](size_t n) { return simAlloc(n, 0); }
void* operator new(size_t n, std::align_val_t a) { return simAlloc(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return simAlloc(n, (size_t)a); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return simAlloc(n, 0); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return simAlloc(n, 0); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { free(p); }
#endif

#ifdef SIM_COV
extern "C" __attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc()
{
	if (sim::g_quiet) {
		// queries made by a check: not part of the simulated time, but they have to end
		static unsigned long long quietSteps = 0;
		if (++quietSteps == 4000000000ull) sim::violate("hang", "a query does not end");
		return;
	}
	sim::addStep();
	uintptr_t pc = (uintptr_t)__builtin_return_address(0);
	extern char __executable_start;
	uint32_t h = (uint32_t)((pc - (uintptr_t)&__executable_start) * 2654435761u) >> 16;
	sim::R->cov[h >> 3] |= 1 << (h & 7);
}
#endif

#ifdef SIM_ASAN
extern "C" const char* __asan_default_options()
{
	return "detect_leaks=0:abort_on_error=1:handle_segv=1:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=16:max_malloc_fill_size=1048576:malloc_fill_byte=119:malloc_context_size=8:symbolize=0";
}
extern "C" void __asan_set_error_report_callback(void (*)(const char*));
static void asanReport(const char* text)
{
	using namespace sim;
	g_quiet++;
	const char* p = strstr(text, "AddressSanitizer:");
	char kind[64] = "unknown";
	if (p) sscanf(p, "AddressSanitizer: %60[^ \n]", kind);
	snprintf(R->cls, sizeof R->cls, "memory:%s", kind);
	snprintf(R->msg, sizeof R->msg, "%.1500s", text);
	logText(R->cls);
	R->status = VIOLATION;
	_exit(0);
}
#endif

/// optional: a module's work before any run is forked
extern "C" void sim_prepare() __attribute__((weak));

namespace sim {
	// ------------------------------------------------------------------
	// Zygote: one fork per run
	// ------------------------------------------------------------------
	static u64 runSeed(u64 base, u64 index)
	{
		u64 h = mix(base);
		for (const char* p = property.id; *p; p++) h = mix(h ^ (u64)*p);
		return mix(h ^ mix(index)) >> 1;
	}

	static void execChild(const Plan& plan)
	{
		struct itimerval tv = { { 0, 0 }, { 120, 0 } }; // last resort only: the step budget decides hangs
		setitimer(ITIMER_REAL, &tv, nullptr);
		rngReset(mix(plan.seed ^ 0x5eed));
		for (size_t i = 0; i + 1 < plan.cv("rngx").size(); i += 2)
			rngOverride((long)plan.cv("rngx")[i], (int)plan.cv("rngx")[i + 1]);
		g_quiet = 1;
		try {
			property.execute(plan);
		} catch (const std::exception& e) {
			violate("uncaught-exception", "%s", e.what());
		} catch (...) {
			violate("uncaught-exception", "unknown exception");
		}
		R->steps = g_steps;
		R->status = OK;
		_exit(0);
	}

	// The spawner is a pristine process: it does nothing but fork.  A run is
	// always executed by a child of it that parses the plan text from shared
	// memory, so a run starts from the same memory image in every mode.
	static const size_t kPlanMax = 4 << 20;
	static char* P = nullptr; // plan text
	static int g_cmd[2], g_ack[2];
	struct Cmd {
		char what; // 'g' generate into P, 'e' execute P
		u64 seed;
	};

	static void setPlanText(const std::string& t)
	{
		if (t.size() + 1 > kPlanMax) {
			fprintf(stderr, "plan too long\n");
			exit(3);
		}
		memcpy(P, t.c_str(), t.size() + 1);
	}

	static void generateChild(u64 seed)
	{
		Plan p;
		p.prop = property.id;
		p.seed = seed;
		Rng g(seed);
		property.generate(g, p);
		setPlanText(p.str());
		_exit(0);
	}

	static void spawnerLoop()
	{
		Cmd c;
		while (read(g_cmd[0], &c, sizeof c) == (ssize_t)sizeof c) {
			pid_t pid = fork();
			if (pid == 0) {
				close(g_cmd[0]);
				close(g_ack[1]);
				if (c.what == 'g') generateChild(c.seed);
				Plan p;
				if (!Plan::parse(P, p)) {
					snprintf(R->cls, sizeof R->cls, "bad-plan");
					R->status = VIOLATION;
					_exit(0);
				}
				execChild(p);
			}
			int st = -1;
			if (pid > 0) waitpid(pid, &st, 0);
			if (write(g_ack[1], &st, sizeof st) != (ssize_t)sizeof st) break;
		}
		_exit(0);
	}

	static int command(char what, u64 seed)
	{
		Cmd c;
		memset(&c, 0, sizeof c);
		c.what = what;
		c.seed = seed;
		int st = -1;
		if (write(g_cmd[1], &c, sizeof c) != (ssize_t)sizeof c || read(g_ack[0], &st, sizeof st) != (ssize_t)sizeof st) {
			fprintf(stderr, "spawner lost\n");
			exit(3);
		}
		return st;
	}

	static void startSpawner()
	{
		if (pipe2(g_cmd, O_CLOEXEC) || pipe2(g_ack, O_CLOEXEC)) exit(3);
		pid_t pid = fork();
		if (pid == 0) {
			close(g_cmd[1]);
			close(g_ack[0]);
			spawnerLoop();
		}
		close(g_cmd[0]);
		close(g_ack[1]);
	}

	/// execute the plan whose text is in P
	static void runOnce()
	{
		memset(R, 0, sizeof *R);
		R->hash = 1469598103934665603ull;
		fflush(stdout);
		int st = command('e', 0);
		if (R->status == RUNNING) {
			R->status = VIOLATION;
			if (WIFSIGNALED(st)) {
				int sig = WTERMSIG(st);
				if (sig == SIGALRM)
					snprintf(R->cls, sizeof R->cls, "hang");
				else
					snprintf(R->cls, sizeof R->cls, "crash:%s", sigabbrev_np(sig) ? sigabbrev_np(sig) : "?");
				snprintf(R->msg, sizeof R->msg, "the run was ended by signal %d (%s)", sig,
					sig == SIGTRAP ? "assertion inside the library" : strsignal(sig));
			} else {
				snprintf(R->cls, sizeof R->cls, "exit:%d", WEXITSTATUS(st));
				snprintf(R->msg, sizeof R->msg, "the process exited");
			}
		}
	}

	static void generate(u64 seed)
	{
		P[0] = 0;
		int st = command('g', seed);
		if (st != 0) {
			fprintf(stderr, "generator failed (%d)\n", st);
			exit(3);
		}
	}

	static std::string jstr(const char* s)
	{
		std::string o = "\"";
		for (; *s; s++) {
			unsigned char c = *s;
			if (c == '"' || c == '\\') { o += '\\'; o += c; }
			else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
			else o += c;
		}
		return o + "\"";
	}

	static std::string slurp(const char* path)
	{
		std::string s;
		FILE* f = fopen(path, "r");
		if (!f) { perror(path); exit(3); }
		char b[65536];
		size_t n;
		while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
		fclose(f);
		return s;
	}
}

using namespace sim;

int main(int argc, char** argv)
{
	// Address-space randomisation off where allowed, so that pointer-keyed
	// containers behave alike in every process.
	int pers = personality(0xffffffff);
	if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOASLR")) {
		if (personality(pers | ADDR_NO_RANDOMIZE) != -1) {
			char* env[] = { (char*)"SIM_NOASLR=1", nullptr };
			execve("/proc/self/exe", argv, env);
		}
	}
	R = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	P = (char*)mmap(nullptr, kPlanMax, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
#ifdef SIM_ASAN
	__asan_set_error_report_callback(asanReport);
#endif
	signal(SIGPIPE, SIG_IGN);
	struct rlimit rl = { 0, 0 };
	setrlimit(RLIMIT_CORE, &rl);

	g_verbose = argc > 1 && !strcmp(argv[1], "trace");
	if (sim_prepare) sim_prepare();
	startSpawner();

	std::map<std::string, std::string> opt;
	for (int i = 2; i + 1 < argc; i += 2) opt[argv[i]] = argv[i + 1];
	std::string mode = argc > 1 ? argv[1] : "";
	if (mode == "exec" || mode == "trace") {
		setPlanText(slurp(opt["--plan"].c_str()));
		runOnce();
		printf("{\"status\":%d,\"cls\":%s,\"msg\":%s,\"hash\":\"%016llx\",\"steps\":%llu,\"events\":%llu}\n", R->status,
			jstr(R->cls).c_str(), jstr(R->msg).c_str(), (unsigned long long)R->hash, (unsigned long long)R->steps, (unsigned long long)R->events);
		return 0;
	}
	if (mode == "gen") {
		u64 idx = strtoull(opt["--index"].c_str(), nullptr, 10);
		generate(runSeed(strtoull(opt["--seed"].c_str(), nullptr, 10), idx));
		fputs(P, stdout);
		return 0;
	}
	if (mode == "run") {
		u64 base = strtoull(opt["--seed"].c_str(), nullptr, 10);
		u64 from = strtoull(opt["--from"].c_str(), nullptr, 10), stride = strtoull(opt["--stride"].c_str(), nullptr, 10);
		u64 total = strtoull(opt["--total"].c_str(), nullptr, 10);
		double wall = atof(opt["--wall"].c_str());
		bool hashes = opt.count("--hashes");
		long long t0 = realClock(CLOCK_MONOTONIC);
		u64 runs = 0, steps = 0, events = 0, simns = 0, nontriv = 0, maxsteps = 0;
		std::map<std::string, long> counters;
		std::unordered_set<u64> states, outcomes;
		std::vector<unsigned char> cov(kCovBits / 8);
		std::string sample;
		std::set<std::string> seenBad;
		int nbad = 0;
		bool cut = false;
		for (u64 i = from; i < total; i += stride) {
			if ((realClock(CLOCK_MONOTONIC) - t0) * 1e-9 > wall) { cut = true; break; }
			generate(runSeed(base, i));
			runOnce();
			runs++;
			steps += R->steps;
			maxsteps = std::max(maxsteps, R->steps);
			events += R->events;
			simns += R->simns;
			for (int k = 0; k < kMaxCounter && R->counters[k].name[0]; k++) counters[R->counters[k].name] += R->counters[k].n;
			if (states.size() < 3000000)
				for (long k = 0; k < R->nstate; k++) states.insert(R->states[k]);
			for (int k = 0; k < kCovBits / 8; k++) cov[k] |= R->cov[k];
			if (R->nontrivial && outcomes.insert(R->hash).second) {
				nontriv++;
				if (sample.empty() && strlen(P) < 1500) sample = P;
			}
			if (hashes) printf("H %llu %016llx\n", (unsigned long long)i, (unsigned long long)R->hash);
			if (R->status != OK) {
				nbad++;
				if (seenBad.insert(R->cls).second) {
					printf("BAD {\"index\":%llu,\"cls\":%s,\"msg\":%s,\"hash\":\"%016llx\",\"plan\":%s}\n", (unsigned long long)i,
						jstr(R->cls).c_str(), jstr(R->msg).c_str(), (unsigned long long)R->hash, jstr(P).c_str());
					fflush(stdout);
				}
				if (nbad >= 5) break;
			}
		}
		long covn = 0;
		for (unsigned char c : cov) covn += __builtin_popcount(c);
		printf("STATS {\"runs\":%llu,\"steps\":%llu,\"maxsteps\":%llu,\"events\":%llu,\"simns\":%llu,\"nontrivial\":%llu,\"cut\":%s,\"sample\":%s,\"counters\":{",
			(unsigned long long)runs, (unsigned long long)steps, (unsigned long long)maxsteps, (unsigned long long)events, (unsigned long long)simns,
			(unsigned long long)nontriv, cut ? "true" : "false", jstr(sample.c_str()).c_str());
		bool first = true;
		for (auto& [k, v] : counters) {
			printf("%s%s:%ld", first ? "" : ",", jstr(k.c_str()).c_str(), v);
			first = false;
		}
		printf("}}\n");
		// state signatures and block coverage, merged by the driver
		if (opt.count("--dump")) {
			FILE* f = fopen(opt["--dump"].c_str(), "w");
			if (f) {
				u64 n = states.size();
				fwrite(&n, 8, 1, f);
				for (u64 s : states) fwrite(&s, 8, 1, f);
				n = outcomes.size();
				fwrite(&n, 8, 1, f);
				for (u64 s : outcomes) fwrite(&s, 8, 1, f);
				fwrite(cov.data(), 1, cov.size(), f);
				fclose(f);
			}
		}
		return 0;
	}
	fprintf(stderr, "usage: %s run|exec|trace|gen ...\n", argv[0]);
	return 3;
}
