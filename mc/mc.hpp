// Bounded explicit-state / stateless model checker for in-process C++ code.
//
// A harness registers suites with MC_SUITE(name) { ... }.  Every suite runs in a forked child, so that a crash, an
// assertion trap, a sanitizer report, a leak or a hang is attributed to the exact execution being explored.
//   mc::forAll(fn)         enumerates every sequence of answers to Exec::choose (stateless DFS with replay)
//   mc::bfs<Sys>(...)      explicit-state search over the real object, histories replayed from scratch
//   mc::point(a, b, c)     one state of a plain nested-loop enumeration of an input domain
// A disagreement is reported with mc::fail(key, fmt, ...): the execution is written to a replay file.
#pragma once

#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <new>
#include <set>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

namespace mc
{
	using u8 = std::uint8_t; using u16 = std::uint16_t; using u32 = std::uint32_t; using u64 = std::uint64_t;
	using i64 = std::int64_t;

	constexpr std::size_t MaxChoices = 4096;
	constexpr std::size_t MaxText = 1 << 16;

	struct Shared
	{
		// progress of the current execution
		volatile u64 heartbeat;
		u32 isPoint;
		u32 choiceCount;
		u16 choices[MaxChoices];
		u64 pointValues[8];
		char pointName[64];
		// counters
		u64 executions;   // complete executions of the real code
		u64 states;       // distinct states (explicit-state) or choice points / inputs (stateless)
		u64 transitions;  // real operations applied
		u64 outcomes;     // distinct observed outcomes recorded through mc::outcome
		u64 knownHits;
		u32 capped;
		u32 failed;
		u32 finished;
		char failKey[128];
		char failText[4096];
		char trace[MaxText];
		u32 traceLen;
		char samples[8192];
		u32 samplesLen;
		char known[2048];
		u32 knownLen;
	};

	inline Shared* g_sh = nullptr;
	inline bool g_thorough = false;
	inline bool g_replaying = false;     // printing the human readable trace
	inline unsigned g_hangSeconds = 20;
	inline std::set<std::string> g_knownKeys;
	inline std::vector<u16> g_replayChoices;
	inline bool g_haveReplay = false;

	inline bool thorough() { return g_thorough; }
	template<typename T> T pick(T quick, T thoroughValue) { return g_thorough ? thoroughValue : quick; }

	struct Abandon {}; // thrown to leave an execution that hit a known finding
	struct Stop {};

	inline void vnote(const char* fmt, va_list ap)
	{
		Shared& s = *g_sh;
		if (s.traceLen + 512 >= MaxText)
			return;
		int n = std::vsnprintf(s.trace + s.traceLen, MaxText - s.traceLen - 2, fmt, ap);
		if (n > 0)
		{
			s.traceLen = std::min<u32>(s.traceLen + u32(n), MaxText - 2);
			s.trace[s.traceLen++] = '\n';
			s.trace[s.traceLen] = 0;
		}
	}

	__attribute__((format(printf, 1, 2))) inline void noteImpl(const char* fmt, ...)
	{
		va_list ap; va_start(ap, fmt); vnote(fmt, ap); va_end(ap);
	}
	// formatting is only paid for while a counterexample is being replayed
	#define MC_NOTE(...) do { if (::mc::g_replaying) ::mc::noteImpl(__VA_ARGS__); } while (0)

	__attribute__((format(printf, 2, 3))) inline void fail(const char* key, const char* fmt, ...)
	{
		Shared& s = *g_sh;
		if (g_knownKeys.count(key))
		{
			s.knownHits++;
			if (!std::strstr(s.known, key) && s.knownLen + std::strlen(key) + 2 < sizeof(s.known))
				s.knownLen += u32(std::snprintf(s.known + s.knownLen, sizeof(s.known) - s.knownLen, "%s\n", key));
			throw Abandon{};
		}
		std::snprintf(s.failKey, sizeof(s.failKey), "%s", key);
		va_list ap; va_start(ap, fmt);
		std::vsnprintf(s.failText, sizeof(s.failText), fmt, ap);
		va_end(ap);
		s.failed = 1;
		::_exit(77);
	}

	#define MC_CHECK(cond, key, ...) do { if (!(cond)) ::mc::fail(key, __VA_ARGS__); } while (0)

	inline void sample(const std::string& text)
	{
		Shared& s = *g_sh;
		if (s.samplesLen + text.size() + 2 < sizeof(s.samples) && text.size() < 1500)
		{
			std::memcpy(s.samples + s.samplesLen, text.c_str(), text.size());
			s.samplesLen += u32(text.size());
			s.samples[s.samplesLen++] = '\n';
			s.samples[s.samplesLen] = 0;
		}
	}

	// ---------------------------------------------------------------- heap accounting (operator new/delete are replaced below)
	struct Heap
	{
		bool counting = false;
		i64 live = 0;             // blocks allocated minus freed while counting
		u64 allocations = 0;
		i64 failAt = -1;          // fails the n-th allocation (0 based) while counting
	};
	inline Heap g_heap;

	inline void* heapAlloc(std::size_t n, std::size_t align)
	{
		if (g_heap.counting)
		{
			if (g_heap.failAt == i64(g_heap.allocations))
			{
				g_heap.allocations++;
				throw std::bad_alloc();
			}
			g_heap.allocations++;
			g_heap.live++;
		}
		void* p;
		if (align > alignof(std::max_align_t))
		{
			if (::posix_memalign(&p, align, n ? n : 1) != 0)
				throw std::bad_alloc();
		}
		else if (!(p = std::malloc(n ? n : 1)))
			throw std::bad_alloc();
		return p;
	}
	inline void heapFree(void* p) noexcept
	{
		if (!p)
			return;
		if (g_heap.counting)
			g_heap.live--;
		std::free(p);
	}
	struct HeapScope
	{
		HeapScope() { g_heap.counting = true; g_heap.live = 0; g_heap.allocations = 0; }
		~HeapScope() { g_heap.counting = false; g_heap.failAt = -1; }
	};

	// RAII: the checker's own bookkeeping does not count
	struct HeapPause
	{
		bool old;
		HeapPause() : old(g_heap.counting) { g_heap.counting = false; }
		~HeapPause() { g_heap.counting = old; }
	};

	inline std::unordered_set<u64>& outcomeSet() { static std::unordered_set<u64> set; return set; }
	inline u64 mix(u64 h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h; }
	inline void outcome(u64 h)
	{
		HeapPause hp;
		auto& set = outcomeSet();
		if (set.size() < 200000 && set.insert(h).second)
			g_sh->outcomes = set.size();
	}
	inline u64 hashBytes(const void* p, std::size_t n)
	{
		const u8* b = static_cast<const u8*>(p);
		u64 h = 1469598103934665603ull;
		for (std::size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
		return h;
	}
	inline u64 hashString(const std::string& s) { return hashBytes(s.data(), s.size()); }

	// ---------------------------------------------------------------- plain enumeration
	inline void pointName(const char* name) { std::snprintf(g_sh->pointName, sizeof(g_sh->pointName), "%s", name); }

	inline void point(u64 a, u64 b = 0, u64 c = 0, u64 d = 0)
	{
		Shared& s = *g_sh;
		s.isPoint = 1;
		s.traceLen = 0;
		s.trace[0] = 0;
		s.pointValues[0] = a; s.pointValues[1] = b; s.pointValues[2] = c; s.pointValues[3] = d;
		s.states++;
		s.executions++;
		s.heartbeat = s.heartbeat + 1;
	}

	// ---------------------------------------------------------------- stateless exploration
	struct Exec
	{
		std::vector<u16> prefix;
		std::vector<u16> taken;
		std::vector<u16> arity;

		// one of [0, n)
		unsigned choose(unsigned n)
		{
			if (n == 0) { std::fprintf(stderr, "mc: choose(0)\n"); ::_exit(78); }
			HeapPause hp;
			unsigned v = 0;
			std::size_t i = taken.size();
			if (i < prefix.size())
			{
				v = prefix[i];
				if (v >= n) { std::fprintf(stderr, "mc: divergence while replaying a prefix (%u >= %u at %zu)\n", v, n, i); ::_exit(78); }
			}
			if (i >= MaxChoices) { std::fprintf(stderr, "mc: too many choices\n"); ::_exit(78); }
			taken.push_back(u16(v));
			arity.push_back(u16(n));
			g_sh->choices[i] = u16(v);
			g_sh->choiceCount = u32(i + 1);
			return v;
		}
		template<typename T, std::size_t N> const T& of(const T(&arr)[N]) { return arr[choose(N)]; }
		bool flip() { return choose(2) == 1; }
		void step() { g_sh->transitions++; }
	};

	inline void traceReset() { g_sh->traceLen = 0; g_sh->trace[0] = 0; g_sh->choiceCount = 0; g_sh->isPoint = 0; }

	// Runs fn for every choice sequence.  fn returns normally; `maxExec` caps the exploration (reported as capped).
	inline void forAll(const std::function<void(Exec&)>& fn, u64 maxExec = ~0ull)
	{
		std::vector<u16> prefix;
		if (g_haveReplay)
			prefix = g_replayChoices;
		u64 n = 0;
		std::vector<u16> lastSample;
		for (;;)
		{
			Exec x;
			x.prefix = prefix;
			x.taken.reserve(64); x.arity.reserve(64);
			traceReset();
			g_sh->heartbeat = g_sh->heartbeat + 1;
			try { fn(x); } catch (const Abandon&) {}
			g_sh->executions++;
			n++;
			if (g_haveReplay)
				return;
			if (x.taken.size() < prefix.size()) { std::fprintf(stderr, "mc: divergence: execution shorter than its prefix\n"); ::_exit(78); }
			g_sh->states += x.taken.size() > prefix.size() ? x.taken.size() - prefix.size() + 1 : 1;
			if (n == 1 || n == 50 || n == 1000)
			{
				std::string s = "choices[";
				for (u16 c : x.taken) s += std::to_string(c) + " ";
				sample(s + "]");
			}
			// next in lexicographic order
			std::size_t i = x.taken.size();
			while (i > 0 && x.taken[i - 1] + 1 >= x.arity[i - 1])
				--i;
			if (i == 0)
				return;
			prefix.assign(x.taken.begin(), x.taken.begin() + i);
			prefix[i - 1]++;
			if (n >= maxExec) { g_sh->capped = 1; return; }
		}
	}

	// Deviation-bounded exploration: at most maxDev answers differ from 0 (the default answer).
	inline void forAllBounded(unsigned maxDev, const std::function<void(Exec&)>& fn)
	{
		if (g_haveReplay) { forAll(fn); return; }
		std::vector<std::pair<std::vector<u16>, unsigned>> stack;
		stack.push_back({ {}, 0 });
		while (!stack.empty())
		{
			auto [prefix, dev] = std::move(stack.back());
			stack.pop_back();
			Exec x;
			x.prefix = prefix;
			traceReset();
			g_sh->heartbeat = g_sh->heartbeat + 1;
			try { fn(x); } catch (const Abandon&) {}
			g_sh->executions++;
			g_sh->states += x.taken.size() - prefix.size() + 1;
			if (dev < maxDev)
			{
				for (std::size_t i = prefix.size(); i < x.taken.size(); ++i)
				{
					for (unsigned alt = 1; alt < x.arity[i]; ++alt)
					{
						std::vector<u16> p(x.taken.begin(), x.taken.begin() + i);
						p.push_back(u16(alt));
						stack.push_back({ std::move(p), dev + 1 });
					}
				}
			}
		}
	}

	// ---------------------------------------------------------------- explicit-state exploration
	// Sys: Sys(); unsigned ops(); void apply(unsigned op) [throws/fails on disagreement]; std::string key();
	//      void finish() [teardown checks]
	template<typename Sys, typename Make>
	void bfsWith(Make&& make, unsigned maxDepth, u64 maxStates = ~0ull)
	{
		auto runHistory = [&](const std::vector<u16>& h, unsigned* opCount, std::string* key)
		{
			traceReset();
			Shared& s = *g_sh;
			s.heartbeat = s.heartbeat + 1;
			s.executions++;
			{
				auto sys = make();
				for (std::size_t i = 0; i < h.size(); ++i)
				{
					s.choices[i] = h[i];
					s.choiceCount = u32(i + 1);
					sys->apply(h[i]);
				}
				if (opCount) *opCount = sys->ops();
				if (key) *key = sys->key();
				sys->finish();
			}
		};
		if (g_haveReplay)
		{
			try { runHistory(g_replayChoices, nullptr, nullptr); } catch (const Abandon&) {}
			return;
		}
		std::unordered_set<std::string> seen;
		struct Node { std::vector<u16> h; unsigned ops; };
		std::vector<Node> frontier;
		{
			unsigned n = 0; std::string k;
			runHistory({}, &n, &k);
			seen.insert(k);
			frontier.push_back({ {}, n });
			g_sh->states++;
		}
		for (unsigned depth = 1; depth <= maxDepth && !frontier.empty(); ++depth)
		{
			std::vector<Node> next;
			for (const Node& node : frontier)
			{
				for (unsigned op = 0; op < node.ops; ++op)
				{
					std::vector<u16> h = node.h;
					h.push_back(u16(op));
					unsigned n = 0; std::string k;
					try { runHistory(h, &n, &k); } catch (const Abandon&) { continue; }
					g_sh->transitions++;
					if (seen.insert(k).second)
					{
						g_sh->states++;
						if (g_sh->states == 10 || g_sh->states == 500)
						{
							std::string s = "history[";
							for (u16 c : h) s += std::to_string(c) + " ";
							sample(s + "] state=" + k.substr(0, 200));
						}
						if (depth < maxDepth)
						{
							if (seen.size() >= maxStates) { g_sh->capped = 1; continue; }
							next.push_back({ std::move(h), n });
						}
					}
				}
			}
			frontier.swap(next);
		}
	}
	template<typename Sys>
	void bfs(unsigned maxDepth, u64 maxStates = ~0ull)
	{
		bfsWith<Sys>([] { return std::make_unique<Sys>(); }, maxDepth, maxStates);
	}

	// ---------------------------------------------------------------- suites
	struct Suite { const char* name; void (*fn)(); };
	inline std::vector<Suite>& suites() { static std::vector<Suite> v; return v; }
	struct Register { Register(const char* name, void (*fn)()) { suites().push_back({ name, fn }); } };
	#define MC_SUITE(NAME) static void mc_suite_##NAME(); static ::mc::Register mc_reg_##NAME(#NAME, &mc_suite_##NAME); static void mc_suite_##NAME()

	inline std::string jsonEscape(const std::string& in)
	{
		std::string o;
		for (unsigned char c : in)
		{
			if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
			else if (c == '\n') o += "\\n";
			else if (c == '\t') o += "\\t";
			else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
			else o += char(c);
		}
		return o;
	}

	struct RunResult
	{
		std::string status; // ok, fail, crash, hang, error
		std::string key, text, trace, choices, err;
	};

	inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + double(t.tv_nsec) * 1e-9; }

	inline RunResult runSuite(const Suite& suite, bool replay, const std::vector<u16>& choices, bool haveChoices, unsigned hang)
	{
		std::memset(static_cast<void*>(g_sh), 0, sizeof(Shared));
		char errPath[] = "/tmp/mc_err_XXXXXX";
		int errFd = ::mkstemp(errPath);
		if (errFd >= 0) ::unlink(errPath);
		std::fflush(stdout);
		pid_t pid = ::fork();
		if (pid == 0)
		{
			if (errFd >= 0) { ::dup2(errFd, 2); }
			int devnull = ::open("/dev/null", O_WRONLY);
			if (devnull >= 0) ::dup2(devnull, 1);
			rlimit lim{ 0, 0 };
			::setrlimit(RLIMIT_CORE, &lim);
			g_replaying = replay;
			g_haveReplay = haveChoices;
			g_replayChoices = choices;
			try { suite.fn(); }
			catch (const Abandon&) {}
			catch (const std::exception& e)
			{
				std::snprintf(g_sh->failKey, sizeof(g_sh->failKey), "exception");
				std::snprintf(g_sh->failText, sizeof(g_sh->failText), "unexpected exception: %s", e.what());
				g_sh->failed = 1;
				::_exit(77);
			}
			g_sh->finished = 1;
			::_exit(0);
		}
		RunResult r;
		int status = 0;
		u64 lastBeat = 0;
		double lastChange = now();
		bool hung = false;
		for (;;)
		{
			pid_t w = ::waitpid(pid, &status, WNOHANG);
			if (w == pid) break;
			u64 beat = g_sh->heartbeat;
			if (beat != lastBeat) { lastBeat = beat; lastChange = now(); }
			if (now() - lastChange > hang)
			{
				hung = true;
				::kill(pid, SIGKILL);
				::waitpid(pid, &status, 0);
				break;
			}
			::usleep(2000);
		}
		std::string err;
		if (errFd >= 0)
		{
			::lseek(errFd, 0, SEEK_SET);
			char buf[4096];
			ssize_t n;
			while (err.size() < 6000 && (n = ::read(errFd, buf, sizeof buf)) > 0) err.append(buf, std::size_t(n));
			::close(errFd);
		}
		r.err = err;
		Shared& s = *g_sh;
		if (s.isPoint)
		{
			r.choices = std::string("point ") + s.pointName;
			char b[128];
			std::snprintf(b, sizeof b, " %llu %llu %llu %llu (hex %llx %llx %llx %llx)", (unsigned long long)s.pointValues[0], (unsigned long long)s.pointValues[1], (unsigned long long)s.pointValues[2], (unsigned long long)s.pointValues[3],
				(unsigned long long)s.pointValues[0], (unsigned long long)s.pointValues[1], (unsigned long long)s.pointValues[2], (unsigned long long)s.pointValues[3]);
			r.choices += b;
		}
		else
		{
			for (u32 i = 0; i < s.choiceCount && i < MaxChoices; ++i) r.choices += (i ? " " : "") + std::to_string(s.choices[i]);
		}
		r.trace = s.trace;
		if (hung) { r.status = "hang"; r.key = "hang"; r.text = "no progress for " + std::to_string(hang) + " s"; }
		else if (s.failed) { r.status = "fail"; r.key = s.failKey; r.text = s.failText; }
		else if (WIFSIGNALED(status))
		{
			r.status = "crash"; r.key = "crash"; r.text = std::string("killed by signal ") + strsignal(WTERMSIG(status));
			if (WTERMSIG(status) == SIGKILL) { r.status = "error"; r.text = "killed (out of memory?)"; }
		}
		else if (WIFEXITED(status) && WEXITSTATUS(status) == 78) { r.status = "error"; r.key = "divergence"; r.text = "exploration error"; }
		else if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && s.finished) r.status = "ok";
		else { r.status = "crash"; r.key = "crash"; r.text = "exit status " + std::to_string(WIFEXITED(status) ? WEXITSTATUS(status) : -1); }
		return r;
	}

	inline int mainImpl(int argc, char** argv)
	{
		std::string suiteName, replayFile;
		bool list = false;
		std::vector<u16> choices; bool haveChoices = false, replay = false;
		for (int i = 1; i < argc; ++i)
		{
			std::string a = argv[i];
			if (a == "--list") list = true;
			else if (a == "--thorough") g_thorough = true;
			else if (a == "--suite" && i + 1 < argc) suiteName = argv[++i];
			else if (a == "--known" && i + 1 < argc) g_knownKeys.insert(argv[++i]);
			else if (a == "--hang" && i + 1 < argc) g_hangSeconds = unsigned(std::atoi(argv[++i]));
			else if (a == "--replay") replay = true;
			else if (a == "--choices" && i + 1 < argc)
			{
				haveChoices = replay = true;
				const char* p = argv[++i];
				while (*p) { char* e; long v = std::strtol(p, &e, 10); if (e == p) break; choices.push_back(u16(v)); p = e; }
			}
		}
		if (list)
		{
			for (const Suite& s : suites()) std::printf("%s\n", s.name);
			return 0;
		}
		void* mem = ::mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		if (mem == MAP_FAILED) { std::perror("mmap"); return 3; }
		g_sh = static_cast<Shared*>(mem);
		for (const Suite& s : suites())
		{
			if (suiteName != s.name)
				continue;
			double t0 = now();
			RunResult r = runSuite(s, replay, choices, haveChoices, g_hangSeconds);
			Shared sh = *g_sh;
			std::printf("{\"suite\":\"%s\",\"status\":\"%s\",\"key\":\"%s\",\"text\":\"%s\",\"choices\":\"%s\",\"is_point\":%u,\"trace\":\"%s\",\"stderr\":\"%s\","
				"\"executions\":%llu,\"states\":%llu,\"transitions\":%llu,\"outcomes\":%llu,\"known_hits\":%llu,\"known\":\"%s\",\"capped\":%u,\"samples\":\"%s\",\"wall\":%.3f}\n",
				s.name, r.status.c_str(), jsonEscape(r.key).c_str(), jsonEscape(r.text).c_str(), jsonEscape(r.choices).c_str(), sh.isPoint, jsonEscape(r.trace).c_str(), jsonEscape(r.err).c_str(),
				(unsigned long long)sh.executions, (unsigned long long)sh.states, (unsigned long long)sh.transitions, (unsigned long long)sh.outcomes, (unsigned long long)sh.knownHits, jsonEscape(sh.known).c_str(), sh.capped,
				jsonEscape(sh.samples).c_str(), now() - t0);
			return 0;
		}
		std::fprintf(stderr, "no suite %s\n", suiteName.c_str());
		return 3;
	}

	// ---------------------------------------------------------------- instrumented element type
	// Registry of live objects: construction over a live object, destruction / use of a dead one, leaks.
	struct Life
	{
		std::unordered_set<const void*> live;
		i64 opsUntilFault = -1;   // a counted element operation throws when this reaches 0
		u64 ops = 0;
		bool faulted = false;
		u64 copies = 0, moves = 0, ctors = 0, dtors = 0, assigns = 0, copyAssigns = 0;
		unsigned stamps = 0;
		void reset() { HeapPause p; live.clear(); opsUntilFault = -1; ops = 0; faulted = false; copies = moves = ctors = dtors = assigns = copyAssigns = 0; stamps = 0; }
	};
	inline Life g_life;
	struct Fault {};

	inline void lifeMayThrow()
	{
		g_life.ops++;
		if (g_life.opsUntilFault >= 0 && g_life.opsUntilFault-- == 0)
		{
			g_life.faulted = true;
			throw Fault{};
		}
	}
	inline void lifeBorn(const void* p)
	{
		HeapPause hp;
		if (!g_life.live.insert(p).second)
			fail("lifetime", "object constructed over an object that is still alive");
	}
	inline void lifeDead(const void* p)
	{
		HeapPause hp;
		if (g_life.live.erase(p) == 0)
			fail("lifetime", "destructor called on something that is not a live object");
	}
	inline void lifeUse(const void* p, const char* what)
	{
		if (g_life.live.find(p) == g_life.live.end())
			fail("lifetime", "%s something that is not a live object", what);
	}

	enum TrackFlags : unsigned { Copyable = 1, Movable = 2, Assignable = 4, Default = 8, NoThrowMove = 16 };
	constexpr int MovedFrom = -777777;

	// element with every special member; Throwing: every ctor/copy/move(/assign) is a fault point
	template<bool Throwing, bool ThrowingMove = Throwing>
	struct ElemBase
	{
		int value;
		unsigned stamp; // changes whenever the object is built, assigned or moved from
		void* self; // detects bitwise relocation
		ElemBase() noexcept(!Throwing) : value(0), stamp(++g_life.stamps), self(this) { g_life.ctors++; if constexpr (Throwing) lifeMayThrow(); lifeBorn(this); }
		explicit ElemBase(int v) noexcept(!Throwing) : value(v), stamp(++g_life.stamps), self(this) { g_life.ctors++; if constexpr (Throwing) lifeMayThrow(); lifeBorn(this); }
		ElemBase(const ElemBase& o) noexcept(!Throwing) : value(0), stamp(++g_life.stamps), self(this) { lifeUse(&o, "copy constructed from"); g_life.copies++; if constexpr (Throwing) lifeMayThrow(); value = o.value; lifeBorn(this); }
		ElemBase(ElemBase&& o) noexcept(!ThrowingMove) : value(0), stamp(++g_life.stamps), self(this) { lifeUse(&o, "move constructed from"); g_life.moves++; if constexpr (ThrowingMove) lifeMayThrow(); value = o.value; o.value = MovedFrom; o.stamp = ++g_life.stamps; lifeBorn(this); }
		~ElemBase() { g_life.dtors++; if (self != this) fail("lifetime", "object was relocated bitwise"); self = nullptr; lifeDead(this); }
		ElemBase& operator=(const ElemBase& o) noexcept(!Throwing) { lifeUse(this, "assigned to"); lifeUse(&o, "copy assigned from"); g_life.assigns++; g_life.copyAssigns++; if constexpr (Throwing) lifeMayThrow(); stamp = ++g_life.stamps; value = o.value; return *this; }
		ElemBase& operator=(ElemBase&& o) noexcept(!ThrowingMove) { lifeUse(this, "assigned to"); lifeUse(&o, "move assigned from"); g_life.assigns++; if constexpr (ThrowingMove) lifeMayThrow(); stamp = o.stamp = ++g_life.stamps; if (this != &o) { value = o.value; o.value = MovedFrom; } return *this; }
		int get() const { lifeUse(this, "read"); return value; }
		bool operator==(const ElemBase& o) const { return get() == o.get(); }
	};
	using Elem = ElemBase<false>;
	using ThrowingElem = ElemBase<true>;
	// can be built from a list of its own kind: building it from a braced value nests that value
	struct Listed : Elem
	{
		bool nested = false;
		Listed() = default;
		Listed(int v) : Elem(v) {}
		Listed(std::initializer_list<Listed> l) : Elem(l.size() ? l.begin()->value : 0), nested(true) {}
		Listed(const Listed&) = default;
		Listed(Listed&&) = default;
		Listed& operator=(const Listed&) = default;
		Listed& operator=(Listed&&) = default;
		int get() const { if (nested) fail("content", "an element is a list holding the value instead of the value"); return Elem::get(); }
	};
	using ThrowingCopyElem = ElemBase<true, false>;

	struct MoveOnly
	{
		int value; unsigned stamp; void* self;
		explicit MoveOnly(int v) : value(v), stamp(++g_life.stamps), self(this) { lifeBorn(this); }
		MoveOnly(const MoveOnly&) = delete;
		MoveOnly(MoveOnly&& o) noexcept : value(o.value), stamp(++g_life.stamps), self(this) { lifeUse(&o, "move constructed from"); o.value = MovedFrom; o.stamp = ++g_life.stamps; lifeBorn(this); }
		~MoveOnly() { if (self != this) fail("lifetime", "object was relocated bitwise"); self = nullptr; lifeDead(this); }
		MoveOnly& operator=(const MoveOnly&) = delete;
		MoveOnly& operator=(MoveOnly&& o) noexcept { lifeUse(this, "assigned to"); lifeUse(&o, "move assigned from"); stamp = o.stamp = ++g_life.stamps; if (this != &o) { value = o.value; o.value = MovedFrom; } return *this; }
		int get() const { lifeUse(this, "read"); return value; }
	};

	inline void lifeExpect(std::size_t n, const char* where)
	{
		if (g_life.live.size() != n)
			fail("lifetime", "%s: %zu live elements, expected %zu", where, g_life.live.size(), n);
	}
}

#ifndef MC_NO_HEAP // (no heap accounting)
void* operator new(std::size_t n) { return mc::heapAlloc(n, 0); }
void* operator new[](std::size_t n) { return mc::heapAlloc(n, 0); }
void* operator new(std::size_t n, std::align_val_t a) { return mc::heapAlloc(n, std::size_t(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return mc::heapAlloc(n, std::size_t(a)); }
void operator delete(void* p) noexcept { mc::heapFree(p); }
void operator delete[](void* p) noexcept { mc::heapFree(p); }
void operator delete(void* p, std::size_t) noexcept { mc::heapFree(p); }
void operator delete[](void* p, std::size_t) noexcept { mc::heapFree(p); }
void operator delete(void* p, std::align_val_t) noexcept { mc::heapFree(p); }
void operator delete[](void* p, std::align_val_t) noexcept { mc::heapFree(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { mc::heapFree(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { mc::heapFree(p); }
#endif

#include <memory>
int main(int argc, char** argv) { return mc::mainImpl(argc, argv); }
