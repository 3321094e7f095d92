// C31 the assertion facility itself
#include <NazaraUtils/Assert.hpp>
#include "mc.hpp"
#include <array>
#include <sys/mman.h>
#include <sys/wait.h>

// what the documentation of the macros promises for this configuration
#if !defined(NAZARA_NO_ASSERT) && (defined(NAZARA_ENABLE_ASSERTS) || !defined(NDEBUG))
#define ENABLED 1
#else
#define ENABLED 0
#endif

namespace
{
	struct Seen { int conditions, arguments; int path[16]; int pathSize; int end; };
	Seen* g_seen;
	bool condition(int v) { g_seen->conditions++; return v != 0; }
	int integer(int v) { g_seen->conditions++; return v; }
	const void* pointer(int v) { g_seen->conditions++; return v ? g_seen : nullptr; }
	struct Explicit { int v; explicit operator bool() const { return v != 0; } };
	Explicit object(int v) { g_seen->conditions++; return Explicit { v }; }
	int argument(int v) { g_seen->arguments++; return v; }
	const char* text(const char* s) { g_seen->arguments++; return s; }
	void path(int p) { if (g_seen->pathSize < 16) g_seen->path[g_seen->pathSize++] = p; }

	struct Outcome { bool stopped, cleanExit; int signal; std::string output; Seen seen; };
	void ignoreTrap(int) {}
	// runs a function in a child process: how it ended, what it wrote, what it evaluated
	template<typename F> Outcome run(F&& f, bool resumeAfterTrap)
	{
		std::memset(g_seen, 0, sizeof(Seen));
		int fds[2];
		if (::pipe(fds) != 0) std::_Exit(9);
		std::fflush(nullptr);
		pid_t pid = ::fork();
		if (pid < 0) std::_Exit(9);
		if (pid == 0)
		{
			::close(fds[0]); ::dup2(fds[1], 2); ::dup2(fds[1], 1); ::close(fds[1]);
			::signal(SIGTRAP, resumeAfterTrap ? ignoreTrap : SIG_DFL); ::signal(SIGABRT, SIG_DFL); ::signal(SIGILL, SIG_DFL);
			rlimit none { 0, 0 }; ::setrlimit(RLIMIT_CORE, &none);
			f();
			g_seen->end = 1;
			std::_Exit(0);
		}
		::close(fds[1]);
		Outcome o {}; char buffer[512]; ssize_t n;
		while ((n = ::read(fds[0], buffer, sizeof(buffer))) > 0) o.output.append(buffer, std::size_t(n));
		::close(fds[0]);
		int status = 0; ::waitpid(pid, &status, 0);
		o.stopped = WIFSIGNALED(status);
		o.signal = o.stopped ? WTERMSIG(status) : 0;
		o.cleanExit = WIFEXITED(status) && WEXITSTATUS(status) == 0;
		o.seen = *g_seen;
		return o;
	}
	void setup() { g_seen = static_cast<Seen*>(::mmap(nullptr, sizeof(Seen), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)); }
	bool has(const std::string& s, const std::string& what) { return s.find(what) != std::string::npos; }

	// Forms: the statement under test. `v` is the value of the condition.
	// contexts: the control flow around the statement, which a macro must not disturb
#define IN_CONTEXTS(STATEMENT) \
	switch (context) \
	{ \
		case 0: STATEMENT; path(1); break; \
		case 1: if (outer) STATEMENT; else path(2); path(1); break; \
		case 2: if (!outer) path(2); else STATEMENT; path(1); break; \
		case 3: for (int i = 0; i < 3; ++i) STATEMENT; path(1); break; \
		case 4: { int i = 0; while (i++ < 2) STATEMENT; path(1); break; } \
		case 5: if (outer) if (!outer) path(3); else STATEMENT; else path(2); path(1); break; \
		case 6: { int i = 0; do STATEMENT; while (++i < 2); path(1); break; } \
		case 7: { auto f = [&] { STATEMENT; }; f(); path(1); break; } \
	}
	struct Want { int evaluations; std::array<int, 2> path; int pathSize; };
	// number of times the statement is reached, and the path, for a condition that holds
	Want expected(unsigned context, bool outer)
	{
		switch (context)
		{
			case 0: case 7: return { 1, { 1, 0 }, 1 };
			case 1: case 2: case 5: return outer ? Want { 1, { 1, 0 }, 1 } : Want { 0, { 2, 1 }, 2 };
			case 3: return { 3, { 1, 0 }, 1 };
			default: return { 2, { 1, 0 }, 1 };
		}
	}
	// line of the statements: every form is written on one line, kept here
	int g_line;
	void form(unsigned which, unsigned context, bool outer, int v)
	{
		switch (which)
		{
			case 0: g_line = __LINE__; IN_CONTEXTS(NazaraAssert(condition(v))) break;
			case 1: g_line = __LINE__; IN_CONTEXTS(NazaraAssert(integer(v))) break;
			case 2: g_line = __LINE__; IN_CONTEXTS(NazaraAssert(pointer(v))) break;
			case 3: g_line = __LINE__; IN_CONTEXTS(NazaraAssert(object(v))) break;
			case 4: g_line = __LINE__; IN_CONTEXTS(NazaraAssert(condition(v) && g_seen != nullptr)) break;
			case 5: g_line = __LINE__; IN_CONTEXTS(NazaraAssert(g_seen == nullptr || condition(v))) break;
			case 6: g_line = __LINE__; IN_CONTEXTS(NazaraAssertMsg(condition(v), "some message 100%")) break;
			case 7: g_line = __LINE__; IN_CONTEXTS(NazaraAssertMsg(condition(v), "value %d", argument(42))) break;
			case 8: g_line = __LINE__; IN_CONTEXTS(NazaraAssertMsg(integer(v) > 0 || v < 0, "value %d of %s %%", argument(42), text("name"))) break;
			case 9: IN_CONTEXTS(Nz::Assert(condition(v))) break;
			case 10: IN_CONTEXTS(Nz::Assert(condition(v), "some message 100%")) break;
			case 11: IN_CONTEXTS(Nz::Assert(condition(v), "value %d", argument(42))) break;
			case 12: IN_CONTEXTS(Nz::AssertWithSource(condition(v), "some_file.cpp", 1234u, "some message 100%")) break;
			case 13: IN_CONTEXTS(Nz::AssertWithSource(condition(v), "some_file.cpp", 1234u, "value %d of %s %%", argument(42), text("name"))) break;
		}
	}
	constexpr unsigned Forms = 14, Contexts = 8;
	void matrix()
	{
		mc::pointName("form, context, outer, condition");
		setup();
		for (unsigned which = 0; which < Forms; ++which)
			for (unsigned context = 0; context < Contexts; ++context)
				for (unsigned outer = 0; outer < 2; ++outer)
					for (int v : { 1, 0, -1, 256 })
						for (bool resume : { false, true })
						{
							mc::point(which, context, outer, mc::u64(mc::i64(v)));
							// the functions are always enabled, the macros follow the configuration
							const bool enabled = which >= 9 || ENABLED;
							Want want = expected(context, outer != 0);
							Outcome o = run([&] { form(which, context, outer != 0, v); }, resume);
							const bool fails = enabled && want.evaluations > 0 && v == 0;
							if (fails)
							{
								MC_CHECK(o.stopped && (o.signal == SIGTRAP || o.signal == SIGABRT || o.signal == SIGILL) && !o.seen.end, "stop", "a failed assertion does not stop the program (signal %d)", o.signal);
								MC_CHECK(o.seen.conditions == 1 && o.seen.pathSize == 0, "stop", "the program went on after the failure");
								MC_CHECK(has(o.output, "assertion failed"), "message", "output: %s", o.output.c_str());
								if (which == 6 || which == 10 || which == 12) MC_CHECK(has(o.output, "some message 100%"), "message", "output: %s", o.output.c_str());
								if (which == 7 || which == 11) MC_CHECK(has(o.output, "value 42"), "message", "output: %s", o.output.c_str());
								if (which == 8 || which == 13) MC_CHECK(has(o.output, "value 42 of name %"), "message", "output: %s", o.output.c_str());
								if (which == 12 || which == 13) MC_CHECK(has(o.output, "some_file.cpp:1234"), "message", "output: %s", o.output.c_str());
								if (which < 6) MC_CHECK(has(o.output, which == 1 ? "integer(v)" : which == 2 ? "pointer(v)" : which == 3 ? "object(v)" : "condition(v)"), "message", "output: %s", o.output.c_str());
								if (which < 9) { std::string where = std::string(__FILE__) + ":"; MC_CHECK(has(o.output, where), "message", "output: %s", o.output.c_str()); }
							}
							else
							{
								MC_CHECK(o.cleanExit && o.seen.end == 1, "spurious", "the program stopped (signal %d, output %s) although no enabled assertion failed", o.signal, o.output.c_str());
								MC_CHECK(o.output.empty(), "spurious", "output: %s", o.output.c_str());
								MC_CHECK(o.seen.conditions == (enabled ? want.evaluations : 0), "evaluations", "the condition was evaluated %d times instead of %d", o.seen.conditions, enabled ? want.evaluations : 0);
								if (!enabled) MC_CHECK(o.seen.arguments == 0, "evaluations", "a disabled assertion evaluates its arguments");
								MC_CHECK(o.seen.pathSize == want.pathSize && o.seen.path[0] == want.path[0] && o.seen.path[1] == want.path[1], "control-flow", "context %u: the assertion changes the statements that are executed", context);
							}
						}
	}
	void failures()
	{
		mc::pointName("failure, resume");
		setup();
		for (unsigned which = 0; which < 5; ++which)
			for (bool resume : { false, true })
			{
				mc::point(which, resume);
				Outcome o = run([&]
				{
					switch (which)
					{
						case 0: Nz::AssertFailure(); break;
						case 1: Nz::AssertFailure("some message 100%"); break;
						case 2: Nz::AssertFailure("value %d of %s", argument(42), text("name")); break;
						case 3: Nz::AssertFailureWithSource("some_file.cpp", 1234u, "some message 100%"); break;
						case 4: Nz::AssertFailureWithSource("some_file.cpp", 1234u, "value %d of %s", argument(42), text("name")); break;
					}
				}, resume);
				MC_CHECK(o.stopped && (o.signal == SIGTRAP || o.signal == SIGABRT || o.signal == SIGILL) && !o.seen.end, "stop", "a failure does not stop the program");
				MC_CHECK(has(o.output, "assertion failed"), "message", "output: %s", o.output.c_str());
				if (which == 1 || which == 3) MC_CHECK(has(o.output, "some message 100%"), "message", "output: %s", o.output.c_str());
				if (which == 2 || which == 4) MC_CHECK(has(o.output, "value 42 of name"), "message", "output: %s", o.output.c_str());
				if (which >= 3) MC_CHECK(has(o.output, "some_file.cpp:1234"), "message", "output: %s", o.output.c_str());
			}
	}

	// the text of a failure is complete and literal, whatever its length and contents
	void messages()
	{
		mc::pointName("kind, length, contents");
		setup();
		static const char* const units[] = { "m", "%", "%s", "%d%n", "\\", "\xC3\xA9", "a b\tc", "\"", "x\ny" };
		for (unsigned kind = 0; kind < 7; ++kind)
			for (unsigned u = 0; u < 9; ++u)
				for (std::size_t length = 0; length <= mc::pick<std::size_t>(5000, 70000); length = length < 4 ? length + 1 : length * 2 + (length & 1))
				{
					mc::point(kind, length, u);
					std::string m;
					while (m.size() < length) m += units[u];
					const char* c = m.c_str();
					Outcome o = run([&]
					{
						switch (kind)
						{
							case 0: Nz::AssertFailure(c); break;
							case 1: Nz::AssertFailure("<%s|%d>", c, argument(7)); break;
							case 2: Nz::AssertFailureWithSource("some_file.cpp", 1234u, c); break;
							case 3: Nz::AssertFailureWithSource("some_file.cpp", 1234u, "<%s|%d>", c, argument(7)); break;
							case 4: Nz::AssertFailureWithSource(c, 1234u, "text"); break;
							case 5: Nz::AssertFailureWithSource(c, 1234u, "<%d>", argument(7)); break;
							case 6: Nz::AssertWithSource(false, c, unsigned(length), c); break;
						}
					}, true);
					MC_CHECK(o.stopped && !o.seen.end, "stop", "a failure does not stop the program");
					MC_CHECK(has(o.output, "assertion failed"), "message", "output: %s", o.output.c_str());
					std::string want = kind == 1 || kind == 3 ? "<" + m + "|7>" : kind == 5 ? "<7>" : kind == 4 ? "text" : m;
					MC_CHECK(has(o.output, want), "message", "a message of %zu characters is not reported as given (%zu characters of output)", m.size(), o.output.size());
					if (kind >= 2) { std::string where = (kind >= 4 ? m : std::string("some_file.cpp")) + ":" + (kind == 6 ? std::to_string(length) : "1234"); MC_CHECK(has(o.output, where), "message", "the place of the failure (%zu characters) is not reported as given", where.size()); }
				}
	}
	// every argument of a formatted message reaches it with its own value
	void arguments()
	{
		mc::pointName("kind, value");
		setup();
		static const unsigned lines[] = { 0, 1, 9, 255, 256, 32767, 32768, 65535, 65536, 99999, 1000000, 2147483647u };
		for (unsigned line : lines)
		{
			mc::point(0, line);
			Outcome o = run([&] { Nz::AssertFailureWithSource("f.cpp", line, "text"); }, true);
			MC_CHECK(o.stopped && has(o.output, "f.cpp:" + std::to_string(line) + "\n"), "message", "line %u: output %s", line, o.output.c_str());
			o = run([&] { Nz::AssertFailureWithSource("f.cpp", line, "text %u", line); }, true);
			MC_CHECK(o.stopped && has(o.output, "f.cpp:" + std::to_string(line)) && has(o.output, "text " + std::to_string(line)), "message", "line %u: output %s", line, o.output.c_str());
		}
		for (int i = 0; i < 64; ++i)
			for (int d = -1; d <= 1; ++d)
			{
				const mc::u64 value = (mc::u64(1) << i) + mc::u64(mc::i64(d));
				mc::point(1, value);
				char want[400];
				std::snprintf(want, sizeof(want), "[%lld %llu %d %u %hd %hhu %x %c %g %s %zu]", static_cast<long long>(value), static_cast<unsigned long long>(value), int(value), unsigned(value), short(value), static_cast<unsigned char>(value), unsigned(value), char('A' + i % 26), double(value) / 3.0, i & 1 ? "odd" : "", std::size_t(value));
				for (unsigned kind = 0; kind < 3; ++kind)
				{
					Outcome o = run([&]
					{
						const char* f = "[%lld %llu %d %u %hd %hhu %x %c %g %s %zu]";
#define ALL_ARGUMENTS static_cast<long long>(value), static_cast<unsigned long long>(value), int(value), unsigned(value), short(value), static_cast<unsigned char>(value), unsigned(value), char('A' + i % 26), double(value) / 3.0, i & 1 ? "odd" : "", std::size_t(value)
						switch (kind)
						{
							case 0: Nz::Assert(false, f, ALL_ARGUMENTS); break;
							case 1: Nz::AssertWithSource(false, "f.cpp", 3u, f, ALL_ARGUMENTS); break;
							case 2: NazaraAssertMsg(condition(0), "[%lld %llu %d %u %hd %hhu %x %c %g %s %zu]", ALL_ARGUMENTS); break;
						}
					}, true);
					if (kind == 2 && !ENABLED) MC_CHECK(o.cleanExit && o.output.empty(), "spurious", "a disabled assertion has an effect");
					else MC_CHECK(o.stopped && has(o.output, want), "message", "expected %s in %s", want, o.output.c_str());
				}
			}
		// the text of a condition is not a format
		for (unsigned which = 0; which < 4; ++which)
		{
			mc::point(2, which);
			Outcome o = run([&]
			{
				int v = argument(3);
				switch (which)
				{
					case 0: NazaraAssert(v % 2 == 0); break;
					case 1: NazaraAssert(v %1 != 0); break;
					case 2: NazaraAssert(std::strcmp(text("%s%n%d"), "other") == 0); break;
					case 3: NazaraAssert((std::array<int, 2> { { v, 4 } }[0] == 4)); break;
				}
			}, true);
			if (!ENABLED) { MC_CHECK(o.cleanExit && o.output.empty(), "spurious", "a disabled assertion has an effect"); continue; }
			const char* want[] = { "v % 2 == 0", "v %1 != 0", "\"%s%n%d\"", "{ v, 4 }" };
			MC_CHECK(o.stopped && has(o.output, want[which]), "message", "expected %s in %s", want[which], o.output.c_str());
		}
	}

	// constant expressions: an assertion that holds is allowed, one that fails makes the expression invalid
	constexpr int macro(int v) { NazaraAssert(v > 0); return v; }
	constexpr int macroMsg(int v) { NazaraAssertMsg(v > 0, "v is %d", v); return v; }
	NAZARA_CONSTEXPR20 int function(int v) { Nz::Assert(v > 0); return v; }
	NAZARA_CONSTEXPR20 int functionMsg(int v) { Nz::Assert(v > 0, "v is %d", v); return v; }
	NAZARA_CONSTEXPR20 int functionSource(int v) { Nz::AssertWithSource(v > 0, "file", 1, "v is %d", v); return v; }
#define CONSTANT(f) \
	template<int V> struct Constant_##f { template<int W, int = f(W)> static constexpr bool test(int) { return true; } template<int> static constexpr bool test(...) { return false; } static constexpr bool value = test<V>(0); };
	CONSTANT(macro) CONSTANT(macroMsg) CONSTANT(function) CONSTANT(functionMsg) CONSTANT(functionSource)
	void constants()
	{
		mc::pointName("value");
#define VALUE(v) \
		mc::point(mc::u64(mc::i64(v))); \
		MC_CHECK(Constant_macro<v>::value == (!ENABLED || v > 0) && Constant_macroMsg<v>::value == (!ENABLED || v > 0), "constant", "macro in a constant expression"); \
		MC_CHECK(Constant_function<v>::value == (v > 0) && Constant_functionMsg<v>::value == (v > 0) && Constant_functionSource<v>::value == (v > 0), "constant", "function in a constant expression");
		VALUE(-2) VALUE(-1) VALUE(0) VALUE(1) VALUE(2) VALUE(3)
	}
}

MC_SUITE(assert_matrix) { matrix(); }
MC_SUITE(assert_messages) { messages(); }
MC_SUITE(assert_arguments) { arguments(); }
MC_SUITE(assert_failures) { failures(); }
MC_SUITE(assert_constants) { constants(); }
