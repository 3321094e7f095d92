// C34: every header of the library can be used on its own, in any order and combination, any number of times and in any number
// of translation units, with every compiler and language version the library supports, under every build option it documents;
// and the macros with which it describes the compilation (compiler, language, platform, architecture, byte order) are right.
//
// The executions enumerated here are compilations: the headers are those found in the tree when the check runs.
#define MC_NO_HEAP
#include "compile.hpp"
#include <algorithm>
#include <dirent.h>
#include <fcntl.h>
#include <map>
#include <set>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <sstream>

namespace
{
	const Args& headers()
	{
		static const Args names = []
		{
			Args found;
			DIR* dir = opendir(MC_REPO "/include/NazaraUtils");
			if (!dir) std::abort();
			while (dirent* e = readdir(dir))
			{
				const Text name = e->d_name;
				if (name.size() > 4 && name.compare(name.size() - 4, 4, ".hpp") == 0) found.push_back(name.substr(0, name.size() - 4));
			}
			closedir(dir);
			std::sort(found.begin(), found.end());
			return found;
		}();
		return names;
	}

	Text snippet(const Text& header)
	{
		std::ifstream file(Text(MC_DIR "/harness/headers/") + header + ".inc");
		std::ostringstream text; text << file.rdbuf();
		return text.str();
	}

	Text include(const Text& header) { return "#include <NazaraUtils/" + header + ".hpp>\n"; }
	// what the uses themselves need
	const char usesNeed[] = "#include <cstddef>\n#include <functional>\n#include <memory>\n#include <string>\n#include <string_view>\n#include <utility>\n";


	Args command(const Compiler& c, const Args& more = {})
	{
		Args args{ c.name, c.standard, "-w", "-I" MC_REPO "/include" };
		args.insert(args.end(), more.begin(), more.end());
		return args;
	}

	void compiles(const Compiler& c, const Text& source, const Text& what, const Args& options = {})
	{
		Args args = command(c, options);
		for (const char* a : { "-fsyntax-only", "-x", "c++", "-" }) args.push_back(a);
		const Outcome o = run(args, source);
		MC_CHECK(o.status == 0, "does-not-compile", "%s, %s %s: %s", what.c_str(), c.name, c.standard, firstErrors(o.err).c_str());
	}

	// what a user may have in their own program next to the headers: nothing leaks in the global namespace
	const char names[] = R"(
		struct vector {}; struct string {}; struct unique_ptr {}; struct array {}; struct function {}; struct pair {}; struct optional {}; struct variant {}; struct path {}; struct hash {};
		vector user_1; string user_2; unique_ptr user_3; array user_4; function user_5; pair user_6; optional user_7; variant user_8; path user_9; hash user_10;
		struct Bitset {}; struct Flags {}; struct Signal {}; struct Result {}; struct FixedVector {}; struct HybridVector {}; struct MemoryPool {}; struct EnumArray {}; struct FunctionRef {}; struct TypeTag {}; struct Ok {}; struct Err {}; struct UInt8 {};
		Bitset user_11; Flags user_12; Signal user_13; Result user_14; FixedVector user_15; HybridVector user_16; MemoryPool user_17; EnumArray user_18; FunctionRef user_19; TypeTag user_20; Ok user_21; Err user_22; UInt8 user_23;
		int Clamp, Align, Lerp, Mod, ByteSwap, SwapBytes, HashCombine, CRC32, SafeCast, BitCast, CountOf, Assert, AssertFailure, Endianness, Detail, Pi;
	)";

	void alone(const Compiler& c)
	{
		mc::forAll([&](mc::Exec& x)
		{
			const Text header = headers()[x.choose(headers().size())];
			const Text use = snippet(header);
			const bool again = !mc::thorough() || x.flip();
			compiles(c, include(header) + (again ? include(header) : "") + names + usesNeed + use + (again ? include(header) : ""), header + ".hpp alone");
			x.step();
			mc::outcome(mc::u64(x.taken.size() > 1 ? x.taken[0] * 64u + x.taken[1] : x.taken[0]));
		});
	}

	Text program(const Args& order, bool uses, const Text& suffix)
	{
		Text text;
		for (const Text& h : order) text += include(h);
		for (const Text& h : order) text += include(h);
		text += usesNeed;
		if (!uses) return text;
		Text body;
		for (const Text& h : order)
		{
			const Text use = snippet(h);
			if (use.empty()) continue;
			text += use;
			body += "\tif (use_" + h + "() != 0) return " + std::to_string(1 + (&h - order.data())) + ";\n";
		}
		return text + "int all_" + suffix + "()\n{\n" + body + "\treturn 0;\n}\n";
	}

	void orders(const Compiler& c, bool reversed, std::size_t shard, std::size_t shards)
	{
		mc::forAll([&](mc::Exec& x)
		{
			const std::size_t n = headers().size();
			const std::size_t first = x.choose((n + shards - 1) / shards) * shards + shard;
			if (first >= n) return;
			Args order = headers();
			if (reversed) std::reverse(order.begin(), order.end());
			std::rotate(order.begin(), order.begin() + std::ptrdiff_t(first), order.end());
			compiles(c, program(order, first == shard, "x"), "all headers starting with " + order[0] + ".hpp then " + order[1] + ".hpp");
			mc::outcome(first);
		});
	}

	void pairs(const Compiler& c, std::size_t shard, std::size_t shards)
	{
		mc::forAll([&](mc::Exec& x)
		{
			const std::size_t n = headers().size();
			const std::size_t a = x.choose((n + shards - 1) / shards) * shards + shard;
			if (a >= n) return;
			const std::size_t b = x.choose(n);
			if (a == b) return;
			compiles(c, include(headers()[a]) + include(headers()[b]) + names + usesNeed + snippet(headers()[a]) + snippet(headers()[b]), headers()[a] + ".hpp then " + headers()[b] + ".hpp");
			mc::outcome(a * n + b);
		});
	}

	// ---- programs of several translation units
	struct Directory
	{
		Text path;
		Directory() { char name[] = "/tmp/nzheadersXXXXXX"; if (!mkdtemp(name)) std::abort(); path = name; }
		~Directory() { for (const Text& f : files) unlink((path + "/" + f).c_str()); rmdir(path.c_str()); }
		std::set<Text> files;
		Text add(const Text& name) { files.insert(name); return path + "/" + name; }
	};

	void linked(const Compiler& c, const Args& options, const Text& what)
	{
		Text failure;
		{
			Directory dir;
			Args objects;
			Args forward = headers(), backward = forward;
			std::reverse(backward.begin(), backward.end());
			for (int unit = 0; unit < 3 && failure.empty(); ++unit)
			{
				const Text source = unit == 2 ? "int all_a(); int all_b();\nint main() { const int a = all_a(); return a != 0 ? a : all_b(); }\n" : program(unit == 0 ? forward : backward, true, unit == 0 ? "a" : "b");
				const Text object = dir.add("unit" + std::to_string(unit) + ".o");
				Args args = command(c, options);
				for (const Text& a : Args{ "-O0", "-c", "-o", object, "-x", "c++", "-" }) args.push_back(a);
				const Outcome o = run(args, source);
				if (o.status != 0) failure = "does not compile: " + firstErrors(o.err);
				objects.push_back(object);
			}
			const Text binary = dir.add("program");
			if (failure.empty())
			{
				Args args{ c.name, "-o", binary };
				args.insert(args.end(), objects.begin(), objects.end());
				const Outcome o = run(args, "");
				if (o.status != 0) failure = "does not link: " + firstErrors(o.err);
			}
			if (failure.empty())
			{
				const Outcome o = run({ binary }, "");
				if (o.status != 0) failure = "the uses of the headers fail: status " + std::to_string(o.status) + (o.status < 1000 ? " (header " + headers()[std::size_t(o.status - 1) % headers().size()] + " from the front or the back)" : "") + " " + o.err.substr(0, 200);
			}
		}
		MC_CHECK(failure.empty(), "program", "two translation units with all headers, %s, %s %s: %s", what.c_str(), c.name, c.standard, failure.c_str());
	}

	const char* const options[] = { "-DNDEBUG", "-DNAZARA_DEBUG", "-DNAZARA_ENABLE_ASSERTS", "-DNAZARA_NO_ASSERT", "-DNAZARA_NO_LIKELY_ATTRIBUTE", "-DNAZARA_NO_ASSUME_ATTRIBUTE", "-DNAZARA_NO_FORCEINLINE_ATTRIBUTE", "-DNAZARA_NO_ARCH_DETECTION", "-DNAZARA_LITTLE_ENDIAN", "-DNAZARA_UNITY_ID=Unity" };
	constexpr std::size_t optionCount = sizeof(options) / sizeof(options[0]);

	void optionSets(std::size_t shard, std::size_t shards)
	{
		// quick: every pair of options
		std::vector<std::size_t> masks; std::size_t rank = 0;
		for (std::size_t mask = 0; mask < std::size_t(1) << optionCount; ++mask)
			if ((mc::thorough() || __builtin_popcountll(mask) == 2) && rank++ % shards == shard) masks.push_back(mask);
		mc::forAll([&](mc::Exec& x)
		{
			const std::size_t mask = masks[x.choose(masks.size())];
			const Compiler& c = compilers[mc::thorough() ? (x.flip() ? 1 : 3) : (__builtin_popcountll(mask) % 2 ? 1 : 3)];
			Args set; Text what;
			for (std::size_t i = 0; i < optionCount; ++i)
				if (mask >> i & 1) { set.push_back(options[i]); what += Text(options[i]) + " "; }
			compiles(c, program(headers(), true, "x"), "all headers with " + what, set);
			mc::outcome(mask);
		});
	}

	// ---- macros
	std::map<Text, Text> macros(const Args& args, const Text& source, Text& failure)
	{
		Args all = args;
		for (const char* a : { "-w", "-dM", "-E", "-x", "c++", "-" }) all.push_back(a);
		const Outcome o = run(all, source);
		std::map<Text, Text> result;
		if (o.status != 0) { failure = firstErrors(o.err); return result; }
		std::istringstream lines(o.out); Text line;
		while (std::getline(lines, line))
		{
			if (line.compare(0, 8, "#define ") != 0) continue;
			const std::size_t end = line.find_first_of(" (", 8);
			result[line.substr(8, end == Text::npos ? Text::npos : end - 8)] = end == Text::npos || line[end] == '(' ? "" : line.substr(end + 1);
		}
		return result;
	}

	bool startsWith(const Text& text, const char* prefix) { return text.rfind(prefix, 0) == 0; }

	struct Target { const char* triple; const char* arch; const char* platform; bool big; std::vector<const char*> more; };

	// the platform macros of every platform
	const std::map<Text, std::set<Text>> platforms = {
		{ "linux", { "NAZARA_PLATFORM_DESKTOP", "NAZARA_PLATFORM_LINUX", "NAZARA_PLATFORM_POSIX" } },
		{ "android", { "NAZARA_PLATFORM_MOBILE", "NAZARA_PLATFORM_ANDROID", "NAZARA_PLATFORM_POSIX", "NAZARA_PLATFORM_ANDROID_NDK_VER" } },
		{ "windows", { "NAZARA_PLATFORM_DESKTOP", "NAZARA_PLATFORM_WINDOWS" } },
		{ "freebsd", { "NAZARA_PLATFORM_BSD", "NAZARA_PLATFORM_FREEBSD", "NAZARA_PLATFORM_POSIX" } },
		{ "macos", { "NAZARA_PLATFORM_DESKTOP", "NAZARA_PLATFORM_MACOS", "NAZARA_PLATFORM_BSD", "NAZARA_PLATFORM_POSIX" } },
		{ "ios", { "NAZARA_PLATFORM_MOBILE", "NAZARA_PLATFORM_IOS", "NAZARA_PLATFORM_BSD", "NAZARA_PLATFORM_POSIX" } },
		{ "web", { "NAZARA_PLATFORM_WEB", "NAZARA_PLATFORM_POSIX" } },
	};

	const std::vector<Target> targets = {
		{ "x86_64-unknown-linux-gnu", "x86_64", "linux", false, {} },
		{ "i686-unknown-linux-gnu", "x86", "linux", false, {} },
		{ "i386-unknown-linux-gnu", "x86", "linux", false, {} },
		{ "x86_64-unknown-linux-gnux32", "x86_64", "linux", false, {} },
		{ "x86_64-unknown-linux-musl", "x86_64", "linux", false, {} },
		{ "aarch64-unknown-linux-gnu", "aarch64", "linux", false, {} },
		{ "aarch64_be-unknown-linux-gnu", "aarch64", "linux", true, {} },
		{ "armv7-unknown-linux-gnueabihf", "arm", "linux", false, {} },
		{ "thumbv7-unknown-linux-gnueabihf", "arm", "linux", false, {} },
		{ "armv6-unknown-linux-gnueabi", "arm", "linux", false, {} },
		{ "armebv7-unknown-linux-gnueabihf", "arm", "linux", true, {} },
		{ "thumbebv7-unknown-linux-gnueabihf", "arm", "linux", true, {} },
		{ "aarch64-linux-android21", "aarch64", "android", false, {} },
		{ "armv7-linux-androideabi21", "arm", "android", false, {} },
		{ "i686-linux-android21", "x86", "android", false, {} },
		{ "x86_64-linux-android21", "x86_64", "android", false, {} },
		{ "x86_64-pc-windows-msvc", "x86_64", "windows", false, {} },
		{ "i686-pc-windows-msvc", "x86", "windows", false, {} },
		{ "aarch64-pc-windows-msvc", "aarch64", "windows", false, {} },
		{ "x86_64-w64-windows-gnu", "x86_64", "windows", false, {} },
		{ "i686-w64-windows-gnu", "x86", "windows", false, {} },
		{ "aarch64-w64-windows-gnu", "aarch64", "windows", false, {} },
		{ "x86_64-apple-macosx12", "x86_64", "macos", false, {} },
		{ "arm64-apple-macosx12", "aarch64", "macos", false, {} },
		{ "arm64-apple-ios15", "aarch64", "ios", false, { "-DMC_IPHONE=1" } },
		{ "x86_64-apple-ios15-simulator", "x86_64", "ios", false, { "-DMC_IPHONE=1" } },
		{ "x86_64-unknown-freebsd13", "x86_64", "freebsd", false, {} },
		{ "aarch64-unknown-freebsd13", "aarch64", "freebsd", false, {} },
		{ "i386-unknown-freebsd13", "x86", "freebsd", false, {} },
		{ "wasm32-unknown-emscripten", "wasm32", "web", false, {} },
		{ "wasm64-unknown-emscripten", "wasm64", "web", false, {} },
	};
}

MC_SUITE(alone_gcc17) { alone(compilers[0]); }
MC_SUITE(alone_gcc20) { alone(compilers[1]); }
MC_SUITE(alone_gcc23) { alone(compilers[2]); }
MC_SUITE(alone_clang17) { alone(compilers[3]); }
MC_SUITE(alone_clang20) { alone(compilers[4]); }
MC_SUITE(alone_clang23) { alone(compilers[5]); }

MC_SUITE(orders_gcc17_0) { orders(compilers[0], false, 0, 2); }
MC_SUITE(orders_gcc17_1) { orders(compilers[0], false, 1, 2); }
MC_SUITE(orders_gcc20_reversed_0) { orders(compilers[1], true, 0, 2); }
MC_SUITE(orders_gcc20_reversed_1) { orders(compilers[1], true, 1, 2); }
MC_SUITE(orders_clang17_reversed_0) { orders(compilers[3], true, 0, 2); }
MC_SUITE(orders_clang17_reversed_1) { orders(compilers[3], true, 1, 2); }
MC_SUITE(pairs_0) { if (mc::thorough()) { pairs(compilers[0], 0, 4); pairs(compilers[4], 0, 4); } else mc::outcome(0); }
MC_SUITE(pairs_1) { if (mc::thorough()) { pairs(compilers[0], 1, 4); pairs(compilers[4], 1, 4); } else mc::outcome(0); }
MC_SUITE(pairs_2) { if (mc::thorough()) { pairs(compilers[0], 2, 4); pairs(compilers[4], 2, 4); } else mc::outcome(0); }
MC_SUITE(pairs_3) { if (mc::thorough()) { pairs(compilers[0], 3, 4); pairs(compilers[4], 3, 4); } else mc::outcome(0); }

MC_SUITE(programs) { mc::forAll([](mc::Exec& x) { linked(x.of(compilers), {}, "no option"); mc::outcome(x.taken[0]); }); }
MC_SUITE(programs_options_gcc) { mc::forAll([](mc::Exec& x) { const char* option = x.of(options); linked(compilers[1], { option }, option); mc::outcome(x.taken[0]); }); }
MC_SUITE(programs_options_clang) { mc::forAll([](mc::Exec& x) { const char* option = x.of(options); linked(compilers[3], { option }, option); mc::outcome(x.taken[0]); }); }
MC_SUITE(option_sets_0) { optionSets(0, 4); }
MC_SUITE(option_sets_1) { optionSets(1, 4); }
MC_SUITE(option_sets_2) { optionSets(2, 4); }
MC_SUITE(option_sets_3) { optionSets(3, 4); }

MC_SUITE(macro_names)
{
	// the only macros the headers leave behind carry the library's name
	mc::forAll([](mc::Exec& x)
	{
		const Compiler& c = x.of(compilers);
		Args all = command(c);
		for (const char* a : { "-dD", "-E", "-x", "c++", "-" }) all.push_back(a);
		const Outcome o = run(all, program(headers(), false, "x"));
		MC_CHECK(o.status == 0, "does-not-compile", "%s %s: %s", c.name, c.standard, firstErrors(o.err).c_str());
		std::istringstream lines(o.out); Text line; bool ours = false; std::set<Text> foreign; std::size_t count = 0;
		while (std::getline(lines, line))
		{
			if (startsWith(line, "# ")) ours = line.find("include/NazaraUtils/") != Text::npos;
			else if (startsWith(line, "#define ") && ours)
			{
				const Text name = line.substr(8, line.find_first_of(" (", 8) - 8);
				++count;
				if (!startsWith(name, "NAZARA") && !startsWith(name, "Nazara")) foreign.insert(name);
			}
			else if (startsWith(line, "#undef ")) foreign.erase(line.substr(7));
		}
		MC_CHECK(foreign.empty(), "macro-name", "the headers define the macro %s", foreign.empty() ? "" : foreign.begin()->c_str());
		MC_CHECK(count > 20, "harness", "only %zu macros of the library seen", count);
		mc::outcome(count);
	});
}

MC_SUITE(environment_native)
{
	mc::forAll([](mc::Exec& x)
	{
		const Compiler& c = x.of(compilers);
		const bool clang = c.name[0] == 'c';
		const long version = Text(c.standard) == "-std=c++17" ? 17 : Text(c.standard) == "-std=c++20" ? 20 : 23;
		Text source = include("Prerequisites") + include("Endianness") + include("Concepts") + include("ConstantEvaluated") + R"(
			#include <type_traits>
			static_assert(std::is_same_v<Nz::Int8, std::int8_t> && std::is_same_v<Nz::UInt8, std::uint8_t> && std::is_same_v<Nz::Int16, std::int16_t> && std::is_same_v<Nz::UInt16, std::uint16_t>);
			static_assert(std::is_same_v<Nz::Int32, std::int32_t> && std::is_same_v<Nz::UInt32, std::uint32_t> && std::is_same_v<Nz::Int64, std::int64_t> && std::is_same_v<Nz::UInt64, std::uint64_t>);
			#if !NAZARA_CHECK_CPP_VER(NAZARA_CPP98) || !NAZARA_CHECK_CPP_VER(NAZARA_CPP11) || !NAZARA_CHECK_CPP_VER(NAZARA_CPP14) || !NAZARA_CHECK_CPP_VER(NAZARA_CPP17)
				#error C++17
			#endif
			#if NAZARA_CPP98 != 199711L || NAZARA_CPP11 != 201103L || NAZARA_CPP14 != 201402L || NAZARA_CPP17 != 201703L || NAZARA_CPP20 != 202002L || NAZARA_CPP23 != 202302L
				#error values of __cplusplus
			#endif
			#if !!NAZARA_CHECK_CPP_VER(NAZARA_CPP20) != (VERSION >= 20)
				#error C++20
			#endif
			#if defined(NAZARA_HAS_CONCEPTS) != (VERSION >= 20) || defined(NAZARA_HAS_STD_CONCEPTS) != (VERSION >= 20)
				#error concepts
			#endif
			#if NAZARA_CHECK_MSVC_VER(1) || NAZARA_CHECK_ICC_VER(1) || NAZARA_CHECK_NDK_VER(1)
				#error other compilers
			#endif
			#ifdef CLANG
				#if !NAZARA_CHECK_CLANG_VER(__clang_major__ * 100 + __clang_minor__) || NAZARA_CHECK_CLANG_VER(__clang_major__ * 100 + __clang_minor__ + 1) || NAZARA_CHECK_GCC_VER(1) || !NAZARA_CHECK_CLANG_VER(600)
					#error version of clang
				#endif
			#else
				#if !NAZARA_CHECK_GCC_VER(__GNUC__ * 100 + __GNUC_MINOR__) || NAZARA_CHECK_GCC_VER(__GNUC__ * 100 + __GNUC_MINOR__ + 1) || NAZARA_CHECK_CLANG_VER(1) || !NAZARA_CHECK_GCC_VER(801)
					#error version of gcc
				#endif
			#endif
			static_assert(Nz::PlatformEndianness == Nz::Endianness::LittleEndian);
			static_assert(static_cast<int>(Nz::Endianness::Unknown) == -1 && Nz::Endianness::Max == Nz::Endianness::LittleEndian);
		)";
		Args defs{ "-DVERSION=" + std::to_string(version) };
		if (clang) defs.push_back("-DCLANG");
		compiles(c, source, "the description of the compilation", defs);
		Text failure;
		const auto m = macros(command(c), include("Prerequisites") + include("Endianness"), failure);
		MC_CHECK(failure.empty(), "does-not-compile", "%s", failure.c_str());
		std::set<Text> compiler;
		for (auto&& [name, value] : m) if (startsWith(name, "NAZARA_COMPILER_") && name.find("_VER") == Text::npos) compiler.insert(name);
		MC_CHECK(compiler == std::set<Text>{ clang ? "NAZARA_COMPILER_CLANG" : "NAZARA_COMPILER_GCC" }, "compiler", "%zu compilers, %s", compiler.size(), compiler.empty() ? "none" : compiler.begin()->c_str());
		mc::outcome(mc::u64(x.taken.size() > 1 ? x.taken[0] * 64u + x.taken[1] : x.taken[0]));
	});
}

MC_SUITE(environment_targets)
{
	mc::forAll([](mc::Exec& x)
	{
		const Target& t = targets[x.choose(targets.size())];
		const char* standard = x.flip() ? "-std=c++20" : "-std=c++17";
		const bool build = x.flip();
		Args args{ "clang++", Text("--target=") + t.triple, standard, "-I" MC_REPO "/include", "-nostdinc", "-nostdinc++", "-I" MC_DIR "/harness/headers/platform" };
		if (build) args.push_back("-DNAZARA_BUILD");
		if (Text(t.platform) == "linux" || Text(t.platform) == "android") args.push_back("-I" MC_DIR "/harness/headers/linux");
		if (Text(t.platform) == "android") args.push_back("-I" MC_DIR "/harness/headers/android");
		for (const char* m : t.more) args.push_back(m);
		// only the preprocessor runs: the standard headers are empty stand-ins
		Text failure;
		const auto m = macros(args, include("Prerequisites") + include("Endianness"), failure);
		MC_CHECK(failure.empty(), "does-not-compile", "%s: %s", t.triple, failure.c_str());
		std::set<Text> arch, platform, order, compiler;
		for (auto&& [name, value] : m)
		{
			if (startsWith(name, "NAZARA_ARCH_")) arch.insert(name);
			if (startsWith(name, "NAZARA_PLATFORM_")) platform.insert(name);
			if (name == "NAZARA_BIG_ENDIAN" || name == "NAZARA_LITTLE_ENDIAN") order.insert(name);
			if (startsWith(name, "NAZARA_COMPILER_") && name.find("_VER") == Text::npos && name.find("_MINGW_") == Text::npos) compiler.insert(name);
		}
		auto join = [](const std::set<Text>& s) { Text r; for (const Text& v : s) r += v + " "; return r; };
		MC_CHECK(arch == std::set<Text>{ Text("NAZARA_ARCH_") + t.arch }, "arch", "%s: %s", t.triple, join(arch).c_str());
		MC_CHECK(platform == platforms.at(t.platform), "platform", "%s: %s", t.triple, join(platform).c_str());
		MC_CHECK(order == std::set<Text>{ t.big ? "NAZARA_BIG_ENDIAN" : "NAZARA_LITTLE_ENDIAN" }, "endianness", "%s: %s", t.triple, join(order).c_str());
		const bool mingw = Text(t.triple).find("windows-gnu") != Text::npos;
		MC_CHECK(compiler == (mingw ? std::set<Text>{ "NAZARA_COMPILER_CLANG", "NAZARA_COMPILER_MINGW" } : std::set<Text>{ "NAZARA_COMPILER_CLANG" }), "compiler", "%s: %s", t.triple, join(compiler).c_str());
		MC_CHECK(m.count("NAZARA_EXPORT") && m.count("NAZARA_IMPORT"), "export", "%s: NAZARA_EXPORT and NAZARA_IMPORT are not defined", t.triple);
		const Text exported = m.at("NAZARA_EXPORT"), imported = m.at("NAZARA_IMPORT");
		const bool windows = Text(t.platform) == "windows";
		MC_CHECK(exported == (windows ? "__declspec(dllexport)" : "__attribute__((visibility(\"default\")))"), "export", "%s: %s", t.triple, exported.c_str());
		MC_CHECK(imported == (windows ? "__declspec(dllimport)" : "__attribute__((visibility(\"default\")))"), "export", "%s: %s", t.triple, imported.c_str());
		if (windows && build)
			MC_CHECK(m.count("NOMINMAX") && m.count("WIN32_LEAN_AND_MEAN"), "windows", "%s: building on Windows without NOMINMAX or WIN32_LEAN_AND_MEAN", t.triple);
		mc::outcome(mc::u64(x.taken.size() > 1 ? x.taken[0] * 64u + x.taken[1] : x.taken[0]));
	});
}
