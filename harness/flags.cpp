// C17 Flags: sets of enumerators, against a set of indices
#include <NazaraUtils/Flags.hpp>
#include "mc.hpp"
#include <algorithm>
#include <iterator>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <vector>

// enumerations of N values (with explicit max specialization, Count or Max member, ADL activation; indices or already flags)
template<unsigned N> struct Idx { enum class E : unsigned char { First = 0 }; };
template<typename T> struct IsIdx : std::false_type {};
#define ENUM_AS_FLAGS(N) \
	enum class E##N : unsigned char {}; \
	template<> struct Nz::EnumAsFlags<E##N> { static constexpr E##N max = static_cast<E##N>(N - 1); };
ENUM_AS_FLAGS(1) ENUM_AS_FLAGS(2) ENUM_AS_FLAGS(3) ENUM_AS_FLAGS(5) ENUM_AS_FLAGS(7) ENUM_AS_FLAGS(8) ENUM_AS_FLAGS(9) ENUM_AS_FLAGS(10) ENUM_AS_FLAGS(15) ENUM_AS_FLAGS(16) ENUM_AS_FLAGS(17)
ENUM_AS_FLAGS(31) ENUM_AS_FLAGS(32) ENUM_AS_FLAGS(33) ENUM_AS_FLAGS(40) ENUM_AS_FLAGS(63) ENUM_AS_FLAGS(64)

namespace adl
{
#define ADL_COUNT(N) enum class C##N : int { Count = N }; constexpr bool EnableEnumAsNzFlags(C##N) { return true; }
	ADL_COUNT(1) ADL_COUNT(4) ADL_COUNT(8) ADL_COUNT(9) ADL_COUNT(16) ADL_COUNT(17) ADL_COUNT(32) ADL_COUNT(33) ADL_COUNT(64)
#define ADL_MAX(N) enum class M##N : long long { Max = N - 1 }; constexpr bool EnableEnumAsNzFlags(M##N) { return true; }
	ADL_MAX(1) ADL_MAX(6) ADL_MAX(8) ADL_MAX(9) ADL_MAX(17) ADL_MAX(33) ADL_MAX(64)
	enum class AutoYes { A, B, C, Max = C, AutoFlag = true }; constexpr bool EnableEnumAsNzFlags(AutoYes) { return true; }
	enum Plain { PA, PB, PC, PD, PE, Max = PE }; constexpr bool EnableEnumAsNzFlags(Plain) { return true; }
	// values which are flags
#define VALUE_FLAGS(N) enum class V##N : unsigned long long { Max = 1ull << (N - 1) }; constexpr bool EnableEnumAsNzFlags(V##N) { return true; } constexpr bool EnableAutoFlagForNzFlags(V##N) { return false; }
	VALUE_FLAGS(1) VALUE_FLAGS(3) VALUE_FLAGS(6) VALUE_FLAGS(8) VALUE_FLAGS(9) VALUE_FLAGS(16) VALUE_FLAGS(17) VALUE_FLAGS(32) VALUE_FLAGS(33) VALUE_FLAGS(64)
	enum class W3 { A = 1, B = 2, C = 4, Count, AutoFlag = false }; constexpr bool EnableEnumAsNzFlags(W3) { return true; }
	enum class W5 : short { A = 1, B = 2, C = 4, D = 8, E = 16, AutoFlag = false };
}
template<> struct Nz::EnumAsFlags<adl::W5> { static constexpr adl::W5 max = adl::W5::E; };

namespace
{
	using mc::u64;
	using Set = std::set<unsigned>;

	template<typename E, unsigned N, bool Auto> struct Checker
	{
		using F = Nz::Flags<E>;
		using B = typename F::BitField;
		static E value(unsigned i) { return Auto ? static_cast<E>(i) : static_cast<E>(u64(1) << i); }
		static u64 mask() { return N == 64 ? ~u64(0) : (u64(1) << N) - 1; }
		static u64 bits(const Set& s) { u64 b = 0; for (unsigned i : s) b |= u64(1) << i; return b; }
		static F make(const Set& s) { F f; for (unsigned i : s) f |= value(i); return f; }

		static void same(const F& f, const Set& s, const char* what)
		{
			MC_CHECK(u64(static_cast<B>(f)) == bits(s), what, "%s: the flags are 0x%llx, expected 0x%llx (%u values)", what, (unsigned long long)static_cast<B>(f), (unsigned long long)bits(s), N);
			MC_CHECK(static_cast<Nz::UInt64>(f) == bits(s), "to-integer", "%s: 64 bits value of the flags", what);
			MC_CHECK(f.Count() == s.size() && f.size() == s.size(), "count", "%s: Count of 0x%llx is %zu", what, (unsigned long long)bits(s), f.Count());
			MC_CHECK(static_cast<bool>(f) == !s.empty(), "bool", "%s: boolean value of 0x%llx", what, (unsigned long long)bits(s));
			auto it = s.begin();
			unsigned n = 0;
			for (E e : f)
			{
				MC_CHECK(it != s.end() && e == value(*it), "iteration", "%s: enumerator %u of 0x%llx is %lld", what, n, (unsigned long long)bits(s), (long long)e);
				++it; ++n;
				MC_CHECK(n <= N, "iteration", "%s: iteration of 0x%llx does not end", what, (unsigned long long)bits(s));
			}
			MC_CHECK(it == s.end(), "iteration", "%s: iteration of 0x%llx ends after %u enumerators", what, (unsigned long long)bits(s), n);
		}
		static void single(const Set& s)
		{
			F f = make(s);
			same(f, s, "made");
			same(F(B(bits(s))), s, "from-bits");
			for (unsigned i = 0; i < N; ++i) MC_CHECK(f.Test(value(i)) == (s.count(i) != 0), "test", "Test of value %u with 0x%llx", i, (unsigned long long)bits(s));
			Set neg; for (unsigned i = 0; i < N; ++i) if (!s.count(i)) neg.insert(i);
			same(~f, neg, "complement");
			same(~~f, s, "complement");
			F g = f; g.Clear(); same(g, {}, "clear");
			// iterators: copies are independent, post increment returns the previous position
			auto it = f.begin();
			for (unsigned i : s)
			{
				auto before = it;
				auto old = it++;
				MC_CHECK(*old == value(i) && *before == value(i) && old == before && old != it, "iterator", "post increment at value %u of 0x%llx", i, (unsigned long long)bits(s));
				++before;
				MC_CHECK(before == it, "iterator", "pre and post increment differ at value %u of 0x%llx", i, (unsigned long long)bits(s));
			}
			MC_CHECK(it == f.end(), "iterator", "iterating 0x%llx does not reach the end", (unsigned long long)bits(s));
			std::vector<E> values(f.begin(), f.end());
			MC_CHECK(values.size() == s.size() && std::size_t(std::distance(f.begin(), f.end())) == s.size(), "iterator", "range of 0x%llx", (unsigned long long)bits(s));
			std::unordered_map<F, int> map; map[f] = 1; map[~f] += 2;
			MC_CHECK(map.size() == 2 && map.at(f) == 1 && map.at(~f) == 2, "hash", "flags as a key of an unordered container (0x%llx)", (unsigned long long)bits(s));
			MC_CHECK(std::hash<F>{}(f) == std::hash<F>{}(F(B(bits(s)))), "hash", "equal flags with a different hash");
		}
		static void pair(const Set& a, const Set& b)
		{
			mc::point(bits(a), bits(b), N, Auto);
			const F f = make(a), g = make(b);
			Set u = a, i, x, d;
			u.insert(b.begin(), b.end());
			for (unsigned e : a) (b.count(e) ? i : d).insert(e);
			for (unsigned e : u) if (!i.count(e)) x.insert(e);
			same(f | g, u, "or"); same(f & g, i, "and"); same(f ^ g, x, "xor");
			{ F h = f; F& r = (h |= g); MC_CHECK(&r == &h, "compound", "|= result"); same(h, u, "or-assign"); }
			{ F h = f; F& r = (h &= g); MC_CHECK(&r == &h, "compound", "&= result"); same(h, i, "and-assign"); }
			{ F h = f; F& r = (h ^= g); MC_CHECK(&r == &h, "compound", "^= result"); same(h, x, "xor-assign"); }
			{ F h = f; h.Set(g); same(h, u, "set"); }
			{ F h = f; h.Clear(g); same(h, d, "clear-flags"); }
			MC_CHECK(f.Test(g) == (i.size() == b.size()), "test", "0x%llx.Test(0x%llx)", (unsigned long long)bits(a), (unsigned long long)bits(b));
			MC_CHECK((f == g) == (a == b) && (f != g) == (a != b), "equality", "0x%llx == 0x%llx", (unsigned long long)bits(a), (unsigned long long)bits(b));
			same(f, a, "operand"); same(g, b, "operand");
			if (b.size() == 1)
			{
				E e = value(*b.begin());
				MC_CHECK(u64(F::GetFlagValue(e)) == bits(b), "flag-value", "GetFlagValue of value %u is 0x%llx", *b.begin(), (unsigned long long)F::GetFlagValue(e));
				same(F(e), b, "from-enum");
				same(f | e, u, "or"); same(f & e, i, "and"); same(f ^ e, x, "xor");
				same(e | f, u, "or"); same(e & f, i, "and"); same(e ^ f, x, "xor");
				{ F h = f; h.Set(e); same(h, u, "set"); h.Clear(e); same(h, d, "clear-flags"); }
				{ F h = f; h |= e; same(h, u, "or-assign"); h ^= e; same(h, d, "xor-assign"); }
				Set neg; for (unsigned k = 0; k < N; ++k) if (!b.count(k)) neg.insert(k);
				same(~e, neg, "complement");
				if (a.size() == 1) { E l = value(*a.begin()); same(l | e, u, "or"); same(l & e, i, "and"); same(l ^ e, x, "xor"); }
			}
			mc::outcome(bits(u) * 31 + bits(x) * 7 + N);
		}
		static const std::vector<Set>& sets()
		{
			static std::vector<Set> out = []
			{
				std::vector<Set> v;
				if (N <= 5) for (unsigned m = 0; m < (1u << N); ++m) { Set s; for (unsigned i = 0; i < N; ++i) if (m >> i & 1) s.insert(i); v.push_back(s); }
				else
				{
					std::set<Set> all{ {} };
					Set full; for (unsigned i = 0; i < N; ++i) full.insert(i);
					all.insert(full);
					for (unsigned i = 0; i < N; ++i)
					{
						all.insert(Set{ i });
						Set s = full; s.erase(i); all.insert(s);
						Set low; for (unsigned k = 0; k <= i; ++k) low.insert(k);
						all.insert(low);
						for (unsigned j : { i + 1, i + 7, i + 31, i + 32, N - 1 }) if (j < N) all.insert(Set{ i, j });
					}
					v.assign(all.begin(), all.end());
				}
				return v;
			}();
			return out;
		}
		static void run()
		{
			mc::pointName("first set, second set, number of values, values are indices");
			for (const Set& s : sets()) { mc::point(bits(s), bits(s), N, Auto); single(s); }
			for (const Set& a : sets()) for (const Set& b : sets())
			{
				if (N > 17 && !mc::thorough() && a.size() > 2 && b.size() > 2 && (a.size() + b.size()) % 5) continue;
				pair(a, b);
			}
		}
		// histories of operations on one object
		struct Sys
		{
			F f; Set s;
			static constexpr unsigned Picks = N <= 4 ? N : 4;
			static unsigned pick(unsigned i) { return N <= 4 ? i : i == 0 ? 0 : i == 1 ? N / 2 : i == 2 ? N - 2 : N - 1; }
			unsigned ops() const { return Picks * 5 + 3; }
			void apply(unsigned op)
			{
				if (op < Picks * 5)
				{
					unsigned i = pick(op / 5);
					switch (op % 5)
					{
						case 0: f.Set(value(i)); s.insert(i); break;
						case 1: f.Clear(value(i)); s.erase(i); break;
						case 2: f ^= value(i); if (!s.erase(i)) s.insert(i); break;
						case 3: f &= value(i); s = s.count(i) ? Set{ i } : Set{}; break;
						case 4: f = f | value(i); s.insert(i); break;
					}
				}
				else if (op == Picks * 5) { f = ~f; Set n; for (unsigned i = 0; i < N; ++i) if (!s.count(i)) n.insert(i); s = n; }
				else if (op == Picks * 5 + 1) { f.Clear(); s.clear(); }
				else { F g(f); f = g; F h; h = f; f = h; }
				same(f, s, "history");
			}
			std::string key() const { return std::to_string(bits(s)); }
			void finish() {}
		};
	};
	template<typename E, unsigned N, bool Auto> void check() { Checker<E, N, Auto>::run(); }
}

#define SUITE(NAME, TYPE, N, AUTO) MC_SUITE(NAME) { check<TYPE, N, AUTO>(); } MC_SUITE(history_##NAME) { mc::bfs<Checker<TYPE, N, AUTO>::Sys>(64, 200000); }
#if MC_PART == 0
SUITE(e1, E1, 1, true) SUITE(e2, E2, 2, true) SUITE(e3, E3, 3, true) SUITE(e5, E5, 5, true) SUITE(e7, E7, 7, true) SUITE(e8, E8, 8, true) SUITE(e9, E9, 9, true) SUITE(e10, E10, 10, true) SUITE(e15, E15, 15, true) SUITE(e16, E16, 16, true)
#elif MC_PART == 1
SUITE(e17, E17, 17, true) SUITE(e31, E31, 31, true) SUITE(e32, E32, 32, true) SUITE(e33, E33, 33, true) SUITE(e40, E40, 40, true) SUITE(e63, E63, 63, true) SUITE(e64, E64, 64, true)
#elif MC_PART == 2
SUITE(c1, adl::C1, 1, true) SUITE(c4, adl::C4, 4, true) SUITE(c8, adl::C8, 8, true) SUITE(c9, adl::C9, 9, true) SUITE(c16, adl::C16, 16, true) SUITE(c17, adl::C17, 17, true) SUITE(c32, adl::C32, 32, true) SUITE(c33, adl::C33, 33, true) SUITE(c64, adl::C64, 64, true)
SUITE(m1, adl::M1, 1, true) SUITE(m6, adl::M6, 6, true) SUITE(m8, adl::M8, 8, true) SUITE(m9, adl::M9, 9, true) SUITE(m17, adl::M17, 17, true) SUITE(m33, adl::M33, 33, true) SUITE(m64, adl::M64, 64, true)
SUITE(auto_yes, adl::AutoYes, 3, true) SUITE(plain, adl::Plain, 5, true)
#else
SUITE(v1, adl::V1, 1, false) SUITE(v3, adl::V3, 3, false) SUITE(v6, adl::V6, 6, false) SUITE(v8, adl::V8, 8, false) SUITE(v9, adl::V9, 9, false) SUITE(v16, adl::V16, 16, false) SUITE(v17, adl::V17, 17, false) SUITE(v32, adl::V32, 32, false) SUITE(v33, adl::V33, 33, false) SUITE(v64, adl::V64, 64, false)
SUITE(w3, adl::W3, 3, false) SUITE(w5, adl::W5, 5, false)
#endif
