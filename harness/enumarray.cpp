// C18 EnumArray: a map from enumerator to value, and its key/value iteration, against std::map
#include <NazaraUtils/EnumArray.hpp>
#include "mc.hpp"
#include <algorithm>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace
{
	enum class C0 { Count };
	enum class C1 { A, Count };
	enum class C3 { A, B, C, Count };
	enum class M4 : unsigned char { A, B, C, D, Max = D };
	enum P5 { P5A, P5B, P5C, P5D, P5E, Count };
	enum class S2 : signed char { A, B, Count };
	enum class L6 : unsigned long long { A, B, C, D, E, F, Max = F };
	enum class Big : unsigned char { First, Max = 255 };
	enum class Wide : short { First, Count = 300 };

	template<typename V> struct Make { static V of(int i) { return V(i); } static int back(const V& v) { return int(v); } };
	template<> struct Make<std::string> { static std::string of(int i) { return std::string(20, 'x') + std::to_string(i); } static int back(const std::string& s) { return std::stoi(s.substr(20)); } };
	template<> struct Make<std::unique_ptr<int>> { static std::unique_ptr<int> of(int i) { return std::make_unique<int>(i); } static int back(const std::unique_ptr<int>& p) { return p ? *p : -1; } };

	template<typename E, unsigned N, typename V> struct Checker
	{
		using A = Nz::EnumArray<E, V>;
		using M = Make<V>;
		using Map = std::map<unsigned, int>;
		static E key(unsigned i) { return static_cast<E>(i); }

		template<typename It> static void entry(const A& a, const std::pair<E, It>& kv, unsigned i, const Map& m, const char* what)
		{
			MC_CHECK(kv.first == key(i), what, "%s: the key at position %u is %lld", what, i, (long long)kv.first);
			MC_CHECK(M::back(kv.second) == m.at(i), what, "%s: the value at key %u is %d, expected %d", what, i, M::back(kv.second), m.at(i));
			(void)a;
		}
		template<typename Arr, typename Iter> static void iterate(Arr& a, Iter&& range, const Map& m)
		{
			unsigned i = 0;
			for (auto&& kv : range)
			{
				MC_CHECK(i < N, "kv-order", "key/value iteration goes past the last enumerator");
				static_assert(std::is_reference_v<decltype(kv.second)>);
				MC_CHECK(kv.first == key(i), "kv-order", "key %u is %lld", i, (long long)kv.first);
				MC_CHECK(&kv.second == &a[key(i)], "kv-reference", "the value at key %u is not the array's one", i);
				MC_CHECK(M::back(kv.second) == m.at(i), "kv-order", "the value at key %u is %d, expected %d", i, M::back(kv.second), m.at(i));
				++i;
			}
			MC_CHECK(i == N, "kv-order", "key/value iteration gives %u entries of %u", i, N);
			// positions: every way to go from a position to another one
			auto b = range.begin(), e = range.end();
			MC_CHECK((b == e) == (N == 0) && (b != e) == (N != 0), "kv-compare", "begin and end");
			unsigned stride = N > 20 ? N / 7 : 1;
			for (unsigned p = 0; p <= N; p += stride)
				for (unsigned q = 0; q <= N; q += stride)
				{
					const std::ptrdiff_t d = std::ptrdiff_t(q) - std::ptrdiff_t(p);
					const auto ip = b + p, iq = b + q;
					auto is = [&](auto it, const char* what)
					{
						MC_CHECK(it == iq && !(it != iq), what, "%s from position %u to %u", what, p, q);
						MC_CHECK(it - b == std::ptrdiff_t(q) && e - it == std::ptrdiff_t(N - q), what, "%s from position %u to %u gives position %td", what, p, q, it - b);
						if (q < N)
						{
							MC_CHECK((*it).first == key(q) && &(*it).second == &a[key(q)], what, "%s from position %u to %u gives key %lld", what, p, q, (long long)(*it).first);
						}
					};
					is(ip + d, "plus"); is(d + ip, "plus"); is(ip - (-d), "minus");
					{ auto it = ip; auto& r = (it += d); MC_CHECK(&r == &it, "plus-assign", "+= does not return the iterator"); is(it, "plus-assign"); }
					{ auto it = ip; auto& r = (it -= -d); MC_CHECK(&r == &it, "minus-assign", "-= does not return the iterator"); is(it, "minus-assign"); }
					{
						auto it = ip;
						for (unsigned s = p; s < q; ++s) { auto old = it; auto& r = ++it; MC_CHECK(&r == &it && old - b == std::ptrdiff_t(s), "increment", "++ at %u", s); }
						for (unsigned s = p; s > q; --s) { auto old = it; auto& r = --it; MC_CHECK(&r == &it && old - b == std::ptrdiff_t(s), "decrement", "-- at %u", s); }
						is(it, "step");
					}
					{
						auto it = ip;
						for (unsigned s = p; s < q; ++s) { auto old = it++; MC_CHECK(old - b == std::ptrdiff_t(s), "post-increment", "it++ at %u", s); }
						for (unsigned s = p; s > q; --s) { auto old = it--; MC_CHECK(old - b == std::ptrdiff_t(s), "post-decrement", "it-- at %u", s); }
						is(it, "post-step");
					}
					{ auto it = b; it = ip; auto moved(std::move(it)); it = moved; is(it + d, "copy"); }
					if (q < N)
						MC_CHECK(ip[d].first == key(q) && &ip[d].second == &a[key(q)], "subscript", "iterator at %u, entry %td", p, d);
					MC_CHECK(iq - ip == d, "difference", "difference of the positions %u and %u is %td", q, p, iq - ip);
					MC_CHECK((ip == iq) == (p == q) && (ip != iq) == (p != q) && (ip < iq) == (p < q) && (ip <= iq) == (p <= q) && (ip > iq) == (p > q) && (ip >= iq) == (p >= q), "kv-compare", "comparison of the positions %u and %u", p, q);
				}
			MC_CHECK(std::size_t(std::distance(b, e)) == N, "difference", "std::distance of the range");
			std::vector<E> seen;
			std::for_each(b, e, [&](auto&& kv) { seen.push_back(kv.first); });
			MC_CHECK(seen.size() == N, "kv-order", "std::for_each");
		}
		static void same(A& a, const Map& m)
		{
			const A& c = a;
			MC_CHECK(a.size() == N, "size", "array of %zu elements for %u enumerators", a.size(), N);
			for (unsigned i = 0; i < N; ++i)
			{
				MC_CHECK(M::back(a[key(i)]) == m.at(i) && M::back(c[key(i)]) == m.at(i), "access", "the value of key %u is %d, expected %d", i, M::back(a[key(i)]), m.at(i));
				MC_CHECK(&a[key(i)] == &c[key(i)] && &a[key(i)] == a.data() + i, "access", "key %u is not element %u", i, i);
			}
			unsigned i = 0;
			for (auto& v : a) { MC_CHECK(M::back(v) == m.at(i), "values", "value %u", i); ++i; }
			MC_CHECK(i == N, "values", "iteration over the values");
			auto range = a.iter_kv();
			const auto constRange = c.iter_kv();
			iterate(a, range, m);
			iterate(c, constRange, m);
		}
		// every sequence of writes, through every way to write
		static void run(unsigned depth)
		{
			mc::forAll([&](mc::Exec& x)
			{
				A a{};
				Map m;
				for (unsigned i = 0; i < N; ++i) { a[key(i)] = M::of(int(i)); m[i] = int(i); }
				unsigned n = N ? x.choose(depth + 1) : 0;
				for (unsigned s = 0; s < n; ++s)
				{
					unsigned i = N <= 6 ? x.choose(N) : x.choose(3) * (N - 1) / 2;
					int v = 50 + int(s);
					switch (x.choose(5))
					{
						case 0: a[key(i)] = M::of(v); m[i] = v; break;
						case 1: for (auto&& [k, val] : a.iter_kv()) if (k == key(i)) val = M::of(v); m[i] = v; break;
						case 2: { auto it = a.iter_kv().begin() + i; (*it).second = M::of(v); m[i] = v; break; }
						case 3: { auto it = a.iter_kv().end(); it[-std::ptrdiff_t(N - i)].second = M::of(v); m[i] = v; break; }
						case 4: { A b = std::move(a); a = std::move(b); std::swap(a[key(i)], a[key(0)]); std::swap(m[i], m[0]); break; }
					}
					x.step();
				}
				same(a, m);
				mc::u64 h = 0; for (auto& p : m) h = h * 131 + mc::u64(p.second);
				mc::outcome(h);
			});
		}
	};
}
// what the array has in common with std::array: fill, swap, copies, comparisons, reverse iteration
namespace
{
	template<typename E, unsigned N> void common(unsigned values)
	{
		mc::forAll([&](mc::Exec& x)
		{
			using A = Nz::EnumArray<E, int>;
			A a{}, b{};
			std::array<int, N> ma{}, mb{};
			for (unsigned i = 0; i < N; ++i) { int v = int(x.choose(values)); a[static_cast<E>(i)] = v; ma[i] = v; v = int(x.choose(values)); b[static_cast<E>(i)] = v; mb[i] = v; }
			x.step();
			auto same = [](const A& l, const std::array<int, N>& m, const char* what)
			{
				for (unsigned i = 0; i < N; ++i) MC_CHECK(l[static_cast<E>(i)] == m[i] && l.at(i) == m[i], what, "%s: element %u is %d, expected %d", what, i, l[static_cast<E>(i)], m[i]);
				MC_CHECK(std::equal(l.begin(), l.end(), m.begin(), m.end()) && std::equal(l.rbegin(), l.rend(), m.rbegin(), m.rend()) && std::equal(l.crbegin(), l.crend(), m.crbegin(), m.crend()), what, "%s: iteration", what);
				MC_CHECK(l.front() == m.front() && l.back() == m.back() && l.size() == N && l.max_size() == N && !l.empty() && l.data() == &l.front(), what, "%s: ends", what);
			};
			same(a, ma, "content"); same(b, mb, "content");
			MC_CHECK((a == b) == (ma == mb) && (a != b) == (ma != mb) && (a < b) == (ma < mb) && (a <= b) == (ma <= mb) && (a > b) == (ma > mb) && (a >= b) == (ma >= mb), "comparison", "comparison of two arrays");
			A c(a); same(c, ma, "copy"); c = b; same(c, mb, "copy assignment"); same(a, ma, "source of a copy");
			MC_CHECK(c == b, "comparison", "a copy differs");
			A d(std::move(c)); same(d, mb, "move");
			using std::swap; swap(a, b); same(a, mb, "swap"); same(b, ma, "swap"); a.swap(b); same(a, ma, "swap");
			// reverse key/value iteration
			auto range = a.iter_kv();
			std::reverse_iterator<decltype(range.begin())> rit(range.end()), rend(range.begin());
			unsigned i = N;
			for (; rit != rend; ++rit) { MC_CHECK(i > 0, "reverse", "goes past the first enumerator"); --i; MC_CHECK((*rit).first == static_cast<E>(i) && &(*rit).second == &a[static_cast<E>(i)], "reverse", "reverse iteration at enumerator %u", i); }
			MC_CHECK(i == 0, "reverse", "reverse iteration stops at enumerator %u", i);
			for (auto& v : a) v += 7;
			for (unsigned k = 0; k < N; ++k) MC_CHECK(a[static_cast<E>(k)] == ma[k] + 7, "write", "writing through an iterator");
			a.fill(42); ma.fill(42); same(a, ma, "fill");
			mc::outcome(mc::u64(mb[0]) * 100 + mc::u64(mb[N - 1]));
		});
	}
}
MC_SUITE(common1) { common<C1, 1>(5); }
MC_SUITE(common2) { common<S2, 2>(mc::pick(4, 6)); }
MC_SUITE(common3) { common<C3, 3>(mc::pick(3, 4)); }
MC_SUITE(common5) { common<P5, 5>(2); }
MC_SUITE(common6) { common<L6, 6>(2); }
MC_SUITE(count0) { Checker<C0, 0, int>::run(0); }
MC_SUITE(count1) { Checker<C1, 1, int>::run(mc::pick(4, 6)); }
MC_SUITE(count3) { Checker<C3, 3, int>::run(mc::pick(3, 4)); }
MC_SUITE(count3_strings) { Checker<C3, 3, std::string>::run(mc::pick(3, 4)); }
MC_SUITE(max4) { Checker<M4, 4, std::unique_ptr<int>>::run(mc::pick(3, 4)); }
MC_SUITE(plain5) { Checker<P5, 5, double>::run(mc::pick(2, 3)); }
MC_SUITE(signed2) { Checker<S2, 2, int>::run(mc::pick(4, 6)); }
MC_SUITE(long6) { Checker<L6, 6, short>::run(mc::pick(2, 3)); }
MC_SUITE(uchar256) { Checker<Big, 256, int>::run(mc::pick(2, 3)); }
MC_SUITE(short300) { Checker<Wide, 300, int>::run(mc::pick(2, 3)); }
// more enumerators than 16 bits can count: every key, by every way to reach it, from the array and from its iterators
namespace { enum class Many : unsigned { First, Max = 70000 }; enum class Few16 : unsigned short { First, Max = 65535 }; enum class Signed16 : short { First, Count = 32767 }; }
namespace
{
	template<typename E, std::size_t N> void wide()
	{
		mc::pointName("key");
		using A = Nz::EnumArray<E, std::uint32_t>;
		static A a; const A& c = a;
		MC_CHECK(a.size() == N && Nz::EnumValueCount_v<E> == N, "size", "array of %zu elements for %zu enumerators", a.size(), N);
		for (std::size_t i = 0; i < N; ++i) a[static_cast<E>(i)] = std::uint32_t(i * 7 + 1);
		auto range = a.iter_kv(); auto crange = c.iter_kv();
		auto it = range.begin(); auto cit = crange.begin();
		for (std::size_t i = 0; i < N; ++i, ++it, cit++)
		{
			mc::point(i);
			const E k = static_cast<E>(i); const std::ptrdiff_t d = std::ptrdiff_t(i);
			MC_CHECK(a[k] == i * 7 + 1 && &c[k] == a.data() + i, "access", "key %zu is not element %zu", i, i);
			MC_CHECK(it != range.end() && (*it).first == k && &(*it).second == &a[k], "kv-order", "key %zu is %llu", i, (unsigned long long)(*it).first);
			MC_CHECK(cit != crange.end() && (*cit).first == k && &(*cit).second == &a[k], "kv-order", "constant iteration: key %zu is %llu", i, (unsigned long long)(*cit).first);
			MC_CHECK((*(range.begin() + d)).first == k && range.begin()[d].first == k && &range.begin()[d].second == &a[k], "subscript", "key %zu from the first", i);
			MC_CHECK((*(range.end() - (std::ptrdiff_t(N) - d))).first == k && crange.end()[d - std::ptrdiff_t(N)].first == k, "subscript", "key %zu from the last", i);
			MC_CHECK(it - range.begin() == d && range.begin() - it == -d && crange.end() - cit == std::ptrdiff_t(N) - d, "difference", "position of the key %zu", i);
			MC_CHECK((it < range.end()) && (it == range.begin() + d) && ((it > range.begin()) == (i > 0)) && !(it >= range.end()), "kv-compare", "comparisons at the key %zu", i);
		}
		MC_CHECK(it == range.end() && cit == crange.end(), "kv-order", "the iteration does not stop after %zu entries", N);
	}
}
MC_SUITE(many70001) { wide<Many, 70001>(); }
MC_SUITE(many65536) { wide<Few16, 65536>(); }
MC_SUITE(many32767) { wide<Signed16, 32767>(); }
