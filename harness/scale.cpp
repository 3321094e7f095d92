// Sizes and positions on both sides of the 8- and 16-bit limits: the small enumerations elsewhere cannot reach them.
// Every boundary size x every operation x every boundary position is enumerated against a plain model.
#include <NazaraUtils/Bitset.hpp>
#include <NazaraUtils/Endianness.hpp>
#include <NazaraUtils/FixedVector.hpp>
#include <NazaraUtils/Hash.hpp>
#include <NazaraUtils/MathUtils.hpp>
#include <NazaraUtils/MemoryPool.hpp>
#include <NazaraUtils/Signal.hpp>
#include <NazaraUtils/SparsePtr.hpp>
#include <NazaraUtils/StackArray.hpp>
#include <NazaraUtils/StackVector.hpp>
#include <NazaraUtils/StringUtils.hpp>
#include "mc.hpp"
#include <list>
#include <map>
#include <memory>
#include <numeric>

namespace
{
	const std::vector<std::size_t> Small = { 126, 127, 128, 129, 254, 255, 256, 257, 258 };
	const std::vector<std::size_t> Wide = { 255, 256, 257, 65534, 65535, 65536, 65537 };
	const std::vector<std::size_t> Edges = { 0, 1, 62, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 32767, 32768, 65534, 65535, 65536, 65537 };
	std::vector<std::size_t> below(std::size_t n, std::vector<std::size_t> extra = {})
	{
		std::set<std::size_t> s;
		for (std::size_t e : Edges) if (e <= n) s.insert(e);
		for (std::size_t e : extra) if (e <= n) s.insert(e);
		for (std::size_t d = 0; d <= 2 && d <= n; ++d) s.insert(n - d);
		return { s.begin(), s.end() };
	}
	std::size_t oneOf(mc::Exec& x, const std::vector<std::size_t>& v) { return v[x.choose(unsigned(v.size()))]; }
	template<typename B> void same(const B& b, const std::vector<bool>& m, const char* what)
	{
		MC_CHECK(b.GetSize() == m.size(), "size", "%s: size %zu, expected %zu", what, b.GetSize(), m.size());
		std::size_t count = 0;
		for (std::size_t i = 0; i < m.size(); ++i)
		{
			if (b.Test(i) != m[i]) mc::fail("bit", "%s: bit %zu of %zu is %d", what, i, m.size(), int(b.Test(i)));
			count += m[i];
		}
		MC_CHECK(b.Count() == count, "count", "%s: Count() is %zu, expected %zu", what, b.Count(), count);
	}
	template<typename B> B pattern(std::size_t n, unsigned kind, std::vector<bool>& m)
	{
		B b(n, kind == 1);
		m.assign(n, kind == 1);
		if (kind == 2) for (std::size_t i = 0; i < n; i += 1 + i % 7) { b.Set(i, true); m[i] = true; }
		if (kind == 3) { if (n) { b.Set(n - 1, true); m[n - 1] = true; } }
		return b;
	}
}

#if MC_PART == 0 // C01: mutations of large bitsets
namespace
{
	template<typename Block> void mutations()
	{
		using B = Nz::Bitset<Block>;
		mc::forAll([&](mc::Exec& x)
		{
			const std::size_t n = oneOf(x, Wide);
			const unsigned kind = x.choose(4);
			const unsigned op = x.choose(11);
			std::vector<bool> m;
			B b = pattern<B>(n, kind, m);
			const auto positions = below(n);
			const std::size_t p = op <= 5 || op == 10 ? positions[x.choose(unsigned(positions.size()))] : 0;
			MC_NOTE("%zu bits, pattern %u, operation %u at %zu", n, kind, op, p);
			switch (op)
			{
				case 0: b.ShiftLeft(p); for (std::size_t i = n; i-- > 0;) m[i] = i >= p && m[i - p]; break;
				case 1: b.ShiftRight(p); for (std::size_t i = 0; i < n; ++i) m[i] = i + p < n && m[i + p]; break;
				case 2: b.Resize(p, true); m.resize(p, true); break;
				case 3: b.Resize(n + p, true); m.resize(n + p, true); break;
				case 4: b.UnboundedSet(n + p); m.resize(n + p + 1, false); m[n + p] = true; break;
				case 5: if (p == n) return; b[p].Flip(); m[p] = !m[p]; break;
				case 6: b.Flip(); m.flip(); break;
				case 7: b.Reverse(); std::reverse(m.begin(), m.end()); break;
				case 8: { std::vector<bool> o; B c = pattern<B>(n / 2 + 3, 2, o); b ^= c; m.resize(std::max(m.size(), o.size())); for (std::size_t i = 0; i < o.size(); ++i) m[i] = m[i] != o[i]; break; }
				case 9: { std::string s; for (std::size_t i = m.size(); i-- > 0;) s += m[i] ? '1' : '0'; B c(s); b = c; same(b, m, "from a string"); MC_CHECK(b.ToString() == s, "string", "string round trip of %zu bits", n); break; }
				case 10: { B c(b); c.Resize(p); b |= c; std::vector<bool> o; B d = pattern<B>(p, 1, o); b &= d; for (std::size_t i = p; i < n; ++i) m[i] = false; break; }
			}
			x.step();
			same(b, m, "large bitset");
			mc::outcome(b.Count());
		});
	}
}
MC_SUITE(large_8) { mutations<Nz::UInt8>(); }
MC_SUITE(large_16) { mutations<Nz::UInt16>(); }
MC_SUITE(large_32) { mutations<Nz::UInt32>(); }
MC_SUITE(large_64) { mutations<Nz::UInt64>(); }

// more than 2^16 blocks
MC_SUITE(huge_8)
{
	using B = Nz::Bitset<Nz::UInt8>;
	mc::forAll([&](mc::Exec& x)
	{
		const std::size_t n = oneOf(x, { 524280, 524281, 524288, 524289, 524297 });
		const unsigned kind = 2 + x.choose(2);
		const unsigned op = x.choose(13);
		std::vector<bool> m, o;
		B b = pattern<B>(n, kind, m);
		const std::size_t other = op >= 6 && op <= 8 ? oneOf(x, { 9, 524279, 524280, 524288, 524300 }) : 0;
		B c = pattern<B>(other, 2, o);
		const std::size_t p = op <= 2 ? oneOf(x, { 0, 1, 8, 13, n - 9, n }) : 0;
		MC_NOTE("%zu bits, pattern %u, operation %u with %zu at %zu", n, kind, op, other, p);
		auto merged = [&](auto f) { const std::size_t size = std::max(n, other); m.resize(size); o.resize(size); for (std::size_t i = 0; i < size; ++i) m[i] = f(m[i], o[i]); };
		switch (op)
		{
			case 0: b.ShiftLeft(p); for (std::size_t i = n; i-- > 0;) m[i] = i >= p && m[i - p]; break;
			case 1: b.ShiftRight(p); for (std::size_t i = 0; i < n; ++i) m[i] = i + p < n && m[i + p]; break;
			case 2: b.Resize(p, true); m.resize(p, true); break;
			case 3: b.Resize(n + 17, true); m.resize(n + 17, true); break;
			case 4: b.Flip(); m.flip(); break;
			case 5: b.Reverse(); std::reverse(m.begin(), m.end()); break;
			case 6: if (x.flip()) b &= c; else b = c & b; merged([](bool l, bool r) { return l && r; }); break;
			case 7: if (x.flip()) b |= c; else b = c | b; merged([](bool l, bool r) { return l || r; }); break;
			case 8: if (x.flip()) b ^= c; else b = c ^ b; merged([](bool l, bool r) { return l != r; }); break;
			case 9: b = ~b; m.flip(); break;
			case 10: { B d(b.ToString()); b = d; break; }
			case 11: { B d(b); b.Clear(); b.Swap(d); break; }
			case 12: { const bool v = x.flip(); b.Set(v); m.assign(n, v); break; }
		}
		x.step();
		same(b, m, "bitset of many blocks");
		mc::outcome(b.Count());
	});
}
#endif

#if MC_PART == 1 // C02: queries of large bitsets
namespace
{
	template<typename Block> void queries()
	{
		using B = Nz::Bitset<Block>;
		mc::forAll([&](mc::Exec& x)
		{
			const std::size_t n = oneOf(x, Wide);
			const auto positions = below(n - 1);
			const unsigned count = unsigned(positions.size());
			const std::size_t p = positions[x.choose(count)], q = positions[x.choose(count)];
			const bool inverted = x.flip();
			B b(n, inverted);
			b.Set(p, !inverted); b.Set(q, !inverted);
			x.step();
			MC_NOTE("%zu bits, %zu and %zu, inverted %d", n, p, q, inverted);
			std::set<std::size_t> members;
			if (inverted) { for (std::size_t i = 0; i < n; ++i) members.insert(members.end(), i); members.erase(p); members.erase(q); }
			else members = { p, q };
			MC_CHECK(b.Count() == members.size(), "count", "Count() is %zu", b.Count());
			MC_CHECK(b.TestAny() == !members.empty() && b.TestNone() == members.empty() && b.TestAll() == (members.size() == n), "all-any-none", "of %zu bits", n);
			MC_CHECK(b.FindFirst() == (members.empty() ? B::npos : *members.begin()), "find-first", "FindFirst() is %zu", b.FindFirst());
			for (std::size_t from : positions)
			{
				auto it = members.upper_bound(from);
				MC_CHECK(b.FindNext(from) == (it == members.end() ? B::npos : *it), "find-next", "FindNext(%zu) is %zu", from, b.FindNext(from));
				MC_CHECK(b.Test(from) == (members.count(from) > 0) && b.UnboundedTest(from) == b.Test(from), "test", "bit %zu", from);
			}
			for (std::size_t past : { n, n + 1, n + 255, n + 256, n + 65535, n + 65536, B::npos }) MC_CHECK(!b.UnboundedTest(past), "unbounded", "bit %zu past the end of %zu", past, n);
			auto it = members.begin();
			for (std::size_t bit : b.IterBits())
			{
				MC_CHECK(it != members.end() && *it == bit, "iteration", "iteration visits %zu", bit);
				++it;
			}
			MC_CHECK(it == members.end(), "iteration", "iteration stops early");
			B one(n, false); one.Set(p, true);
			MC_CHECK(b.Intersects(one) == (members.count(p) > 0) && one.Intersects(b) == b.Intersects(one), "intersects", "at %zu", p);
			B wide(n + 1, false); wide.Set(n, true);
			MC_CHECK(!b.Intersects(wide) && !wide.Intersects(b), "intersects", "past the end");
			mc::outcome(p * 70000 + q);
		});
	}
}
MC_SUITE(large_8) { queries<Nz::UInt8>(); }
MC_SUITE(large_32) { queries<Nz::UInt32>(); }
MC_SUITE(large_64) { queries<Nz::UInt64>(); }

// more than 2^16 blocks: every set of up to two members among the boundary positions
MC_SUITE(huge_8)
{
	using B = Nz::Bitset<Nz::UInt8>;
	mc::forAll([&](mc::Exec& x)
	{
		const std::size_t n = oneOf(x, { 524280, 524281, 524288, 524289, 524297 });
		const std::vector<std::size_t> positions = { 0, 7, 8, 65536, 524279, n - 2, n - 1 };
		const std::size_t p = oneOf(x, positions), q = oneOf(x, positions);
		if (q < p) return;
		B b(n, false), other(n + 9, false);
		b.Set(p, true); b.Set(q, true);
		other.Set(q, true);
		x.step();
		MC_NOTE("%zu bits, %zu and %zu", n, p, q);
		MC_CHECK(b.Count() == (p == q ? 1u : 2u), "count", "Count() is %zu", b.Count());
		MC_CHECK(b.FindFirst() == p && b.FindNext(p) == (p == q ? B::npos : q) && b.FindNext(q) == B::npos, "find", "FindFirst() is %zu, then %zu", b.FindFirst(), b.FindNext(p));
		MC_CHECK(b.TestAny() && !b.TestNone() && !b.TestAll() && b.Test(p) && b.Test(q), "all-any-none", "of %zu bits", n);
		MC_CHECK(b.Intersects(other) && other.Intersects(b), "intersects", "at %zu", q);
		other.Reset(q); other.Set(n, true);
		MC_CHECK(!b.Intersects(other) && !other.Intersects(b), "intersects", "nothing in common");
		std::size_t seen = 0;
		for (std::size_t bit : b.IterBits()) { MC_CHECK(bit == (seen == 0 ? p : q), "iteration", "iteration visits %zu", bit); seen++; }
		MC_CHECK(seen == (p == q ? 1u : 2u), "iteration", "iteration visits %zu bits", seen);
		b.Set(true);
		MC_CHECK(b.TestAll() && b.Count() == n, "all-any-none", "all of %zu bits", n);
		b.Reset(p);
		MC_CHECK(!b.TestAll() && b.Count() == n - 1, "all-any-none", "all but one of %zu bits", n);
		b.Reset();
		MC_CHECK(b.TestNone() && b.FindFirst() == B::npos && b.Count() == 0, "all-any-none", "none of %zu bits", n);
		mc::outcome(p * 600000 + q);
	});
}
#endif

#if MC_PART == 2 // C04: streams of large bitsets
namespace
{
	template<typename Block> void streams(const std::vector<std::size_t>& sizes = Wide, const std::vector<std::size_t>& cuts = {})
	{
		using B = Nz::Bitset<Block>;
		mc::forAll([&](mc::Exec& x)
		{
			const std::size_t n = oneOf(x, sizes);
			const auto positions = cuts.empty() ? below(n) : cuts;
			const std::size_t cut = positions[x.choose(unsigned(positions.size()))];
			const std::size_t offset = oneOf(x, { 0, 1, 3, 7 });
			const std::size_t before = oneOf(x, { 0, 3, 255, 256 });
			const std::size_t bytes = (n + offset + 7) / 8;
			std::unique_ptr<Nz::UInt8[]> data(new Nz::UInt8[bytes]);
			for (std::size_t i = 0; i < bytes; ++i) data[i] = Nz::UInt8((i * 151 + i / 256 * 7) ^ (i >> 3));
			std::vector<bool> m;
			B b(before, true);
			m.assign(before, true);
			for (std::size_t i = 0; i < n; ++i) m.push_back((data[(i + offset) / 8] >> ((i + offset) % 8)) & 1);
			MC_NOTE("%zu bits after %zu, offset %zu, cut at %zu", n, before, offset, cut);
			auto seq = b.Write(typename B::PointerSequence(data.get(), offset), cut);
			auto end = b.Write(seq, n - cut);
			x.step();
			same(b, m, "stream");
			std::size_t at = std::size_t(static_cast<const Nz::UInt8*>(end.first) - data.get()) * 8 + end.second;
			MC_CHECK(at == n + offset, "sequence", "the stream continues at bit %zu, expected %zu", at, n + offset);
			mc::outcome(n + offset);
		});
	}
}
MC_SUITE(large_8) { streams<Nz::UInt8>(); }
MC_SUITE(huge_8) { streams<Nz::UInt8>({ 524281, 524289, 524297 }, { 0, 7, 65536, 524280 }); }
MC_SUITE(large_32) { streams<Nz::UInt32>(); }
MC_SUITE(large_64) { streams<Nz::UInt64>(); }
#endif

#if MC_PART == 3 || MC_PART == 4 // C05, C07: vectors
namespace
{
	struct Tiny { unsigned char v; unsigned char w; Tiny() : v(0), w(0xff) {} Tiny(int n) : v((unsigned char)n), w((unsigned char)~n) {} int get() const { MC_CHECK((unsigned char)~v == w, "content", "torn element"); return v; } };
	template<typename V> void check(V& v, const std::vector<int>& m, const char* what)
	{
		// the member types are those of the operations
		MC_CHECK(typename V::difference_type(v.end() - v.begin()) == v.end() - v.begin() && typename V::size_type(m.size()) == m.size() && sizeof(typename V::size_type) >= sizeof(v.size()) && sizeof(typename V::difference_type) >= sizeof(v.end() - v.begin()), "member-types", "%s: size_type or difference_type cannot hold every size", what);
		MC_CHECK(v.size() == m.size() && v.empty() == m.empty() && v.capacity() >= m.size(), "size", "%s: size %zu, expected %zu", what, v.size(), m.size());
		for (std::size_t i = 0; i < m.size(); ++i) MC_CHECK(v[i].get() == (unsigned char)m[i], "content", "%s: element %zu of %zu", what, i, m.size());
		MC_CHECK(std::size_t(v.end() - v.begin()) == m.size() && std::size_t(v.rend() - v.rbegin()) == m.size() && v.data() == &*v.begin(), "iteration", "%s: range of %td elements, expected %zu", what, v.end() - v.begin(), m.size());
		const V& c = v;
		for (std::size_t i : below(m.size())) if (i < m.size()) MC_CHECK(c.data() == v.data() && &c[i] == v.data() + i && &*(c.begin() + i) == &c[i] && &c[i] == &v[i], "content", "%s: element %zu of the const vector", what, i);
		MC_CHECK(std::size_t(c.end() - c.begin()) == m.size() && v.max_size() >= v.capacity() && v.max_size() >= m.size(), "size", "%s: maximum size %zu, capacity %zu, size %zu", what, v.max_size(), v.capacity(), m.size());
		if (!m.empty()) MC_CHECK(&c.back() == &v[m.size() - 1] && &v.back() == &c.back() && &c.front() == &v[0], "content", "%s: first and last elements", what);
	}
	template<typename T> Tiny item(int n) { return Tiny(n); }
	template<typename V> constexpr bool IsStack = false;
	template<typename T> constexpr bool IsStack<Nz::StackVector<T>> = true;
	template<typename Make> void vectors(const std::vector<std::size_t>& sizes, std::size_t room, Make make)
	{
		mc::forAll([&](mc::Exec& x)
		{
			const std::size_t n = oneOf(x, sizes);
			auto holder = make();
			auto& v = holder.get();
			using V = std::decay_t<decltype(v)>;
			std::vector<int> m;
			for (std::size_t i = 0; i < n; ++i) { v.push_back(Tiny(int(i * 7 + i / 256))); m.push_back(int(i * 7 + i / 256)); }
			check(v, m, "filled");
			const auto positions = below(n);
			const std::size_t p = positions[x.choose(unsigned(positions.size()))];
			const unsigned op = x.choose(IsStack<V> ? 9 : 10);
			MC_NOTE("%zu elements, operation %u at %zu", n, op, p);
			auto at = [&](auto it, std::size_t i) { MC_CHECK(std::size_t(it - v.begin()) == i, "iterator", "returned position %td, expected %zu", it - v.begin(), i); };
			switch (op)
			{
				case 0: if (n == room) return; at(v.insert(v.begin() + p, Tiny(99)), p); m.insert(m.begin() + p, 99); break;
				case 1: if (n == room) return; at(v.emplace(v.begin() + p, 98), p); m.insert(m.begin() + p, 98); break;
				case 2: if (p == n) return; at(v.erase(v.begin() + p), p); m.erase(m.begin() + p); break;
				case 3: { const std::size_t q = positions[x.choose(unsigned(positions.size()))]; if (q < p) return; at(v.erase(v.begin() + p, v.begin() + q), p); m.erase(m.begin() + p, m.begin() + q); break; }
				case 4: { const std::size_t to = oneOf(x, { p, std::min(room, n + 1), room }); v.resize(to); m.resize(to); break; }
				case 5: { const std::size_t to = oneOf(x, { p, std::min(room, n + 1), room }); v.resize(to, Tiny(45)); m.resize(to, 45); break; }
				case 6: if (p) return; v.pop_back(); m.pop_back(); v.pop_back(); m.pop_back(); v.push_back(Tiny(3)); m.push_back(3); break;
				case 7: if (p) return; v.clear(); m.clear(); break;
				case 9:
					if (p) return;
					if constexpr (!IsStack<V>) { const std::size_t to = oneOf(x, { 127, 128, 255, 256, 257, 65535, 65536, 65537, 70000 }); if (to > room && v.max_size() == room) return; v.reserve(to); MC_CHECK(v.capacity() >= to, "capacity", "capacity %zu after reserve(%zu)", v.capacity(), to); const Tiny* d = v.data(); while (v.size() < std::min<std::size_t>(to, 300)) { v.push_back(Tiny(5)); m.push_back(5); } MC_CHECK(v.data() == d, "relocation", "relocated within the reserved capacity"); }
					break;
				case 8:
				{
					if (p) return;
					V w(std::move(v));
					check(w, m, "moved");
					if constexpr (!IsStack<V>) { V c(w); check(c, m, "copy"); v = c; check(v, m, "copy assigned"); v = std::move(w); }
					else return;
					break;
				}
			}
			x.step();
			check(v, m, "after the operation");
			mc::outcome(m.size() * 16 + op);
		});
	}
	template<typename V> struct Plain { V v; V& get() { return v; } };
	struct OnStack
	{
		std::unique_ptr<Tiny[]> memory; Nz::StackVector<Tiny> v;
		explicit OnStack(std::size_t n) : memory(static_cast<Tiny*>(::operator new[](n * sizeof(Tiny)))), v(memory.get(), n) {}
		Nz::StackVector<Tiny>& get() { return v; }
		~OnStack() { v.clear(); ::operator delete[](memory.release()); }
	};
	void arrays()
	{
		mc::forAll([&](mc::Exec& x)
		{
			const std::size_t n = oneOf(x, Wide);
			std::unique_ptr<Nz::UInt8[]> raw(new Nz::UInt8[n * sizeof(Tiny)]);
			{
				Nz::StackArray<Tiny> a(reinterpret_cast<Tiny*>(raw.get()), n);
				MC_CHECK(a.size() == n && a.max_size() == n && !a.empty(), "size", "size %zu, expected %zu", a.size(), n);
				MC_CHECK(std::size_t(a.end() - a.begin()) == n && std::size_t(a.rend() - a.rbegin()) == n, "iteration", "range of %td elements", a.end() - a.begin());
				for (std::size_t i = 0; i < n; ++i) MC_CHECK(a[i].get() == 0, "content", "element %zu is not default constructed", i);
				a.fill(Tiny(9));
				for (std::size_t i = 0; i < n; ++i) MC_CHECK(a[i].get() == 9, "content", "fill missed element %zu", i);
				for (std::size_t i = 0; i < n; ++i) a[i] = Tiny(int(i * 3 + i / 256));
				Nz::StackArray<Tiny> b(std::move(a));
				std::size_t i = 0;
				for (const Tiny& t : b) { MC_CHECK(t.get() == (unsigned char)(i * 3 + i / 256), "content", "element %zu", i); i++; }
				MC_CHECK(i == n && b.back().get() == (unsigned char)((n - 1) * 3 + (n - 1) / 256), "content", "last element");
				x.step();
			}
			mc::outcome(n);
		});
	}
}
#endif
#if MC_PART == 3
MC_SUITE(large_fixed) { vectors(Small, 258, [] { return Plain<Nz::FixedVector<Tiny, 258>>(); }); }
MC_SUITE(large_fixed_16) { vectors({ 255, 256, 65535, 65536, 65537 }, 65537, [] { return Plain<Nz::FixedVector<Tiny, 65537>>(); }); }
MC_SUITE(large_hybrid) { vectors(Small, 300, [] { return Plain<Nz::HybridVector<Tiny, 256>>(); }); }
MC_SUITE(large_hybrid_small) { vectors(Small, 300, [] { return Plain<Nz::HybridVector<Tiny, 4>>(); }); }
MC_SUITE(large_hybrid_127) { vectors(Small, 300, [] { return Plain<Nz::HybridVector<Tiny, 127>>(); }); }
MC_SUITE(large_hybrid_16) { vectors({ 65535, 65536, 65537 }, 65539, [] { return Plain<Nz::HybridVector<Tiny, 65536>>(); }); }
#elif MC_PART == 4
MC_SUITE(large_stackvector) { vectors(Small, 258, [] { return OnStack(258); }); }
MC_SUITE(large_stackvector_16) { vectors({ 255, 256, 65535, 65536, 65537 }, 65537, [] { return OnStack(65537); }); }
MC_SUITE(large_stackarray) { arrays(); }
#endif

#if MC_PART == 5 // C09: pools of many blocks and of large blocks
namespace
{
	void pools()
	{
		mc::forAll([&](mc::Exec& x)
		{
			const std::size_t blockSize = oneOf(x, { 1, 2, 255, 256, 257, 65540 });
			const std::size_t total = blockSize <= 2 ? 65537 / (blockSize == 1 ? 128 : 64) : blockSize * 2 + 3;
			auto positions = below(total - 1, { blockSize - 1, blockSize, blockSize + 1, 2 * blockSize - 1, 2 * blockSize });
			if (blockSize > 300) positions = { 0, 255, 256, 65535, 65536, 65537, blockSize - 1, blockSize, blockSize + 256, 2 * blockSize - 1, 2 * blockSize, total - 1 };
			const unsigned count = unsigned(positions.size());
			const std::size_t p = positions[x.choose(count)], q = positions[x.choose(count)];
			if (q < p) return;
			Nz::MemoryPool<unsigned> pool(blockSize);
			std::map<std::size_t, std::pair<unsigned*, unsigned>> live;
			auto add = [&](unsigned value)
			{
				std::size_t index = 12345;
				unsigned* e = pool.Allocate(index, value);
				MC_CHECK(live.emplace(index, std::make_pair(e, value)).second, "index-reuse", "index %zu given twice", index);
				MC_CHECK(index < pool.GetBlockCount() * blockSize, "index-range", "index %zu with %zu blocks of %zu", index, pool.GetBlockCount(), blockSize);
			};
			for (std::size_t i = 0; i < total; ++i) add(unsigned(i * 2654435761u));
			MC_NOTE("blocks of %zu, %zu entries, free the ones at %zu and %zu", blockSize, total, p, q);
			const std::size_t blocks = (total + blockSize - 1) / blockSize;
			auto verify = [&](const char* what)
			{
				MC_CHECK(pool.GetBlockCount() == blocks && pool.GetBlockSize() == blockSize, "blocks", "%s: %zu blocks, expected %zu", what, pool.GetBlockCount(), blocks);
				MC_CHECK(pool.GetAllocatedEntryCount() == live.size() && pool.GetFreeEntryCount() == blocks * blockSize - live.size(), "counters", "%s: %zu allocated, %zu free, expected %zu live", what, pool.GetAllocatedEntryCount(), pool.GetFreeEntryCount(), live.size());
				auto it = live.begin();
				for (auto pit = pool.begin(); pit != pool.end(); ++pit, ++it)
				{
					MC_CHECK(it != live.end() && pit.GetIndex() == it->first && &*pit == it->second.first && *pit == it->second.second, "iteration", "%s: iteration visits index %zu", what, pit.GetIndex());
					MC_CHECK(pool.RetrieveFromIndex(it->first) == it->second.first, "retrieve", "%s: index %zu", what, it->first);
				}
				MC_CHECK(it == live.end(), "iteration", "%s: iteration stops early", what);
				for (std::size_t i : { p, q, std::size_t(0), total - 1 }) if (auto f = live.find(i); f != live.end()) MC_CHECK(pool.RetrieveEntryIndex(f->second.first) == i, "retrieve", "%s: address of index %zu", what, i);
			};
			verify("filled");
			std::set<std::size_t> freed{ p, q };
			for (std::size_t f : freed) { MC_CHECK(live.count(f), "index-range", "index %zu was never given", f); pool.Free(f); live.erase(f); }
			x.step();
			verify("freed");
			for (std::size_t k = 0; k < freed.size(); ++k) add(unsigned(k + 77)); // reused before anything grows
			verify("reallocated");
			for (std::size_t f : freed) MC_CHECK(live.count(f), "reuse", "freed entry %zu was not reused", f);
			Nz::MemoryPool<unsigned> other(std::move(pool));
			MC_CHECK(other.GetAllocatedEntryCount() == live.size() && *other.RetrieveFromIndex(p) == live[p].second, "move", "moved pool");
			other.Reset();
			MC_CHECK(other.GetAllocatedEntryCount() == 0 && other.GetFreeEntryCount() == blocks * blockSize && other.begin() == other.end(), "reset", "after Reset");
			mc::outcome(blockSize * 1000 + freed.size());
		});
	}
}
MC_SUITE(large_pools) { pools(); }
// more than 65536 blocks
MC_SUITE(many_blocks)
{
	const std::size_t total = 65540;
	Nz::MemoryPool<unsigned> pool(1);
	std::vector<unsigned*> entries(total);
	auto verify = [&](std::size_t live, const char* what)
	{
		MC_CHECK(pool.GetBlockCount() == total && pool.GetAllocatedEntryCount() == live && pool.GetFreeEntryCount() == total - live, "counters", "%s: %zu blocks, %zu allocated, %zu free", what, pool.GetBlockCount(), pool.GetAllocatedEntryCount(), pool.GetFreeEntryCount());
		std::size_t i = 0;
		for (auto it = pool.begin(); it != pool.end(); ++it, ++i)
		{
			while (i < total && !entries[i]) ++i;
			MC_CHECK(i < total && it.GetIndex() == i && &*it == entries[i] && *it == unsigned(i * 2654435761u), "iteration", "%s: iteration visits index %zu, expected %zu", what, it.GetIndex(), i);
		}
		while (i < total && !entries[i]) ++i;
		MC_CHECK(i == total, "iteration", "%s: iteration stops early", what);
	};
	for (std::size_t i = 0; i < total; ++i)
	{
		std::size_t index = ~std::size_t(0);
		entries[i] = pool.Allocate(index, unsigned(i * 2654435761u));
		MC_CHECK(index == i, "index-range", "index %zu for the entry %zu of a full pool", index, i);
	}
	verify(total, "filled");
	for (std::size_t i : { std::size_t(0), std::size_t(255), std::size_t(256), std::size_t(65535), std::size_t(65536), std::size_t(65537), total - 1 })
	{
		mc::point(i);
		MC_CHECK(pool.RetrieveFromIndex(i) == entries[i] && pool.RetrieveEntryIndex(entries[i]) == i, "retrieve", "index %zu", i);
		pool.Free(i);
		unsigned* old = entries[i]; entries[i] = nullptr;
		verify(total - 1, "freed");
		std::size_t index = ~std::size_t(0);
		entries[i] = pool.Allocate(index, unsigned(i * 2654435761u));
		MC_CHECK(index == i && entries[i] == old, "reuse", "freed entry %zu was not reused", i);
		if (i == total - 1) { pool.Free(i); pool.Allocate(Nz::MemoryPool<unsigned>::DeferConstruct, index); MC_CHECK(index == i, "reuse", "freed entry %zu was not reused", i); pool.Free(i, Nz::MemoryPool<unsigned>::NoDestruction); entries[i] = nullptr; }
	}
	verify(total - 1, "last one freed");
	pool.Reset();
	for (auto& e : entries) e = nullptr;
	verify(0, "reset");
}
#endif

#if MC_PART == 6 || MC_PART == 7 // C10, C11: signals with many slots
namespace
{
	using Sig = Nz::Signal<int>;
	void signals(bool guards)
	{
		mc::forAll([&](mc::Exec& x)
		{
			const std::size_t n = oneOf(x, Small);
			const auto positions = below(n - 1);
			const unsigned count = unsigned(positions.size());
			const std::size_t p = positions[x.choose(count)], q = positions[x.choose(count)];
			const unsigned how = x.choose(guards ? 3 : 4);
			MC_NOTE("%zu slots, act on %zu and %zu, way %u", n, p, q, how);
			Sig sig;
			std::vector<unsigned> calls(n, 0);
			std::vector<std::size_t> order;
			std::vector<Sig::Connection> connections(n);
			std::vector<Sig::ConnectionGuard> held(guards ? n : 0);
			bool act = false;
			for (std::size_t i = 0; i < n; ++i)
			{
				auto f = [&, i](int v)
				{
					MC_CHECK(v == 5, "argument", "argument %d", v);
					calls[i]++; order.push_back(i);
					if (act && i == p) { act = false; connections[q].Disconnect(); }
				};
				if (guards) { held[i].Connect(sig, f); } else connections[i].Connect(sig, f);
			}
			sig(5);
			for (std::size_t i = 0; i < n; ++i) MC_CHECK(calls[i] == 1 && order[i] == i, "first-emission", "slot %zu of %zu called %u times", i, n, calls[i]);
			std::fill(calls.begin(), calls.end(), 0u);
			std::vector<bool> gone(n, false);
			auto connected = [&](std::size_t i) { return guards ? held[i].IsConnected() : connections[i].IsConnected(); };
			auto drop = [&](std::size_t i) { if (gone[i]) return; if (guards) held[i].Disconnect(); else connections[i].Disconnect(); gone[i] = true; };
			bool qCalled = true;
			switch (how)
			{
				case 0: drop(p); drop(q); break;
				case 1: for (std::size_t i = std::min(p, q); i <= std::max(p, q); ++i) drop(i); break;
				case 2:
				{
					drop(p);
					Sig other(std::move(sig)); sig = std::move(other);
					drop(q);
					break;
				}
				case 3: act = true; sig(5); gone[q] = true; qCalled = q <= p; for (std::size_t i = 0; i < n; ++i) MC_CHECK(calls[i] == (i == q ? unsigned(qCalled) : 1u), "disconnect-while-emitting", "slot %zu called %u times when slot %zu disconnects slot %zu of %zu", i, calls[i], p, q, n); std::fill(calls.begin(), calls.end(), 0u); break;
			}
			x.step();
			for (std::size_t i = 0; i < n; ++i) MC_CHECK(connected(i) == !gone[i], "connected", "slot %zu of %zu reports connected %d", i, n, connected(i));
			sig(5);
			for (std::size_t i = 0; i < n; ++i) MC_CHECK(calls[i] == !gone[i], "emission", "slot %zu of %zu called %u times", i, n, calls[i]);
			sig.Clear();
			for (std::size_t i = 0; i < n; ++i) MC_CHECK(!connected(i), "connected", "slot %zu still connected after Clear", i);
			std::fill(calls.begin(), calls.end(), 0u);
			sig(5);
			for (std::size_t i = 0; i < n; ++i) MC_CHECK(!calls[i], "emission", "slot %zu called after Clear", i);
			mc::outcome(n * 8 + how);
		});
	}
}
#endif
#if MC_PART == 6
MC_SUITE(large_signals) { signals(false); }
#elif MC_PART == 7
MC_SUITE(large_guards) { signals(true); }
#endif

#if MC_PART == 8 // C03: equality and ordering of large bitsets
namespace
{
	template<typename Block> void orders(const std::vector<std::size_t>& sizes)
	{
		using B = Nz::Bitset<Block>;
		mc::forAll([&](mc::Exec& x)
		{
			const std::size_t n = oneOf(x, sizes), k = oneOf(x, sizes);
			const std::vector<std::size_t> positions = { 0, 8, 23, 256, 65535, 65536, std::min(n, k) - 9, std::min(n, k) - 1, std::size_t(-1) }; // (the last: the highest bit of each)
			auto pick = [&](std::size_t size) { std::size_t p = oneOf(x, positions); return std::min(p, size - 1); };
			const std::size_t p = pick(n), q = pick(k);
			const unsigned noise = x.choose(3);
			B a(n, false), b(k, false);
			a.Set(p, true); b.Set(q, true);
			if (noise == 2 && p < k) b.Set(p, true); // the bits of a are bits of b as well
			if (noise == 1) { a.Set(0, true); b.Set(1, true); }
			x.step();
			// as numbers: the highest member which is not shared decides
			std::set<std::size_t> l { p }, r { q };
			if (noise == 1) { l.insert(0); r.insert(1); }
			if (noise == 2 && p < k) r.insert(p);
			int expected = 0;
			std::vector<std::size_t> only;
			std::set_symmetric_difference(l.begin(), l.end(), r.begin(), r.end(), std::back_inserter(only));
			if (!only.empty()) expected = l.count(only.back()) ? 1 : -1;
			MC_NOTE("%zu bits with %zu against %zu bits with %zu, noise %u", n, p, k, q, noise);
			MC_CHECK((a == b) == (expected == 0) && (a != b) == (expected != 0) && (b == a) == (expected == 0), "equality", "expected order %d", expected);
			MC_CHECK((a < b) == (expected < 0) && (a > b) == (expected > 0) && (a <= b) == (expected <= 0) && (a >= b) == (expected >= 0), "order", "expected order %d", expected);
			mc::outcome(unsigned(expected + 1));
		});
	}
}
MC_SUITE(large_8) { orders<Nz::UInt8>({ 24, 2040, 2048, 2049, 65536, 65537, 524287, 524288, 524289, 524300 }); }
MC_SUITE(large_64) { orders<Nz::UInt64>({ 16383, 16384, 16385, 65536, 65537 }); }
#endif
