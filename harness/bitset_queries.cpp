// C02: every query of Bitset, on every state, reached in several ways, against a plain sequence of bits.
#include "bitset_common.hpp"

namespace
{
	template<typename B, typename T>
	void checkTo(const B& b, const Bits& m, const char* way)
	{
		if (m.size() > 8 * sizeof(T)) return;
		mc::u64 want = 0;
		for (std::size_t i = 0; i < m.size(); ++i) want |= mc::u64(m[i]) << i;
		T got = b.template To<T>();
		MC_CHECK(mc::u64(got) == want, "to", "To<%zu bits>() is %llx instead of %llx on %s (%s)", 8 * sizeof(T), (unsigned long long)got, (unsigned long long)want, show(m).c_str(), way);
	}

	template<typename B>
	void queries(const B& b, const Bits& m, const char* way)
	{
		const std::size_t n = m.size();
		std::vector<std::size_t> ones;
		for (std::size_t i = 0; i < n; ++i) if (m[i]) ones.push_back(i);
		auto text = [&] { return show(m) + " (" + way + ")"; };
		MC_NOTE("queries on %s", text().c_str());
		MC_CHECK(b.GetSize() == n, "size", "GetSize() %zu on %s", b.GetSize(), text().c_str());
		MC_CHECK(b.Count() == ones.size(), "count", "Count() %zu on %s", b.Count(), text().c_str());
		MC_CHECK(b.TestAll() == (ones.size() == n), "testall", "TestAll() %d on %s", int(b.TestAll()), text().c_str());
		MC_CHECK(b.TestAny() == !ones.empty(), "testany", "TestAny() %d on %s", int(b.TestAny()), text().c_str());
		MC_CHECK(b.TestNone() == ones.empty(), "testnone", "TestNone() %d on %s", int(b.TestNone()), text().c_str());
		MC_CHECK(b.FindFirst() == (ones.empty() ? B::npos : ones[0]), "findfirst", "FindFirst() %zu on %s", b.FindFirst(), text().c_str());
		std::size_t next = B::npos;
		for (std::size_t i = n; i-- > 0;)
		{
			MC_CHECK(b.FindNext(i) == next, "findnext", "FindNext(%zu) %zu instead of %zu on %s", i, b.FindNext(i), next, text().c_str());
			MC_CHECK(b.Test(i) == bool(m[i]) && b[i] == bool(m[i]) && b.UnboundedTest(i) == bool(m[i]), "test", "Test(%zu) on %s", i, text().c_str());
			if (m[i]) next = i;
		}
		for (std::size_t i : { n, n + 1, n + B::bitsPerBlock - 1, n + B::bitsPerBlock, 3 * n + 1000 })
			MC_CHECK(!b.UnboundedTest(i), "test", "UnboundedTest(%zu) true on %s", i, text().c_str());
		{
			std::vector<std::size_t> seen, post;
			for (std::size_t i : b.IterBits()) { seen.push_back(i); MC_CHECK(seen.size() <= n, "iterate", "iteration visits more than the %zu bits on %s", n, text().c_str()); }
			MC_CHECK(seen == ones, "iterate", "iteration visits the wrong bits on %s", text().c_str());
			auto range = b.IterBits();
			auto it = range.begin(), end = range.end();
			MC_CHECK((it == end) == ones.empty() && (it != end) == !ones.empty(), "iterate", "begin/end comparison on %s", text().c_str());
			while (it != end)
			{
				auto before = it;
				auto old = it++;
				MC_CHECK(*old == *before && old == before && it != old, "iterate", "post-increment on %s", text().c_str());
				post.push_back(*old);
				MC_CHECK(post.size() <= n, "iterate", "post-increment iteration does not end on %s", text().c_str());
				auto& same = ++before;
				MC_CHECK(&same == &before && before == it, "iterate", "pre-increment on %s", text().c_str());
			}
			MC_CHECK(post == ones, "iterate", "post-increment iteration visits the wrong bits on %s", text().c_str());
		}
		std::string want = show(m).substr(1, n);
		MC_CHECK(b.ToString() == want, "tostring", "ToString() %s on %s", b.ToString().c_str(), text().c_str());
		checkTo<B, Nz::UInt8>(b, m, way); checkTo<B, Nz::UInt16>(b, m, way); checkTo<B, Nz::UInt32>(b, m, way); checkTo<B, Nz::UInt64>(b, m, way);
		g_count();
	}

	template<typename B>
	void stream(const Bits& m)
	{
		B b = makeBitset<B>(m);
		std::ostringstream os;
		os << b << '!';
		MC_CHECK(os.str() == show(m).substr(1, m.size()) + "!", "stream", "streamed as %s on %s", os.str().c_str(), show(m).c_str());
	}

	// the same bits, reached in different ways: what the unused part of the storage went through differs
	template<typename B>
	void allWays(const Bits& m, bool withStream)
	{
		constexpr std::size_t W = B::bitsPerBlock;
		const std::size_t n = m.size();
		B direct = makeBitset<B>(m);
		queries(direct, m, "set bit by bit");
		{ Bits inv = m; for (char& c : inv) c = !c; B b = makeBitset<B>(inv); b.Flip(); queries(b, m, "flip of the complement"); queries(~makeBitset<B>(inv), m, "operator~ of the complement"); }
		{ B b(n + W + 3, true); b.Resize(n); for (std::size_t i = 0; i < n; ++i) b.Set(i, m[i]); queries(b, m, "shrunk from all ones"); }
		{ B b(n, true); for (std::size_t i = 0; i < n; ++i) if (!m[i]) b.Reset(i); queries(b, m, "all ones, then reset bits"); }
		{ B b(n, true); b &= direct; queries(b, m, "all ones AND"); }
		{ B b; for (std::size_t i = n; i-- > 0;) b.UnboundedSet(i, m[i]); if (b.GetSize() < n) b.Resize(n); queries(b, m, "unbounded sets"); }
		{
			B b(n, false);
			for (std::size_t i = 0; i < b.GetBlockCount(); ++i)
			{
				mc::u64 v = ~mc::u64(0); // garbage past the end on purpose
				for (std::size_t j = 0; j < W && i * W + j < n; ++j) if (!m[i * W + j]) v &= ~(mc::u64(1) << j);
				b.SetBlock(i, static_cast<BlockOf<B>>(v));
			}
			queries(b, m, "whole blocks");
		}
		if (n > 0)
		{
			B b = direct; b.Resize(n + 1); b <<= 1; b >>= 1; b.Resize(n); queries(b, m, "shifted left and right");
			B c = direct; c.Resize(n + W, true); c.Reverse(); c.Reverse(); c.Resize(n); queries(c, m, "reversed twice, longer");
		}
		{
			std::vector<Nz::UInt8> bytes((n + 7) / 8, 0xFF);
			for (std::size_t i = 0; i < n; ++i) if (!m[i]) bytes[i / 8] = Nz::UInt8(bytes[i / 8] & ~(1u << (i % 8)));
			if (n > 0) queries(B::FromPointer(bytes.data(), n), m, "from bytes with garbage past the end");
			B b;
			for (std::size_t i = 0; i < n; i += 7)
				b.AppendBits(Nz::UInt8(((bytes[i / 8] | ((i / 8 + 1 < bytes.size() ? bytes[i / 8 + 1] : 0xFF) << 8)) >> (i % 8)) & 0xFF), std::min<std::size_t>(7, n - i));
			queries(b, m, "appended by 7 bits with garbage");
		}
		{ B b(show(m).substr(1, n)); queries(b, m, "from a string"); }
		{ B b = direct; B moved(std::move(b)); queries(moved, m, "moved"); B c(direct); queries(c, m, "copied"); }
		if (withStream) stream<B>(m);
	}

	template<typename B> void allStates(std::size_t maxBits)
	{
		mc::pointName("state(size,value)");
		for (std::size_t n = 0; n <= maxBits; ++n)
			for (mc::u64 v = 0; v < (mc::u64(1) << n); ++v)
			{
				mc::point(n, v);
				allWays<B>(fromValue(n, v), v % 16 == 5);
			}
	}
	template<typename B> void patterns(unsigned maxBlocks)
	{
		mc::pointName("pattern index");
		auto states = patternStates<B>(maxBlocks);
		for (std::size_t i = 0; i < states.size(); ++i)
		{
			mc::point(i, states[i].size());
			allWays<B>(states[i], true);
		}
	}
	// one or two bits anywhere in a set of several blocks
	template<typename B> void sparse(std::size_t n)
	{
		mc::pointName("sparse(size,bit,bit)");
		for (std::size_t i = 0; i < n; ++i)
			for (std::size_t j = i; j < n; ++j)
			{
				mc::point(n, i, j);
				Bits m(n); m[i] = m[j] = 1;
				queries(makeBitset<B>(m), m, "sparse");
				for (char& c : m) c = !c;
				queries(makeBitset<B>(m), m, "dense");
			}
	}
	template<typename B> void intersects(const Bits& ma, const Bits& mb)
	{
		bool want = false;
		for (std::size_t i = 0; i < std::min(ma.size(), mb.size()); ++i) want |= ma[i] && mb[i];
		B a = makeBitset<B>(ma), b(mb.size(), true);
		for (std::size_t i = 0; i < mb.size(); ++i) if (!mb[i]) b.Reset(i);
		MC_CHECK(a.Intersects(b) == want && b.Intersects(a) == want, "intersects", "Intersects() of %s and %s", show(ma).c_str(), show(mb).c_str());
		a.Flip(); a.Flip();
		MC_CHECK(a.Intersects(b) == want && b.Intersects(a) == want, "intersects", "Intersects() of %s and %s after flips", show(ma).c_str(), show(mb).c_str());
	}
	template<typename B> void allPairs(std::size_t maxBits)
	{
		mc::pointName("pair(size,value,size,value)");
		for (std::size_t n = 0; n <= maxBits; ++n)
			for (mc::u64 v = 0; v < (mc::u64(1) << n); ++v)
				for (std::size_t k = 0; k <= maxBits; ++k)
					for (mc::u64 w = 0; w < (mc::u64(1) << k); ++w)
					{
						mc::point(n, v, k, w);
						intersects<B>(fromValue(n, v), fromValue(k, w));
					}
	}
	template<typename B> void patternPairs(unsigned maxBlocks)
	{
		mc::pointName("pattern pair");
		auto states = patternStates<B>(maxBlocks);
		for (std::size_t i = 0; i < states.size(); ++i)
			for (std::size_t j = 0; j < states.size(); ++j)
			{
				mc::point(i, j);
				intersects<B>(states[i], states[j]);
			}
	}
}

#if MC_PART == 0
MC_SUITE(q_all_vec8) { allStates<VecBitset<Nz::UInt8>>(MC_SAN ? mc::pick(11, 13) : mc::pick(15, 18)); }
MC_SUITE(q_all_hyb8) { allStates<HybBitset<Nz::UInt8>>(MC_SAN ? mc::pick(10, 12) : mc::pick(14, 17)); }
MC_SUITE(q_all_vec16) { allStates<VecBitset<Nz::UInt16>>(MC_SAN ? mc::pick(10, 12) : mc::pick(15, 18)); }
MC_SUITE(q_pat_vec8) { patterns<VecBitset<Nz::UInt8>>(mc::pick(6, 9)); }
MC_SUITE(q_pat_vec16) { patterns<VecBitset<Nz::UInt16>>(mc::pick(5, 8)); }
MC_SUITE(q_sparse8) { sparse<VecBitset<Nz::UInt8>>(mc::pick(41, 57)); }
#else
MC_SUITE(q_pat_vec32) { patterns<VecBitset<Nz::UInt32>>(mc::pick(5, 8)); }
MC_SUITE(q_pat_vec64) { patterns<VecBitset<Nz::UInt64>>(mc::pick(5, 8)); }
MC_SUITE(q_pat_fix64) { patterns<FixBitset<Nz::UInt64>>(4); }
MC_SUITE(q_pat_hyb32) { patterns<HybBitset<Nz::UInt32>>(4); }
MC_SUITE(q_sparse32) { sparse<VecBitset<Nz::UInt32>>(mc::pick(70, 100)); }
MC_SUITE(q_sparse64) { sparse<VecBitset<Nz::UInt64>>(MC_SAN ? mc::pick(72, 132) : mc::pick(132, 196)); }
MC_SUITE(q_intersects_all) { allPairs<VecBitset<Nz::UInt8>>(mc::pick(8, 10)); }
MC_SUITE(q_intersects_vec8) { patternPairs<VecBitset<Nz::UInt8>>(mc::pick(4, 5)); }
MC_SUITE(q_intersects_vec64) { patternPairs<VecBitset<Nz::UInt64>>(mc::pick(3, 4)); }
#endif
