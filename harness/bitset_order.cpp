// C03: equality and ordering of Bitset are those of the binary numbers, whatever the sizes.
#include "bitset_common.hpp"

namespace
{
	int compareBits(const Bits& a, const Bits& b)
	{
		for (std::size_t i = std::max(a.size(), b.size()); i-- > 0;)
		{
			int x = i < a.size() ? a[i] : 0, y = i < b.size() ? b[i] : 0;
			if (x != y) return x < y ? -1 : 1;
		}
		return 0;
	}
	template<typename B> void compare(const B& a, const B& b, const Bits& ma, const Bits& mb)
	{
		int want = compareBits(ma, mb);
		auto check = [&](const char* op, bool got, bool expected)
		{
			MC_CHECK(got == expected, "compare", "%s %s %s is %d", show(ma).c_str(), op, show(mb).c_str(), int(got));
		};
		check("==", a == b, want == 0);
		check("!=", a != b, want != 0);
		check("<", a < b, want < 0);
		check("<=", a <= b, want <= 0);
		check(">", a > b, want > 0);
		check(">=", a >= b, want >= 0);
		g_count();
	}
	template<typename B> B dirty(const Bits& m) // storage that held ones past the end
	{
		B b(m.size() + B::bitsPerBlock + 1, true);
		b.Resize(m.size());
		for (std::size_t i = 0; i < m.size(); ++i) if (!m[i]) b.Reset(i);
		b.Flip(); b.Flip();
		return b;
	}
	template<typename B> void pairsOf(const std::vector<Bits>& states)
	{
		mc::pointName("pair of states");
		std::vector<B> built, second;
		for (const Bits& m : states) { built.push_back(makeBitset<B>(m)); second.push_back(dirty<B>(m)); }
		for (std::size_t i = 0; i < states.size(); ++i)
			for (std::size_t j = 0; j < states.size(); ++j)
			{
				mc::point(i, j, states[i].size(), states[j].size());
				compare(built[i], second[j], states[i], states[j]);
			}
	}
	template<typename B> void all(std::size_t maxBits)
	{
		std::vector<Bits> states;
		for (std::size_t n = 0; n <= maxBits; ++n)
			for (mc::u64 v = 0; v < (mc::u64(1) << n); ++v) states.push_back(fromValue(n, v));
		pairsOf<B>(states);
	}
	// up to `bits` chosen bits around every block boundary: every combination of them, in several sizes
	template<typename B> void boundary(unsigned blocks)
	{
		constexpr std::size_t W = B::bitsPerBlock;
		std::vector<std::size_t> pos;
		for (unsigned k = 0; k < blocks; ++k) { pos.push_back(k * W); pos.push_back(k * W + W - 1); }
		std::vector<Bits> states;
		for (std::size_t n : { W, W + 1, 2 * W, 2 * W + 1, blocks * W, blocks * W + 5 })
			for (unsigned mask = 0; mask < (1u << pos.size()); ++mask)
			{
				Bits m(n); bool fits = true;
				for (std::size_t i = 0; i < pos.size(); ++i) if (mask >> i & 1) { if (pos[i] < n) m[pos[i]] = 1; else fits = false; }
				if (fits) states.push_back(m);
			}
		pairsOf<B>(states);
	}
}
MC_SUITE(order_all8) { all<VecBitset<Nz::UInt8>>(MC_SAN ? mc::pick(8, 9) : mc::pick(10, 12)); }
MC_SUITE(order_pat8) { pairsOf<VecBitset<Nz::UInt8>>(patternStates<VecBitset<Nz::UInt8>>(mc::pick(5, 8))); }
MC_SUITE(order_pat16) { pairsOf<VecBitset<Nz::UInt16>>(patternStates<VecBitset<Nz::UInt16>>(mc::pick(4, 6))); }
MC_SUITE(order_pat32) { pairsOf<VecBitset<Nz::UInt32>>(patternStates<VecBitset<Nz::UInt32>>(mc::pick(4, 6))); }
MC_SUITE(order_pat64) { pairsOf<VecBitset<Nz::UInt64>>(patternStates<VecBitset<Nz::UInt64>>(mc::pick(4, 6))); }
MC_SUITE(order_hyb8) { pairsOf<HybBitset<Nz::UInt8>>(patternStates<HybBitset<Nz::UInt8>>(4)); }
MC_SUITE(order_fix16) { pairsOf<FixBitset<Nz::UInt16>>(patternStates<FixBitset<Nz::UInt16>>(3)); }
MC_SUITE(order_bound8) { boundary<VecBitset<Nz::UInt8>>(mc::pick(4, 6)); }
MC_SUITE(order_bound32) { boundary<VecBitset<Nz::UInt32>>(mc::pick(4, 5)); }
MC_SUITE(order_bound64) { boundary<VecBitset<Nz::UInt64>>(mc::pick(4, 5)); }
