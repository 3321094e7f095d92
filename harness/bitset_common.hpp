#pragma once
#include <NazaraUtils/Bitset.hpp>
#include <NazaraUtils/FixedVector.hpp>
#include "mc.hpp"
#include <sstream>

inline void g_count() { mc::g_sh->transitions++; }

// Reference model: a sequence of bits, index 0 first.
using Bits = std::vector<char>;

inline std::string show(const Bits& b) // most significant first, like the library's strings
{
	std::string s;
	for (std::size_t i = b.size(); i > 0; --i) s += b[i - 1] ? '1' : '0';
	return "'" + s + "'";
}
inline Bits fromValue(std::size_t n, mc::u64 v) { Bits b(n); for (std::size_t i = 0; i < n; ++i) b[i] = i < 64 ? (v >> i) & 1 : 0; return b; }
inline std::size_t popcount(const Bits& b) { std::size_t c = 0; for (char x : b) c += x; return c; }

template<typename B> using BlockOf = std::decay_t<decltype(std::declval<const B&>().GetBlock(0))>;

template<typename B>
B makeBitset(const Bits& m)
{
	B b(m.size(), false);
	for (std::size_t i = 0; i < m.size(); ++i)
		if (m[i]) b.Set(i, true);
	return b;
}

// Everything observable agrees with the model (queries are C02's subject; here they reveal stray state)
template<typename B>
void expectSlow(const B& b, const Bits& m, const char* what)
{
	MC_CHECK(b.GetSize() == m.size(), "size", "%s: size %zu, expected %zu", what, b.GetSize(), m.size());
	for (std::size_t i = 0; i < m.size(); ++i)
		MC_CHECK(b.Test(i) == bool(m[i]), "bit", "%s: bit %zu is %d, expected %d (model %s, bitset %s)", what, i, int(b.Test(i)), int(m[i]), show(m).c_str(), b.ToString().c_str());
	MC_CHECK(b.Count() == popcount(m), "stray-bits", "%s: Count() is %zu, expected %zu (%s)", what, b.Count(), popcount(m), show(m).c_str());
	MC_CHECK(b.TestAny() == (popcount(m) != 0), "stray-bits", "%s: TestAny() wrong (%s)", what, show(m).c_str());
	// stray bits past the end show up once the set grows
	B grown(b);
	grown.Resize(m.size() + 2 * B::bitsPerBlock, false);
	MC_CHECK(grown.Count() == popcount(m), "stray-bits", "%s: growing reveals stray bits (%s)", what, show(m).c_str());
	for (std::size_t i = 0; i < grown.GetSize(); ++i)
		MC_CHECK(grown.Test(i) == (i < m.size() && m[i]), "stray-bits", "%s: growing reveals a stray bit %zu (%s)", what, i, show(m).c_str());
	MC_CHECK(b == makeBitset<B>(m), "equality", "%s: not equal to a freshly built bitset with the same bits %s", what, show(m).c_str());
}

// fast path: blocks are exactly the packed model with clear unused bits
template<typename B>
void expect(const B& b, const Bits& m, const char* what)
{
	constexpr std::size_t W = B::bitsPerBlock;
	if (b.GetSize() == m.size() && b.GetBlockCount() == (m.size() + W - 1) / W)
	{
		bool same = true;
		for (std::size_t i = 0; i < b.GetBlockCount() && same; ++i)
		{
			mc::u64 v = 0;
			for (std::size_t j = i * W; j < m.size() && j < (i + 1) * W; ++j)
				v |= mc::u64(m[j]) << (j - i * W);
			same = mc::u64(b.GetBlock(i)) == v;
		}
		if (same)
			return;
	}
	expectSlow(b, m, what);
}

// structured states: sizes around block boundaries, patterns around block boundaries
template<typename B>
std::vector<Bits> patternStates(unsigned maxBlocks, bool few = false)
{
	constexpr std::size_t W = B::bitsPerBlock;
	std::set<std::size_t> sizes = { 0, 1, 2, 5 };
	for (std::size_t k = 1; k <= maxBlocks; ++k)
		for (int d = -1; d <= 1; ++d)
			sizes.insert(std::size_t(int(k * W) + d));
	std::set<std::pair<std::size_t, Bits>> out;
	for (std::size_t n : sizes)
	{
		auto add = [&](auto f) { Bits b(n); for (std::size_t i = 0; i < n; ++i) b[i] = f(i) ? 1 : 0; out.insert({ n, b }); };
		add([](std::size_t) { return false; });
		add([](std::size_t) { return true; });
		add([](std::size_t i) { return (i * 7 + i / 5) % 3 == 0; });
		if (!few)
		{
			add([](std::size_t i) { return i % 2 == 0; });
			add([](std::size_t i) { return (i / W) % 2 == 0; });
			add([](std::size_t i) { return (i / W) % 2 == 1; });
		}
		std::set<std::size_t> pos = { 0, n / 2 };
		if (n > 0) pos.insert(n - 1);
		for (std::size_t k = 1; k <= maxBlocks; ++k) { pos.insert(k * W); pos.insert(k * W - 1); }
		for (std::size_t p : pos)
		{
			if (p >= n) continue;
			add([&](std::size_t i) { return i == p; });
			if (!few) add([&](std::size_t i) { return i != p; });
		}
	}
	std::vector<Bits> v;
	for (auto& [n, b] : out) v.push_back(b);
	return v;
}

template<typename Block> using VecBitset = Nz::Bitset<Block>;
template<typename Block> using FixBitset = Nz::Bitset<Block, Nz::FixedVector<Block, 8>>;
template<typename Block> using HybBitset = Nz::Bitset<Block, Nz::HybridVector<Block, 2>>;
