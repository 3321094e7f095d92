// C01: every mutating operation of Bitset against a plain sequence of bits.
#include "bitset_common.hpp"

namespace
{
	Bits shl(const Bits& m, std::size_t p) { Bits r(m.size()); for (std::size_t i = 0; i < m.size(); ++i) r[i] = i >= p ? m[i - p] : 0; return r; }
	Bits shr(const Bits& m, std::size_t p) { Bits r(m.size()); for (std::size_t i = 0; i < m.size(); ++i) r[i] = (p < m.size() && i + p < m.size()) ? m[i + p] : 0; return r; }
	Bits neg(Bits m) { for (char& c : m) c = !c; return m; }
	template<typename F> Bits zip(const Bits& a, const Bits& b, F f)
	{
		Bits r(std::max(a.size(), b.size()));
		for (std::size_t i = 0; i < r.size(); ++i) r[i] = f(i < a.size() && a[i], i < b.size() && b[i]) ? 1 : 0;
		return r;
	}
	template<typename B> Bits blockSet(Bits m, std::size_t i, mc::u64 v)
	{
		for (std::size_t j = 0; j < B::bitsPerBlock; ++j)
			if (i * B::bitsPerBlock + j < m.size()) m[i * B::bitsPerBlock + j] = (v >> j) & 1;
		return m;
	}

	// every unary operation with every argument in range, from one state
	template<typename B>
	void unaryOps(const Bits& m, bool allArgs)
	{
		const std::size_t n = m.size();
		constexpr std::size_t W = B::bitsPerBlock;
		const B base = makeBitset<B>(m);
		expect(base, m, "construction");
		auto run = [&](const char* what, std::size_t arg, const Bits& want, auto f)
		{
			MC_NOTE("%s(%zu) on %s", what, arg, show(m).c_str());
			B b(base);
			f(b);
			g_count();
			expect(b, want, what);
		};
		run("Flip", 0, neg(m), [](B& b) { b.Flip(); });
		run("operator~", 0, neg(m), [&](B& b) { b = ~base; });
		run("PerformsNOT(self)", 0, neg(m), [&](B& b) { b.PerformsNOT(b); });
		run("Reset", 0, Bits(n), [](B& b) { b.Reset(); });
		run("Set(true)", 0, Bits(n, 1), [](B& b) { b.Set(); });
		run("Set(false)", 0, Bits(n), [](B& b) { b.Set(false); });
		run("Clear", 0, Bits(), [](B& b) { b.Clear(); });
		run("Reverse", 0, Bits(m.rbegin(), m.rend()), [](B& b) { b.Reverse(); });
		run("self-AND", 0, m, [](B& b) { b &= b; });
		run("self-OR", 0, m, [](B& b) { b |= b; });
		run("self-XOR", 0, Bits(n), [](B& b) { b ^= b; });
		run("copy", 0, m, [&](B& b) { B c(b); b.Clear(); b = c; expect(c, m, "copied-from"); });
		run("move", 0, m, [&](B& b) { B c(std::move(b)); b = std::move(c); });
		run("swap", 0, m, [&](B& b) { B c; c.Swap(b); expect(b, Bits(), "swap with empty"); expect(c, m, "swap"); std::swap(b, c); expect(c, Bits(), "std::swap"); });
		run("self-assignment", 0, m, [&](B& b) { auto& r = b; b = r; });
		std::set<std::size_t> args;
		for (std::size_t i = 0; i <= n + W + 1; ++i)
			if (allArgs || i < 2 || i + 2 > n || i % W < 2 || i % W == W - 1 || i % W == W / 2) args.insert(i);
		for (std::size_t p : args)
		{
			run("ShiftLeft", p, shl(m, p), [&](B& b) { b.ShiftLeft(p); });
			run("ShiftRight", p, shr(m, p), [&](B& b) { b.ShiftRight(p); });
			run("operator<<", p, shl(m, p), [&](B& b) { b = base << p; });
			run("operator>>", p, shr(m, p), [&](B& b) { b = base >> p; });
			run("operator<<=", p, shl(m, p), [&](B& b) { B& r = (b <<= p); MC_CHECK(&r == &b, "chain", "<<= does not return its object"); });
			run("operator>>=", p, shr(m, p), [&](B& b) { B& r = (b >>= p); MC_CHECK(&r == &b, "chain", ">>= does not return its object"); });
			Bits r0 = m; r0.resize(p, 0);
			Bits r1 = m; r1.resize(p, 1);
			run("Resize(false)", p, r0, [&](B& b) { b.Resize(p); });
			run("Resize(true)", p, r1, [&](B& b) { b.Resize(p, true); });
			if (p <= 2 * n)
				run("Reserve", p, m, [&](B& b) { b.Reserve(p); MC_CHECK(b.GetCapacity() >= p, "capacity", "capacity %zu after Reserve(%zu)", b.GetCapacity(), p); });
			for (int v = 0; v < 2; ++v)
			{
				Bits u = m;
				if (p < n) u[p] = char(v); else if (v) { u.resize(p + 1, 0); u[p] = 1; }
				run(v ? "UnboundedSet(true)" : "UnboundedSet(false)", p, u, [&](B& b) { b.UnboundedSet(p, v != 0); });
				if (!v) run("UnboundedReset", p, u, [&](B& b) { b.UnboundedReset(p); });
				run("UnboundedTest", p, m, [&](B& b) { MC_CHECK(b.UnboundedTest(p) == (p < n && m[p]), "bit", "UnboundedTest(%zu)", p); });
				if (p < n)
				{
					Bits s = m; s[p] = char(v);
					run("Set(bit)", p, s, [&](B& b) { b.Set(p, v != 0); });
					run("[]=", p, s, [&](B& b) { b[p] = (v != 0); });
					run("Bit::Set", p, s, [&](B& b) { b[p].Set(v != 0); });
					Bits o = m; o[p] = o[p] | v;
					run("Bit |=", p, o, [&](B& b) { b[p] |= (v != 0); });
					o = m; o[p] = o[p] & v;
					run("Bit &=", p, o, [&](B& b) { b[p] &= (v != 0); });
					o = m; o[p] = o[p] ^ v;
					run("Bit ^=", p, o, [&](B& b) { b[p] ^= (v != 0); });
					o = m; if (v) o[p] = 0;
					run("Bit -=", p, o, [&](B& b) { b[p] -= (v != 0); });
				}
			}
			if (p < n)
			{
				Bits s = m; s[p] = 0;
				run("Reset(bit)", p, s, [&](B& b) { b.Reset(p); });
				run("Bit::Reset", p, s, [&](B& b) { b[p].Reset(); });
				s = m; s[p] = !s[p];
				run("Bit::Flip", p, s, [&](B& b) { b[p].Flip(); });
				s = m; s[p] = m[n - 1 - p];
				run("Bit = Bit", p, s, [&](B& b) { b[p] = b[n - 1 - p]; });
				run("Bit reads", p, m, [&](B& b) { MC_CHECK(b[p].Test() == bool(m[p]) && bool(b[p]) == bool(m[p]) && std::as_const(b)[p] == bool(m[p]), "bit", "bit %zu read wrongly", p); });
			}
		}
		for (std::size_t i = 0; i < base.GetBlockCount(); ++i)
			for (mc::u64 v : { mc::u64(0), ~mc::u64(0), mc::u64(0xA5A5A5A5A5A5A5A5ull), mc::u64(1), mc::u64(1) << (W - 1) })
				run("SetBlock", i, blockSet<B>(m, i, v), [&](B& b) { b.SetBlock(i, static_cast<BlockOf<B>>(v)); });
		run("from string", 0, m, [&](B& b)
		{
			std::string s = show(m).substr(1, n);
			b = B(s); expect(b, m, "from std::string");
			b = B(s.c_str()); expect(b, m, "from const char*");
			b = B(s.c_str(), n); expect(b, m, "from const char*, size");
			b = B(std::string_view(s)); expect(b, m, "from string_view");
			b.Clear();
			b = std::string_view(s);
		});
	}

	template<typename B>
	void binaryOps(const Bits& ma, const Bits& mb)
	{
		const B a = makeBitset<B>(ma), b = makeBitset<B>(mb);
		auto fAnd = [](bool x, bool y) { return x && y; };
		auto fOr = [](bool x, bool y) { return x || y; };
		auto fXor = [](bool x, bool y) { return x != y; };
		auto all = [&](const char* what, auto f, auto perform, auto op, auto assign)
		{
			Bits want = zip(ma, mb, f);
			MC_NOTE("%s of %s and %s", what, show(ma).c_str(), show(mb).c_str());
			expect(op(a, b), want, what);
			{ B r(a); B& ref = assign(r, b); MC_CHECK(&ref == &r, "chain", "compound operator does not return its object"); expect(r, want, "compound assignment"); }
			{ B r(b); perform(r, a, r); expect(r, want, "destination aliases the second operand"); }
			{ B r(a); perform(r, r, b); expect(r, want, "destination aliases the first operand"); }
			{ B r(3 * B::bitsPerBlock - 1, true); perform(r, a, b); expect(r, want, "destination bigger than the operands"); }
			g_count();
		};
		all("AND", fAnd, [](B& d, const B& x, const B& y) { d.PerformsAND(x, y); }, [](const B& x, const B& y) { return x & y; }, [](B& x, const B& y) -> B& { return x &= y; });
		all("OR", fOr, [](B& d, const B& x, const B& y) { d.PerformsOR(x, y); }, [](const B& x, const B& y) { return x | y; }, [](B& x, const B& y) -> B& { return x |= y; });
		all("XOR", fXor, [](B& d, const B& x, const B& y) { d.PerformsXOR(x, y); }, [](const B& x, const B& y) { return x ^ y; }, [](B& x, const B& y) -> B& { return x ^= y; });
		{ B r(b); r.PerformsNOT(a); expect(r, neg(ma), "NOT into another bitset"); }
		{ B r(b); r = a; expect(r, ma, "copy assignment"); B s(b); s = B(a); expect(s, ma, "move assignment"); B x(a), y(b); x.Swap(y); expect(x, mb, "swap"); expect(y, ma, "swap"); }
	}

	// all states up to maxBits x all operations x all arguments
	template<typename B>
	void allStates(std::size_t maxBits)
	{
		mc::pointName("state(size,value)");
		for (std::size_t n = 0; n <= maxBits; ++n)
			for (mc::u64 v = 0; v < (mc::u64(1) << n); ++v)
			{
				mc::point(n, v);
				unaryOps<B>(fromValue(n, v), true);
			}
	}
	template<typename B>
	void allPairs(std::size_t maxBits)
	{
		mc::pointName("pair(size,value,size,value)");
		for (std::size_t n = 0; n <= maxBits; ++n)
			for (mc::u64 v = 0; v < (mc::u64(1) << n); ++v)
				for (std::size_t k = 0; k <= maxBits; ++k)
					for (mc::u64 w = 0; w < (mc::u64(1) << k); ++w)
					{
						mc::point(n, v, k, w);
						binaryOps<B>(fromValue(n, v), fromValue(k, w));
					}
	}
	template<typename B>
	void patterns(unsigned maxBlocks)
	{
		mc::pointName("pattern index");
		auto states = patternStates<B>(maxBlocks);
		for (std::size_t i = 0; i < states.size(); ++i)
		{
			mc::point(i, states[i].size());
			unaryOps<B>(states[i], false);
		}
	}
	template<typename B>
	void patternPairs(unsigned maxBlocks)
	{
		mc::pointName("pattern pair");
		auto states = patternStates<B>(maxBlocks, true);
		for (std::size_t i = 0; i < states.size(); ++i)
			for (std::size_t j = 0; j < states.size(); ++j)
			{
				mc::point(i, j, states[i].size(), states[j].size());
				binaryOps<B>(states[i], states[j]);
			}
	}

	// operation histories, nothing merged: hidden bookkeeping left by one operation meets every following operation
	template<typename B>
	void histories(unsigned depth)
	{
		constexpr std::size_t W = B::bitsPerBlock;
		mc::forAll([&](mc::Exec& x)
		{
			B b; Bits m;
			B other(W + 3, false); other.Set(0, true); other.Set(W, true); other.Set(W + 2, true);
			Bits om(W + 3); om[0] = om[W] = om[W + 2] = 1;
			for (unsigned d = 0; d < depth; ++d)
			{
				switch (x.choose(22))
				{
					case 0: MC_NOTE("Resize(%zu,true)", W + 1); b.Resize(W + 1, true); m.resize(W + 1, 1); break;
					case 1: MC_NOTE("Resize(3,true)"); b.Resize(3, true); m.resize(3, 1); break;
					case 2: MC_NOTE("Resize(%zu)", 2 * W); b.Resize(2 * W); m.resize(2 * W, 0); break;
					case 3: MC_NOTE("Resize(0)"); b.Resize(0); m.clear(); break;
					case 4: MC_NOTE("Flip"); b.Flip(); m = neg(m); break;
					case 5: MC_NOTE("Set()"); b.Set(); m.assign(m.size(), 1); break;
					case 6: MC_NOTE("ShiftLeft(1)"); b.ShiftLeft(1); m = shl(m, 1); break;
					case 7: MC_NOTE("ShiftLeft(%zu)", W); b <<= W; m = shl(m, W); break;
					case 8: MC_NOTE("ShiftRight(%zu)", W - 1); b >>= W - 1; m = shr(m, W - 1); break;
					case 9: MC_NOTE("ShiftRight(1)"); b.ShiftRight(1); m = shr(m, 1); break;
					case 10: MC_NOTE("Reverse"); b.Reverse(); std::reverse(m.begin(), m.end()); break;
					case 11: MC_NOTE("AND other"); b &= other; m = zip(m, om, [](bool p, bool q) { return p && q; }); break;
					case 12: MC_NOTE("OR other"); b |= other; m = zip(m, om, [](bool p, bool q) { return p || q; }); break;
					case 13: MC_NOTE("XOR other"); b ^= other; m = zip(m, om, [](bool p, bool q) { return p != q; }); break;
					case 14: MC_NOTE("UnboundedSet(%zu)", W); b.UnboundedSet(W); if (m.size() <= W) m.resize(W + 1, 0); m[W] = 1; break;
					case 15: MC_NOTE("Clear"); b.Clear(); m.clear(); break;
					case 16: MC_NOTE("Reset"); b.Reset(); m.assign(m.size(), 0); break;
					case 17: MC_NOTE("swap with other"); b.Swap(other); std::swap(m, om); break;
					case 18: MC_NOTE("move out, assign back"); { B t(std::move(b)); b = std::move(t); } break;
					case 19: MC_NOTE("AppendBits(0x5, 3)"); b.AppendBits(Nz::UInt8(5), 3); m.push_back(1); m.push_back(0); m.push_back(1); break;
					case 20: MC_NOTE("SetBlock(last, ~0)"); if (b.GetBlockCount()) { std::size_t i = (m.size() + W - 1) / W - 1; b.SetBlock(i, B::fullBitMask); m = blockSet<B>(m, i, ~mc::u64(0)); } break;
					case 21: MC_NOTE("PerformsNOT(other)"); b.PerformsNOT(other); m = neg(om); break;
				}
				x.step();
				if (m.size() > 4 * W) return;
				expect(b, m, "history");
				mc::outcome(mc::hashBytes(m.data(), m.size()));
			}
		});
	}

	// integers: the numeric value survives, whatever the widths and signedness
	template<typename B, typename T>
	void fromInteger()
	{
		mc::pointName("integer");
		std::set<mc::u64> values;
		for (unsigned i = 0; i < 64; ++i) { values.insert(mc::u64(1) << i); values.insert((mc::u64(1) << i) - 1); values.insert(~(mc::u64(1) << i)); values.insert(~mc::u64(0) << i); }
		for (mc::u64 i = 0; i < 256; ++i) { values.insert(i); values.insert(i << 8); }
		for (mc::u64 raw : values)
		{
			T value = static_cast<T>(raw);
			mc::u64 want = static_cast<mc::u64>(value);
			if (sizeof(T) < 8) want &= (mc::u64(1) << (8 * sizeof(T))) - 1;
			mc::point(want, sizeof(T), B::bitsPerBlock);
			for (int way = 0; way < 2; ++way)
			{
				B b = way ? B() : B(value);
				if (way) b = value;
				Bits m = fromValue(b.GetSize(), want);
				if (sizeof(T) * 8 <= B::bitsPerBlock) MC_CHECK(b.GetSize() == sizeof(T) * 8, "size", "the bitset built from an integer of %zu bits has %zu bits", sizeof(T) * 8, b.GetSize());
				MC_CHECK(b.GetSize() >= 64 || (want >> b.GetSize()) == 0, "value", "the bitset built from %llx keeps only %zu bits", (unsigned long long)want, b.GetSize());
				expect(b, m, "built from an integer");
			}
		}
	}
	template<typename B> void fromIntegers()
	{
		fromInteger<B, Nz::UInt8>(); fromInteger<B, Nz::UInt16>(); fromInteger<B, Nz::UInt32>(); fromInteger<B, Nz::UInt64>();
		fromInteger<B, Nz::Int8>(); fromInteger<B, Nz::Int16>(); fromInteger<B, Nz::Int32>(); fromInteger<B, Nz::Int64>();
	}
}

#if MC_PART == 0
MC_SUITE(all_states_vec8) { allStates<VecBitset<Nz::UInt8>>(MC_SAN ? mc::pick(11, 14) : mc::pick(14, 18)); }
MC_SUITE(all_pairs_vec8) { allPairs<VecBitset<Nz::UInt8>>(MC_SAN ? mc::pick(6, 8) : mc::pick(8, 10)); }
MC_SUITE(patterns_vec8) { patterns<VecBitset<Nz::UInt8>>(mc::pick(9, 14)); }
MC_SUITE(patterns_vec16) { patterns<VecBitset<Nz::UInt16>>(mc::pick(6, 9)); }
MC_SUITE(pairs_vec8) { patternPairs<VecBitset<Nz::UInt8>>(mc::pick(6, 9)); }
MC_SUITE(pairs_vec16) { patternPairs<VecBitset<Nz::UInt16>>(mc::pick(5, 7)); }
MC_SUITE(hist_vec8) { histories<VecBitset<Nz::UInt8>>(MC_SAN ? mc::pick(4, 5) : mc::pick(5, 6)); }
MC_SUITE(ints_8) { fromIntegers<VecBitset<Nz::UInt8>>(); }
MC_SUITE(ints_16) { fromIntegers<VecBitset<Nz::UInt16>>(); }
#elif MC_PART == 1
MC_SUITE(patterns_vec32) { patterns<VecBitset<Nz::UInt32>>(mc::pick(5, 8)); }
MC_SUITE(patterns_vec64) { patterns<VecBitset<Nz::UInt64>>(mc::pick(5, 7)); }
MC_SUITE(pairs_vec32) { patternPairs<VecBitset<Nz::UInt32>>(mc::pick(4, 6)); }
MC_SUITE(pairs_vec64) { patternPairs<VecBitset<Nz::UInt64>>(mc::pick(4, 6)); }
MC_SUITE(hist_vec32) { histories<VecBitset<Nz::UInt32>>(MC_SAN ? mc::pick(4, 5) : mc::pick(5, 6)); }
MC_SUITE(hist_vec64) { histories<VecBitset<Nz::UInt64>>(MC_SAN ? mc::pick(4, 5) : mc::pick(5, 6)); }
MC_SUITE(ints_32) { fromIntegers<VecBitset<Nz::UInt32>>(); }
MC_SUITE(ints_64) { fromIntegers<VecBitset<Nz::UInt64>>(); }
#else
MC_SUITE(all_states_fix8) { allStates<FixBitset<Nz::UInt8>>(MC_SAN ? mc::pick(9, 11) : mc::pick(12, 14)); }
MC_SUITE(all_states_hyb8) { allStates<HybBitset<Nz::UInt8>>(MC_SAN ? mc::pick(9, 11) : mc::pick(12, 14)); }
MC_SUITE(patterns_hyb8) { patterns<HybBitset<Nz::UInt8>>(mc::pick(6, 9)); }
MC_SUITE(patterns_fix64) { patterns<FixBitset<Nz::UInt64>>(mc::pick(4, 6)); }
MC_SUITE(patterns_hyb64) { patterns<HybBitset<Nz::UInt64>>(mc::pick(4, 6)); }
MC_SUITE(pairs_hyb8) { patternPairs<HybBitset<Nz::UInt8>>(mc::pick(5, 8)); }
MC_SUITE(pairs_fix16) { patternPairs<FixBitset<Nz::UInt16>>(mc::pick(4, 6)); }
MC_SUITE(hist_fix8) { histories<FixBitset<Nz::UInt8>>(MC_SAN ? mc::pick(4, 5) : mc::pick(5, 6)); }
MC_SUITE(hist_hyb8) { histories<HybBitset<Nz::UInt8>>(MC_SAN ? mc::pick(4, 5) : mc::pick(5, 6)); }
MC_SUITE(hist_hyb32) { histories<HybBitset<Nz::UInt32>>(MC_SAN ? mc::pick(4, 5) : mc::pick(5, 6)); }
MC_SUITE(ints_hyb8) { fromIntegers<HybBitset<Nz::UInt8>>(); }
#endif
