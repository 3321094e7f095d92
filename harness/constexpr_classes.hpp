// part 2 of constexpr.cpp: programs over class types, run in constant expressions and at run time
#pragma once
enum class Plain { A, B, C, Max = C };
enum class Flag : unsigned char { A, B, C, D };
template<> struct Nz::EnumAsFlags<Flag> { static constexpr Flag max = Flag::D; };

namespace
{
	constexpr mc::u64 mix(mc::u64 h, mc::u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }

	// every program of Length operations: Program is the index of the first operation and argument (one table per program
	// prefix, so that no table exceeds the step limits of the compilers)
	template<typename M, std::size_t First, std::size_t... Rest> constexpr auto tableOf(std::index_sequence<Rest...>)
	{
		return std::array<mc::u64, sizeof...(Rest)> { M::run(First, Rest)... };
	}
	template<typename M, std::size_t First> void programs()
	{
		static constexpr auto table = tableOf<M, First>(std::make_index_sequence<M::Rest>());
		for (std::size_t i = 0; i < M::Rest; ++i)
		{
			mc::point(M::Id, First, i);
			mc::u64 got = M::run(opaque(First), opaque(i));
			mc::outcome(got);
			MC_CHECK(got == table[i], M::name, "program %zu/%zu over %s does not have the same results at compile time", First, i, M::name);
		}
	}
	template<typename M, std::size_t... F> void programsFrom(std::index_sequence<F...>) { (programs<M, F>(), ...); }
	template<typename M> void all() { programsFrom<M>(std::make_index_sequence<M::First>()); }

	struct FlagsModel
	{
		static constexpr const char* name = "Flags"; static constexpr unsigned Id = 0;
		static constexpr std::size_t First = 16, Rest = 16;
		using F = Nz::Flags<Flag>;
		static constexpr mc::u64 bits(F f) { return static_cast<F::BitField>(f); }
		static constexpr mc::u64 run(std::size_t a, std::size_t b)
		{
			F x(static_cast<F::BitField>(a)), y(static_cast<F::BitField>(b));
			mc::u64 h = 1;
			h = mix(h, bits(x)); h = mix(h, bits(x & y)); h = mix(h, bits(x | y)); h = mix(h, bits(x ^ y)); h = mix(h, bits(~x)); h = mix(h, x == y); h = mix(h, x != y); h = mix(h, bool(x)); h = mix(h, x.Test(y));
			F z = x; z |= y; h = mix(h, bits(z)); z = x; z &= y; h = mix(h, bits(z)); z = x; z ^= y; h = mix(h, bits(z)); z = x; z.Set(y); h = mix(h, bits(z)); z = x; z.Clear(y); h = mix(h, bits(z)); z.Clear(); h = mix(h, bits(z));
			for (unsigned i = 0; i < 4; ++i) { const Flag f = static_cast<Flag>(i); h = mix(h, bits(f | y)); h = mix(h, bits(f & y)); h = mix(h, bits(f ^ y)); h = mix(h, bits(F(f))); h = mix(h, F::GetFlagValue(f)); h = mix(h, x.Test(f)); }
			h = mix(h, x.begin() == x.end()); h = mix(h, x.begin() != y.begin());
			return h;
		}
	};
	struct EnumArrayModel
	{
		static constexpr const char* name = "EnumArray"; static constexpr unsigned Id = 1;
		static constexpr std::size_t First = 4, Rest = 64;
		using A = Nz::EnumArray<Plain, int>;
		static constexpr mc::u64 run(std::size_t p, std::size_t rest)
		{
			const std::size_t q = rest % 4; A a { int(rest), int(rest * 2), 7 };
			mc::u64 h = 1;
			if (rest >= 32) a[Plain::B] = -5;
			const A& c = a;
			for (Plain e : { Plain::A, Plain::B, Plain::C }) { h = mix(h, mc::u64(a[e])); h = mix(h, mc::u64(c[e])); }
			auto x = c.iter_kv().begin() + std::ptrdiff_t(p), y = c.iter_kv().end() - std::ptrdiff_t(q);
			h = mix(h, mc::u64(y - x)); h = mix(h, x == y); h = mix(h, x != y); h = mix(h, x < y); h = mix(h, x <= y); h = mix(h, x > y); h = mix(h, x >= y);
			for (auto it = c.iter_kv().begin(); it != c.iter_kv().end(); ++it) h = mix(h, mc::u64((*it).first) * 100 + mc::u64((*it).second));
			for (auto it = c.iter_kv().end(); it != c.iter_kv().begin();) { --it; h = mix(h, mc::u64((*it).first) * 100 + mc::u64((*it).second)); }
			auto z = c.iter_kv().begin(); z += std::ptrdiff_t(p); z -= std::ptrdiff_t(p); h = mix(h, mc::u64(z[std::ptrdiff_t(p % 3)].second));
			for (auto it = a.iter_kv().begin(); it != a.iter_kv().end(); it++) h = mix(h, mc::u64((*it).second));
			return h;
		}
	};
	struct ResultModel
	{
		static constexpr const char* name = "Result"; static constexpr unsigned Id = 2;
		static constexpr std::size_t First = 3, Rest = 9;
		using R = Nz::Result<int, long>;
		static constexpr R make(std::size_t kind) { if (kind == 0) return Nz::Ok(5); if (kind == 1) return Nz::Err(7L); return R(9); }
		static constexpr mc::u64 run(std::size_t a, std::size_t rest)
		{
			R x = make(a), y = make(rest % 3);
			mc::u64 h = 1;
			auto digest = [&](const R& r) { h = mix(h, r.IsOk()); h = mix(h, r.IsErr()); h = mix(h, bool(r)); h = mix(h, mc::u64(r.GetValueOr(11))); if (r.IsOk()) { h = mix(h, mc::u64(r.GetValue())); h = mix(h, mc::u64(*r)); r.Expect("error"); } else h = mix(h, mc::u64(r.GetError())); };
			digest(x); digest(y);
			if (rest / 3 == 1) { x = y; digest(x); }
			if (rest / 3 == 2) { x = std::move(y); digest(x); if (x.IsOk()) { x.GetValue() = 21; digest(x); } else { x.GetError() = 22; digest(x); } }
			Nz::Result<long long, long> converted = x;
			h = mix(h, converted.IsOk() ? mc::u64(converted.GetValue()) : mc::u64(converted.GetError()) + 1000);
#if NAZARA_CHECK_CPP_VER(NAZARA_CPP20) // std::invoke
			auto mapped = x.Map([](int v) { return v * 2; });
			h = mix(h, mapped.IsOk() ? mc::u64(mapped.GetValue()) : mc::u64(mapped.GetError()) + 1000);
#endif
			Nz::Result<void, long> nothing = a == 1 ? Nz::Result<void, long>(Nz::Err(3L)) : Nz::Result<void, long>(Nz::Ok());
			h = mix(h, nothing.IsOk()); if (!nothing.IsOk()) h = mix(h, mc::u64(nothing.GetError()));
			return h;
		}
	};
	struct MovableModel
	{
		static constexpr const char* name = "MovableLiteral"; static constexpr unsigned Id = 3;
		static constexpr std::size_t First = 5, Rest = 5;
		static constexpr mc::u64 run(std::size_t a, std::size_t b)
		{
			using L = Nz::MovableLiteral<int, 3>; using V = Nz::MovableValue<int>;
			mc::u64 h = 1;
			L x, y(4); V v(1), w(2);
			for (std::size_t op : { a, b })
			{
				switch (op)
				{
					case 0: x = y; v = w; break;
					
#if NAZARA_CHECK_CPP_VER(NAZARA_CPP20) // std::swap, std::exchange
					case 1: x = std::move(y); v = std::move(w); break;
#endif
					
					case 2: x = 8; v = 8; break;
#if NAZARA_CHECK_CPP_VER(NAZARA_CPP20)
					case 3: { L z(std::move(x)); y = z; V u(std::move(v)); w = u; break; }
#endif
					case 4: { L z(x); z.Get() += 1; x = z; V u(v); u.Get() += 1; v = u; break; }
				}
				h = mix(h, mc::u64(x.Get())); h = mix(h, mc::u64(y.Get())); h = mix(h, mc::u64(v.Get()) * 10 + mc::u64(w.Get()));
			}
			return h;
		}
	};
#if NAZARA_CHECK_CPP_VER(NAZARA_CPP20)
	// two operations on a bitset, from several sizes, with everything observed after each of them
	template<typename B> struct BitsetModel
	{
		static constexpr const char* name = "Bitset"; static constexpr unsigned Id = 4 + sizeof(B);
		static constexpr std::size_t Ops = 20, First = Ops, Rest = Ops;
		using S = Nz::Bitset<B>;
		static constexpr void apply(S& s, std::size_t op)
		{
			const std::size_t n = s.GetSize();
			switch (op)
			{
				case 0: s.Flip(); break;
				case 1: s.Reset(); break;
				case 2: s.Set(); break;
				case 3: if (n) s.Set(n - 1); break;
				case 4: if (n) s.Reset(0); break;
				case 5: s.Resize(n + 9, true); break;
				case 6: s.Resize(n / 2); break;
				case 7: s.ShiftLeft(3); break;
				case 8: s.ShiftRight(9); break;
				case 9: s.Reverse(); break;
				case 10: s.UnboundedSet(n + 5); break;
				case 11: s.UnboundedReset(2); break;
				case 12: s.PerformsNOT(S(s)); break;
				case 13: s &= S(n + 3, true); break;
				case 14: s |= S("101101"); break;
				case 15: s ^= S(n, true); break;
				case 16: if (s.GetBlockCount()) s.SetBlock(0, B(0xA5)); break;
				case 17: { S t("110"); s.Swap(t); break; }
				case 18: s.AppendBits(Nz::UInt8(0xB), 4); break;
				case 19: s = (s << 2) | (s >> 1); if (n) s[0] ^= true; break;
			}
		}
		static constexpr mc::u64 digest(mc::u64 h, const S& s)
		{
			h = mix(h, s.GetSize()); h = mix(h, s.Count()); h = mix(h, s.FindFirst()); h = mix(h, s.TestAll()); h = mix(h, s.TestAny()); h = mix(h, s.TestNone()); h = mix(h, s.UnboundedTest(3));
			for (std::size_t i = 0; i < s.GetBlockCount(); ++i) h = mix(h, s.GetBlock(i));
			for (std::size_t bit : s.IterBits()) h = mix(h, bit);
			if (s.GetSize()) { h = mix(h, s.FindNext(0)); h = mix(h, s[s.GetSize() - 1]); }
			if (s.GetSize() <= 64) h = mix(h, s.template To<Nz::UInt64>());
			return h;
		}
		static constexpr mc::u64 run(std::size_t a, std::size_t b)
		{
			mc::u64 h = 1;
			for (std::size_t n : { std::size_t(0), std::size_t(5), sizeof(B) * 8, sizeof(B) * 8 + 3 })
			{
				S s(n, false); for (std::size_t i = 0; i < n; i += 3) s.Set(i, true);
				const S before(s);
				apply(s, a); h = digest(h, s);
				apply(s, b); h = digest(h, s);
				h = mix(h, s == before); h = mix(h, s < before); h = mix(h, s <= before); h = mix(h, s > before); h = mix(h, s.Intersects(before));
				h = digest(h, s & before); h = digest(h, s | before); h = digest(h, s ^ before); h = digest(h, ~s);
			}
			return h;
		}
	};
#endif
}
#if MC_PART == 2
MC_SUITE(constexpr_flags) { mc::pointName("class, first, rest"); all<FlagsModel>(); }
MC_SUITE(constexpr_enumarray) { mc::pointName("class, first, rest"); all<EnumArrayModel>(); }
MC_SUITE(constexpr_result) { mc::pointName("class, first, rest"); all<ResultModel>(); }
MC_SUITE(constexpr_movable) { mc::pointName("class, first, rest"); all<MovableModel>(); }
#endif
#if NAZARA_CHECK_CPP_VER(NAZARA_CPP20)
#if MC_PART == 3
MC_SUITE(constexpr_bitset8) { mc::pointName("class, first, rest"); all<BitsetModel<Nz::UInt8>>(); }
#elif MC_PART == 4
MC_SUITE(constexpr_bitset32) { mc::pointName("class, first, rest"); all<BitsetModel<Nz::UInt32>>(); }
MC_SUITE(constexpr_bitset64) { mc::pointName("class, first, rest"); all<BitsetModel<Nz::UInt64>>(); }
#endif
#endif
