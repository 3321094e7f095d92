// C28 evaluation in constant expressions agrees with evaluation at run time (part 0: integers, 1: floats and hashes, 2: classes)
#include <NazaraUtils/Algorithm.hpp>
#include <NazaraUtils/Endianness.hpp>
#include <NazaraUtils/EnumArray.hpp>
#include <NazaraUtils/Flags.hpp>
#include <NazaraUtils/Hash.hpp>
#include <NazaraUtils/MathUtils.hpp>
#include <NazaraUtils/MovableValue.hpp>
#include <NazaraUtils/Result.hpp>
#if NAZARA_CHECK_CPP_VER(NAZARA_CPP20)
#include <NazaraUtils/Bitset.hpp>
#endif
#include "num_common.hpp"
#include <array>
#include <cmath>
#include <string_view>

namespace
{
	template<typename T> __attribute__((noinline)) T opaque(T v) { volatile T o = v; return o; }

#if MC_PART == 0
	// every value of the 8 bits types, those around every power of two for the others
	template<typename T> struct Inputs
	{
		static constexpr unsigned Bits = sizeof(T) * 8;
		static constexpr std::size_t Count = Bits == 8 ? 256 : Bits * 4 + 12;
		static constexpr std::array<T, Count> make()
		{
			using U = std::make_unsigned_t<T>;
			std::array<T, Count> a {};
			if constexpr (Bits == 8) { for (unsigned i = 0; i < 256; ++i) a[i] = static_cast<T>(static_cast<U>(i)); }
			else
			{
				std::size_t n = 0;
				for (unsigned i = 0; i < Bits; ++i) { U p = U(U(1) << i); a[n++] = static_cast<T>(p); a[n++] = static_cast<T>(U(p - 1)); a[n++] = static_cast<T>(U(p + 1)); a[n++] = static_cast<T>(U(~p)); }
				const unsigned long long patterns[] = { 0x5555555555555555ull, 0xAAAAAAAAAAAAAAAAull, 0x0123456789ABCDEFull, 0xFEDCBA9876543210ull, 0x8000000180000001ull, 0x00000000FFFFFFFFull, 0xFFFFFFFF00000000ull, 0x00FF00FF00FF00FFull, 0xF0F0F0F0F0F0F0F0ull, 10, 100, 0xDEADBEEFCAFEBABEull };
				for (unsigned long long p : patterns) a[n++] = static_cast<T>(static_cast<U>(p));
			}
			return a;
		}
		static constexpr std::array<T, Count> values = make();
		// a smaller set for functions of several arguments
		static constexpr std::size_t Few = 22;
		static constexpr std::array<T, Few> few()
		{
			using U = std::make_unsigned_t<T>;
			return { T(0), T(1), T(2), T(3), T(4), T(5), T(7), T(8), T(16), T(31), T(32), T(33), T(100), T(127), static_cast<T>(U(U(1) << (Bits - 1))), static_cast<T>(U(U(1) << (Bits - 2))), static_cast<T>(U(~U(0))), static_cast<T>(U(U(~U(0)) >> 1)), static_cast<T>(U(U(~U(0)) >> 1) - 1), static_cast<T>(U(U(~U(0)) - 1)), static_cast<T>(U(0x55)), static_cast<T>(U(~U(0) - 6)) };
		}
		static constexpr std::array<T, Few> fewValues = few();
	};
	template<typename T> constexpr bool positive(T v) { return v > T(0); }

	// the functions: domain, evaluation
#define UNARY(NAME, DOMAIN, EXPR) struct NAME { static constexpr const char* name = #NAME; template<typename T> static constexpr bool domain(T v) { (void)v; return DOMAIN; } template<typename T> static constexpr auto eval(T v) { return EXPR; } };
	UNARY(ByteSwap, true, Nz::ByteSwap(v))
	UNARY(CountBits, true, Nz::CountBits(v))
	UNARY(FindFirstBit, true, Nz::FindFirstBit(v))
	UNARY(FindLastBit, true, Nz::FindLastBit(v))
	UNARY(ReverseBits, true, Nz::ReverseBits(v))
	UNARY(IntegralLog2, v >= T(0), Nz::IntegralLog2(v))
	UNARY(IntegralLog2Pot, v > T(0) && (v & (v - 1)) == 0, Nz::IntegralLog2Pot(v))
	UNARY(GetNearestPowerOfTwo, v >= T(0) && v <= T(std::numeric_limits<T>::max() / 2), Nz::GetNearestPowerOfTwo(v))
	UNARY(IsPow2, v > T(0), Nz::IsPow2(v))
	UNARY(RoundToPow2, v > T(0) && v <= T(std::numeric_limits<T>::max() / 2), Nz::RoundToPow2(v))
	UNARY(BigEndianToHost, true, Nz::BigEndianToHost(v))
	UNARY(HostToBigEndian, true, Nz::HostToBigEndian(v))
	UNARY(LittleEndianToHost, true, Nz::LittleEndianToHost(v))
	UNARY(HostToLittleEndian, true, Nz::HostToLittleEndian(v))
	UNARY(SafeCastSame, true, Nz::SafeCast<T>(v))
	UNARY(SafeCastWide, v >= T(0), Nz::SafeCast<Nz::UInt64>(v))
	UNARY(SafeCastNarrow, v >= T(0) && v <= T(127), Nz::SafeCast<Nz::Int8>(v))
#undef UNARY
#define BINARY(NAME, DOMAIN, EXPR) struct NAME { static constexpr const char* name = #NAME; template<typename T> static constexpr bool domain(T a, T b) { (void)a; (void)b; return DOMAIN; } template<typename T> static constexpr auto eval(T a, T b) { return EXPR; } };
	template<typename T> constexpr bool bitIndex(T b) { return b >= T(0) && b < T(sizeof(T) * 8); }
	BINARY(SetBit, bitIndex(b), Nz::SetBit(a, b))
	BINARY(ClearBit, bitIndex(b), Nz::ClearBit(a, b))
	BINARY(TestBit, bitIndex(b), Nz::TestBit(a, b))
	BINARY(ToggleBit, bitIndex(b), Nz::ToggleBit(a, b))
	BINARY(ArithmeticRightShift, bitIndex(b), Nz::ArithmeticRightShift(a, b))
	BINARY(Align, a >= T(0) && b > T(0) && a <= T(std::numeric_limits<T>::max() - b), Nz::Align(a, b))
	BINARY(AlignPow2, a >= T(0) && b > T(0) && (b & (b - 1)) == 0 && a <= T(std::numeric_limits<T>::max() - b), Nz::AlignPow2(a, b))
	BINARY(Mod, b != T(0) && !(std::is_signed_v<T> && b == T(-1)), Nz::Mod(a, b))
	BINARY(NumberEquals, true, Nz::NumberEquals(a, b))
	BINARY(Approach, b > T(0), Nz::Approach(a, T(42), b))
	BINARY(ApproachUp, b >= T(0), Nz::Approach(a, std::numeric_limits<T>::max(), b))
	BINARY(ApproachDown, b >= T(0), Nz::Approach(a, std::numeric_limits<T>::min(), b))
	BINARY(Clamp, true, Nz::Clamp(a, T(5), b < T(5) ? T(5) : b))
	BINARY(IntegralPow, b >= T(0) && b <= T(9) && a >= T(0) && a <= T(1), Nz::IntegralPow(a, unsigned(b)))
#undef BINARY

	template<typename F, typename T, std::size_t N> constexpr auto unaryTable(const std::array<T, N>& in)
	{
		std::array<decltype(F::eval(T())), N> out {};
		for (std::size_t i = 0; i < N; ++i) if (F::domain(in[i])) out[i] = F::eval(in[i]);
		return out;
	}
	template<typename F, typename T> void unary(unsigned id)
	{
		// in C++17 the table is computed in a constant expression as well
		constexpr auto table = unaryTable<F>(Inputs<T>::values);
		for (std::size_t i = 0; i < table.size(); ++i)
		{
			T v = Inputs<T>::values[i];
			if (!F::domain(v)) continue;
			mc::point(id, sizeof(T), std::is_signed_v<T>, mc::u64(v));
			auto got = F::eval(opaque(v));
			MC_CHECK(got == table[i], F::name, "%s of %lld gives %lld at compile time but %lld at run time", F::name, (long long)v, (long long)table[i], (long long)got);
		}
	}
	template<typename F, typename T, std::size_t N> constexpr auto binaryTable(const std::array<T, N>& in)
	{
		std::array<decltype(F::eval(T(), T())), N * N> out {};
		for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) if (F::domain(in[i], in[j])) out[i * N + j] = F::eval(in[i], in[j]);
		return out;
	}
	template<typename F, typename T> void binary(unsigned id)
	{
		constexpr auto table = binaryTable<F>(Inputs<T>::fewValues);
		constexpr std::size_t N = Inputs<T>::Few;
		for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j)
		{
			T a = Inputs<T>::fewValues[i], b = Inputs<T>::fewValues[j];
			if (!F::domain(a, b)) continue;
			mc::point(id, mc::u64(a), mc::u64(b), sizeof(T) * 2 + std::is_signed_v<T>);
			auto got = F::eval(opaque(a), opaque(b));
			MC_CHECK(got == table[i * N + j], F::name, "%s of %lld and %lld gives %lld at compile time but %lld at run time", F::name, (long long)a, (long long)b, (long long)table[i * N + j], (long long)got);
		}
	}
	template<typename F> void unaryAll(unsigned id) { forIntegers([&](auto t) { unary<F, decltype(t)>(id); }); }
	template<typename F> void binaryAll(unsigned id) { forIntegers([&](auto t) { binary<F, decltype(t)>(id); }); }
	template<typename... F> void unaries() { unsigned id = 0; (unaryAll<F>(id++), ...); }
	template<typename... F> void binaries() { unsigned id = 0; (binaryAll<F>(id++), ...); }
#elif MC_PART == 1
	template<typename F> struct Floats
	{
		using L = std::numeric_limits<F>;
		static constexpr F values[] = { F(0), -F(0), L::denorm_min(), -L::denorm_min(), L::min(), -L::min(), L::min() * F(3), L::epsilon(), F(1) - L::epsilon(), F(1), F(1) + L::epsilon(), F(-1), F(0.1), F(-0.1), F(0.2), F(0.3), F(0.5), F(0.7), F(1.5), F(2), F(3), F(-3), F(6.5), F(10), F(100), F(360), F(1e10), F(123456789), F(4294967296.0), F(9223372036854775808.0), F(18446744073709551616.0), F(1e30), F(-1e30), L::max() / F(2), L::max(), L::lowest(), L::infinity(), -L::infinity(), L::quiet_NaN(), F(3.14159265358979), F(2.718281828), F(1) / F(3), F(7) / F(11), F(1e-20), F(-1e-30) };
		static constexpr std::size_t N = sizeof(values) / sizeof(F);
	};
	template<typename F> bool same(F a, F b) { return (a != a && b != b) || floatBits(a) == floatBits(b); }

	template<typename F> void classify()
	{
		static constexpr auto table = [] { std::array<std::array<bool, 3>, Floats<F>::N> t {}; for (std::size_t i = 0; i < Floats<F>::N; ++i) { const F v = Floats<F>::values[i]; t[i] = { Nz::IsFinite(v), Nz::IsInfinity(v), Nz::IsNaN(v) }; } return t; }();
		for (std::size_t i = 0; i < Floats<F>::N; ++i)
		{
			mc::point(sizeof(F), i);
			const F v = Floats<F>::values[i], o = opaque(v);
			MC_CHECK(table[i][0] == Nz::IsFinite(o) && table[i][0] == std::isfinite(o), "IsFinite", "IsFinite(%a) is %d at compile time", double(v), table[i][0]);
			MC_CHECK(table[i][1] == Nz::IsInfinity(o) && table[i][1] == std::isinf(o), "IsInfinity", "IsInfinity(%a) is %d at compile time", double(v), table[i][1]);
			MC_CHECK(table[i][2] == Nz::IsNaN(o) && table[i][2] == std::isnan(o), "IsNaN", "IsNaN(%a) is %d at compile time", double(v), table[i][2]);
		}
	}
	template<typename F> constexpr bool finite(F v) { return v == v && v <= std::numeric_limits<F>::max() && v >= std::numeric_limits<F>::lowest(); }
	template<typename F, std::size_t I> constexpr auto modRow() { std::array<F, Floats<F>::N> t {}; for (std::size_t j = 0; j < Floats<F>::N; ++j) t[j] = Nz::Mod(Floats<F>::values[I], Floats<F>::values[j]); return t; }
	template<typename F, std::size_t I> void mod()
	{
		static constexpr auto row = modRow<F, I>();
		for (std::size_t j = 0; j < Floats<F>::N; ++j)
		{
			mc::point(sizeof(F), I, j);
			const F x = opaque(Floats<F>::values[I]), y = opaque(Floats<F>::values[j]);
			const F got = Nz::Mod(x, y);
			MC_CHECK(same(got, F(std::fmod(x, y))), "Mod", "Mod(%a, %a) is %a", double(x), double(y), double(got));
			MC_CHECK(same(row[j], got), "Mod", "Mod(%a, %a) is %a at compile time but %a at run time", double(x), double(y), double(row[j]), double(got));
		}
	}
	template<typename F, std::size_t... I> void mods(std::index_sequence<I...>) { (mod<F, I>(), ...); }
	template<typename F> void pairs()
	{
		// sums and differences must stay finite in constant expressions
		static constexpr auto valid = [](F a, F b) { return finite(a) && finite(b) && a < F(1e30) && a > F(-1e30) && b < F(1e30) && b > F(-1e30); };
		constexpr std::size_t N = Floats<F>::N;
		static constexpr auto table = []
		{
			std::array<std::array<F, 7>, N * N> t {};
			for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j)
			{
				const F a = Floats<F>::values[i], b = Floats<F>::values[j];
				if (valid(a, b)) t[i * N + j] = { F(Nz::NumberEquals(a, b)), F(Nz::NumberEquals(a, b, F(0.5))), Nz::Approach(a, b, F(0.25)), Nz::Clamp(a, F(-2), b < F(-2) ? F(-2) : b), Nz::Lerp(a, b, F(0.25)), Nz::DegreeToRadian(a), Nz::RadianToDegree(b) };
			}
			return t;
		}();
		for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j)
		{
			const F a = opaque(Floats<F>::values[i]), b = opaque(Floats<F>::values[j]);
			if (!valid(a, b)) continue;
			mc::point(sizeof(F), i, j);
			const std::array<F, 7> got { F(Nz::NumberEquals(a, b)), F(Nz::NumberEquals(a, b, F(0.5))), Nz::Approach(a, b, F(0.25)), Nz::Clamp(a, F(-2), b < F(-2) ? F(-2) : b), Nz::Lerp(a, b, F(0.25)), Nz::DegreeToRadian(a), Nz::RadianToDegree(b) };
			const char* const names[] = { "NumberEquals", "NumberEquals with a difference", "Approach", "Clamp", "Lerp", "DegreeToRadian", "RadianToDegree" };
			// Clamp may pick either zero
			for (unsigned k = 0; k < 7; ++k) MC_CHECK(got[k] == table[i * N + j][k], names[k], "%s of %a and %a is %a at compile time but %a at run time", names[k], double(a), double(b), double(table[i * N + j][k]), double(got[k]));
		}
	}
	template<typename F, typename U> void bitCasts()
	{
		constexpr std::size_t N = Floats<F>::N;
		static constexpr auto table = [] { std::array<U, N> t {}; for (std::size_t i = 0; i < N; ++i) t[i] = Nz::BitCast<U>(Floats<F>::values[i]); return t; }();
		for (std::size_t i = 0; i < N; ++i)
		{
			mc::point(sizeof(F), i);
			MC_CHECK(table[i] == Nz::BitCast<U>(opaque(Floats<F>::values[i])) && table[i] == U(floatBits(Floats<F>::values[i])), "BitCast", "BitCast(%a)", double(Floats<F>::values[i]));
			static_assert(sizeof(F) == sizeof(U));
		}
	}
	template<typename F> void swaps()
	{
		constexpr std::size_t N = Floats<F>::N;
		// twice: a swapped signaling NaN may not be copied as is
		static constexpr auto table = [] { std::array<F, N> t {}; for (std::size_t i = 0; i < N; ++i) t[i] = Nz::ByteSwap(Nz::ByteSwap(Floats<F>::values[i])); return t; }();
		for (std::size_t i = 0; i < N; ++i) { mc::point(sizeof(F), i); MC_CHECK(same(table[i], Floats<F>::values[i]), "ByteSwap", "ByteSwap(ByteSwap(%a)) is %a at compile time", double(Floats<F>::values[i]), double(table[i])); }
	}
	// every string of at most 4 characters
	constexpr char Alphabet[] = { 0, 'a', '\x7f', '\x80', '\xff', 'Z' };
	constexpr std::size_t A = sizeof(Alphabet), Strings = 1 + A + A * A + A * A * A + A * A * A * A;
	struct Text { char c[5] {}; std::size_t n = 0; constexpr std::string_view view() const { return std::string_view(c, n); } };
	constexpr Text textOf(std::size_t i)
	{
		Text t; std::size_t count = 1;
		while (i >= count) { i -= count; count *= A; t.n++; }
		for (std::size_t k = 0; k < t.n; ++k) { t.c[k] = Alphabet[i % A]; i /= A; }
		return t;
	}
	struct Hashes { Nz::UInt32 crc = 0, fnv = 0, crcZ = 0, fnvZ = 0, crcD = 0, fnvD = 0, crcL = 0, fnvL = 0; Nz::UInt64 fnv64 = 0, fnv64Z = 0, fnv64D = 0, fnv64L = 0; };
	constexpr bool operator==(const Hashes& a, const Hashes& b) { return a.crc == b.crc && a.fnv == b.fnv && a.crcZ == b.crcZ && a.fnvZ == b.fnvZ && a.crcD == b.crcD && a.fnvD == b.fnvD && a.crcL == b.crcL && a.fnvL == b.fnvL && a.fnv64 == b.fnv64 && a.fnv64Z == b.fnv64Z && a.fnv64D == b.fnv64D && a.fnv64L == b.fnv64L; }
	constexpr Hashes hashesOf(const Text& t)
	{
		Hashes h; const char* z = t.c; Nz::UInt8 d[5] {}; for (int i = 0; i < 5; ++i) d[i] = Nz::UInt8(t.c[i]);
		h.crc = Nz::CRC32(t.view()); h.fnv = Nz::FNV1a32(t.view()); h.fnv64 = Nz::FNV1a64(t.view());
		h.crcZ = Nz::CRC32(z); h.fnvZ = Nz::FNV1a32(z); h.fnv64Z = Nz::FNV1a64(z);
		h.crcD = Nz::CRC32(d, t.n); h.fnvD = Nz::FNV1a32(d, t.n); h.fnv64D = Nz::FNV1a64(d, t.n);
		h.crcL = Nz::CRC32(t.c); h.fnvL = Nz::FNV1a32(t.c); h.fnv64L = Nz::FNV1a64(t.c);
		return h;
	}
	template<std::size_t Chunk, std::size_t Size> constexpr auto hashTable() { std::array<Hashes, Size> t {}; for (std::size_t i = 0; i < Size; ++i) if (Chunk * Size + i < Strings) t[i] = hashesOf(textOf(Chunk * Size + i)); return t; }
	template<std::size_t Chunk> void hashes()
	{
		constexpr std::size_t Size = 100;
		static constexpr auto table = hashTable<Chunk, Size>();
		for (std::size_t i = 0; i < Size; ++i)
		{
			if (Chunk * Size + i >= Strings) break;
			mc::point(Chunk * Size + i);
			Text t = textOf(opaque(Chunk * Size + i));
			Hashes h = hashesOf(t);
			MC_CHECK(h == table[i], "hash", "the hashes of string %zu are not the same at compile time", Chunk * Size + i);
			MC_CHECK(h.crcD == h.crc && h.fnvD == h.fnv && h.fnv64D == h.fnv64, "hash", "the hashes of string %zu depend on its type", Chunk * Size + i);
		}
	}
	template<std::size_t... C> void allHashes(std::index_sequence<C...>) { (hashes<C>(), ...); }
#endif
}

#if MC_PART == 0
#ifdef NAZARA_HAS_CONSTEVAL
namespace
{
	// what a function which asks how it is evaluated is told: 1: in a constant expression, 2: not at run time, 4: both branches agree
	constexpr unsigned told(unsigned salt)
	{
		unsigned r = salt * 0;
		if NAZARA_IS_CONSTEVAL() { r |= 1; } else { r |= 8; }
		if NAZARA_IS_RUNTIME_EVAL() { r |= 16; } else { r |= 2; }
		return r;
	}
	struct Told { unsigned value; constexpr explicit Told(unsigned salt) : value(told(salt)) {} };
	template<unsigned V> struct Size { static constexpr unsigned value = V; };
}
MC_SUITE(constexpr_evaluation)
{
	mc::pointName("context");
	for (unsigned i = 0; i < 4; ++i)
	{
		mc::point(i);
		unsigned constant = 0, running = 0;
		switch (i)
		{
			case 0: { constexpr unsigned c = told(1); constant = c; unsigned (*volatile f)(unsigned) = &told; running = f(i); break; }
			case 1: { constexpr Told c(2); constant = c.value; Told t(opaque(i)); running = t.value; break; }
			case 2: { constant = Size<told(3)>::value; static const unsigned late = told(opaque(i)); running = late; break; }
			case 3: { static constexpr std::array<unsigned, 2> c { told(0), told(1) }; constant = c[0] == c[1] ? c[0] : 99; std::array<unsigned, 2> t { told(opaque(i)), told(opaque(i)) }; running = t[0] == t[1] ? t[0] : 99; break; }
		}
		MC_CHECK(constant == 3, "constant", "a constant expression is told %u instead of 3", constant);
		MC_CHECK(running == 24, "run-time", "an evaluation at run time is told %u instead of 24", running);
	}
}
#else
#error every compiler of this check knows whether it is evaluating a constant expression
#endif
MC_SUITE(constexpr_bits) { mc::pointName("function, size, signed, value"); unaries<ByteSwap, CountBits, FindFirstBit, FindLastBit, ReverseBits>(); }
MC_SUITE(constexpr_numbers) { mc::pointName("function, size, signed, value"); unaries<IntegralLog2, IntegralLog2Pot, GetNearestPowerOfTwo, IsPow2, RoundToPow2, SafeCastSame, SafeCastWide, SafeCastNarrow>(); }
MC_SUITE(constexpr_endianness) { mc::pointName("function, size, signed, value"); unaries<BigEndianToHost, HostToBigEndian, LittleEndianToHost, HostToLittleEndian>(); }
MC_SUITE(constexpr_binary) { mc::pointName("function, a, b, type"); binaries<SetBit, ClearBit, TestBit, ToggleBit, ArithmeticRightShift, Align, AlignPow2, Mod, NumberEquals, Approach, ApproachUp, ApproachDown, Clamp, IntegralPow>(); }
#elif MC_PART == 1
MC_SUITE(constexpr_classify) { mc::pointName("size, value"); classify<float>(); classify<double>(); classify<long double>(); }
MC_SUITE(constexpr_mod) { mc::pointName("size, a, b"); mods<float>(std::make_index_sequence<Floats<float>::N>()); mods<double>(std::make_index_sequence<Floats<double>::N>()); }
MC_SUITE(constexpr_floats) { mc::pointName("size, a, b"); pairs<float>(); pairs<double>(); }
MC_SUITE(constexpr_bitcast) { mc::pointName("size, value"); bitCasts<float, Nz::UInt32>(); bitCasts<float, Nz::Int32>(); bitCasts<double, Nz::UInt64>(); bitCasts<double, Nz::Int64>(); swaps<float>(); swaps<double>(); }
MC_SUITE(constexpr_hash) { mc::pointName("string"); allHashes(std::make_index_sequence<(Strings + 99) / 100>()); }
#else
#include "constexpr_classes.hpp"
#endif
