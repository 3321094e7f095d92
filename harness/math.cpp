// C12 (part 0) bit utilities, C13 (part 1) integer arithmetic, C14 (part 2) comparisons and interpolation.
#include <NazaraUtils/Constants.hpp> // first: it can be included on its own
#include <NazaraUtils/MathUtils.hpp>
#include <NazaraUtils/Constants.hpp>
#include "num_common.hpp"

namespace
{
#if MC_PART == 0
	template<typename T> void unaryBits(T v)
	{
		mc::point(bitsU(v), sizeof(T), std::is_signed_v<T>);
		unsigned count = 0, first = 0, last = 0;
		for (unsigned i = 0; i < bitsOf<T>; ++i) if (bitAt(v, i)) { ++count; if (!first) first = i + 1; last = i + 1; }
		MC_CHECK(Nz::CountBits(v) == count, "count-bits", "CountBits(%s 0x%llx) = %zu, expected %u", typeOf<T>(), (unsigned long long)bitsU(v), Nz::CountBits(v), count);
		MC_CHECK(Nz::FindFirstBit(v) == first, "find-first", "FindFirstBit(%s 0x%llx) = %u, expected %u", typeOf<T>(), (unsigned long long)bitsU(v), Nz::FindFirstBit(v), first);
		MC_CHECK(Nz::FindLastBit(v) == last, "find-last", "FindLastBit(%s 0x%llx) = %u, expected %u", typeOf<T>(), (unsigned long long)bitsU(v), Nz::FindLastBit(v), last);
		T r = Nz::ReverseBits(v);
		for (unsigned i = 0; i < bitsOf<T>; ++i) MC_CHECK(bitAt(r, i) == bitAt(v, bitsOf<T> - 1 - i), "reverse-bits", "ReverseBits(%s 0x%llx) = 0x%llx", typeOf<T>(), (unsigned long long)bitsU(v), (unsigned long long)bitsU(r));
	}
	template<typename T> void singleBits(T v)
	{
		using U = std::make_unsigned_t<T>;
		for (unsigned i = 0; i < bitsOf<T>; ++i)
		{
			mc::point(bitsU(v), sizeof(T), std::is_signed_v<T>, i);
			const mc::u64 b = bitsU(v), m = mc::u64(1) << i;
			MC_CHECK(Nz::TestBit(v, T(i)) == ((b & m) != 0), "test-bit", "TestBit(%s 0x%llx, %u)", typeOf<T>(), (unsigned long long)b, i);
			MC_CHECK(bitsU(Nz::SetBit(v, T(i))) == U(b | m), "set-bit", "SetBit(%s 0x%llx, %u) = 0x%llx", typeOf<T>(), (unsigned long long)b, i, (unsigned long long)bitsU(Nz::SetBit(v, T(i))));
			MC_CHECK(bitsU(Nz::ClearBit(v, T(i))) == U(b & ~m), "clear-bit", "ClearBit(%s 0x%llx, %u) = 0x%llx", typeOf<T>(), (unsigned long long)b, i, (unsigned long long)bitsU(Nz::ClearBit(v, T(i))));
			MC_CHECK(bitsU(Nz::ToggleBit(v, T(i))) == U(b ^ m), "toggle-bit", "ToggleBit(%s 0x%llx, %u) = 0x%llx", typeOf<T>(), (unsigned long long)b, i, (unsigned long long)bitsU(Nz::ToggleBit(v, T(i))));
		}
	}
	template<typename T, typename S> void shifts(T v)
	{
		for (unsigned i = 0; i < bitsOf<T>; ++i)
		{
			mc::point(bitsU(v), sizeof(T), std::is_signed_v<T> * 2 + std::is_signed_v<S>, i);
			i128 x = v, d = i128(1) << i;
			i128 expected = x >= 0 ? x / d : -((-x + d - 1) / d);
			T got = Nz::ArithmeticRightShift(v, S(i));
			MC_CHECK(i128(got) == expected, "arithmetic-shift", "ArithmeticRightShift(%s %s, %s %u) = %s, expected %s", typeOf<T>(), str(x).c_str(), typeOf<S>(), i, str(got).c_str(), str(expected).c_str());
		}
	}
#elif MC_PART == 1
	template<typename T> void powers(T v)
	{
		mc::point(bitsU(v), sizeof(T), std::is_signed_v<T>);
		i128 x = v;
		if (x > 0)
		{
			unsigned log = 0;
			while ((i128(1) << (log + 1)) <= x) ++log;
			bool pow2 = (i128(1) << log) == x;
			MC_CHECK(Nz::IntegralLog2(v) == log, "log2", "IntegralLog2(%s %s) = %u, expected %u", typeOf<T>(), str(x).c_str(), Nz::IntegralLog2(v), log);
			MC_CHECK(Nz::IsPow2(v) == pow2, "is-pow2", "IsPow2(%s %s) = %d", typeOf<T>(), str(x).c_str(), int(Nz::IsPow2(v)));
			if (pow2)
				MC_CHECK(Nz::IntegralLog2Pot(v) == log, "log2pot", "IntegralLog2Pot(%s %s) = %u, expected %u", typeOf<T>(), str(x).c_str(), Nz::IntegralLog2Pot(v), log);
			i128 up = pow2 ? x : i128(1) << (log + 1);
			if (fits<T>(up))
			{
				MC_CHECK(i128(Nz::RoundToPow2(v)) == up, "round-pow2", "RoundToPow2(%s %s) = %s, expected %s", typeOf<T>(), str(x).c_str(), str(Nz::RoundToPow2(v)).c_str(), str(up).c_str());
				MC_CHECK(i128(Nz::GetNearestPowerOfTwo(v)) == up, "nearest-pow2", "GetNearestPowerOfTwo(%s %s) = %s, expected %s", typeOf<T>(), str(x).c_str(), str(Nz::GetNearestPowerOfTwo(v)).c_str(), str(up).c_str());
			}
		}
		else if (x == 0)
		{
			MC_CHECK(Nz::IntegralLog2(v) == 0 && Nz::IntegralLog2Pot(v) == 0, "log2", "logarithm of 0");
			MC_CHECK(Nz::GetNearestPowerOfTwo(v) == T(1), "nearest-pow2", "GetNearestPowerOfTwo(0) = %s", str(Nz::GetNearestPowerOfTwo(v)).c_str());
		}
		else
			MC_CHECK(Nz::GetNearestPowerOfTwo(v) == T(1), "nearest-pow2", "GetNearestPowerOfTwo(%s) = %s", str(x).c_str(), str(Nz::GetNearestPowerOfTwo(v)).c_str());
	}
	template<typename T> void pairs(T a, T b)
	{
		mc::point(bitsU(a), bitsU(b), sizeof(T), std::is_signed_v<T>);
		i128 x = a, y = b;
		if (y > 0)
		{
			// smallest multiple of y that is not below x
			i128 r = x % y; if (r < 0) r += y;
			i128 up = r == 0 ? x : x - r + y;
			if (fits<T>(up))
			{
				MC_CHECK(i128(Nz::Align(a, b)) == up, "align", "Align(%s %s, %s) = %s, expected %s", typeOf<T>(), str(x).c_str(), str(y).c_str(), str(Nz::Align(a, b)).c_str(), str(up).c_str());
				if ((y & (y - 1)) == 0)
					MC_CHECK(i128(Nz::AlignPow2(a, b)) == up, "align-pow2", "AlignPow2(%s %s, %s) = %s, expected %s", typeOf<T>(), str(x).c_str(), str(y).c_str(), str(Nz::AlignPow2(a, b)).c_str(), str(up).c_str());
			}
		}
		if (y != 0 && fits<T>(x / y)) // min % -1 overflows
			MC_CHECK(i128(Nz::Mod(a, b)) == x % y, "mod", "Mod(%s %s, %s) = %s", typeOf<T>(), str(x).c_str(), str(y).c_str(), str(Nz::Mod(a, b)).c_str());
	}
	template<typename T> void integerPairs(unsigned level)
	{
		for (T a : fewValues<T>(level)) for (T b : fewValues<T>(level)) pairs<T>(a, b);
		for (T a : valuesOf<T>()) for (T b : fewValues<T>(0)) { if (b > T(0) && (b < T(70) || (b & (b - 1)) == 0)) pairs<T>(a, b); }
	}
	template<typename T> void integerPow()
	{
		for (T b : fewValues<T>(1))
		{
			i128 expected = 1; bool exact = true;
			std::make_unsigned_t<T> wrapped = 1;
			for (unsigned e = 0; e < 70; ++e)
			{
				mc::point(bitsU(b), e, sizeof(T), std::is_signed_v<T>);
				if (exact) exact = fits<T>(expected); // (never true again)
				if (exact || (std::is_unsigned_v<T> && sizeof(T) != 2)) // UInt16 products are computed on (overflowing) int
				{
					T got = Nz::IntegralPow(b, e);
					i128 want = exact ? expected : i128(T(wrapped));
					MC_CHECK(i128(got) == want, "pow", "IntegralPow(%s %s, %u) = %s, expected %s", typeOf<T>(), str(b).c_str(), e, str(got).c_str(), str(want).c_str());
				}
				if (exact && __builtin_mul_overflow(expected, i128(b), &expected)) exact = false;
				wrapped = std::make_unsigned_t<T>(mc::u64(wrapped) * bitsU(b));
			}
		}
	}
	template<typename T> void multiplyAdd()
	{
		const auto& v = fewValues<T>(0);
		for (T a : v) for (T b : v) for (T c : v)
		{
			i128 p = i128(u128(i128(a)) * u128(i128(b))), s = i128(u128(p) + u128(i128(c)));
			if (std::is_signed_v<T> ? !(fits<T>(p) && fits<T>(s)) : (sizeof(T) == 2 && s > 0x7fffffff)) continue; // overflow of (promoted) signed arithmetic
			mc::point(bitsU(a), bitsU(b), bitsU(c), sizeof(T) * 2 + std::is_signed_v<T>);
			MC_CHECK(bitsU(Nz::MultiplyAdd(a, b, c)) == mc::u64(std::make_unsigned_t<T>(u128(s))), "multiply-add", "MultiplyAdd(%s %s, %s, %s) = %s", typeOf<T>(), str(a).c_str(), str(b).c_str(), str(c).c_str(), str(Nz::MultiplyAdd(a, b, c)).c_str());
		}
	}
#else
	template<typename T> void integerTriples(unsigned level)
	{
		const auto& v = fewValues<T>(level);
		for (T a : v) for (T b : v) for (T c : fewValues<T>(level == 2 ? 1 : 0))
		{
			mc::point(bitsU(a), bitsU(b), bitsU(c), sizeof(T) * 2 + std::is_signed_v<T>);
			i128 x = a, y = b, z = c;
			i128 diff = x > y ? x - y : y - x;
			if (z >= 0)
			{
				MC_CHECK(Nz::NumberEquals(a, b, c) == (diff <= z), "number-equals", "NumberEquals(%s %s, %s, %s) = %d", typeOf<T>(), str(x).c_str(), str(y).c_str(), str(z).c_str(), int(Nz::NumberEquals(a, b, c)));
				i128 want = x < y ? std::min(x + z, y) : std::max(x - z, y);
				MC_CHECK(i128(Nz::Approach(a, b, c)) == want, "approach", "Approach(%s %s, %s, %s) = %s, expected %s", typeOf<T>(), str(x).c_str(), str(y).c_str(), str(z).c_str(), str(Nz::Approach(a, b, c)).c_str(), str(want).c_str());
			}
			if (b <= c)
			{
				T want = a < b ? b : a > c ? c : a;
				MC_CHECK(Nz::Clamp(a, b, c) == want, "clamp", "Clamp(%s %s, %s, %s) = %s", typeOf<T>(), str(x).c_str(), str(y).c_str(), str(z).c_str(), str(Nz::Clamp(a, b, c)).c_str());
			}
		}
		for (T a : v) for (T b : v)
			MC_CHECK(Nz::NumberEquals(a, b) == (a == b), "number-equals", "NumberEquals(%s %s, %s) = %d", typeOf<T>(), str(a).c_str(), str(b).c_str(), int(Nz::NumberEquals(a, b)));
	}
	template<typename F> void classify(F f)
	{
		mc::point(floatBits(f), sizeof(F));
		constexpr unsigned M = sizeof(F) == 4 ? 23 : 52, E = sizeof(F) == 4 ? 8 : 11;
		mc::u64 b = floatBits(f), e = (b >> M) & ((1u << E) - 1), m = b & ((mc::u64(1) << M) - 1);
		bool special = e == (1u << E) - 1;
		MC_CHECK(Nz::IsFinite(f) == !special, "is-finite", "IsFinite(bits 0x%llx) = %d", (unsigned long long)b, int(Nz::IsFinite(f)));
		MC_CHECK(Nz::IsInfinity(f) == (special && m == 0), "is-infinity", "IsInfinity(bits 0x%llx) = %d", (unsigned long long)b, int(Nz::IsInfinity(f)));
		MC_CHECK(Nz::IsNaN(f) == (special && m != 0), "is-nan", "IsNaN(bits 0x%llx) = %d", (unsigned long long)b, int(Nz::IsNaN(f)));
	}
	template<typename F> void floatMath()
	{
		std::vector<F> v;
		for (F base : { F(0), F(0.25), F(0.5), F(1), F(1.5), F(2), F(3), F(10), F(90), F(180), F(360), F(1000), F(65536), F(1e-3), F(1e-7), F(1e-16), F(1e6), F(16777216.0), F(1e15), std::numeric_limits<F>::epsilon(), std::numeric_limits<F>::min(), std::numeric_limits<F>::denorm_min(), F(0.1), F(1) / 3 })
			for (F s : { F(1), F(-1) })
			{
				v.push_back(s * base);
				v.push_back(std::nextafter(s * base, F(1e30)));
				v.push_back(std::nextafter(s * base, F(-1e30)));
			}
		const long double pi = 3.14159265358979323846264338327950288L;
		const long double ulp = std::numeric_limits<F>::epsilon();
		for (F a : v)
		{
			mc::point(floatBits(a));
			long double rad = (long double)a * pi / 180.0L, deg = (long double)a * 180.0L / pi;
			long double tiny = 2 * std::numeric_limits<F>::denorm_min() * 60;
			MC_CHECK(std::fabs((long double)Nz::DegreeToRadian(a) - rad) <= std::fabs(rad) * 4 * ulp + tiny, "degree", "DegreeToRadian(%.9Lg) = %.9Lg, expected %.9Lg", (long double)a, (long double)Nz::DegreeToRadian(a), rad);
			MC_CHECK(std::fabs((long double)Nz::RadianToDegree(a) - deg) <= std::fabs(deg) * 4 * ulp + tiny, "radian", "RadianToDegree(%.9Lg) = %.9Lg, expected %.9Lg", (long double)a, (long double)Nz::RadianToDegree(a), deg);
			for (F b : v)
			{
				mc::point(floatBits(a), floatBits(b));
				long double diff = std::fabs((long double)a - (long double)b);
				for (F m : { F(0), F(0.5), F(1), F(1e-3), F(1e-6), F(100) })
				{
					F got = a - b; // the difference is computed in F
					bool want = (got < 0 ? -got : got) <= m;
					MC_CHECK(Nz::NumberEquals(a, b, m) == want, "number-equals", "NumberEquals(%.9Lg, %.9Lg, %.9Lg) = %d", (long double)a, (long double)b, (long double)m, int(Nz::NumberEquals(a, b, m)));
					MC_CHECK(Nz::NumberEquals(a, b, m) == Nz::NumberEquals(b, a, m), "number-equals", "NumberEquals is not symmetric");
					F near = Nz::Approach(a, b, m);
					bool reached = diff <= (long double)m;
					F lo = a < b ? a : b, hi = a < b ? b : a;
					MC_CHECK(near >= lo && near <= hi, "approach", "Approach(%.9Lg, %.9Lg, %.9Lg) = %.9Lg is outside of the interval", (long double)a, (long double)b, (long double)m, (long double)near);
					if (reached) MC_CHECK(std::fabs((long double)near - b) <= (std::fabs((long double)a) + std::fabs((long double)b) + m) * ulp, "approach", "Approach(%.9Lg, %.9Lg, %.9Lg) = %.9Lg does not reach its objective", (long double)a, (long double)b, (long double)m, (long double)near);
					else MC_CHECK(std::fabs(std::fabs((long double)near - a) - m) <= (std::fabs((long double)a) + m) * ulp, "approach", "Approach(%.9Lg, %.9Lg, %.9Lg) = %.9Lg moves by a wrong distance", (long double)a, (long double)b, (long double)m, (long double)near);
				}
				F eps = std::numeric_limits<F>::epsilon(), got = a - b;
				MC_CHECK(Nz::NumberEquals(a, b) == ((got < 0 ? -got : got) <= eps), "number-equals", "NumberEquals(%.9Lg, %.9Lg) = %d", (long double)a, (long double)b, int(Nz::NumberEquals(a, b)));
				if (b != 0)
				{
					F want = std::remainder(0, F(1)); (void)want;
					F m = Nz::Mod(a, b);
					MC_CHECK(m == std::fmod(a, b), "mod", "Mod(%.9Lg, %.9Lg) = %.9Lg", (long double)a, (long double)b, (long double)m);
				}
				for (F c : { F(-1), F(0), F(0.3), F(1), F(500) })
					if (b <= c)
						MC_CHECK(Nz::Clamp(a, b, c) == (a < b ? b : a > c ? c : a), "clamp", "Clamp(%.9Lg, %.9Lg, %.9Lg) = %.9Lg", (long double)a, (long double)b, (long double)c, (long double)Nz::Clamp(a, b, c));
				for (int i = 0; i <= 8; ++i)
				{
					F t = F(i) / 8;
					long double want = (long double)a + (long double)t * ((long double)b - (long double)a);
					long double got2 = Nz::Lerp(a, b, t);
					long double scale = std::fabs((long double)a) + std::fabs((long double)b);
					if (a == b || i == 0) MC_CHECK(got2 == a, "lerp", "Lerp(%.9Lg, %.9Lg, %.9Lg) = %.9Lg is not its first end", (long double)a, (long double)b, (long double)t, got2);
					MC_CHECK(std::fabs(got2 - want) <= scale * 4 * ulp + tiny, "lerp", "Lerp(%.9Lg, %.9Lg, %.9Lg) = %.9Lg, expected %.9Lg", (long double)a, (long double)b, (long double)t, got2, want);
				}
			}
			const F nan = std::numeric_limits<F>::quiet_NaN(), inf = std::numeric_limits<F>::infinity(), big = std::numeric_limits<F>::max();
			for (F b : { -inf, -big, a, F(0), big, inf }) for (F c : { -inf, -big, F(0), a, big, inf }) for (F d : { a, -inf, inf, big, -big })
				if (b <= c)
					MC_CHECK(Nz::Clamp(d, b, c) == (d < b ? b : d > c ? c : d), "clamp", "Clamp(%.9Lg, %.9Lg, %.9Lg) = %.9Lg", (long double)d, (long double)b, (long double)c, (long double)Nz::Clamp(d, b, c));
			MC_CHECK(!Nz::NumberEquals(a, nan, F(1)) && !Nz::NumberEquals(nan, a, F(1)) && !Nz::NumberEquals(nan, nan, F(1)), "number-equals", "NumberEquals accepts NaN");
			for (F b : { F(0), F(3), F(-2.5) }) for (F c : { F(0), F(7), F(-0.25) })
			{
				long double want = (long double)a * b + c;
				MC_CHECK(std::fabs((long double)Nz::MultiplyAdd(a, b, c) - want) <= (std::fabs((long double)a * b) + std::fabs((long double)c)) * 4 * ulp + tiny, "multiply-add", "MultiplyAdd(%.9Lg, %.9Lg, %.9Lg) = %.9Lg", (long double)a, (long double)b, (long double)c, (long double)Nz::MultiplyAdd(a, b, c));
			}
		}
	}
	// values and factors for which the computation is exact
	template<typename T, typename F> void integerLerp()
	{
		for (int a = -130; a <= 300; ++a) for (int b = -130; b <= 300; ++b)
		{
			if (!fits<T>(a) || !fits<T>(b)) continue;
			for (int i = 0; i <= 8; ++i)
			{
				mc::point(mc::u64(a), mc::u64(b), mc::u64(i), sizeof(T) * 2 + std::is_signed_v<T>);
				int exact8 = a * 8 + i * (b - a); // in eighths
				int want = exact8 / 8;            // conversions to integers truncate
				T got = Nz::Lerp(T(a), T(b), F(i) / 8);
				MC_CHECK(i128(got) == want, "lerp", "Lerp(%s %d, %d, %d/8) = %s, expected %d", typeOf<T>(), a, b, i, str(got).c_str(), want);
			}
		}
	}
#endif
}

#if MC_PART == 0
MC_SUITE(bits_unary) { mc::pointName("value bits, sizeof, signed"); forIntegers([](auto t) { for (auto v : valuesOf<decltype(t)>()) unaryBits(v); }); forOddIntegers([](auto t) { for (auto v : fewValues<decltype(t)>(1)) unaryBits(v); }); }
MC_SUITE(bits_single) { mc::pointName("value bits, sizeof, signed, bit"); forIntegers([](auto t) { for (auto v : sizeof(t) == 1 || !MC_SAN ? valuesOf<decltype(t)>() : fewValues<decltype(t)>(2)) singleBits(v); }); forOddIntegers([](auto t) { for (auto v : fewValues<decltype(t)>(1)) singleBits(v); }); }
MC_SUITE(bits_shift)
{
	mc::pointName("value bits, sizeof, signedness, shift");
	forIntegers([](auto t)
	{
		using T = decltype(t);
		for (auto v : sizeof(t) == 1 || !MC_SAN ? valuesOf<T>() : fewValues<T>(2)) { shifts<T, int>(v); shifts<T, unsigned>(v); }
		for (auto v : fewValues<T>(1)) { shifts<T, Nz::Int8>(v); shifts<T, Nz::UInt8>(v); shifts<T, Nz::Int64>(v); shifts<T, Nz::UInt64>(v); }
	});
}
#if !MC_SAN
MC_SUITE(bits_all32)
{
	if (!mc::thorough()) return;
	mc::pointName("value");
	for (mc::u64 v = 0; v <= 0xffffffffull; ++v)
	{
		if (v % 65536 == 0) mc::point(v);
		Nz::UInt32 u = Nz::UInt32(v); Nz::Int32 s = Nz::Int32(u);
		unsigned count = 0, first = 0, last = 0, rev = 0;
		// nibble-wise reference
		static const unsigned char pc[16] = { 0, 1, 1, 2, 1, 2, 2, 3, 1, 2, 2, 3, 2, 3, 3, 4 }, rv[16] = { 0, 8, 4, 12, 2, 10, 6, 14, 1, 9, 5, 13, 3, 11, 7, 15 }, lo[16] = { 0, 1, 2, 1, 3, 1, 2, 1, 4, 1, 2, 1, 3, 1, 2, 1 }, hi[16] = { 0, 1, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 4, 4, 4, 4 };
		for (unsigned i = 0; i < 8; ++i)
		{
			unsigned n = (u >> (4 * i)) & 15;
			count += pc[n];
			if (n && !first) first = 4 * i + lo[n];
			if (n) last = 4 * i + hi[n];
			rev |= unsigned(rv[n]) << (28 - 4 * i);
		}
		bool ok = Nz::CountBits(u) == count && Nz::CountBits(s) == count && Nz::FindFirstBit(u) == first && Nz::FindFirstBit(s) == first && Nz::FindLastBit(u) == last && Nz::FindLastBit(s) == last && Nz::ReverseBits(u) == rev && Nz::UInt32(Nz::ReverseBits(s)) == rev;
		if (!ok) { mc::point(v); mc::fail("bits32", "bit utilities disagree on 0x%x", u); }
	}
}
#endif
#elif MC_PART == 1
MC_SUITE(int_powers) { mc::pointName("value bits, sizeof, signed"); forIntegers([](auto t) { for (auto v : valuesOf<decltype(t)>()) powers(v); }); forOddIntegers([](auto t) { for (auto v : fewValues<decltype(t)>(1)) powers(v); }); }
MC_SUITE(int_pairs) { mc::pointName("a, b, sizeof, signed"); forIntegers([](auto t) { integerPairs<decltype(t)>(sizeof(t) == 1 ? 2 : MC_SAN ? 0 : mc::pick(1, 2)); }); }
MC_SUITE(int_pow) { mc::pointName("base, exponent, sizeof, signed"); forIntegers([](auto t) { integerPow<decltype(t)>(); }); }
MC_SUITE(int_multiply_add) { mc::pointName("a, b, c, type"); forIntegers([](auto t) { multiplyAdd<decltype(t)>(); }); }
#if !MC_SAN
MC_SUITE(int_all32)
{
	if (!mc::thorough()) return;
	mc::pointName("value");
	unsigned log = 0; mc::u64 up = 1;
	for (mc::u64 v = 1; v <= 0xffffffffull; ++v)
	{
		if (v % 65536 == 0) mc::point(v);
		while (v >> (log + 1)) ++log;
		if (v > up) up *= 2;
		Nz::UInt32 u = Nz::UInt32(v);
		bool ok = Nz::IntegralLog2(u) == log && Nz::IsPow2(u) == (v == up) && (up > 0xffffffffull || (Nz::RoundToPow2(u) == up && (v % 64 || Nz::GetNearestPowerOfTwo(u) == up)));
		if (!ok) { mc::point(v); mc::fail("pow32", "power of two utilities disagree on %u", u); }
	}
}
#endif
#else
MC_SUITE(num_integers) { mc::pointName("a, b, c, type"); forIntegers([](auto t) { integerTriples<decltype(t)>(MC_SAN ? 0 : mc::pick(1, 2)); }); }
MC_SUITE(num_classify) { mc::pointName("bits, sizeof"); for (float f : floatValues<float>()) classify(f); for (double f : floatValues<double>()) classify(f); }
MC_SUITE(num_floats) { mc::pointName("bits of a, bits of b"); floatMath<float>(); floatMath<double>(); }
MC_SUITE(num_lerp) { mc::pointName("a, b, i/8, type"); forIntegers([](auto t) { integerLerp<decltype(t), float>(); integerLerp<decltype(t), double>(); }); }
#if !MC_SAN
MC_SUITE(num_int8_all)
{
	mc::pointName("a, b, c");
	for (int a = -128; a < 128; ++a) for (int b = -128; b < 128; ++b) for (int c = 0; c < 128; c += mc::pick(3, 1))
	{
		if (c == 0) mc::point(mc::u64(a), mc::u64(b), mc::u64(c));
		bool eq = Nz::NumberEquals(Nz::Int8(a), Nz::Int8(b), Nz::Int8(c)) == (std::abs(a - b) <= c);
		int want = a < b ? std::min(a + c, b) : std::max(a - c, b);
		int ua = a + 128, ub = b + 128, uwant = ua < ub ? std::min(ua + c, ub) : std::max(ua - c, ub);
		if (!eq) { mc::point(mc::u64(a), mc::u64(b), mc::u64(c)); mc::fail("number-equals", "NumberEquals(Int8 %d, %d, %d)", a, b, c); }
		if (Nz::Approach(Nz::Int8(a), Nz::Int8(b), Nz::Int8(c)) != want || Nz::Approach(Nz::UInt8(ua), Nz::UInt8(ub), Nz::UInt8(c)) != uwant) { mc::point(mc::u64(a), mc::u64(b), mc::u64(c)); mc::fail("approach", "Approach(8 bits %d, %d, %d)", a, b, c); }
	}
}
MC_SUITE(num_classify_all32)
{
	if (!mc::thorough()) return;
	mc::pointName("bits");
	for (mc::u64 v = 0; v <= 0xffffffffull; ++v)
	{
		if (v % 65536 == 0) mc::point(v);
		mc::u32 u = mc::u32(v); float f; std::memcpy(&f, &u, 4);
		bool special = (u & 0x7f800000u) == 0x7f800000u;
		if (Nz::IsFinite(f) == special || Nz::IsInfinity(f) != ((u & 0x7fffffffu) == 0x7f800000u) || Nz::IsNaN(f) != ((u & 0x7fffffffu) > 0x7f800000u)) { mc::point(v); mc::fail("classify", "bits 0x%x", u); }
	}
}
#endif
#endif
