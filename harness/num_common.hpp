#pragma once
#include "mc.hpp"
#include <cmath>
#include <cstring>
#include <limits>
#include <type_traits>

using i128 = __int128;
using u128 = unsigned __int128;

template<typename T> constexpr unsigned bitsOf = unsigned(sizeof(T) * 8);
template<typename T> mc::u64 bitsU(T v) { return mc::u64(std::make_unsigned_t<T>(v)); }
template<typename T> bool bitAt(T v, unsigned i) { return (bitsU(v) >> i) & 1; }

// every value of 8 and 16 bits types; for wider ones every run of ones [i, j), its complement, every 2^k +- d, every pair of bits,
// small values and values close to the limits
template<typename T> const std::vector<T>& valuesOf()
{
	static const std::vector<T> values = []
	{
		using U = std::make_unsigned_t<T>;
		std::set<U> s;
		if constexpr (sizeof(T) <= 2)
			for (mc::u64 v = 0; v <= mc::u64(std::numeric_limits<U>::max()); ++v) s.insert(U(v));
		else
		{
			constexpr unsigned B = bitsOf<T>;
			for (unsigned i = 0; i < B; ++i)
			{
				for (unsigned j = i + 1; j <= B; ++j)
				{
					U run = U((j - i == B ? ~U(0) : U((U(1) << (j - i)) - 1)) << i);
					s.insert(run); s.insert(U(~run));
					if (j < B) { s.insert(U((U(1) << i) | (U(1) << j))); s.insert(U(~((U(1) << i) | (U(1) << j)))); }
				}
				for (int d = -5; d <= 5; ++d) { s.insert(U((U(1) << i) + U(d))); s.insert(U(U(3) * (U(1) << i) + U(d))); }
			}
			for (mc::u64 v = 0; v < 2048; ++v) { s.insert(U(v)); s.insert(U(~U(v))); s.insert(U(U(std::numeric_limits<std::make_signed_t<T>>::max()) + U(v) - U(1024))); s.insert(U(v * 0x0101010101010101ull)); s.insert(U(v * 0x9E3779B97F4A7C15ull)); }
		}
		std::vector<T> out;
		for (U u : s) out.push_back(T(u));
		return out;
	}();
	return values;
}
// a smaller set, used in pairs and triples
template<typename T> const std::vector<T>& fewValues(unsigned level)
{
	static std::vector<T> sets[3];
	std::vector<T>& out = sets[level];
	if (!out.empty()) return out;
	using U = std::make_unsigned_t<T>;
	std::set<U> s;
	if (sizeof(T) == 1 && level == 2)
		for (unsigned v = 0; v < 256; ++v) s.insert(U(v));
	int d = level == 2 ? 2 : 1;
	for (unsigned i = 0; i < bitsOf<T>; ++i)
	{
		if (level == 0 && i % 3 && i + 2 < bitsOf<T>) continue;
		for (int k = -d; k <= d; ++k) { s.insert(U((U(1) << i) + U(k))); s.insert(U(~U((U(1) << i) + U(k)))); }
	}
	for (unsigned v = 0; v < (level == 0 ? 12u : level == 1 ? 24u : 64u); ++v) { s.insert(U(v)); s.insert(U(~U(v))); s.insert(U(U(std::numeric_limits<T>::max()) - U(v))); s.insert(U(U(std::numeric_limits<T>::min()) + U(v))); }
	for (U u : s) out.push_back(T(u));
	return out;
}
template<typename F> void forSigned(F&& f) { f(Nz::Int8()); f(Nz::Int16()); f(Nz::Int32()); f(Nz::Int64()); }
template<typename F> void forUnsigned(F&& f) { f(Nz::UInt8()); f(Nz::UInt16()); f(Nz::UInt32()); f(Nz::UInt64()); }
template<typename F> void forIntegers(F&& f) { forSigned(f); forUnsigned(f); }
template<typename F> void forOddIntegers(F&& f) { f(char()); f(wchar_t()); f(char16_t()); f(char32_t()); f((long)0); f((unsigned long)0); f((long long)0); f((unsigned long long)0); }
template<typename T> const char* typeOf() { return std::is_signed_v<T> ? (sizeof(T) == 1 ? "Int8" : sizeof(T) == 2 ? "Int16" : sizeof(T) == 4 ? "Int32" : "Int64") : (sizeof(T) == 1 ? "UInt8" : sizeof(T) == 2 ? "UInt16" : sizeof(T) == 4 ? "UInt32" : "UInt64"); }
template<typename T> bool fits(i128 v) { return v >= i128(std::numeric_limits<T>::min()) && v <= i128(std::numeric_limits<T>::max()); }
inline std::string str(i128 v) { if (v == 0) return "0"; bool neg = v < 0; std::string s; u128 u = neg ? u128(-v) : u128(v); while (u) { s.insert(s.begin(), char('0' + int(u % 10))); u /= 10; } return neg ? "-" + s : s; }

// floats: every exponent and sign with a family of mantissas
template<typename F> const std::vector<F>& floatValues()
{
	static const std::vector<F> values = []
	{
		using U = std::conditional_t<sizeof(F) == 4, mc::u32, mc::u64>;
		constexpr unsigned M = sizeof(F) == 4 ? 23 : 52, E = sizeof(F) == 4 ? 8 : 11;
		std::vector<F> out;
		for (unsigned s = 0; s < 2; ++s)
			for (U e = 0; e < (U(1) << E); ++e)
			{
				std::set<U> ms{ 0, 1, 2, 3, (U(1) << M) - 1, (U(1) << M) - 2, U(0x5555555555555555ull) & ((U(1) << M) - 1) };
				for (unsigned i = 0; i < M; i += (sizeof(F) == 4 ? 1 : 3)) ms.insert(U(1) << i);
				for (U m : ms)
				{
					U bits = (U(s) << (M + E)) | (e << M) | m;
					F f; std::memcpy(&f, &bits, sizeof f);
					out.push_back(f);
				}
			}
		return out;
	}();
	return values;
}
template<typename F> mc::u64 floatBits(F f) { std::conditional_t<sizeof(F) == 4, mc::u32, mc::u64> u; std::memcpy(&u, &f, sizeof u); return u; }
