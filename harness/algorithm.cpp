// C25 checked conversions (part 0), C29 low-level helpers (part 1)
#include <NazaraUtils/OffsetOf.hpp> // first: it can be included on its own
#include <NazaraUtils/Algorithm.hpp>
#include <NazaraUtils/Constants.hpp>
#include <NazaraUtils/MemoryHelper.hpp>
#include <NazaraUtils/OffsetOf.hpp>
#include "num_common.hpp"
#include "traps.hpp"
#include <array>
#include <csetjmp>
#include <csignal>
#include <map>
#include <memory>
#include <unordered_map>

#if defined(NAZARA_DEBUG) && !defined(NDEBUG)
#define CHECKED 1
#else
#define CHECKED 0
#endif

namespace
{
#if MC_PART == 0
	// runs a conversion in each of its forms; valid: the exact result must come out, otherwise the checked builds must report it
	template<typename To, typename From> void convert(From v, bool valid, To expected, const char* what)
	{
		if (valid)
		{
			From l = v; const From c = v;
			To viaCaster = Nz::SafeCaster(v);
			To viaRvalueCaster = Nz::SafeCaster(From(v));
			MC_CHECK(Nz::SafeCast<To>(From(v)) == expected, "value", "%s: rvalue", what);
			MC_CHECK(Nz::SafeCast<To>(l) == expected && l == v, "value", "%s: lvalue", what);
			MC_CHECK(Nz::SafeCast<To>(c) == expected, "value", "%s: const lvalue", what);
			MC_CHECK(viaCaster == expected && viaRvalueCaster == expected, "value", "%s: caster", what);
		}
		else if (CHECKED)
		{
			From l = v; const From c = v;
			MC_CHECK(traps([&] { (void)Nz::SafeCast<To>(From(v)); }), "unreported", "%s: rvalue out of the range of the target accepted", what);
			MC_CHECK(traps([&] { (void)Nz::SafeCast<To>(l); }), "unreported", "%s: lvalue out of the range of the target accepted", what);
			MC_CHECK(traps([&] { (void)Nz::SafeCast<To>(c); }), "unreported", "%s: const lvalue out of the range of the target accepted", what);
			MC_CHECK(traps([&] { To t = Nz::SafeCaster(l); (void)t; }), "unreported", "%s: caster: value out of the range of the target accepted", what);
			MC_CHECK(traps([&] { To t = Nz::SafeCaster(From(v)); (void)t; }), "unreported", "%s: caster: value out of the range of the target accepted", what);
		}
	}
	template<typename To, typename From> void integers(const std::vector<From>& values)
	{
		mc::pointName("value bits, sizeof(from)*2+signed, sizeof(to)*2+signed");
		for (From v : values)
		{
			mc::point(mc::u64(v), sizeof(From) * 2 + std::is_signed_v<From>, sizeof(To) * 2 + std::is_signed_v<To>);
			convert<To, From>(v, fits<To>(i128(v)), To(v), "integer to integer");
		}
	}
	template<typename From> void fromInteger(const std::vector<From>& values)
	{
		Catching c;
		forIntegers([&](auto t) { integers<decltype(t), From>(values); });
		integers<char, From>(values);
		integers<char16_t, From>(values);
		integers<unsigned long long, From>(values);
		integers<bool, From>({ From(0), From(1) });
		// to floating-point: nothing is lost for these
		for (From v : values) { mc::point(mc::u64(v), sizeof(From), 99); if (sizeof(From) < 4) convert<float, From>(v, true, float(v), "integer to float"); if (sizeof(From) < 8) convert<double, From>(v, true, double(v), "integer to double"); }
	}
	template<typename To, typename From> void floatToInt(From v)
	{
		bool valid = false;
		if (std::isfinite(v) && std::trunc(v) == v)
		{
			long double w = v;
			valid = w >= static_cast<long double>(std::numeric_limits<To>::min()) && w <= static_cast<long double>(std::numeric_limits<To>::max());
		}
		mc::point(sizeof(From) <= 8 ? floatBits(v) : 0, sizeof(From), sizeof(To) * 2 + std::is_signed_v<To>);
		convert<To, From>(v, valid, valid ? To(v) : To(), "floating-point to integer");
	}
	template<typename From> void fromFloat(const std::vector<From>& values)
	{
		Catching c;
		mc::pointName("value bits, sizeof(from), sizeof(to)*2+signed");
		for (From v : values)
		{
			if (v != v && !CHECKED) continue;
			forIntegers([&](auto t) { floatToInt<decltype(t), From>(v); });
		}
	}
	template<typename F> std::vector<F> integralFloats()
	{
		std::set<F> s;
		for (int e = 0; e < (sizeof(F) == 4 ? 70 : 70); ++e)
			for (int d = -3; d <= 3; ++d)
			{
				F p = std::ldexp(F(1), e);
				for (F v : { F(p + F(d)), F(p + F(d) / 2), std::nextafter(p, F(0)), std::nextafter(p, F(2) * p), F(F(3) * p / 2 + F(d)) }) { s.insert(v); s.insert(-v); }
			}
		return { s.begin(), s.end() };
	}
	void floatToFloat()
	{
		Catching c;
		mc::pointName("bits of the double");
		for (double v : floatValues<double>())
		{
			if (!std::isfinite(v)) continue;
			mc::point(floatBits(v));
			bool valid = std::fabs(v) <= double(std::numeric_limits<float>::max());
			convert<float, double>(v, valid, valid ? float(v) : 0.f, "double to float");
			convert<double, double>(v, true, v, "double to double");
			convert<long double, double>(v, true, v, "double to long double");
		}
		for (float v : floatValues<float>())
		{
			if (!std::isfinite(v)) continue;
			mc::point(floatBits(v));
			convert<double, float>(v, true, v, "float to double");
			convert<float, float>(v, true, v, "float to float");
		}
		for (long double v : { 0.0L, 1.5L, -3.0e38L, 3.0e38L, 4.0e38L, -4.0e38L, 1.0e300L, 1.0e308L, 1.0e309L, -1.0e309L, 1.0e4000L })
		{
			mc::point(mc::u64(std::log10(1 + std::fabs(v))));
			bool vf = std::fabs(v) <= std::numeric_limits<float>::max(), vd = std::fabs(v) <= std::numeric_limits<double>::max();
			convert<float, long double>(v, vf, vf ? float(v) : 0, "long double to float");
			convert<double, long double>(v, vd, vd ? double(v) : 0, "long double to double");
		}
	}
	enum class E8 : Nz::UInt8 {}; enum class S8 : Nz::Int8 {}; enum class S16 : Nz::Int16 {}; enum E32 : Nz::UInt32 {}; enum class S64 : Nz::Int64 {}; enum class U64 : Nz::UInt64 {};
	template<typename E, typename T> void enumToInteger()
	{
		using U = std::underlying_type_t<E>;
		for (U u : sizeof(U) == 1 ? valuesOf<U>() : fewValues<U>(1))
		{
			mc::point(mc::u64(u), sizeof(U) * 2 + std::is_signed_v<U>, sizeof(T) * 2 + std::is_signed_v<T>);
			convert<T, E>(E(u), fits<T>(i128(u)), T(u), "enumeration to integer");
		}
		for (T t : sizeof(T) == 1 ? valuesOf<T>() : fewValues<T>(1))
		{
			mc::point(mc::u64(t), sizeof(T) * 2 + std::is_signed_v<T>, sizeof(U) * 2 + std::is_signed_v<U>, 1);
			convert<E, T>(t, fits<U>(i128(t)), E(U(t)), "integer to enumeration");
		}
	}
	template<typename E, typename E2> void enumToEnum()
	{
		using U = std::underlying_type_t<E>; using U2 = std::underlying_type_t<E2>;
		for (U u : sizeof(U) == 1 ? valuesOf<U>() : fewValues<U>(1))
		{
			mc::point(mc::u64(u), sizeof(U) * 2 + std::is_signed_v<U>, sizeof(U2) * 2 + std::is_signed_v<U2>, 2);
			convert<E2, E>(E(u), fits<U2>(i128(u)), E2(U2(u)), "enumeration to enumeration");
		}
	}
	template<typename E> void enums()
	{
		forIntegers([](auto t) { enumToInteger<E, decltype(t)>(); });
		enumToEnum<E, E8>(); enumToEnum<E, S8>(); enumToEnum<E, S16>(); enumToEnum<E, E32>(); enumToEnum<E, S64>(); enumToEnum<E, U64>();
		using U = std::underlying_type_t<E>;
		for (U u : valuesOf<U>()) { MC_CHECK(Nz::UnderlyingCast(E(u)) == u && (std::is_same_v<decltype(Nz::UnderlyingCast(E(u))), U>), "underlying", "value of an enumerator"); }
	}

	// class hierarchies
	struct Base { virtual ~Base() = default; int base = 1; };
	struct Left : Base { int left = 2; };
	struct Other { virtual ~Other() = default; int other = 3; };
	struct Right : Other, Base { int right = 4; };
	struct Leaf : Left { int leaf = 5; };
	struct Plain { int plain = 6; }; struct PlainChild : Plain { int child = 7; };
	template<typename To, typename From> void pointer(From* p, bool valid, To* expected, const char* what)
	{
		convert<To*, From*>(p, valid, expected, what);
		if (valid) MC_CHECK((Nz::SafeCast<const To*>(static_cast<const From*>(p)) == expected), "value", "%s (const)", what);
		else if (CHECKED) MC_CHECK(traps([&] { (void)Nz::SafeCast<const To*>(static_cast<const From*>(p)); }), "unreported", "%s: cast to a const class the object is not accepted", what);
		if (!p) return;
		if (valid)
		{
			To& r = Nz::SafeCast<To&>(*p);
			const To& cr = Nz::SafeCast<const To&>(static_cast<const From&>(*p));
			MC_CHECK(&r == expected && &cr == expected, "value", "%s (reference)", what);
		}
		else if (CHECKED)
		{
			MC_CHECK(traps([&] { To& r = Nz::SafeCast<To&>(*p); (void)r; }), "unreported", "%s: reference to a class the object is not accepted", what);
			MC_CHECK(traps([&] { const To& r = Nz::SafeCast<const To&>(static_cast<const From&>(*p)); (void)r; }), "unreported", "%s: const reference to a class the object is not accepted", what);
		}
	}
	void hierarchies()
	{
		Catching c;
		mc::pointName("object");
		Base b; Left l; Right r; Leaf f; Other o; PlainChild pc; Plain pl;
		struct Obj { Base* base; Left* left; Right* right; Leaf* leaf; };
		Obj objects[] = { { &b, nullptr, nullptr, nullptr }, { &l, &l, nullptr, nullptr }, { &r, nullptr, &r, nullptr }, { &f, &f, nullptr, &f }, { nullptr, nullptr, nullptr, nullptr } };
		for (unsigned i = 0; i < 5; ++i)
		{
			mc::point(i);
			Obj& x = objects[i];
			pointer<Base, Base>(x.base, true, x.base, "same class");
			pointer<Left, Base>(x.base, x.left || !x.base, x.left, "base to derived");
			pointer<Right, Base>(x.base, x.right || !x.base, x.right, "second base to derived");
			pointer<Leaf, Base>(x.base, x.leaf || !x.base, x.leaf, "base to leaf");
			if (x.left) { pointer<Leaf, Left>(x.left, x.leaf != nullptr, x.leaf, "derived to leaf"); pointer<Base, Left>(x.left, true, x.base, "derived to base"); }
			if (x.right) { pointer<Other, Right>(x.right, true, &r, "derived to first base"); pointer<Base, Right>(x.right, true, x.base, "derived to second base"); }
			if (x.leaf) pointer<Base, Leaf>(x.leaf, true, x.base, "leaf to base");
			MC_CHECK((Nz::SafeCast<void*>(x.base) == x.base), "value", "pointer to void*");
		}
		pointer<Right, Other>(&r, true, &r, "first base to derived");
		pointer<Right, Other>(&o, false, nullptr, "first base to derived");
		pointer<PlainChild, Plain>(&pc, true, &pc, "non polymorphic base to derived");
		pointer<Plain, PlainChild>(&pc, true, &pc, "non polymorphic derived to base");
		{
			mc::point(100);
			std::unique_ptr<Base> u = std::make_unique<Left>();
			Base* raw = u.get();
			std::unique_ptr<Left> d = Nz::StaticUniquePointerCast<Left>(std::move(u));
			MC_CHECK(d.get() == raw && !u, "unique", "StaticUniquePointerCast");
			std::unique_ptr<Base> u2 = std::make_unique<Right>();
			raw = u2.get();
			std::unique_ptr<Right> d2 = Nz::StaticUniquePointerCast<Right>(std::move(u2));
			MC_CHECK(static_cast<Base*>(d2.get()) == raw && static_cast<void*>(d2.get()) != static_cast<void*>(raw) && !u2, "unique", "StaticUniquePointerCast to a class whose base is not at its start");
			std::unique_ptr<Base> none;
			std::unique_ptr<Right> d3 = Nz::StaticUniquePointerCast<Right>(std::move(none));
			MC_CHECK(!d3, "unique", "StaticUniquePointerCast of an empty pointer");
		}
	}
	void pointersAndIntegers()
	{
		Catching c;
		mc::pointName("address");
		for (Nz::UInt64 v : valuesOf<Nz::UInt64>())
		{
			mc::point(v);
			int* p = Nz::IntegerToPointer<int*>(v);
			MC_CHECK(reinterpret_cast<std::uintptr_t>(p) == v, "pointer", "IntegerToPointer of 0x%llx", (unsigned long long)v);
			MC_CHECK(Nz::PointerToInteger<Nz::UInt64>(p) == v, "pointer", "PointerToInteger");
			const void* cp = Nz::IntegerToPointer<const void*>(v);
			MC_CHECK(Nz::PointerToInteger<std::uintptr_t>(cp) == v, "pointer", "PointerToInteger (const void)");
			if (v <= 0x7fffffffffffffffull) MC_CHECK(Nz::IntegerToPointer<int*>(Nz::Int64(v)) == p && Nz::PointerToInteger<Nz::Int64>(p) == Nz::Int64(v), "pointer", "signed");
			else if (CHECKED) MC_CHECK(traps([&] { (void)Nz::PointerToInteger<Nz::Int64>(p); }), "unreported", "an address greater than a Int64 is accepted");
			if (v <= 0xffffffffull) MC_CHECK(Nz::PointerToInteger<Nz::UInt32>(p) == v && Nz::IntegerToPointer<int*>(Nz::UInt32(v)) == p, "pointer", "32 bits");
			else if (CHECKED) MC_CHECK(traps([&] { (void)Nz::PointerToInteger<Nz::UInt32>(p); }), "unreported", "an address greater than a UInt32 is accepted");
			if (v <= 0xffull) MC_CHECK(Nz::PointerToInteger<Nz::UInt8>(p) == v && Nz::IntegerToPointer<int*>(Nz::UInt8(v)) == p, "pointer", "8 bits");
			else if (CHECKED) MC_CHECK(traps([&] { (void)Nz::PointerToInteger<Nz::UInt8>(p); }), "unreported", "an address greater than a UInt8 is accepted");
		}
	}
#ifdef NAZARA_HAS_CONSTEVAL
	static_assert(Nz::SafeCast<Nz::UInt8>(255) == 255 && Nz::SafeCast<Nz::Int8>(-128L) == -128 && Nz::SafeCast<Nz::Int64>(-9223372036854775808.0) == std::numeric_limits<Nz::Int64>::min());
#endif
#else
	template<typename To, typename From> void cast(From f)
	{
		To t = Nz::BitCast<To>(f);
		MC_CHECK(std::memcmp(&t, &f, sizeof t) == 0, "bit-cast", "BitCast changes bytes");
		From back = Nz::BitCast<From>(t);
		MC_CHECK(std::memcmp(&back, &f, sizeof f) == 0, "bit-cast", "BitCast changes bytes");
	}
	struct Bytes8 { unsigned char v[8]; }; struct Two { Nz::UInt32 a, b; };
	template<typename T> void constants()
	{
		const long double pi = 3.14159265358979323846264338327950288L;
		MC_CHECK(Nz::Pi<T>() == T(pi) && Nz::HalfPi<T>() == T(pi / 2) && Nz::Tau<T>() == T(2 * pi), "constant", "pi (size %zu)", sizeof(T));
		MC_CHECK(Nz::Sqrt2<T>() == T(std::sqrt(2.0L)) && Nz::Sqrt3<T>() == T(std::sqrt(3.0L)) && Nz::Sqrt5<T>() == T(std::sqrt(5.0L)), "constant", "square roots (size %zu)", sizeof(T));
		MC_CHECK(Nz::Infinity<T>() == std::numeric_limits<T>::infinity() && Nz::NaN<T>() != Nz::NaN<T>(), "constant", "infinity or NaN (size %zu)", sizeof(T));
		T p = Nz::Pi(), h = Nz::HalfPi(), t = Nz::Tau(), s2 = Nz::Sqrt2(), s3 = Nz::Sqrt3(), s5 = Nz::Sqrt5(), inf = Nz::Infinity(), nan = Nz::NaN(), mx = Nz::MaxValue();
		MC_CHECK(p == Nz::Pi<T>() && h == Nz::HalfPi<T>() && t == Nz::Tau<T>() && s2 == Nz::Sqrt2<T>() && s3 == Nz::Sqrt3<T>() && s5 == Nz::Sqrt5<T>() && inf == Nz::Infinity<T>() && nan != nan && mx == std::numeric_limits<T>::max(), "constant", "untyped constants (size %zu)", sizeof(T));
		MC_CHECK(Nz::MaxValue<T>() == std::numeric_limits<T>::max(), "constant", "max (size %zu)", sizeof(T));
	}
	template<typename M> void retrieve()
	{
		mc::pointName("map content");
		for (unsigned set = 0; set < 64; ++set)
		{
			mc::point(set);
			M m;
			for (int i = 0; i < 6; ++i) if (set >> i & 1) m.emplace(i, i * 10);
			const M& c = m;
			for (int i = 0; i < 6; ++i)
				if (set >> i & 1)
				{
					MC_CHECK(Nz::Retrieve(m, i) == i * 10 && Nz::Retrieve(c, i) == i * 10, "retrieve", "value of key %d", i);
					MC_CHECK(&Nz::Retrieve(m, i) == &m.find(i)->second && &Nz::Retrieve(c, i) == &m.find(i)->second, "retrieve", "value of key %d is a copy", i);
					static_assert(std::is_same_v<decltype(Nz::Retrieve(c, i)), const int&> && std::is_same_v<decltype(Nz::Retrieve(m, i)), int&>);
				}
			MC_CHECK(m.size() == std::size_t(__builtin_popcount(set)), "retrieve", "Retrieve inserts");
		}
	}
	struct Fields { char a; Nz::UInt16 b; double c; char d[5]; Nz::UInt32 e; std::string f; };
#endif
}

#if MC_PART == 0
MC_SUITE(cast_int8) { fromInteger<Nz::Int8>(valuesOf<Nz::Int8>()); fromInteger<Nz::UInt8>(valuesOf<Nz::UInt8>()); fromInteger<char>(valuesOf<char>()); }
MC_SUITE(cast_int16) { fromInteger<Nz::Int16>(MC_SAN && !mc::thorough() ? fewValues<Nz::Int16>(2) : valuesOf<Nz::Int16>()); }
MC_SUITE(cast_uint16) { fromInteger<Nz::UInt16>(MC_SAN && !mc::thorough() ? fewValues<Nz::UInt16>(2) : valuesOf<Nz::UInt16>()); }
MC_SUITE(cast_int32) { fromInteger<Nz::Int32>(MC_SAN && !mc::thorough() ? fewValues<Nz::Int32>(1) : valuesOf<Nz::Int32>()); }
MC_SUITE(cast_uint32) { fromInteger<Nz::UInt32>(MC_SAN && !mc::thorough() ? fewValues<Nz::UInt32>(1) : valuesOf<Nz::UInt32>()); }
MC_SUITE(cast_int64) { fromInteger<Nz::Int64>(MC_SAN && !mc::thorough() ? fewValues<Nz::Int64>(1) : valuesOf<Nz::Int64>()); }
MC_SUITE(cast_uint64) { fromInteger<Nz::UInt64>(MC_SAN && !mc::thorough() ? fewValues<Nz::UInt64>(1) : valuesOf<Nz::UInt64>()); }
MC_SUITE(cast_bool) { Catching c; mc::pointName("value"); for (bool b : { false, true }) { mc::point(b); forIntegers([&](auto t) { convert<decltype(t), bool>(b, true, decltype(t)(b), "bool to integer"); }); } }
MC_SUITE(cast_from_float) { fromFloat<float>(integralFloats<float>()); }
MC_SUITE(cast_from_double) { fromFloat<double>(integralFloats<double>()); }
MC_SUITE(cast_from_long_double) { fromFloat<long double>(integralFloats<long double>()); }
MC_SUITE(cast_from_float_patterns) { fromFloat<float>(floatValues<float>()); }
MC_SUITE(cast_from_double_patterns) { if (mc::thorough() || !MC_SAN) fromFloat<double>(floatValues<double>()); }
MC_SUITE(cast_float_to_float) { floatToFloat(); }
MC_SUITE(cast_enums8) { Catching c; mc::pointName("value, from, to"); enums<E8>(); enums<S8>(); }
MC_SUITE(cast_enums16) { Catching c; mc::pointName("value, from, to"); enums<S16>(); enums<E32>(); }
MC_SUITE(cast_enums64) { Catching c; mc::pointName("value, from, to"); enums<S64>(); enums<U64>(); }
MC_SUITE(cast_hierarchies) { hierarchies(); }
MC_SUITE(cast_pointers) { pointersAndIntegers(); }
#else
MC_SUITE(misc_bit_cast)
{
	mc::pointName("bits");
	for (float f : floatValues<float>()) { mc::point(floatBits(f)); cast<Nz::UInt32>(f); cast<Nz::Int32>(f); cast<std::array<unsigned char, 4>>(f); }
	for (double f : floatValues<double>()) { mc::point(floatBits(f)); cast<Nz::UInt64>(f); cast<Nz::Int64>(f); cast<Bytes8>(f); cast<Two>(f); }
	for (auto v : valuesOf<Nz::UInt64>()) { mc::point(v); cast<double>(v); cast<Two>(v); cast<Nz::Int64>(v); cast<void*>(v); }
	for (auto v : valuesOf<Nz::UInt32>()) { mc::point(v); cast<float>(v); cast<Nz::Int32>(v); }
	for (auto v : valuesOf<Nz::Int16>()) { mc::point(mc::u64(v)); cast<Nz::UInt16>(v); cast<char16_t>(v); }
}
MC_SUITE(misc_constants)
{
	mc::pointName("type");
	mc::point(0); constants<float>(); mc::point(1); constants<double>(); mc::point(2); constants<long double>();
	forIntegers([](auto t)
	{
		using T = decltype(t); mc::point(sizeof(T), std::is_signed_v<T>);
		T mx = Nz::MaxValue(), mn = Nz::MinValue();
		MC_CHECK(Nz::MaxValue<T>() == std::numeric_limits<T>::max() && Nz::MinValue<T>() == std::numeric_limits<T>::min() && mx == Nz::MaxValue<T>() && mn == Nz::MinValue<T>(), "constant", "limits (size %zu)", sizeof(T));
		MC_CHECK(Nz::BitCount<T> == bitsOf<T>, "constant", "BitCount (size %zu)", sizeof(T));
	});
}
MC_SUITE(misc_retrieve_map) { retrieve<std::map<int, int>>(); }
MC_SUITE(misc_retrieve_unordered) { retrieve<std::unordered_map<int, int>>(); }
MC_SUITE(misc_count)
{
	mc::pointName("case");
	mc::point(6); MC_CHECK(Nz::CountOf("") == 0 && Nz::CountOf("a") == 1 && Nz::CountOf("abcdefghij") == 10 && Nz::CountOf("\0") == 1 && Nz::CountOf("\0\0\0") == 3 && Nz::CountOf("a\0b") == 3 && Nz::CountOf("ab\0") == 3 && Nz::CountOf("\xC3\xA9") == 2, "count", "literals");
	static_assert(Nz::CountOf("a\0b") == 3 && Nz::CountOf("abc") == 3);
	mc::point(1); int a1[1] = {}; MC_CHECK(Nz::CountOf(a1) == 1, "count", "array of 1");
	mc::point(2); double a7[7] = {}; const int c9[9] = {}; MC_CHECK(Nz::CountOf(a7) == 7 && Nz::CountOf(c9) == 9, "count", "arrays");
	mc::point(3); int a2[3][5] = {}; MC_CHECK(Nz::CountOf(a2) == 3 && Nz::CountOf(a2[0]) == 5, "count", "array of arrays");
	mc::point(4); std::array<char, 11> std11{}; MC_CHECK(Nz::CountOf(std11) == 11, "count", "std::array");
	for (std::size_t n = 0; n < 300; ++n) { mc::point(5, n); std::vector<int> v(n); std::string s(n, 'x'); std::map<std::size_t, int> m; for (std::size_t i = 0; i < n; ++i) m[i]; MC_CHECK(Nz::CountOf(v) == n && Nz::CountOf(s) == n && Nz::CountOf(m) == n, "count", "containers of %zu elements", n); }
}
// Sizes, counts and offsets which don't fit in a narrower type
template<std::size_t N> struct Blob { char bytes[N]; };
struct Sized { std::size_t count; constexpr std::size_t size() const noexcept { return count; } };
enum class BigEnum : unsigned long long {};
static char s_room[(1u << 20) + 64];
static int s_ints[70000];
MC_SUITE(misc_large)
{
	mc::pointName("case");
	mc::point(0); MC_CHECK(Nz::BitCount<Blob<1>> == 8 && Nz::BitCount<Blob<31>> == 248 && Nz::BitCount<Blob<32>> == 256 && Nz::BitCount<Blob<8192>> == 65536 && Nz::BitCount<Blob<20000>> == 160000, "constant", "BitCount of structures");
	mc::point(1); MC_CHECK(Nz::BitCount<bool> == 8 * sizeof(bool) && Nz::BitCount<void*> == 8 * sizeof(void*) && Nz::BitCount<BigEnum> == 64 && Nz::BitCount<float> == 32 && Nz::BitCount<double> == 64 && Nz::BitCount<char[1000]> == 8000, "constant", "BitCount of other types");
	static_assert(Nz::BitCount<char[(1ull << 32) / 8]> == 1ull << 32 && Nz::BitCount<char[(1ull << 40)]> == 1ull << 43);
	mc::point(2); MC_CHECK(Nz::CountOf(s_ints) == 70000, "count", "array of 70000: %zu", Nz::CountOf(s_ints));
	mc::point(3); MC_CHECK(Nz::CountOf(s_room) == sizeof s_room - 1 || Nz::CountOf(s_room) == sizeof s_room, "count", "character array of %zu: %zu", sizeof s_room, Nz::CountOf(s_room));
	for (unsigned bit = 0; bit < 64; ++bit)
		for (int delta = -1; delta <= 1; ++delta)
		{
			mc::point(4, bit, delta);
			Sized c{ (std::size_t(1) << bit) + std::size_t(delta) };
			MC_CHECK(Nz::CountOf(c) == c.count, "count", "container of %zu elements: %zu", c.count, Nz::CountOf(c));
		}
	for (unsigned bit = 0; bit <= 20; ++bit)
		for (int delta = -8; delta <= 8; ++delta)
		{
			long long at = (1ll << bit) + delta; if (at < 0) continue;
			std::size_t offset = std::size_t(at);
			mc::point(5, bit, delta);
			void* base = s_room; const void* cbase = s_room;
			MC_CHECK(&Nz::AccessByOffset<char&>(base, offset) == s_room + offset && Nz::AccessByOffset<char*>(base, offset) == s_room + offset, "offset", "AccessByOffset at %zu", offset);
			MC_CHECK(&Nz::AccessByOffset<const char&>(cbase, offset) == s_room + offset && Nz::AccessByOffset<const char*>(cbase, offset) == s_room + offset, "offset", "constant AccessByOffset at %zu", offset);
			Nz::AccessByOffset<char&>(base, offset) = char(offset);
			MC_CHECK(s_room[offset] == char(offset), "offset", "write at %zu", offset);
		}
}
MC_SUITE(misc_offset)
{
	mc::pointName("field");
	Fields x{ 'a', 2, 3.5, "four", 5, "six" }; const Fields& c = x;
	auto field = [&](unsigned n, auto& member, std::size_t off)
	{
		mc::point(n);
		using M = std::remove_reference_t<decltype(member)>;
		MC_CHECK(off == std::size_t(reinterpret_cast<char*>(&member) - reinterpret_cast<char*>(&x)), "offset", "offset of field %u is %zu", n, off);
		MC_CHECK(&Nz::AccessByOffset<M&>(&x, off) == &member && Nz::AccessByOffset<M*>(&x, off) == &member, "offset", "access of field %u", n);
		MC_CHECK(&Nz::AccessByOffset<const M&>(&c, off) == &member && Nz::AccessByOffset<const M*>(&c, off) == &member, "offset", "const access of field %u", n);
		static_assert(std::is_same_v<decltype(Nz::AccessByOffset<M&>(static_cast<void*>(&x), off)), M&> && std::is_same_v<decltype(Nz::AccessByOffset<const M*>(static_cast<const void*>(&c), off)), const M*>);
	};
	field(0, x.a, NazaraOffsetOf(Fields, a)); field(1, x.b, NazaraOffsetOf(Fields, b)); field(2, x.c, NazaraOffsetOf(Fields, c)); field(3, x.d, offsetof(Fields, d)); field(4, x.e, NazaraOffsetOf(Fields, e)); field(5, x.f, NazaraOffsetOf(Fields, f));
	// addresses only: nothing of the large area is accessed
	unsigned char small[512]; unsigned char* buffer = small; std::size_t size = sizeof(small);
	void* area = mmap(nullptr, (std::size_t(1) << 33) + 16, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	auto access = [&](std::size_t off)
	{
		mc::point(100, off);
		void* p = buffer; const void* cp = buffer;
		MC_CHECK(&Nz::AccessByOffset<unsigned char&>(p, off) == buffer + off && Nz::AccessByOffset<unsigned char*>(p, off) == buffer + off && &Nz::AccessByOffset<const unsigned char&>(cp, off) == buffer + off && Nz::AccessByOffset<const unsigned char*>(cp, off) == buffer + off, "offset", "byte %zu", off);
	};
	for (std::size_t off = 0; off < size; ++off) access(off);
	if (area != MAP_FAILED)
	{
		buffer = static_cast<unsigned char*>(area);
		for (unsigned bit = 9; bit <= 33; ++bit) for (int d = -2; d <= 2; ++d) for (std::size_t extra : { std::size_t(0), std::size_t(1) << (bit - 1), std::size_t(1) << (bit / 2) })
			if (std::size_t off = (std::size_t(1) << bit) + std::size_t(d) + extra; off <= (std::size_t(1) << 33)) access(off);
		munmap(area, (std::size_t(1) << 33) + 16);
	}
}
MC_SUITE(misc_placement)
{
	mc::pointName("value");
	for (int v = 0; v < 64; ++v)
	{
		mc::point(mc::u64(v));
		alignas(mc::Elem) unsigned char raw[sizeof(mc::Listed) * 3];
		mc::lifeExpect(0, "before a placement construction");
		mc::Elem* p = Nz::PlacementNew(reinterpret_cast<mc::Elem*>(raw) + 1, v);
		MC_CHECK(p == reinterpret_cast<mc::Elem*>(raw) + 1 && p->get() == v, "placement", "object %d", v);
		mc::lifeExpect(1, "after a placement construction");
		mc::Elem* q = Nz::PlacementNew(reinterpret_cast<mc::Elem*>(raw), *p);
		MC_CHECK(q->get() == v && p->get() == v, "placement", "copy");
		Nz::PlacementDestroy(p); mc::lifeExpect(1, "after a destruction");
		Nz::PlacementDestroy(q); mc::lifeExpect(0, "after a destruction");
		Nz::PlacementDestroy(static_cast<mc::Elem*>(nullptr));
		// built from its arguments, as in T(args...)
		alignas(std::vector<int>) unsigned char vec[sizeof(std::vector<int>)];
		auto* w = Nz::PlacementNew(reinterpret_cast<std::vector<int>*>(vec), std::size_t(v), 7);
		MC_CHECK(w->size() == std::size_t(v) && (v == 0 || w->back() == 7), "placement", "vector of %d elements", v);
		Nz::PlacementDestroy(w);
		mc::Listed* l = Nz::PlacementNew(reinterpret_cast<mc::Listed*>(raw), v);
		MC_CHECK(l->get() == v, "placement", "element");
		mc::Listed& m = *Nz::PlacementNew(reinterpret_cast<mc::Listed*>(raw) + 1, *l);
		MC_CHECK(m.get() == v && l->get() == v, "placement", "copy");
		Nz::PlacementDestroy(l); Nz::PlacementDestroy(&m);
		mc::lifeExpect(0, "after a destruction");
	}
}
MC_SUITE(misc_unique_cast)
{
	mc::pointName("case");
	struct B { virtual ~B() = default; mc::Elem e{ 1 }; }; struct O { virtual ~O() = default; mc::Elem e{ 2 }; }; struct D : O, B { mc::Elem f{ 3 }; };
	for (int i = 0; i < 3; ++i)
	{
		mc::point(mc::u64(i));
		{
			std::unique_ptr<B> b = std::make_unique<D>();
			mc::lifeExpect(3, "one object");
			std::unique_ptr<D> d = Nz::StaticUniquePointerCast<D>(std::move(b));
			MC_CHECK(!b && d && d->f.get() == 3 && d->B::e.get() == 1, "unique", "StaticUniquePointerCast");
			mc::lifeExpect(3, "one object");
			if (i == 1) { std::unique_ptr<O> o = Nz::StaticUniquePointerCast<O>(std::move(d)); MC_CHECK(!d && o->e.get() == 2, "unique", "StaticUniquePointerCast to a base"); o.reset(); mc::lifeExpect(0, "destroyed"); }
			if (i == 2) { d.reset(); mc::lifeExpect(0, "destroyed"); }
		}
		mc::lifeExpect(0, "destroyed");
	}
}
#endif
