// C15 byte order (part 0), C16 hashing (part 1)
#include <NazaraUtils/MathUtils.hpp>
#include <NazaraUtils/Endianness.hpp>
#include <NazaraUtils/Hash.hpp>
#include <NazaraUtils/StringHash.hpp>
#include "num_common.hpp"
#include <map>
#include <string_view>
#include <unordered_map>

namespace
{
#if MC_PART == 0
	template<typename T> void image(T v, unsigned char* out) { std::memcpy(out, &v, sizeof v); }
	template<typename T> bool reversed(T a, T b)
	{
		unsigned char x[sizeof(T)], y[sizeof(T)];
		image(a, x); image(b, y);
		for (std::size_t i = 0; i < sizeof(T); ++i) if (x[i] != y[sizeof(T) - 1 - i]) return false;
		return true;
	}
	template<typename T> bool same(T a, T b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }
	template<typename T> void order(T v)
	{
		T s = Nz::ByteSwap(v);
		MC_CHECK(reversed(v, s), "byte-swap", "ByteSwap does not reverse the bytes (size %zu)", sizeof(T));
		MC_CHECK(same(Nz::ByteSwap(s), v), "byte-swap", "ByteSwap twice is not the identity (size %zu)", sizeof(T));
		constexpr bool little = __BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__;
		static_assert(Nz::PlatformEndianness == (little ? Nz::Endianness::LittleEndian : Nz::Endianness::BigEndian));
		T be = Nz::HostToBigEndian(v), le = Nz::HostToLittleEndian(v);
		MC_CHECK(same(be, little ? s : v), "big-endian", "HostToBigEndian (size %zu)", sizeof(T));
		MC_CHECK(same(le, little ? v : s), "little-endian", "HostToLittleEndian (size %zu)", sizeof(T));
		MC_CHECK(same(Nz::BigEndianToHost(be), v) && same(Nz::BigEndianToHost(v), be), "big-endian", "BigEndianToHost (size %zu)", sizeof(T));
		MC_CHECK(same(Nz::LittleEndianToHost(le), v) && same(Nz::LittleEndianToHost(v), le), "little-endian", "LittleEndianToHost (size %zu)", sizeof(T));
	}
	template<typename T> void integerOrder(T v)
	{
		mc::point(bitsU(v), sizeof(T), std::is_signed_v<T>);
		order(v);
		// the first byte of a big endian value is its most significant one
		unsigned char bytes[sizeof(T)];
		image(Nz::HostToBigEndian(v), bytes);
		for (std::size_t i = 0; i < sizeof(T); ++i) MC_CHECK(bytes[i] == ((bitsU(v) >> (8 * (sizeof(T) - 1 - i))) & 0xff), "big-endian", "byte %zu of a big endian 0x%llx is 0x%x", i, (unsigned long long)bitsU(v), bytes[i]);
		image(Nz::HostToLittleEndian(v), bytes);
		for (std::size_t i = 0; i < sizeof(T); ++i) MC_CHECK(bytes[i] == ((bitsU(v) >> (8 * i)) & 0xff), "little-endian", "byte %zu of a little endian 0x%llx is 0x%x", i, (unsigned long long)bitsU(v), bytes[i]);
	}
#else
	mc::u32 refCrc(const unsigned char* p, std::size_t n)
	{
		mc::u32 crc = ~0u;
		for (std::size_t i = 0; i < n; ++i)
		{
			crc ^= p[i];
			for (int b = 0; b < 8; ++b) crc = (crc & 1) ? (crc >> 1) ^ 0xEDB88320u : crc >> 1;
		}
		return ~crc;
	}
	mc::u32 refFnv32(const unsigned char* p, std::size_t n) { mc::u32 h = 2166136261u; for (std::size_t i = 0; i < n; ++i) { h ^= p[i]; h *= 16777619u; } return h; }
	mc::u64 refFnv64(const unsigned char* p, std::size_t n) { mc::u64 h = 14695981039346656037ull; for (std::size_t i = 0; i < n; ++i) { h ^= p[i]; h *= 1099511628211ull; } return h; }

	void hashes(const std::string& s)
	{
		// exact-size copy: reading outside is an error
		std::unique_ptr<unsigned char[]> raw(new unsigned char[s.size()]);
		std::memcpy(raw.get(), s.data(), s.size());
		const unsigned char* p = raw.get();
		const Nz::UInt8* u = p;
		std::string_view view(reinterpret_cast<const char*>(p), s.size());
		mc::u32 crc = refCrc(p, s.size()), f32 = refFnv32(p, s.size());
		mc::u64 f64 = refFnv64(p, s.size());
		MC_CHECK(Nz::CRC32(u, s.size()) == crc, "crc32", "CRC32(bytes) = 0x%x, expected 0x%x (%zu bytes)", Nz::CRC32(u, s.size()), crc, s.size());
		MC_CHECK(Nz::CRC32(view) == crc, "crc32", "CRC32(string_view) = 0x%x, expected 0x%x (%zu bytes)", Nz::CRC32(view), crc, s.size());
		MC_CHECK(Nz::FNV1a32(u, s.size()) == f32, "fnv32", "FNV1a32(bytes) = 0x%x, expected 0x%x (%zu bytes)", Nz::FNV1a32(u, s.size()), f32, s.size());
		MC_CHECK(Nz::FNV1a32(view) == f32, "fnv32", "FNV1a32(string_view) = 0x%x, expected 0x%x (%zu bytes)", Nz::FNV1a32(view), f32, s.size());
		MC_CHECK(Nz::FNV1a64(u, s.size()) == f64, "fnv64", "FNV1a64(bytes) (%zu bytes)", s.size());
		MC_CHECK(Nz::FNV1a64(view) == f64, "fnv64", "FNV1a64(string_view) (%zu bytes)", s.size());
		if (s.find('\0') == std::string::npos)
		{
			const char* c = s.c_str();
			MC_CHECK(Nz::CRC32(c) == crc, "crc32", "CRC32(C string) = 0x%x, expected 0x%x (%zu bytes)", Nz::CRC32(c), crc, s.size());
			MC_CHECK(Nz::FNV1a32(c) == f32, "fnv32", "FNV1a32(C string) = 0x%x, expected 0x%x (%zu bytes)", Nz::FNV1a32(c), f32, s.size());
			MC_CHECK(Nz::FNV1a64(c) == f64, "fnv64", "FNV1a64(C string) (%zu bytes)", s.size());
			MC_CHECK(Nz::CRC32Hash{}(c) == crc && Nz::FNV1a32Hash{}(c) == f32 && Nz::FNV1a64Hash{}(c) == f64, "functor", "hash functors disagree with the functions");
		}
		MC_CHECK(Nz::CRC32Hash{}(view) == crc && Nz::FNV1a32Hash{}(view) == f32 && Nz::FNV1a64Hash{}(view) == f64, "functor", "hash functors disagree with the functions");
		MC_CHECK(Nz::HashFunctor<Nz::CRC32Hash>{}(view) == std::size_t(crc) && Nz::HashFunctor<Nz::FNV1a64Hash>{}(view) == std::size_t(f64) && Nz::HashFunctor<Nz::FNV1a32Hash>{}(u, s.size()) == std::size_t(f32), "functor", "HashFunctor disagrees with the function");
		mc::outcome(f64);
	}
	mc::u64 cityCombine(mc::u64 seed, mc::u64 h)
	{
		const mc::u64 k = 0x9ddfea08eb382d69ull;
		mc::u64 a = (h ^ seed) * k; a ^= a >> 47;
		mc::u64 b = (seed ^ a) * k; b ^= b >> 47;
		return b * k;
	}
	template<typename C> void stringHash(const std::vector<C>& alphabet, unsigned maxLen)
	{
		mc::forAll([&](mc::Exec& x)
		{
			unsigned n = x.choose(maxLen + 1);
			std::basic_string<C> s;
			for (unsigned i = 0; i < n; ++i) s.push_back(alphabet[x.choose(unsigned(alphabet.size()))]);
			Nz::StringHash<C> h;
			std::size_t want = std::hash<std::basic_string_view<C>>{}(s);
			MC_CHECK(h(s) == want && h(std::basic_string_view<C>(s)) == want, "string-hash", "StringHash disagrees with the hash of the characters");
			std::unique_ptr<C[]> raw(new C[n]);
			std::copy(s.begin(), s.end(), raw.get());
			MC_CHECK(h(std::basic_string_view<C>(raw.get(), n)) == want, "string-hash", "StringHash of a view");
			if (s.find(C(0)) == s.npos) MC_CHECK(h(s.c_str()) == want, "string-hash", "StringHash of a C string");
			x.step();
			mc::outcome(want);
		});
	}
#endif
}

#if MC_PART == 0
MC_SUITE(order_integers) { mc::pointName("value bits, sizeof, signed"); forIntegers([](auto t) { for (auto v : valuesOf<decltype(t)>()) integerOrder(v); }); forOddIntegers([](auto t) { for (auto v : fewValues<decltype(t)>(2)) integerOrder(v); }); }
MC_SUITE(order_bool) { for (bool b : { false, true }) { mc::point(b); order(b); } }
MC_SUITE(order_floats)
{
	mc::pointName("float bits, sizeof");
	for (float f : floatValues<float>()) { mc::point(floatBits(f), 4); order(f); }
	for (double f : floatValues<double>()) { mc::point(floatBits(f), 8); order(f); }
}
MC_SUITE(order_long_double)
{
	mc::pointName("byte index, byte value");
	for (unsigned i = 0; i < sizeof(long double); ++i) for (unsigned b = 0; b < 256; ++b)
	{
		mc::point(i, b);
		unsigned char bytes[sizeof(long double)];
		for (unsigned k = 0; k < sizeof bytes; ++k) bytes[k] = (unsigned char)(k + 1);
		bytes[i] = (unsigned char)b;
		Nz::SwapBytes(bytes, sizeof bytes);
		for (unsigned k = 0; k < sizeof bytes; ++k) MC_CHECK(bytes[sizeof bytes - 1 - k] == (k == i ? b : k + 1), "swap-bytes", "byte %u", k);
	}
}
MC_SUITE(swap_bytes)
{
	mc::pointName("size, offset");
	std::vector<unsigned> sizes;
	for (unsigned n = 0; n <= mc::pick(130u, 1030u); ++n) sizes.push_back(n);
	for (unsigned n : { 254u, 255u, 256u, 257u, 510u, 511u, 512u, 513u, 65534u, 65535u, 65536u, 65537u, 131070u, 131072u, 131073u, 131074u }) sizes.push_back(n);
	for (unsigned n : sizes) for (unsigned off = 0; off < 4; ++off)
	{
		mc::point(n, off);
		// exact allocation: any access outside is detected by the sanitizer, and by the guards elsewhere
		std::unique_ptr<unsigned char[]> buffer(new unsigned char[off + n]);
		for (unsigned i = 0; i < off; ++i) buffer[i] = 0xEE;
		for (unsigned i = 0; i < n; ++i) buffer[off + i] = (unsigned char)(i * 7 + (i >> 8));
		Nz::SwapBytes(buffer.get() + off, n);
		for (unsigned i = 0; i < off; ++i) MC_CHECK(buffer[i] == 0xEE, "swap-bytes", "byte written before the buffer");
		for (unsigned i = 0; i < n; ++i) MC_CHECK(buffer[off + n - 1 - i] == (unsigned char)(i * 7 + (i >> 8)), "swap-bytes", "SwapBytes of %u bytes: byte %u is not at its mirror", n, i);
	}
}
#else
MC_SUITE(hash_all_short)
{
	// every string of 0, 1 and 2 bytes
	mc::pointName("length, bytes");
	mc::point(0); hashes("");
	for (unsigned a = 0; a < 256; ++a) { mc::point(1, a); hashes(std::string(1, char(a))); }
	for (unsigned a = 0; a < 256; ++a) for (unsigned b = 0; b < 256; b += MC_SAN ? 5 : 1) { mc::point(2, a, b); hashes(std::string{ char(a), char(b) }); }
}
MC_SUITE(hash_strings)
{
	mc::forAll([](mc::Exec& x)
	{
		static const char alphabet[] = { 'a', '\0', char(0x80), char(0xff), '\x7f' };
		unsigned n = x.choose(MC_SAN ? mc::pick(6, 7) : mc::pick(8, 10));
		std::string s;
		for (unsigned i = 0; i < n; ++i) s.push_back(x.of(alphabet));
		x.step();
		hashes(s);
	});
}
MC_SUITE(hash_long)
{
	// long messages: every position of a differing byte
	mc::pointName("length, position, xor");
	for (unsigned n : { 7u, 8u, 9u, 31u, 32u, 33u, 63u, 64u, 65u, 255u, 256u, 257u, 1000u })
		for (unsigned p = 0; p < n; p += (n > 100 && !mc::thorough() ? 13 : 1))
			for (unsigned v : { 0u, 1u, 0x80u, 0xffu })
			{
				mc::point(n, p, v);
				std::string s(n, '\0');
				for (unsigned i = 0; i < n; ++i) s[i] = char(i * 31 + 7);
				s[p] = char(s[p] ^ v);
				hashes(s);
			}
}
MC_SUITE(hash_huge)
{
	mc::pointName("length, position");
	for (unsigned n : { 65534u, 65535u, 65536u, 65537u, 131071u, 131073u })
		for (unsigned p : { 0u, 1u, 65533u, 65534u, 65535u, 65536u, n - 1 })
		{
			if (p >= n) continue;
			mc::point(n, p);
			std::string s(n, 'a');
			s[p] = 'b';
			hashes(s);
		}
}
MC_SUITE(hash_combine)
{
	mc::pointName("a, b, c, seed");
	const mc::u64 values[] = { 0, 1, 2, 3, 255, 256, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull, 0x123456789abcdef0ull };
	for (const mc::u64 a : values) for (const mc::u64 seed : values)
	{
		mc::point(a, seed);
		std::size_t s = std::size_t(seed);
		Nz::HashCombine(s, a);
		MC_CHECK(s == cityCombine(seed, std::hash<mc::u64>{}(a)), "combine", "HashCombine(seed 0x%llx, 0x%llx) = 0x%zx", (unsigned long long)seed, (unsigned long long)a, s);
		s = std::size_t(seed);
		Nz::HashCombine(s, std::to_string(a));
		MC_CHECK(s == cityCombine(seed, std::hash<std::string>{}(std::to_string(a))), "combine", "HashCombine(seed, string)");
		for (const mc::u64 b : values) for (const mc::u64 c : values)
		{
			mc::point(a, b, c, seed);
			std::hash<mc::u64> h;
			MC_CHECK(Nz::HashCombine(a) == h(a), "combine", "HashCombine of one value");
			MC_CHECK(Nz::HashCombine(a, b) == cityCombine(h(a), h(h(b))), "combine", "HashCombine of two values");
			MC_CHECK(Nz::HashCombine(a, b, c) == cityCombine(h(a), h(cityCombine(h(b), h(h(c))))), "combine", "HashCombine of three values");
			if (a != b) MC_CHECK(Nz::HashCombine(a, b) != Nz::HashCombine(b, a), "combine", "HashCombine ignores the order of its values");
			MC_CHECK(Nz::HashCombine(std::to_string(a), int(b)) == Nz::HashCombine(std::to_string(a), int(b)), "combine", "HashCombine is not a function of its values");
			mc::outcome(Nz::HashCombine(a, b, c));
		}
	}
}
MC_SUITE(string_hash) { stringHash<char>({ 'a', 'b', '\0', char(0xff) }, MC_SAN ? 5 : mc::pick(7, 9)); }
MC_SUITE(string_hash_char16) { stringHash<char16_t>({ u'a', u'\0', u'\xffff', u'\x100' }, MC_SAN ? 5 : 6); }
MC_SUITE(string_hash_wide) { stringHash<wchar_t>({ L'a', L'\0', L'\xffff' }, 6); }
MC_SUITE(string_hash_char32) { stringHash<char32_t>({ U'a', U'\0', U'\x10ffff' }, 6); }
MC_SUITE(string_hash_lookup)
{
	mc::forAll([](mc::Exec& x)
	{
		// usable as the hasher of a container, whatever the way the key is spelled
		std::unordered_map<std::string, int, Nz::StringHash<>> map;
		std::map<std::string, int> model;
		const std::string keys[] = { "", "a", "b", "ab", std::string("a\0b", 3), "\xff\x80" };
		for (unsigned i = 0; i < 4; ++i) { const std::string& k = x.of(keys); map[k] += int(i) + 1; model[k] += int(i) + 1; x.step(); }
		MC_CHECK(map.size() == model.size(), "string-hash", "wrong number of keys");
		for (auto& p : model) MC_CHECK(map.find(p.first) != map.end() && map[p.first] == p.second, "string-hash", "lookup");
	});
}
#endif
