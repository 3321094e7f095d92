// C27 UTF-8 strings and paths
#include <NazaraUtils/PathUtils.hpp>
#include <NazaraUtils/StringUtils.hpp>
#include "mc.hpp"
#include <cstring>
#include <filesystem>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <type_traits>
#include <unordered_set>
#include <vector>

namespace
{
#if NAZARA_CHECK_CPP_VER(NAZARA_CPP20)
	constexpr bool Cpp20 = true;
	using U8 = char8_t;
#else
	constexpr bool Cpp20 = false;
	using U8 = char;
#endif
	using U8String = std::basic_string<U8>;
	using U8View = std::basic_string_view<U8>;
	template<typename S> std::vector<unsigned char> bytes(const S& s) { const auto* p = reinterpret_cast<const unsigned char*>(s.data()); return std::vector<unsigned char>(p, p + s.size()); }
	std::vector<unsigned char> bytes(const std::string& s, std::size_t n) { return std::vector<unsigned char>(s.begin(), s.begin() + std::ptrdiff_t(n)); }
	std::string hex(const std::vector<unsigned char>& v) { std::string r; for (unsigned char c : v) { char b[4]; std::snprintf(b, 4, "%02x ", c); r += b; } return r; }
	template<typename S> void same(const S& got, const std::vector<unsigned char>& want, const char* what)
	{
		if (bytes(got) != want) mc::fail("bytes", "%s gives bytes [%s] instead of [%s]", what, hex(bytes(got)).c_str(), hex(want).c_str());
	}
	// a view may refer to the memory of its source only, at the same place
	template<typename Got, typename C> void refers(const Got& got, const C* data, const char* what)
	{
		if constexpr (std::is_same_v<Got, std::string_view> || std::is_same_v<Got, U8View>)
			MC_CHECK(got.empty() || static_cast<const void*>(got.data()) == static_cast<const void*>(data), "view", "%s: the returned view does not refer to the characters it was given", what);
	}

	// every conversion of the same bytes
	void conversions(const std::string& s)
	{
		const std::vector<unsigned char> all = bytes(s);
		const std::size_t untilNul = std::min(s.find('\0'), s.size());
		const std::vector<unsigned char> cstr = bytes(s, untilNul);
		// memory of the exact size (no terminator), so that any access past it is seen by the address sanitizer
		std::unique_ptr<char[]> exact(new char[s.size()]); std::memcpy(exact.get(), s.data(), s.size());
		std::unique_ptr<U8[]> exact8(new U8[s.size()]); std::memcpy(exact8.get(), s.data(), s.size());
		const std::string_view view(exact.get(), s.size());
		const U8View view8(exact8.get(), s.size());
		std::unique_ptr<char[]> terminated(new char[untilNul + 1]); std::memcpy(terminated.get(), s.c_str(), untilNul + 1);
		std::unique_ptr<U8[]> terminated8(new U8[untilNul + 1]); std::memcpy(terminated8.get(), s.c_str(), untilNul + 1);
		const U8String s8(exact8.get(), exact8.get() + s.size());

		{ auto r = Nz::ToUtf8String(s); static_assert(std::is_same_v<decltype(r), U8String>); same(r, all, "ToUtf8String(std::string)"); MC_CHECK(s.empty() || static_cast<const void*>(r.data()) != s.data(), "copy", "the string shares the memory of its source"); }
		{ auto r = Nz::ToUtf8String(std::string(s)); same(r, all, "ToUtf8String(std::string&&)"); }
		{ auto r = Nz::ToUtf8String(view); static_assert(std::is_same_v<decltype(r), U8View>); same(r, all, "ToUtf8String(std::string_view)"); refers(r, view.data(), "ToUtf8String(std::string_view)"); }
		{ auto r = Nz::ToUtf8String(static_cast<const char*>(terminated.get())); static_assert(std::is_same_v<decltype(r), std::conditional_t<Cpp20, U8View, U8String>>); same(r, cstr, "ToUtf8String(const char*)"); refers(r, terminated.get(), "ToUtf8String(const char*)"); }
		{ auto r = Nz::FromUtf8String(s8); static_assert(std::is_same_v<decltype(r), std::string>); same(r, all, "FromUtf8String(u8string)"); }
		{ auto r = Nz::FromUtf8String(U8String(s8)); same(r, all, "FromUtf8String(u8string&&)"); }
		{ auto r = Nz::FromUtf8String(view8); static_assert(std::is_same_v<decltype(r), std::string_view>); same(r, all, "FromUtf8String(u8string_view)"); refers(r, view8.data(), "FromUtf8String(u8string_view)"); }
		{ auto r = Nz::FromUtf8String(static_cast<const U8*>(terminated8.get())); static_assert(std::is_same_v<decltype(r), std::conditional_t<Cpp20, std::string_view, std::string>>); same(r, cstr, "FromUtf8String(const char8_t*)"); refers(r, terminated8.get(), "FromUtf8String(const char8_t*)"); }
		// round trips
		{ auto r = Nz::FromUtf8String(Nz::ToUtf8String(s)); MC_CHECK(r == s, "round-trip", "FromUtf8String(ToUtf8String(string))"); }
		{ auto r = Nz::FromUtf8String(Nz::ToUtf8String(view)); MC_CHECK(r == view, "round-trip", "FromUtf8String(ToUtf8String(string_view))"); refers(r, view.data(), "a round trip of views"); }
		{ auto r = Nz::ToUtf8String(Nz::FromUtf8String(s8)); MC_CHECK(r == s8, "round-trip", "ToUtf8String(FromUtf8String(u8string))"); }
		{ auto r = Nz::ToUtf8String(Nz::FromUtf8String(view8)); MC_CHECK(r == view8, "round-trip", "ToUtf8String(FromUtf8String(u8string_view))"); }
		MC_CHECK(bytes(s) == all && bytes(view) == all && bytes(s8) == all, "source", "a conversion changed its source");
		mc::outcome(std::hash<std::string>()(s));
	}

	std::string encode(const std::vector<char32_t>& points)
	{
		std::string s;
		for (char32_t c : points)
		{
			if (c < 0x80) s += char(c);
			else if (c < 0x800) { s += char(0xC0 | (c >> 6)); s += char(0x80 | (c & 0x3F)); }
			else if (c < 0x10000) { s += char(0xE0 | (c >> 12)); s += char(0x80 | ((c >> 6) & 0x3F)); s += char(0x80 | (c & 0x3F)); }
			else { s += char(0xF0 | (c >> 18)); s += char(0x80 | ((c >> 12) & 0x3F)); s += char(0x80 | ((c >> 6) & 0x3F)); s += char(0x80 | (c & 0x3F)); }
		}
		return s;
	}
	std::u16string encode16(const std::vector<char32_t>& points)
	{
		std::u16string s;
		for (char32_t c : points)
			if (c < 0x10000) s += char16_t(c); else { s += char16_t(0xD800 + ((c - 0x10000) >> 10)); s += char16_t(0xDC00 + ((c - 0x10000) & 0x3FF)); }
		return s;
	}
	// successive separators are equivalent to a single one
	std::string collapse(const std::string& s) { std::string r; for (char c : s) if (c != '/' || r.empty() || r.back() != '/') r += c; return r; }

	void paths(const std::vector<char32_t>& points)
	{
		const std::string s = encode(points);
		std::unique_ptr<char[]> exact(new char[s.size()]); std::memcpy(exact.get(), s.data(), s.size());
		const std::filesystem::path p = Nz::Utf8Path(std::string_view(exact.get(), s.size()));
		MC_CHECK(p.native() == s, "utf8-path", "Utf8Path of [%s] gives [%s]", hex(bytes(s)).c_str(), hex(bytes(p.native())).c_str());
		static_assert(std::is_same_v<decltype(Nz::PathToString(p)), std::string>);
		static_assert(std::is_same_v<decltype(Nz::Utf8Path("")), std::filesystem::path>);
		auto check = [&](const std::filesystem::path& path, const char* what)
		{
			const std::string got = Nz::PathToString(path);
			if (collapse(got) != collapse(s)) mc::fail("path-to-string", "PathToString of a path built from %s gives [%s], the characters are [%s]", what, hex(bytes(got)).c_str(), hex(bytes(s)).c_str());
			MC_CHECK(Nz::Utf8Path(got) == path, "path-round-trip", "Utf8Path(PathToString(path)) is another path (%s)", what);
			MC_CHECK(path.native() == s, "source", "PathToString changed its path");
			mc::outcome(std::hash<std::string>()(got));
		};
		check(p, "Utf8Path"); check(std::filesystem::path(s), "the bytes"); check(std::filesystem::path(std::u32string(points.begin(), points.end())), "UTF-32"); check(std::filesystem::path(encode16(points)), "UTF-16");
		// by components: parents, names and extensions are independent of the encoding
		std::string back;
		for (const auto& part : p) { const std::string text = Nz::PathToString(part); MC_CHECK(Nz::Utf8Path(text) == part, "path-component", "a component of the path is not preserved"); back += text; }
		MC_CHECK(Nz::Utf8Path(Nz::PathToString(p.filename())) == p.filename() && Nz::Utf8Path(Nz::PathToString(p.extension())) == p.extension() && Nz::Utf8Path(Nz::PathToString(p.parent_path())) == p.parent_path(), "path-component", "the filename, extension or parent path is not preserved");
	}
}
MC_SUITE(utf8_conversions)
{
	mc::pointName("string");
	static const char alphabet[] = { 0, 'a', '/', char(0x7F), char(0x80), char(0xC3), char(0xE2), char(0xFF) };
	mc::forAll([](mc::Exec& x)
	{
		std::string s;
		const unsigned n = x.choose(unsigned((MC_SAN ? mc::pick(5, 6) : mc::pick(6, 7))) + 1);
		for (unsigned i = 0; i < n; ++i) s += alphabet[x.choose(8)];
		conversions(s);
	});
}
// lengths around the sizes of the small strings, with every position of a special character
MC_SUITE(utf8_lengths)
{
	mc::forAll([](mc::Exec& x)
	{
		const unsigned n = x.choose(unsigned(mc::pick(40, 140))), at = x.choose(n + 1), kind = x.choose(3);
		std::string s;
		for (unsigned i = 0; i < n; ++i) s += char('a' + i % 26);
		if (at < n) s[at] = kind == 0 ? char(0) : kind == 1 ? char(0xE9) : '/'; else if (kind) return;
		conversions(s);
		if (at == n || kind == 2) paths(std::vector<char32_t>(s.begin(), s.end()));
	});
}
MC_SUITE(utf8_paths)
{
	static const char32_t alphabet[] = { 0, '/', '.', 'a', '\\', 0xE9, 0x20AC, 0x1F600 };
	mc::forAll([](mc::Exec& x)
	{
		std::vector<char32_t> s;
		const unsigned n = x.choose(unsigned((MC_SAN ? mc::pick(4, 5) : mc::pick(5, 6))) + 1);
		for (unsigned i = 0; i < n; ++i) s.push_back(alphabet[x.choose(8)]);
		paths(s);
	});
}
// every code point
MC_SUITE(utf8_codepoints)
{
	mc::forAll([](mc::Exec& x)
	{
		const unsigned high = x.choose(0x110);
		for (char32_t low = 0; low < 0x1000; low += mc::thorough() ? 1 : 0x3F)
		{
			const char32_t c = char32_t(high) * 0x1000 + low;
			if (c >= 0xD800 && c < 0xE000) continue;
			paths({ c }); paths({ 'd', '/', c, '.', c });
		}
	});
}
