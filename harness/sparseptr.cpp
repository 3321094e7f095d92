// C24 strided pointers
#include <NazaraUtils/SparsePtr.hpp>
#include "num_common.hpp"
#include <algorithm>
#include <array>
#include <iterator>
#include <numeric>
#include <sys/mman.h>
#include <unordered_set>

namespace
{
	struct Byte3 { unsigned char v[3]; bool operator<(const Byte3& o) const { return v[0] < o.v[0]; } };
	template<typename T> mc::u64 addr(const T* p) { return mc::u64(reinterpret_cast<std::uintptr_t>(p)); }

	// a range of addresses (no memory behind): every access to an element only computes its address
	struct Range
	{
		unsigned char* base; std::size_t size;
		Range(std::size_t s) : size(s)
		{
			void* p = ::mmap(nullptr, s, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			if (p == MAP_FAILED) { std::fprintf(stderr, "no address space\n"); std::_Exit(3); }
			base = static_cast<unsigned char*>(p);
		}
		~Range() { ::munmap(base, size); }
	};

	template<typename T> struct Same { static bool at(const Nz::SparsePtr<T>& p, mc::u64 a, int stride) { return addr(p.GetPtr()) == a && p.GetStride() == stride; } };

	template<typename T, typename I> void withIndex(T* start, int stride, i128 index, mc::u64 lo, mc::u64 hi)
	{
		if (!fits<I>(index)) return;
		i128 want = i128(addr(start)) + index * stride;
		if (want < i128(lo) || want > i128(hi)) return;
		mc::point(mc::u64(stride), mc::u64(index), sizeof(I), std::is_signed_v<I>);
		I i = I(index);
		mc::u64 w = mc::u64(want);
		using P = Nz::SparsePtr<T>;
		const P p(start, stride);
		MC_CHECK(addr(&p[i]) == w, "subscript", "stride %d: element %s is at start%+lld", stride, str(index).c_str(), (long long)(addr(&p[i]) - addr(start)));
		P sum = p + i;
		MC_CHECK(Same<T>::at(sum, w, stride), "plus", "stride %d: + %s gives start%+lld", stride, str(index).c_str(), (long long)(addr(sum.GetPtr()) - addr(start)));
		P a(p);
		P* self = &(a += i);
		MC_CHECK(self == &a && Same<T>::at(a, w, stride), "plus-assign", "stride %d: += %s", stride, str(index).c_str());
		P back = sum - i;
		MC_CHECK(Same<T>::at(back, addr(start), stride), "minus", "stride %d: - %s", stride, str(index).c_str());
		self = &(a -= i);
		MC_CHECK(self == &a && Same<T>::at(a, addr(start), stride), "minus-assign", "stride %d: -= %s", stride, str(index).c_str());
		if (stride != 0)
		{
			MC_CHECK(i128(sum - p) == index, "difference", "stride %d: (p + %s) - p is %lld", stride, str(index).c_str(), (long long)(sum - p));
			MC_CHECK(i128(p - sum) == -index, "difference", "stride %d: p - (p + %s) is %lld", stride, str(index).c_str(), (long long)(p - sum));
		}
		MC_CHECK((sum == p) == (w == addr(start)) && (sum != p) == (w != addr(start)), "equality", "stride %d index %s", stride, str(index).c_str());
		MC_CHECK((sum < p) == (w < addr(start)) && (sum > p) == (w > addr(start)) && (sum <= p) == (w <= addr(start)) && (sum >= p) == (w >= addr(start)), "order", "stride %d index %s", stride, str(index).c_str());
		MC_CHECK(static_cast<T*>(sum) == reinterpret_cast<T*>(w) && sum.operator->() == reinterpret_cast<T*>(w) && &*sum == reinterpret_cast<T*>(w), "access", "stride %d index %s", stride, str(index).c_str());
		MC_CHECK(bool(sum), "bool", "a non-null pointer is false");
	}
	template<typename T> void allIndexes(T* start, int stride, i128 index, mc::u64 lo, mc::u64 hi)
	{
		forIntegers([&](auto t) { withIndex<T, decltype(t)>(start, stride, index, lo, hi); });
		withIndex<T, char>(start, stride, index, lo, hi);
		withIndex<T, long long>(start, stride, index, lo, hi);
		withIndex<T, unsigned long long>(start, stride, index, lo, hi);
		if (index == 0 || index == 1) withIndex<T, bool>(start, stride, index, lo, hi);
	}
	template<typename T> void small()
	{
		mc::pointName("stride, index, sizeof(index), signed");
		Range range(1 << 16);
		int reach = MC_SAN ? mc::pick(40, 200) : mc::pick(200, 600);
		for (int stride = -80; stride <= 80; ++stride)
		{
			if (stride % int(alignof(T)) != 0) continue;
			T* mid = reinterpret_cast<T*>(range.base + (1 << 15));
			for (int i = -reach; i <= reach; ++i)
				allIndexes<T>(mid, stride, i, addr(range.base), addr(range.base) + range.size - 64);
		}
	}
	template<typename T> void large()
	{
		mc::pointName("stride, index, sizeof(index), signed");
		Range range(std::size_t(1) << 40);
		T* mid = reinterpret_cast<T*>(range.base + (std::size_t(1) << 39));
		std::vector<int> strides;
		for (int s : fewValues<int>(MC_SAN ? 0 : 1)) if (s % int(alignof(T)) == 0) strides.push_back(s);
		std::set<i128> indexes;
		for (auto v : fewValues<Nz::Int64>(MC_SAN ? 0 : 1)) indexes.insert(v);
		for (auto v : fewValues<Nz::UInt32>(1)) { indexes.insert(v); indexes.insert(-i128(v)); }
		for (int stride : strides)
			for (i128 i : indexes)
				allIndexes<T>(mid, stride, i, addr(range.base), addr(range.base) + range.size - 64);
	}

	// histories of operations on one strided pointer
	struct Sys
	{
		static Range& range() { static Range r(4096); return r; }
		static unsigned char* at(int off) { return range().base + 2048 + off; }
		Nz::SparsePtr<Byte3> p; long off = 0; bool null = true; int stride = 0;
		Sys() { check(); }
		unsigned ops() const { return 16; }
		void check()
		{
			MC_CHECK(bool(p) == !null, "bool", "bool is %d", int(bool(p)));
			MC_CHECK(p.GetPtr() == (null ? nullptr : static_cast<void*>(at(int(off)))), "address", "history: pointer at %p instead of offset %ld", p.GetPtr(), off);
			MC_CHECK(p.GetStride() == stride, "stride", "history: stride %d instead of %d", p.GetStride(), stride);
			MC_CHECK(static_cast<Byte3*>(p) == p.GetPtr(), "access", "conversion to a pointer");
		}
		void apply(unsigned op)
		{
			if (null && op < 6) return;
			using P = Nz::SparsePtr<Byte3>;
			long before = off;
			switch (op)
			{
				case 0: { P* r = &++p; off += stride; MC_CHECK(r == &p, "increment", "++p returns something else"); break; }
				case 1: { P old = p++; off += stride; MC_CHECK(addr(old.GetPtr()) == addr(at(int(before))) && old.GetStride() == stride, "increment", "p++ does not return the previous position"); break; }
				case 2: { P* r = &--p; off -= stride; MC_CHECK(r == &p, "decrement", "--p returns something else"); break; }
				case 3: { P old = p--; off -= stride; MC_CHECK(addr(old.GetPtr()) == addr(at(int(before))) && old.GetStride() == stride, "decrement", "p-- does not return the previous position"); break; }
				case 4: p += 2u; off += 2 * stride; break;
				case 5: p -= std::size_t(3); off -= 3 * stride; break;
				case 6: p.SetStride(-4); stride = -4; break;
				case 7: p.SetStride(7); stride = 7; break;
				case 8: p.SetPtr(at(5)); off = 5; null = false; break;
				case 9: p.Reset(); null = true; off = 0; stride = 0; break;
				case 10: p.Reset(reinterpret_cast<Byte3*>(at(9))); null = false; off = 9; stride = int(sizeof(Byte3)); break;
				case 11: p.Reset(at(1), 12); null = false; off = 1; stride = 12; break;
				case 12: { P other(at(3), std::size_t(6)); p.Reset(other); null = false; off = 3; stride = 6; MC_CHECK(other.GetStride() == 6, "reset", "Reset changes its argument"); break; }
				case 13: { P other(at(4), -2); p = other; null = false; off = 4; stride = -2; break; }
				case 14: { P copy(p); p.Reset(); p = copy; break; }
				case 15: { P copy = p; p = P(reinterpret_cast<Byte3*>(at(0))); p = copy; P& self = p; p = self; break; }
			}
			if (std::labs(off) > 1500) { off = 0; null = false; p.SetPtr(at(0)); }
			check();
		}
		std::string key() const { return std::to_string(off) + "," + std::to_string(stride) + (null ? "n" : ""); }
		void finish() {}
	};

	struct First { int a = 1; }; struct Second { int b = 2; }; struct Both : First, Second { int c = 3; };
	void conversions()
	{
		mc::pointName("position");
		std::array<Both, 5> items;
		for (int i = 0; i < 5; ++i) { items[std::size_t(i)].a = i; items[std::size_t(i)].b = 10 + i; items[std::size_t(i)].c = 20 + i; }
		for (unsigned i = 0; i < 5; ++i)
			for (unsigned j = 0; j < 5; ++j)
			{
				mc::point(i, j);
				Nz::SparsePtr<Both> p(&items[i]);
				Nz::SparsePtr<First> f(p);
				Nz::SparsePtr<Second> s(p);
				Nz::SparsePtr<const Second> cs(p), cs2(s), cs3;
				cs3.Reset(p);
				Nz::SparsePtr<const Both> cb = p;
				MC_CHECK(f.GetStride() == int(sizeof(Both)) && s.GetStride() == int(sizeof(Both)) && cb.GetStride() == int(sizeof(Both)), "convert", "a conversion changes the stride");
				int d = int(j) - int(i);
				MC_CHECK(f[d].a == int(j), "convert", "element %d of the first base is %d", j, f[d].a);
				MC_CHECK(s[d].b == int(10 + j), "convert", "element %d of the second base is %d", j, s[d].b);
				MC_CHECK(cs[d].b == int(10 + j) && cs2[d].b == int(10 + j) && cs3[d].b == int(10 + j), "convert", "element %d of the const second base is %d", j, cs[d].b);
				MC_CHECK(cb[d].c == int(20 + j) && (cb + d)->a == int(j) && (*(s + d)).b == int(10 + j), "convert", "element %d", j);
				Nz::SparsePtr<int> field(&items[i].c, sizeof(Both));
				MC_CHECK(field[d] == int(20 + j), "field", "element %d of a field is %d", j, field[d]);
				Nz::SparsePtr guide(&items[i]), guide2(&items[i], int(sizeof(Both))), guide3(&items[i], sizeof(Both));
				static_assert(std::is_same_v<decltype(guide), Nz::SparsePtr<Both>> && std::is_same_v<decltype(guide2), Nz::SparsePtr<Both>> && std::is_same_v<decltype(guide3), Nz::SparsePtr<Both>>);
				MC_CHECK(guide[d].c == int(20 + j) && guide2[d].c == int(20 + j) && guide3[d].c == int(20 + j), "guide", "element %d", j);
			}
		Nz::SparsePtr<Both> null; Nz::SparsePtr<Second> second(null);
		MC_CHECK(!second && second.GetPtr() == nullptr, "convert", "a null pointer converted to a base class is not null");
	}
	// as an iterator over a field of every element of an array, standard algorithms only touch that field
	template<int Stride> void algorithms()
	{
		mc::forAll([](mc::Exec& x)
		{
			struct Item { int before; int value; int after[Stride]; };
			unsigned n = unsigned(x.choose(7));
			bool down = x.flip();
			std::array<Item, 6> items;
			std::vector<int> want;
			for (unsigned i = 0; i < 6; ++i) { items[i].before = -1; for (int& a : items[i].after) a = -2; items[i].value = 99; }
			for (unsigned i = 0; i < n; ++i) { items[i].value = int(x.choose(n < 5 ? 3 : 2)); want.push_back(items[i].value); }
			if (down) std::reverse(want.begin(), want.end());
			Nz::SparsePtr<int> begin = down ? Nz::SparsePtr<int>(&items[n ? n - 1 : 0].value, -int(sizeof(Item))) : Nz::SparsePtr<int>(&items[0].value, sizeof(Item));
			Nz::SparsePtr<int> end = begin + n;
			MC_CHECK(std::distance(begin, end) == std::ptrdiff_t(n), "distance", "std::distance is %lld instead of %u", (long long)std::distance(begin, end), n);
			MC_CHECK(std::accumulate(begin, end, 0) == std::accumulate(want.begin(), want.end(), 0), "iterate", "sum");
			MC_CHECK(std::equal(begin, end, want.begin(), want.end()), "iterate", "content");
			unsigned algo = unsigned(x.choose(4));
			switch (algo)
			{
				case 0: if (down) break; /* ordering is the one of the addresses */ std::reverse(begin, end); std::reverse(want.begin(), want.end()); break;
				case 1: if (!down) { std::sort(begin, end); std::sort(want.begin(), want.end()); } else { for (unsigned i = 0; i + 1 < n; ++i) std::swap(begin[i], begin[i + 1]); for (unsigned i = 0; i + 1 < n; ++i) std::swap(want[i], want[i + 1]); } break;
				case 2: if (n && !down) { std::rotate(begin, begin + n / 2, end); std::rotate(want.begin(), want.begin() + n / 2, want.end()); } break;
				case 3: { std::vector<int> copy; for (auto it = begin; it != end; ++it) copy.push_back(*it); std::fill(begin, end, 5); MC_CHECK(copy == want, "iterate", "copy"); std::fill(want.begin(), want.end(), 5); break; }
			}
			for (unsigned i = 0; i < n; ++i) MC_CHECK(begin[i] == want[i], "algorithm", "algorithm %u: element %u is %d instead of %d", algo, i, begin[i], want[i]);
			for (unsigned i = 0; i < 6; ++i)
			{
				MC_CHECK(items[i].before == -1 && (i < n || items[i].value == 99), "overrun", "something else than the elements was modified");
				for (int a : items[i].after) MC_CHECK(a == -2, "overrun", "something else than the elements was modified");
			}
		});
	}
}

MC_SUITE(sp_small_bytes) { small<unsigned char>(); }
MC_SUITE(sp_small_byte3) { small<Byte3>(); }
MC_SUITE(sp_small_const_int) { small<const int>(); }
MC_SUITE(sp_small_double) { small<double>(); }
MC_SUITE(sp_large_bytes) { large<unsigned char>(); }
MC_SUITE(sp_large_int) { large<int>(); }
MC_SUITE(sp_history) { mc::bfs<Sys>(mc::pick(8, 14)); }
MC_SUITE(sp_conversions) { conversions(); }
MC_SUITE(sp_algorithms1) { algorithms<1>(); }
MC_SUITE(sp_algorithms9) { algorithms<9>(); }
MC_SUITE(sp_traits)
{
	using Tr = std::iterator_traits<Nz::SparsePtr<int>>;
	using CTr = std::iterator_traits<Nz::SparsePtr<const int>>;
	MC_CHECK((std::is_same_v<Tr::reference, decltype(*std::declval<Nz::SparsePtr<int>>())> && std::is_same_v<Tr::pointer, decltype(std::declval<Nz::SparsePtr<int>>().operator->())>), "traits", "the iterator reference is not what dereferencing gives");
	MC_CHECK((std::is_same_v<CTr::reference, decltype(*std::declval<Nz::SparsePtr<const int>>())> && std::is_same_v<CTr::pointer, const int*>), "traits", "the iterator reference is not what dereferencing gives (const)");
	MC_CHECK((std::is_same_v<Tr::difference_type, std::ptrdiff_t> && std::is_same_v<Tr::value_type, int> && std::is_same_v<std::remove_cv_t<CTr::value_type>, int>), "traits", "value and difference types");
	MC_CHECK((std::is_base_of_v<std::random_access_iterator_tag, Tr::iterator_category>), "traits", "category");
}
// elements of every size, up to more than 16 bits can count
namespace
{
	template<std::size_t N> struct Wide { unsigned char bytes[N]; };
	template<std::size_t N> void wideElement(Range& range)
	{
		using T = Wide<N>; using P = Nz::SparsePtr<T>; using C = Nz::SparsePtr<const T>;
		T* start = reinterpret_cast<T*>(range.base + range.size / 2);
		P p(start), r, q(start, sizeof(T)); r.Reset(start); C c(p), d(static_cast<const T*>(start)); C e; e.Reset(p);
		MC_CHECK(p.GetStride() == int(N) && r.GetStride() == int(N) && q.GetStride() == int(N) && c.GetStride() == int(N) && d.GetStride() == int(N) && e.GetStride() == int(N), "stride", "stride %d for elements of %zu bytes", p.GetStride(), N);
		for (int i = -9; i <= 9; ++i)
		{
			mc::point(N, i);
			const mc::u64 want = addr(start) + mc::u64(mc::i64(i) * mc::i64(N));
			MC_CHECK(addr(&p[i]) == want && addr(&c[i]) == want && addr(&r[i]) == want && addr((d + i).GetPtr()) == want && addr((q - (-i)).GetPtr()) == want && addr((e + i).operator->()) == want, "access", "element %d of %zu bytes", i, N);
			P moved = p; moved += i; MC_CHECK(addr(moved.GetPtr()) == want && moved - p == i && p - moved == -i, "difference", "element %d of %zu bytes", i, N);
			P stepped = p; for (int k = 0; k < i; ++k) ++stepped; for (int k = 0; k > i; --k) --stepped;
			MC_CHECK(stepped == moved && addr(&*stepped) == want && (stepped > p) == (i > 0) && (stepped < p) == (i < 0), "increment", "element %d of %zu bytes", i, N);
		}
	}
	template<std::size_t... Sizes> void wideElements(std::index_sequence<Sizes...>) { Range range(std::size_t(1) << 26); (wideElement<Sizes>(range), ...); }
}
MC_SUITE(sp_wide_elements)
{
	mc::pointName("size, index");
	wideElements(std::index_sequence<1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 258, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 131072, 1000003>{});
}
