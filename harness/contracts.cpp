// C32 calls out of contract are reported in builds with assertions, calls in contract never are
#include <NazaraUtils/Algorithm.hpp>
#include <NazaraUtils/Bitset.hpp>
#include <NazaraUtils/EnumArray.hpp>
#include <NazaraUtils/FixedVector.hpp>
#include <NazaraUtils/Flags.hpp>
#include <NazaraUtils/MathUtils.hpp>
#include <NazaraUtils/MemoryPool.hpp>
#include <NazaraUtils/PrivateImpl.hpp>
#include <NazaraUtils/Signal.hpp>
#include <NazaraUtils/SparsePtr.hpp>
#include <NazaraUtils/StackArray.hpp>
#include <NazaraUtils/StackVector.hpp>
#include "num_common.hpp"
#include "traps.hpp"
#include <map>
#include <optional>
#include <unordered_map>

enum class Weekday { Mon, Tue, Wed, Max = Wed };
enum class Bit3 { A, B, C };
template<> struct Nz::EnumAsFlags<Bit3> { static constexpr Bit3 max = Bit3::C; };

namespace
{
	// runs f: it must be reported exactly when it is out of contract
	template<typename F> void call(bool inContract, const char* what, F&& f)
	{
		bool reported = traps(f);
		if (inContract) MC_CHECK(!reported, "spurious", "%s: a call in contract is reported", what);
		else MC_CHECK(reported, "unreported", "%s: a call out of contract is not reported", what);
	}

#if MC_PART == 0
	// ---- vector-like containers: every size, every argument
	template<typename V, bool Bounded, typename Make> void vectors(const char* name, std::size_t capacity, Make&& make)
	{
		for (std::size_t n = 0; n <= capacity + (Bounded ? 0 : 2); ++n)
		{
			auto with = [&](bool ok, const char* what, auto&& f, std::size_t arg = 0)
			{
				mc::point(capacity, n, arg);
				make(n, [&](V& v) { char text[96]; std::snprintf(text, sizeof(text), "%s: %s", name, what); call(ok, text, [&] { f(v); }); });
			};
			const bool room = !Bounded || n < capacity;
			static const int one = 1;
			with(room, "push_back", [](V& v) { v.push_back(one); });
			with(room, "push_back (rvalue)", [](V& v) { v.push_back(1); });
			with(room, "emplace_back", [](V& v) { v.emplace_back(1); });
			with(n > 0, "pop_back", [](V& v) { v.pop_back(); });
			with(n > 0, "front", [](V& v) { (void)v.front(); });
			with(n > 0, "back", [](V& v) { (void)v.back(); });
			with(n > 0, "const front", [](V& v) { (void)std::as_const(v).front(); });
			with(n > 0, "const back", [](V& v) { (void)std::as_const(v).back(); });
			for (std::size_t i = 0; i <= capacity + 4; ++i)
			{
				with(i < n, "operator[]", [&](V& v) { (void)v[i]; }, i);
				with(i < n, "const operator[]", [&](V& v) { (void)std::as_const(v)[i]; }, i);
				with(!Bounded || i <= capacity, "resize", [&](V& v) { v.resize(i); }, i);
				with(!Bounded || i <= capacity, "resize with a value", [&](V& v) { v.resize(i, 3); }, i);
				if (i <= n)
				{
					with(room, "insert", [&](V& v) { v.insert(v.begin() + std::ptrdiff_t(i), one); }, i);
					with(room, "insert (rvalue)", [&](V& v) { v.insert(v.begin() + std::ptrdiff_t(i), 1); }, i);
					with(room, "emplace", [&](V& v) { v.emplace(v.begin() + std::ptrdiff_t(i), 1); }, i);
					for (std::size_t j = i; j <= n; ++j)
						if (j > i) with(true, "erase of a range", [&](V& v) { v.erase(v.begin() + std::ptrdiff_t(i), v.begin() + std::ptrdiff_t(j)); }, i);
				}
				if (i < n) with(true, "erase", [&](V& v) { v.erase(v.begin() + std::ptrdiff_t(i)); }, i);
			}
			// positions outside of the container
			if constexpr (Bounded)
			{
				with(false, "erase of the end", [&](V& v) { v.erase(v.end()); });
				with(false, "insertion after the end", [&](V& v) { if (n == capacity) v.pop_back(); v.insert(v.end() + 1, one); });
				with(false, "insertion before the beginning", [&](V& v) { if (n == capacity) v.pop_back(); v.insert(v.begin() - 1, one); });
				with(false, "erase of a range past the end", [&](V& v) { v.erase(v.begin(), v.end() + 1); });
				with(false, "erase of a range before the beginning", [&](V& v) { v.erase(v.begin() - 1, v.begin()); });
				if (n > 0) with(false, "erase of a reversed range", [&](V& v) { v.erase(v.end(), v.begin()); });
			}
		}
	}
	template<std::size_t C> void fixed()
	{
		auto make = [](std::size_t n, auto&& f) { std::optional<Nz::FixedVector<int, C>> v; v.emplace(); for (std::size_t i = 0; i < n; ++i) v->push_back(int(i)); f(*v); };
		vectors<Nz::FixedVector<int, C>, true>("FixedVector", C, make);
		for (std::size_t count = 0; count <= C + 2; ++count)
		{
			mc::point(C, 100, count);
			call(count <= C, "FixedVector: construction with a size", [&] { Nz::FixedVector<int, C> v(count); });
			call(count <= C, "FixedVector: construction with a size and a value", [&] { Nz::FixedVector<int, C> v(count, 7); });
			call(count <= C, "FixedVector: reserve", [&] { Nz::FixedVector<int, C> v; v.reserve(count); });
		}
	}
	template<std::size_t C> void hybrid()
	{
		auto make = [](std::size_t n, auto&& f) { Nz::HybridVector<int, C> v; for (std::size_t i = 0; i < n; ++i) v.push_back(int(i)); f(v); };
		// beyond the inline storage, the checks are those of the fallback container
		for (std::size_t n = 0; n <= C; ++n)
		{
			auto with = [&](bool ok, const char* what, auto&& f, std::size_t arg = 0) { mc::point(C, n, arg); make(n, [&](Nz::HybridVector<int, C>& v) { call(ok, what, [&] { f(v); }); }); };
			with(true, "HybridVector: push_back", [](auto& v) { v.push_back(1); });
			with(true, "HybridVector: emplace_back", [](auto& v) { v.emplace_back(1); });
			with(n > 0, "HybridVector: pop_back", [](auto& v) { v.pop_back(); });
			with(n > 0, "HybridVector: front", [](auto& v) { (void)v.front(); });
			with(n > 0, "HybridVector: back", [](auto& v) { (void)v.back(); });
			for (std::size_t i = 0; i <= C + 3; ++i)
			{
				with(i < n, "HybridVector: operator[]", [&](auto& v) { (void)v[i]; }, i);
				with(true, "HybridVector: resize", [&](auto& v) { v.resize(i); }, i);
				with(true, "HybridVector: reserve", [&](auto& v) { v.reserve(i); }, i);
				if (i <= n) with(true, "HybridVector: insert", [&](auto& v) { v.insert(v.begin() + std::ptrdiff_t(i), 1); }, i);
				if (i < n) with(true, "HybridVector: erase", [&](auto& v) { v.erase(v.begin() + std::ptrdiff_t(i)); }, i);
			}
		}
		for (std::size_t n = C + 1; n <= C + 2; ++n)
			for (std::size_t i = 0; i <= n + 2; ++i)
			{
				mc::point(C, n, i);
				make(n, [&](Nz::HybridVector<int, C>& v) { call(i < n, "HybridVector (fallback): operator[]", [&] { (void)v[i]; }); });
			}
	}
	void stackVectors()
	{
		for (std::size_t c = 1; c <= 4; ++c)
		{
			auto make = [c](std::size_t n, auto&& f)
			{
				alignas(int) unsigned char buffer[(8 + 4) * sizeof(int)];
				Nz::StackVector<int> v(reinterpret_cast<int*>(buffer) + 4, c);
				for (std::size_t i = 0; i < n; ++i) v.push_back(int(i));
				f(v);
			};
			vectors<Nz::StackVector<int>, true>("StackVector", c, make);
		}
	}
	void stackArrays()
	{
		for (std::size_t n = 0; n <= 5; ++n)
		{
			Nz::StackArray<int> a = NazaraStackArray(int, n);
			const auto& c = a;
			mc::point(n);
			if (n > 0) call(true, "StackArray: front", [&] { (void)a.front(); }); call(n > 0, "StackArray: back", [&] { (void)a.back(); });
			call(n > 0, "StackArray: const back", [&] { (void)c.back(); });
			for (std::size_t i = 0; i <= n + 3; ++i) { mc::point(n, i); call(i < n, "StackArray: operator[]", [&] { (void)a[i]; }); call(i < n, "StackArray: const operator[]", [&] { (void)c[i]; }); }
		}
	}
#elif MC_PART == 1
	template<typename B> void bitsets()
	{
		const std::size_t bits = sizeof(B) * 8, top = 2 * bits + 2;
		for (std::size_t n = 0; n <= top; ++n)
			for (std::size_t i = 0; i <= top + 2; ++i)
			{
				mc::point(bits, n, i);
				Nz::Bitset<B> b(n, false); const auto& c = b;
				const bool in = i < n;
				call(in, "Bitset::Test", [&] { (void)c.Test(i); });
				call(in, "Bitset::Set", [&] { b.Set(i, true); }); call(in, "Bitset::Set", [&] { b.Set(i, false); });
				call(in, "Bitset::Reset", [&] { b.Reset(i); });
				call(in, "Bitset::FindNext", [&] { (void)c.FindNext(i); });
				call(true, "Bitset::UnboundedTest", [&] { (void)c.UnboundedTest(i); });
				call(true, "Bitset::UnboundedReset", [&] { b.UnboundedReset(i); });
				if (in) call(true, "Bitset::operator[]", [&] { b[i] = true; (void)bool(c[i]); });
				const bool block = i < (n + bits - 1) / bits;
				call(block, "Bitset::GetBlock", [&] { (void)c.GetBlock(i); });
				call(block, "Bitset::SetBlock", [&] { b.SetBlock(i, B(~B(0))); });
				Nz::Bitset<B> u(n, false);
				call(true, "Bitset::UnboundedSet", [&] { u.UnboundedSet(i); });
				if (i == 0)
				{
					call(n <= 8, "Bitset::To<UInt8>", [&] { (void)c.template To<Nz::UInt8>(); }); call(n <= 16, "Bitset::To<UInt16>", [&] { (void)c.template To<Nz::UInt16>(); });
					call(n <= 32, "Bitset::To<UInt32>", [&] { (void)c.template To<Nz::UInt32>(); }); call(n <= 64, "Bitset::To<UInt64>", [&] { (void)c.template To<Nz::UInt64>(); });
				}
			}
		// every character at every position of short strings, through each constructor
		for (std::size_t length = 1; length <= bits / 8 + 2; ++length)
			for (std::size_t position = 0; position < length; ++position)
				for (unsigned c = 0; c < 256; ++c)
				{
					mc::point(bits, 2000 + length, position, c);
					char text[16] = {};
					for (std::size_t k = 0; k < length; ++k) text[k] = (k & 1) ? '1' : '0';
					text[position] = static_cast<char>(c);
					const bool in = c == '0' || c == '1';
					const std::string str(text, length);
					call(in, "Bitset from characters", [&] { Nz::Bitset<B> b(text, length); });
					call(in, "Bitset from a string view", [&] { Nz::Bitset<B> b(std::string_view(text, length)); });
					call(in, "Bitset from a string", [&] { Nz::Bitset<B> b(str); });
					call(in || c == 0, "Bitset from a literal", [&] { Nz::Bitset<B> b(static_cast<const char*>(text)); });
					call(in, "Bitset assigned from a string view", [&] { Nz::Bitset<B> b(3, true); b = std::string_view(text, length); });
				}
		const Nz::UInt8 data[8] = { 0xA5, 0x5A, 0xFF, 0, 1, 2, 3, 4 };
		for (unsigned offset = 0; offset <= 10; ++offset)
			for (std::size_t count = 0; count <= 24; ++count)
			{
				mc::point(bits, 1000, offset, count);
				Nz::Bitset<B> b;
				call(offset < 8, "Bitset::Write", [&] { b.Write(typename Nz::Bitset<B>::PointerSequence(data, Nz::UInt8(offset)), count); });
				call(false, "Bitset::Write of no memory", [&] { b.Write(typename Nz::Bitset<B>::PointerSequence(nullptr, Nz::UInt8(offset)), count); });
			}
	}
	void functions()
	{
		forIntegers([](auto tag)
		{
			using T = decltype(tag);
			constexpr int bits = int(sizeof(T) * 8);
			for (T value : fewValues<T>(0))
				for (int i = -3; i <= 70; ++i)
				{
					if (!std::is_signed_v<T> && i < 0) continue;
					T bit = T(i);
					mc::point(sizeof(T), std::is_signed_v<T>, mc::u64(value), mc::u64(mc::i64(i)));
					const bool in = i >= 0 && i < bits;
					call(in, "ClearBit", [&] { (void)Nz::ClearBit<T>(value, bit); }); call(in, "TestBit", [&] { (void)Nz::TestBit<T>(value, bit); });
					call(in, "SetBit", [&] { (void)Nz::SetBit<T>(value, bit); }); call(in, "ToggleBit", [&] { (void)Nz::ToggleBit<T>(value, bit); });
				}
			for (T value : fewValues<T>(1))
			{
				mc::point(sizeof(T), std::is_signed_v<T>, 500, mc::u64(value));
				call(value != 0, "IsPow2", [&] { if (value != std::numeric_limits<T>::min() || value == 0) (void)Nz::IsPow2(value); });
				call(value > 0, "Align", [&] { (void)Nz::Align<T>(T(0), value); });
				const bool pow2 = value > 0 && (mc::u64(value) & (mc::u64(value) - 1)) == 0;
				call(pow2, "AlignPow2", [&] { (void)Nz::AlignPow2<T>(T(0), value); });
			}
		});
	}
#elif MC_PART == 2
	void maps()
	{
		for (unsigned mask = 0; mask < 16; ++mask)
		{
			std::map<int, int> m; std::unordered_map<int, int> u;
			for (int i = 0; i < 4; ++i) if (mask >> i & 1) m[i] = u[i] = i;
			for (int k = -1; k <= 4; ++k)
			{
				mc::point(mask, mc::u64(mc::i64(k)));
				const bool in = k >= 0 && (mask >> k & 1);
				call(in, "Retrieve", [&] { (void)Nz::Retrieve(m, k); }); call(in, "Retrieve", [&] { (void)Nz::Retrieve(std::as_const(m), k); });
				call(in, "Retrieve", [&] { (void)Nz::Retrieve(u, k); }); call(in, "Retrieve", [&] { (void)Nz::Retrieve(std::as_const(u), k); });
			}
		}
	}
	void enumIterators()
	{
		using A = Nz::EnumArray<Weekday, int>;
		A a {}, b {}; A* arrays[] = { &a, &b };
		for (unsigned i = 0; i < 2; ++i) for (unsigned j = 0; j < 2; ++j)
			for (int p = 0; p <= 3; ++p) for (int q = 0; q <= 3; ++q)
			{
				mc::point(i, j, mc::u64(p), mc::u64(q));
				auto check = [&](auto x, auto y)
				{
					x += p; y += q;
					const bool same = i == j;
					call(same, "EnumArray iterators ==", [&] { (void)(x == y); }); call(same, "EnumArray iterators !=", [&] { (void)(x != y); }); call(same, "EnumArray iterators <", [&] { (void)(x < y); });
					call(same, "EnumArray iterators <=", [&] { (void)(x <= y); }); call(same, "EnumArray iterators >", [&] { (void)(x > y); }); call(same, "EnumArray iterators >=", [&] { (void)(x >= y); });
					call(same, "EnumArray iterators -", [&] { (void)(x - y); });
				};
				check(arrays[i]->iter_kv().begin(), arrays[j]->iter_kv().begin());
				const A& ca = *arrays[i]; const A& cb = *arrays[j];
				check(ca.iter_kv().begin(), cb.iter_kv().begin());
			}
	}
	void flagIterators()
	{
		for (unsigned mask = 0; mask < 8; ++mask)
		{
			Nz::Flags<Bit3> f;
			for (unsigned i = 0; i < 3; ++i) if (mask >> i & 1) f |= static_cast<Bit3>(i);
			auto it = f.begin();
			for (unsigned left = unsigned(__builtin_popcount(mask)) + 1; left-- > 0;)
			{
				mc::point(mask, left);
				call(left > 0, "Flags iterator *", [&] { (void)*it; });
				auto copy = it;
				call(left > 0, "Flags iterator ++", [&] { ++copy; });
				if (left > 0) ++it;
			}
		}
	}
	// every pool of at most 2 blocks of 2 or 3 entries with every pattern of free entries
	void pools()
	{
		for (std::size_t blockSize = 1; blockSize <= 3; ++blockSize)
			for (std::size_t count = 0; count <= 2 * blockSize; ++count)
				for (unsigned freed = 0; freed < (1u << count); ++freed)
				{
					Nz::MemoryPool<int> pool(blockSize), other(blockSize); const auto& c = pool;
					std::vector<int*> entries;
					for (std::size_t i = 0; i < count; ++i) { std::size_t index; entries.push_back(pool.Allocate(index, int(i))); MC_CHECK(index == i, "setup", "entry index"); }
					for (std::size_t i = 0; i < count; ++i) if (freed >> i & 1) pool.Free(i);
					for (std::size_t i = 0; i <= 2 * blockSize + 2; ++i)
					{
						mc::point(blockSize, count, freed, i);
						const bool live = i < count && !(freed >> i & 1);
						call(live, "MemoryPool::RetrieveFromIndex", [&] { (void)pool.RetrieveFromIndex(i); });
						call(live, "MemoryPool::RetrieveFromIndex", [&] { (void)c.RetrieveFromIndex(i); });
						if (!live) call(false, "MemoryPool::Free of a free entry", [&] { pool.Free(i); });
						bool empty = true;
						for (std::size_t e = 0; e < count; ++e) if (e / blockSize == i / blockSize && !(freed >> e & 1)) empty = false;
						if (empty && i / blockSize < pool.GetBlockCount()) call(false, "MemoryPool::Free of an already destroyed entry in an empty block", [&] { pool.Free(i, Nz::MemoryPool<int>::NoDestruction); });
					}
					mc::point(blockSize, count, freed, 100);
					call(false, "MemoryPool: dereferenced end", [&] { (void)*pool.end(); }); call(false, "MemoryPool: incremented end", [&] { auto it = pool.end(); ++it; });
					call(false, "MemoryPool: index of the end", [&] { (void)pool.end().GetIndex(); });
					call(false, "MemoryPool: iterators of different pools", [&] { (void)(pool.begin() == other.begin()); }); call(true, "MemoryPool: iterators of the same pool", [&] { (void)(pool.begin() == pool.end()); });
					// an entry that is freed through its iterator is not an entry anymore
					for (std::size_t i = 0; i < count; ++i)
						if (!(freed >> i & 1)) { auto it = pool.begin(); while (it.GetIndex() != i) ++it; call(true, "MemoryPool: iterator", [&] { (void)*it; }); pool.Free(i); call(false, "MemoryPool: iterator of a freed entry", [&] { (void)*it; }); break; }
				}
	}
	struct Pimpl { int v; };
	void others()
	{
		mc::point(0);
		Nz::PrivateImpl<Pimpl> p(nullptr);
		call(true, "PrivateImpl::Emplace", [&] { p.Emplace(Pimpl { 1 }); });
		mc::point(1);
		call(false, "PrivateImpl::Emplace of an existing object", [&] { p.Emplace(Pimpl { 2 }); });
		mc::point(2);
		Nz::Signal<> s;
		call(false, "Signal::Connect of an empty function", [&] { (void)s.Connect(std::function<void()>()); });
		call(true, "Signal::Connect", [&] { (void)s.Connect([] {}); });
		int x = 0;
		for (std::size_t stride : { std::size_t(0), std::size_t(4), std::size_t(2147483646), std::size_t(2147483647), std::size_t(2147483648), std::size_t(4294967295), std::size_t(4294967296), std::size_t(4294967300), ~std::size_t(0) })
		{
			mc::point(3, stride);
			call(stride <= 2147483647, "SparsePtr stride", [&] { Nz::SparsePtr<int> p(&x, stride); });
			call(stride <= 2147483647, "SparsePtr stride", [&] { Nz::SparsePtr<const int> p(&x, stride); });
		}
	}
#endif
}

#if MC_PART == 0
MC_SUITE(contract_fixed) { Catching c; mc::pointName("capacity, size, argument"); fixed<1>(); fixed<2>(); fixed<3>(); fixed<4>(); }
MC_SUITE(contract_hybrid) { Catching c; mc::pointName("capacity, size, argument"); hybrid<1>(); hybrid<2>(); hybrid<3>(); hybrid<4>(); }
MC_SUITE(contract_stackvector) { Catching c; mc::pointName("capacity, size, argument"); stackVectors(); }
MC_SUITE(contract_stackarray) { Catching c; mc::pointName("size, index"); stackArrays(); }
#elif MC_PART == 1
MC_SUITE(contract_bitset8) { Catching c; mc::pointName("block bits, size, index"); bitsets<Nz::UInt8>(); }
MC_SUITE(contract_bitset32) { Catching c; mc::pointName("block bits, size, index"); bitsets<Nz::UInt32>(); }
MC_SUITE(contract_bitset64) { Catching c; mc::pointName("block bits, size, index"); bitsets<Nz::UInt64>(); }
MC_SUITE(contract_functions) { Catching c; mc::pointName("size, signed, value, argument"); functions(); }
#else
MC_SUITE(contract_retrieve) { Catching c; mc::pointName("keys, key"); maps(); }
MC_SUITE(contract_enumarray) { Catching c; mc::pointName("array, array, position, position"); enumIterators(); }
MC_SUITE(contract_flags) { Catching c; mc::pointName("flags, left"); flagIterators(); }
MC_SUITE(contract_memorypool) { Catching c; mc::pointName("block size, entries, freed, index"); pools(); }
MC_SUITE(contract_others) { Catching c; mc::pointName("case, value"); others(); }
#endif
