// Where the objects of the library live.
// parts 0, 2, 3: alignment and disjointness of every object a container constructs (C35)
// part 1: allocations of the types which promise not to allocate (C36)
#define MC_NO_HEAP
#include <NazaraUtils/Bitset.hpp>
#include <NazaraUtils/CallOnExit.hpp>
#include <NazaraUtils/EnumArray.hpp>
#include <NazaraUtils/FixedVector.hpp>
#include <NazaraUtils/Flags.hpp>
#include <NazaraUtils/FunctionRef.hpp>
#include <NazaraUtils/Hash.hpp>
#include <NazaraUtils/MathUtils.hpp>
#include <NazaraUtils/MemoryPool.hpp>
#include <NazaraUtils/MovablePtr.hpp>
#include <NazaraUtils/MovableValue.hpp>
#include <NazaraUtils/PrivateImpl.hpp>
#include <NazaraUtils/Result.hpp>
#include <NazaraUtils/Signal.hpp>
#include <NazaraUtils/SparsePtr.hpp>
#include <NazaraUtils/StackArray.hpp>
#include <NazaraUtils/StackVector.hpp>
#include <NazaraUtils/StringUtils.hpp>
#include "mc.hpp"
#include <array>
#include <list>
#include <map>
#include <memory>

// The heap of this harness gives exactly the alignment it is asked for, never a larger one by luck
namespace heap
{
	bool counting = false;
	unsigned long allocations = 0;
	void* get(std::size_t n, std::size_t align)
	{
		if (counting) allocations++;
		constexpr std::size_t Far = 512;
		char* base = static_cast<char*>(std::malloc(n + 2 * Far + align + sizeof(void*)));
		if (!base) std::abort();
		char* p = base + sizeof(void*) + Far;
		p -= reinterpret_cast<std::uintptr_t>(p) % Far;
		p += align;          // aligned on align, and not on twice that
		std::memcpy(p - sizeof(void*), &base, sizeof(void*));
		return p;
	}
	void put(void* p) noexcept
	{
		if (!p) return;
		char* base;
		std::memcpy(&base, static_cast<char*>(p) - sizeof(void*), sizeof(void*));
		std::free(base);
	}
}
void* operator new(std::size_t n) { return heap::get(n, 16); }
void* operator new[](std::size_t n) { return heap::get(n, 16); }
void* operator new(std::size_t n, std::align_val_t a) { return heap::get(n, std::max<std::size_t>(16, std::size_t(a))); }
void* operator new[](std::size_t n, std::align_val_t a) { return heap::get(n, std::max<std::size_t>(16, std::size_t(a))); }
void operator delete(void* p) noexcept { heap::put(p); }
void operator delete[](void* p) noexcept { heap::put(p); }
void operator delete(void* p, std::size_t) noexcept { heap::put(p); }
void operator delete[](void* p, std::size_t) noexcept { heap::put(p); }
void operator delete(void* p, std::align_val_t) noexcept { heap::put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { heap::put(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { heap::put(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { heap::put(p); }

#if MC_PART == 0 || MC_PART == 2 || MC_PART == 3
namespace
{
	// every live object, in a table of fixed size
	struct Live { std::uintptr_t at; std::size_t size; } g_live[64];
	std::size_t g_count = 0;
	void born(const void* p, std::size_t size, std::size_t align)
	{
		const auto at = reinterpret_cast<std::uintptr_t>(p);
		if (at % align) mc::fail("alignment", "an object of %zu bytes aligned on %zu was constructed %zu bytes past such an address", size, align, std::size_t(at % align));
		for (std::size_t i = 0; i < g_count; ++i)
			if (at < g_live[i].at + g_live[i].size && g_live[i].at < at + size) mc::fail("overlap", "an object of %zu bytes was constructed over a live one", size);
		if (g_count == 64) mc::fail("leak", "too many live objects");
		g_live[g_count++] = { at, size };
	}
	void died(const void* p)
	{
		const auto at = reinterpret_cast<std::uintptr_t>(p);
		for (std::size_t i = 0; i < g_count; ++i) if (g_live[i].at == at) { g_live[i] = g_live[--g_count]; return; }
		mc::fail("lifetime", "destruction of an object which does not exist");
	}
	template<std::size_t Payload, std::size_t Alignment> struct alignas(Alignment) Obj
	{
		unsigned char bytes[Payload];
		explicit Obj(int v = 0) { born(this, sizeof(Obj), Alignment); fill(v); }
		Obj(const Obj& o) { born(this, sizeof(Obj), Alignment); std::memcpy(bytes, o.bytes, Payload); }
		Obj(Obj&& o) noexcept { born(this, sizeof(Obj), Alignment); std::memcpy(bytes, o.bytes, Payload); }
		Obj& operator=(const Obj& o) { std::memmove(bytes, o.bytes, Payload); return *this; }
		Obj& operator=(Obj&& o) noexcept { std::memmove(bytes, o.bytes, Payload); return *this; }
		~Obj() { died(this); }
		void fill(int v) { for (std::size_t i = 0; i < Payload; ++i) bytes[i] = (unsigned char)(v * 7 + i); }
		bool is(int v) const { for (std::size_t i = 0; i < Payload; ++i) if (bytes[i] != (unsigned char)(v * 7 + i)) return false; return true; }
	};

	template<typename T> struct TypeIs { using type = T; };

	// a container at an address which is aligned for it, and for nothing more
	template<typename C> struct Place
	{
		alignas(512) unsigned char raw[512 + sizeof(C) + alignof(C)];
		C* object = nullptr;
		template<typename... Args> C& make(Args&&... args) { std::memset(raw, 0xA5, sizeof(raw)); object = ::new (raw + alignof(C)) C(std::forward<Args>(args)...); return *object; }
		template<typename T> bool holds(const T* p) const { auto b = reinterpret_cast<const unsigned char*>(p); return b >= raw + alignof(C) && b + sizeof(T) <= raw + alignof(C) + sizeof(C); }
		void drop() { if (object) { object->~C(); object = nullptr; } }
		~Place() { drop(); }
	};

	template<typename V, typename T, bool Inline, bool CanCopy> struct VectorRun
	{
		static void run(mc::Exec& x, unsigned depth, std::size_t room)
		{
			g_count = 0;
			{
				Place<V> places[2];
				unsigned at = 0;
				V* v = &places[at].make();
				std::vector<int> m;
				int next = 1;
				for (unsigned d = 0; d < depth; ++d)
				{
					const unsigned op = x.choose(10);
					switch (op)
					{
						case 0: if (m.size() == room) break; v->emplace_back(next); m.push_back(next++); break;
						case 1: if (m.size() == room) break; v->emplace(v->begin(), next); m.insert(m.begin(), next++); break;
						case 2: if (m.empty()) break; v->erase(v->begin()); m.erase(m.begin()); break;
						case 3: if (m.size() == room) break; v->resize(room, T(next)); m.resize(room, next++); break;
						case 4: v->resize(0); m.clear(); break;
						case 5: { v->reserve(room); break; }
						case 6: if (m.empty()) break; v->pop_back(); m.pop_back(); break;
						case 7: if (m.size() < 2) break; v->erase(v->begin(), v->end() - 1); m.erase(m.begin(), m.end() - 1); break;
						case 8: { V& w = places[1 - at].make(*v); places[at].drop(); at = 1 - at; v = &w; break; }
						case 9: { V& w = places[1 - at].make(std::move(*v)); places[at].drop(); at = 1 - at; v = &w; break; }
					}
					MC_CHECK(v->size() == m.size(), "size", "size %zu, expected %zu", v->size(), m.size());
					for (std::size_t i = 0; i < m.size(); ++i)
					{
						MC_CHECK(&(*v)[i] == v->data() + i, "contiguous", "element %zu", i);
						MC_CHECK((*v)[i].is(m[i]), "content", "element %zu of %zu", i, m.size());
						if (Inline) MC_CHECK(places[at].holds(&(*v)[i]), "outside", "element %zu lies outside of the object", i);
					}
					MC_CHECK(g_count == m.size(), "lifetime", "%zu live objects, expected %zu", g_count, m.size());
					x.step();
				}
				mc::outcome(m.size());
			}
			MC_CHECK(g_count == 0, "lifetime", "%zu live objects left", g_count);
		}
	};
	template<typename T> void vectors()
	{
		mc::forAll([](mc::Exec& x) { VectorRun<Nz::FixedVector<T, 3>, T, true, true>::run(x, mc::pick(4, 5), 3); });
		mc::forAll([](mc::Exec& x) { VectorRun<Nz::FixedVector<T, 1>, T, true, true>::run(x, mc::pick(3, 4), 1); });
		mc::forAll([](mc::Exec& x) { VectorRun<Nz::HybridVector<T, 2>, T, false, true>::run(x, mc::pick(4, 5), 4); });
		mc::forAll([](mc::Exec& x) { VectorRun<Nz::HybridVector<T, 3>, T, true, true>::run(x, mc::pick(4, 5), 3); }); // never past the inline storage
	}

	// the stack helpers, from frames of different depths
	template<typename T, std::size_t Pad> struct Stack
	{
		static __attribute__((noinline)) void vector(std::size_t n, std::size_t k)
		{
			volatile char pad[Pad]; pad[0] = pad[Pad - 1] = 1;
			Nz::StackVector<T> v = NazaraStackVector(T, n);
			Nz::StackVector<T> w = NazaraStackVector(T, k);
			MC_CHECK(v.capacity() == n && w.capacity() == k && v.empty(), "size", "capacity %zu, expected %zu", v.capacity(), n);
			for (std::size_t i = 0; i < n; ++i) v.emplace_back(int(i + 1));
			for (std::size_t i = 0; i < k; ++i) w.emplace(w.begin(), int(i + 51));
			for (std::size_t i = 0; i < n; ++i) MC_CHECK(v[i].is(int(i + 1)) && &v[i] == v.data() + i, "content", "element %zu of %zu", i, n);
			for (std::size_t i = 0; i < k; ++i) MC_CHECK(w[i].is(int(50 + k - i)), "content", "element %zu of %zu", i, k);
			MC_CHECK(g_count == n + k && pad[0] == 1 && pad[Pad - 1] == 1, "lifetime", "%zu live objects, expected %zu", g_count, n + k);
		}
		static __attribute__((noinline)) void array(std::size_t n, std::size_t k)
		{
			volatile char pad[Pad]; pad[0] = pad[Pad - 1] = 1;
			Nz::StackArray<T> v = NazaraStackArray(T, n);
			{
				Nz::StackArray<T> w = NazaraStackArrayNoInit(T, k);
				for (std::size_t i = 0; i < k; ++i) Nz::PlacementNew(&w[i], int(i + 51));
				MC_CHECK(v.size() == n && w.size() == k && g_count == n + k, "size", "size %zu, expected %zu, %zu live objects", v.size(), n, g_count);
				for (std::size_t i = 0; i < n; ++i) v[i].fill(int(i + 1));
				for (std::size_t i = 0; i < n; ++i) MC_CHECK(v[i].is(int(i + 1)) && &v[i] == v.data() + i, "content", "element %zu of %zu", i, n);
				for (std::size_t i = 0; i < k; ++i) MC_CHECK(w[i].is(int(51 + i)), "content", "element %zu of %zu", i, k);
			}
			MC_CHECK(g_count == n && pad[0] == 1 && pad[Pad - 1] == 1, "lifetime", "%zu live objects, expected %zu", g_count, n);
		}
		static void run(mc::Exec& x)
		{
			const std::size_t n = x.choose(5), k = x.choose(5);
			g_count = 0;
			if (x.flip()) array(n, k); else vector(n, k);
			x.step();
			MC_CHECK(g_count == 0, "lifetime", "%zu live objects left", g_count);
			mc::outcome(n * 5 + k);
		}
	};
	template<typename T> void stacks()
	{
		mc::forAll([](mc::Exec& x)
		{
			switch (x.choose(6))
			{
				case 0: Stack<T, 1>::run(x); break;
				case 1: Stack<T, 16>::run(x); break;
				case 2: Stack<T, 32>::run(x); break;
				case 3: Stack<T, 48>::run(x); break;
				case 4: Stack<T, 64>::run(x); break;
				case 5: Stack<T, 112>::run(x); break;
			}
		});
	}

	template<typename T, std::size_t Alignment> void pool(unsigned depth)
	{
		mc::forAll([&](mc::Exec& x)
		{
			g_count = 0;
			{
				const std::size_t blockSize = 1 + x.choose(3);
				Nz::MemoryPool<T, Alignment> pool(blockSize);
				std::map<std::size_t, std::pair<T*, int>> live;
				for (unsigned d = 0; d < depth; ++d)
				{
					const unsigned op = x.choose(2 + unsigned(live.size()));
					std::size_t index = 0;
					if (op < 2)
					{
						T* p;
						if (op == 0) p = pool.Allocate(index, int(d + 1));
						else p = Nz::PlacementNew(pool.Allocate(pool.DeferConstruct, index), int(d + 1));
						MC_CHECK(reinterpret_cast<std::uintptr_t>(p) % Alignment == 0, "alignment", "entry %zu of a pool aligned on %zu", index, Alignment);
						MC_CHECK(live.emplace(index, std::make_pair(p, int(d + 1))).second, "index", "index %zu given twice", index);
					}
					else { auto it = std::next(live.begin(), op - 2); pool.Free(it->first); live.erase(it); }
					MC_CHECK(g_count == live.size(), "lifetime", "%zu live objects, expected %zu", g_count, live.size());
					for (auto& e : live)
					{
						MC_CHECK(e.second.first->is(e.second.second), "content", "entry %zu", e.first);
						MC_CHECK(pool.RetrieveFromIndex(e.first) == e.second.first && pool.RetrieveEntryIndex(e.second.first) == e.first, "retrieve", "entry %zu", e.first);
					}
					x.step();
				}
				mc::outcome(live.size());
			}
			MC_CHECK(g_count == 0, "lifetime", "%zu live objects left", g_count);
		});
	}

	enum class Three { A, B, C, Max = C };
	template<typename P, typename T, bool Inline> void holder(mc::Exec& x)
	{
		g_count = 0;
		{
			Place<P> places[2];
			P* p = &places[0].make(41);
			unsigned at = 0;
			for (unsigned d = 0; d < 2; ++d)
			{
				switch (x.choose(3))
				{
					case 0: { P& q = places[1 - at].make(*p); places[at].drop(); at = 1 - at; p = &q; break; }
					case 1: { P& q = places[1 - at].make(std::move(*p)); places[at].drop(); at = 1 - at; p = &q; break; }
					case 2: { P other(41); *p = std::move(other); break; }
				}
				MC_CHECK(p->Get()->is(41) && p->Get() == &**p, "content", "held object");
				if (Inline) MC_CHECK(places[at].holds(p->Get()), "outside", "the object held in place lies outside of its holder");
				x.step();
			}
			mc::outcome(1);
		}
		MC_CHECK(g_count == 0, "lifetime", "%zu live objects left", g_count);
	}
	template<typename T> void holders()
	{
		mc::forAll([](mc::Exec& x) { holder<Nz::PrivateImpl<T, sizeof(T), (alignof(T))>, T, true>(x); });
		mc::forAll([](mc::Exec& x) { holder<Nz::PrivateImpl<T, sizeof(T) + 8, 2 * alignof(T)>, T, true>(x); });
		mc::forAll([](mc::Exec& x) { holder<Nz::PrivateImpl<T>, T, false>(x); });
		mc::forAll([](mc::Exec& x)
		{
			g_count = 0;
			{
				using R = Nz::Result<T, Obj<5, 1>>;
				Place<R> a, b;
				const bool ok = x.flip();
				R& r = ok ? a.make(typename R::ValueTag{}, 3) : a.make(typename R::ErrorTag{}, 4);
				R& q = x.flip() ? b.make(r) : b.make(std::move(r));
				if (x.flip()) { R other(typename R::ValueTag{}, 3); if (ok) q = other; else { q = other; q = R(typename R::ErrorTag{}, 4); } }
				MC_CHECK(q.IsOk() == ok && (ok ? q.GetValue().is(3) && b.holds(&q.GetValue()) : q.GetError().is(4) && b.holds(&q.GetError())), "content", "result");
				x.step();
				Place<Nz::MovableValue<T>> c, d;
				auto& mv = c.make(T(8));
				auto& mw = d.make(std::move(mv));
				MC_CHECK(mw.Get().is(8) && d.holds(&mw.Get()), "content", "movable value");
				Place<Nz::EnumArray<Three, T>> e;
				auto& array = e.make();
				array[Three::B].fill(9); array[Three::C].fill(10);
				MC_CHECK(array[Three::B].is(9) && array[Three::C].is(10) && array[Three::A].is(0) && e.holds(&array[Three::C]), "content", "enum array");
				mc::outcome(ok);
			}
			MC_CHECK(g_count == 0, "lifetime", "%zu live objects left", g_count);
		});
	}
	template<std::size_t Alignment, typename F> void sizes(F f) { f(TypeIs<Obj<1, Alignment>>{}); f(TypeIs<Obj<3, Alignment>>{}); f(TypeIs<Obj<40, Alignment>>{}); }
	#if MC_PART == 0
	template<typename F> void types(F f) { sizes<1>(f); sizes<8>(f); sizes<64>(f); }
#elif MC_PART == 2
	template<typename F> void types(F f) { sizes<2>(f); sizes<32>(f); }
#else
	template<typename F> void types(F f) { sizes<16>(f); sizes<128>(f); }
#endif
}
MC_SUITE(vectors) { types([](auto t) { vectors<typename decltype(t)::type>(); }); }
MC_SUITE(stack) { types([](auto t) { stacks<typename decltype(t)::type>(); }); }
MC_SUITE(pools) { types([](auto t) { using T = typename decltype(t)::type; pool<T, alignof(T)>(mc::pick(6, 8)); pool<T, 2 * alignof(T)>(mc::pick(5, 7)); pool<T, 128>(mc::pick(5, 7)); }); }
MC_SUITE(holders) { types([](auto t) { holders<typename decltype(t)::type>(); }); }
#endif

#if MC_PART == 1
namespace
{
	// the library calls run with the accounting on; everything around them does not count
	template<typename F> decltype(auto) counted(F&& f)
	{
		struct Scope { Scope() { heap::allocations = 0; heap::counting = true; } ~Scope() { heap::counting = false; } } scope;
		return f();
	}
	template<typename F> void none(const char* what, F&& f)
	{
		counted(std::forward<F>(f));
		MC_CHECK(heap::allocations == 0, "allocation", "%s allocates memory (%lu times)", what, heap::allocations);
	}

	struct Item { int v; Item(int n = 0) : v(n) {} Item(const Item& o) : v(o.v) {} Item(Item&& o) noexcept : v(o.v) { o.v = -1; } Item& operator=(const Item& o) { v = o.v; return *this; } Item& operator=(Item&& o) noexcept { int n = o.v; o.v = -1; v = n; return *this; } ~Item() { v = -2; } };

	// every history of operations on two vectors
	template<typename V> constexpr bool Fixed = false;
	template<typename T, std::size_t C> constexpr bool Fixed<Nz::FixedVector<T, C>> = true;
	template<typename V> constexpr bool IsStackVector = false;
	template<typename T> constexpr bool IsStackVector<Nz::StackVector<T>> = true;
	template<typename V, bool NeverAllocates> void history(mc::Exec& x, unsigned depth, V& a, V& b, std::size_t room)
	{
		std::vector<int> m, o;
		auto within = [&](std::size_t count) { return count <= a.capacity(); };
		for (unsigned d = 0; d < depth; ++d)
		{
			const unsigned op = x.choose(IsStackVector<V> ? 8 : 14);
			const std::size_t n = m.size();
			const std::size_t at = op == 1 || op == 2 ? x.choose(unsigned(std::min<std::size_t>(n, 2)) + 1) : 0;
			const bool more = n < room;
			auto maybe = [&](bool free, const char* what, auto f) { if (free) none(what, f); else f(); };
			switch (op)
			{
				case 0: if (more) { maybe(within(n + 1), "push_back", [&] { a.push_back(Item(int(d))); }); m.push_back(int(d)); } break;
				case 1: if (more) { maybe(within(n + 1), "insert", [&] { a.emplace(a.begin() + at, int(d)); }); m.insert(m.begin() + at, int(d)); } break;
				case 2: if (at < n) { none("erase", [&] { a.erase(a.begin() + at); }); m.erase(m.begin() + at); } break;
				case 3: if (n) { none("pop_back", [&] { a.pop_back(); }); m.pop_back(); } break;
				case 4: none("clear", [&] { a.clear(); }); m.clear(); break;
				case 5: if (n > 1) { none("erase", [&] { a.erase(a.begin(), a.begin() + 2); }); m.erase(m.begin(), m.begin() + 2); } break;
				case 6: { const std::size_t to = x.choose(unsigned(room) + 1); maybe(within(to), "resize", [&] { a.resize(to, Item(7)); }); m.resize(to, 7); break; }
				case 7: { const std::size_t to = x.choose(unsigned(room) + 1); if constexpr (!IsStackVector<V>) maybe(within(to), "reserve", [&] { a.reserve(to); }); MC_CHECK(a.capacity() >= to || IsStackVector<V>, "capacity", "capacity %zu after reserve(%zu)", a.capacity(), to); break; }
				default:
					if constexpr (!IsStackVector<V>)
					{
						switch (op)
						{
							case 8: maybe(NeverAllocates, "copy assignment", [&] { a = b; }); m = o; break;
							case 9: none("move assignment", [&] { a = std::move(b); }); m = o; none("clear", [&] { b.clear(); }); o.clear(); break;
							case 10: none("swap", [&] { std::swap(a, b); }); std::swap(m, o); break;
							case 11: none("move construction", [&] { V c(std::move(a)); a = std::move(c); }); break;
							case 12: maybe(NeverAllocates, "copy construction", [&] { V c(a); b = std::move(c); }); o = m; break;
							case 13: if (more) { maybe(within(n + 1) || NeverAllocates, "push_back", [&] { const Item i(33); a.push_back(i); }); m.push_back(33); } break;
						}
					}
			}
			MC_CHECK(a.size() == m.size(), "size", "size %zu, expected %zu", a.size(), m.size());
			none("access", [&] { std::size_t i = 0; for (const Item& item : a) { if (item.v != m[i]) mc::fail("content", "element %zu is %d", i, item.v); i++; } for (auto it = a.rbegin(); it != a.rend(); ++it) if (it->v != m[--i]) mc::fail("content", "element %zu backwards", i); });
			x.step();
		}
		mc::outcome(m.size());
	}

	template<typename B> void bitsets(mc::Exec& x, unsigned depth, bool inPlace, std::size_t room)
	{
		B a, b;
		for (unsigned d = 0; d < depth; ++d)
		{
			const unsigned op = x.choose(15);
			const std::size_t n = a.GetSize(), capacity = a.GetBlockCount() * B::bitsPerBlock; // at least that much is reserved
			auto maybe = [&](bool free, const char* what, auto f) { if (free || inPlace) none(what, f); else f(); };
			switch (op)
			{
				case 0: { const std::size_t to = x.choose(4) * 7; if (to > room) break; maybe(to <= capacity, "Resize", [&] { a.Resize(to, true); }); break; }
				case 1: if (n) none("Set", [&] { a.Set(n / 2, true); a.Reset(0); a[n - 1].Flip(); }); break;
				case 2: maybe(true, "Flip", [&] { a.Flip(); a.Reverse(); }); break;
				case 3: maybe(true, "ShiftLeft", [&] { a.ShiftLeft(3); a <<= 1; }); break;
				case 4: maybe(true, "ShiftRight", [&] { a.ShiftRight(3); a >>= 9; }); break;
				case 5: maybe(b.GetSize() <= capacity, "AND", [&] { a &= b; }); break;
				case 6: maybe(b.GetSize() <= capacity, "OR", [&] { a |= b; }); break;
				case 7: maybe(b.GetSize() <= capacity, "XOR", [&] { a ^= b; }); break;
				case 8: none("Swap", [&] { a.Swap(b); }); break;
				case 9: none("move", [&] { B c(std::move(a)); a = std::move(b); b = std::move(c); }); break;
				case 10: maybe(a.GetBlockCount() <= b.GetBlockCount(), "copy assignment", [&] { b = a; }); break;
				case 11: if (n + 2 > room) break; maybe(n + 2 <= capacity, "UnboundedSet", [&] { a.UnboundedSet(n + 1); }); break;
				case 12: { none("UnboundedReset", [&] { a.UnboundedReset(n + 40); }); none("Clear", [&] { a.Clear(); }); break; }
				case 13: { const std::size_t bits = 8 * x.choose(3); if (bits > room) break; a.Reserve(bits); none("growth within the reserved bits", [&] { while (a.GetSize() < bits) a.Resize(a.GetSize() + 1, true); }); break; }
				case 14: { if (n + 8 > room) break; const Nz::UInt8 data = 0x5A; maybe(n + 8 <= capacity, "Write", [&] { a.Write(&data, 8); a.Resize(n); }); break; }
			}
			std::size_t sum = 0;
			none("queries", [&]
			{
				sum = a.Count() + a.FindFirst() + a.TestAll() + a.TestAny() + a.TestNone() + a.Intersects(b) + (a == b) + (a < b) + (a >= b) + a.UnboundedTest(99);
				for (std::size_t bit : a.IterBits()) sum += bit;
				if (a.GetSize() <= 32) sum += a.template To<Nz::UInt32>();
			});
			mc::outcome(a.GetSize() * 64 + sum % 64);
			x.step();
		}
	}
	enum class Option { A, B, C, D, Max = D };
	constexpr bool EnableEnumAsNzFlags(Option) { return true; }
	struct Impl { int a, b; Impl(int n) : a(n), b(n) {} };
	template<typename Pool> void pools(mc::Exec& x, unsigned depth)
	{
		const std::size_t blockSize = 1 + x.choose(4);
		Pool pool(blockSize);
		std::vector<std::size_t> live;
		for (unsigned d = 0; d < depth; ++d)
		{
			const unsigned op = x.choose(3 + unsigned(live.size()));
			std::size_t index = 0;
			if (op == 0)
			{
				if (pool.GetFreeEntryCount() > 0) none("Allocate with a free entry", [&] { pool.Allocate(index, 5); });
				else pool.Allocate(index, 5);
				live.push_back(index);
			}
			else if (op == 1) none("move", [&] { Pool other(std::move(pool)); pool = std::move(other); });
			else if (op == 2)
			{
				int sum = 0; none("iteration", [&] { for (int& i : pool) sum += i; }); MC_CHECK(sum == int(5 * live.size()), "content", "iteration");
				none("Reset", [&] { pool.Reset(); });
				live.clear();
			}
			else { none("Free", [&] { int* p = pool.RetrieveFromIndex(live[op - 3]); pool.Free(pool.RetrieveEntryIndex(p)); }); live.erase(live.begin() + (op - 3)); }
			x.step();
		}
	}
}
namespace
{
	// a block of elements larger than a cache line
	struct BigItem { int v; char more[252]; BigItem(int n = 0) : v(n), more{} { more[251] = char(n); } bool operator==(int n) const { return v == n && more[251] == char(n); } };
	inline bool operator==(const Item& i, int n) { return i.v == n; }
	// grow one by one, drain in every way, grow back within what was reserved: nothing allocates, nothing moves
	template<typename V> void walk(mc::Exec& x, std::size_t inlineCapacity)
	{
		V a;
		const std::size_t top = Fixed<V> ? inlineCapacity : x.flip() ? inlineCapacity : inlineCapacity + 3;
		const unsigned drain = x.choose(6);
		for (std::size_t n = 0; n < top; ++n)
		{
			if (n < a.capacity()) none("push_back", [&] { a.push_back(typename V::value_type(int(n))); });
			else a.push_back(typename V::value_type(int(n)));
		}
		const std::size_t capacity = a.capacity();
		const auto* data = a.data();
		std::size_t left = top;
		if (drain < 4) while (left > 0)
		{
			switch (drain)
			{
				case 0: none("pop_back", [&] { a.pop_back(); }); break;
				case 1: none("erase", [&] { a.erase(a.end() - 1); }); break;
				case 2: none("resize", [&] { a.resize(a.size() - 1); }); break;
				case 3: none("erase", [&] { a.erase(a.begin() + (a.size() - 1), a.end()); }); break;
			}
			--left;
			MC_CHECK(a.size() == left && a.capacity() >= capacity && (left == 0 || a.data() == data), "relocation", "%zu elements left of %zu: capacity %zu -> %zu", left, top, capacity, a.capacity());
			if (left > 0) MC_CHECK(a[left - 1] == int(left - 1) && a[0] == 0, "content", "%zu elements left", left);
			x.step();
		}
		else if (drain == 4) none("clear", [&] { a.clear(); });
		else none("resize", [&] { a.resize(0); });
		MC_CHECK(a.capacity() >= capacity, "capacity", "emptying reduces the capacity from %zu to %zu", capacity, a.capacity());
		for (std::size_t n = 0; n < top; ++n) none("push_back within the capacity", [&] { a.push_back(typename V::value_type(int(n))); });
		MC_CHECK(a.data() == data && a[top - 1] == int(top - 1), "relocation", "the elements moved");
		mc::outcome(top);
	}
	template<std::size_t C, typename T> void walks()
	{
		mc::forAll([](mc::Exec& x) { walk<Nz::FixedVector<T, C>>(x, C); });
		mc::forAll([](mc::Exec& x) { walk<Nz::HybridVector<T, C>>(x, C); });
	}
}
MC_SUITE(walks) { walks<1, Item>(); walks<2, Item>(); walks<3, Item>(); walks<4, Item>(); walks<5, Item>(); walks<8, Item>(); walks<16, Item>(); walks<33, Item>(); walks<64, Item>(); walks<257, Item>(); walks<1024, Item>(); }
MC_SUITE(walks_big) { walks<1, BigItem>(); walks<3, BigItem>(); walks<7, BigItem>(); walks<16, BigItem>(); walks<100, BigItem>(); }
MC_SUITE(fixed) { mc::forAll([](mc::Exec& x) { Nz::FixedVector<Item, 4> a, b; history<Nz::FixedVector<Item, 4>, true>(x, mc::pick(5, 6), a, b, 4); }); }
MC_SUITE(hybrid) { mc::forAll([](mc::Exec& x) { Nz::HybridVector<Item, 2> a, b; history<Nz::HybridVector<Item, 2>, false>(x, mc::pick(5, 6), a, b, 4); }); }
MC_SUITE(stack)
{
	mc::forAll([](mc::Exec& x)
	{
		heap::allocations = 0; heap::counting = true;
		Nz::StackVector<Item> a = NazaraStackVector(Item, 4);
		Nz::StackVector<Item> b = NazaraStackVector(Item, 4);
		Nz::StackArray<Item> c = NazaraStackArray(Item, 3);
		Nz::StackArray<Item> d = NazaraStackArrayNoInit(Item, 3);
		d.fill(Item(5)); std::swap(c[0], d[1]); Nz::StackArray<Item> e(std::move(c));
		heap::counting = false;
		MC_CHECK(heap::allocations == 0, "allocation", "stack containers allocate memory");
		history<Nz::StackVector<Item>, true>(x, mc::pick(5, 6), a, b, 4);
	});
}
MC_SUITE(bitset_in_place)
{
	mc::forAll([](mc::Exec& x) { bitsets<Nz::Bitset<Nz::UInt8, Nz::FixedVector<Nz::UInt8, 4>>>(x, mc::pick(5, 6), true, 32); });
	mc::forAll([](mc::Exec& x) { bitsets<Nz::Bitset<Nz::UInt32, Nz::HybridVector<Nz::UInt32, 2>>>(x, mc::pick(5, 6), true, 64); });
}
MC_SUITE(bitset_vector) { mc::forAll([](mc::Exec& x) { bitsets<Nz::Bitset<Nz::UInt8>>(x, mc::pick(5, 6), false, 64); }); }
MC_SUITE(pool) { mc::forAll([](mc::Exec& x) { pools<Nz::MemoryPool<int>>(x, mc::pick(8, 9)); }); }
MC_SUITE(holders)
{
	mc::forAll([](mc::Exec& x)
	{
		const int n = int(x.choose(4));
		std::array<char, 4096> big; big[0] = char(n);
		none("FunctionRef", [&]
		{
			auto f = [&big, n](int k) { return big[0] + n + k; };
			Nz::FunctionRef<int(int)> r(f), s(nullptr); s = r; Nz::FunctionRef<int(int)> t(std::move(s));
			if (t(3) != 2 * n + 3) mc::fail("result", "function reference");
		});
		none("CallOnExit", [&]
		{
			int calls = 0;
			{ Nz::CallOnExit c([&calls, big] { calls += 1 + big[0]; }); if (n == 1) c.CallAndReset(); if (n == 2) c.Reset(); }
			if (calls != (n == 2 ? 0 : 1 + n)) mc::fail("result", "call on exit");
		});
		none("PrivateImpl in place", [&]
		{
			Nz::PrivateImpl<Impl, sizeof(Impl), alignof(Impl)> p(n), q(p), r(std::move(q)); q = r; r = std::move(p);
			if (r->a != n || q->b != n) mc::fail("result", "holder");
		});
		none("Result", [&]
		{
			Nz::Result<int, short> a(Nz::Ok(n)), b(Nz::Err(short(n))), c(a), d(std::move(b)); Nz::Result<void, short> e(Nz::Ok()), f(Nz::Err(short(2)));
			Nz::Result<long, int> wide(a); b = a; a = d; f = e;
			if (c.GetValue() + d.GetError() + b.GetValueOr(8) + c.Map([](int v) { return v + 1; }).GetValue() + int(wide.GetValue()) != 5 * n + 1 || !f.IsOk() || a.IsOk()) mc::fail("result", "result");
			c.Expect("present");
		});
		none("movables", [&]
		{
			Nz::MovablePtr<int> p(nullptr), q(std::move(p)); Nz::MovableValue<Item> v(Item{ n }), w(std::move(v)); v = std::move(w); Nz::MovableLiteral<int, 3> l(n), k(std::move(l)); l = std::move(k);
			if (v.Get().v != n || l.Get() != n) mc::fail("result", "movables");
		});
		none("Flags and EnumArray", [&]
		{
			Nz::Flags<Option> f(Option::A); f |= Option::C; f ^= ~f; std::size_t count = f.Count(); for (Option o : f) count += std::size_t(o);
			Nz::EnumArray<Option, int> array { { 1, 2, 3, n } }; int sum = 0; for (auto&& [key, value] : array.iter_kv()) sum += value * (int(key) + 1);
			if (count != 4 + 6 || sum != 14 + 4 * n) mc::fail("result", "flags");
		});
		none("SparsePtr", [&]
		{
			struct Row { int a; int b; } rows[3] = { { 1, 2 }, { 3, 4 }, { 5, n } };
			Nz::SparsePtr<int> p(&rows[0].b, int(sizeof(Row))); Nz::SparsePtr<const int> c(p);
			if (p[2] != n || *(c + 1) != 4 || (p + 2) - p != 2) mc::fail("result", "sparse pointer");
		});
		std::size_t hash = 0;
		none("hashes", [&]
		{
			const Nz::UInt8 data[4] = { 1, 2, 3, Nz::UInt8(n) }; std::size_t seed = 0;
			Nz::HashCombine(seed, n); Nz::HashCombine(seed, std::string_view("text"));
			hash = (seed ^ Nz::CRC32(data, 4) ^ Nz::FNV1a32(data, 4) ^ Nz::FNV1a64(data, 4) ^ Nz::CRC32(std::string_view("text")) ^ Nz::FNV1a32("text"));
		});
		mc::outcome(hash);
		x.step();
	});
}
#endif
