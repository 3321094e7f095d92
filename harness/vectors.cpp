// C05 / C07: the vector-like containers against std::vector<int>, with a registry of live elements.
#include "vec_common.hpp"
#include <optional>

namespace
{
	template<typename V> void alive(std::size_t n, const char* what)
	{
		using T = typename V::value_type;
		if constexpr (Tracked<T>) mc::lifeExpect(n, what);
	}

	// every sequence of `depth` operations from every initial size
	template<typename V> void sequences(unsigned depth)
	{
		mc::forAll([&](mc::Exec& x)
		{
			using T = typename V::value_type;
			mc::g_life.reset();
			mc::HeapScope heap;
			{
				std::unique_ptr<Box<V>> box = std::make_unique<Box<V>>();
				Model m; int next = 1;
				observe(**box, m, "default constructed");
				std::size_t start = x.choose(unsigned(Traits<V>::Max) + 1);
				mc::u64 base;
				for (std::size_t i = 0; i < start; ++i) { (*box)->push_back(make<T>(next)); m.push_back(next++); }
				observe(**box, m, "filled");
				for (unsigned d = 0; d < depth; ++d)
				{
					auto ops = enabledOps<V>(m.size());
					const Op op = ops[x.choose(unsigned(ops.size()))];
					if constexpr (Traits<V>::Hybrid || Traits<V>::Stack || std::is_same_v<T, std::string>) (void)base;
					applyOp<V>(box, m, op, next);
					x.step();
					observe(**box, m, kindName(op.kind));
					alive<V>(m.size(), kindName(op.kind));
				}
				mc::outcome(mc::hashBytes(m.data(), m.size() * sizeof(int)));
			}
			alive<V>(0, "after destruction");
			MC_CHECK(mc::g_heap.live == 0, "leak", "%lld heap blocks leaked", (long long)mc::g_heap.live);
		});
	}

	// explicit-state search to a greater depth: states merged when size, storage and capacity are the same
	// (elements are opaque to the containers)
	template<typename V> struct Sys
	{
		std::unique_ptr<mc::HeapScope> heap;
		std::unique_ptr<Box<V>> box;
		Model m; int next = 1;
		std::vector<Op> current;
		Sys() { mc::g_life.reset(); heap = std::make_unique<mc::HeapScope>(); box = std::make_unique<Box<V>>(); }
		unsigned ops() { current = enabledOps<V>(m.size()); return unsigned(current.size()); }
		void apply(unsigned op) { ops(); Op o = current[op]; applyOp<V>(box, m, o, next); observe(**box, m, kindName(o.kind)); alive<V>(m.size(), kindName(o.kind)); }
		std::string key() { std::string k = std::to_string(m.size()) + "/" + std::to_string((*box)->capacity()); if constexpr (!Traits<V>::Stack) k += isInline(**box) ? "i" : "h"; return k; }
		void finish() { box.reset(); alive<V>(0, "after destruction"); }
	};
	template<typename V> void search(unsigned depth) { mc::bfs<Sys<V>>(depth); }

	// StackArray: size fixed at construction, elements constructed then destroyed once, move and swap transfer ownership
	template<typename T> void stackArrays(unsigned maxSize)
	{
		mc::forAll([&](mc::Exec& x)
		{
			mc::g_life.reset();
			{
				std::size_t n = x.choose(maxSize + 1), k = x.choose(maxSize + 1);
				auto mem = [](std::size_t c) { return std::unique_ptr<unsigned char[]>(new unsigned char[c * sizeof(T) + 16]()); };
				auto ma = mem(n), mb = mem(k);
				Nz::StackArray<T> a(reinterpret_cast<T*>(ma.get()), n);
				Nz::StackArray<T> b(reinterpret_cast<T*>(mb.get()), k, typename Nz::StackArray<T>::NoInitTag{});
				for (std::size_t i = 0; i < k; ++i) new (&b.data()[i]) T(100 + int(i));
				if constexpr (Tracked<T>) mc::lifeExpect(n + k, "construction");
				Model am(n, 0), bm; for (std::size_t i = 0; i < k; ++i) bm.push_back(100 + int(i));
				auto see = [&](Nz::StackArray<T>& s, const Model& m, const char* what)
				{
					const auto& c = s;
					MC_CHECK(s.size() == m.size() && s.empty() == m.empty() && s.max_size() == m.size(), "size", "%s: size %zu instead of %zu", what, s.size(), m.size());
					std::size_t i = 0;
					for (T& e : s) { MC_CHECK(i < m.size() && valueOf(e) == m[i] && valueOf(s[i]) == m[i] && valueOf(c[i]) == m[i] && valueOf(c.data()[i]) == m[i], "content", "%s: element %zu", what, i); ++i; }
					MC_CHECK(i == m.size() && s.cend() - s.cbegin() == c.end() - c.begin(), "iteration", "%s: %zu elements visited", what, i);
					for (auto it = c.rbegin(); it != c.rend(); ++it) { --i; MC_CHECK(valueOf(*it) == m[i], "content", "%s: reverse element %zu", what, i); }
					for (auto it = s.crbegin(); it != s.crend(); ++it) { MC_CHECK(valueOf(*it) == m[m.size() - 1 - i], "content", "%s: reverse element", what); ++i; }
					MC_CHECK(std::size_t(s.rend() - s.rbegin()) == m.size(), "iteration", "%s: reverse iteration", what);
					if (!m.empty()) MC_CHECK(valueOf(s.front()) == m.front() && valueOf(c.back()) == m.back() && valueOf(c.front()) == m.front() && valueOf(s.back()) == m.back(), "content", "%s: front/back", what);
				};
				see(a, am, "construction"); see(b, bm, "construction");
				for (unsigned d = 0; d < 3; ++d)
				{
					switch (x.choose(6))
					{
						case 0: a.fill(T(7)); am.assign(am.size(), 7); break;
						case 1: if (!am.empty()) { a[0] = T(9); am[0] = 9; a.back() = T(11); am.back() = 11; } break;
						case 2: { Nz::StackArray<T> c(std::move(a)); see(c, am, "moved-to"); a = std::move(c); break; }
						case 3: std::swap(a, b); std::swap(am, bm); break;
						case 4: { auto mc_ = mem(2); Nz::StackArray<T> c(reinterpret_cast<T*>(mc_.get()), 2); Model cm(2, 0); std::swap(a, c); see(c, am, "swapped"); see(a, cm, "swapped"); std::swap(a, c); break; }
						case 5: { Nz::StackArray<T> c; see(c, Model(), "default"); std::swap(b, c); see(b, Model(), "swapped with default"); std::swap(b, c); break; }
					}
					x.step();
					see(a, am, "after"); see(b, bm, "after");
					if constexpr (Tracked<T>) mc::lifeExpect(n + k, "after");
				}
			}
			if constexpr (Tracked<T>) mc::lifeExpect(0, "after destruction");
		});
	}
	// two StackVectors (of different capacities) and a default constructed one: moves and swaps transfer the elements,
	// which are destroyed exactly once
	template<typename T> void stackMoves(unsigned depth)
	{
		mc::forAll([&](mc::Exec& x)
		{
			mc::g_life.reset();
			auto mem = [](std::size_t c) { return std::unique_ptr<unsigned char[]>(new unsigned char[c * sizeof(T) + 16]()); };
			auto ma = mem(3), mb = mem(4);
			{
				using V = Nz::StackVector<T>;
				std::optional<V> v[3];
				v[0].emplace(reinterpret_cast<T*>(ma.get()), 3);
				v[1].emplace(reinterpret_cast<T*>(mb.get()), 4);
				v[2].emplace();
				Model m[3]; std::size_t cap[3] = { 3, 4, 0 }; int next = 1;
				for (int i = 0; i < 2; ++i) for (std::size_t n = x.choose(unsigned(cap[i]) + 1), k = 0; k < n; ++k) { v[i]->push_back(make<T>(next)); m[i].push_back(next++); }
				auto adopt = [&](int i) { cap[i] = v[i]->capacity(); m[i].clear(); MC_CHECK(v[i]->size() <= v[i]->capacity(), "moved-from", "moved-from vector of size %zu and capacity %zu", v[i]->size(), v[i]->capacity()); for (std::size_t k = 0; k < v[i]->size(); ++k) m[i].push_back(valueOf((*v[i])[k])); };
				auto see = [&]
				{
					std::size_t total = 0;
					for (int i = 0; i < 3; ++i)
					{
						const V& c = *v[i];
						MC_CHECK(c.size() == m[i].size() && c.capacity() == cap[i] && c.max_size() == cap[i] && c.empty() == m[i].empty(), "size", "vector %d: size %zu (expected %zu), capacity %zu (expected %zu)", i, c.size(), m[i].size(), c.capacity(), cap[i]);
						std::size_t k = 0;
						for (const T& e : c) { MC_CHECK(valueOf(e) == m[i][k], "content", "vector %d: element %zu is %d instead of %d", i, k, valueOf(e), m[i][k]); ++k; }
						MC_CHECK(k == m[i].size(), "iteration", "vector %d: %zu elements visited", i, k);
						total += k;
					}
					if constexpr (Tracked<T>) mc::lifeExpect(total, "stack vectors");
				};
				see();
				for (unsigned d = 0; d < depth; ++d)
				{
					const unsigned kind = x.choose(6);
					const int to = int(x.choose(3)), from = kind == 3 ? to : int((to + 1 + x.choose(2)) % 3);
					switch (kind)
					{
						case 0: MC_NOTE("v%d = std::move(v%d)", to, from); *v[to] = std::move(*v[from]); m[to] = m[from]; cap[to] = cap[from]; adopt(from); break;
						case 1: MC_NOTE("v%d move constructed from v%d", to, from); v[to].reset(); v[to].emplace(std::move(*v[from])); m[to] = m[from]; cap[to] = cap[from]; adopt(from); break;
						case 2: MC_NOTE("std::swap(v%d, v%d)", to, from); { using std::swap; swap(*v[to], *v[from]); } std::swap(m[to], m[from]); std::swap(cap[to], cap[from]); break;
						case 3: MC_NOTE("v%d destroyed", to); v[to].reset(); v[to].emplace(); m[to].clear(); cap[to] = 0; break;
						case 4: if (m[to].size() == cap[to]) return; MC_NOTE("v%d.push_back(%d)", to, next); v[to]->push_back(make<T>(next)); m[to].push_back(next++); break;
						case 5: if (m[to].empty()) return; MC_NOTE("v%d.erase(begin)", to); v[to]->erase(v[to]->begin()); m[to].erase(m[to].begin()); break;
					}
					x.step();
					see();
				}
			}
			if constexpr (Tracked<T>) mc::lifeExpect(0, "after destruction");
		});
	}
	// the same with StackArrays, whose sizes are fixed
	template<typename T> void arrayMoves(unsigned depth)
	{
		mc::forAll([&](mc::Exec& x)
		{
			mc::g_life.reset();
			auto mem = [](std::size_t c) { return std::unique_ptr<unsigned char[]>(new unsigned char[c * sizeof(T) + 16]()); };
			const std::size_t na = x.choose(4), nb = x.choose(4);
			auto ma = mem(na), mb = mem(nb);
			{
				using A = Nz::StackArray<T>;
				std::optional<A> a[3];
				a[0].emplace(reinterpret_cast<T*>(ma.get()), na);
				a[1].emplace(reinterpret_cast<T*>(mb.get()), nb);
				a[2].emplace();
				Model m[3]; int next = 1;
				m[0].resize(na); m[1].resize(nb);
				for (int i = 0; i < 2; ++i) for (std::size_t k = 0; k < m[i].size(); ++k) { (*a[i])[k] = make<T>(next); m[i][k] = next++; }
				auto see = [&]
				{
					std::size_t total = 0;
					for (int i = 0; i < 3; ++i)
					{
						const A& c = *a[i];
						MC_CHECK(c.size() == m[i].size() && c.empty() == m[i].empty() && c.max_size() == m[i].size(), "size", "array %d: size %zu (expected %zu)", i, c.size(), m[i].size());
						std::size_t k = 0;
						for (const T& e : c) { MC_CHECK(valueOf(e) == m[i][k], "content", "array %d: element %zu is %d instead of %d", i, k, valueOf(e), m[i][k]); ++k; }
						total += k;
					}
					if constexpr (Tracked<T>) mc::lifeExpect(total, "stack arrays");
				};
				auto adopt = [&](int i) { m[i].clear(); for (std::size_t k = 0; k < a[i]->size(); ++k) m[i].push_back(valueOf((*a[i])[k])); };
				see();
				for (unsigned d = 0; d < depth; ++d)
				{
					const unsigned kind = x.choose(4);
					const int to = int(x.choose(3)), from = kind == 3 ? to : int((to + 1 + x.choose(2)) % 3);
					switch (kind)
					{
						case 0: MC_NOTE("a%d = std::move(a%d)", to, from); *a[to] = std::move(*a[from]); m[to] = m[from]; adopt(from); break;
						case 1: MC_NOTE("a%d move constructed from a%d", to, from); a[to].reset(); a[to].emplace(std::move(*a[from])); m[to] = m[from]; adopt(from); break;
						case 2: MC_NOTE("std::swap(a%d, a%d)", to, from); { using std::swap; swap(*a[to], *a[from]); } std::swap(m[to], m[from]); break;
						case 3: MC_NOTE("a%d destroyed", to); a[to].reset(); a[to].emplace(); m[to].clear(); break;
					}
					x.step();
					see();
				}
			}
			if constexpr (Tracked<T>) mc::lifeExpect(0, "after destruction");
		});
	}
	// the convenience macros, in a frame of their own
	__attribute__((noinline)) void macros(std::size_t n)
	{
		mc::g_life.reset();
		{
			auto v = NazaraStackVector(mc::Elem, n);
			MC_CHECK(v.capacity() == n && v.empty(), "macro", "NazaraStackVector(%zu) has capacity %zu", n, v.capacity());
			for (std::size_t i = 0; i < n; ++i) v.emplace_back(int(i));
			auto a = NazaraStackArray(mc::Elem, n);
			MC_CHECK(a.size() == n, "macro", "NazaraStackArray(%zu) has size %zu", n, a.size());
			for (std::size_t i = 0; i < n; ++i) a[i] = v[n - 1 - i];
			auto u = NazaraStackArrayNoInit(int, n);
			for (std::size_t i = 0; i < n; ++i) u[i] = int(i);
			for (std::size_t i = 0; i < n; ++i) MC_CHECK(v[i].get() == int(i) && a[i].get() == int(n - 1 - i) && u[i] == int(i), "macro", "arrays of %zu elements overlap", n);
			mc::lifeExpect(2 * n, "macros");
		}
		mc::lifeExpect(0, "macros");
	}
}

#if MC_PART == 0
MC_SUITE(seq_fixed_elem) { sequences<Nz::FixedVector<mc::Elem, 3>>(MC_SAN ? mc::pick(2, 3) : mc::pick(4, 5)); }
MC_SUITE(seq_fixed1) { sequences<Nz::FixedVector<mc::Elem, 1>>(MC_SAN ? 3 : mc::pick(4, 5)); }
MC_SUITE(seq_fixed_moveonly) { sequences<Nz::FixedVector<mc::MoveOnly, 3>>(mc::pick(3, 4)); }
MC_SUITE(seq_fixed_nodefault) { sequences<Nz::FixedVector<NoDefault, 3>>(MC_SAN ? 2 : mc::pick(2, 3)); }
MC_SUITE(seq_fixed_int) { sequences<Nz::FixedVector<int, 4>>(MC_SAN ? 2 : 3); }
MC_SUITE(seq_fixed_string) { sequences<Nz::FixedVector<std::string, 3>>(MC_SAN ? 2 : mc::pick(2, 3)); }
MC_SUITE(seq_fixed_wide) { sequences<Nz::FixedVector<Wide, 2>>(mc::pick(2, 3)); }
MC_SUITE(seq_fixed_huge) { sequences<Nz::FixedVector<Huge, 3>>(MC_SAN ? 1 : mc::pick(2, 3)); }
MC_SUITE(seq_fixed_small) { sequences<Nz::FixedVector<Small, 5>>(MC_SAN ? 1 : 2); }
MC_SUITE(seq_fixed_plain) { sequences<Nz::FixedVector<Plain, 4>>(MC_SAN ? 1 : mc::pick(2, 3)); }
MC_SUITE(seq_fixed_listed) { sequences<Nz::FixedVector<Listed, 3>>(MC_SAN ? 1 : 2); }
MC_SUITE(seq_fixed_shared) { sequences<Nz::FixedVector<Shared, 3>>(MC_SAN ? 1 : mc::pick(2, 3)); }
MC_SUITE(seq_fixed_wider) { sequences<Nz::FixedVector<mc::Elem, 9>>(MC_SAN ? 1 : 2); }
MC_SUITE(bfs_fixed) { search<Nz::FixedVector<mc::Elem, 6>>(mc::pick(8, 10)); }
#elif MC_PART == 1
MC_SUITE(seq_hybrid_elem) { sequences<Nz::HybridVector<mc::Elem, 2>>(MC_SAN ? mc::pick(2,3) : mc::pick(3, 4)); }
MC_SUITE(seq_hybrid1) { sequences<Nz::HybridVector<mc::Elem, 1>>(MC_SAN ? 2 : mc::pick(3, 4)); }
MC_SUITE(seq_hybrid_moveonly) { sequences<Nz::HybridVector<mc::MoveOnly, 2>>(MC_SAN ? 2 : mc::pick(3, 4)); }
MC_SUITE(seq_hybrid_nodefault) { sequences<Nz::HybridVector<NoDefault, 2>>(MC_SAN ? 2 : mc::pick(2, 3)); }
MC_SUITE(seq_hybrid_int) { sequences<Nz::HybridVector<int, 2>>(MC_SAN ? 2 : 3); }
MC_SUITE(seq_hybrid_string) { sequences<Nz::HybridVector<std::string, 2>>(MC_SAN ? 2 : mc::pick(2, 3)); }
MC_SUITE(seq_hybrid_wide) { sequences<Nz::HybridVector<Wide, 2>>(2); }
MC_SUITE(seq_hybrid_huge) { sequences<Nz::HybridVector<Huge, 2>>(MC_SAN ? 1 : mc::pick(2, 3)); }
MC_SUITE(seq_hybrid_small) { sequences<Nz::HybridVector<Small, 5>>(MC_SAN ? 1 : 2); }
MC_SUITE(seq_hybrid_plain) { sequences<Nz::HybridVector<Plain, 3>>(MC_SAN ? 1 : mc::pick(2, 3)); }
MC_SUITE(seq_hybrid_listed) { sequences<Nz::HybridVector<Listed, 2>>(MC_SAN ? 1 : 2); }
MC_SUITE(seq_hybrid_shared) { sequences<Nz::HybridVector<Shared, 2>>(MC_SAN ? 1 : mc::pick(2, 3)); }
MC_SUITE(seq_hybrid_wider) { sequences<Nz::HybridVector<mc::Elem, 6>>(MC_SAN ? 1 : 2); }
MC_SUITE(bfs_hybrid) { search<Nz::HybridVector<mc::Elem, 3>>(mc::pick(8, 12)); }
#else
MC_SUITE(seq_stack_elem) { sequences<Nz::StackVector<mc::Elem>>(MC_SAN ? mc::pick(2, 3) : mc::pick(3, 4)); }
MC_SUITE(seq_stack_moveonly) { sequences<Nz::StackVector<mc::MoveOnly>>(MC_SAN ? 2 : mc::pick(3, 4)); }
MC_SUITE(seq_stack_nodefault) { sequences<Nz::StackVector<NoDefault>>(MC_SAN ? 2 : mc::pick(2, 3)); }
MC_SUITE(seq_stack_int) { sequences<Nz::StackVector<int>>(MC_SAN ? 2 : 3); }
MC_SUITE(seq_stack_string) { sequences<Nz::StackVector<std::string>>(MC_SAN ? 2 : mc::pick(2, 3)); }
MC_SUITE(seq_stack_wide) { sequences<Nz::StackVector<Wide>>(2); }
MC_SUITE(seq_stack_huge) { sequences<Nz::StackVector<Huge>>(MC_SAN ? 1 : mc::pick(2, 3)); }
MC_SUITE(seq_stack_small) { sequences<Nz::StackVector<Small>>(MC_SAN ? 1 : 2); }
MC_SUITE(seq_stack_plain) { sequences<Nz::StackVector<Plain>>(MC_SAN ? 1 : mc::pick(2, 3)); }
MC_SUITE(seq_stack_listed) { sequences<Nz::StackVector<Listed>>(MC_SAN ? 1 : 2); }
MC_SUITE(seq_stack_shared) { sequences<Nz::StackVector<Shared>>(MC_SAN ? 1 : mc::pick(2, 3)); }
MC_SUITE(stackarray_small) { stackArrays<Small>(mc::pick(4, 6)); }
MC_SUITE(stackarray_byte) { stackArrays<unsigned char>(mc::pick(4, 6)); }
MC_SUITE(stackarray_huge) { stackArrays<Huge>(MC_SAN ? 2 : mc::pick(3, 5)); }
MC_SUITE(stackarray_plain) { stackArrays<Plain>(mc::pick(4, 6)); }
MC_SUITE(stackarray_shared) { stackArrays<Shared>(mc::pick(4, 6)); }
MC_SUITE(array_moves_plain) { arrayMoves<Plain>(MC_SAN ? 3 : mc::pick(4, 5)); }
MC_SUITE(stack_moves_shared) { stackMoves<Shared>(mc::pick(2, 3)); }
MC_SUITE(bfs_stack) { search<Nz::StackVector<mc::Elem>>(8); }
MC_SUITE(stackarray_elem) { stackArrays<mc::Elem>(mc::pick(4, 6)); }
MC_SUITE(stackarray_int) { stackArrays<int>(mc::pick(4, 6)); }
MC_SUITE(stack_moves_elem) { stackMoves<mc::Elem>(mc::pick(3, 4)); }
MC_SUITE(stack_moves_moveonly) { stackMoves<mc::MoveOnly>(mc::pick(3, 4)); }
MC_SUITE(stack_moves_string) { stackMoves<std::string>(mc::pick(2, 3)); }
MC_SUITE(array_moves_elem) { arrayMoves<mc::Elem>(MC_SAN ? 3 : mc::pick(4, 5)); }
MC_SUITE(array_moves_string) { arrayMoves<std::string>(mc::pick(3, 4)); }
MC_SUITE(stackmacros) { mc::pointName("size"); for (std::size_t n = 0; n <= 64; ++n) { mc::point(n); macros(n); } }
#endif
