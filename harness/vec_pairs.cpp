// C06: copies, moves and swaps between vectors in every combination of storage states.
#include "vec_common.hpp"

namespace
{
	template<typename V> struct Pair
	{
		using T = typename V::value_type;
		static constexpr bool copyable = std::is_copy_constructible_v<T>;
		using Tr = Traits<V>;
		std::unique_ptr<mc::HeapScope> heap;
		std::unique_ptr<Box<V>> box[2];
		Model m[2];
		int next = 1;
		Pair() { mc::g_life.reset(); heap = std::make_unique<mc::HeapScope>(); for (auto& b : box) b = std::make_unique<Box<V>>(); }
		static constexpr unsigned LocalOps = 8;
		unsigned ops() const { return 2 * LocalOps + 10; }
		// a moved-from vector is valid but unspecified: whatever it holds must be alive and consistent
		void adopt(int i)
		{
			V& v = **box[i];
			m[i].clear();
			for (std::size_t k = 0; k < v.size(); ++k) m[i].push_back(valueOf(v[k]));
		}
		bool enabled(unsigned op) const
		{
			if (op < 2 * LocalOps)
			{
				int i = op / LocalOps;
				switch (op % LocalOps)
				{
					case 0: return m[i].size() < Tr::Max;
					case 1: return !m[i].empty();
					case 4: return m[i].size() < Tr::Max && m[i].size() < Tr::Inline + 1;
					case 5: return Tr::Hybrid && std::is_default_constructible_v<T>;
					case 6: return Tr::Hybrid;
					case 7: return !Tr::Stack;
				}
				return true;
			}
			op -= 2 * LocalOps;
			return op >= 5 || copyable;
		}
		void apply(unsigned op)
		{
			if (!enabled(op)) return;
			if (op < 2 * LocalOps)
			{
				int i = op / LocalOps;
				V& v = **box[i];
				int f = next++;
				switch (op % LocalOps)
				{
					case 0: MC_NOTE("%c.push_back(%d)", 'a' + i, f); v.push_back(make<T>(f)); m[i].push_back(f); break;
					case 1: MC_NOTE("%c.erase(begin)", 'a' + i); v.erase(v.begin()); m[i].erase(m[i].begin()); break;
					case 2: MC_NOTE("%c.clear()", 'a' + i); v.clear(); m[i].clear(); break;
					case 3: MC_NOTE("%c.clear(), push_back(%d)", 'a' + i, f); v.clear(); v.push_back(make<T>(f)); m[i] = { f }; break;
					case 4: MC_NOTE("%c.insert(begin, %d)", 'a' + i, f); v.insert(v.begin(), make<T>(f)); m[i].insert(m[i].begin(), f); break;
					case 5: MC_NOTE("%c.resize(%zu)", 'a' + i, Tr::Inline + 1); if constexpr (std::is_default_constructible_v<T>) { v.resize(Tr::Inline + 1); m[i].resize(Tr::Inline + 1); } break;
					case 6: MC_NOTE("%c.reserve(%zu)", 'a' + i, Tr::Inline + 2); v.reserve(Tr::Inline + 2); MC_CHECK(v.capacity() >= Tr::Inline + 2, "capacity", "capacity %zu after reserve(%zu)", v.capacity(), Tr::Inline + 2); break;
					case 7: MC_NOTE("%c.reserve(%zu)", 'a' + i, Tr::Inline); v.reserve(Tr::Inline); MC_CHECK(v.capacity() >= Tr::Inline, "capacity", "capacity %zu after reserve(%zu)", v.capacity(), Tr::Inline); break;
				}
			}
			else
			{
				op -= 2 * LocalOps;
				int to = op % 2, from = 1 - to;
				const auto copiesBefore = mc::g_life.copies + mc::g_life.copyAssigns;
				switch (op)
				{
					case 0: case 1: case 2: case 3: case 4:
						if constexpr (copyable)
						{
							if (op < 2) { MC_NOTE("%c = %c", 'a' + to, 'a' + from); const V& src = **box[from]; **box[to] = src; m[to] = m[from]; }
							else if (op < 4) { MC_NOTE("%c copy constructed from %c", 'a' + to, 'a' + from); box[to] = std::make_unique<Box<V>>(typename Box<V>::CopyTag{}, **box[from]); m[to] = m[from]; }
							else
							{
								MC_NOTE("c(a); a = b; b = c");
								V c(**box[0]); **box[0] = **box[1]; **box[1] = c; observe(c, m[0], "local copy"); std::swap(m[0], m[1]);
							}
						}
						break;
					case 5: case 6: MC_NOTE("%c = std::move(%c)", 'a' + to, 'a' + from); **box[to] = std::move(**box[from]); m[to] = m[from]; adopt(from); break;
					case 7: case 8: MC_NOTE("%c move constructed from %c", 'a' + to, 'a' + from); box[to] = std::make_unique<Box<V>>(std::move(**box[from])); m[to] = m[from]; adopt(from); break;
					case 9: MC_NOTE("std::swap(a, b)"); { using std::swap; swap(**box[0], **box[1]); } std::swap(m[0], m[1]); break;
				}
				// (a FixedVector has nothing to gain from copying elements whose move may throw, unlike a vector which grows)
				if (op >= 5 && (!Tr::Hybrid || std::is_nothrow_move_constructible_v<T>)) MC_CHECK(mc::g_life.copies + mc::g_life.copyAssigns == copiesBefore, "move-copies", "moving or swapping vectors copied elements");
			}
			for (int i = 0; i < 2; ++i) observe(**box[i], m[i], i ? "b" : "a");
			if constexpr (Tracked<T>) mc::lifeExpect(m[0].size() + m[1].size(), "pair");
		}
		std::string key()
		{
			std::string k;
			for (int i = 0; i < 2; ++i) k += std::to_string(m[i].size()) + "," + std::to_string((*box[i])->capacity()) + (isInline(**box[i]) ? "i " : "h ");
			return k;
		}
		void finish()
		{
			for (auto& b : box) b.reset();
			if constexpr (Tracked<T>) mc::lifeExpect(0, "after destruction");
		}
	};
	template<typename V> void sequences(unsigned depth)
	{
		mc::forAll([&](mc::Exec& x)
		{
			Pair<V> p;
			for (unsigned d = 0; d < depth; ++d) { unsigned op = x.choose(p.ops()); if (!p.enabled(op)) return; p.apply(op); x.step(); }
			mc::outcome(mc::hashString(p.key()));
			p.finish();
			MC_CHECK(true, "", " ");
		});
	}
	template<typename V> void search(unsigned depth) { mc::bfs<Pair<V>>(depth); }

	// every pair of states built directly x every two-vector operation, then everything destroyed
	template<typename V> void product(std::size_t maxSize)
	{
		using T = typename V::value_type;
		mc::forAll([&](mc::Exec& x)
		{
			Pair<V> p;
			for (int i = 0; i < 2; ++i)
			{
				std::size_t target = x.choose(unsigned(maxSize) + 1);
				unsigned style = Traits<V>::Hybrid ? x.choose(3) : 0; // natural, spilled first, grown then shrunk
				V& v = **p.box[i];
				if constexpr (!Traits<V>::Stack) if (style == 1) v.reserve(Traits<V>::Inline + 1);
				std::size_t extra = style == 2 ? Traits<V>::Inline + 1 : 0;
				for (std::size_t k = 0; k < target + extra; ++k) { v.push_back(make<T>(p.next)); p.m[i].push_back(p.next++); }
				for (std::size_t k = 0; k < extra; ++k) { v.pop_back(); p.m[i].pop_back(); }
			}
			for (unsigned d = 0; d < 2; ++d)
			{
				unsigned op = x.choose(p.ops() - 2 * Pair<V>::LocalOps) + 2 * Pair<V>::LocalOps;
				if (!p.enabled(op)) return;
				p.apply(op);
				x.step();
			}
			// moved-from vectors included, everything is still usable
			unsigned last = x.choose(2 * Pair<V>::LocalOps + 1);
			if (last < 2 * Pair<V>::LocalOps)
			{
				if (!p.enabled(last)) return;
				p.apply(last);
				x.step();
			}
			p.finish();
		});
	}
}

#if MC_PART == 0
MC_SUITE(pairs_hybrid_elem) { sequences<Nz::HybridVector<mc::Elem, 2>>(MC_SAN ? mc::pick(3, 4) : mc::pick(5, 6)); }
MC_SUITE(pairs_hybrid_string) { sequences<Nz::HybridVector<std::string, 2>>(MC_SAN ? mc::pick(3, 4) : mc::pick(4, 5)); }
MC_SUITE(product_hybrid_elem) { product<Nz::HybridVector<mc::Elem, 2>>(MC_SAN ? mc::pick(3, 4) : mc::pick(5, 7)); }
MC_SUITE(product_hybrid_string) { product<Nz::HybridVector<std::string, 2>>(MC_SAN ? mc::pick(3, 4) : 4); }
MC_SUITE(product_hybrid_wide) { product<Nz::HybridVector<Wide, 2>>(MC_SAN ? mc::pick(3, 4) : 4); }
MC_SUITE(product_hybrid_huge) { product<Nz::HybridVector<Huge, 2>>(MC_SAN ? 2 : mc::pick(3, 4)); }
MC_SUITE(product_hybrid_small) { product<Nz::HybridVector<Small, 5>>(MC_SAN ? 2 : mc::pick(6, 8)); }
MC_SUITE(product_hybrid_plain) { product<Nz::HybridVector<Plain, 3>>(MC_SAN ? 2 : mc::pick(4, 5)); }
MC_SUITE(product_hybrid_shared) { product<Nz::HybridVector<Shared, 2>>(MC_SAN ? 2 : mc::pick(3, 4)); }
MC_SUITE(product_hybrid_listed) { product<Nz::HybridVector<Listed, 2>>(MC_SAN ? 2 : mc::pick(3, 4)); }
MC_SUITE(bfs_hybrid_pair) { search<Nz::HybridVector<mc::Elem, 2>>(MC_SAN ? mc::pick(6, 9) : mc::pick(9, 14)); }
#else
MC_SUITE(pairs_hybrid_moveonly) { sequences<Nz::HybridVector<mc::MoveOnly, 2>>(MC_SAN ? mc::pick(3, 4) : mc::pick(5, 6)); }
MC_SUITE(pairs_fixed_elem) { sequences<Nz::FixedVector<mc::Elem, 3>>(MC_SAN ? mc::pick(3, 4) : mc::pick(5, 6)); }
MC_SUITE(product_fixed_elem) { product<Nz::FixedVector<mc::Elem, 5>>(5); }
MC_SUITE(product_fixed_throwing_elem) { product<Nz::FixedVector<mc::ThrowingElem, 3>>(3); }
MC_SUITE(product_fixed_throwing_moveonly) { product<Nz::FixedVector<ThrowingMoveOnly, 3>>(3); }
MC_SUITE(product_hybrid_throwing_elem) { product<Nz::HybridVector<mc::ThrowingElem, 2>>(MC_SAN ? mc::pick(3, 4) : 4); }
MC_SUITE(product_fixed_string) { product<Nz::FixedVector<std::string, 4>>(4); }
MC_SUITE(product_hybrid_nodefault) { product<Nz::HybridVector<NoDefault, 1>>(MC_SAN ? mc::pick(3, 4) : 4); }
MC_SUITE(product_fixed_huge) { product<Nz::FixedVector<Huge, 3>>(3); }
MC_SUITE(product_fixed_small) { product<Nz::FixedVector<Small, 9>>(9); }
MC_SUITE(product_fixed_plain) { product<Nz::FixedVector<Plain, 4>>(4); }
MC_SUITE(product_fixed_shared) { product<Nz::FixedVector<Shared, 3>>(3); }
MC_SUITE(product_fixed_listed) { product<Nz::FixedVector<Listed, 3>>(3); }
MC_SUITE(bfs_fixed_pair) { search<Nz::FixedVector<mc::Elem, 4>>(mc::pick(12, 16)); }
#endif
