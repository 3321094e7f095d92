// C09: MemoryPool histories against a map {index -> (address, value)}.
#include <NazaraUtils/MemoryPool.hpp>
#include "mc.hpp"
#include <map>

namespace
{
	// entry types: different sizes, so that slot strides, natural alignment and requested alignment all differ
	template<std::size_t Pad>
	struct Entry : mc::Elem
	{
		
		explicit Entry(int v) : mc::Elem(v) { std::memset(pad, v & 0xff, Pad); }
		char pad[Pad];
		bool intact() const { for (char c : pad) if (static_cast<unsigned char>(c) != static_cast<unsigned char>(value & 0xff)) return false; return true; }
		int Value() const { return get(); }
	};
	struct Tiny // 1 byte
	{
		unsigned char v;
		explicit Tiny(int x) : v(static_cast<unsigned char>(x)) { mc::lifeBorn(this); }
		~Tiny() { mc::lifeDead(this); }
		Tiny(const Tiny&) = delete;
		bool intact() const { return true; }
		int Value() const { mc::lifeUse(this, "read"); return v; }
	};

	struct List : mc::Listed // (entries are built from their arguments, not from a list of them)
	{
		List(int v) : mc::Listed(v) {}
		List(std::initializer_list<int> l) : mc::Listed(l.size() ? *l.begin() : 0) { nested = true; }
		bool intact() const { return !nested; }
		int Value() const { return get(); }
	};

	template<typename T, std::size_t Align, std::size_t BlockSize>
	struct PoolSys
	{
		using Pool = Nz::MemoryPool<T, Align>;
		struct Live { T* ptr; int value; };

		mc::HeapScope heap;
		std::unique_ptr<Pool> pool;
		std::map<std::size_t, Live> live;
		std::size_t blocks = 1;
		int nextValue = 1;
		unsigned maxLive;
		unsigned maxBlocks;

		PoolSys(unsigned MaxLive = 5, unsigned MaxBlocks = 4) : maxLive(MaxLive), maxBlocks(MaxBlocks)
		{
			mc::g_life.reset();
			pool = std::make_unique<Pool>(BlockSize);
			check("construction");
		}

		// op encoding: 0 alloc, 1 alloc deferred, 2 reset, 3 clear, 4 move construct, 5 move assign over a used pool,
		// 6 self-contained swap by moves, 7 self move, 8 swap with another pool, 9.. free k-th, then free k-th without destruction
		unsigned ops() const { return 9 + 2 * unsigned(std::min<std::size_t>(live.size(), 8)); }

		void record(std::size_t index, T* p, int v)
		{
			MC_CHECK(p != nullptr, "alloc", "allocation returned null");
			MC_CHECK(live.find(index) == live.end(), "index-reuse", "allocation returned index %zu, which a live entry still holds", index);
			if (live.size() == blocks * BlockSize)
				blocks++;
			MC_CHECK(index < blocks * BlockSize, "index-range", "index %zu outside of the %zu slots", index, blocks * BlockSize);
			live[index] = { p, v };
		}

		void apply(unsigned op)
		{
			int v = nextValue++;
			if (op == 0)
			{
				MC_NOTE("allocate(%d)", v);
				std::size_t index = 999999;
				T* p = pool->Allocate(index, v);
				record(index, p, v);
			}
			else if (op == 1)
			{
				MC_NOTE("allocate deferred, then construct(%d)", v);
				std::size_t index = 999999;
				T* p = pool->Allocate(Pool::DeferConstruct, index);
				{ mc::HeapPause hp; MC_CHECK(mc::g_life.live.count(p) == 0, "defer", "deferred allocation constructed the entry or returned a live entry's slot"); }
				new (p) T(v);
				record(index, p, v);
			}
			else if (op == 2)
			{
				MC_NOTE("reset");
				pool->Reset();
				live.clear();
			}
			else if (op == 3)
			{
				MC_NOTE("clear");
				pool->Clear();
				live.clear();
				blocks = 0;
			}
			else if (op == 4)
			{
				MC_NOTE("move construct a new pool, go on with it");
				auto moved = std::make_unique<Pool>(std::move(*pool));
				MC_CHECK(pool->GetAllocatedEntryCount() == 0, "moved-from", "a moved-from pool still counts %zu entries", pool->GetAllocatedEntryCount());
				MC_CHECK(pool->begin() == pool->end(), "moved-from", "a moved-from pool still iterates over entries");
				pool = std::move(moved);
			}
			else if (op == 5)
			{
				MC_NOTE("move assign over another pool that has three live entries and a hole");
				auto other = std::make_unique<Pool>(BlockSize + 1); // another block size
				std::size_t before = mc::g_life.live.size();
				std::size_t a, b, c, d;
				other->Allocate(a, 200); other->Allocate(b, 201); other->Allocate(c, 202); other->Allocate(d, 203);
				other->Free(b);
				*other = std::move(*pool);
				mc::lifeExpect(before, "entries of the pool that was overwritten by a move assignment");
				MC_CHECK(pool->GetAllocatedEntryCount() == 0, "moved-from", "a moved-from pool still counts %zu entries", pool->GetAllocatedEntryCount());
				pool = std::move(other);
			}
			else if (op == 6)
			{
				MC_NOTE("move out to a temporary pool and back");
				Pool tmp(std::move(*pool));
				*pool = std::move(tmp);
			}
			else if (op == 7)
			{
				MC_NOTE("move assign to itself");
				Pool& self = *pool;
				*pool = std::move(self);
			}
			else if (op == 8)
			{
				MC_NOTE("swap with another pool");
				auto other = std::make_unique<Pool>(BlockSize + 1);
				std::size_t index;
				T* p = other->Allocate(index, 200);
				std::swap(*pool, *other);
				MC_CHECK(pool->size() == 1 && pool->GetBlockSize() == BlockSize + 1 && pool->RetrieveFromIndex(index) == p && pool->RetrieveEntryIndex(p) == index && p->Value() == 200, "swap", "the swapped pool does not hold the entry of the other one");
				std::swap(pool, other);
			}
			else
			{
				unsigned k = (op - 9) / 2;
				bool noDestroy = (op - 9) % 2;
				auto it = std::next(live.begin(), k % live.size());
				MC_NOTE("free index %zu%s", it->first, noDestroy ? " (destroyed by the user)" : "");
				std::size_t before = mc::g_life.live.size();
				if (noDestroy)
				{
					it->second.ptr->~T();
					pool->Free(it->first, Pool::NoDestruction);
				}
				else
					pool->Free(it->first);
				mc::lifeExpect(before - 1, "after freeing one entry");
				live.erase(it);
			}
			check("after the operation");
		}

		void check(const char* when)
		{
			mc::HeapPause hp;
			mc::lifeExpect(live.size(), when);
			MC_CHECK(pool->GetBlockSize() == BlockSize, "block-size", "block size changed to %zu", pool->GetBlockSize());
			MC_CHECK(pool->GetAllocatedEntryCount() == live.size(), "count", "%zu allocated entries reported, %zu are", pool->GetAllocatedEntryCount(), live.size());
			MC_CHECK(pool->size() == live.size(), "count", "size() is %zu, expected %zu", pool->size(), live.size());
			MC_CHECK(pool->GetBlockCount() == blocks, "blocks", "%zu blocks, expected %zu", pool->GetBlockCount(), blocks);
			MC_CHECK(pool->GetFreeEntryCount() == blocks * BlockSize - live.size(), "count", "%zu free entries reported, %zu are", pool->GetFreeEntryCount(), blocks * BlockSize - live.size());
			std::map<std::uintptr_t, std::size_t> ranges;
			for (auto& [index, l] : live)
			{
				MC_CHECK(reinterpret_cast<std::uintptr_t>(l.ptr) % Align == 0 && reinterpret_cast<std::uintptr_t>(l.ptr) % alignof(T) == 0, "alignment", "entry %zu is misaligned", index);
				MC_CHECK(l.ptr->Value() == l.value && l.ptr->intact(), "content", "entry %zu holds %d, expected %d", index, l.ptr->Value(), l.value);
				MC_CHECK(pool->RetrieveFromIndex(index) == l.ptr, "lookup", "index %zu no longer designates its entry", index);
				MC_CHECK(std::as_const(*pool).RetrieveFromIndex(index) == l.ptr, "lookup", "index %zu (const) does not designate its entry", index);
				std::size_t back = pool->RetrieveEntryIndex(l.ptr);
				MC_CHECK(back == index, "reverse-lookup", "the entry of index %zu is reported at index %zu", index, back);
				ranges[reinterpret_cast<std::uintptr_t>(l.ptr)] = index;
			}
			std::uintptr_t end = 0;
			for (auto& [addr, index] : ranges)
			{
				MC_CHECK(addr >= end, "overlap", "entry %zu overlaps another entry", index);
				end = addr + sizeof(T);
			}
			alignas(T) static char foreign[sizeof(T)];
			MC_CHECK(pool->RetrieveEntryIndex(reinterpret_cast<const T*>(foreign)) == Pool::InvalidIndex, "foreign", "a foreign pointer was given an index");

			iterate(*pool);
			iterate(std::as_const(*pool));
			mc::outcome(mc::hashString(key()));
		}

		template<typename P>
		void iterate(P& p)
		{
			std::map<std::size_t, Live> left = live;
			std::size_t steps = 0;
			bool post = false;
			for (auto it = p.begin(); it != p.end(); post = !post)
			{
				auto node = left.find(it.GetIndex());
				MC_CHECK(node != left.end(), "iteration", "iteration visits index %zu, which is not live or was already visited", it.GetIndex());
				MC_CHECK(&*it == node->second.ptr, "iteration", "iterator at index %zu designates another entry", it.GetIndex());
				left.erase(node);
				MC_CHECK(++steps <= live.size(), "iteration", "iteration visits too many entries");
				if (post)
				{
					auto before = it;
					auto old = it++;
					MC_CHECK(old == before, "iteration", "it++ does not return the previous position");
				}
				else
				{
					auto& r = ++it;
					MC_CHECK(&r == &it, "iteration", "++it does not return it");
				}
			}
			MC_CHECK(left.empty(), "iteration", "iteration skips %zu live entries (first: index %zu)", left.size(), left.begin()->first);
			// iterators are equal when they designate the same entry
			std::vector<decltype(p.begin())> all;
			for (auto it = p.begin(); it != p.end(); ++it) all.push_back(it);
			all.push_back(p.end());
			for (std::size_t i = 0; i < all.size(); ++i)
				for (std::size_t j = 0; j < all.size(); ++j)
					MC_CHECK((all[i] == all[j]) == (i == j) && (all[i] != all[j]) == (i != j), "iterator-equality", "iterators to the %zu-th and %zu-th of %zu entries compare %s", i, j, all.size() - 1, all[i] == all[j] ? "equal" : "different");
			if (all.size() > 1) { auto it = all[0]; it = all[all.size() - 2]; auto copy(it); MC_CHECK(it == copy && copy == all[all.size() - 2] && copy.GetIndex() == it.GetIndex(), "iterator-equality", "copied iterator"); }
			MC_CHECK(p.cbegin() == std::as_const(p).begin() && p.cend() == std::as_const(p).end(), "iteration", "cbegin/cend disagree");
		}

		std::string key() const
		{
			std::string k = std::to_string(blocks) + ":";
			for (auto& [index, l] : live) k += std::to_string(index) + ",";
			return k;
		}

		void finish()
		{
			{ mc::HeapPause hp; MC_NOTE("destroy the pool"); }
			pool.reset();
			mc::lifeExpect(0, "after destroying the pool");
			{ mc::HeapPause hp; std::map<std::size_t, Live>().swap(live); }
			MC_CHECK(true, "", "%s", "");
		}
	};

	// histories without merging equal-looking states: hidden bookkeeping cannot hide behind the abstraction
	template<typename T, std::size_t Align, std::size_t BlockSize>
	void sequences(unsigned depth)
	{
		mc::forAll([&](mc::Exec& x)
		{
			PoolSys<T, Align, BlockSize> sys;
			for (unsigned i = 0; i < depth; ++i)
			{
				sys.apply(x.choose(sys.ops()));
				x.step();
			}
			sys.finish();
		});
	}

	// large blocks: fill past a block boundary, free an arbitrary pair, refill
	template<typename T, std::size_t Align, std::size_t BlockSize>
	void holes(unsigned fill, bool everywhere)
	{
		// positions around the boundaries of the blocks and of the words of their bitsets
		std::vector<unsigned> positions;
		for (unsigned i = 0; i < fill; ++i)
		{
			unsigned local = i % BlockSize;
			if (everywhere || i + 1 >= fill || local <= 1 || local + 1 >= BlockSize || (local + 1) % 32 <= 1)
				positions.push_back(i);
		}
		mc::forAll([&](mc::Exec& x)
		{
			unsigned n = unsigned(positions.size());
			unsigned a = positions[x.choose(n)], b = positions[x.choose(n)], tail = x.choose(4), how = x.choose(4);
			mc::HeapScope heap;
			mc::g_life.reset();
			using Pool = Nz::MemoryPool<T, Align>;
			mc::HeapPause hp;
			Pool pool(BlockSize);
			std::map<std::size_t, T*> live;
			for (unsigned i = 0; i < fill; ++i)
			{
				std::size_t index; T* p = pool.Allocate(index, int(i));
				MC_CHECK(live.emplace(index, p).second, "index-reuse", "index %zu given twice", index);
			}
			auto verify = [&]
			{
				MC_CHECK(pool.size() == live.size(), "count", "size %zu expected %zu", pool.size(), live.size());
				std::size_t n = 0;
				for (auto it = pool.begin(); it != pool.end(); ++it, ++n)
				{
					auto f = live.find(it.GetIndex());
					MC_CHECK(f != live.end() && f->second == &*it, "iteration", "iteration visits index %zu wrongly", it.GetIndex());
				}
				MC_CHECK(n == live.size(), "iteration", "iteration visits %zu entries of %zu", n, live.size());
				for (auto& [i, p] : live)
					MC_CHECK(pool.RetrieveFromIndex(i) == p && pool.RetrieveEntryIndex(p) == i, "lookup", "index %zu does not round-trip", i);
				mc::lifeExpect(live.size(), "large pool");
			};
			auto freeAt = [&](unsigned i, bool noDestroy) { auto it = live.find(i); if (it != live.end()) { MC_NOTE("free %u%s", i, noDestroy ? " (destroyed by the user)" : ""); if (noDestroy) { it->second->~T(); pool.Free(i, Pool::NoDestruction); } else pool.Free(i); live.erase(it); x.step(); } };
			freeAt(a, how % 2); freeAt(b, how / 2);
			verify();
			if (tail >= 2)
			{
				MC_NOTE("reset and refill");
				pool.Reset(); live.clear(); verify();
			}
			std::size_t blocks = pool.GetBlockCount();
			std::size_t capacity = blocks * BlockSize;
			std::size_t target = (tail % 2) ? capacity : capacity + 1;
			while (live.size() < target)
			{
				std::size_t index; T* p = pool.Allocate(index, 7);
				MC_CHECK(live.emplace(index, p).second, "index-reuse", "index %zu given twice", index);
				x.step();
			}
			MC_CHECK(pool.GetBlockCount() == blocks + (tail % 2 ? 0 : 1), "blocks", "%zu blocks after filling %zu slots of %zu", pool.GetBlockCount(), live.size(), capacity);
			verify();
			mc::outcome(mc::mix(a * 1000 + b, tail));
		});
		mc::lifeExpect(0, "after the pools died");
	}
}

// mc::Elem is 16 bytes
MC_SUITE(bfs_block1) { mc::bfs<PoolSys<Entry<4>, alignof(Entry<4>), 1>>(mc::pick(10, 16)); }
MC_SUITE(bfs_block2) { mc::bfs<PoolSys<Entry<4>, alignof(Entry<4>), 2>>(mc::pick(10, 16)); }
MC_SUITE(bfs_block3_over) { mc::bfs<PoolSys<Entry<1>, 64, 3>>(mc::pick(10, 16)); }
MC_SUITE(bfs_block4_tiny) { mc::bfs<PoolSys<Tiny, 1, 4>>(mc::pick(10, 16)); }
MC_SUITE(bfs_block2_tiny_over) { mc::bfs<PoolSys<Tiny, 16, 2>>(mc::pick(10, 16)); }
MC_SUITE(bfs_block2_list) { mc::bfs<PoolSys<List, alignof(List), 2>>(mc::pick(7, 9)); }
MC_SUITE(seq_block1) { sequences<Entry<4>, alignof(Entry<4>), 1>(MC_SAN ? mc::pick(4, 5) : mc::pick(6, 7)); }
MC_SUITE(seq_block2) { sequences<Entry<4>, alignof(Entry<4>), 2>(MC_SAN ? mc::pick(4, 5) : mc::pick(6, 7)); }
MC_SUITE(seq_block3_over) { sequences<Entry<1>, 64, 3>(MC_SAN ? mc::pick(4, 5) : mc::pick(6, 7)); }
MC_SUITE(holes_64) { holes<Entry<4>, alignof(Entry<4>), 64>(130, mc::thorough()); }
MC_SUITE(holes_65_over) { holes<Entry<4>, 128, 65>(132, mc::thorough()); }
MC_SUITE(holes_130_tiny) { holes<Tiny, 2, 130>(262, mc::thorough()); }
MC_SUITE(holes_1) { holes<Tiny, 1, 1>(6, true); }
MC_SUITE(holes_7) { holes<Entry<40>, 32, 7>(22, true); }

// entries which use their own pool: nodes allocating their children when built and freeing them when destroyed
namespace
{
	struct Node;
	using Nodes = Nz::MemoryPool<Node, 16>; // Node is incomplete
	struct Node
	{
		mc::Elem token; Nodes* pool; std::vector<std::size_t> children; std::size_t extra; bool birth;
		// `shape`: the number of children, `depth`: the generations below; `late`: allocates an entry when destroyed
		Node(Nodes* p, int id, unsigned shape, unsigned depth, bool late) : token(id), pool(p), extra(~std::size_t(0)), birth(late)
		{
			if (!depth) return;
			for (unsigned i = 0; i < shape; ++i) { std::size_t index; pool->Allocate(index, pool, id * 10 + int(i), shape, depth - 1, late && i == 0); children.push_back(index); }
		}
		~Node()
		{
			token.get();
			if (birth) { birth = false; pool->Allocate(extra, pool, -1, 0u, 0u, false); }
			for (std::size_t c : children) pool->Free(c);
			if (extra != ~std::size_t(0)) { MC_CHECK(pool->RetrieveFromIndex(extra)->token.get() == -1, "content", "an entry allocated by a destructor"); pool->Free(extra); }
		}
	};
	void nodes(unsigned depth, unsigned maxShape, bool lateDestructors)
	{
		mc::forAll([&](mc::Exec& x)
		{
			mc::g_life.reset();
			const std::size_t blockSize = 1 + x.choose(4);
			{
				Nodes pool(blockSize);
				struct Root { std::size_t index; int id; unsigned shape, depth; Node* ptr; };
				std::vector<Root> roots;
				std::size_t peak = 0; int next = 1;
				auto countOf = [](const Root& r) { std::size_t n = 1, level = 1; for (unsigned d = 0; d < r.depth; ++d) { level *= r.shape; n += level; } return n; };
				auto verify = [&]
				{
					std::size_t total = 0;
					std::map<std::size_t, Node*> live;
					std::function<void(Node*, std::size_t, int, unsigned, unsigned)> walk = [&](Node* n, std::size_t index, int id, unsigned shape, unsigned d)
					{
						MC_CHECK(live.emplace(index, n).second, "index-reuse", "index %zu held by two live entries", index);
						MC_CHECK(n->token.get() == id && pool.RetrieveEntryIndex(n) == index, "content", "entry %zu holds %d, expected %d", index, n->token.get(), id);
						MC_CHECK(n->children.size() == (d ? shape : 0), "content", "entry %zu lost its children", index);
						for (std::size_t i = 0; i < n->children.size(); ++i) walk(pool.RetrieveFromIndex(n->children[i]), n->children[i], id * 10 + int(i), shape, d - 1);
					};
					for (auto& r : roots) { total += countOf(r); MC_CHECK(pool.RetrieveFromIndex(r.index) == r.ptr, "lookup", "index %zu", r.index); walk(r.ptr, r.index, r.id, r.shape, r.depth); }
					peak = std::max(peak, total);
					mc::lifeExpect(total, "nodes alive");
					MC_CHECK(pool.GetAllocatedEntryCount() == total && pool.size() == total, "count", "%zu entries reported, %zu are live", pool.GetAllocatedEntryCount(), total);
					MC_CHECK(pool.GetFreeEntryCount() == pool.GetBlockCount() * blockSize - total, "count", "free entries");
					std::size_t seen = 0;
					for (auto it = pool.begin(); it != pool.end(); ++it, ++seen) MC_CHECK(live.count(it.GetIndex()) && live[it.GetIndex()] == &*it, "iteration", "iteration visits index %zu", it.GetIndex());
					MC_CHECK(seen == total, "iteration", "iteration visits %zu entries of %zu", seen, total);
				};
				for (unsigned i = 0; i < depth; ++i)
				{
					const unsigned what = x.choose(1 + unsigned(roots.size()));
					if (what == 0)
					{
						Root r{ 12345, next++, x.choose(maxShape + 1), 1 + x.choose(2), nullptr };
						const bool late = lateDestructors && x.flip();
						MC_NOTE("allocate a node with %u generations of %u children%s", r.depth, r.shape, late ? ", allocating when destroyed" : "");
						r.ptr = pool.Allocate(r.index, &pool, r.id, r.shape, r.depth, late);
						roots.push_back(r);
					}
					else
					{
						MC_NOTE("free the node of index %zu", roots[what - 1].index);
						pool.Free(roots[what - 1].index);
						roots.erase(roots.begin() + (what - 1));
					}
					x.step();
					verify();
				}
				mc::outcome(pool.GetBlockCount());
				while (!roots.empty()) { pool.Free(roots.back().index); roots.pop_back(); verify(); }
			}
			mc::lifeExpect(0, "destruction of the pool");
		});
	}
}
MC_SUITE(nodes) { nodes(mc::pick(MC_SAN ? 3u : 4u, MC_SAN ? 4u : 5u), 2, mc::thorough()); }
// the destructors allocate as well
MC_SUITE(nodes_late) { nodes(mc::pick(MC_SAN ? 2u : 3u, 4u), 2, true); }
