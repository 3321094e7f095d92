// C08: an exception at every element operation and every allocation of every container operation.
#include "vec_common.hpp"
#include <NazaraUtils/MemoryPool.hpp>
#include <NazaraUtils/Bitset.hpp>
#include <map>

namespace
{
	template<typename V> void still(V& v, const char* what)
	{
		// basic guarantee: the container is consistent, and exactly its elements are alive
		const std::size_t n = v.size();
		MC_CHECK(v.empty() == (n == 0) && n <= v.capacity(), "fault-state", "%s: inconsistent size %zu after an exception", what, n);
		std::size_t seen = 0;
		for (auto& e : v) { (void)valueOf(e); ++seen; }
		MC_CHECK(seen == n, "fault-state", "%s: iteration visits %zu of %zu elements", what, seen, n);
		mc::lifeExpect(n, what);
	}

	// state (size, storage) x operation x fault position; `moves`: whether moves may throw is a property of the element
	template<typename V> void vectorFaults(bool allocations, bool moveOps)
	{
		using T = typename V::value_type;
		mc::forAll([&](mc::Exec& x)
		{
			mc::g_life.reset();
			std::size_t start = x.choose(unsigned(Traits<V>::Max) + 1);
			unsigned style = Traits<V>::Hybrid ? x.choose(2) : 0;
			mc::HeapScope heap;
			{
				std::unique_ptr<Box<V>> box = std::make_unique<Box<V>>();
				Model m; int next = 1;
				if constexpr (!Traits<V>::Stack) if (style) (*box)->reserve(Traits<V>::Inline + 1);
				for (std::size_t i = 0; i < start; ++i) { (*box)->emplace_back(next); m.push_back(next++); }
				auto ops = enabledOps<V>(m.size(), moveOps);
				const Op op = ops[x.choose(unsigned(ops.size()))];
				const Model before = m;
				// the position of the fault: one more choice per position, until the operation completes
				mc::u64 position = x.choose(64);
				const T* dataBefore = (*box)->data();
				std::size_t capBefore = (*box)->capacity();
				if (allocations) mc::g_heap.failAt = mc::i64(mc::g_heap.allocations + position);
				else mc::g_life.opsUntilFault = mc::i64(position);
				bool threw = false;
				try { applyOp<V>(box, m, op, next); }
				catch (const mc::Fault&) { threw = true; }
				catch (const std::bad_alloc&) { threw = true; }
				mc::g_life.opsUntilFault = -1;
				mc::g_heap.failAt = -1;
				x.step();
				if (!threw)
				{
					observe(**box, m, kindName(op.kind));
					mc::lifeExpect(m.size(), kindName(op.kind));
				}
				else if (box && box->v)
				{
					MC_NOTE("exception at position %llu", (unsigned long long)position);
					V& v = **box;
					still(v, kindName(op.kind));
					if ((op.kind == PushCopy || op.kind == PushMove || op.kind == EmplaceBack || op.kind == PushOwn || op.kind == EmplaceBackOwn) && before.size() < capBefore)
					{
						MC_CHECK(v.data() == dataBefore, "fault-state", "elements relocated");
						observe(v, before, "appending failed: nothing must change");
					}
					// still usable
					while (!v.empty()) v.pop_back();
					still(v, "pop_back after an exception");
					v.emplace_back(42);
					observe(v, Model{ 42 }, "emplace_back after an exception");
					v.clear();
					still(v, "clear after an exception");
				}
				box.reset();
				mc::lifeExpect(0, "destruction after an exception");
			}
			MC_CHECK(mc::g_heap.live == 0, "leak", "%lld heap blocks leaked after an exception", (long long)mc::g_heap.live);
		});
	}

	// copy construction and construction from elements: nothing survives a failed construction
	template<typename V> void constructionFaults(bool allocations)
	{
		using T = typename V::value_type;
		mc::forAll([&](mc::Exec& x)
		{
			mc::g_life.reset();
			{
				mc::HeapScope heap;
				Box<V> source;
				std::size_t n = x.choose(unsigned(Traits<V>::Max) + 1);
				if constexpr (Traits<V>::Hybrid) if (x.flip()) source->reserve(Traits<V>::Max);
				for (std::size_t i = 0; i < n; ++i) source->emplace_back(int(i));
				unsigned how = x.choose(4);
				mc::i64 position = x.choose(24);
				mc::i64 liveBlocks = mc::g_heap.live;
				bool threw = false;
				T value(5);
				if (allocations) mc::g_heap.failAt = mc::i64(mc::g_heap.allocations) + position;
				else mc::g_life.opsUntilFault = position;
				alignas(V) unsigned char place[sizeof(V)];
				V* v = nullptr;
				try
				{
					switch (how)
					{
						case 0: v = new (place) V(*source); break;
						case 1: v = new (place) V(source->begin(), source->end()); break;
						case 2: v = new (place) V(n, value); break;
						case 3: { V target; target.emplace_back(7); target = *source; v = new (place) V(std::move(target)); break; }
					}
				}
				catch (const mc::Fault&) { threw = true; }
				catch (const std::bad_alloc&) { threw = true; }
				mc::g_life.opsUntilFault = -1;
				mc::g_heap.failAt = -1;
				x.step();
				if (threw)
				{
					mc::lifeExpect(n + 1, "failed construction");
					MC_CHECK(mc::g_heap.live == liveBlocks, "leak", "a failed construction leaked memory");
					MC_CHECK(source->size() == n, "fault-state", "the source of a failed copy changed");
				}
				else
				{
					mc::lifeExpect(n + 1 + v->size(), "construction");
					MC_CHECK(v->size() == n, "size", "constructed %zu elements instead of %zu", v->size(), n);
					v->~V();
				}
			}
			mc::lifeExpect(0, "end");
		});
	}

	void stackArrayFaults()
	{
		mc::forAll([](mc::Exec& x)
		{
			mc::g_life.reset();
			using T = mc::ThrowingElem;
			std::size_t n = x.choose(6);
			mc::i64 position = x.choose(8);
			alignas(T) unsigned char memory[sizeof(T) * 8];
			bool threw = false;
			mc::g_life.opsUntilFault = position;
			try
			{
				Nz::StackArray<T> a(reinterpret_cast<T*>(memory), n);
				mc::g_life.opsUntilFault = -1;
				mc::lifeExpect(n, "construction");
			}
			catch (const mc::Fault&) { threw = true; }
			mc::g_life.opsUntilFault = -1;
			x.step();
			MC_CHECK(threw == (std::size_t(position) < n), "fault-state", "exception swallowed");
			mc::lifeExpect(0, "StackArray after an exception in a constructor");
		});
	}

	// MemoryPool: a throwing constructor or a failed allocation leaves the pool as it was
	template<std::size_t BlockSize> void poolFaults(bool allocations, unsigned depth)
	{
		mc::forAll([&](mc::Exec& x)
		{
			mc::g_life.reset();
			{
				mc::HeapScope heap;
				using T = mc::ThrowingElem;
				Nz::MemoryPool<T> pool(BlockSize);
				std::map<std::size_t, std::pair<T*, int>> live;
				int next = 1;
				bool fault = false;
				for (unsigned d = 0; d < depth; ++d)
				{
					unsigned n = unsigned(live.size());
					unsigned op = x.choose(2 + n);
					if (op >= 2)
					{
						auto it = live.begin(); std::advance(it, op - 2);
						MC_NOTE("free %zu", it->first);
						pool.Free(it->first);
						live.erase(it);
					}
					else if (op == 0 || fault)
					{
						std::size_t index = 12345;
						T* p = pool.Allocate(index, next);
						MC_CHECK(live.find(index) == live.end(), "index-reuse", "index %zu is already in use", index);
						live[index] = { p, next++ };
					}
					else
					{
						// one failing allocation per history
						fault = true;
						std::size_t index = 12345;
						MC_NOTE("failing allocation");
						if (allocations) mc::g_heap.failAt = mc::i64(mc::g_heap.allocations + x.choose(4)); else mc::g_life.opsUntilFault = 0;
						bool threw = false;
						T* p = nullptr;
						try { p = pool.Allocate(index, next); }
						catch (const mc::Fault&) { threw = true; }
						catch (const std::bad_alloc&) { threw = true; }
						mc::g_life.opsUntilFault = -1;
						mc::g_heap.failAt = -1;
						MC_CHECK(allocations || threw, "fault-state", "exception swallowed");
						if (!threw) live[index] = { p, next++ };
					}
					x.step();
					mc::lifeExpect(live.size(), "pool entries");
					std::size_t total = 0;
					for (std::size_t i = 0; i < pool.GetBlockCount(); ++i) { (void)i; ++total; }
					for (auto& [i, e] : live) MC_CHECK(e.first->get() == e.second && pool.RetrieveFromIndex(i) == e.first, "content", "entry %zu damaged", i);
					std::size_t visited = 0;
					for (T& t : pool) { MC_CHECK(t.get() > 0, "content", "iteration visits a dead entry"); ++visited; }
					MC_CHECK(visited == live.size(), "iteration", "iteration visits %zu entries instead of %zu", visited, live.size());
					(void)total;
				}
			}
			mc::lifeExpect(0, "pool destruction");
		});
	}

	// Bitset: a failed growth leaves the bits readable and the object usable
	void bitsetFaults()
	{
		mc::forAll([](mc::Exec& x)
		{
			mc::HeapScope heap;
			using B = Nz::Bitset<Nz::UInt8>;
			{
				std::size_t n = x.choose(20);
				B b(n, true);
				unsigned op = x.choose(3);
				mc::g_heap.failAt = mc::i64(mc::g_heap.allocations + x.choose(3));
				bool threw = false;
				try
				{
					switch (op)
					{
						case 0: b.Resize(n + 40, true); break;
						case 1: b.Reserve(n + 200); break;
						case 2: { B c(b); b = B(100, false); b = c; break; }
					}
				}
				catch (const std::bad_alloc&) { threw = true; }
				mc::g_heap.failAt = -1;
				x.step();
				if (threw && op != 2)
					MC_CHECK(b.GetSize() == n && b.Count() == n, "fault-state", "bitset of %zu ones has size %zu and %zu ones after a failed growth", n, b.GetSize(), b.Count());
			}
			MC_CHECK(mc::g_heap.live == 0, "leak", "leak");
		});
	}
}

#if MC_PART == 0
MC_SUITE(fault_fixed) { vectorFaults<Nz::FixedVector<mc::ThrowingElem, 4>>(false, false); }
MC_SUITE(fault_fixed_moves) { vectorFaults<Nz::FixedVector<mc::ThrowingCopyElem, 4>>(false, true); }
MC_SUITE(fault_hybrid) { vectorFaults<Nz::HybridVector<mc::ThrowingElem, 2>>(false, false); }
MC_SUITE(fault_hybrid_copies) { vectorFaults<Nz::HybridVector<mc::ThrowingCopyElem, 2>>(false, false); }
MC_SUITE(fault_hybrid_alloc) { vectorFaults<Nz::HybridVector<mc::ThrowingElem, 2>>(true, false); }
MC_SUITE(fault_hybrid_alloc_nothrow) { vectorFaults<Nz::HybridVector<mc::Elem, 2>>(true, false); }
MC_SUITE(fault_stack) { vectorFaults<Nz::StackVector<mc::ThrowingElem>>(false, false); }
#else
MC_SUITE(fault_ctor_fixed) { constructionFaults<Nz::FixedVector<mc::ThrowingCopyElem, 4>>(false); }
MC_SUITE(fault_ctor_hybrid) { constructionFaults<Nz::HybridVector<mc::ThrowingCopyElem, 2>>(false); }
MC_SUITE(fault_ctor_hybrid_alloc) { constructionFaults<Nz::HybridVector<mc::Elem, 2>>(true); }
MC_SUITE(fault_stackarray) { stackArrayFaults(); }
MC_SUITE(fault_pool) { poolFaults<2>(false, MC_SAN ? mc::pick(5, 6) : mc::pick(7, 8)); }
MC_SUITE(fault_pool1) { poolFaults<1>(false, MC_SAN ? mc::pick(5, 6) : mc::pick(6, 7)); }
MC_SUITE(fault_pool_alloc) { poolFaults<2>(true, MC_SAN ? mc::pick(5, 6) : mc::pick(6, 7)); }
MC_SUITE(fault_bitset) { bitsetFaults(); }
#endif
