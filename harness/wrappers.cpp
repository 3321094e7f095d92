// C20 PrivateImpl (part 0), C21 CallOnExit (part 1), C22 MovablePtr / MovableLiteral / MovableValue (part 2), C23 FunctionRef (part 3)
#include <NazaraUtils/PrivateImpl.hpp>
#include <NazaraUtils/CallOnExit.hpp>
#include <NazaraUtils/MovableValue.hpp>
#include <NazaraUtils/MovablePtr.hpp>
#include <NazaraUtils/FunctionRef.hpp>
#include "mc.hpp"
#include <exception>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <vector>

namespace
{
#if MC_PART == 0
	// a type which can be copied but not assigned
	template<typename Base> struct NoAssign : Base
	{
		using Base::Base;
		NoAssign(const NoAssign&) = default;
		NoAssign(NoAssign&&) = default;
		NoAssign& operator=(const NoAssign&) = delete;
		NoAssign& operator=(NoAssign&&) = delete;
	};
	struct alignas(64) Aligned : mc::Elem { using mc::Elem::Elem; };
	// trivially destructible, yet moved from and copied in its own ways
	struct Flat
	{
		int value; unsigned copies = 0;
		Flat(int v = 0) : value(v) {}
		Flat(const Flat& o) : value(o.value), copies(o.copies + 1) {}
		Flat(Flat&& o) noexcept : value(o.value), copies(o.copies) { o.value = mc::MovedFrom; }
		Flat& operator=(const Flat& o) { value = o.value; copies = o.copies + 1; return *this; }
		Flat& operator=(Flat&& o) noexcept { int v = o.value; o.value = mc::MovedFrom; value = v; copies = o.copies; return *this; }
		int get() const { return value; }
	};
	// two arguments, one of them being a pimpl-like thing: the variadic constructor must forward
	struct Pair : mc::Elem { int second; Pair(int a, std::unique_ptr<int> b) : mc::Elem(a), second(*b) {} };

	// pimpls live in an aligned buffer guarded by canaries
	template<typename P> struct Holder
	{
		unsigned char before[64];
		alignas(P) unsigned char buffer[sizeof(P)];
		unsigned char after[64];
		P* p = nullptr;
		Holder() { std::memset(before, 0xA5, sizeof before); std::memset(after, 0xA5, sizeof after); std::memset(buffer, 0xCD, sizeof buffer); }
		void guard() { for (unsigned char c : before) MC_CHECK(c == 0xA5, "overflow", "bytes before the object were written"); for (unsigned char c : after) MC_CHECK(c == 0xA5, "overflow", "bytes after the object were written"); }
		template<typename... A> void make(A&&... a) { p = new (buffer) P(std::forward<A>(a)...); }
		~Holder() { if (p) p->~P(); guard(); }
	};

	template<typename T, std::size_t Size, std::size_t Align, bool Throwing, bool Copyable = true> struct Checker
	{
		using P = Nz::PrivateImpl<T, Size, Align>;
		static constexpr bool Heap = Size == 0;
		struct Model { bool has; int v; bool moved; };

		static void observe(P& p, const Model& m, const char* what)
		{
			const P& c = p;
			if constexpr (Heap) MC_CHECK(c.HasValue() == m.has && static_cast<bool>(c) == m.has && (p.Get() != nullptr) == m.has && (c.Get() != nullptr) == m.has, "state", "%s: HasValue is %d, expected %d", what, c.HasValue(), m.has);
			T* raw = p; const T* craw = c;
			MC_CHECK(raw == p.Get() && craw == p.Get() && c.Get() == p.Get(), "access", "%s: accessors disagree", what);
			if (!m.has) return;
			int want = m.moved ? mc::MovedFrom : m.v;
			MC_CHECK(reinterpret_cast<std::uintptr_t>(p.Get()) % alignof(T) == 0, "alignment", "%s: misaligned object", what);
			if (!Heap)
			{
				auto a = reinterpret_cast<std::uintptr_t>(p.Get()), b = reinterpret_cast<std::uintptr_t>(&p);
				MC_CHECK(a >= b && a + sizeof(T) <= b + sizeof(P), "in-place", "%s: the object is not inside", what);
			}
			MC_CHECK(&*p == p.Get() && &*c == p.Get() && p.operator->() == p.Get() && c.operator->() == p.Get(), "access", "%s: accessors disagree", what);
			MC_CHECK(p->get() == want && (*c).get() == want, "value", "%s: the value is %d, expected %d", what, p->get(), want);
		}
		// all the sequences of operations on two objects
		static void run(unsigned depth)
		{
			mc::forAll([&](mc::Exec& x)
			{
				mc::g_life.reset();
				mc::HeapScope heap;
				{
					std::optional<Holder<P>> ha, hb;
					ha.emplace(); hb.emplace();
					Model ma{}, mb{};
					int next = 1;
					auto init = [&](Holder<P>& h, Model& m)
					{
						unsigned way = x.choose(Heap ? 3 : 1);
						MC_NOTE("constructed (way %u)", way);
						m = Model{ true, next, false };
						if constexpr (Heap)
						{
							if (way == 1) { h.make(nullptr); m.has = false; return; }
							if (way == 2) { h.make(new T(next++)); return; }
						}
						h.make(next++);
					};
					init(*ha, ma); init(*hb, mb);
					observe(*ha->p, ma, "a"); observe(*hb->p, mb, "b");
					for (unsigned s = 0; s < depth; ++s)
					{
						P& a = *ha->p; P& b = *hb->p;
						switch (x.choose(Heap ? 9 : 6))
						{
							case 0: if constexpr (Copyable) { MC_NOTE("a = b"); P& r = (a = b); MC_CHECK(&r == &a, "assign", "operator= result"); ma = mb; } break;
							case 1:
							{
								MC_NOTE("a = move(b)");
								T* const target = b.Get();
								P& r = (a = std::move(b)); MC_CHECK(&r == &a, "assign", "operator= result");
								if (Heap) MC_CHECK(a.Get() == target, "identity", "moving an allocated object changes its address");
								if (Heap) { Model old = ma; ma = mb; mb = b.Get() ? old : Model{ false, 0, false }; if (b.Get()) MC_CHECK(old.has, "state", "an object appeared in a moved pimpl"); }
								else { ma = mb; mb.moved = true; }
								break;
							}
							case 2: if constexpr (Copyable) { MC_NOTE("a = a"); P& self = a; a = self; } break;
							case 3: { MC_NOTE("a = move(a)"); P& self = a; a = std::move(self); break; }
							case 4: { if constexpr (Copyable) { MC_NOTE("a(copy of b)"); ha.emplace(); const P& src = x.flip() ? static_cast<const P&>(b) : b; if (&src == &b && x.flip()) ha->make(b); else ha->make(src); ma = mb; } break; }
							case 5: { MC_NOTE("a(moved from b)"); ha.emplace(); T* const target = b.Get(); ha->make(std::move(b)); if (Heap) MC_CHECK(ha->p->Get() == target, "identity", "moving an allocated object changes its address"); ma = mb; if (Heap) { mb = Model{ false, 0, false }; } else mb.moved = true; break; }
							case 6: if constexpr (Heap) { MC_NOTE("reset a"); a.Reset(); ma.has = false; } break;
							case 7: if constexpr (Heap) if (!ma.has) { MC_NOTE("emplace a"); T& t = a.Emplace(next); MC_CHECK(&t == a.Get(), "emplace", "Emplace result"); ma = Model{ true, next++, false }; } break;
							case 8: { MC_NOTE("swap"); std::swap(a, b); std::swap(ma, mb); break; }
						}
						x.step();
						observe(*ha->p, ma, "a"); observe(*hb->p, mb, "b");
						ha->guard(); hb->guard();
						if constexpr (!std::is_trivially_destructible_v<T>) mc::lifeExpect(ma.has + mb.has, "two objects");
					}
					mc::outcome(mc::u64(ma.has) * 8 + mb.has * 4 + ma.moved * 2 + mb.moved + mc::u64(ma.v) * 4096 + mc::u64(mb.v) * 16);
				}
				mc::lifeExpect(0, "destruction");
				MC_CHECK(mc::g_heap.live == 0, "leak", "heap blocks leaked");
			});
		}
		// every operation with an exception at each of its points (element operations, allocations)
		static void faults()
		{
			mc::forAll([&](mc::Exec& x)
			{
				mc::g_life.reset();
				mc::HeapScope heap;
				bool hasA = true, hasB = true, threw = false;
				{
					if (Heap) { hasA = x.flip(); hasB = x.flip(); }
					Holder<P> ha, hb, hc;
					if constexpr (Heap) { if (hasA) ha.make(1); else ha.make(nullptr); if (hasB) hb.make(2); else hb.make(nullptr); }
					else { ha.make(1); hb.make(2); }
					unsigned op = x.choose(4);
					bool alloc = x.flip();
					unsigned pos = x.choose(4);
					MC_NOTE("operation %u, %s fault %u", op, alloc ? "allocation" : "element", pos);
					if (alloc) mc::g_heap.failAt = mc::i64(mc::g_heap.allocations + pos); else mc::g_life.opsUntilFault = mc::i64(pos);
					try
					{
						switch (op)
						{
							case 0: *ha.p = *hb.p; break;
							case 1: hc.make(*hb.p); break;
							case 2: hc.make(5); break;
							case 3: if constexpr (Heap) if (!hasA) ha.p->Emplace(6); break;
						}
					}
					catch (const mc::Fault&) { threw = true; } catch (const std::bad_alloc&) { threw = true; }
					mc::g_heap.failAt = -1; mc::g_life.opsUntilFault = -1;
					x.step();
					if (threw)
					{
						observe(*ha.p, Model{ hasA, 1, false }, "a after an exception"); observe(*hb.p, Model{ hasB, 2, false }, "b after an exception");
						MC_CHECK(!hc.p, "fault-state", "constructor threw");
						mc::lifeExpect(hasA + hasB, "after an exception");
					}
				}
				mc::lifeExpect(0, "destruction after an exception");
				MC_CHECK(mc::g_heap.live == 0, "leak", "heap blocks leaked after an exception");
			});
		}
	};
#elif MC_PART == 1
	struct Boom {};
	// move-only functor whose live instances are tracked; an instance which has been moved from must never be called
	struct Fn
	{
		mc::Elem tag; std::vector<int>* log; bool throws = false; std::function<void()> reenter;
		Fn(int id, std::vector<int>* l) : tag(id), log(l) {}
		Fn(Fn&&) = default; Fn& operator=(Fn&&) = default;
		void operator()() { log->push_back(tag.get()); if (reenter) { auto r = reenter; r(); } if (throws) throw Boom{}; }
	};
	struct Model { bool has = false; int id = 0; };
	void callOnExit(unsigned depth)
	{
		mc::forAll([&](mc::Exec& x)
		{
			mc::g_life.reset();
			mc::HeapScope heap;
			{
				using C = Nz::CallOnExit<Fn>;
				std::vector<int> log, want;
				int next = 1;
				std::unique_ptr<C> c[2]; Model m[2];
				auto check = [&](const char* what) { MC_CHECK(log == want, "calls", "%s: %zu calls (last %d), expected %zu (last %d)", what, log.size(), log.empty() ? 0 : log.back(), want.size(), want.empty() ? 0 : want.back()); mc::lifeExpect(m[0].has + m[1].has, what); };
				for (int i = 0; i < 2; ++i)
				{
					if (x.flip()) { c[i] = std::make_unique<C>(Fn(next, &log)); m[i] = Model{ true, next++ }; }
					else { c[i] = std::make_unique<C>(); m[i] = Model{}; }
				}
				check("construction");
				for (unsigned s = 0; s < depth; ++s)
				{
					unsigned i = x.choose(2);
					switch (x.choose(9))
					{
						case 0: MC_NOTE("%u.Reset", i); c[i]->Reset(); m[i].has = false; break;
						case 1: MC_NOTE("%u.CallAndReset", i); if (m[i].has) want.push_back(m[i].id); c[i]->CallAndReset(); m[i].has = false; break;
						case 2: MC_NOTE("destroy and recreate %u", i); if (m[i].has) want.push_back(m[i].id); c[i].reset(); m[i].has = false; check("destruction"); c[i] = std::make_unique<C>(Fn(next, &log)); m[i] = Model{ true, next++ }; break;
						case 3:
							// a replaced pending call is either made or dropped (once); the source no longer calls
							MC_NOTE("%u = move(%u)", i, 1 - i);
							*c[i] = std::move(*c[1 - i]);
							if (m[i].has && log.size() == want.size() + 1) want.push_back(m[i].id);
							m[i] = m[1 - i]; m[1 - i].has = false;
							break;
						case 4: { MC_NOTE("%u = itself", i); C& self = *c[i]; *c[i] = std::move(self); break; }
						case 5:
						{
							MC_NOTE("CallAndReset of a throwing function");
							Fn f(next, &log); f.throws = true;
							bool caught = false;
							{
								C t(std::move(f));
								try { t.CallAndReset(); } catch (const Boom&) { caught = true; }
								MC_CHECK(caught, "throw", "the exception of the function is lost");
							}
							want.push_back(next++);
							break;
						}
						case 6: case 7: case 8:
						{
							// functions which use their own object
							unsigned kind = x.choose(3);
							MC_NOTE("function which %s its own object", kind == 0 ? "resets" : kind == 1 ? "calls and resets" : "reassigns");
							Fn f(next, &log);
							std::unique_ptr<C> t; C* raw = nullptr;
							bool nested = false;
							f.reenter = [&, kind] { if (nested) return; nested = true; if (kind == 0) raw->Reset(); else if (kind == 1) raw->CallAndReset(); else raw->Reset(); };
							t = std::make_unique<C>(std::move(f)); raw = t.get();
							t->CallAndReset();
							want.push_back(next++);
							t.reset();
							break;
						}
					}
					x.step();
					check("operation");
				}
				for (int i = 0; i < 2; ++i) { if (m[i].has) want.push_back(m[i].id); c[i].reset(); m[i].has = false; check("end"); }
				mc::u64 h = 0; for (int v : log) h = h * 31 + mc::u64(v);
				mc::outcome(h);
			}
			mc::lifeExpect(0, "destruction");
		});
	}
	// scopes: nested defers run in the reverse order, once, on every way out
	int scopes(unsigned exits, unsigned exitAt, std::vector<int>& log, std::vector<int>& want, unsigned level)
	{
		NAZARA_DEFER(log.push_back(int(level * 10)););
		NAZARA_DEFER({ log.push_back(int(level * 10 + 1)); });
		struct Expect { std::vector<int>& w; unsigned l; ~Expect() { w.push_back(int(l * 10 + 1)); w.push_back(int(l * 10)); } };
		if (level == exitAt)
		{
			Expect e{ want, level };
			if (exits == 0) return 1;
			if (exits == 1) throw Boom{};
			for (;;) { NAZARA_DEFER(log.push_back(99);); if (exits == 2) break; }
			want.push_back(99);
			return 2;
		}
		Nz::CallOnExit counted([&] { log.push_back(int(level * 10 + 2)); });
		auto before = [&] { want.push_back(int(level * 10 + 2)); want.push_back(int(level * 10 + 1)); want.push_back(int(level * 10)); };
		try { int r = scopes(exits, exitAt, log, want, level + 1); before(); return r; }
		catch (...) { before(); throw; }
	}
#elif MC_PART == 2
	template<typename P> void observePtr(const P& p, int* want, const char* what)
	{
		int* raw = p;
		MC_CHECK(p.Get() == want && raw == want && p.operator->() == want, "pointer", "%s: unexpected pointer", what);
	}
	void movablePtr(unsigned depth)
	{
		mc::forAll([&](mc::Exec& x)
		{
			using P = Nz::MovablePtr<int>;
			int targets[3];
			int* vals[4] = { nullptr, &targets[0], &targets[1], &targets[2] };
			int* ma = vals[x.choose(4)]; int* mb = vals[x.choose(4)];
			P a(ma), b = mb;
			{ P d; observePtr(d, nullptr, "default"); }
			for (unsigned s = 0; s < depth; ++s)
			{
				switch (x.choose(8))
				{
					case 0: { P& r = (a = b); MC_CHECK(&r == &a, "assign", "result"); ma = mb; break; }
					case 1: { int* old = ma; a = std::move(b); ma = mb; mb = b.Get(); MC_CHECK(mb == nullptr || mb == old, "moved-from", "the source of a move assignment still points to the target's object"); break; }
					case 2: { int* v = vals[x.choose(4)]; P& r = (a = v); MC_CHECK(&r == &a, "assign", "result"); ma = v; break; }
					case 3: { P c(a); observePtr(c, ma, "copy"); const P k(c); P d(k); observePtr(d, ma, "copy of const"); break; }
					case 4: { P c(std::move(a)); observePtr(c, ma, "move"); observePtr(a, nullptr, "moved from"); ma = nullptr; break; }
					case 5: { P& self = a; a = self; break; }
					case 6: { P& self = a; a = std::move(self); break; }
					case 7: { std::swap(a, b); std::swap(ma, mb); break; }
				}
				x.step();
				observePtr(a, ma, "a"); observePtr(b, mb, "b");
			}
			mc::outcome((ma ? mc::u64(ma - targets) + 1 : 0) * 8 + (mb ? mc::u64(mb - targets) + 1 : 0));
		});
	}
	template<typename T, T Default> void movableLiteral(const std::vector<T>& values, unsigned depth)
	{
		mc::forAll([&](mc::Exec& x)
		{
			using L = Nz::MovableLiteral<T, Default>;
			auto is = [](L& l, T v, const char* what)
			{
				const L& c = l;
				T& r = l; const T& k = c;
				MC_CHECK(l.Get() == v && c.Get() == v && r == v && k == v && &r == &l.Get() && &k == &l.Get() && &c.Get() == &l.Get(), "value", "%s: unexpected value", what);
				T&& m = std::move(l).Get(); T&& n = static_cast<T&&>(std::move(l));
				MC_CHECK(&m == &l.Get() && &n == &l.Get(), "value", "%s: rvalue access", what);
			};
			T ma = values[x.choose(unsigned(values.size()))], mb = values[x.choose(unsigned(values.size()))];
			L a(ma), b = mb;
			{ L d; is(d, Default, "default"); }
			for (unsigned s = 0; s < depth; ++s)
			{
				switch (x.choose(9))
				{
					case 0: { a = b; ma = mb; break; }
					case 1: { const L& c = b; a = c; ma = mb; break; }
					case 2: { T old = ma; a = std::move(b); ma = mb; mb = b.Get(); MC_CHECK(mb == Default || mb == old, "moved-from", "the source of a move assignment keeps its value"); break; }
					case 3: { T v = values[x.choose(unsigned(values.size()))]; a = v; MC_CHECK(v == v, "assign", ""); ma = v; break; }
					case 4: { L c(a); is(c, ma, "copy"); const L k(a); L d(k); is(d, ma, "copy of const"); break; }
					case 5: { L c(std::move(a)); is(c, ma, "move"); is(a, Default, "moved from"); ma = Default; break; }
					case 6: { L& self = a; a = self; break; }
					case 7: { L& self = a; a = std::move(self); break; }
					case 8: { T v = values[x.choose(unsigned(values.size()))]; a.Get() = v; ma = v; break; }
				}
				x.step();
				is(a, ma, "a"); is(b, mb, "b");
			}
			mc::outcome(mc::u64(ma) * 1000003 + mc::u64(mb));
		});
	}
	template<typename T> int get(const T& t) { return t.get(); }
	int get(const std::string& s) { return s.empty() ? mc::MovedFrom : std::stoi(s.substr(30)); }
	int get(const std::vector<int>& s) { return s.empty() ? mc::MovedFrom : s[0]; }
	template<typename T> T mk(int n) { if constexpr (std::is_same_v<T, std::string>) return std::string(30, 's') + std::to_string(n); else if constexpr (std::is_same_v<T, std::vector<int>>) return std::vector<int>{ n }; else return T(n); }
	template<typename T> void movableValue(unsigned depth)
	{
		mc::forAll([&](mc::Exec& x)
		{
			mc::g_life.reset();
			mc::HeapScope heap;
			{
				using M = Nz::MovableValue<T>;
				constexpr bool Copy = std::is_copy_constructible_v<T>;
				int next = 1;
				auto is = [](M& l, int v, const char* what)
				{
					const M& c = l;
					T& r = l; const T& k = c;
					MC_CHECK(get(l.Get()) == v, "value", "%s: the value is %d, expected %d", what, get(l.Get()), v);
					MC_CHECK(&r == &l.Get() && &k == &l.Get() && &c.Get() == &l.Get(), "value", "%s: accessors disagree", what);
					T&& m = std::move(l).Get(); T&& n = static_cast<T&&>(std::move(l));
					MC_CHECK(&m == &l.Get() && &n == &l.Get(), "value", "%s: rvalue access", what);
				};
				int ma = next++, mb = next++;
				M a(mk<T>(ma)), b(mk<T>(mb));
				for (unsigned s = 0; s < depth; ++s)
				{
					switch (x.choose(12))
					{
						case 0: if constexpr (Copy) { MC_NOTE("a = b"); M& r = (a = b); MC_CHECK(&r == &a, "assign", "result"); ma = mb; } break;
						case 1: if constexpr (Copy) { MC_NOTE("a = const b"); const M& c = b; a = c; ma = mb; } break;
						case 2: { MC_NOTE("a = move(b)"); a = std::move(b); ma = mb; mb = mc::MovedFrom; break; }
						case 3: if constexpr (Copy) { MC_NOTE("a = lvalue"); T v = mk<T>(next); a = v; MC_CHECK(get(v) == next, "source-kept", "assigning a lvalue moved it"); ma = next++; } break;
						case 4: if constexpr (Copy) { MC_NOTE("a = const lvalue"); const T v = mk<T>(next); a = v; MC_CHECK(get(v) == next, "source-kept", "assigning a lvalue moved it"); ma = next++; } break;
						case 5: { MC_NOTE("a = rvalue"); a = mk<T>(next); ma = next++; break; }
						case 6: if constexpr (Copy) { MC_NOTE("copies"); M c(a); is(c, ma, "copy"); const M k(a); M d(k); is(d, ma, "copy of const"); } break;
						case 7: { MC_NOTE("move"); M c(std::move(a)); is(c, ma, "move"); ma = mc::MovedFrom; break; }
						case 8: if constexpr (Copy) { MC_NOTE("a = a"); M& self = a; a = self; } break;
						case 9: { MC_NOTE("swap"); std::swap(a, b); std::swap(ma, mb); break; }
						case 10: if constexpr (Copy) { MC_NOTE("from lvalue"); T v = mk<T>(next++); M c(v); is(c, next - 1, "from lvalue"); MC_CHECK(get(v) == next - 1, "source-kept", "building from a lvalue moved it"); a = c; ma = next - 1; is(c, ma, "assigned from"); } break;
						case 11: { MC_NOTE("take out"); T v = std::move(a).Get(); MC_CHECK(get(v) == ma, "value", "taken value"); ma = mc::MovedFrom; break; }
					}
					x.step();
					is(a, ma, "a"); is(b, mb, "b");
				}
				mc::outcome(mc::u64(ma + 1000000) * 100 + mc::u64(mb + 1000000));
			}
			mc::lifeExpect(0, "destruction");
		});
	}
#else
	struct Counted : mc::Elem { using mc::Elem::Elem; };
	int freeAdd(int a, int b) { return a * 100 + b; }
	struct Obj { int base; int calls = 0; int add(int a, int b) { ++calls; return base + a * 100 + b; } int addConst(int a, int b) const { return base + a * 100 + b; } int data = 7; };
	struct Stateful { int n = 0; int operator()(int a, int b) { n++; return a * 100 + b + n * 10000; } };
	struct ConstOnly { int k; int operator()(int a, int b) const { return a * 100 + b + k; } };
	struct Overloaded { int k; int operator()(int a, int b) { return a * 100 + b + k; } int operator()(int a, int b) const { return -(a * 100 + b + k); } };

	void functionRef()
	{
		mc::forAll([&](mc::Exec& x)
		{
			using R = Nz::FunctionRef<int(int, int)>;
			Stateful st; ConstOnly co{ 3 }; const ConstOnly cco{ 5 }; Overloaded ov{ 9 }; const Overloaded cov{ 11 };
			int captured = 0;
			auto lambda = [&](int a, int b) { captured = a * 7 + b; return a * 100 + b; };
			const auto mutableCounter = std::make_shared<int>(0);
			std::function<int(int, int)> fn = [mutableCounter](int a, int b) { ++*mutableCounter; return a * 100 + b + *mutableCounter; };
			int (*ptr)(int, int) = freeAdd; int (*const cptr)(int, int) = freeAdd;
			auto widening = [](long a, long b) -> short { return short(a * 100 + b); };
			unsigned stCalls = 0, fnCalls = 0;
			struct Target { unsigned kind; };
			auto make = [&](unsigned kind) -> R
			{
				switch (kind)
				{
					case 0: return R(st); case 1: return R(co); case 2: return R(cco); case 3: return R(ov); case 4: return R(cov); case 5: return R(lambda); case 6: return R(fn); case 7: return R(ptr); case 8: return R(cptr); case 9: return R(freeAdd); default: return R(widening);
				}
			};
			auto expected = [&](unsigned kind, int a, int b)
			{
				int v = a * 100 + b;
				switch (kind) { case 0: return v + int(++stCalls) * 10000; case 1: return v + 3; case 2: return v + 5; case 3: return v + 9; case 4: return -(v + 11); case 6: return v + int(++fnCalls); default: return v; }
			};
			unsigned ka = x.choose(11), kb = x.choose(11);
			R a = make(ka), b = make(kb);
			for (unsigned s = 0; s < 3; ++s)
			{
				switch (x.choose(5))
				{
					case 0: { a = b; ka = kb; break; }
					case 1: { a = std::move(b); ka = kb; break; }
					case 2: { R c(a); a = b; b = c; std::swap(ka, kb); break; }
					case 3: { const R c(b); R d(c); a = d; ka = kb; break; }
					case 4: break;
				}
				x.step();
				const R& c = a;
				MC_CHECK(static_cast<bool>(a) && static_cast<bool>(c) && static_cast<bool>(b), "bool", "a reference to a function is false");
				int i = int(s) + 2, j = 5 - int(s);
				int want = expected(ka, i, j);
				int got = c(i, j);
				MC_CHECK(got == want, "call", "calling function %u gives %d, expected %d", ka, got, want);
				want = expected(kb, j, i); got = b(short(j), (long)i);
				MC_CHECK(got == want, "call", "calling function %u gives %d, expected %d", kb, got, want);
				if (kb == 5) MC_CHECK(captured == j * 7 + i, "call", "captures");
			}
			MC_CHECK(st.n == int(stCalls) && *mutableCounter == int(fnCalls), "by-reference", "the referenced functor was copied");
			mc::outcome(ka * 11 + kb);
		});
	}
	// every kind of callable x every kind of result: which function gets called, on which object, how many times
	inline int g_called = 0; inline const void* g_on = nullptr; inline int g_result = 0;
	template<typename R> R answer(int which, const void* on) { g_called = g_called * 10 + which; g_on = on; if constexpr (std::is_reference_v<R>) return g_result; else if constexpr (std::is_void_v<R>) return; else return R(g_result); }
	template<typename R> struct Overloads { R operator()(int v) & { g_result = v; return answer<R>(1, this); } R operator()(int v) const & { g_result = v; return answer<R>(2, this); } R operator()(int v) && { g_result = v; return answer<R>(3, this); } char more[40] = {}; };
	template<typename R> struct Unaddressable { R operator()(int v) { g_result = v; return answer<R>(1, this); } void operator&() const = delete; template<typename T> void operator,(T&&) const = delete; };
	template<typename R> struct Callback { virtual ~Callback() = default; virtual R operator()(int v) = 0; };
	template<typename R> struct Derived final : mc::Elem, Callback<R> { R operator()(int v) override { get(); g_result = v; return answer<R>(1, this); } };
	template<typename R> R plain(int v) { g_result = v; return answer<R>(1, nullptr); }
	template<typename R> R quiet(int v) noexcept { g_result = v; return answer<R>(2, nullptr); }
	template<typename R> void callables()
	{
		using Ref = Nz::FunctionRef<R(int)>;
		mc::forAll([](mc::Exec& x)
		{
			mc::g_life.reset();
			const unsigned kind = x.choose(15); const int n = int(x.choose(3)); const bool twice = x.flip(), copied = x.flip();
			auto run = [&](const Ref& given, int which, const void* on, const char* what)
			{
				Ref second(nullptr); if (copied) second = given;
				const Ref& r = copied ? second : given;
				MC_CHECK(static_cast<bool>(r), "bool", "%s: a reference to a callable is false", what);
				for (int i = 0; i <= int(twice); ++i)
				{
					g_called = 0; g_on = nullptr; g_result = -1;
					if constexpr (std::is_void_v<R>) r(n + i);
					else { R result = r(n + i); MC_CHECK(int(result) == n + i, "result", "%s: call %d returns %d", what, i, int(result)); if constexpr (std::is_reference_v<R>) MC_CHECK(&result == &g_result, "result", "%s: another object", what); }
					MC_CHECK(g_called == which && g_result == n + i, "called", "%s: called %d with %d, expected %d with %d", what, g_called, g_result, which, n + i);
					MC_CHECK(!on || g_on == on, "object", "%s: called on another object", what);
				}
				x.step();
			};
			switch (kind)
			{
				case 0: { Overloads<R> f; run(Ref(f), 1, &f, "functor"); break; }
				case 1: { const Overloads<R> f; run(Ref(f), 2, &f, "const functor"); break; }
				case 2: { run(Ref(Overloads<R>()), 1, nullptr, "temporary functor"); break; }
				case 3: { Unaddressable<R> f; run(Ref(f), 1, std::addressof(f), "functor whose address is hidden"); break; }
				case 4: { Derived<R> d; Callback<R>& base = d; run(Ref(base), 1, &d, "functor known by its base"); break; }
				case 5: run(Ref(plain<R>), 1, nullptr, "function"); break;
				case 6: { R (*p)(int) = plain<R>; run(Ref(p), 1, nullptr, "function pointer"); break; }
				case 7: { R (*const p)(int) noexcept = quiet<R>; run(Ref(p), 2, nullptr, "const pointer to a noexcept function"); break; }
				case 8: { R (&p)(int) noexcept = quiet<R>; run(Ref(p), 2, nullptr, "reference to a noexcept function"); break; }
				case 9: { R (*p)(int) = plain<R>; Ref r(p); p = quiet<R>; run(r, 2, nullptr, "function pointer changed since"); break; } // it refers to the pointer
				case 10: { std::function<R(int)> f(plain<R>); run(Ref(f), 1, nullptr, "std::function"); break; }
				case 11: { Overloads<R> f; auto w = std::ref(f); run(Ref(w), 1, &f, "reference wrapper"); break; }
				case 12: { Nz::FunctionRef<R(long)> other(nullptr); auto f = [](long v) -> R { g_result = int(v); return answer<R>(4, nullptr); }; other = f; run(Ref(other), 4, nullptr, "reference of another signature"); break; }
				case 13: { int calls = 0; auto f = [calls](int v) mutable -> R { ++calls; g_result = v; return answer<R>(5, nullptr); }; run(Ref(f), 5, nullptr, "mutable lambda"); break; }
				case 14: { auto f = [](auto&& v) -> R { static_assert(std::is_same_v<decltype(v), int&&>, "value arguments are given as rvalues"); g_result = v; return answer<R>(6, nullptr); }; run(Ref(f), 6, nullptr, "generic lambda"); break; }
			}
			mc::lifeExpect(0, "callables");
			mc::outcome(kind);
		});
	}
	void arguments()
	{
		mc::forAll([&](mc::Exec& x)
		{
			mc::g_life.reset();
			{
				unsigned kind = x.choose(10);
				int n = 1 + int(x.choose(3));
				x.step();
				switch (kind)
				{
					// the same without a result
					case 8:
					{
						int got = 0; auto take = [&](auto&& v) { got = v.get(); };
						auto f0 = [&](mc::MoveOnly m) { take(m); }; Nz::FunctionRef<void(mc::MoveOnly)> r0(f0); mc::MoveOnly m(n); r0(std::move(m)); MC_CHECK(got == n && m.get() == mc::MovedFrom, "arguments", "move only argument (no result)");
						mc::Elem* seen = nullptr; auto f1 = [&](mc::Elem& e) { seen = &e; }; Nz::FunctionRef<void(mc::Elem&)> r1(f1); mc::Elem e(n); r1(e); MC_CHECK(seen == &e, "arguments", "reference argument (no result)");
						auto f2 = [&](mc::Elem&& q) { mc::Elem t(std::move(q)); take(t); }; Nz::FunctionRef<void(mc::Elem&&)> r2(f2); mc::Elem e2(n + 1); r2(std::move(e2)); MC_CHECK(got == n + 1 && e2.get() == mc::MovedFrom, "arguments", "rvalue argument (no result)");
						const mc::Elem* cseen = nullptr; auto f3 = [&](const mc::Elem& q) { cseen = &q; }; Nz::FunctionRef<void(const mc::Elem&)> r3(f3); mc::g_life.copies = mc::g_life.moves = 0; r3(e); MC_CHECK(cseen == &e && mc::g_life.copies == 0 && mc::g_life.moves == 0, "arguments", "const reference argument copied (no result)");
						auto f4 = [&](mc::Elem q) { take(q); }; Nz::FunctionRef<void(mc::Elem)> r4(f4); mc::Elem e4(n + 2);
						mc::g_life.copies = 0; r4(e4); MC_CHECK(got == n + 2 && mc::g_life.copies == 1 && e4.get() == n + 2, "arguments", "value argument copied %llu times (no result)", (unsigned long long)mc::g_life.copies);
						mc::g_life.copies = 0; r4(std::move(e4)); MC_CHECK(got == n + 2 && mc::g_life.copies == 0 && e4.get() == mc::MovedFrom, "arguments", "rvalue given to a value argument is copied (no result)");
						break;
					}
					// several arguments of different kinds, results by value, reference and rvalue reference
					case 9:
					{
						mc::Elem kept(n + 5);
						auto f = [&](mc::Elem a, mc::Elem& b, mc::Elem&& c, const mc::Elem& d, mc::MoveOnly g) { MC_CHECK(a.get() == n && b.get() == n + 1 && c.get() == n + 2 && d.get() == n + 3 && g.get() == n + 4, "arguments", "arguments out of order"); b.value = n + 10; mc::Elem stolen(std::move(c)); return mc::MoveOnly(stolen.get()); };
						Nz::FunctionRef<mc::MoveOnly(mc::Elem, mc::Elem&, mc::Elem&&, const mc::Elem&, mc::MoveOnly)> r(f);
						mc::Elem a(n), b(n + 1), c(n + 2); const mc::Elem d(n + 3); mc::MoveOnly g(n + 4);
						mc::g_life.copies = 0;
						mc::MoveOnly result = r(a, b, std::move(c), d, std::move(g));
						MC_CHECK(result.get() == n + 2 && a.get() == n && b.get() == n + 10 && c.get() == mc::MovedFrom && d.get() == n + 3 && g.get() == mc::MovedFrom && mc::g_life.copies == 1, "arguments", "several arguments, %llu copies", (unsigned long long)mc::g_life.copies);
						auto ref = [&]() -> const mc::Elem& { return kept; }; Nz::FunctionRef<const mc::Elem&()> rr(ref); MC_CHECK(&rr() == &kept, "arguments", "reference result");
						auto rref = [&]() -> mc::Elem&& { return std::move(kept); }; Nz::FunctionRef<mc::Elem&&()> rrr(rref); mc::Elem&& got = rrr(); MC_CHECK(&got == &kept && kept.get() == n + 5, "arguments", "rvalue reference result");
						break;
					}
					case 0: { auto f = [](mc::MoveOnly m) { return m.get(); }; Nz::FunctionRef<int(mc::MoveOnly)> r(f); MC_CHECK(r(mc::MoveOnly(n)) == n, "arguments", "move only argument"); mc::MoveOnly m(n); MC_CHECK(r(std::move(m)) == n && m.get() == mc::MovedFrom, "arguments", "move only argument"); break; }
					case 1: { auto f = [](mc::Elem& e) -> mc::Elem& { e.value++; return e; }; Nz::FunctionRef<mc::Elem&(mc::Elem&)> r(f); mc::Elem e(n); mc::Elem& q = r(e); MC_CHECK(&q == &e && e.get() == n + 1, "arguments", "reference argument"); break; }
					case 2: { auto f = [](mc::Elem&& e) { mc::Elem t(std::move(e)); return t.get(); }; Nz::FunctionRef<int(mc::Elem&&)> r(f); mc::Elem e(n); MC_CHECK(r(std::move(e)) == n && e.get() == mc::MovedFrom, "arguments", "rvalue argument"); break; }
					case 3: { auto f = [](const mc::Elem& e) { return &e; }; Nz::FunctionRef<const mc::Elem*(const mc::Elem&)> r(f); mc::Elem e(n); mc::g_life.copies = mc::g_life.moves = 0; MC_CHECK(r(e) == &e && mc::g_life.copies == 0 && mc::g_life.moves == 0, "arguments", "const reference argument copied"); break; }
					case 4: { auto f = [](mc::Elem e) { return e.get(); }; Nz::FunctionRef<int(mc::Elem)> r(f); mc::Elem e(n); mc::g_life.copies = 0; MC_CHECK(r(e) == n && mc::g_life.copies == 1 && e.get() == n, "arguments", "value argument copied %llu times", (unsigned long long)mc::g_life.copies); mc::g_life.copies = 0; MC_CHECK(r(std::move(e)) == n && mc::g_life.copies == 0 && e.get() == mc::MovedFrom, "arguments", "rvalue given to a value argument is copied"); break; }
					case 5: { int calls = 0; auto f = [&](int v) { calls += v; return mc::Elem(v); }; Nz::FunctionRef<void(int)> r(f); r(n); r(n); MC_CHECK(calls == 2 * n, "void", "function called"); static_assert(std::is_void_v<decltype(r(1))>); break; }
					case 6: { int calls = 0; auto f = [&] { ++calls; if (calls == 2) throw n; }; Nz::FunctionRef<void()> r(f); r(); try { r(); mc::fail("throw", "exception lost"); } catch (int v) { MC_CHECK(v == n, "throw", "exception"); } r(); MC_CHECK(calls == 3, "throw", "calls"); break; }
					case 7:
					{
						Obj o{ n * 1000 }; const Obj co{ n * 2000 };
						auto add = &Obj::add; auto addc = &Obj::addConst; auto data = &Obj::data;
						Nz::FunctionRef<int(Obj&, int, int)> r(add); MC_CHECK(r(o, 2, 3) == n * 1000 + 203 && o.calls == 1, "member", "member function (reference)");
						Nz::FunctionRef<int(Obj*, int, int)> p(add); MC_CHECK(p(&o, 2, 3) == n * 1000 + 203 && o.calls == 2, "member", "member function (pointer)");
						Nz::FunctionRef<int(const Obj&, int, int)> c(addc); MC_CHECK(c(co, 2, 3) == n * 2000 + 203 && c(o, 1, 1) == n * 1000 + 101, "member", "const member function");
						Nz::FunctionRef<int(const Obj&)> d(data); MC_CHECK(d(o) == 7, "member", "member data");
						break;
					}
				}
				Nz::FunctionRef<int(int)> null(nullptr); MC_CHECK(!null, "bool", "a null reference is true");
				Nz::FunctionRef<int(int)> copy(null); auto f = [](int v) { return v; }; Nz::FunctionRef<int(int)> other(f); MC_CHECK(!copy && other, "bool", "copies"); copy = other; MC_CHECK(copy && copy(4) == 4, "bool", "assigned"); other = null; MC_CHECK(!other, "bool", "assigned null");
				mc::outcome(kind * 10 + mc::u64(n));
			}
			mc::lifeExpect(0, "arguments");
		});
	}
	// the whole tree of re-entrant calls: a reference passed down recursive calls
	int recurse(Nz::FunctionRef<int(int, Nz::FunctionRef<int(int)>)> self, int depth, std::vector<int>& log)
	{
		auto leaf = [&](int v) { log.push_back(v); return v + 1; };
		return self(depth, leaf);
	}
#endif
}
#if MC_PART == 0
MC_SUITE(heap) { Checker<mc::Elem, 0, alignof(std::max_align_t), false>::run(mc::pick(MC_SAN ? 4 : 5, MC_SAN ? 5 : 6)); }
MC_SUITE(heap_no_assign) { Checker<NoAssign<mc::Elem>, 0, alignof(std::max_align_t), false>::run(mc::pick(MC_SAN ? 4 : 5, MC_SAN ? 5 : 6)); }
MC_SUITE(heap_move_only) { Checker<mc::MoveOnly, 0, alignof(std::max_align_t), false, false>::run(mc::pick(MC_SAN ? 4 : 5, MC_SAN ? 5 : 6)); }
MC_SUITE(heap_aligned) { Checker<Aligned, 0, alignof(std::max_align_t), false>::run(2); }
MC_SUITE(heap_flat) { Checker<Flat, 0, alignof(std::max_align_t), false>::run(3); }
MC_SUITE(inplace_flat) { Checker<Flat, sizeof(Flat), alignof(Flat), false>::run(mc::pick(4, 5)); }
MC_SUITE(heap_list) { Checker<mc::Listed, 0, alignof(std::max_align_t), false>::run(3); }
MC_SUITE(inplace_list) { Checker<mc::Listed, sizeof(mc::Listed), alignof(mc::Listed), false>::run(3); }
MC_SUITE(inplace) { Checker<mc::Elem, 64, alignof(std::max_align_t), false>::run(mc::pick(MC_SAN ? 4 : 5, MC_SAN ? 5 : 6)); }
MC_SUITE(inplace_exact) { Checker<mc::Elem, sizeof(mc::Elem), alignof(mc::Elem), false>::run(mc::pick(MC_SAN ? 4 : 5, MC_SAN ? 5 : 6)); }
MC_SUITE(inplace_no_assign) { Checker<NoAssign<mc::Elem>, 32, alignof(std::max_align_t), false>::run(mc::pick(MC_SAN ? 4 : 5, MC_SAN ? 5 : 6)); }
MC_SUITE(inplace_move_only) { Checker<mc::MoveOnly, 16, 16, false, false>::run(mc::pick(MC_SAN ? 4 : 5, MC_SAN ? 5 : 6)); }
MC_SUITE(inplace_aligned) { Checker<Aligned, 128, 64, false>::run(mc::pick(MC_SAN ? 4 : 5, MC_SAN ? 5 : 6)); }
MC_SUITE(faults_heap) { Checker<mc::ThrowingCopyElem, 0, alignof(std::max_align_t), true>::faults(); }
MC_SUITE(faults_heap_no_assign) { Checker<NoAssign<mc::ThrowingCopyElem>, 0, alignof(std::max_align_t), true>::faults(); }
MC_SUITE(faults_inplace) { Checker<mc::ThrowingCopyElem, 64, alignof(std::max_align_t), true>::faults(); }
MC_SUITE(faults_inplace_no_assign) { Checker<NoAssign<mc::ThrowingCopyElem>, 64, alignof(std::max_align_t), true>::faults(); }
MC_SUITE(forwarding)
{
	mc::forAll([](mc::Exec& x)
	{
		mc::g_life.reset();
		mc::HeapScope heap;
		{
			int n = int(x.choose(3)); x.step();
			Nz::PrivateImpl<Pair> h(n, std::make_unique<int>(n + 1)); MC_CHECK(h->get() == n && h->second == n + 1, "forwarding", "heap");
			Nz::PrivateImpl<Pair, 64> p(n, std::make_unique<int>(n + 2)); MC_CHECK(p->get() == n && p->second == n + 2, "forwarding", "in place");
			Nz::PrivateImpl<Pair> e(nullptr); MC_CHECK(!e.HasValue(), "state", "empty"); Pair& r = e.Emplace(n + 3, std::make_unique<int>(4)); MC_CHECK(&r == e.Get() && e->get() == n + 3 && e->second == 4, "forwarding", "Emplace");
			Nz::PrivateImpl<mc::Elem> d; MC_CHECK(d.HasValue() && d->get() == 0, "state", "default"); Nz::PrivateImpl<mc::Elem, 16> di; MC_CHECK(di->get() == 0, "state", "default in place");
			mc::lifeExpect(5, "forwarding");
		}
		mc::lifeExpect(0, "forwarding"); MC_CHECK(mc::g_heap.live == 0, "leak", "leak");
	});
}
// objects holding holders of their own kind: linked lists, assigned from parts of themselves and of each other
namespace
{
	template<bool Assignable> struct Link;
	template<bool Assignable> using Chain = Nz::PrivateImpl<Link<Assignable>>;
	template<bool Assignable> struct Link
	{
		mc::Elem v; Chain<Assignable> next;
		Link(int n, Chain<Assignable>&& rest) : v(n), next(std::move(rest)) {}
		Link(const Link&) = default;
		Link& operator=(const Link&) = default;
	};
	template<> struct Link<false>
	{
		const mc::Elem v; Chain<false> next;
		Link(int n, Chain<false>&& rest) : v(n), next(std::move(rest)) {}
		Link(const Link&) = default;
	};
	template<bool Assignable> void chains(unsigned depth)
	{
		using C = Chain<Assignable>; using L = Link<Assignable>;
		mc::forAll([&](mc::Exec& x)
		{
			mc::g_life.reset();
			mc::HeapScope heap;
			{
				C list[2] = { C(nullptr), C(nullptr) };
				std::vector<int> m[2];
				int next = 1;
				auto push = [&](int i) { C rest(std::move(list[i])); list[i] = C(new L(next, std::move(rest))); m[i].insert(m[i].begin(), next++); };
				for (int i = 0; i < 2; ++i) for (unsigned n = x.choose(4); n > 0; --n) push(i);
				auto see = [&]
				{
					for (int i = 0; i < 2; ++i)
					{
						std::size_t n = 0;
						for (C* c = &list[i]; c->HasValue(); c = &(*c)->next, ++n) MC_CHECK(n < m[i].size() && (*c)->v.get() == m[i][n], "content", "list %d: link %zu holds %d", i, n, (*c)->v.get());
						MC_CHECK(n == m[i].size(), "content", "list %d holds %zu links instead of %zu", i, n, m[i].size());
					}
					mc::lifeExpect(m[0].size() + m[1].size(), "two lists");
				};
				see();
				for (unsigned d = 0; d < depth; ++d)
				{
					const int i = int(x.choose(2)), o = 1 - i;
					C& a = list[i]; C& b = list[o];
					std::vector<int>& ma = m[i]; std::vector<int>& mb = m[o];
					switch (x.choose(9))
					{
						case 0: if (ma.size() > 4) return; MC_NOTE("push on %d", i); push(i); break;
						case 1: if (ma.empty()) return; MC_NOTE("drop the first link of %d by moving", i); a = C(std::move(a->next)); ma.erase(ma.begin()); break;
						case 2: if (ma.empty()) return; MC_NOTE("list %d = copy of its own tail", i); a = a->next; ma.erase(ma.begin()); break;
						case 3: if (ma.size() < 2) return; MC_NOTE("drop the second link of %d", i); a->next = C(std::move(a->next->next)); ma.erase(ma.begin() + 1); break;
						case 4: MC_NOTE("list %d = copy of list %d", i, o); a = b; ma = mb; break;
						case 5: if (mb.empty()) return; MC_NOTE("list %d = copy of the tail of list %d", i, o); a = b->next; ma.assign(mb.begin() + 1, mb.end()); break;
						case 6: if (ma.empty()) return; MC_NOTE("the tail of %d = copy of list %d", i, o); if (1 + mb.size() > 5) return; a->next = b; ma.resize(1); ma.insert(ma.end(), mb.begin(), mb.end()); break;
						case 7: if (ma.size() < 3) return; MC_NOTE("the tail of %d = copy of its own tail", i); a->next = a->next->next; ma.erase(ma.begin() + 1); break;
						case 8: if (ma.empty()) return; MC_NOTE("list %d = copy of the list, through its first link", i); { const C copy(a); C& target = a->next; if (ma.size() > 3) return; target = copy; std::vector<int> r{ ma[0] }; for (const L* l = copy.Get(); l; l = l->next.Get()) r.push_back(l->v.get()); ma = r; } break;
					}
					x.step();
					see();
				}
				mc::outcome(m[0].size() * 8 + m[1].size());
			}
			mc::lifeExpect(0, "destruction of the lists"); MC_CHECK(mc::g_heap.live == 0, "leak", "heap blocks leaked");
		});
	}
}
MC_SUITE(chains) { chains<true>(mc::pick(MC_SAN ? 2 : 3, MC_SAN ? 3 : 4)); }
MC_SUITE(chains_no_assign) { chains<false>(mc::pick(MC_SAN ? 2 : 3, MC_SAN ? 3 : 4)); }
#elif MC_PART == 1
// the same histories, from destructors which run while 1 to 3 exceptions are in flight
template<typename F> void unwinding(unsigned level, const F& f)
{
	if (level == 0) { f(); return; }
	struct Cleanup { unsigned level; const F& f; ~Cleanup() { unwinding(level - 1, f); } };
	try { Cleanup cleanup{ level, f }; throw Boom{}; }
	catch (const Boom&) {}
}
MC_SUITE(unwinding) { for (unsigned level = 1; level <= 3; ++level) unwinding(level, [level] { MC_CHECK(std::uncaught_exceptions() == int(level), "setup", "exceptions in flight"); callOnExit(mc::pick(2, 3)); }); }
MC_SUITE(call_on_exit) { callOnExit(mc::pick(MC_SAN ? 3 : 4, MC_SAN ? 4 : 5)); }
MC_SUITE(scopes)
{
	mc::forAll([](mc::Exec& x)
	{
		std::vector<int> log, want;
		unsigned exits = x.choose(3), at = x.choose(4);
		x.step();
		bool threw = false;
		try { (void)scopes(exits, at, log, want, 0); } catch (const Boom&) { threw = true; }
		MC_CHECK(threw == (exits == 1), "scopes", "exception");
		if (exits == 2) { auto it = std::find(want.begin(), want.end(), 99); want.erase(it); want.insert(want.begin(), 99); }
		MC_CHECK(log == want, "scopes", "deferred calls: %zu, expected %zu", log.size(), want.size());
		mc::outcome(log.size());
	});
}
MC_SUITE(std_function)
{
	// function objects which can be empty: a moved one must not be called
	mc::forAll([](mc::Exec& x)
	{
		std::vector<int> log;
		bool hasA = x.flip(), hasB = x.flip(), again = x.flip();
		x.step();
		using F = std::function<void()>;
		{
			Nz::CallOnExit<F> a, b;
			if (hasA) a = Nz::CallOnExit<F>(F([&] { log.push_back(1); }));
			if (hasB) b = Nz::CallOnExit<F>(F([&] { log.push_back(2); }));
			MC_CHECK(log.empty(), "calls", "called while assigned");
			a = std::move(b);
			if (again) b = std::move(a);
		}
		// 1 may be called or dropped when replaced
		std::size_t twos = std::size_t(std::count(log.begin(), log.end(), 2)), ones = std::size_t(std::count(log.begin(), log.end(), 1));
		MC_CHECK(twos == hasB && ones <= hasA, "calls", "the pending call was made %zu times", twos);
	});
}
#elif MC_PART == 2
MC_SUITE(movable_ptr) { movablePtr(mc::pick(MC_SAN ? 4 : 5, MC_SAN ? 5 : 6)); }
MC_SUITE(literal_int) { movableLiteral<int, -1>({ -1, 0, 42 }, mc::pick(MC_SAN ? 4 : 5, MC_SAN ? 5 : 6)); }
MC_SUITE(literal_u8) { movableLiteral<Nz::UInt8, 255>({ 255, 0, 7 }, mc::pick(MC_SAN ? 4 : 5, MC_SAN ? 5 : 6)); }
MC_SUITE(literal_bool) { movableLiteral<bool, false>({ false, true }, mc::pick(MC_SAN ? 4 : 5, MC_SAN ? 5 : 6)); }
MC_SUITE(literal_u64) { movableLiteral<Nz::UInt64, ~0ull>({ ~0ull, 0, 1ull << 40 }, mc::pick(MC_SAN ? 4 : 5, MC_SAN ? 5 : 6)); }
MC_SUITE(value_elem) { movableValue<mc::Elem>(mc::pick(MC_SAN ? 4 : 5, MC_SAN ? 5 : 6)); }
MC_SUITE(value_list) { movableValue<mc::Listed>(mc::pick(3, 4)); }
MC_SUITE(value_move_only) { movableValue<mc::MoveOnly>(mc::pick(MC_SAN ? 4 : 5, MC_SAN ? 5 : 6)); }
MC_SUITE(value_string) { movableValue<std::string>(mc::pick(MC_SAN ? 4 : 5, MC_SAN ? 5 : 6)); }
MC_SUITE(value_vector) { movableValue<std::vector<int>>(mc::pick(MC_SAN ? 4 : 5, MC_SAN ? 5 : 6)); }
#else
MC_SUITE(function_ref) { functionRef(); }
MC_SUITE(arguments) { arguments(); }
MC_SUITE(callables) { callables<void>(); callables<int>(); callables<int&>(); callables<long long>(); callables<const int&>(); }
MC_SUITE(recursion)
{
	mc::forAll([](mc::Exec& x)
	{
		int depth = int(x.choose(5));
		x.step();
		std::vector<int> log;
		struct Rec
		{
			std::vector<int>& log; int calls = 0;
			int operator()(int d, Nz::FunctionRef<int(int)> leaf) { calls++; int v = leaf(d); if (d == 0) return v; auto wrap = [&](int q) { return leaf(q) * 2; }; return (*this)(d - 1, wrap) + v; }
		} rec{ log };
		int got = recurse(rec, depth, log);
		int want = 0; for (int i = 0; i <= depth; ++i) want += (depth - i + 1) << i;
		MC_CHECK(got == want && rec.calls == depth + 1 && int(log.size()) == depth + 1, "recursion", "result %d, expected %d", got, want);
		mc::outcome(mc::u64(got));
	});
}
#endif
