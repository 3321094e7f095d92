// C19 Result: holds exactly one of a value and an error; every construction, conversion, assignment and access keeps it
#include <NazaraUtils/Result.hpp>
#include "mc.hpp"
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>

namespace
{
	struct ErrElem : mc::Elem { using mc::Elem::Elem; };
	struct ThrowVal : mc::ThrowingCopyElem { using mc::ThrowingCopyElem::ThrowingCopyElem; };
	struct ThrowErr : mc::ThrowingCopyElem { using mc::ThrowingCopyElem::ThrowingCopyElem; };
	struct NoDefault : mc::Elem { NoDefault() = delete; explicit NoDefault(int v) : mc::Elem(v) {} };

	template<typename F> bool throwsRuntime(F&& f, std::string* what = nullptr)
	{
		try { f(); }
		catch (const std::runtime_error& e) { if (what) *what = e.what(); return true; }
		return false;
	}
	mc::u64 copyCount() { return mc::g_life.copies + mc::g_life.copyAssigns; }
	template<typename F> decltype(auto) noCopy(const char* what, F&& f)
	{
		struct Guard { const char* what; mc::u64 before = copyCount(); void done() { MC_CHECK(copyCount() == before, "move-copies", "%s copied a value or an error", what); } };
		Guard g{ what };
		if constexpr (std::is_void_v<decltype(f())>) { f(); g.done(); }
		else { decltype(auto) r = f(); g.done(); return r; }
	}
	struct Model { bool ok; int v; bool moved = false; };

	template<typename V, typename E> struct Checker
	{
		using R = Nz::Result<V, E>;
		static constexpr bool Void = std::is_void_v<V>;
		static constexpr bool Same = std::is_same_v<V, E>;
		template<typename T> static constexpr bool Copy = std::is_copy_constructible_v<T>;
		static constexpr bool Copies = (Void || Copy<std::conditional_t<Void, int, V>>) && Copy<E>;

		static void seen(int got, const Model& m, const char* what)
		{
			MC_CHECK(got == (m.moved ? mc::MovedFrom : m.v), what, "%s is %d, expected %d", what, got, m.moved ? mc::MovedFrom : m.v);
		}
		// non-destructive accesses
		static void observe(R& r, const Model& m, const char* where, bool throwing = true)
		{
			const R& c = r;
			MC_NOTE("observe after %s", where);
			MC_CHECK(c.IsOk() == m.ok && c.IsErr() == !m.ok && static_cast<bool>(c) == m.ok, "state", "%s: IsOk %d IsErr %d bool %d, expected %s", where, c.IsOk(), c.IsErr(), bool(c), m.ok ? "a value" : "an error");
			if (!throwing)
			{
				if (!m.ok) seen(r.GetError().get(), m, "error");
				else if constexpr (!Void) seen(r.GetValue().get(), m, "value");
				return;
			}
			std::string what;
			bool t1 = throwsRuntime([&] { c.Expect("message 1"); }, &what);
			MC_CHECK(t1 == !m.ok && (m.ok || what == "message 1"), "expect", "%s: Expect(const char*) throws %d, \"%s\"", where, t1, what.c_str());
			bool t2 = throwsRuntime([&] { c.Expect(std::string("message 2")); }, &what);
			MC_CHECK(t2 == !m.ok && (m.ok || what == "message 2"), "expect", "%s: Expect(std::string) throws %d, \"%s\"", where, t2, what.c_str());
			if (m.ok)
			{
				if constexpr (!Void)
				{
					seen(r.GetValue().get(), m, "value"); seen(c.GetValue().get(), m, "value"); seen((*r).get(), m, "value"); seen((*c).get(), m, "value"); seen(r->get(), m, "value"); seen(c->get(), m, "value");
					MC_CHECK(&r.GetValue() == &c.GetValue() && &*r == &r.GetValue() && r.operator->() == &r.GetValue() && c.operator->() == &r.GetValue() && &*c == &r.GetValue(), "access", "accessors do not reference the same value");
					V&& rr = std::move(r).GetValue(); MC_CHECK(&rr == &r.GetValue(), "access", "GetValue of a rvalue");
					V&& rd = *std::move(r); MC_CHECK(&rd == &r.GetValue(), "access", "operator* of a rvalue");
					seen(r.GetValue().get(), m, "value");
				}
				MC_CHECK(throwsRuntime([&] { (void)r.GetError(); }) && throwsRuntime([&] { (void)c.GetError(); }) && throwsRuntime([&] { (void)std::move(r).GetError(); }), "wrong-access", "%s: GetError of a value does not throw", where);
			}
			else
			{
				seen(r.GetError().get(), m, "error"); seen(c.GetError().get(), m, "error");
				MC_CHECK(&r.GetError() == &c.GetError(), "access", "accessors do not reference the same error");
				E&& rr = std::move(r).GetError(); MC_CHECK(&rr == &r.GetError(), "access", "GetError of a rvalue");
				if constexpr (!Void)
				{
					MC_CHECK(throwsRuntime([&] { (void)r.GetValue(); }) && throwsRuntime([&] { (void)c.GetValue(); }) && throwsRuntime([&] { (void)std::move(r).GetValue(); }) && throwsRuntime([&] { (void)*r; }) && throwsRuntime([&] { (void)*c; })
						&& throwsRuntime([&] { (void)*std::move(r); }) && throwsRuntime([&] { (void)r.operator->(); }) && throwsRuntime([&] { (void)c.operator->(); }), "wrong-access", "%s: access to the value of an error does not throw", where);
				}
				seen(r.GetError().get(), m, "error");
			}
		}
		// every way to build a result; the sources which are lvalues keep their value
		static constexpr unsigned Ways = 8;
		static R make(mc::Exec& x, bool ok, int n)
		{
			unsigned way = x.choose(Ways);
			MC_NOTE("build %s(%d) way %u", ok ? "Ok" : "Err", n, way);
			auto kept = [&](int got) { MC_CHECK(got == n, "source-kept", "building a result (way %u) from a lvalue changed it to %d", way, got); };
			if (ok)
			{
				if constexpr (Void)
				{
					if (way == 1) return R(typename R::ValueTag{});
					if (way == 2) { R o = Nz::Ok(); return R(std::move(o)); }
					if (way == 3) if constexpr (Copies) { const R o = Nz::Ok(); return R(o); }
					return Nz::Ok();
				}
				else
				{
					switch (way)
					{
						case 1: if constexpr (Copies) { V v(n); R r = Nz::Ok(v); kept(v.get()); return r; } break;
						case 2: if constexpr (Copies) { const V v(n); R r = Nz::Ok(v); kept(v.get()); return r; } break;
						case 3: return noCopy("building from a tag", [&] { return R(typename R::ValueTag{}, n); });
						case 4: if constexpr (!Same) { V v(n); return noCopy("building from a rvalue", [&] { return R(std::move(v)); }); } break;
						case 5: if constexpr (!Same && Copies) { V v(n); R r(v); kept(v.get()); return r; } break;
						case 6: if constexpr (Copies) { R o(typename R::ValueTag{}, n); R r(o); kept(o.GetValue().get()); const R c(o); R q(c); kept(c.GetValue().get()); return q; } break;
						case 7: { R o(typename R::ValueTag{}, n); const auto before = copyCount(); R r(std::move(o)); MC_CHECK(copyCount() == before, "move-copies", "moving a result copied its value"); MC_CHECK(o.IsOk(), "moved-from", "a moved from value is no longer a value"); return r; }
					}
					return noCopy("Ok of a rvalue", [&]() -> R { return Nz::Ok(V(n)); });
				}
			}
			else
			{
				switch (way)
				{
					case 1: case 4: if constexpr (Copies) { E v(n); R r = Nz::Err(v); kept(v.get()); return r; } break;
					case 2: case 5: if constexpr (Copies) { const E v(n); R r = Nz::Err(v); kept(v.get()); return r; } break;
					case 3: return R(typename R::ErrorTag{}, n);
					case 6: if constexpr (Copies) { R o(typename R::ErrorTag{}, n); R r(o); kept(o.GetError().get()); const R c(o); R q(c); kept(c.GetError().get()); return q; } break;
					case 7: { R o(typename R::ErrorTag{}, n); const auto before = copyCount(); R r(std::move(o)); MC_CHECK(copyCount() == before, "move-copies", "moving a result copied its error"); MC_CHECK(o.IsErr(), "moved-from", "a moved from error is no longer an error"); return r; }
				}
				return noCopy("Err of a rvalue", [&]() -> R { return Nz::Err(E(n)); });
			}
		}
		struct Mapped { int v; explicit Mapped(int n) : v(n) {} int get() const { return v; } };
		template<typename Q> static void mapped(Q&& q, bool ok, int want, unsigned calls, unsigned expectedCalls)
		{
			MC_CHECK(calls == expectedCalls, "map", "Map called its functor %u times, expected %u", calls, expectedCalls);
			MC_CHECK(q.IsOk() == ok && q.IsErr() == !ok, "map", "Map of %s", ok ? "a value" : "an error");
			if (!ok) MC_CHECK(q.GetError().get() == want, "map", "Map changed the error to %d, expected %d", q.GetError().get(), want);
		}
		static void maps(mc::Exec& x, R& r, Model& m)
		{
			unsigned kind = x.choose(4);
			MC_NOTE("map kind %u", kind);
			unsigned calls = 0;
			auto f = [&](auto&&... v) { calls++; if constexpr (sizeof...(v)) return Mapped(((v.get()), ...) + 1000); else return Mapped(1000 + m.v); };
			auto g = [&](auto&&...) { calls++; };
			const int want = m.moved ? mc::MovedFrom : m.v;
			switch (kind)
			{
				case 0: if constexpr (Copies) { auto q = std::as_const(r).Map(f); mapped(q, m.ok, want, calls, m.ok); if (m.ok) MC_CHECK(q.GetValue().get() == want + 1000, "map", "Map result %d", q.GetValue().get()); } break;
				case 1: if constexpr (Copies) { auto q = r.Map(g); mapped(q, m.ok, want, calls, m.ok); } break;
				case 2:
				{
					auto q = noCopy("Map of a rvalue", [&] { return std::move(r).Map(f); });
					mapped(q, m.ok, want, calls, m.ok);
					if (m.ok) MC_CHECK(q.GetValue().get() == want + 1000, "map", "Map result %d", q.GetValue().get()); else m.moved = true;
					break;
				}
				case 3:
				{
					int taken = 0;
					if constexpr (Void) { auto q = noCopy("Map of a rvalue", [&] { return std::move(r).Map(g); }); mapped(q, m.ok, want, calls, m.ok); if (!m.ok) m.moved = true; }
					else
					{
						auto q = noCopy("Map of a rvalue", [&] { return std::move(r).Map([&](V&& v) { calls++; V w(std::move(v)); taken = w.get(); }); });
						mapped(q, m.ok, want, calls, m.ok);
						if (m.ok) MC_CHECK(taken == want, "map", "Map of a rvalue gave %d", taken);
						m.moved = true;
					}
					break;
				}
			}
		}
		static void valueOr(mc::Exec& x, R& r, Model& m)
		{
			if constexpr (!Void)
			{
				unsigned kind = x.choose(4);
				MC_NOTE("value or kind %u", kind);
				const int want = m.ok ? (m.moved ? mc::MovedFrom : m.v) : 77;
				auto is = [&](int got, const char* what) { MC_CHECK(got == want, "value-or", "GetValueOr (%s) of %s is %d, expected %d", what, m.ok ? "a value" : "an error", got, want); };
				V d(77);
				if constexpr (Copies)
				{
					if (kind == 0) { V v = std::as_const(r).GetValueOr(d); is(v.get(), "lvalues"); MC_CHECK(d.get() == 77, "value-or", "GetValueOr moved its lvalue argument"); return; }
					if (kind == 1) { const auto before = copyCount(); V v = r.GetValueOr(std::move(d)); MC_CHECK(copyCount() == before + m.ok, "move-copies", "GetValueOr made more copies than the one of its value"); is(v.get(), "rvalue default"); MC_CHECK(d.get() == (m.ok ? 77 : mc::MovedFrom), "value-or", "GetValueOr and its unused default"); return; }
					if (kind == 2) { V v = std::move(r).GetValueOr(d); is(v.get(), "rvalue result"); MC_CHECK(d.get() == 77, "value-or", "GetValueOr moved its lvalue argument"); if (m.ok) m.moved = true; return; }
				}
				V v = noCopy("GetValueOr of rvalues", [&] { return std::move(r).GetValueOr(std::move(d)); }); is(v.get(), "rvalues");
				MC_CHECK(d.get() == (m.ok ? 77 : mc::MovedFrom), "value-or", "GetValueOr and its unused default");
				if (m.ok) m.moved = true;
			}
		}
		static void run(unsigned depth)
		{
			mc::forAll([&](mc::Exec& x)
			{
				mc::g_life.reset();
				mc::HeapScope heap;
				{
					int next = 1;
					Model ma{ x.flip(), next++ }, mb{ x.flip(), next++ };
					R a = depth ? (ma.ok ? okResult(ma.v) : R(typename R::ErrorTag{}, ma.v)) : make(x, ma.ok, ma.v);
					R b(depth ? (mb.ok ? okResult(mb.v) : R(typename R::ErrorTag{}, mb.v)) : make(x, mb.ok, mb.v));
					if (!depth) { observe(a, ma, "a"); observe(b, mb, "b"); x.step(); }
					for (unsigned s = 0; s < depth; ++s)
					{
						switch (x.choose(9))
						{
							case 0: if constexpr (Copies) { MC_NOTE("a = b"); R& q = (a = b); MC_CHECK(&q == &a, "assign", "operator= result"); ma = mb; } break;
							case 1: { MC_NOTE("a = move(b)"); noCopy("move assignment", [&] { a = std::move(b); }); ma = mb; if (!Void || !mb.ok) mb.moved = true; break; }
							case 2: if constexpr (Copies) { MC_NOTE("a = a"); R& self = a; a = self; } break;
							case 3: { MC_NOTE("swap"); noCopy("swap", [&] { std::swap(a, b); }); std::swap(ma, mb); break; }
							case 4: { MC_NOTE("a = new value"); ma = Model{ true, next++ }; a = make(x, true, ma.v); break; }
							case 5: { MC_NOTE("a = new error"); ma = Model{ false, next++ }; a = make(x, false, ma.v); break; }
							case 6: maps(x, a, ma); break;
							case 7: valueOr(x, a, ma); break;
							case 8: if constexpr (!Void) if (ma.ok) { MC_NOTE("write through"); a.GetValue() = V(next); ma = Model{ true, next++ }; } break;
						}
						x.step();
						if (Void && ma.ok) ma.moved = false;
						observe(a, ma, "a", s + 1 == depth);
						observe(b, mb, "b", s + 1 == depth);
						mc::lifeExpect((Void ? 0 : ma.ok) + (Void ? 0 : mb.ok) + !ma.ok + !mb.ok, "two results");
					}
					mc::outcome((mc::u64(ma.ok) * 2 + mb.ok) * 4096 + mc::u64(ma.v * 64 + mb.v) * 4 + ma.moved * 2 + mb.moved);
				}
				mc::lifeExpect(0, "destruction");
				MC_CHECK(mc::g_heap.live == 0, "leak", "heap blocks leaked");
			});
		}
		static void all()
		{
			run(0);
			for (unsigned d = 1; d <= mc::pick(MC_SAN ? 2 : 3, MC_SAN ? 3 : 4); ++d) run(d);
		}
		// an exception at every element operation
		static void faults()
		{
			mc::forAll([&](mc::Exec& x)
			{
				mc::g_life.reset();
				mc::HeapScope heap;
				{
					bool oka = x.flip(), okb = x.flip();
					R a = oka ? okResult(1) : R(typename R::ErrorTag{}, 1);
					R b = okb ? okResult(2) : R(typename R::ErrorTag{}, 2);
					unsigned op = x.choose(10);
					mc::g_life.opsUntilFault = op < 7 ? mc::i64(x.choose(8)) : -1;
					bool threw = false, changed = false;
					try
					{
						MC_NOTE("op %u", op);
						switch (op)
						{
							case 0: { R c(b); break; }
							case 1: a = b; changed = true; break;
							case 2: { E e(5); R c = Nz::Err(e); break; }
							case 3: { auto q = a.Map([](auto&&...) noexcept { return 5; }); break; }
							case 4: { R c(typename R::ErrorTag{}, 6); a = std::move(c); changed = true; okb = okb; break; }
							case 5: if constexpr (!Void) { V v = a.GetValueOr(V(9)); } break;
							case 6: if constexpr (!Void) { V v(7); R c = Nz::Ok(v); } break;
							// functors that throw
							case 7: { auto q = std::as_const(a).Map([](auto&&...) -> int { throw mc::Fault(); }); MC_CHECK(!oka, "fault-functor", "the exception of a functor is lost"); break; }
							case 8: { std::as_const(a).Map([](auto&&...) { throw mc::Fault(); }); MC_CHECK(!oka, "fault-functor", "the exception of a functor is lost"); break; }
							case 9: if (oka) { std::move(a).Map([](auto&&...) { throw mc::Fault(); }); MC_CHECK(false, "fault-functor", "the exception of a functor is lost"); } break;
						}
					}
					catch (const mc::Fault&) { threw = true; }
					mc::g_life.opsUntilFault = -1;
					x.step();
					MC_CHECK(a.IsOk() != a.IsErr() && b.IsOk() != b.IsErr(), "fault-state", "neither a value nor an error after an exception");
					mc::lifeExpect((!Void || a.IsErr()) + (!Void || b.IsErr()), "after an exception");
					if (threw || !changed)
					{
						MC_CHECK(a.IsOk() == oka, "fault-state", "a failed operation changed the state of the result");
						MC_CHECK(b.IsOk() == okb, "fault-state", "a failed operation changed the state of its source");
					}
					if (b.IsErr()) MC_CHECK(b.GetError().get() == 2, "fault-state", "source changed");
				}
				mc::lifeExpect(0, "destruction after an exception");
			});
		}
		static R okResult([[maybe_unused]] int n) { if constexpr (Void) return Nz::Ok(); else return R(typename R::ValueTag{}, n); }
	};

	// the functor given to Map is called with its own value category, once, and not copied
	struct Categories
	{
		int calls[4] = {};
		struct F
		{
			Categories* c;
			explicit F(Categories& cat) : c(&cat) {}
			F(const F&) = delete;
			template<typename... A> int operator()(A&&...) & { return ++c->calls[0]; }
			template<typename... A> int operator()(A&&...) const& { return ++c->calls[1]; }
			template<typename... A> int operator()(A&&...) && { return ++c->calls[2]; }
			template<typename... A> int operator()(A&&...) const&& { return ++c->calls[3]; }
		};
		struct G : F
		{
			using F::F;
			template<typename... A> void operator()(A&&...) & { ++c->calls[0]; }
			template<typename... A> void operator()(A&&...) const& { ++c->calls[1]; }
			template<typename... A> void operator()(A&&...) && { ++c->calls[2]; }
			template<typename... A> void operator()(A&&...) const&& { ++c->calls[3]; }
		};
	};
	template<typename R, typename F> void category(bool ok)
	{
		for (int rvalue = 0; rvalue < 2; ++rvalue) for (int kind = 0; kind < 4; ++kind)
		{
			R r = ok ? R(typename R::ValueTag{}) : R(typename R::ErrorTag{}, 3);
			Categories c;
			F f(c);
			auto call = [&](auto&& result)
			{
				using Q = decltype(result);
				switch (kind)
				{
					case 0: std::forward<Q>(result).Map(f); break;
					case 1: std::forward<Q>(result).Map(std::as_const(f)); break;
					case 2: std::forward<Q>(result).Map(std::move(f)); break;
					case 3: std::forward<Q>(result).Map(std::move(std::as_const(f))); break;
				}
			};
			if (rvalue) call(std::move(r)); else call(std::as_const(r));
			for (int i = 0; i < 4; ++i) MC_CHECK(c.calls[i] == (ok && i == kind), "map", "Map of a functor of category %d called its operator of category %d %d times", kind, i, c.calls[i]);
		}
	}
	void categories()
	{
		mc::forAll([](mc::Exec& x)
		{
			bool ok = x.flip();
			x.step();
			category<Nz::Result<int, int>, Categories::F>(ok);
			category<Nz::Result<int, int>, Categories::G>(ok);
			category<Nz::Result<void, int>, Categories::F>(ok);
			category<Nz::Result<void, int>, Categories::G>(ok);
			mc::outcome(ok);
		});
	}

	// conversions between results
	struct BaseV : mc::Elem { BaseV() = delete; explicit BaseV(int n) : mc::Elem(n) {} };
	struct FromInt { int n; bool fromMove = false; FromInt(const int& v) : n(v) {} FromInt(int&& v) : n(v), fromMove(true) { v = -1; } };
	void conversions()
	{
		mc::forAll([&](mc::Exec& x)
		{
			bool ok = x.flip();
			int n = int(x.choose(5)) * 1000 - 2000;
			x.step();
			using Src = Nz::Result<int, short>;
			Src src = ok ? Src(Src::ValueTag{}, n) : Src(Src::ErrorTag{}, short(n));
			auto check = [&](auto&& r, auto&& value, auto&& error, const char* what)
			{
				MC_CHECK(r.IsOk() == ok && r.IsErr() == !ok, "conversion", "%s: state", what);
				if (ok) MC_CHECK(value(r) == n, "conversion", "%s: the value is not %d", what, n);
				else MC_CHECK(error(r) == n, "conversion", "%s: the error is not %d", what, n);
			};
			auto asIs = [](auto& r) { return (long long)(r.GetValue()); }; auto asErr = [](auto& r) { return (long long)(r.GetError()); };
			{ Nz::Result<long long, int> r(src); check(r, asIs, asErr, "widening"); }
			{ Nz::Result<long long, int> r(std::move(src)); check(r, asIs, asErr, "widening move"); }
			{ Nz::Result<short, long long> r = std::as_const(src); check(r, asIs, asErr, "value and error cross width"); }
			{ Nz::Result<int, int> r = src; check(r, asIs, asErr, "same types"); Nz::Result<short, short> q = r; check(q, asIs, asErr, "same types"); }
			{ Nz::Result<FromInt, long> r = src; check(r, [](auto& q) { return (long long)q->n; }, asErr, "not default constructible"); MC_CHECK(!ok || !r->fromMove, "conversion", "a copy conversion moved its source"); }
			{ Src s2 = src; Nz::Result<FromInt, long> r = std::move(s2); check(r, [](auto& q) { return (long long)q->n; }, asErr, "not default constructible (move)"); MC_CHECK(!ok || r->fromMove, "conversion", "a move conversion copied its source"); }
			{ using P = Nz::Result<std::unique_ptr<int>, int>; P p = ok ? P(P::ValueTag{}, new int(n)) : P(P::ErrorTag{}, n); Nz::Result<std::shared_ptr<int>, long> r = std::move(p); check(r, [](auto& q) { return (long long)**q; }, asErr, "move only"); }
			{ using Vd = Nz::Result<void, int>; Vd v = ok ? Vd(Nz::Ok()) : Vd(Vd::ErrorTag{}, n); Nz::Result<void, long> r(v); check(r, [&](auto&) { return (long long)n; }, asErr, "void"); Nz::Result<void, double> q(std::move(v)); check(q, [&](auto&) { return (long long)n; }, asErr, "void move"); }
			{ using P = Nz::Result<void, std::unique_ptr<int>>; P p = ok ? P(Nz::Ok()) : P(P::ErrorTag{}, new int(n)); Nz::Result<void, std::shared_ptr<int>> r = std::move(p); check(r, [&](auto&) { return (long long)n; }, [](auto& q) { return (long long)*q.GetError(); }, "move only error of a void result"); }
			{ using P = Nz::Result<char, std::unique_ptr<int>>; P p = ok ? P(P::ValueTag{}, 'a') : P(P::ErrorTag{}, new int(n)); Nz::Result<int, std::shared_ptr<int>> r = std::move(p); check(r, [&](auto& q) { return *q == 'a' ? (long long)n : -1; }, [](auto& q) { return (long long)*q.GetError(); }, "move only error"); }
			{ using P = Nz::Result<void, int>; P p = ok ? P(Nz::Ok()) : P(P::ErrorTag{}, n); Nz::Result<void, FromInt> c = std::as_const(p); Nz::Result<void, FromInt> r = std::move(p); check(r, [&](auto&) { return (long long)n; }, [](auto& q) { return (long long)q.GetError().n; }, "converted error of a void result"); MC_CHECK(ok || (r.GetError().fromMove && !c.GetError().fromMove), "conversion", "the error of a void result is copied and moved as its source"); }
			{ using P = Nz::Result<char, int>; P p = ok ? P(P::ValueTag{}, 'a') : P(P::ErrorTag{}, n); Nz::Result<int, FromInt> c = std::as_const(p); Nz::Result<int, FromInt> r = std::move(p); check(r, [&](auto& q) { return *q == 'a' ? (long long)n : -1; }, [](auto& q) { return (long long)q.GetError().n; }, "converted error"); MC_CHECK(ok || (r.GetError().fromMove && !c.GetError().fromMove), "conversion", "the error is copied and moved as its source"); }
			{ using P = Nz::Result<int, int>; P p = ok ? P(P::ValueTag{}, n) : P(P::ErrorTag{}, n); auto c = p.Map([](int v) { return v; }); auto m = std::move(p).Map([](int&& v) { return v; }); check(c, asIs, asErr, "mapped"); check(m, asIs, asErr, "mapped"); MC_CHECK(p.IsOk() == ok && (ok || p.GetError() == n), "conversion", "mapping"); }
			{ using P = Nz::Result<int, std::string>; std::string e(40, 'e'); P p = ok ? P(P::ValueTag{}, n) : P(P::ErrorTag{}, e); auto c = p.Map([](int v) { return v; }); const char* text = ok ? nullptr : p.GetError().data(); auto m = std::move(p).Map([](int&& v) { return v; }); MC_CHECK(ok || (c.GetError() == e && m.GetError() == e && m.GetError().data() == text), "conversion", "Map of a rvalue error copied it"); Nz::Result<long, std::string> k = std::move(m); MC_CHECK(ok || (k.GetError() == e && k.GetError().data() == text), "conversion", "converting a rvalue copied its error"); P a; a = P(typename P::ErrorTag{}, std::string(40, 'z')); const char* z = a.GetError().data(); P b = std::move(a); MC_CHECK(b.GetError().data() == z, "conversion", "moving a result copied its error"); P d; d = std::move(b); MC_CHECK(d.GetError().data() == z, "conversion", "moving a result copied its error"); }
			{ using S = Nz::Result<const char*, const char*>; std::string t = std::to_string(n); S s = ok ? S(S::ValueTag{}, t.c_str()) : S(S::ErrorTag{}, t.c_str()); Nz::Result<std::string, std::string> r(s); check(r, [](auto& q) { return (long long)std::stoi(*q); }, [](auto& q) { return (long long)std::stoi(q.GetError()); }, "strings"); }
			// conversions of the argument of Ok and Err
			{ Nz::Result<long long, std::string> r = ok ? Nz::Result<long long, std::string>(Nz::Ok(n)) : Nz::Result<long long, std::string>(Nz::Err(std::to_string(n))); check(r, asIs, [](auto& q) { return (long long)std::stoi(q.GetError()); }, "Ok of another type"); }
			{ short s = short(n); const short& cs = s; Nz::Result<long, int> r = Nz::Ok(s); MC_CHECK(r.GetValue() == n, "conversion", "Ok(lvalue)"); Nz::Result<long, int> q = Nz::Err(cs); MC_CHECK(q.GetError() == n, "conversion", "Err(const lvalue)"); Nz::Result<void, int> v = Nz::Err(cs); MC_CHECK(v.GetError() == n, "conversion", "Err(const lvalue)"); }
			{ std::string e(40, 'e'); Nz::Result<void, std::string> v = Nz::Err(e); MC_CHECK(e.size() == 40 && v.GetError() == e, "source-kept", "Err(lvalue) moved from it"); Nz::Result<int, std::string> w = Nz::Err(e); MC_CHECK(e.size() == 40 && w.GetError() == e, "source-kept", "Err(lvalue) moved from it"); Nz::Result<std::string, int> o = Nz::Ok(e); MC_CHECK(e.size() == 40 && o.GetValue() == e, "source-kept", "Ok(lvalue) moved from it"); }
			// default construction
			{ Nz::Result<int, std::string> r; MC_CHECK(r.IsOk() && *r == 0, "default", "default constructed result"); Nz::Result<std::string, int> q; MC_CHECK(q.IsOk() && q->empty(), "default", "default constructed result"); }
			static_assert(!std::is_default_constructible_v<Nz::Result<FromInt, int>>);
			mc::outcome(mc::u64(n + 5000) * 2 + ok);
		});
	}

	// NAZARA_TRY: the first error is returned and nothing after it runs
	struct Script { std::vector<int> trace; std::vector<bool> ok; };
	using RV = Nz::Result<mc::Elem, ErrElem>;
	using R0 = Nz::Result<void, ErrElem>;
	RV step(Script& s, int i) { s.trace.push_back(i); if (s.ok[i]) return Nz::Ok(mc::Elem(10 + i)); return Nz::Err(ErrElem(-10 - i)); }
	R0 stepVoid(Script& s, int i) { s.trace.push_back(i); if (s.ok[i]) return Nz::Ok(); return Nz::Err(ErrElem(-10 - i)); }
	RV chain(Script& s)
	{
		NAZARA_TRY(stepVoid(s, 0));
		NAZARA_TRY_VALUE(mc::Elem v, step(s, 1));
		if (s.ok.size() > 4)
			NAZARA_TRY(step(s, 4));
		else
			s.trace.push_back(-1);
		NAZARA_TRY_VALUE(auto w, step(s, 2));
		RV kept = step(s, 3);
		NAZARA_TRY(kept);
		MC_CHECK(kept.GetValue().get() == 13, "try", "NAZARA_TRY moved the value of a lvalue");
		return Nz::Ok(mc::Elem(v.get() + w.get()));
	}
	R0 chainVoid(Script& s)
	{
		mc::Elem v(0);
		NAZARA_TRY_VALUE(v, chain(s));
		MC_CHECK(v.get() == 23, "try", "NAZARA_TRY_VALUE assigned %d", v.get());
		s.trace.push_back(100);
		NAZARA_TRY(chain(s));
		s.trace.push_back(101);
		return Nz::Ok();
	}
	void tries()
	{
		mc::forAll([&](mc::Exec& x)
		{
			mc::g_life.reset();
			{
				Script s;
				unsigned n = 4 + x.choose(2);
				for (unsigned i = 0; i < n; ++i) s.ok.push_back(x.flip());
				bool outer = x.flip();
				x.step();
				std::vector<int> order{ 0, 1, n > 4 ? 4 : -1, 2, 3 }, want;
				int firstError = -1;
				auto once = [&] { for (int i : order) { want.push_back(i); if (i >= 0 && !s.ok[i]) { firstError = i; return; } } };
				once();
				bool ok; int got;
				if (!outer) { RV r = chain(s); ok = r.IsOk(); got = ok ? r->get() : r.GetError().get(); if (ok) MC_CHECK(got == 23, "try", "result %d", got); }
				else
				{
					if (firstError < 0) { want.push_back(100); once(); want.push_back(101); }
					R0 r = chainVoid(s); ok = r.IsOk(); got = ok ? 0 : r.GetError().get();
				}
				MC_CHECK(ok == (firstError < 0), "try", "the function returned %s, first error %d", ok ? "a value" : "an error", firstError);
				if (!ok) MC_CHECK(got == -10 - firstError, "try", "returned error %d, expected the one of step %d", got, firstError);
				MC_CHECK(s.trace == want, "try", "steps executed: %zu, expected %zu", s.trace.size(), want.size());
			}
			mc::lifeExpect(0, "NAZARA_TRY");
		});
	}
}
MC_SUITE(elem_err) { Checker<mc::Elem, ErrElem>::all(); }
MC_SUITE(same_types) { Checker<mc::Elem, mc::Elem>::all(); }
MC_SUITE(no_default) { Checker<NoDefault, ErrElem>::all(); }
MC_SUITE(list_value) { Checker<mc::Listed, ErrElem>::all(); }
MC_SUITE(list_error) { Checker<mc::Elem, mc::Listed>::all(); }
MC_SUITE(move_only_value) { Checker<mc::MoveOnly, ErrElem>::all(); }
MC_SUITE(move_only_error) { Checker<mc::Elem, mc::MoveOnly>::all(); }
MC_SUITE(void_value) { Checker<void, ErrElem>::all(); }
MC_SUITE(void_move_only) { Checker<void, mc::MoveOnly>::all(); }
MC_SUITE(faults) { Checker<ThrowVal, ThrowErr>::faults(); }
MC_SUITE(faults_same) { Checker<ThrowVal, ThrowVal>::faults(); }
MC_SUITE(faults_void) { Checker<void, ThrowErr>::faults(); }
MC_SUITE(categories) { categories(); }
MC_SUITE(conversions) { conversions(); }
MC_SUITE(tries) { tries(); }
