// C38: what the types of the library answer to the language (can it be constructed, converted, assigned, called, moved without copies?)
// is what really happens: what is offered compiles and works, what the element types do not allow is not offered.
// MC_PART 0: movable values, 1: results, 2: function references and sparse pointers, 3: placement in standard containers, 4: iterators
#include <NazaraUtils/Bitset.hpp>
#include <NazaraUtils/CallOnExit.hpp>
#include <NazaraUtils/EnumArray.hpp>
#include <NazaraUtils/FixedVector.hpp>
#include <NazaraUtils/Flags.hpp>
#include <NazaraUtils/FunctionRef.hpp>
#include <NazaraUtils/MemoryPool.hpp>
#include <NazaraUtils/MovablePtr.hpp>
#include <NazaraUtils/MovableValue.hpp>
#include <NazaraUtils/PrivateImpl.hpp>
#include <NazaraUtils/Result.hpp>
#include <NazaraUtils/Signal.hpp>
#include <NazaraUtils/SparsePtr.hpp>
#include <NazaraUtils/StackArray.hpp>
#include <NazaraUtils/StackVector.hpp>
#include "mc.hpp"
#include <algorithm>
#include <any>
#include <deque>
#include <iterator>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <variant>
#include <vector>

namespace { enum class Flag { A, B, Max = B }; }
namespace Nz { template<> struct EnumAsFlags<Flag> { static constexpr Flag max = Flag::Max; }; }
namespace
{
	template<typename... Ts> struct Types { static constexpr std::size_t size = sizeof...(Ts); };
	template<typename T> struct Tag { using type = T; };
	template<typename... Ts, typename F> void each(Types<Ts...>, F&& f) { unsigned i = 0; (f(Tag<Ts>{}, i++), ...); }

	struct Base { int b = 1; };
	struct Derived : Base { int d = 2; };
	enum class Color { Red, Green, Max = Green };
	struct ExplicitFromInt { explicit ExplicitFromInt(int v) : v(v) {} int v; };
	struct ImplicitFromInt { ImplicitFromInt(int v) : v(v) {} int v; };
	struct NoDefault { NoDefault(const char*) {} NoDefault(const NoDefault&) = default; };
	struct MoveOnly { MoveOnly() = default; MoveOnly(MoveOnly&&) = default; MoveOnly& operator=(MoveOnly&&) = default; int v = 0; };
	struct FromMoveOnly { FromMoveOnly(MoveOnly&& m) : v(m.v) {} int v; };
	struct NotAssignable { NotAssignable() = default; NotAssignable(const NotAssignable&) = default; NotAssignable& operator=(const NotAssignable&) = delete; };
	struct AssignOnlyFromString { AssignOnlyFromString() = default; AssignOnlyFromString& operator=(const std::string&) { return *this; } };
	struct ToInt { operator int() const { return 4; } };

	// creates a value of each type
	template<typename T> T make()
	{
		using D = std::decay_t<T>;
		if constexpr (std::is_same_v<D, ExplicitFromInt> || std::is_same_v<D, ImplicitFromInt>) return D(3);
		else if constexpr (std::is_same_v<D, NoDefault>) return D("x");
		else if constexpr (std::is_same_v<D, FromMoveOnly>) return D(MoveOnly {});
		else if constexpr (std::is_same_v<D, const char*>) return "text";
		else return D();
	}

	using Values = Types<bool, int, long long, double, const char*, std::string, Color, Base*, Derived*, Base, Derived, ExplicitFromInt, ImplicitFromInt, NoDefault, MoveOnly, FromMoveOnly, NotAssignable, AssignOnlyFromString, ToInt, std::unique_ptr<int>, std::vector<int>>;
#define AGREE(key, got, want, ...) do { if constexpr (bool(got) != bool(want)) MC_CHECK(false, key, __VA_ARGS__); } while (false)

#if MC_PART == 0
	// ------------------------------------------------------------------ movable values

	template<typename M, typename T, typename U> void movablePair()
	{
		// as a temporary, an object and a constant object
		AGREE("construct", (std::is_constructible_v<M, U>), (std::is_constructible_v<T, U>), "construction from a temporary");
		AGREE("construct", (std::is_constructible_v<M, U&>), (std::is_constructible_v<T, U&>), "construction from an object");
		AGREE("construct", (std::is_constructible_v<M, const U&>), (std::is_constructible_v<T, const U&>), "construction from a constant object");
		AGREE("assign", (std::is_assignable_v<M&, U>), (std::is_assignable_v<T&, U> || std::is_constructible_v<T, U>), "assignment of a temporary");
		AGREE("assign", (std::is_assignable_v<M&, const U&>), (std::is_assignable_v<T&, const U&> || std::is_constructible_v<T, const U&>), "assignment of a constant object");
		AGREE("assign", (std::is_assignable_v<const M&, U>), false, "assignment to a constant object");
		// what is offered compiles
		if constexpr (std::is_constructible_v<M, U>) { M m(make<U>()); mc::outcome(sizeof(m)); }
		if constexpr (std::is_constructible_v<M, const U&>) { const U u = make<U>(); M m(u); mc::outcome(sizeof(m)); }
	}
	template<typename M, typename T, typename U> void movableAssign()
	{
		// an assignment by way of a construction ends with a move of the value, which has to exist
		if constexpr (std::is_assignable_v<T&, U> && std::is_default_constructible_v<M>) { M m; m = make<U>(); mc::outcome(sizeof(m)); }
	}
	void movables()
	{
		mc::pointName("type, source");
		each(Values {}, [](auto t, unsigned i)
		{
			using T = typename decltype(t)::type; using M = Nz::MovableValue<T>;
			mc::point(i, 0);
			AGREE("default", std::is_default_constructible_v<M>, std::is_default_constructible_v<T>, "default construction");
			AGREE("copy", std::is_copy_constructible_v<M>, std::is_copy_constructible_v<T>, "copy construction");
			AGREE("move", std::is_nothrow_move_constructible_v<M>, true, "the move constructor may throw");
			AGREE("move", std::is_nothrow_move_assignable_v<M>, true, "the move assignment may throw");
			AGREE("convert", (std::is_convertible_v<M&, T&>), true, "conversion to a reference");
			AGREE("convert", (std::is_convertible_v<M, T&&>), true, "conversion of a temporary");
			AGREE("convert", (std::is_convertible_v<const M&, const T&>), true, "conversion of a constant");
			AGREE("convert", (std::is_convertible_v<const M&, T&>), false, "a constant gives a mutable reference");
			AGREE("convert", (std::is_convertible_v<T&&, M>), true, "conversion from a value");
			if constexpr (std::is_default_constructible_v<M>) { M m; mc::outcome(sizeof(m)); M n(std::move(m)); mc::outcome(sizeof(n)); }
			each(Values {}, [&](auto u, unsigned k)
			{
				using U = typename decltype(u)::type;
				mc::point(i, k + 1);
				movablePair<M, T, U>();
				movableAssign<M, T, U>();
			});
		});
		using Literals = Types<Nz::MovableLiteral<int, 3>, Nz::MovableLiteral<bool, true>, Nz::MovableLiteral<Color, Color::Green>, Nz::MovableLiteral<unsigned char, 7>>;
		each(Literals {}, [](auto m, unsigned i)
		{
			using M = typename decltype(m)::type; using T = std::decay_t<decltype(std::declval<M&>().Get())>;
			mc::point(100 + i, 0);
			AGREE("default", std::is_default_constructible_v<M> && std::is_copy_constructible_v<M> && std::is_copy_assignable_v<M>, true, "default construction and copy");
			AGREE("move", std::is_nothrow_move_constructible_v<M> && std::is_nothrow_move_assignable_v<M>, true, "a move may throw");
			AGREE("convert", (std::is_convertible_v<M&, T&> && std::is_convertible_v<M, T&&> && std::is_convertible_v<const M&, const T&>), true, "conversions");
			AGREE("convert", (std::is_convertible_v<const M&, T&>), false, "a constant gives a mutable reference");
			each(Values {}, [&](auto u, unsigned k)
			{
				using U = typename decltype(u)::type;
				mc::point(100 + i, k + 1);
				movablePair<M, T, U>();
				movableAssign<M, T, U>();
			});
		});
	}

#endif
#if MC_PART == 1
	// ------------------------------------------------------------------ results
	using ResultParts = Types<int, long long, std::string, const char*, Base*, Derived*, ImplicitFromInt, ExplicitFromInt, MoveOnly, FromMoveOnly, std::unique_ptr<Base>, std::unique_ptr<Derived>>;
	template<typename R1, typename R2> void resultPair(bool, bool) {}
	template<typename To, typename From> constexpr bool Converts = std::is_convertible_v<From, To>;
	template<typename V, typename E, typename V2, typename E2> void resultConversion()
	{
		using To = Nz::Result<V, E>; using From = Nz::Result<V2, E2>;
		constexpr bool same = std::is_same_v<To, From>;
		constexpr bool lvalue = same ? std::is_copy_constructible_v<V> && std::is_copy_constructible_v<E> : Converts<V, const V2&> && Converts<E, const E2&>;
		constexpr bool rvalue = same ? true : (Converts<V, V2> && Converts<E, E2>) || lvalue;
		AGREE("convert", (std::is_constructible_v<To, From>), rvalue, "a result is %sconvertible although its value and its error %s", rvalue ? "not " : "", rvalue ? "are" : "are not both");
		AGREE("convert", (std::is_convertible_v<From, To>), rvalue, "a result is %simplicitly convertible", rvalue ? "not " : "");
		AGREE("convert", (std::is_constructible_v<To, const From&>), lvalue, "a constant result is %sconvertible although its value and its error %s", lvalue ? "not " : "", lvalue ? "are" : "are not both");
		AGREE("convert", (std::is_assignable_v<To&, From>), rvalue, "assignment of a result");
		if constexpr (std::is_constructible_v<To, From>) { From f = Nz::Ok(make<V2>()); To t(std::move(f)); MC_CHECK(t.IsOk(), "convert", "the state of a converted result"); From g = Nz::Err(make<E2>()); To u(std::move(g)); MC_CHECK(u.IsErr(), "convert", "the state of a converted result"); mc::outcome(t.IsOk()); }
		if constexpr (lvalue) { const From f = Nz::Ok(make<V2>()); To t(f); MC_CHECK(t.IsOk() && f.IsOk(), "convert", "the state of a converted result"); const From g = Nz::Err(make<E2>()); To u(g); MC_CHECK(u.IsErr() && g.IsErr(), "convert", "the state of a converted result"); }
	}
	template<typename E, typename E2> void voidConversion()
	{
		using To = Nz::Result<void, E>; using From = Nz::Result<void, E2>;
		constexpr bool same = std::is_same_v<To, From>;
		constexpr bool lvalue = same ? std::is_copy_constructible_v<E> : Converts<E, const E2&>;
		constexpr bool rvalue = same || Converts<E, E2> || lvalue;
		AGREE("convert", (std::is_constructible_v<To, From>), rvalue, "a result without value is %sconvertible although its error %s", rvalue ? "not " : "", rvalue ? "is" : "is not");
		AGREE("convert", (std::is_constructible_v<To, const From&>), lvalue, "a constant result without value is %sconvertible although its error %s", lvalue ? "not " : "", lvalue ? "is" : "is not");
		if constexpr (std::is_constructible_v<To, From>) { From f = Nz::Ok(); To t(std::move(f)); MC_CHECK(t.IsOk(), "convert", "the state of a converted result"); From g = Nz::Err(make<E2>()); To u(std::move(g)); MC_CHECK(u.IsErr(), "convert", "the state of a converted result"); mc::outcome(t.IsOk()); }
		if constexpr (lvalue) { const From f = Nz::Ok(); To t(f); MC_CHECK(t.IsOk(), "convert", "the state of a converted result"); const From g = Nz::Err(make<E2>()); To u(g); MC_CHECK(u.IsErr(), "convert", "the state of a converted result"); }
	}
	void results()
	{
		mc::pointName("value, error, source value, source error");
		each(ResultParts {}, [](auto v, unsigned a) { each(ResultParts {}, [&](auto e, unsigned b)
		{
			using V = typename decltype(v)::type; using E = typename decltype(e)::type; using R = Nz::Result<V, E>;
			mc::point(a, b, 0);
			AGREE("default", std::is_default_constructible_v<R>, std::is_default_constructible_v<V>, "default construction");
			AGREE("copy", std::is_copy_constructible_v<R>, std::is_copy_constructible_v<V> && std::is_copy_constructible_v<E>, "copy construction");
			AGREE("move", std::is_nothrow_move_constructible_v<R>, std::is_nothrow_move_constructible_v<V> && std::is_nothrow_move_constructible_v<E>, "nothrow move construction");
			AGREE("copy", std::is_copy_assignable_v<R>, std::is_copy_constructible_v<V> && std::is_copy_constructible_v<E>, "copy assignment");
			AGREE("value", (std::is_constructible_v<R, V>), (!std::is_same_v<V, E>), "construction from a value");
			AGREE("bool", (std::is_convertible_v<R, bool>), false, "a result is implicitly a condition");
			AGREE("bool", (std::is_constructible_v<bool, const R&>), true, "a result is not a condition");
			if constexpr (std::is_default_constructible_v<V>) { R r; MC_CHECK(r.IsOk(), "default", "a default result has no value"); }
		}); });
		// every conversion between two results: the values vary with the errors fixed, and the reverse, then both
		each(ResultParts {}, [](auto v, unsigned a) { each(ResultParts {}, [&](auto v2, unsigned b)
		{
			using V = typename decltype(v)::type; using V2 = typename decltype(v2)::type;
			mc::point(a, b, 1); resultConversion<V, int, V2, int>();
			mc::point(a, b, 2); resultConversion<V, long long, V2, int>();
			mc::point(a, b, 3); resultConversion<int, V, int, V2>();
			mc::point(a, b, 4); resultConversion<std::string, V, const char*, V2>();
			mc::point(a, b, 5); resultConversion<V, std::string, V2, Base*>();
			mc::point(a, b, 6); resultConversion<V, std::unique_ptr<Base>, V2, std::unique_ptr<Derived>>();
			mc::point(a, b, 7); voidConversion<V, V2>();
			AGREE("convert", (std::is_constructible_v<Nz::Result<void, V>, Nz::Result<V2, V>>), false, "a result with a value converts into one without");
			if constexpr (!std::is_same_v<V2, Nz::Result<void, V>>) AGREE("convert", (std::is_constructible_v<Nz::Result<V2, V>, Nz::Result<void, V>>), false, "a result without value converts into one with a value");
		}); });
	}

#endif
#if MC_PART == 2
	// ------------------------------------------------------------------ function references
	struct CallConst { int operator()(int v) const { return v + 1; } };
	struct CallMutable { int operator()(int v) { return v + 1; } };
	struct CallLvalue { int operator()(int v) & { return v + 1; } };
	struct CallString { std::string operator()(const std::string& s) const { return s; } };
	struct CallVoid { void operator()() const {} };
	struct CallAny { template<typename... A> int operator()(A&&...) const { return int(sizeof...(A)); } };
	struct CallOverloaded { int operator()(int) const { return 1; } const char* operator()(const char* s) const { return s; } };
	struct CallNothing {};
	int freeInt(int v) { return v; }
	void freeVoid() {}
	const char* freeText(const char* s) { return s; }
	using Functors = Types<CallConst, CallMutable, CallLvalue, CallString, CallVoid, CallAny, CallOverloaded, CallNothing, decltype(&freeInt), decltype(&freeVoid), decltype(&freeText), int, std::string, std::nullptr_t>;
	using Signatures = Types<int(int), void(), void(int), long long(short), std::string(const std::string&), const char*(const char*), std::string(const char*), int(), bool(int, int), MoveOnly(), int(MoveOnly)>;
	template<typename S> struct Sig;
	template<typename R, typename... A> struct Sig<R(A...)>
	{
		using Pointer = R(*)(A...); using Ref = Nz::FunctionRef<R(A...)>;
		template<typename F> static constexpr bool calls = std::is_invocable_r_v<R, F, A...>;
		template<typename F> static void use(F& f) { Ref r(f); mc::outcome(bool(r)); }
	};
	void functions()
	{
		mc::pointName("signature, functor or signature");
		each(Signatures {}, [](auto s, unsigned i)
		{
			using S = Sig<typename decltype(s)::type>; using Ref = typename S::Ref;
			mc::point(i, 0);
			AGREE("copy", std::is_trivially_copyable_v<Ref> && std::is_nothrow_copy_constructible_v<Ref> && std::is_copy_assignable_v<Ref>, true, "a reference to a function is not trivially copied");
			AGREE("default", std::is_default_constructible_v<Ref>, false, "a reference to nothing by default");
			AGREE("null", (std::is_convertible_v<std::nullptr_t, Ref> && std::is_nothrow_constructible_v<Ref, std::nullptr_t>), true, "no conversion from nullptr");
			AGREE("bool", (std::is_convertible_v<Ref, bool>), false, "implicit condition");
			each(Functors {}, [&](auto f, unsigned k)
			{
				using F = typename decltype(f)::type;
				mc::point(i, 1 + k);
				if constexpr (!std::is_same_v<F, std::nullptr_t>)
				{
					AGREE("construct", (std::is_constructible_v<Ref, F&>), (S::template calls<F&>), "a functor is %s although a call %s possible", S::template calls<F&> ? "refused" : "accepted", S::template calls<F&> ? "is" : "is not");
					AGREE("construct", (std::is_constructible_v<Ref, const F&>), (S::template calls<const F&>), "a constant functor is %s although a call %s possible", S::template calls<const F&> ? "refused" : "accepted", S::template calls<const F&> ? "is" : "is not");
					AGREE("construct", (std::is_convertible_v<F&, Ref>), (S::template calls<F&>), "implicit conversion");
					AGREE("assign", (std::is_assignable_v<Ref&, F&>), (S::template calls<F&>), "assignment");
					if constexpr (S::template calls<F&>) { F value {}; S::use(value); }
					if constexpr (S::template calls<const F&>) { const F value {}; S::use(value); }
				}
				// calls: what a function of this signature accepts
				AGREE("call", (std::is_invocable_v<Ref, F>), (std::is_invocable_v<typename S::Pointer, F>), "a call with one argument is %s", std::is_invocable_v<typename S::Pointer, F> ? "refused" : "offered");
				AGREE("call", (std::is_invocable_v<const Ref&, const F&>), (std::is_invocable_v<typename S::Pointer, const F&>), "a call with one constant argument is %s", std::is_invocable_v<typename S::Pointer, const F&> ? "refused" : "offered");
				AGREE("call", (std::is_invocable_v<Ref, F, int>), (std::is_invocable_v<typename S::Pointer, F, int>), "a call with two arguments is %s", std::is_invocable_v<typename S::Pointer, F, int> ? "refused" : "offered");
			});
			each(Values {}, [&](auto v, unsigned k)
			{
				using V = typename decltype(v)::type;
				mc::point(i, 100 + k);
				AGREE("call", (std::is_invocable_v<Ref, V>), (std::is_invocable_v<typename S::Pointer, V>), "a call with one argument is %s", std::is_invocable_v<typename S::Pointer, V> ? "refused" : "offered");
				AGREE("call", (std::is_invocable_v<Ref, V, V>), (std::is_invocable_v<typename S::Pointer, V, V>), "a call with two arguments is %s", std::is_invocable_v<typename S::Pointer, V, V> ? "refused" : "offered");
			});
			AGREE("call", (std::is_invocable_v<Ref>), (std::is_invocable_v<typename S::Pointer>), "a call without argument");
			each(Signatures {}, [&](auto t, unsigned k)
			{
				using T = Sig<typename decltype(t)::type>;
				mc::point(i, 200 + k);
				// a reference to a function with another signature is a functor like another
				if constexpr (!std::is_same_v<S, T>) AGREE("construct", (std::is_constructible_v<Ref, typename T::Ref&>), (S::template calls<typename T::Pointer>), "a reference with another signature");
			});
		});
	}

	// ------------------------------------------------------------------ conversions of handles
	void handles()
	{
		mc::pointName("check");
		mc::point(0);
		AGREE("sparse", (std::is_convertible_v<int*, Nz::SparsePtr<int>> && std::is_convertible_v<int*, Nz::SparsePtr<const int>> && std::is_convertible_v<const int*, Nz::SparsePtr<const int>>), true, "conversion from a pointer");
		AGREE("sparse", (std::is_convertible_v<const int*, Nz::SparsePtr<int>>), false, "constness is lost");
		AGREE("sparse", (std::is_convertible_v<Nz::SparsePtr<int>, int*> || std::is_convertible_v<Nz::SparsePtr<int>, bool>), false, "a sparse pointer is implicitly a pointer");
		AGREE("sparse", (std::is_constructible_v<int*, Nz::SparsePtr<int>> && std::is_constructible_v<bool, Nz::SparsePtr<int>>), true, "a sparse pointer cannot be converted to a pointer");
		AGREE("sparse", (std::is_convertible_v<Nz::SparsePtr<int>, Nz::SparsePtr<const int>> && std::is_convertible_v<Nz::SparsePtr<Derived>, Nz::SparsePtr<Base>>), true, "conversion between sparse pointers");
		AGREE("sparse", std::is_trivially_copyable_v<Nz::SparsePtr<int>> && std::is_default_constructible_v<Nz::SparsePtr<int>>, true, "a sparse pointer is not trivially copied");
		mc::point(1);
		AGREE("movable-ptr", (std::is_convertible_v<int*, Nz::MovablePtr<int>> && std::is_convertible_v<Nz::MovablePtr<int>, int*> && std::is_convertible_v<Nz::MovablePtr<int>, const int*>), true, "conversions of a movable pointer");
		AGREE("movable-ptr", (std::is_convertible_v<const int*, Nz::MovablePtr<int>>), false, "constness is lost");
		AGREE("movable-ptr", std::is_nothrow_move_constructible_v<Nz::MovablePtr<int>> && std::is_nothrow_move_assignable_v<Nz::MovablePtr<int>> && std::is_copy_constructible_v<Nz::MovablePtr<int>>, true, "copies and moves of a movable pointer");
		AGREE("movable-ptr", (std::is_convertible_v<Derived*, Nz::MovablePtr<Base>>), true, "a pointer to a derived object");
		AGREE("movable-ptr", (std::is_convertible_v<Base*, Nz::MovablePtr<Derived>>), false, "a pointer to a base object");
		mc::point(2);
		using S = Nz::Signal<int>; using C = S::Connection; using G = S::ConnectionGuard;
		AGREE("signal", std::is_nothrow_move_constructible_v<S> && std::is_nothrow_move_assignable_v<S> && std::is_copy_constructible_v<S> && std::is_copy_assignable_v<S> && std::is_default_constructible_v<S>, true, "operations of a signal");
		AGREE("signal", std::is_nothrow_move_constructible_v<C> && std::is_nothrow_move_assignable_v<C> && std::is_copy_constructible_v<C> && std::is_copy_assignable_v<C> && std::is_default_constructible_v<C>, true, "operations of a connection");
		AGREE("signal", std::is_nothrow_move_constructible_v<G> && std::is_nothrow_move_assignable_v<G> && std::is_default_constructible_v<G>, true, "operations of a guard");
		AGREE("signal", std::is_copy_constructible_v<G> || std::is_copy_assignable_v<G>, false, "a guard is copied");
		AGREE("signal", (std::is_convertible_v<const C&, G> && std::is_convertible_v<C, G> && std::is_assignable_v<G&, const C&> && std::is_assignable_v<G&, C>), true, "a guard of a connection");
		AGREE("signal", (std::is_convertible_v<G, C>), false, "a connection made of a guard");
		AGREE("signal", (std::is_invocable_v<const S&, int> && !std::is_invocable_v<const S&> && !std::is_invocable_v<const S&, int, int> && !std::is_invocable_v<const S&, std::string>), true, "emission of a signal");
		mc::point(3);
		using F = Nz::CallOnExit<CallVoid>;
		AGREE("guard", std::is_default_constructible_v<F>, true, "an empty guard");
		AGREE("guard", std::is_copy_constructible_v<F> || std::is_move_constructible_v<F> || std::is_copy_assignable_v<F>, false, "a guard is copied");
		AGREE("guard", std::is_move_assignable_v<F>, true, "a guard is not assigned");
		mc::point(4);
		using P = Nz::MemoryPool<std::string>;
		AGREE("pool", std::is_copy_constructible_v<P> || std::is_copy_assignable_v<P> || std::is_default_constructible_v<P>, false, "a pool is copied");
		AGREE("pool", std::is_nothrow_move_constructible_v<P> && std::is_nothrow_move_assignable_v<P>, true, "a pool is not moved");
		mc::point(5);
		using SA = Nz::StackArray<std::string>; using SV = Nz::StackVector<std::string>;
		AGREE("stack", std::is_copy_constructible_v<SA> || std::is_copy_assignable_v<SA> || std::is_copy_constructible_v<SV> || std::is_copy_assignable_v<SV>, false, "an array of the stack is copied");
		AGREE("stack", std::is_move_constructible_v<SA> && std::is_move_assignable_v<SA> && std::is_move_constructible_v<SV> && std::is_move_assignable_v<SV> && std::is_default_constructible_v<SA> && std::is_default_constructible_v<SV>, true, "an array of the stack is not moved");
		mc::point(6);
		using EA = Nz::EnumArray<Color, int>;
		AGREE("enum-array", std::is_trivially_copyable_v<EA> && std::is_aggregate_v<EA> && sizeof(EA) == 2 * sizeof(int), true, "an array of integers is not a plain aggregate");
		AGREE("enum-array", (std::is_copy_constructible_v<Nz::EnumArray<Color, MoveOnly>>), false, "an array of move only elements is copied");
		AGREE("enum-array", (std::is_move_constructible_v<Nz::EnumArray<Color, MoveOnly>>), true, "an array of move only elements is not moved");
	}

#endif
#if MC_PART == 3
	// ------------------------------------------------------------------ what standard containers do with them
	int g_copies = 0;
	struct Counted
	{
		Counted(int v = 0) : v(v) {}
		Counted(const Counted& o) : v(o.v) { ++g_copies; }
		Counted(Counted&& o) noexcept : v(o.v) { o.v = -1; }
		Counted& operator=(const Counted& o) { v = o.v; ++g_copies; return *this; }
		Counted& operator=(Counted&& o) noexcept { v = o.v; o.v = -1; return *this; }
		bool operator<(const Counted& o) const { return v < o.v; }
		int v;
	};
	template<typename X> struct Access;
	template<std::size_t N> struct Access<Nz::FixedVector<Counted, N>> { using X = Nz::FixedVector<Counted, N>; static X make(int v) { X x; x.emplace_back(v); return x; } static int get(const X& x) { return x.size() == 1 ? x[0].v : -2; } };
	template<std::size_t N> struct Access<Nz::HybridVector<Counted, N>> { using X = Nz::HybridVector<Counted, N>; static X make(int v) { X x; for (int i = 0; i < 3; ++i) x.emplace_back(v + i * 1000); return x; } static int get(const X& x) { return x.size() == 3 && x[2].v == x[0].v + 2000 ? x[0].v : -2; } };
	template<typename E> struct Access<Nz::Result<Counted, E>> { using X = Nz::Result<Counted, E>; static X make(int v) { return X(typename X::ValueTag {}, v); } static int get(const X& x) { return x.IsOk() ? x.GetValue().v : -2; } };
	template<typename V> struct Access<Nz::Result<V, Counted>> { using X = Nz::Result<V, Counted>; static X make(int v) { return X(typename X::ErrorTag {}, v); } static int get(const X& x) { return x.IsErr() ? x.GetError().v : -2; } };
	template<> struct Access<Nz::MovableValue<Counted>> { using X = Nz::MovableValue<Counted>; static X make(int v) { return X(v); } static int get(const X& x) { return x.Get().v; } };
	template<> struct Access<Nz::PrivateImpl<Counted>> { using X = Nz::PrivateImpl<Counted>; static X make(int v) { return X(v); } static int get(const X& x) { return x->v; } };
	template<> struct Access<Nz::PrivateImpl<Counted, 16>> { using X = Nz::PrivateImpl<Counted, 16>; static X make(int v) { return X(v); } static int get(const X& x) { return x->v; } };
	template<> struct Access<Nz::EnumArray<Color, Counted>> { using X = Nz::EnumArray<Color, Counted>; static X make(int v) { X x; x[Color::Red].v = v; x[Color::Green].v = v + 1000; return x; } static int get(const X& x) { return x[Color::Green].v == x[Color::Red].v + 1000 ? x[Color::Red].v : -2; } };
	template<> struct Access<Nz::Bitset<Nz::UInt64>> { using X = Nz::Bitset<Nz::UInt64>; static X make(int v) { X x(512, false); x.Set(std::size_t(v), true); return x; } static int get(const X& x) { return x.GetSize() == 512 ? int(x.FindFirst()) : -2; } };
	template<> struct Access<Nz::MovablePtr<int>> { using X = Nz::MovablePtr<int>; static int* base() { static int b[512]; return b; } static X make(int v) { return X(base() + v); } static int get(const X& x) { return x.Get() ? int(x.Get() - base()) : -2; } };
	template<> struct Access<Nz::MemoryPool<Counted>> { using X = Nz::MemoryPool<Counted>; static X make(int v) { X x(4); std::size_t i; x.Allocate(i, v); return x; } static int get(const X& x) { return x.GetAllocatedEntryCount() == 1 ? x.RetrieveFromIndex(0)->v : -2; } };
	struct Emitter { Nz::Signal<int&> signal; };
	template<> struct Access<Nz::Signal<int&>> { using X = Nz::Signal<int&>; static X make(int v) { X x; x.Connect([v, c = Counted(v)](int& r) { r = v + c.v * 0; }); return x; } static int get(const X& x) { int r = -2; x(r); return r; } };
	using Placed = Types<Nz::FixedVector<Counted, 2>, Nz::HybridVector<Counted, 1>, Nz::HybridVector<Counted, 4>, Nz::Result<Counted, int>, Nz::Result<void, Counted>, Nz::Result<std::string, Counted>, Nz::MovableValue<Counted>, Nz::PrivateImpl<Counted>, Nz::PrivateImpl<Counted, 16>,
		Nz::EnumArray<Color, Counted>, Nz::Bitset<Nz::UInt64>, Nz::MovablePtr<int>, Nz::MemoryPool<Counted>, Nz::Signal<int&>>;
	void placement()
	{
		mc::pointName("type, elements");
		each(Placed {}, [](auto t, unsigned i)
		{
			using X = typename decltype(t)::type; using A = Access<X>;
			for (int n = 1; n <= mc::pick(40, 400); ++n)
			{
				mc::point(i, n);
				{ // growth of a vector: elements are moved, never copied, and keep their contents
					std::vector<X> v;
					for (int k = 0; k < n; ++k) v.push_back(A::make(k % 500));
					g_copies = 0;
					const std::size_t heap = v.capacity();
					while (v.capacity() == heap) v.push_back(A::make(7));
					v.insert(v.begin() + n / 2, A::make(8));
					v.erase(v.begin() + n / 2);
					v.shrink_to_fit();
					const int copies = g_copies;
					MC_CHECK(copies == (std::is_same_v<X, Nz::Signal<int&>> ? copies : 0), "vector", "a vector which grows copies its elements %d times", copies);
					for (int k = 0; k < n; ++k) MC_CHECK(A::get(v[std::size_t(k)]) == k % 500, "vector", "element %d changed when the vector grew", k);
				}
				{ // sorting, rotating and swapping
					std::vector<X> v;
					for (int k = 0; k < n; ++k) v.push_back(A::make((k * 7) % n % 500));
					g_copies = 0;
					std::sort(v.begin(), v.end(), [](const X& a, const X& b) { return A::get(a) < A::get(b); });
					std::rotate(v.begin(), v.begin() + n / 3, v.end());
					std::reverse(v.begin(), v.end());
					using std::swap;
					swap(v.front(), v.back());
					MC_CHECK(g_copies == 0, "sort", "sorting copies the elements %d times", g_copies);
					std::vector<int> got, want;
					for (auto& x : v) got.push_back(A::get(x));
					for (int k = 0; k < n; ++k) want.push_back((k * 7) % n % 500);
					std::sort(want.begin(), want.end());
					std::rotate(want.begin(), want.begin() + n / 3, want.end());
					std::reverse(want.begin(), want.end());
					std::swap(want.front(), want.back());
					MC_CHECK(got == want, "sort", "sorting does not give the elements in order");
				}
				if (n <= 4)
				{ // alternatives and options
					std::optional<X> o; o.emplace(A::make(n)); std::optional<X> p(std::move(o)); MC_CHECK(A::get(*p) == n, "optional", "contents");
					std::variant<int, X> w(std::in_place_index<1>, A::make(n)); std::variant<int, X> z(std::move(w)); MC_CHECK(A::get(std::get<1>(z)) == n, "variant", "contents");
					std::map<int, X> m; for (int k = 0; k < n; ++k) m.emplace(k, A::make(k)); auto m2 = std::move(m); for (int k = 0; k < n; ++k) MC_CHECK(A::get(m2.at(k)) == k, "map", "contents");
					std::pair<X, int> q(A::make(n), n); std::pair<X, int> q2(std::move(q)); MC_CHECK(A::get(q2.first) == n, "pair", "contents");
					auto u = std::make_unique<X>(A::make(n)); MC_CHECK(A::get(*u) == n, "unique", "contents");
					std::deque<X> d; for (int k = 0; k < n; ++k) { d.push_back(A::make(k)); d.push_front(A::make(k)); } MC_CHECK(A::get(d.front()) == n - 1 && A::get(d.back()) == n - 1, "deque", "contents");
				}
				mc::outcome(mc::u64(n));
			}
		});
	}

#endif
#if MC_PART == 4
	// ------------------------------------------------------------------ iterators
	template<typename It, typename Category, typename Value> void iterator(unsigned i)
	{
		using Tr = std::iterator_traits<It>;
		mc::point(i);
		AGREE("category", (std::is_base_of_v<Category, typename Tr::iterator_category>), true, "the category of an iterator is too weak");
		AGREE("value", (std::is_same_v<std::remove_cv_t<typename Tr::value_type>, Value>), true, "the value type of an iterator");
		AGREE("difference", (std::is_signed_v<typename Tr::difference_type> && sizeof(typename Tr::difference_type) >= sizeof(std::ptrdiff_t)), true, "the distance between two iterators may not fit its type");
		AGREE("reference", (std::is_convertible_v<typename Tr::reference, const Value&>), true, "the reference of an iterator");
		AGREE("reference", (std::is_same_v<decltype(*std::declval<It&>()), typename Tr::reference>), true, "the reference of an iterator is not what it gives");
		AGREE("copy", std::is_copy_constructible_v<It> && std::is_copy_assignable_v<It> && std::is_move_constructible_v<It> && std::is_move_assignable_v<It> && std::is_destructible_v<It> && std::is_swappable_v<It>, true, "an iterator is not copied, moved or swapped");
		AGREE("increment", (std::is_same_v<decltype(++std::declval<It&>()), It&>), true, "++ does not give the iterator");
		AGREE("increment", (std::is_convertible_v<decltype(std::declval<It&>()++), const It&> || std::is_same_v<decltype(std::declval<It&>()++), void>), true, "the former position");
		AGREE("compare", (std::is_convertible_v<decltype(std::declval<const It&>() == std::declval<const It&>()), bool> && std::is_convertible_v<decltype(std::declval<const It&>() != std::declval<const It&>()), bool>), true, "comparison");
		if constexpr (std::is_base_of_v<std::random_access_iterator_tag, Category>)
		{
			using D = typename Tr::difference_type;
			AGREE("random", (std::is_same_v<decltype(std::declval<It&>() += D()), It&> && std::is_same_v<decltype(std::declval<It&>() -= D()), It&> && std::is_same_v<decltype(std::declval<const It&>() + D()), It> && std::is_same_v<decltype(D() + std::declval<const It&>()), It> && std::is_same_v<decltype(std::declval<const It&>() - D()), It> && std::is_same_v<decltype(std::declval<const It&>() - std::declval<const It&>()), D> && std::is_convertible_v<decltype(std::declval<const It&>()[D()]), typename Tr::reference>), true, "movements of a random access iterator");
			AGREE("random", (std::is_convertible_v<decltype(std::declval<const It&>() < std::declval<const It&>()), bool> && std::is_convertible_v<decltype(std::declval<const It&>() >= std::declval<const It&>()), bool>), true, "order of random access iterators");
		}
		mc::outcome(i);
	}
	void iterators()
	{
		mc::pointName("iterator");
		using R = std::random_access_iterator_tag; using I = std::input_iterator_tag;
		iterator<Nz::FixedVector<int, 3>::iterator, R, int>(0);
		iterator<Nz::FixedVector<int, 3>::const_iterator, R, int>(1);
		iterator<Nz::FixedVector<int, 3>::reverse_iterator, R, int>(2);
		iterator<Nz::FixedVector<int, 3>::const_reverse_iterator, R, int>(3);
		iterator<Nz::HybridVector<std::string, 3>::iterator, R, std::string>(4);
		iterator<Nz::HybridVector<std::string, 3>::const_iterator, R, std::string>(5);
		iterator<Nz::StackVector<int>::iterator, R, int>(6);
		iterator<Nz::StackVector<int>::const_iterator, R, int>(7);
		iterator<Nz::StackVector<int>::reverse_iterator, R, int>(8);
		iterator<Nz::StackArray<int>::iterator, R, int>(9);
		iterator<Nz::StackArray<int>::const_iterator, R, int>(10);
		iterator<Nz::StackArray<int>::const_reverse_iterator, R, int>(11);
		iterator<decltype(std::declval<Nz::MemoryPool<int>&>().begin()), I, int>(12);
		iterator<decltype(std::declval<const Nz::MemoryPool<int>&>().begin()), I, int>(13);
		iterator<decltype(std::declval<Nz::Flags<Flag>&>().begin()), I, Flag>(14);
		iterator<decltype(std::declval<const Nz::Bitset<Nz::UInt64>&>().IterBits().begin()), I, std::size_t>(15);
		iterator<decltype(std::declval<const Nz::Bitset<Nz::UInt8, Nz::FixedVector<Nz::UInt8, 3>>&>().IterBits().begin()), I, std::size_t>(18);
		using K = decltype(std::declval<Nz::EnumArray<Color, int>&>().iter_kv().begin()); using KC = decltype(std::declval<const Nz::EnumArray<Color, int>&>().iter_kv().begin());
		iterator<K, I, std::iterator_traits<K>::value_type>(16);
		iterator<KC, I, std::iterator_traits<KC>::value_type>(17);
		// the distance types of the containers themselves
		mc::point(100);
		AGREE("difference", (sizeof(Nz::FixedVector<int, 3>::difference_type) >= sizeof(std::ptrdiff_t) && std::is_signed_v<Nz::FixedVector<int, 3>::difference_type>), true, "difference_type of a vector");
		AGREE("difference", (sizeof(Nz::FixedVector<int, 3>::size_type) >= sizeof(std::size_t) && std::is_unsigned_v<Nz::FixedVector<int, 3>::size_type>), true, "size_type of a vector");
		AGREE("difference", (sizeof(Nz::StackVector<int>::difference_type) >= sizeof(std::ptrdiff_t) && sizeof(Nz::StackVector<int>::size_type) >= sizeof(std::size_t)), true, "types of a vector of the stack");
		AGREE("difference", (sizeof(Nz::StackArray<int>::difference_type) >= sizeof(std::ptrdiff_t) && sizeof(Nz::StackArray<int>::size_type) >= sizeof(std::size_t)), true, "types of an array of the stack");
#ifdef __cpp_lib_ranges
		mc::point(101);
		AGREE("concept", (std::contiguous_iterator<Nz::FixedVector<int, 3>::iterator> && std::ranges::contiguous_range<Nz::FixedVector<int, 3>> && std::ranges::contiguous_range<const Nz::HybridVector<int, 3>> && std::ranges::sized_range<Nz::FixedVector<int, 3>>), true, "a vector is not a contiguous range");
		AGREE("concept", (std::ranges::contiguous_range<Nz::StackVector<int>> && std::ranges::contiguous_range<Nz::StackArray<int>> && std::ranges::sized_range<Nz::StackVector<int>>), true, "an array of the stack is not a contiguous range");
#endif
		// what algorithms do with the iterators which are not pointers
		mc::point(102);
		Nz::Bitset<Nz::UInt64> b(200, false); for (std::size_t k : { 0u, 63u, 64u, 150u, 199u }) b.Set(k, true);
		auto bits = b.IterBits();
		MC_CHECK(std::vector<std::size_t>(bits.begin(), bits.end()) == (std::vector<std::size_t> { 0, 63, 64, 150, 199 }) && std::distance(bits.begin(), bits.end()) == 5 && *std::next(bits.begin(), 3) == 150 && *std::find(bits.begin(), bits.end(), 64u) == 64, "algorithm", "bits given to an algorithm");
		Nz::MemoryPool<int> pool(3); for (int k = 0; k < 7; ++k) { std::size_t index; pool.Allocate(index, k); } pool.Free(std::size_t(2));
		MC_CHECK(std::distance(pool.begin(), pool.end()) == 6 && std::vector<int>(pool.begin(), pool.end()).size() == 6 && std::count_if(pool.begin(), pool.end(), [](int v) { return v == 2; }) == 0, "algorithm", "pool entries given to an algorithm");
		Nz::Flags<Flag> flags = Nz::Flags<Flag>(Flag::A) | Flag::B;
		MC_CHECK(std::vector<Flag>(flags.begin(), flags.end()) == (std::vector<Flag> { Flag::A, Flag::B }), "algorithm", "flags given to an algorithm");
	}
#endif
}

#if MC_PART == 0
MC_SUITE(query_movable) { movables(); }
#elif MC_PART == 1
MC_SUITE(query_result) { results(); }
#elif MC_PART == 2
MC_SUITE(query_function) { functions(); }
MC_SUITE(query_handle) { handles(); }
#elif MC_PART == 3
MC_SUITE(placed) { placement(); }
#else
MC_SUITE(query_iterator) { iterators(); }
#endif
