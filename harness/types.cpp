// C26 type lists, function and type traits (parts 0 and 1), C30 type names (part 2)
#include <NazaraUtils/FunctionTraits.hpp>
#include <NazaraUtils/TypeList.hpp>
#include <NazaraUtils/TypeName.hpp>
#include <NazaraUtils/TypeTag.hpp>
#include <NazaraUtils/TypeTraits.hpp>
#include "mc.hpp"
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <tuple>
#include <utility>
#include <variant>
#include <vector>

namespace
{
#if MC_PART == 0
	template<int I> struct T { static constexpr int id = I; };
	// every type of a list has an identifier; related types (const, references, pointers) have different ones
	template<typename X> struct Id { static constexpr int id = X::id; };
	template<int I> struct Id<const T<I>> { static constexpr int id = 20 + I; };
	template<int I> struct Id<volatile T<I>> { static constexpr int id = 30 + I; };
	template<int I> struct Id<T<I>*> { static constexpr int id = 40 + I; };
	template<int I> struct Id<T<I>&> { static constexpr int id = 50 + I; };
	template<int I> struct Id<T<I>&&> { static constexpr int id = 60 + I; };
	template<> struct Id<int> { static constexpr int id = 80; };
	template<> struct Id<unsigned> { static constexpr int id = 81; };
	template<> struct Id<long> { static constexpr int id = 82; };
	template<> struct Id<void> { static constexpr int id = 83; };
	template<> struct Id<Nz::TypeList<int>> { static constexpr int id = 84; };
	template<> struct Id<int()> { static constexpr int id = 85; };
	template<> struct Id<const int[]> { static constexpr int id = 86; };
	template<typename X> struct Wrap { static constexpr int id = 100 + Id<X>::id; };
	template<typename X> struct Transformer { using type = Wrap<X>; };
	template<typename X> struct Collapse { using type = T<0>; };
	template<typename... Ts> struct Pack {};
	// the identifiers of the types of a list, as plain data (the comparisons are not instantiated for every list)
	struct Span { const int* data; std::size_t size; std::vector<int> vec() const { return std::vector<int>(data, data + size); } };
	template<typename> struct Ids;
	template<typename... Ts> struct Ids<Nz::TypeList<Ts...>> { static constexpr int value[] = { Id<Ts>::id..., -1 }; static constexpr Span span { value, sizeof...(Ts) }; };
	template<typename... Ts> struct Ids<Pack<Ts...>> { static constexpr int value[] = { 1000, Id<Ts>::id..., -1 }; static constexpr Span span { value, sizeof...(Ts) + 1 }; };

	// the list number Code of length Len over an alphabet of K types
	constexpr unsigned K = 3;
	constexpr unsigned power(unsigned b, unsigned e) { unsigned r = 1; while (e--) r *= b; return r; }
	// alphabets: the three types of the lists, and one which is not in them
	template<typename A, typename B, typename C, typename Absent> struct Letters { using type = std::tuple<A, B, C, Absent>; };
	template<int> struct Alphabet;
	template<> struct Alphabet<0> : Letters<T<0>, T<1>, T<2>, T<9>> {};
	template<> struct Alphabet<1> : Letters<T<0>, const T<0>, T<0>*, T<0>&> {};
	template<> struct Alphabet<2> : Letters<T<0>&, T<0>, T<0>&&, const T<0>> {};
	template<> struct Alphabet<3> : Letters<volatile T<0>, const T<0>, T<1>, T<0>> {};
	template<> struct Alphabet<4> : Letters<int, unsigned, void, long> {};
	template<> struct Alphabet<5> : Letters<Nz::TypeList<int>, int(), const int[], int> {};
	template<int A, unsigned I> using Letter = std::tuple_element_t<I, typename Alphabet<A>::type>;
	template<int A> constexpr int letterIds[] = { Id<Letter<A, 0>>::id, Id<Letter<A, 1>>::id, Id<Letter<A, 2>>::id, Id<Letter<A, 3>>::id };
	template<int A, unsigned Code, typename Seq> struct ListOf;
	template<int A, unsigned Code, std::size_t... I> struct ListOf<A, Code, std::index_sequence<I...>> { using type = Nz::TypeList<Letter<A, (Code / power(K, unsigned(I))) % K>...>; };
	template<unsigned Len, unsigned Code, int A = 0> using List = typename ListOf<A, Code, std::make_index_sequence<Len>>::type;
	template<int A = 0> std::vector<int> modelOf(unsigned len, unsigned code) { std::vector<int> v; for (unsigned i = 0; i < len; ++i) v.push_back(letterIds<A>[code / power(K, i) % K]); return v; }
	std::string text(const std::vector<int>& v) { std::string s; for (int i : v) s += std::to_string(i) + " "; return s; }

	std::vector<std::pair<int, int>> g_calls;
	bool g_wrongArgument;
	void called(int id, int& counter, const std::string& s) { g_calls.emplace_back(id, counter++); if (s != "arg") g_wrongArgument = true; }
	template<typename X> struct Functor
	{
		void operator()(int& counter, const std::string& s) const { called(Id<X>::id, counter, s); }
		void operator()() const { g_calls.emplace_back(Id<X>::id, -1); }
	};

	struct Facts
	{
		std::size_t size; bool empty;
		Span list, append, prepend, instantiate, transform, collapse, unique;
		std::size_t find[4]; bool has[4]; Span removed[4];
		bool foreign;
		Span at;
		void (*apply)(int&, const std::string&);
		void (*applyNothing)();
	};
	template<typename L, typename Seq> struct At;
	template<typename L, std::size_t... I> struct At<L, std::index_sequence<I...>> { static constexpr int value[] = { Id<Nz::TypeListAt<L, I>>::id..., -1 }; };
	template<typename L> void apply(int& counter, const std::string& s) { Nz::TypeListApply<L, Functor>(counter, s); }
	template<typename L> void applyNothing() { Nz::TypeListApply<L, Functor>(); }
	template<typename L, std::size_t N, int A> constexpr Facts FactsOf {
		Nz::TypeListSize<L>, Nz::TypeListEmpty<L>,
		Ids<L>::span, Ids<Nz::TypeListAppend<L, T<7>>>::span, Ids<Nz::TypeListPrepend<L, T<7>>>::span, Ids<Nz::TypeListInstantiate<L, Pack>>::span, Ids<Nz::TypeListTransform<L, Transformer>>::span, Ids<Nz::TypeListTransform<L, Collapse>>::span, Ids<Nz::TypeListUnique<L>>::span,
		{ Nz::TypeListFind<L, Letter<A, 0>>, Nz::TypeListFind<L, Letter<A, 1>>, Nz::TypeListFind<L, Letter<A, 2>>, Nz::TypeListFind<L, Letter<A, 3>> },
		{ Nz::TypeListHas<L, Letter<A, 0>>, Nz::TypeListHas<L, Letter<A, 1>>, Nz::TypeListHas<L, Letter<A, 2>>, Nz::TypeListHas<L, Letter<A, 3>> },
		{ Ids<Nz::TypeListRemove<L, Letter<A, 0>>>::span, Ids<Nz::TypeListRemove<L, Letter<A, 1>>>::span, Ids<Nz::TypeListRemove<L, Letter<A, 2>>>::span, Ids<Nz::TypeListRemove<L, Letter<A, 3>>>::span },
		Nz::TypeListHas<L, const T<5>> || Nz::TypeListHas<L, T<5>*>,
		{ At<L, std::make_index_sequence<N>>::value, N },
		&apply<L>, &applyNothing<L>
	};
	void verify(const Facts& f, const std::vector<int>& m, const int* types)
	{
		auto same = [&](Span got, const std::vector<int>& want, const char* what) { MC_CHECK(got.vec() == want, what, "list (%s) gives (%s) instead of (%s)", text(m).c_str(), text(got.vec()).c_str(), text(want).c_str()); };
		same(f.list, m, "list");
		MC_CHECK(f.size == m.size() && f.empty == m.empty(), "size", "list (%s)", text(m).c_str());
		auto with = m; with.push_back(7);
		same(f.append, with, "append");
		with = m; with.insert(with.begin(), 7);
		same(f.prepend, with, "prepend");
		with = m; with.insert(with.begin(), 1000);
		same(f.instantiate, with, "instantiate");
		with = m; for (int& i : with) i += 100;
		same(f.transform, with, "transform");
		with.assign(m.size(), 0);
		same(f.collapse, with, "transform");
		std::vector<int> unique; for (int i : m) if (std::find(unique.begin(), unique.end(), i) == unique.end()) unique.push_back(i);
		same(f.unique, unique, "unique");
		same(f.at, m, "at");
		for (unsigned t = 0; t < 4; ++t)
		{
			auto it = std::find(m.begin(), m.end(), types[t]);
			std::size_t want = it == m.end() ? std::numeric_limits<std::size_t>::max() : std::size_t(it - m.begin());
			MC_CHECK(f.find[t] == want && f.has[t] == (it != m.end()), "find", "type %d in list (%s) is found at %zu", types[t], text(m).c_str(), f.find[t]);
			std::vector<int> removed; for (int i : m) if (i != types[t]) removed.push_back(i);
			same(f.removed[t], removed, "remove");
		}
		MC_CHECK(!f.foreign, "find", "a list has types it does not hold");
		g_calls.clear(); int counter = 0; g_wrongArgument = false;
		f.apply(counter, "arg");
		MC_CHECK(g_calls.size() == m.size() && counter == int(m.size()) && !g_wrongArgument, "apply", "%zu calls for list (%s)", g_calls.size(), text(m).c_str());
		for (std::size_t i = 0; i < m.size(); ++i) MC_CHECK(g_calls[i] == std::make_pair(m[i], int(i)), "apply", "call %zu of list (%s)", i, text(m).c_str());
		g_calls.clear();
		f.applyNothing();
		MC_CHECK(g_calls.size() == m.size(), "apply", "%zu calls for list (%s)", g_calls.size(), text(m).c_str());
	}
	template<unsigned Len, int A, unsigned... Codes> void lists(std::integer_sequence<unsigned, Codes...>)
	{
		static constexpr const Facts* facts[] = { &FactsOf<List<Len, Codes, A>, Len, A>... };
		for (unsigned code = 0; code < sizeof...(Codes); ++code) { mc::point(Len, code, A); verify(*facts[code], modelOf<A>(Len, code), letterIds<A>); }
	}
	template<unsigned Len, int A = 0> void lists() { lists<Len, A>(std::make_integer_sequence<unsigned, power(K, Len)>()); }
	template<int A> void related() { lists<0, A>(); lists<1, A>(); lists<2, A>(); lists<3, A>(); }

	template<unsigned L1, unsigned L2, unsigned... C> void concat(std::integer_sequence<unsigned, C...>)
	{
		constexpr unsigned n2 = power(K, L2);
		static constexpr Span spans[] = { Ids<Nz::TypeListConcat<List<L1, C / n2>, List<L2, C % n2>>>::span... };
		for (unsigned c = 0; c < sizeof...(C); ++c)
		{
			mc::point(L1, c / n2, L2, c % n2);
			auto m = modelOf(L1, c / n2), n = modelOf(L2, c % n2);
			m.insert(m.end(), n.begin(), n.end());
			MC_CHECK(spans[c].vec() == m, "concat", "concatenation of (%s) and (%s) is (%s)", text(modelOf(L1, c / n2)).c_str(), text(n).c_str(), text(spans[c].vec()).c_str());
		}
	}
	template<unsigned L1, unsigned L2> void concat() { concat<L1, L2>(std::make_integer_sequence<unsigned, power(K, L1) * power(K, L2)>()); }
#elif MC_PART == 1
	struct S { int member = 0; };
	template<typename Tr, typename Ret, typename... Args> struct Expect
	{
		template<std::size_t... I> static bool args(std::index_sequence<I...>) { return (true && ... && std::is_same_v<typename Tr::template ArgType<I>, std::tuple_element_t<I, std::tuple<Args...>>>); }
		static bool ok()
		{
			return std::is_same_v<typename Tr::ReturnType, Ret> && Tr::ArgCount == sizeof...(Args) && std::is_same_v<typename Tr::FuncType, Ret(Args...)>
				&& std::is_same_v<typename Tr::ArgTypes, Nz::TypeList<Args...>> && args(std::index_sequence_for<Args...>());
		}
	};
	unsigned g_case;
	template<typename F, typename Ret, typename... Args> void traits(const char* what)
	{
		mc::point(g_case++, sizeof...(Args));
		MC_CHECK((Expect<Nz::FunctionTraits<F>, Ret, Args...>::ok()), "traits", "traits of %s", what);
		MC_CHECK((Expect<Nz::FunctionTraits<const F>, Ret, Args...>::ok()), "traits", "traits of const %s", what);
		MC_CHECK((Expect<Nz::FunctionTraits<F&>, Ret, Args...>::ok()), "traits", "traits of %s&", what);
		MC_CHECK((Expect<Nz::FunctionTraits<F&&>, Ret, Args...>::ok()), "traits", "traits of %s&&", what);
		MC_CHECK((Expect<Nz::FunctionTraits<const F&>, Ret, Args...>::ok()), "traits", "traits of const %s&", what);
	}
	template<typename Ret, typename... Args> void everyKind()
	{
		traits<Ret(*)(Args...), Ret, Args...>("function pointer");
		traits<Ret(*)(Args...) noexcept, Ret, Args...>("noexcept function pointer");
		mc::point(g_case++);
		MC_CHECK((Expect<Nz::FunctionTraits<Ret(Args...)>, Ret, Args...>::ok()), "traits", "traits of a function");
		MC_CHECK((Expect<Nz::FunctionTraits<Ret(Args...) noexcept>, Ret, Args...>::ok()), "traits", "traits of a noexcept function");
		MC_CHECK((Expect<Nz::FunctionTraits<Ret(&)(Args...)>, Ret, Args...>::ok()), "traits", "traits of a function reference");
		MC_CHECK((Nz::IsFunctor_v<Ret(Args...)>), "functor", "a function is not a functor");
#define KIND(...) traits<Ret(S::*)(Args...) __VA_ARGS__, Ret, Args...>("member function " #__VA_ARGS__); traits<Ret(S::*)(Args...) __VA_ARGS__ noexcept, Ret, Args...>("member function " #__VA_ARGS__ " noexcept"); \
		MC_CHECK((Nz::IsFunctor_v<Ret(S::*)(Args...) __VA_ARGS__> && Nz::IsFunctor_v<Ret(S::*)(Args...) __VA_ARGS__ noexcept>), "functor", "a member function is not a functor");
		KIND() KIND(&) KIND(&&) KIND(const) KIND(const&) KIND(const&&) KIND(volatile) KIND(volatile&) KIND(volatile&&) KIND(const volatile) KIND(const volatile&) KIND(const volatile&&)
#undef KIND
		struct F1 { Ret operator()(Args...); }; struct F2 { Ret operator()(Args...) const; }; struct F3 { Ret operator()(Args...) const noexcept; }; struct F4 { Ret operator()(Args...) &&; }; struct F5 { Ret operator()(Args...) volatile noexcept; };
		traits<F1, Ret, Args...>("functor"); traits<F2, Ret, Args...>("const functor"); traits<F3, Ret, Args...>("const noexcept functor"); traits<F4, Ret, Args...>("rvalue functor"); traits<F5, Ret, Args...>("volatile functor");
		MC_CHECK((Nz::IsFunctor_v<F1> && Nz::IsFunctor_v<F2> && Nz::IsFunctor_v<F3> && Nz::IsFunctor_v<F4> && Nz::IsFunctor_v<F5>), "functor", "a class with a call operator is not a functor");
		MC_CHECK((std::is_same_v<Nz::FunctionPtr<Ret(Args...)>, Ret(*)(Args...)>), "function-ptr", "FunctionPtr");
	}
	template<typename Ret> void everyArguments()
	{
		everyKind<Ret>(); everyKind<Ret, int>(); everyKind<Ret, int, double>(); everyKind<Ret, const S&, S&&, S>(); everyKind<Ret, int*, const char*, std::unique_ptr<int>, unsigned&>();
		everyKind<Ret, S&, S&>(); everyKind<Ret, std::vector<int>, void(*)(int), int(&)[3], long, short>();
	}

	// overload sets: each overload is selected by its own arguments
	struct Over
	{
		int f() { return 0; } int f(int) { return 1; } int f(double) const { return 2; } int f(int, double) & { return 3; } int f(double, int) && { return 4; } int f(const std::string&) const& { return 5; }
		int f(std::string&&) const&& { return 6; } int f(char) noexcept { return 7; } int f(char, char) const noexcept { return 8; } int f(S) & noexcept { return 9; } int f(S&) && noexcept { return 10; } int f(S*) const& noexcept { return 11; } int f(const S*) const&& noexcept { return 12; }
		static int g() { return 20; } static int g(int) { return 21; } static int g(const char*) noexcept { return 22; }
	};
	int h() { return 30; } int h(long) { return 31; } int h(long, S&) noexcept { return 32; }
	void overloads()
	{
		mc::pointName("overload");
		Over o; const Over& c = o; S s; std::string str;
		auto check = [](int got, int want) { mc::point(mc::u64(want)); MC_CHECK(got == want, "overload", "overload %d selected instead of %d", got, want); };
		check((o.*Nz::Overload<>(&Over::f))(), 0);
		check((o.*Nz::Overload<int>(&Over::f))(1), 1);
		check((c.*Nz::Overload<double>(&Over::f))(1.0), 2);
		check((o.*Nz::Overload<int, double>(&Over::f))(1, 1.0), 3);
		check((std::move(o).*Nz::Overload<double, int>(&Over::f))(1.0, 1), 4);
		check((c.*Nz::Overload<const std::string&>(&Over::f))(str), 5);
		check((std::move(c).*Nz::Overload<std::string&&>(&Over::f))(std::move(str)), 6);
		check((o.*Nz::Overload<char>(&Over::f))('a'), 7);
		check((c.*Nz::Overload<char, char>(&Over::f))('a', 'b'), 8);
		check((o.*Nz::Overload<S>(&Over::f))(s), 9);
		check((std::move(o).*Nz::Overload<S&>(&Over::f))(s), 10);
		check((c.*Nz::Overload<S*>(&Over::f))(&s), 11);
		check((std::move(c).*Nz::Overload<const S*>(&Over::f))(&s), 12);
		check(Nz::Overload<>(&Over::g)(), 20); check(Nz::Overload<int>(&Over::g)(1), 21); check(Nz::Overload<const char*>(&Over::g)(""), 22);
		check(Nz::Overload<>(&h)(), 30); check(Nz::Overload<long>(&h)(1), 31); check(Nz::Overload<long, S&>(&h)(1, s), 32);
	}

	struct Incomplete; template<typename X> struct Undefined; class FwdClass; enum class FwdEnum : int;
	enum class ECount { A, B, C, Count }; enum class EMax { A, B, Max = B }; enum EPlain { PA, PB, PC, PD, Count }; enum class EBig : Nz::UInt8 { A, Max = 255 }; enum class EZero { Count }; enum class ELong : Nz::UInt64 { Count = 1ull << 40 }; enum class ESigned : signed char { A, Max = A };
	void typeTraits()
	{
		mc::pointName("trait");
		mc::point(0);
		MC_CHECK(Nz::EnumValueCount_v<ECount> == 3 && Nz::EnumValueCount_v<EMax> == 2 && Nz::EnumValueCount_v<EPlain> == 4 && Nz::EnumValueCount_v<EBig> == 256 && Nz::EnumValueCount_v<EZero> == 0 && Nz::EnumValueCount_v<ELong> == (1ull << 40) && Nz::EnumValueCount_v<ESigned> == 1, "enum-count", "number of values of an enumeration");
		mc::point(1);
		MC_CHECK((Nz::IsComplete_v<int> && Nz::IsComplete_v<S> && !Nz::IsComplete_v<Incomplete> && !Nz::IsComplete_v<FwdClass> && Nz::IsComplete_v<FwdEnum> && !Nz::IsComplete_v<Undefined<int>> && Nz::IsComplete_v<std::vector<int>> && Nz::IsComplete_v<int*> && Nz::IsComplete_v<Incomplete*>), "complete", "IsComplete");
		mc::point(2);
		MC_CHECK((Nz::IsFirstType_v<int, int, double> && !Nz::IsFirstType_v<int, double, int> && !Nz::IsFirstType_v<int> && Nz::IsFirstType_v<int, int> && !Nz::IsFirstType_v<int, const int> && !Nz::IsFirstType_v<int&, int>), "first", "IsFirstType");
		mc::point(3);
#define CV(X) std::is_same_v<typename Nz::PointedType<X*>::type, X> && std::is_same_v<typename Nz::PointedType<X* const>::type, X> && std::is_same_v<typename Nz::PointedType<X* volatile>::type, X> && std::is_same_v<typename Nz::PointedType<X* const volatile>::type, X> && std::is_same_v<Nz::Pointer<X>, X*>
		MC_CHECK((CV(int) && CV(const int) && CV(S) && CV(void) && CV(int*) && CV(const volatile S) && CV(const int* const)), "pointed", "PointedType");
#undef CV
		mc::point(4);
#define CVR(X) std::is_same_v<Nz::RemoveCvRef_t<X>, X> && std::is_same_v<Nz::RemoveCvRef_t<const X>, X> && std::is_same_v<Nz::RemoveCvRef_t<volatile X&>, X> && std::is_same_v<Nz::RemoveCvRef_t<const volatile X&&>, X> && std::is_same_v<Nz::RemoveCvRef_t<X&&>, X> && std::is_same_v<Nz::RemoveCvRef_t<const X&>, X>
		MC_CHECK((CVR(int) && CVR(S) && CVR(std::string) && std::is_same_v<Nz::RemoveCvRef_t<const int*&>, const int*> && std::is_same_v<Nz::RemoveCvRef_t<int(&)[3]>, int[3]>), "remove-cvref", "RemoveCvRef");
#undef CVR
		mc::point(5);
		// the overload set of std::visit
		for (unsigned i = 0; i < 3; ++i)
		{
			std::variant<int, std::string, double> v; if (i == 1) v = std::string("x"); if (i == 2) v = 1.5;
			unsigned got = std::visit(Nz::Overloaded{ [](int) { return 0u; }, [](const std::string&) { return 1u; }, [](double) { return 2u; } }, v);
			unsigned got2 = std::visit(Nz::Overloaded{ [](const std::string&) { return 1u; }, [](auto) { return 5u; } }, v);
			MC_CHECK(got == i && got2 == (i == 1 ? 1u : 5u), "overloaded", "visiting alternative %u", i);
		}
		mc::point(6);
		MC_CHECK((!Nz::AlwaysFalse<int>::value && !Nz::AlwaysFalseValue<3>::value && std::is_same_v<Nz::LazyVoid_t<int>, void> && std::is_same_v<Nz::TypeTag<int&>::Type, int&>), "misc", "AlwaysFalse");
	}
	// a greedy constructor constrained by PreventHiddenCopyMove never replaces copies and moves
	struct Greedy
	{
		unsigned kind = 0; // 1 greedy, 2 copy, 3 move
		Greedy() = default;
		template<typename... Args, typename = Nz::PreventHiddenCopyMove<Greedy, Args...>> explicit Greedy(Args&&...) : kind(10 + unsigned(sizeof...(Args))) {}
		Greedy(const Greedy&) : kind(2) {}
		Greedy(Greedy&&) noexcept : kind(3) {}
	};
	void hiddenCopies()
	{
		mc::pointName("case");
		auto check = [](unsigned id, const Greedy& g, unsigned want) { mc::point(id); MC_CHECK(g.kind == want, "hidden-copy", "case %u selects constructor %u instead of %u", id, g.kind, want); };
		Greedy g; const Greedy cg(1); 
		check(0, g, 0);
		{ Greedy x(g); check(1, x, 2); } { Greedy x(cg); check(2, x, 2); } { Greedy x(std::move(g)); check(3, x, 3); } { Greedy x(std::move(cg)); check(4, x, 2); }
		{ Greedy x(1); check(5, x, 11); } { Greedy x(g, g); check(6, x, 12); } { Greedy x(g, 1, 2); check(7, x, 13); } { Greedy x(std::string("a")); check(8, x, 11); } { Greedy x(&g); check(9, x, 11); }
	}
	void notFunctors()
	{
		mc::pointName("type");
		mc::point(0);
		MC_CHECK((!Nz::IsFunctor_v<int> && !Nz::IsFunctor_v<S> && !Nz::IsFunctor_v<int S::*> && !Nz::IsFunctor_v<void> && !Nz::IsFunctor_v<int*>), "functor", "something without call operator is a functor");
		auto lambda = [](int a, const std::string& b) -> double { return a + double(b.size()); }; auto mutableLambda = [x = 0]() mutable { return ++x; };
		mc::point(1);
		MC_CHECK((Expect<Nz::FunctionTraits<decltype(lambda)>, double, int, const std::string&>::ok() && Expect<Nz::FunctionTraits<decltype(mutableLambda)>, int>::ok()), "traits", "traits of a lambda");
		MC_CHECK((Nz::IsFunctor_v<decltype(lambda)> && Nz::IsFunctor_v<decltype(mutableLambda)>), "functor", "a lambda is not a functor");
	}
#endif
}

#if MC_PART == 0
MC_SUITE(lists_short) { mc::pointName("length, number, alphabet"); lists<0>(); lists<1>(); lists<2>(); lists<3>(); }
MC_SUITE(lists_4) { mc::pointName("length, number, alphabet"); lists<4>(); }
MC_SUITE(lists_5) { mc::pointName("length, number, alphabet"); lists<5>(); }
MC_SUITE(lists_related) { mc::pointName("length, number, alphabet"); related<1>(); related<2>(); related<3>(); related<4>(); related<5>(); }
MC_SUITE(lists_concat) { mc::pointName("length 1, number 1, length 2, number 2"); concat<0, 0>(); concat<0, 1>(); concat<0, 2>(); concat<1, 0>(); concat<1, 1>(); concat<1, 2>(); concat<2, 0>(); concat<2, 1>(); concat<2, 2>(); concat<3, 1>(); concat<1, 3>(); concat<3, 2>(); concat<2, 3>(); }
#elif MC_PART == 1
MC_SUITE(function_traits) { mc::pointName("case"); everyArguments<void>(); everyArguments<int>(); everyArguments<const S&>(); everyArguments<std::unique_ptr<int>>(); }
MC_SUITE(function_overloads) { overloads(); }
MC_SUITE(function_others) { notFunctors(); }
MC_SUITE(type_traits) { typeTraits(); }
MC_SUITE(hidden_copies) { hiddenCopies(); }
#else
struct A {}; struct Longer {}; struct AVeryLongClassNameOfFortyThreeCharacters12 {}; enum Enum {}; enum class Scoped {}; union Un {};
#define NAME10(x) x##_234567890
#define NAME20(x) NAME10(x##_234567890)
#define NAME40(x) NAME20(x##_234567890_234567890)
#define NAME80(x) NAME40(x##_234567890_234567890_234567890_234567890)
struct NAME40(B) {}; struct NAME80(C) {};
struct B_234567890_234567890_234567890_23456 {}; struct B_234567890_234567890_234567890_234567 {}; struct B_234567890_234567890_234567890_2345678 {}; struct B_234567890_234567890_234567890_23456789 {};
namespace one { struct In {}; namespace two { struct In {}; enum class Deep {}; template<typename X> struct Box {}; } }
template<typename X> struct Q {}; template<typename X, typename Y> struct P {}; template<int N> struct Num {};
namespace
{
	std::string squeeze(std::string_view s) { std::string o; for (char c : s) if (c != ' ') o += c; return o; }
	// checks the name of a type against its spelling (spaces are not significant), and that of every type built from it
	std::map<std::string, int> g_names; int g_types = 0;
	void verify(std::string_view got, std::string_view again, const std::string& spelled)
	{
		mc::point(mc::u64(g_types++), spelled.size());
		MC_CHECK(squeeze(got) == squeeze(spelled), "name", "the name of %s is \"%s\"", spelled.c_str(), std::string(got).c_str());
		MC_CHECK(got == again, "name", "the name of %s is not the same at compile time", spelled.c_str());
		MC_CHECK(!got.empty() && got.front() != ' ' && got.back() != ' ', "name", "the name of %s is \"%s\"", spelled.c_str(), std::string(got).c_str());
		MC_CHECK(++g_names[squeeze(got)] == 1, "distinct", "two types are named %s", spelled.c_str());
	}
	template<typename X> constexpr std::string_view AtCompileTime = Nz::TypeName<X>();
	template<typename X> void name(const std::string& spelled) { verify(Nz::TypeName<X>(), AtCompileTime<X>, spelled); }
	template<int Depth, typename X> void all(const std::string& s)
	{
		name<X>(s);
		if constexpr (Depth > 0)
		{
			all<Depth - 1, Q<X>>("Q<" + s + ">");
			all<Depth - 1, P<X, int>>("P<" + s + ",int>");
			all<Depth - 1, P<A, X>>("P<A," + s + ">");
			all<Depth - 1, one::two::Box<X>>("one::two::Box<" + s + ">");
			if constexpr (!std::is_pointer_v<X>) all<Depth - 1, X*>(s + "*");
		}
	}
	template<int N, typename X> void nested(const std::string& s)
	{
		name<X>(s);
		if constexpr (N > 0) nested<N - 1, Q<X>>("Q<" + s + ">");
	}
	// doubles the length of the name N times, with a few lengths after each
	template<int N, typename X> void doubled(const std::string& s)
	{
		nested<3, X>(s);
		if constexpr (N > 0) doubled<N - 1, P<X, X>>("P<" + s + "," + s + ">");
	}
	template<int... N> void numbers(std::integer_sequence<int, N...>) { void (*f[])(const std::string&) = { &name<Num<N>>..., &name<Num<-1 - N>>... }; const int v[] = { N..., -1 - N... }; for (std::size_t i = 0; i < 2 * sizeof...(N); ++i) f[i]("Num<" + std::to_string(v[i]) + ">"); }
}
MC_SUITE(names_expressions)
{
	mc::pointName("type, length");
	all<4, A>("A"); 
}
MC_SUITE(names_leaves)
{
	mc::pointName("type, length");
	all<2, int>("int"); g_names.clear(); all<2, Longer>("Longer"); g_names.clear(); all<2, AVeryLongClassNameOfFortyThreeCharacters12>("AVeryLongClassNameOfFortyThreeCharacters12"); g_names.clear(); all<2, Enum>("Enum"); g_names.clear(); all<2, Scoped>("Scoped"); g_names.clear(); all<2, one::In>("one::In"); g_names.clear(); all<2, one::two::In>("one::two::In"); g_names.clear(); all<2, one::two::Deep>("one::two::Deep"); g_names.clear(); all<2, Un>("Un"); g_names.clear();
	all<2, double>("double"); g_names.clear(); all<2, bool>("bool"); g_names.clear(); all<2, NAME40(B)>("B_234567890_234567890_234567890_234567890"); g_names.clear(); all<2, NAME80(C)>("C_234567890_234567890_234567890_234567890_234567890_234567890_234567890_234567890");
	name<B_234567890_234567890_234567890_23456>("B_234567890_234567890_234567890_23456"); name<B_234567890_234567890_234567890_234567>("B_234567890_234567890_234567890_234567"); name<B_234567890_234567890_234567890_2345678>("B_234567890_234567890_234567890_2345678"); name<B_234567890_234567890_234567890_23456789>("B_234567890_234567890_234567890_23456789");
	g_names.clear();
	name<const A>("const A"); name<const A*>("const A*"); name<A&>("A&"); name<const A&>("const A&"); name<A&&>("A&&"); name<const one::two::Box<A>&>("const one::two::Box<A>&"); name<int[3]>("int[3]"); name<char[123456]>("char[123456]"); name<int(A, char)>("int(A,char)"); name<void>("void"); name<A[2][5]>("A[2][5]");
}
MC_SUITE(names_lengths) { mc::pointName("type, length"); nested<90, A>("A"); g_names.clear(); nested<60, Longer>("Longer"); g_names.clear(); nested<40, one::In>("one::In"); }
MC_SUITE(names_long) { mc::pointName("type, length"); doubled<10, A>("A"); g_names.clear(); doubled<9, one::In>("one::In"); }
MC_SUITE(names_numbers) { mc::pointName("type, length"); numbers(std::make_integer_sequence<int, 300>()); }
#endif
