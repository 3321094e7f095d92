// C37: what the library forbids does not compile, and the nearest thing which it allows does.
// Every case is a pair of programs differing by the misuse alone; each program is given to every compiler and language version.
#define MC_NO_HEAP
#include "compile.hpp"

namespace
{
	struct Case
	{
		const char* name;
		const char* headers;  // separated by spaces
		const char* common;   // declarations shared by both programs
		const char* allowed;  // statements which have to compile
		const char* misuse;   // statements which must not
		bool cpp20 = false;   // constraint only expressed by concepts
	};

	const Case cases[] =
	{
		// ---- copies of what cannot be copied
		{ "call-on-exit-copy", "CallOnExit", "struct F { void operator()() const; };", "Nz::CallOnExit<F> a(F{}); a.Reset();", "Nz::CallOnExit<F> a(F{}); Nz::CallOnExit<F> b(a);" },
		{ "call-on-exit-move", "CallOnExit", "struct F { void operator()() const; };", "Nz::CallOnExit<F> a(F{}), b; b = std::move(a);", "Nz::CallOnExit<F> a(F{}); Nz::CallOnExit<F> b(std::move(a));" },
		{ "call-on-exit-assign", "CallOnExit", "struct F { void operator()() const; };", "Nz::CallOnExit<F> a(F{}), b; b = std::move(a);", "Nz::CallOnExit<F> a(F{}), b; b = a;" },
		{ "pool-copy", "MemoryPool", "", "Nz::MemoryPool<int> a(4); Nz::MemoryPool<int> b(std::move(a));", "Nz::MemoryPool<int> a(4); Nz::MemoryPool<int> b(a);" },
		{ "pool-assign", "MemoryPool", "", "Nz::MemoryPool<int> a(4), b(4); b = std::move(a);", "Nz::MemoryPool<int> a(4), b(4); b = a;" },
		{ "stack-vector-copy", "StackVector", "", "Nz::StackVector<int> a = NazaraStackVector(int, 4); Nz::StackVector<int> b(std::move(a));", "Nz::StackVector<int> a = NazaraStackVector(int, 4); Nz::StackVector<int> b(a);" },
		{ "stack-vector-assign", "StackVector", "", "Nz::StackVector<int> a = NazaraStackVector(int, 4); Nz::StackVector<int> b; b = std::move(a);", "Nz::StackVector<int> a = NazaraStackVector(int, 4); Nz::StackVector<int> b; b = a;" },
		{ "stack-array-copy", "StackArray", "", "Nz::StackArray<int> a = NazaraStackArray(int, 4); Nz::StackArray<int> b(std::move(a));", "Nz::StackArray<int> a = NazaraStackArray(int, 4); Nz::StackArray<int> b(a);" },
		{ "stack-array-assign", "StackArray", "", "Nz::StackArray<int> a = NazaraStackArray(int, 4); Nz::StackArray<int> b; b = std::move(a);", "Nz::StackArray<int> a = NazaraStackArray(int, 4); Nz::StackArray<int> b; b = a;" },
		{ "guard-copy", "Signal", "using S = Nz::Signal<int>;", "S::ConnectionGuard a; S::ConnectionGuard b(std::move(a));", "S::ConnectionGuard a; S::ConnectionGuard b(a);" },
		{ "guard-assign", "Signal", "using S = Nz::Signal<int>;", "S::ConnectionGuard a, b; b = std::move(a);", "S::ConnectionGuard a, b; b = a;" },
		{ "vector-of-move-only-copy", "FixedVector", "", "Nz::FixedVector<std::unique_ptr<int>, 2> a; Nz::FixedVector<std::unique_ptr<int>, 2> b(std::move(a)); b.push_back(nullptr); b.emplace_back(new int(1)); b.erase(b.begin()); b.resize(1); b.pop_back(); b.insert(b.begin(), nullptr); b.clear();", "Nz::FixedVector<std::unique_ptr<int>, 2> a; Nz::FixedVector<std::unique_ptr<int>, 2> b(a);" },
		{ "hybrid-of-move-only-copy", "FixedVector", "", "Nz::HybridVector<std::unique_ptr<int>, 2> a; Nz::HybridVector<std::unique_ptr<int>, 2> b(std::move(a)); b.push_back(nullptr); b.emplace_back(new int(1)); b.erase(b.begin()); b.resize(1); b.reserve(7); b.pop_back(); b.insert(b.begin(), nullptr); b.clear();", "Nz::HybridVector<std::unique_ptr<int>, 2> a; Nz::HybridVector<std::unique_ptr<int>, 2> b(a);" },
		{ "result-of-move-only-copy", "Result", "using R = Nz::Result<std::unique_ptr<int>, int>;", "R a = Nz::Err(3); R b(std::move(a)); a = std::move(b); std::unique_ptr<int> p = std::move(a).GetValue(); p = std::move(b).GetValueOr(nullptr);", "R a = Nz::Err(3); R b(a);" },
		{ "result-of-move-only-value-or", "Result", "using R = Nz::Result<std::unique_ptr<int>, int>;", "R a = Nz::Err(3); std::unique_ptr<int> p = std::move(a).GetValueOr(nullptr);", "R a = Nz::Err(3); std::unique_ptr<int> p = a.GetValueOr(nullptr);" },
		{ "holder-of-move-only-copy", "PrivateImpl", "struct M { M() = default; M(M&&) = default; int a; };", "Nz::PrivateImpl<M> a; Nz::PrivateImpl<M> b(std::move(a));", "Nz::PrivateImpl<M> a; Nz::PrivateImpl<M> b(a);" },
		{ "enum-array-of-move-only-copy", "EnumArray", "enum class E { A, B, Max = B };", "Nz::EnumArray<E, std::unique_ptr<int>> a; Nz::EnumArray<E, std::unique_ptr<int>> b(std::move(a));", "Nz::EnumArray<E, std::unique_ptr<int>> a; Nz::EnumArray<E, std::unique_ptr<int>> b(a);" },

		// ---- elements of constant objects
		{ "const-fixed-element", "FixedVector", "", "Nz::FixedVector<int, 2> v(2, 1); v[0] = 2; v.front() = v.back() = 1; *v.begin() = *v.rbegin() = 2; *v.data() = 3;", "const Nz::FixedVector<int, 2> v(2, 1); v[0] = 2;" },
		{ "const-fixed-front", "FixedVector", "", "Nz::FixedVector<int, 2> v(2, 1); v.front() = 2;", "const Nz::FixedVector<int, 2> v(2, 1); v.front() = 2;" },
		{ "const-fixed-back", "FixedVector", "", "Nz::FixedVector<int, 2> v(2, 1); v.back() = 2;", "const Nz::FixedVector<int, 2> v(2, 1); v.back() = 2;" },
		{ "const-fixed-iterator", "FixedVector", "", "Nz::FixedVector<int, 2> v(2, 1); *v.begin() = 2;", "const Nz::FixedVector<int, 2> v(2, 1); *v.begin() = 2;" },
		{ "const-fixed-reverse-iterator", "FixedVector", "", "Nz::FixedVector<int, 2> v(2, 1); *v.rbegin() = 2;", "Nz::FixedVector<int, 2> v(2, 1); *v.crbegin() = 2;" },
		{ "const-fixed-cbegin", "FixedVector", "", "Nz::FixedVector<int, 2> v(2, 1); *v.begin() = *v.cbegin();", "Nz::FixedVector<int, 2> v(2, 1); *v.cbegin() = 2;" },
		{ "const-fixed-data", "FixedVector", "", "Nz::FixedVector<int, 2> v(2, 1); *v.data() = 2;", "const Nz::FixedVector<int, 2> v(2, 1); *v.data() = 2;" },
		{ "const-fixed-push", "FixedVector", "", "Nz::FixedVector<int, 2> v; v.push_back(1);", "const Nz::FixedVector<int, 2> v; v.push_back(1);" },
		{ "const-stack-vector-element", "StackVector", "", "Nz::StackVector<int> v; const auto& c = v; (void)c.size(); v[0] = 2; v.front() = v.back() = 1; *v.begin() = 2;", "Nz::StackVector<int> v; const auto& c = v; c[0] = 2;" },
		{ "const-stack-vector-iterator", "StackVector", "", "Nz::StackVector<int> v; const auto& c = v; (void)c.begin(); *v.begin() = 2;", "Nz::StackVector<int> v; const auto& c = v; *c.begin() = 2;" },
		{ "const-stack-array-element", "StackArray", "", "Nz::StackArray<int> v; const auto& c = v; (void)c.size(); v[0] = 2;", "Nz::StackArray<int> v; const auto& c = v; c[0] = 2;" },
		{ "const-stack-array-iterator", "StackArray", "", "Nz::StackArray<int> v; const auto& c = v; (void)c.begin(); *v.begin() = 2;", "Nz::StackArray<int> v; const auto& c = v; *c.begin() = 2;" },
		{ "const-enum-array-element", "EnumArray", "enum class E { A, B, Max = B };", "Nz::EnumArray<E, int> v{}; v[E::A] = 1;", "const Nz::EnumArray<E, int> v{}; v[E::A] = 1;" },
		{ "const-enum-array-pairs", "EnumArray", "enum class E { A, B, Max = B };", "Nz::EnumArray<E, int> v{}; for (auto&& [k, e] : v.iter_kv()) e = 1;", "const Nz::EnumArray<E, int> v{}; for (auto&& [k, e] : v.iter_kv()) e = 1;" },
		{ "const-bitset-bit", "Bitset", "", "Nz::Bitset<> b(4, false); b[1] = true;", "const Nz::Bitset<> b(4, false); b[1] = true;" },
		{ "const-bitset-set", "Bitset", "", "Nz::Bitset<> b(4, false); b.Set(1, true);", "const Nz::Bitset<> b(4, false); b.Set(1, true);" },
		{ "const-pool-entry", "MemoryPool", "", "Nz::MemoryPool<int> p(4); *p.RetrieveFromIndex(0) = 1;", "Nz::MemoryPool<int> p(4); const auto& c = p; *c.RetrieveFromIndex(0) = 1;" },
		{ "const-pool-iterator", "MemoryPool", "", "Nz::MemoryPool<int> p(4); for (int& i : p) i = 1;", "Nz::MemoryPool<int> p(4); const auto& c = p; for (int& i : c) i = 1;" },
		{ "const-pool-cbegin", "MemoryPool", "", "Nz::MemoryPool<int> p(4); *p.begin() = 2;", "Nz::MemoryPool<int> p(4); *p.cbegin() = 2;" },
		{ "const-holder", "PrivateImpl", "struct M { int a = 0; };", "Nz::PrivateImpl<M> p; p->a = 1; (*p).a = 2; p.Get()->a = 3;", "const Nz::PrivateImpl<M> p; p->a = 1;" },
		{ "const-holder-deref", "PrivateImpl", "struct M { int a = 0; };", "Nz::PrivateImpl<M> p; (*p).a = 1;", "const Nz::PrivateImpl<M> p; (*p).a = 1;" },
		{ "const-holder-get", "PrivateImpl", "struct M { int a = 0; };", "Nz::PrivateImpl<M> p; p.Get()->a = 1;", "const Nz::PrivateImpl<M> p; p.Get()->a = 1;" },
		{ "const-holder-pointer", "PrivateImpl", "struct M { int a = 0; };", "Nz::PrivateImpl<M> p; M* m = p; (void)m;", "const Nz::PrivateImpl<M> p; M* m = p; (void)m;" },
		{ "const-inplace-holder", "PrivateImpl", "struct M { int a = 0; };", "Nz::PrivateImpl<M, 16> p; p->a = 1; (*p).a = 2; p.Get()->a = 3; const auto& c = p; (void)c->a;", "Nz::PrivateImpl<M, 16> p; const auto& c = p; c->a = 1;" },
		{ "const-inplace-holder-deref", "PrivateImpl", "struct M { int a = 0; };", "Nz::PrivateImpl<M, 16> p; (*p).a = 1;", "Nz::PrivateImpl<M, 16> p; const auto& c = p; (*c).a = 1;" },
		{ "const-inplace-holder-get", "PrivateImpl", "struct M { int a = 0; };", "Nz::PrivateImpl<M, 16> p; p.Get()->a = 1;", "Nz::PrivateImpl<M, 16> p; const auto& c = p; c.Get()->a = 1;" },
		{ "const-result-value", "Result", "", "Nz::Result<int, short> r(Nz::Ok(1)); r.GetValue() = 2; *r = 3;", "const Nz::Result<int, short> r(Nz::Ok(1)); r.GetValue() = 2;" },
		{ "const-result-deref", "Result", "", "Nz::Result<int, short> r(Nz::Ok(1)); *r = 2;", "const Nz::Result<int, short> r(Nz::Ok(1)); *r = 2;" },
		{ "const-result-arrow", "Result", "struct M { int a = 0; };", "Nz::Result<M, short> r(Nz::Ok(M{})); r->a = 2;", "const Nz::Result<M, short> r(Nz::Ok(M{})); r->a = 2;" },
		{ "const-result-error", "Result", "", "Nz::Result<int, short> r(Nz::Err(short(1))); r.GetError() = 2;", "const Nz::Result<int, short> r(Nz::Err(short(1))); r.GetError() = 2;" },
		{ "const-movable-value", "MovableValue", "", "Nz::MovableValue<int> v(1); v.Get() = 2; int& r = v; r = 2;", "const Nz::MovableValue<int> v(1); v.Get() = 2;" },
		{ "const-movable-value-conversion", "MovableValue", "", "Nz::MovableValue<int> v(1); int& r = v; r = 2;", "const Nz::MovableValue<int> v(1); int& r = v; r = 2;" },
		{ "const-movable-literal", "MovableValue", "", "Nz::MovableLiteral<int, 2> v(1); v.Get() = 2;", "const Nz::MovableLiteral<int, 2> v(1); v.Get() = 2;" },
		{ "const-map", "Algorithm", "", "std::map<int, int> m; Nz::Retrieve(m, 1) = 2;", "const std::map<int, int> m; Nz::Retrieve(m, 1) = 2;" },
		{ "const-offset", "Algorithm", "struct M { int a, b; };", "M m; Nz::AccessByOffset<int&>(&m, 4) = 2; const M* c = &m; (void)Nz::AccessByOffset<const int&>(c, 4);", "const M m{}; Nz::AccessByOffset<int&>(&m, 4) = 2;" },
		{ "const-offset-pointer", "Algorithm", "struct M { int a, b; };", "M m; *Nz::AccessByOffset<int*>(&m, 4) = 2;", "const M m{}; *Nz::AccessByOffset<int*>(&m, 4) = 2;" },
		{ "sparse-drops-const", "SparsePtr", "", "int i; Nz::SparsePtr<int> a(&i); Nz::SparsePtr<const int> b(a);", "int i; Nz::SparsePtr<const int> a(&i); Nz::SparsePtr<int> b(a);" },
		{ "sparse-of-const-write", "SparsePtr", "", "int i; Nz::SparsePtr<int> a(&i); *a = a[0] = 1;", "int i; Nz::SparsePtr<const int> a(&i); *a = 1;" },
		{ "sparse-const-void", "SparsePtr", "", "int i; void* v = &i; Nz::SparsePtr<int> a(v, 4);", "int i; const void* v = &i; Nz::SparsePtr<int> a(v, 4);" },

		// ---- conversions
		{ "sparse-downcast", "SparsePtr", "struct B {}; struct D : B {};", "Nz::SparsePtr<D> d; Nz::SparsePtr<B> b(d);", "Nz::SparsePtr<B> b; Nz::SparsePtr<D> d(b);" },
		{ "sparse-unrelated", "SparsePtr", "", "Nz::SparsePtr<int> a; Nz::SparsePtr<int> b(a);", "Nz::SparsePtr<int> a; Nz::SparsePtr<float> b(a);" },
		{ "sparse-to-bool", "SparsePtr", "", "Nz::SparsePtr<int> a; bool b = bool(a); if (a) b = !b; (void)b;", "Nz::SparsePtr<int> a; bool b = a; (void)b;" },
		{ "sparse-to-pointer", "SparsePtr", "", "Nz::SparsePtr<int> a; int* p = static_cast<int*>(a); (void)p;", "Nz::SparsePtr<int> a; int* p = a; (void)p;" },
		{ "sparse-index", "SparsePtr", "", "int i[2]; Nz::SparsePtr<int> a(i); (void)a[1u];", "int i[2]; Nz::SparsePtr<int> a(i); (void)a[1.5];" },
		{ "sparse-plus", "SparsePtr", "", "int i[2]; Nz::SparsePtr<int> a(i); (void)(a + 1);", "int i[2]; Nz::SparsePtr<int> a(i); (void)(a + 1.5);" },
		{ "sparse-minus", "SparsePtr", "", "int i[2]; Nz::SparsePtr<int> a(i); (void)(a - 1);", "int i[2]; Nz::SparsePtr<int> a(i); (void)(a - 1.5);" },
		{ "sparse-plus-assign", "SparsePtr", "", "int i[2]; Nz::SparsePtr<int> a(i); a += 1;", "int i[2]; Nz::SparsePtr<int> a(i); a += 1.5;" },
		{ "sparse-minus-assign", "SparsePtr", "", "int i[2]; Nz::SparsePtr<int> a(i); a -= 1;", "int i[2]; Nz::SparsePtr<int> a(i); a -= 1.5;" },
		{ "flags-to-bool", "Flags", "enum class F { A, B, Max = B }; constexpr bool EnableEnumAsNzFlags(F) { return true; }", "Nz::Flags<F> f(F::A); bool b = bool(f); if (f) b = !b; (void)b;", "Nz::Flags<F> f(F::A); bool b = f; (void)b;" },
		{ "flags-to-int", "Flags", "enum class F { A, B, Max = B }; constexpr bool EnableEnumAsNzFlags(F) { return true; }", "Nz::Flags<F> f(F::A); int i = int(f); (void)i;", "Nz::Flags<F> f(F::A); int i = f; (void)i;" },
		{ "flags-to-small-int", "Flags", "enum class F { A, B = 12, Max = B }; constexpr bool EnableEnumAsNzFlags(F) { return true; }", "Nz::Flags<F> f(F::A); auto i = static_cast<unsigned short>(f); (void)i;", "Nz::Flags<F> f(F::A); auto i = static_cast<unsigned char>(f); (void)i;" },
		{ "flags-of-other-enum", "Flags", "enum class F { A, B, Max = B }; constexpr bool EnableEnumAsNzFlags(F) { return true; } enum class G { A, B, Max = B }; constexpr bool EnableEnumAsNzFlags(G) { return true; }", "Nz::Flags<F> f(F::A); f |= F::B;", "Nz::Flags<F> f(F::A); f |= G::B;" },
		{ "flags-not-enabled", "Flags", "enum class F { A, B, Max = B }; constexpr bool EnableEnumAsNzFlags(F) { return true; } enum class G { A, B, Max = B };", "Nz::Flags<F> f(F::A); (void)f;", "Nz::Flags<G> f(G::A); (void)f;" },
		{ "flags-not-enum", "Flags", "enum class F { A, B, Max = B }; constexpr bool EnableEnumAsNzFlags(F) { return true; }", "Nz::Flags<F> f(F::A); (void)f;", "Nz::Flags<int> f(1); (void)f;" },
		{ "flags-operator-not-enabled", "Flags", "enum class F { A, B, Max = B }; constexpr bool EnableEnumAsNzFlags(F) { return true; } enum class G { A, B, Max = B };", "auto f = F::A | F::B; (void)f;", "auto f = G::A | G::B; (void)f;" },
		{ "flags-complement-not-enabled", "Flags", "enum class F { A, B, Max = B }; constexpr bool EnableEnumAsNzFlags(F) { return true; } enum class G { A, B, Max = B };", "auto f = ~F::A; (void)f;", "auto f = ~G::A; (void)f;" },
		{ "flags-disabled", "Flags", "enum class F { A, B, Max = B }; constexpr bool EnableEnumAsNzFlags(F) { return true; } enum class G { A, B, Max = B }; constexpr bool EnableEnumAsNzFlags(G) { return true; }", "auto f = F::A & F::B; (void)f;", "auto f = F::A & G::B; (void)f;" },
		{ "function-ref-result", "FunctionRef", "struct T {}; struct F { int operator()(int) const; };", "F f; Nz::FunctionRef<int(int)> r(f); Nz::FunctionRef<long(int)> s(f); Nz::FunctionRef<void(int)> t(f);", "F f; Nz::FunctionRef<T(int)> r(f);" },
		{ "function-ref-arguments", "FunctionRef", "struct F { int operator()(int) const; };", "F f; Nz::FunctionRef<int(short)> r(f); r(short(3));", "F f; Nz::FunctionRef<int(const char*)> r(f);" },
		{ "function-ref-count", "FunctionRef", "struct F { int operator()(int) const; };", "F f; Nz::FunctionRef<int(int)> r(f);", "F f; Nz::FunctionRef<int(int, int)> r(f);" },
		{ "function-ref-call", "FunctionRef", "struct F { int operator()(int) const; };", "F f; Nz::FunctionRef<int(int)> r(f); r(1);", "F f; Nz::FunctionRef<int(int)> r(f); r(\"one\");" },
		{ "function-ref-call-count", "FunctionRef", "struct F { int operator()(int) const; };", "F f; Nz::FunctionRef<int(int)> r(f); r(1);", "F f; Nz::FunctionRef<int(int)> r(f); r();" },
		{ "function-ref-const", "FunctionRef", "struct F { int operator()(int); };", "F f; Nz::FunctionRef<int(int)> r(f); r(1);", "const F f{}; Nz::FunctionRef<int(int)> r(f); r(1);" },
		{ "function-ref-to-bool", "FunctionRef", "", "Nz::FunctionRef<void()> r(nullptr); bool b = bool(r); if (r) b = !b; (void)b;", "Nz::FunctionRef<void()> r(nullptr); bool b = r; (void)b;" },
		{ "result-to-bool", "Result", "", "Nz::Result<int, short> r(Nz::Ok(1)); bool b = bool(r); if (r) b = !b; (void)b;", "Nz::Result<int, short> r(Nz::Ok(1)); bool b = r; (void)b;" },
		{ "result-void-to-bool", "Result", "", "Nz::Result<void, short> r(Nz::Ok()); bool b = bool(r); if (r) b = !b; (void)b;", "Nz::Result<void, short> r(Nz::Ok()); bool b = r; (void)b;" },
		{ "result-void-error", "Result", "", "Nz::Result<int, short> r(Nz::Ok(1));", "Nz::Result<int, void>* r = nullptr; (void)r->IsOk();" },
		{ "result-unrelated-value", "Result", "struct T {};", "Nz::Result<int, short> a(Nz::Ok(1)); Nz::Result<long, short> b(a);", "Nz::Result<T, short> a(Nz::Err(short(1))); Nz::Result<long, short> b(a);" },
		{ "result-unrelated-value-move", "Result", "struct T {};", "Nz::Result<int, short> a(Nz::Ok(1)); Nz::Result<long, short> b(std::move(a));", "Nz::Result<T, short> a(Nz::Err(short(1))); Nz::Result<long, short> b(std::move(a));" },
		{ "result-unrelated-error", "Result", "struct T {};", "Nz::Result<int, short> a(Nz::Ok(1)); Nz::Result<int, long> b(a);", "Nz::Result<int, T> a(Nz::Ok(1)); Nz::Result<int, long> b(a);" },
		{ "result-wrong-ok", "Result", "struct T {};", "Nz::Result<int, T> a(Nz::Ok(1));", "Nz::Result<int, T> a(Nz::Ok(T{}));" },
		{ "result-wrong-err", "Result", "struct T {};", "Nz::Result<int, T> a(Nz::Err(T{}));", "Nz::Result<int, T> a(Nz::Err(1));" },
		{ "result-void-value", "Result", "", "Nz::Result<void, int> a(Nz::Ok()); a.Expect(\"\");", "Nz::Result<void, int> a(Nz::Ok(1));" },
		{ "result-default", "Result", "struct T { T(int); };", "Nz::Result<int, short> a;", "Nz::Result<T, short> a;" },
		{ "bitset-implicit-string", "Bitset", "void take(const Nz::Bitset<>&);", "take(Nz::Bitset<>(\"0101\"));", "take(\"0101\");" },
		{ "bitset-implicit-std-string", "Bitset", "void take(const Nz::Bitset<>&);", "std::string s; take(Nz::Bitset<>(s));", "std::string s; take(s);" },
		{ "bitset-bit-address", "Bitset", "", "Nz::Bitset<> b(4, false); auto bit = b[1]; (void)bit;", "Nz::Bitset<> b(4, false); auto bit = &b[1]; (void)bit;" },
		{ "bitset-signed-block", "Bitset", "", "Nz::Bitset<unsigned> b(4, false);", "Nz::Bitset<int> b(4, false);" },
		{ "bitset-float-block", "Bitset", "", "Nz::Bitset<unsigned char> b(4, false);", "Nz::Bitset<float> b(4, false);" },
		{ "bitset-to-signed", "Bitset", "", "Nz::Bitset<> b(4, false); (void)b.To<unsigned>();", "Nz::Bitset<> b(4, false); (void)b.To<int>();" },
		{ "fixed-implicit-size", "FixedVector", "void take(const Nz::FixedVector<int, 4>&);", "take(Nz::FixedVector<int, 4>(2));", "take(2);" },
		{ "fixed-empty-capacity", "FixedVector", "", "Nz::FixedVector<int, 1> v;", "Nz::FixedVector<int, 0> v;" },
		{ "holder-to-bool", "PrivateImpl", "struct M { int a = 0; };", "Nz::PrivateImpl<M> p; bool b = bool(p); if (p) b = !b; (void)b;", "struct N { explicit N(Nz::PrivateImpl<M>&); }; Nz::PrivateImpl<M> p; N n = p; (void)n;" },
		{ "holder-too-small", "PrivateImpl", "struct M { int a[5]; };", "Nz::PrivateImpl<M, 32> p;", "Nz::PrivateImpl<M, 16> p;" },
		{ "holder-misaligned", "PrivateImpl", "struct alignas(32) M { int a[8]; };", "Nz::PrivateImpl<M, 32, 32> p;", "Nz::PrivateImpl<M, 32, 16> p;" },
		{ "safe-cast-unrelated", "Algorithm", "struct A { virtual ~A(); }; struct B { virtual ~B(); }; struct C : A {};", "A* a = nullptr; C* c = Nz::SafeCast<C*>(a); (void)c;", "A* a = nullptr; B* b = Nz::SafeCast<B*>(a); (void)b;" },
		{ "safe-cast-drops-const", "Algorithm", "struct A { virtual ~A(); }; struct C : A {};", "const A* a = nullptr; auto c = Nz::SafeCast<const C*>(a); (void)c;", "const A* a = nullptr; auto c = Nz::SafeCast<C*>(a); (void)c;" },
		{ "safe-cast-pointer", "Algorithm", "", "long l = Nz::SafeCast<long>(3); (void)l;", "int i; long l = Nz::SafeCast<long>(&i); (void)l;" },
		{ "bit-cast-size", "Algorithm", "", "(void)Nz::BitCast<unsigned>(1.f);", "(void)Nz::BitCast<unsigned>(1.0);" },
		{ "bit-cast-source", "Algorithm", "struct T { T(const T& t) : a(t.a) {} T(int n) : a(n) {} int a; };", "(void)Nz::BitCast<unsigned>(1);", "(void)Nz::BitCast<unsigned>(T(1));" },
		{ "bit-cast-target", "Algorithm", "struct T { T() = default; T(const T& t) : a(t.a) {} int a; };", "(void)Nz::BitCast<int>(1u);", "(void)Nz::BitCast<T>(1u);" },
		{ "count-of-pointer", "Algorithm", "", "int a[3]; (void)Nz::CountOf(a);", "int* a = nullptr; (void)Nz::CountOf(a);" },
		{ "pointer-to-integer", "Algorithm", "", "int i; (void)Nz::PointerToInteger<std::uintptr_t>(&i);", "(void)Nz::PointerToInteger<std::uintptr_t>(3);" },
		{ "integer-to-pointer", "Algorithm", "", "(void)Nz::IntegerToPointer<int*>(std::uintptr_t(8));", "(void)Nz::IntegerToPointer<long>(std::uintptr_t(8));" },
		{ "access-by-value", "Algorithm", "struct M { int a, b; };", "M m; (void)Nz::AccessByOffset<int&>(&m, 0);", "M m; (void)Nz::AccessByOffset<int>(&m, 0);" },
		{ "infinity-of-int", "Constants", "", "auto f = Nz::Infinity<float>(); (void)f;", "auto f = Nz::Infinity<int>(); (void)f;" },
		{ "nan-of-int", "Constants", "", "auto f = Nz::NaN<float>(); (void)f;", "auto f = Nz::NaN<int>(); (void)f;" },
		{ "pi-of-int", "Constants", "", "auto f = Nz::Pi<double>; (void)f;", "auto f = Nz::Pi<int>; (void)f;" },
		{ "tau-of-int", "Constants", "", "auto f = Nz::Tau<double>; (void)f;", "auto f = Nz::Tau<int>; (void)f;" },
		{ "half-pi-of-int", "Constants", "", "auto f = Nz::HalfPi<double>; (void)f;", "auto f = Nz::HalfPi<int>; (void)f;" },
		{ "sqrt2-of-int", "Constants", "", "auto f = Nz::Sqrt2<double>; (void)f;", "auto f = Nz::Sqrt2<int>; (void)f;" },
		{ "enum-array-unbounded", "EnumArray", "enum class E { A, B, Max = B }; enum class U { A, B };", "Nz::EnumArray<E, int> a{}; (void)a;", "Nz::EnumArray<U, int> a{}; (void)a;" },
		{ "enum-array-index", "EnumArray", "enum class E { A, B, Max = B }; enum class U { A, B };", "Nz::EnumArray<E, int> a{}; (void)a[E::B];", "Nz::EnumArray<E, int> a{}; (void)a[U::B];" },
		{ "enum-array-integer-index", "EnumArray", "enum class E { A, B, Max = B };", "Nz::EnumArray<E, int> a{}; (void)a[E::B];", "Nz::EnumArray<E, int> a{}; (void)a[1];" },
		{ "enum-array-too-many", "EnumArray", "enum class E { A, B, Max = B };", "Nz::EnumArray<E, int> a{ { 1, 2 } }; (void)a;", "Nz::EnumArray<E, int> a{ { 1, 2, 3 } }; (void)a;" },
		{ "type-list-at", "TypeList", "using L = Nz::TypeList<int, char>;", "Nz::TypeListAt<L, 1> c = 'c'; (void)c;", "Nz::TypeListAt<L, 2> c = 'c'; (void)c;" },
		{ "function-argument", "FunctionTraits", "using T = Nz::FunctionTraits<int(char)>;", "typename T::template Arg<0>::type c = 'c'; (void)c;", "typename T::template Arg<1>::type c = 'c'; (void)c;" },
		{ "pool-iterator-mix", "MemoryPool", "", "Nz::MemoryPool<int> p(2); Nz::MemoryPool<int>::iterator a = p.begin(); (void)a;", "Nz::MemoryPool<int> p(2); Nz::MemoryPool<int>::iterator a = p.cbegin(); (void)a;" },
		{ "signal-arguments", "Signal", "", "Nz::Signal<int> s; s.Connect([](int) {}); s(1);", "Nz::Signal<int> s; s.Connect([](const char*) {});" },
		{ "signal-emission", "Signal", "", "Nz::Signal<int> s; s(1);", "Nz::Signal<int> s; s(\"one\");" },
		{ "signal-const-method", "Signal", "struct O { void m(int); void c(int) const; };", "Nz::Signal<int> s; const O o{}; s.Connect(o, &O::c);", "Nz::Signal<int> s; const O o{}; s.Connect(o, &O::m);" },
		{ "signal-const-connect", "Signal", "", "Nz::Signal<int> s; s.Connect([](int) {});", "const Nz::Signal<int> s; s.Connect([](int) {});" },
		{ "movable-literal-conversion", "MovableValue", "struct T {};", "Nz::MovableLiteral<int, 1> a(3); a = 5;", "Nz::MovableLiteral<int, 1> a(T{});" },
		{ "movable-ptr-unrelated", "MovablePtr", "", "int i; Nz::MovablePtr<int> p(&i); p = &i;", "float f; Nz::MovablePtr<int> p(&f);" },
		{ "result-discarded-err", "Result", "", "Nz::Result<int, int> a(Nz::Err(2)); if (a.IsErr()) (void)a.GetError();", "Nz::Result<int, int> a(2);" },

		// ---- calls the concepts refuse
		{ "pow2-of-float", "MathUtils", "", "(void)Nz::IsPow2(4u);", "(void)Nz::IsPow2(4.f);", true },
		{ "count-bits-of-float", "MathUtils", "", "(void)Nz::CountBits(4u);", "(void)Nz::CountBits(4.f);", true },
		{ "align-float", "MathUtils", "", "(void)Nz::Align(4u, 4u);", "(void)Nz::Align(4.f, 4.f);", true },
		{ "align-mixed", "MathUtils", "", "(void)Nz::Align(4u, 4u);", "(void)Nz::Align(4u, 4l);" },
		{ "byte-swap-class", "MathUtils", "struct T { int a; };", "(void)Nz::ByteSwap(4); (void)Nz::ByteSwap(4.f);", "(void)Nz::ByteSwap(T{});", true },
		{ "multiple-of-float", "MathUtils", "", "(void)Nz::ReverseBits(4u);", "(void)Nz::ReverseBits(4.f);", true },
	};

	Text program(const Case& c, const char* statements)
	{
		Text text = "#include <map>\n#include <memory>\n#include <string>\n#include <utility>\n";
		std::istringstream names(c.headers); Text name;
		while (names >> name) text += "#include <NazaraUtils/" + name + ".hpp>\n";
		return text + "namespace user\n{\n" + c.common + "\nvoid use()\n{\n" + statements + "\n}\n}\n";
	}

	void check(const Compiler& compiler, unsigned part, unsigned parts)
	{
		mc::forAll([&](mc::Exec& x)
		{
			const unsigned count = unsigned(sizeof(cases) / sizeof(cases[0]));
			const unsigned mine = (count - part + parts - 1) / parts;
			const Case& c = cases[part + x.choose(mine) * parts];
			const bool misuse = x.flip();
			if (misuse && c.cpp20 && Text(compiler.standard) == "-std=c++17") return;
			// a debug build, whose checks are all present
			const Outcome o = run({ compiler.name, compiler.standard, "-fsyntax-only", "-w", "-DNAZARA_DEBUG", "-I" MC_REPO "/include", "-x", "c++", "-" }, program(c, misuse ? c.misuse : c.allowed));
			x.step();
			MC_NOTE("%s, %s %s: %s", c.name, compiler.name, compiler.standard, misuse ? c.misuse : c.allowed);
			if (misuse) MC_CHECK(o.status != 0 && o.err.find("error:") != Text::npos, "accepted", "%s: this compiles (%s %s): %s", c.name, compiler.name, compiler.standard, c.misuse);
			else MC_CHECK(o.status == 0, "rejected", "%s: this does not compile (%s %s): %s: %s", c.name, compiler.name, compiler.standard, c.allowed, firstErrors(o.err).c_str());
			mc::outcome(misuse);
		});
	}
}

MC_SUITE(gcc17_0) { check(compilers[0], 0, 2); }
MC_SUITE(gcc17_1) { check(compilers[0], 1, 2); }
MC_SUITE(gcc20_0) { check(compilers[1], 0, 2); }
MC_SUITE(gcc20_1) { check(compilers[1], 1, 2); }
MC_SUITE(clang17_0) { check(compilers[3], 0, 2); }
MC_SUITE(clang17_1) { check(compilers[3], 1, 2); }
MC_SUITE(clang20_0) { check(compilers[4], 0, 2); }
MC_SUITE(clang20_1) { check(compilers[4], 1, 2); }
MC_SUITE(gcc23) { if (mc::thorough()) check(compilers[2], 0, 1); else mc::outcome(0); }
MC_SUITE(clang23) { if (mc::thorough()) check(compilers[5], 0, 1); else mc::outcome(0); }
