// Shared driver for the vector-like containers: every enabled operation with every argument, against std::vector<int>.
#pragma once
#include <NazaraUtils/Prerequisites.hpp>
#include <NazaraUtils/Assert.hpp>
#include <NazaraUtils/FixedVector.hpp>
#include <NazaraUtils/StackArray.hpp>
#include <NazaraUtils/StackVector.hpp>
#include "mc.hpp"

using Model = std::vector<int>;

// ---- element types
template<typename T, typename = void> constexpr bool Stamped = false;
template<typename T> constexpr bool Stamped<T, decltype(void(std::declval<T&>().stamp))> = true;
template<typename T> constexpr bool Tracked = Stamped<T>;
inline int valueOf(int v) { return v; }
inline int valueOf(const std::string& s) { return s.empty() ? 0 : std::atoi(s.c_str() + 40); }
template<typename T> auto valueOf(const T& v) -> decltype(v.get()) { return v.get(); }
template<typename T> T make(int v)
{
	if constexpr (std::is_same_v<T, std::string>) return std::string(40, 'x') + std::to_string(v);
	else return T(v);
}
struct alignas(64) Wide : mc::Elem // over-aligned
{
	Wide() = default;
	explicit Wide(int v) : mc::Elem(v) { MC_CHECK(reinterpret_cast<std::uintptr_t>(this) % 64 == 0, "alignment", "misaligned element"); }
	Wide(const Wide& o) : mc::Elem(o) { MC_CHECK(reinterpret_cast<std::uintptr_t>(this) % 64 == 0, "alignment", "misaligned element"); }
	Wide(Wide&& o) noexcept : mc::Elem(std::move(o)) { MC_CHECK(reinterpret_cast<std::uintptr_t>(this) % 64 == 0, "alignment", "misaligned element"); }
	Wide& operator=(const Wide&) = default;
	Wide& operator=(Wide&&) = default;
};
// no default constructor, copyable
struct NoDefault : mc::Elem
{
	NoDefault() = delete;
	explicit NoDefault(int v) : mc::Elem(v) {}
};

// can only be moved, by operations not declared noexcept
struct ThrowingMoveOnly : mc::MoveOnly
{
	explicit ThrowingMoveOnly(int v) : mc::MoveOnly(v) {}
	ThrowingMoveOnly(ThrowingMoveOnly&& o) noexcept(false) : mc::MoveOnly(std::move(o)) {}
	ThrowingMoveOnly& operator=(ThrowingMoveOnly&& o) noexcept(false) { mc::MoveOnly::operator=(std::move(o)); return *this; }
};

// larger than a cache line, every byte of it checked
struct Huge : mc::Elem
{
	unsigned char payload[297];
	static unsigned char byteOf(int v, std::size_t i) { return static_cast<unsigned char>(v * 7 + int(i)); }
	void fill() { for (std::size_t i = 0; i < sizeof(payload); ++i) payload[i] = byteOf(value, i); }
	Huge() { fill(); }
	explicit Huge(int v) : mc::Elem(v) { fill(); }
	Huge(const Huge& o) : mc::Elem(o) { std::memcpy(payload, o.payload, sizeof(payload)); }
	Huge(Huge&& o) noexcept : mc::Elem(std::move(o)) { std::memcpy(payload, o.payload, sizeof(payload)); o.fill(); }
	Huge& operator=(const Huge& o) { mc::Elem::operator=(o); std::memmove(payload, o.payload, sizeof(payload)); return *this; }
	Huge& operator=(Huge&& o) noexcept { const bool self = this == &o; mc::Elem::operator=(std::move(o)); if (!self) { std::memcpy(payload, o.payload, sizeof(payload)); o.fill(); } return *this; }
	int get() const { for (std::size_t i = 0; i < sizeof(payload); ++i) MC_CHECK(payload[i] == byteOf(value, i), "content", "byte %zu of a large element is lost", i); return mc::Elem::get(); }
};
// trivially copyable, smaller than a pointer
struct Small
{
	short v = 0;
	Small() = default;
	explicit Small(int x) : v(short(x)) {}
	int get() const { return v; }
};
// trivially copyable, larger than two pointers
struct Plain
{
	int v = 0; int pad[5] = {}; int inverse = -1;
	Plain() = default;
	explicit Plain(int x) : v(x), inverse(~x) { for (int& p : pad) p = x * 3; }
	int get() const { MC_CHECK(inverse == ~v && pad[0] == v * 3 && pad[4] == v * 3, "content", "part of a trivially copyable element is lost"); return v; }
};
using mc::Listed;
// reference counted: what is copied or destroyed once too many (or too few) shows
struct Shared
{
	std::shared_ptr<int> p = std::make_shared<int>(0);
	Shared() = default;
	explicit Shared(int v) : p(std::make_shared<int>(v)) {}
	int get() const { return p ? *p : mc::MovedFrom; }
};

inline std::string show(const Model& m) { std::string s = "{"; for (int v : m) s += std::to_string(v) + " "; return s + "}"; }

// ---- containers
template<typename V> struct Traits;
template<typename T, std::size_t C> struct Traits<Nz::FixedVector<T, C>>
{
	static constexpr bool Hybrid = false, Stack = false;
	static constexpr std::size_t Inline = C, Max = C;
};
template<typename T, std::size_t C> struct Traits<Nz::FixedVector<T, C, std::vector<T>>>
{
	static constexpr bool Hybrid = true, Stack = false;
	static constexpr std::size_t Inline = C, Max = C + 3;
};
template<typename T> struct Traits<Nz::StackVector<T>>
{
	static constexpr bool Hybrid = false, Stack = true;
	static constexpr std::size_t Inline = 4, Max = 4;
};

// A container and what backs it
template<typename V>
struct Box
{
	using T = typename V::value_type;
	void* memory = nullptr;
	V* v = nullptr;
	alignas(V) unsigned char place[sizeof(V)];
	Box()
	{
		std::memset(place, 0xCD, sizeof(V));
		if constexpr (Traits<V>::Stack)
		{
			memory = ::operator new(Traits<V>::Max * sizeof(T), std::align_val_t(std::max<std::size_t>(alignof(T), 16)));
			std::memset(memory, 0xCD, Traits<V>::Max * sizeof(T));
			v = new (place) V(static_cast<T*>(memory), Traits<V>::Max);
		}
		else
			v = new (place) V();
	}
	explicit Box(V&& from) { std::memset(place, 0xCD, sizeof(V)); v = new (place) V(std::move(from)); }
	struct CopyTag {};
	Box(CopyTag, const V& from) { std::memset(place, 0xCD, sizeof(V)); v = new (place) V(from); }
	~Box() { destroy(); }
	void destroy()
	{
		if (!v) return;
		V* p = v; v = nullptr;
		p->~V();
		if (memory) ::operator delete(memory, std::align_val_t(std::max<std::size_t>(alignof(T), 16)));
	}
	Box(const Box&) = delete;
	V& operator*() { return *v; }
	V* operator->() { return v; }
};

template<typename V>
bool isInline(const V& v)
{
	const char* p = reinterpret_cast<const char*>(&*v.begin());
	const char* o = reinterpret_cast<const char*>(&v);
	return p >= o && p < o + sizeof(V);
}

template<typename V>
void observe(V& v, const Model& m, const char* what)
{
	const V& c = v;
	const std::size_t n = m.size();
	MC_CHECK(v.size() == n, "size", "%s: size %zu, expected %s", what, v.size(), show(m).c_str());
	MC_CHECK(v.empty() == (n == 0), "size", "%s: empty() wrong for %s", what, show(m).c_str());
	MC_CHECK(v.capacity() >= n && v.max_size() >= n, "capacity", "%s: capacity %zu max_size %zu for %zu elements", what, v.capacity(), v.max_size(), n);
	if constexpr (!Traits<V>::Hybrid)
		MC_CHECK(v.capacity() == Traits<V>::Max && v.max_size() == Traits<V>::Max, "capacity", "%s: capacity %zu max_size %zu", what, v.capacity(), v.max_size());
	auto check = [&](const char* how, std::size_t i, int got) { MC_CHECK(got == m[i], "content", "%s: element %zu read through %s is %d, expected %s", what, i, how, got, show(m).c_str()); };
	for (std::size_t i = 0; i < n; ++i)
	{
		check("operator[]", i, valueOf(v[i]));
		check("const operator[]", i, valueOf(c[i]));
		check("data()", i, valueOf(v.data()[i]));
		check("const data()", i, valueOf(c.data()[i]));
		MC_CHECK(reinterpret_cast<std::uintptr_t>(&v[i]) % alignof(typename V::value_type) == 0, "alignment", "%s: misaligned element", what);
	}
	auto walk = [&](const char* how, auto first, auto last, bool reverse)
	{
		std::size_t i = 0;
		for (; first != last; ++first, ++i)
		{
			MC_CHECK(i < n, "iteration", "%s: %s visits too many elements", what, how);
			check(how, reverse ? n - 1 - i : i, valueOf(*first));
		}
		MC_CHECK(i == n, "iteration", "%s: %s visits %zu elements instead of %zu", what, how, i, n);
	};
	walk("begin()", v.begin(), v.end(), false);
	walk("const begin()", c.begin(), c.end(), false);
	walk("cbegin()", v.cbegin(), v.cend(), false);
	walk("rbegin()", v.rbegin(), v.rend(), true);
	walk("const rbegin()", c.rbegin(), c.rend(), true);
	walk("crbegin()", v.crbegin(), v.crend(), true);
	if (n > 0)
	{
		check("front()", 0, valueOf(v.front()));
		check("const front()", 0, valueOf(c.front()));
		check("back()", n - 1, valueOf(v.back()));
		check("const back()", n - 1, valueOf(c.back()));
		if constexpr (!Traits<V>::Hybrid && !Traits<V>::Stack)
			MC_CHECK(isInline(v), "storage", "%s: elements are not stored inside the vector", what);
	}
}

enum Kind
{
	PushCopy, PushMove, EmplaceBack, PushOwn, EmplaceBackOwn, PushOwnMoved, EmplaceBackOwnMoved, EmplaceAt, InsertCopy, InsertMove, InsertOwn, EmplaceOwn,
	EraseAt, EraseRange, PopBack, Clear, Resize, ResizeValue, ResizeOwn, Reserve, SelfCopy, SelfMove, ReplaceCopy, MoveRound, FromList, FromRange, FromCount, Write
};
inline const char* kindName(int k)
{
	static const char* names[] = { "push_back(const T&)", "push_back(T&&)", "emplace_back", "push_back(own element)", "emplace_back(own element)", "push_back(moved own element)", "emplace_back(moved own element)", "emplace", "insert(const T&)", "insert(T&&)",
		"insert(own element)", "emplace(own element)", "erase(it)", "erase(range)", "pop_back", "clear", "resize(n)", "resize(n, value)", "resize(n, own element)", "reserve", "self copy assignment",
		"self move assignment", "copy, destroy the original", "move out and back", "from initializer list", "from iterators", "from (count, value)", "write through" };
	return names[k];
}
struct Op { int kind; std::size_t a, b; };

// every operation enabled in a state holding n elements
template<typename V>
std::vector<Op> enabledOps(std::size_t n, bool moves = true)
{
	using T = typename V::value_type;
	using Tr = Traits<V>;
	constexpr bool copyable = std::is_copy_constructible_v<T>;
	constexpr bool deflt = std::is_default_constructible_v<T>;
	std::vector<Op> ops;
	if (n < Tr::Max)
	{
		ops.push_back({ PushMove, 0, 0 });
		ops.push_back({ EmplaceBack, 0, 0 });
		if (n > 0) { ops.push_back({ PushOwnMoved, 0, 0 }); ops.push_back({ EmplaceBackOwnMoved, n - 1, 0 }); }
		if (copyable)
		{
			ops.push_back({ PushCopy, 0, 0 });
			for (std::size_t i = 0; i < n; ++i) { if (i && i + 1 < n) continue; ops.push_back({ PushOwn, i, 0 }); ops.push_back({ EmplaceBackOwn, i, 0 }); }
		}
		for (std::size_t p = 0; p <= n; ++p)
		{
			ops.push_back({ EmplaceAt, p, 0 });
			ops.push_back({ InsertMove, p, 0 });
			if (copyable)
			{
				ops.push_back({ InsertCopy, p, 0 });
				for (std::size_t i = 0; i < n; ++i) ops.push_back({ (i + p) % 2 ? InsertOwn : EmplaceOwn, p, i });
			}
		}
	}
	for (std::size_t p = 0; p < n; ++p) ops.push_back({ EraseAt, p, 0 });
	for (std::size_t p = 0; p <= n; ++p) for (std::size_t q = p; q <= n; ++q) ops.push_back({ EraseRange, p, q });
	if (n > 0) { ops.push_back({ PopBack, 0, 0 }); ops.push_back({ Write, 0, 0 }); }
	ops.push_back({ Clear, 0, 0 });
	for (std::size_t k = 0; k <= Tr::Max; ++k)
	{
		if (deflt) ops.push_back({ Resize, k, 0 });
		if (copyable)
		{
			ops.push_back({ ResizeValue, k, 0 });
			if (n > 0 && k > n) { ops.push_back({ ResizeOwn, k, 0 }); if (n > 1) ops.push_back({ ResizeOwn, k, n - 1 }); }
		}
	}
	if (!Tr::Stack)
	{
		ops.push_back({ Reserve, Tr::Inline, 0 });
		if (Tr::Hybrid) { ops.push_back({ Reserve, Tr::Inline + 1, 0 }); ops.push_back({ Reserve, Tr::Max + 4, 0 }); }
		if (copyable)
		{
			ops.push_back({ SelfCopy, 0, 0 });
			ops.push_back({ ReplaceCopy, 0, 0 });
			// (these three end with a move construction, which is noexcept whatever the elements do)
			if (moves && Tr::Max >= 2) ops.push_back({ FromList, 0, 0 });
			if (moves) for (std::size_t k : { std::size_t(0), std::size_t(1), Tr::Inline, Tr::Max }) { ops.push_back({ FromCount, k, 0 }); ops.push_back({ FromRange, k, 0 }); }
		}
	}
	if (moves)
	{
		ops.push_back({ SelfMove, 0, 0 });
		ops.push_back({ MoveRound, 0, 0 });
	}
	return ops;
}

// applies one operation to the container; `m` becomes what the container must hold
template<typename V>
void applyOp(std::unique_ptr<Box<V>>& box, Model& m, const Op& op, int& next)
{
	using T = typename V::value_type;
	using Tr = Traits<V>;
	constexpr bool copyable = std::is_copy_constructible_v<T>;
	constexpr bool deflt = std::is_default_constructible_v<T>;
	V& v = **box;
	int fresh = next++;
	const int own = op.kind == PushOwnMoved || op.kind == EmplaceBackOwnMoved || op.kind == PushOwn || op.kind == EmplaceBackOwn ? (op.a < m.size() ? m[op.a] : 0) : (op.b < m.size() ? m[op.b] : 0);
	Model before = m;
	const std::size_t capBefore = v.capacity();
	const T* const dataBefore = v.data();
	bool inlineBefore = false;
	if constexpr (Tr::Hybrid) inlineBefore = isInline(v);
	// where the operation starts to modify the elements
	std::size_t modified = 0;
	switch (op.kind)
	{
		case PushCopy: case PushMove: case EmplaceBack: case PushOwn: case EmplaceBackOwn: case Reserve: case SelfCopy: modified = m.size(); break;
		case PushOwnMoved: case EmplaceBackOwnMoved: case EmplaceAt: case InsertCopy: case InsertMove: case InsertOwn: case EmplaceOwn: case EraseAt: case EraseRange: modified = op.a; break;
		case PopBack: modified = m.size() - 1; break;
		case Resize: case ResizeValue: case ResizeOwn: modified = std::min(op.a, m.size()); break;
		default: break;
	}
	if (op.kind == EraseRange && op.a == op.b) modified = m.size(); // nothing to erase
	std::vector<unsigned> stamps;
	if constexpr (Stamped<T>) for (std::size_t i = 0; i < modified; ++i) stamps.push_back(v[i].stamp);
	m.reserve(64); // the model allocates nothing below
	auto returned = [&](auto it, std::size_t index) { MC_CHECK(std::size_t(it - v.begin()) == index, "iterator", "%s returned an iterator to position %td instead of %zu", kindName(op.kind), it - v.begin(), index); };
	auto refBack = [&](auto& ref) { MC_CHECK(&ref == &v[v.size() - 1], "reference", "%s does not return the last element", kindName(op.kind)); };
	MC_NOTE("%s a=%zu b=%zu fresh=%d on %s", kindName(op.kind), op.a, op.b, fresh, show(m).c_str());
	const mc::u64 allocations = mc::g_heap.allocations, copies = mc::g_life.copies + mc::g_life.copyAssigns;
	switch (op.kind)
	{
		case PushMove: { m.push_back(fresh); T t = make<T>(fresh); auto& r = v.push_back(std::move(t)); refBack(r); break; }
		case EmplaceBack: { m.push_back(fresh); if constexpr (std::is_same_v<T, std::string>) { auto& r = v.emplace_back(make<T>(fresh)); refBack(r); } else { auto& r = v.emplace_back(fresh); refBack(r); } break; }
		// (what is left of the element which was moved is unspecified: it gets replaced)
		case PushOwnMoved: { auto& r = v.push_back(std::move(v[op.a])); refBack(r); v[op.a] = make<T>(fresh); m.push_back(own); m[op.a] = fresh; break; }
		case EmplaceBackOwnMoved: { auto& r = v.emplace_back(std::move(v[op.a])); refBack(r); v[op.a] = make<T>(fresh); m.push_back(own); m[op.a] = fresh; break; }
		case EmplaceAt: { m.insert(m.begin() + op.a, fresh); if constexpr (std::is_same_v<T, std::string>) returned(v.emplace(v.begin() + op.a, make<T>(fresh)), op.a); else returned(v.emplace(v.begin() + op.a, fresh), op.a); break; }
		case InsertMove: { m.insert(m.begin() + op.a, fresh); T t = make<T>(fresh); returned(v.insert(v.begin() + op.a, std::move(t)), op.a); break; }
		case EraseAt: m.erase(m.begin() + op.a); returned(v.erase(v.begin() + op.a), op.a); break;
		case EraseRange: m.erase(m.begin() + op.a, m.begin() + op.b); returned(v.erase(v.cbegin() + op.a, v.cbegin() + op.b), op.a); break;
		case PopBack: m.pop_back(); v.pop_back(); break;
		case Clear: m.clear(); v.clear(); break;
		case Write:
			for (int& x : m) x += 1000;
			for (std::size_t i = 0; i < m.size(); ++i)
			{
				if (i == 0) v.front() = make<T>(m[i]); else if (i + 1 == m.size()) v.back() = make<T>(m[i]); else if (i % 2) v[i] = make<T>(m[i]); else *(v.begin() + i) = make<T>(m[i]);
			}
			break;
		case SelfMove: { V& alias = v; v = std::move(alias); break; }
		case MoveRound:
		{
			auto other = std::make_unique<Box<V>>(std::move(v));
			observe(**other, before, "moved-to");
			if constexpr (Tr::Stack)
			{
				// memory belongs to the box: the moved-from vector must not touch the elements any more
				box->v->~V(); box->v = new (box->place) V(std::move(**other));
			}
			else
				v = std::move(**other);
			break;
		}
		default: break;
	}
	if constexpr (deflt)
		if (op.kind == Resize) { m.resize(op.a); v.resize(op.a); }
	if constexpr (copyable)
	{
		switch (op.kind)
		{
			case PushCopy: { m.push_back(fresh); T t = make<T>(fresh); auto& r = v.push_back(t); refBack(r); MC_CHECK(valueOf(t) == fresh, "content", "push_back(const T&) modified its argument"); break; }
			case PushOwn: { m.push_back(own); auto& r = v.push_back(v[op.a]); refBack(r); break; }
			case EmplaceBackOwn: { m.push_back(own); auto& r = v.emplace_back(v[op.a]); refBack(r); break; }
			case InsertCopy: { m.insert(m.begin() + op.a, fresh); const T t = make<T>(fresh); returned(v.insert(v.begin() + op.a, t), op.a); break; }
			case InsertOwn: m.insert(m.begin() + op.a, own); returned(v.insert(v.begin() + op.a, v[op.b]), op.a); break;
			case EmplaceOwn: m.insert(m.begin() + op.a, own); returned(v.emplace(v.begin() + op.a, v[op.b]), op.a); break;
			case ResizeValue: { m.resize(op.a, fresh); T t = make<T>(fresh); v.resize(op.a, t); break; }
			case ResizeOwn: m.resize(op.a, own); v.resize(op.a, v[op.b]); break;
			default: break;
		}
	}
	const bool countable = (op.kind <= ResizeOwn || op.kind == Write) && (Tracked<T> || std::is_trivially_copyable_v<T>); // (the others allocate by themselves)
	if (countable)
	{
		if constexpr (!Tr::Hybrid)
			MC_CHECK(mc::g_heap.allocations == allocations, "allocation", "%s allocates memory", kindName(op.kind));
		else if (inlineBefore && m.size() <= Tr::Inline)
			MC_CHECK(isInline(v) && mc::g_heap.allocations == allocations, "allocation", "%s allocates memory although %zu elements fit in the vector", kindName(op.kind), m.size());
	}
	if (!std::is_nothrow_move_constructible_v<T>) ; // may be copied rather than moved, for safety
	else if (op.kind == PushMove || op.kind == EmplaceBack || op.kind == PushOwnMoved || op.kind == EmplaceBackOwnMoved || op.kind == EmplaceAt || op.kind == InsertMove || op.kind == EraseAt || op.kind == EraseRange || op.kind == PopBack || op.kind == Clear || op.kind == Resize || op.kind == SelfMove || op.kind == MoveRound)
		MC_CHECK(mc::g_life.copies + mc::g_life.copyAssigns == copies, "copies", "%s copies elements", kindName(op.kind));
	if constexpr (Stamped<T>)
		if (v.data() == dataBefore)
			for (std::size_t i = 0; i < stamps.size(); ++i)
				MC_CHECK(v[i].stamp == stamps[i], "untouched", "%s modifies element %zu, before its position %zu", kindName(op.kind), i, modified);
	if (op.kind <= ResizeOwn || (op.kind == Reserve && op.a <= capBefore)) // no relocation while the elements fit in the capacity
		MC_CHECK(v.size() > capBefore || v.data() == dataBefore, "relocation", "%s relocated the elements although %zu elements fit in the capacity %zu", kindName(op.kind), v.size(), capBefore);
	if constexpr (!Tr::Stack)
	{
		if (op.kind == Reserve) { v.reserve(op.a); MC_CHECK(v.capacity() >= op.a, "capacity", "capacity %zu after reserve(%zu)", v.capacity(), op.a); }
		if constexpr (copyable)
		{
			switch (op.kind)
			{
				case SelfCopy: { const V& alias = v; V& r = (v = alias); MC_CHECK(&r == &v, "reference", "assignment does not return its object"); break; }
				case ReplaceCopy: { auto other = std::make_unique<Box<V>>(typename Box<V>::CopyTag{}, v); observe(v, before, "copied-from"); box = std::move(other); break; }
				case FromList: { m = { fresh, fresh + 5000 }; std::initializer_list<T> l = { make<T>(fresh), make<T>(fresh + 5000) }; auto other = std::make_unique<Box<V>>(V(l)); box = std::move(other); break; }
				case FromRange:
				{
					m.clear(); for (std::size_t i = 0; i < op.a; ++i) m.push_back(fresh + int(i));
					std::vector<T> src; for (int x : m) src.push_back(make<T>(x));
					auto other = std::make_unique<Box<V>>(V(src.begin(), src.end())); box = std::move(other);
					break;
				}
				case FromCount: { m.assign(op.a, fresh); T t = make<T>(fresh); auto other = std::make_unique<Box<V>>(V(op.a, t)); box = std::move(other); break; }
				default: break;
			}
		}
	}
}
