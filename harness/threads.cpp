// C33: different objects used by different threads, and const uses of the same object, never touch a common mutable state.
//
// No header of the library synchronizes anything, so the operations of two threads are never ordered by it: two operations
// are free of races in every interleaving exactly when they are in one of them (the happens-before relation is the same in
// all).  Every ordered pair of operations is executed, in both orders, by two threads ordered by nothing the race detector
// (ThreadSanitizer) knows about; each suite starts from a fresh process, and first runs its operation against itself, so
// that anything initialized on first use is initialized by two threads.
#define MC_NO_HEAP
#include "mc.hpp"
#include <NazaraUtils/Algorithm.hpp>
#include <NazaraUtils/Bitset.hpp>
#include <NazaraUtils/CallOnExit.hpp>
#include <NazaraUtils/Constants.hpp>
#include <NazaraUtils/Endianness.hpp>
#include <NazaraUtils/EnumArray.hpp>
#include <NazaraUtils/FixedVector.hpp>
#include <NazaraUtils/Flags.hpp>
#include <NazaraUtils/FunctionRef.hpp>
#include <NazaraUtils/Hash.hpp>
#include <NazaraUtils/MathUtils.hpp>
#include <NazaraUtils/MemoryPool.hpp>
#include <NazaraUtils/MovablePtr.hpp>
#include <NazaraUtils/MovableValue.hpp>
#include <NazaraUtils/PathUtils.hpp>
#include <NazaraUtils/PrivateImpl.hpp>
#include <NazaraUtils/Result.hpp>
#include <NazaraUtils/Signal.hpp>
#include <NazaraUtils/SparsePtr.hpp>
#include <NazaraUtils/StackArray.hpp>
#include <NazaraUtils/StackVector.hpp>
#include <NazaraUtils/StringHash.hpp>
#include <NazaraUtils/StringUtils.hpp>
#include <NazaraUtils/TypeName.hpp>
#include <atomic>
#include <map>
#include <sched.h>
#include <sstream>
#include <thread>

extern "C" const char* __tsan_default_options() { return "exitcode=66:halt_on_error=1:report_thread_leaks=0:atexit_sleep_ms=0:report_signal_unsafe=0"; }

enum class Color { Red, Green, Blue, Max = Blue };
template<> struct Nz::EnumAsFlags<Color> { static constexpr Color max = Color::Max; };

namespace
{
	using Bits = Nz::Bitset<Nz::UInt32>;
	using SmallBits = Nz::FixedBitset<Nz::UInt8, 64>;
	using HybridBits = Nz::HybridBitset<Nz::UInt16, 32>;
	using Text = std::string;
	inline Text text(unsigned v) { return "some text long enough to be allocated " + std::to_string(v); }
	struct Impl { Text name; int value = 0; };

	struct World
	{
		Bits bits{ 100, false }, other{ 70, true };
		SmallBits smallBits{ 40, true };
		Nz::FixedVector<Text, 4> fixed{ text(0), text(1), text(2) };
		Nz::HybridVector<Text, 2> inPlace{ text(0), text(1) }, spilled{ text(0), text(1), text(2) };
		std::vector<Text> texts{ text(0), text(1), text(2) };
		Nz::MemoryPool<Text> pool{ 2 };
		std::size_t poolIndex[4];
		Nz::EnumArray<Color, Text> byColor{ text(0), text(1), text(2) };
		Nz::Flags<Color> flags = Color::Red | Color::Blue;
		Nz::Result<Text, int> ok{ Nz::Result<Text, int>::ValueTag{}, text(1) }, err{ Nz::Result<Text, int>::ErrorTag{}, 42 };
		Nz::PrivateImpl<Impl> heapImpl{ new Impl{ text(3), 3 } };
		Nz::PrivateImpl<Impl, 64> inPlaceImpl{ Impl{ text(4), 4 } };
		Nz::MovableValue<Text> movable{ text(5) };
		Nz::MovableLiteral<int, -1> literal{ 7 };
		Text pointee = text(6);
		Nz::MovablePtr<Text> pointer{ &pointee };
		std::function<int(int)> target = [](int v) { return v + 1; };
		Nz::FunctionRef<int(int)> function{ target };
		int numbers[12] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11 };
		Nz::SparsePtr<int> sparse{ numbers, int(2 * sizeof(int)) };
		std::map<int, Text> map{ { 1, text(1) }, { 2, text(2) } };
		std::filesystem::path path{ "some/directory/file" };
		World()
		{
			for (std::size_t i : { 3, 64, 99 }) bits.Set(i);
			for (unsigned i = 0; i < 4; ++i) { pool.Allocate(poolIndex[i], text(i)); }
			pool.Free(poolIndex[1]);
		}
	};

	// an operation: on objects of its own, on the const `s`, or on the elements of `w` which are those of thread `who`
	using OwnFn = void (*)(World& w, const World& s, unsigned who);
	struct Operation { const char* name; OwnFn fn; };
	std::vector<Operation>& operations() { static std::vector<Operation> v; return v; }
	struct Add { Add(const char* name, OwnFn fn) { operations().push_back({ name, fn }); } };
	#define EXPECT(cond) MC_CHECK(cond, "result", "thread %u: %s", who, #cond)

	void execute(const Operation& a, const Operation& b)
	{
		World world, elements;
		std::atomic<int> turn{ 0 };
		auto wait = [&](int t) { while (turn.load(std::memory_order_relaxed) != t) ::sched_yield(); };
		std::thread first([&] { wait(1); a.fn(elements, world, 0); turn.store(2, std::memory_order_relaxed); });
		std::thread second([&] { wait(2); b.fn(elements, world, 1); turn.store(3, std::memory_order_relaxed); });
		turn.store(1, std::memory_order_relaxed);
		first.join();
		second.join();
	}
	void explore(const char* name)
	{
		const auto& ops = operations();
		std::size_t me = 0;
		while (ops[me].name != name) ++me;
		mc::forAll([&](mc::Exec& x)
		{
			// 0: against itself, then against each operation, before or after it
			unsigned choice = x.choose(unsigned(2 * ops.size() + 1));
			const Operation& other = choice == 0 ? ops[me] : ops[(choice - 1) / 2];
			bool after = choice % 2 == 1;
			MC_NOTE("thread 1: %s, thread 2: %s", after ? ops[me].name : other.name, after ? other.name : ops[me].name);
			execute(after ? ops[me] : other, after ? other : ops[me]);
			x.step();
		});
	}
	#define OPERATION(NAME) static void op_##NAME(World& w, const World& s, unsigned who); static const char* const name_##NAME = #NAME; \
		static Add add_##NAME(name_##NAME, &op_##NAME); MC_SUITE(NAME) { explore(name_##NAME); } static void op_##NAME([[maybe_unused]] World& w, [[maybe_unused]] const World& s, [[maybe_unused]] unsigned who)
}

// ---- functions
OPERATION(hashes)
{
	const Text t = text(who);
	Nz::UInt32 a = Nz::CRC32(std::string_view(t)), b = Nz::FNV1a32(std::string_view(t)); Nz::UInt64 c = Nz::FNV1a64(std::string_view(t));
	EXPECT(a == Nz::CRC32(t.c_str()) && b == Nz::FNV1a32(t.c_str()) && c == Nz::FNV1a64(t.c_str()));
	EXPECT(a == Nz::CRC32(reinterpret_cast<const Nz::UInt8*>(t.data()), t.size()));
	EXPECT(Nz::CRC32("123456789") == 0xCBF43926u);
	std::size_t seed = who; Nz::HashCombine(seed, t); Nz::HashCombine(seed, 12);
	EXPECT(Nz::HashCombine(t, 12) == Nz::HashCombine(text(who), 12));
	EXPECT(Nz::StringHash<>()(t) == Nz::StringHash<>()(std::string_view(t)) && Nz::StringHash<>()(t.c_str()) == Nz::StringHash<>()(t));
	EXPECT(Nz::CRC32Hash()(t.c_str()) == a && Nz::FNV1a32Hash()(t.c_str()) == b && Nz::FNV1a64Hash()(t.c_str()) == c);
}
OPERATION(bit_functions)
{
	Nz::UInt32 v = 0x00F01200u + who; Nz::UInt64 v64 = (Nz::UInt64(v) << 20) | 1;
	EXPECT(Nz::CountBits(v) == 6 + who && Nz::FindFirstBit(v) == (who ? 1 : 10) && Nz::FindLastBit(v) == 24);
	EXPECT(Nz::ReverseBits(Nz::ReverseBits(v)) == v && Nz::ReverseBits(Nz::ReverseBits(v64)) == v64 && Nz::ByteSwap(Nz::ByteSwap(v)) == v);
	EXPECT(Nz::SetBit(v, 31u) == (v | 0x80000000u) && Nz::ClearBit(v, 12u) == v - 0x1000u && Nz::TestBit(v, 9u) && Nz::ToggleBit(v, 31u) == (v | 0x80000000u));
	EXPECT(Nz::BigEndianToHost(Nz::HostToBigEndian(v)) == v && Nz::LittleEndianToHost(Nz::HostToLittleEndian(v64)) == v64);
	EXPECT(Nz::ArithmeticRightShift(-8, 1) == -4);
	unsigned char buffer[7] = { 1, 2, 3, 4, 5, 6, 7 }; Nz::SwapBytes(buffer, sizeof(buffer)); EXPECT(buffer[0] == 7 && buffer[6] == 1);
}
OPERATION(math_functions)
{
	EXPECT(Nz::Align(13 + int(who), 8) == 16 && Nz::AlignPow2(13u, 16u) == 16u && Nz::GetNearestPowerOfTwo(33u) == 64u && Nz::IntegralLog2(1000u) == 9 && Nz::IntegralLog2Pot(1024u) == 10);
	EXPECT(Nz::IntegralPow(3, 4) == 81 && Nz::IsPow2(64u) && Nz::Mod(7.5, 2.0) == 1.5 && Nz::MultiplyAdd(2, 3, 4) == 10 && Nz::NumberEquals(1.0f, 1.0f) && Nz::Clamp(5, 0, 3) == 3);
	EXPECT(Nz::Lerp(0.f, 10.f, 0.5f) == 5.f && Nz::Approach(0, 10, 3) == 3 && Nz::IsFinite(1.0) && !Nz::IsNaN(1.0) && !Nz::IsInfinity(1.0));
	EXPECT(Nz::RadianToDegree(Nz::DegreeToRadian(0.0)) == 0.0 && Nz::Pi<double>() > 3.14 && Nz::Infinity<float>() > 1.f);
}
OPERATION(casts)
{
	EXPECT(Nz::SafeCast<Nz::UInt8>(200 + int(who)) == 200 + who && Nz::SafeCast<int>(12.0) == 12 && Nz::BitCast<Nz::UInt32>(1.0f) == 0x3F800000u);
	int local = int(who); int* p = Nz::IntegerToPointer<int*>(Nz::PointerToInteger<std::uintptr_t>(&local)); EXPECT(p == &local);
	EXPECT(Nz::Retrieve(s.map, 2) == text(2) && Nz::CountOf(s.numbers) == 12 && Nz::CountOf(s.texts) == 3 && Nz::UnderlyingCast(Color::Blue) == 2);
	struct A { virtual ~A() = default; int a = 1; }; struct B : A { int b = 2; };
	std::unique_ptr<A> a = std::make_unique<B>(); auto b = Nz::StaticUniquePointerCast<B>(std::move(a)); EXPECT(b && b->b == 2);
	A* base = b.get(); EXPECT(Nz::SafeCast<B*>(base) == b.get());
	EXPECT(Nz::AccessByOffset<int&>(&local, 0) == int(who));
}
OPERATION(type_names)
{
	EXPECT(Nz::TypeName<int>() == "int" && Nz::TypeName<std::vector<Text>>() == Nz::TypeName<std::vector<std::string>>() && !Nz::TypeName<World>().empty());
}
OPERATION(strings)
{
	const Text t = text(who);
	auto u = Nz::ToUtf8String(t); auto back = Nz::FromUtf8String(u); EXPECT(Text(back) == t);
	auto view = Nz::ToUtf8String(std::string_view(s.texts[0])); EXPECT(view.size() == s.texts[0].size());
	std::filesystem::path p = Nz::Utf8Path(t + "/file"); EXPECT(Nz::PathToString(p) == t + "/file");
	EXPECT(Nz::PathToString(s.path) == "some/directory/file");
}
// ---- an object of its own for each thread
OPERATION(own_bitset)
{
	Bits b(40, false); b.Set(std::size_t(5 + who)); b.UnboundedSet(90); EXPECT(b.Count() == 2 && b.FindFirst() == 5 + who && b.FindNext(5 + who) == 90);
	Bits c = ~b; c &= b; EXPECT(c.TestNone()); c = b >> 3; c <<= 3; EXPECT(c == b); b.Reverse(); b.Flip(); EXPECT(b.Count() == 89);
	EXPECT(Bits("1011").ToString() == "1011" && Bits("1011").To<unsigned>() == 11);
	std::ostringstream out; out << Bits("101"); EXPECT(out.str() == "101");
	unsigned n = 0; for (std::size_t i : b.IterBits()) { (void)i; ++n; } EXPECT(n == 89);
	Bits d(3u); d.AppendBits(Nz::UInt16(0xFFFF), 9); const unsigned char bytes[] = { 0xF0, 0x0F, 0xAA }; d.Write(bytes, 20); EXPECT(d.Count() == 2 + 9 + 10);
	Bits e = Bits::FromPointer(bytes, 24); swap(d, e); EXPECT(d.Count() == 12); d.Resize(30, true); EXPECT(d.Count() == 18); std::hash<std::string>()(d.ToString());
	SmallBits f(9, true); HybridBits g(70, true); g.Resize(10); EXPECT(f.Count() == 9 && g.Count() == 10);
}
OPERATION(own_vectors)
{
	Nz::FixedVector<Text, 4> f; f.push_back(text(who)); f.emplace_back(text(2)); f.insert(f.begin(), text(3)); f.erase(f.begin() + 1); EXPECT(f.size() == 2 && f[0] == text(3));
	Nz::HybridVector<Text, 2> h; for (unsigned i = 0; i < 5; ++i) h.push_back(text(i)); h.resize(3); h.insert(h.begin() + 1, text(9)); auto h2 = h; auto h3 = std::move(h); EXPECT(h2.size() == 4 && h3[1] == text(9));
	auto sv = NazaraStackVector(Text, 3); sv.push_back(text(who)); sv.emplace(sv.begin(), text(7)); EXPECT(sv.size() == 2 && sv.back() == text(who)); sv.clear();
	auto sa = NazaraStackArray(Text, 3); sa.fill(text(who)); EXPECT(sa[2] == text(who));
}
OPERATION(own_pool)
{
	Nz::MemoryPool<Text> p(2); std::size_t i[5]; for (unsigned k = 0; k < 5; ++k) p.Allocate(i[k], text(k));
	p.Free(i[1]); Text* t = p.Allocate(i[1], text(10)); EXPECT(*t == text(10) && p.RetrieveEntryIndex(t) == i[1] && p.GetAllocatedEntryCount() == 5);
	unsigned n = 0; for (Text& v : p) n += unsigned(v.size() > 10); EXPECT(n == 5);
	Nz::MemoryPool<Text> q = std::move(p); EXPECT(*q.RetrieveFromIndex(i[4]) == text(4)); q.Reset(); EXPECT(q.GetAllocatedEntryCount() == 0); q.Clear();
}
OPERATION(own_signal)
{
	Nz::Signal<int> sig; int calls = 0; auto c = sig.Connect([&](int v) { calls += v; });
	{ Nz::Signal<int>::ConnectionGuard guard = sig.Connect([&](int v) { calls += 10 * v; if (calls > 100) c.Disconnect(); }); sig(int(who) + 1); }
	sig(1); EXPECT(calls == 11 * int(who + 1) + 1); Nz::Signal<int> moved = std::move(sig); moved(1); EXPECT(c.IsConnected()); c.Disconnect(); moved(1); moved.Clear();
	EXPECT(calls == 11 * int(who + 1) + 2);
}
OPERATION(own_wrappers)
{
	Nz::EnumArray<Color, Text> e{ text(0), text(1), text(2) }; e[Color::Green] = text(who); unsigned n = 0; for (auto&& [k, v] : e.iter_kv()) n += unsigned(v.size() > 1) + unsigned(k); EXPECT(n == 6 && e[Color::Green] == text(who));
	Nz::Flags<Color> f = Color::Red; f |= Color::Blue; f = ~f; n = 0; for (Color c : f) n += unsigned(c) + 1; EXPECT(n == 2 && f == Color::Green && f.Count() == 1);
	Nz::Result<Text, int> r = Nz::Ok(text(who)); auto m = r.Map([](const Text& t) { return t.size(); }); EXPECT(m.IsOk() && m.GetValue() == text(who).size()); r = Nz::Err(3); EXPECT(r.IsErr() && r.GetValueOr(text(1)) == text(1));
	Nz::PrivateImpl<Impl> p{ new Impl{ text(who), 1 } }; Nz::PrivateImpl<Impl> q = p; p->value = 2; EXPECT(q->value == 1); p = std::move(q); p.Reset(); p.Emplace();
	Nz::PrivateImpl<Impl, 64> ip{ Impl{ text(who), 1 } }; auto iq = ip; EXPECT(iq->name == text(who));
	int ran = 0; { Nz::CallOnExit onExit([&] { ++ran; }); } EXPECT(ran == 1);
	Nz::MovableValue<Text> v(text(who)); Nz::MovableValue<Text> v2(std::move(v)); EXPECT(v2.Get() == text(who)); Nz::MovablePtr<int> mp(&ran); Nz::MovablePtr<int> mp2(std::move(mp)); EXPECT(mp2.Get() == &ran && !mp.Get());
	Nz::MovableLiteral<int, -1> l(3), l2(std::move(l)); EXPECT(l2.Get() == 3 && l.Get() == -1);
	auto add = [&](int x) { return x + int(who); }; Nz::FunctionRef<int(int)> ref(add); EXPECT(ref(3) == 3 + int(who));
	int numbers[6] = { 1, 2, 3, 4, 5, 6 }; Nz::SparsePtr<int> sp(numbers, 2 * int(sizeof(int))); ++sp; EXPECT(*sp == 3 && sp[1] == 5); sp += 1; sp--; EXPECT(*sp == 3);
}
// ---- const uses of common objects
OPERATION(const_bitset_counts) { EXPECT(s.bits.Count() == 3 && s.bits.TestAny() && !s.bits.TestAll() && !s.bits.TestNone() && s.bits.GetSize() == 100 && s.other.Count() == 70 && s.bits.GetCapacity() >= 100); }
OPERATION(const_bitset_search) { EXPECT(s.bits.FindFirst() == 3 && s.bits.FindNext(3) == 64 && s.bits.FindNext(99) == Bits::npos && s.bits.Test(99) && s.bits[64] && !s.bits.UnboundedTest(1000) && s.bits.Intersects(s.other) && s.smallBits.Count() == 40); }
OPERATION(const_bitset_iterate) { std::size_t n = 0; for (std::size_t i : s.bits.IterBits()) n += i; EXPECT(n == 166 && s.bits.GetBlock(0) == 8u && s.bits.GetBlockCount() == 4); }
OPERATION(const_bitset_text) { Text t = s.bits.ToString(); EXPECT(t.size() == 100 && t[0] == '1' && t[96] == '1'); std::ostringstream out; out << s.other; EXPECT(out.str().size() == 70); }
OPERATION(const_bitset_operators) { EXPECT(s.bits != s.other && !(s.bits == s.other) && s.bits > s.other && s.other < s.bits && (s.bits & s.other).Count() == 2 && (s.bits | s.other).Count() == 71 && (s.bits ^ s.other).Count() == 69 && (~s.bits).Count() == 97 && (s.bits << 1).Test(4) && (s.bits >> 1).Test(2)); Bits r; r.PerformsAND(s.bits, s.other); r.PerformsNOT(s.other); EXPECT(r.TestNone()); }
OPERATION(const_bitset_copy) { Bits c = s.bits; c.Flip(); EXPECT(c.Count() == 97); SmallBits d = s.smallBits; d.Reset(); c = s.other; EXPECT(c.Count() == 70 && s.smallBits.TestAll()); }
OPERATION(const_fixed) { EXPECT(s.fixed.size() == 3 && s.fixed[1] == text(1) && s.fixed.front() == text(0) && s.fixed.back() == text(2) && s.fixed.data()[2] == text(2) && !s.fixed.empty() && s.fixed.capacity() == 4 && s.fixed.max_size() >= 4); std::size_t n = 0; for (const Text& t : s.fixed) n += t.size(); for (auto it = s.fixed.rbegin(); it != s.fixed.rend(); ++it) n -= it->size(); EXPECT(n == 0); }
OPERATION(const_fixed_copy) { auto c = s.fixed; EXPECT(c.size() == 3 && c[2] == text(2)); c = s.fixed; c.pop_back(); EXPECT(c.size() == 2); }
OPERATION(const_hybrid) { EXPECT(s.inPlace.size() == 2 && s.spilled.size() == 3 && s.inPlace[1] == text(1) && s.spilled[2] == text(2) && s.spilled.back() == text(2) && s.inPlace.capacity() >= 2 && s.spilled.max_size() >= 3 && s.spilled.data()[0] == text(0)); std::size_t n = 0; for (const Text& t : s.spilled) n += t.size(); for (const Text& t : s.inPlace) n -= t.size(); EXPECT(n > 0); }
OPERATION(const_hybrid_copy) { auto c = s.inPlace; auto d = s.spilled; EXPECT(c.size() == 2 && d.size() == 3); c = s.spilled; d = s.inPlace; EXPECT(c[2] == text(2) && d[1] == text(1)); c.push_back(s.fixed[0]); }
OPERATION(const_pool) { EXPECT(s.pool.GetAllocatedEntryCount() == 3 && s.pool.GetFreeEntryCount() == 1 && s.pool.GetBlockCount() == 2 && s.pool.GetBlockSize() == 2 && *s.pool.RetrieveFromIndex(s.poolIndex[2]) == text(2)); }
OPERATION(const_pool_iterate) { unsigned n = 0; for (const Text& t : s.pool) n += unsigned(!t.empty()); EXPECT(n == 3); n = 0; for (auto it = s.pool.cbegin(); it != s.pool.cend(); ++it) n += unsigned(it.GetIndex() == s.poolIndex[2]); EXPECT(n == 1); }
OPERATION(const_enumarray) { EXPECT(s.byColor[Color::Blue] == text(2)); unsigned n = 0; for (auto&& [k, v] : s.byColor.iter_kv()) n += unsigned(k) + unsigned(v == text(unsigned(k))); EXPECT(n == 6); auto c = s.byColor; EXPECT(c[Color::Red] == text(0) && c.size() == 3); n = 0; for (const Text& t : s.byColor) n += unsigned(!t.empty()); EXPECT(n == 3); }
OPERATION(const_flags) { EXPECT(s.flags.Test(Color::Red) && !s.flags.Test(Color::Green) && s.flags.Count() == 2 && (s.flags & Color::Blue) == Color::Blue && (~s.flags) == Color::Green && (s.flags | Color::Green) == ~Nz::Flags<Color>() && bool(s.flags)); unsigned n = 0; for (Color c : s.flags) n += unsigned(c); EXPECT(n == 2); EXPECT(std::hash<Nz::Flags<Color>>()(s.flags) == std::hash<Nz::Flags<Color>>()(Color::Red | Color::Blue)); }
OPERATION(const_result) { EXPECT(s.ok.IsOk() && s.err.IsErr() && s.ok.GetValue() == text(1) && s.err.GetError() == 42 && *s.ok == text(1) && s.ok->size() > 3 && s.err.GetValueOr(text(2)) == text(2) && bool(s.ok)); auto c = s.ok; c = s.err; EXPECT(c.IsErr()); auto m = s.ok.Map([](const Text& t) { return t.size(); }); EXPECT(m.IsOk() && *m == text(1).size()); s.ok.Expect("error"); }
OPERATION(const_impl) { EXPECT(s.heapImpl->value == 3 && (*s.heapImpl).name == text(3) && s.heapImpl.HasValue() && s.inPlaceImpl->value == 4 && s.inPlaceImpl.Get()->name == text(4)); auto c = s.heapImpl; c->value = 9; auto d = s.inPlaceImpl; d->value = 9; c = s.heapImpl; d = s.inPlaceImpl; EXPECT(c->value == 3 && d->value == 4); }
OPERATION(const_wrappers) { EXPECT(s.movable.Get() == text(5) && s.literal.Get() == 7 && *s.pointer.Get() == text(6) && s.pointer->size() > 3); auto a = s.movable; auto b = s.literal; auto c = s.pointer; EXPECT(a.Get() == text(5) && b.Get() == 7 && c.Get() == &s.pointee); }
OPERATION(const_function_ref) { EXPECT(s.function(3) == 4 && bool(s.function)); auto c = s.function; EXPECT(c(4) == 5); }
OPERATION(const_sparse) { EXPECT(*s.sparse == 0 && s.sparse[3] == 6 && *(s.sparse + 2) == 4 && (s.sparse + 5) - s.sparse == 5 && s.sparse < s.sparse + 1 && s.sparse.GetStride() == 8); auto c = s.sparse; ++c; EXPECT(*c == 2); Nz::SparsePtr<const int> d(s.sparse); EXPECT(d[2] == 4); }
// ---- different elements of a common object (accessors do not modify the container, const or not)
OPERATION(elements_vectors) { w.fixed[who] += "x"; *(w.inPlace.begin() + who) += "x"; w.spilled.data()[who] += "x"; EXPECT(w.fixed[who] == text(who) + "x" && w.inPlace[who].size() == w.spilled[who].size()); EXPECT(&w.fixed.back() == &w.fixed[2] && &w.spilled.front() == &*w.spilled.begin()); for (auto it = w.spilled.begin(); it != w.spilled.end(); ++it) EXPECT(&*it >= w.spilled.data()); }
OPERATION(elements_pool) { Text* t = w.pool.RetrieveFromIndex(w.poolIndex[2 * who]); *t += "x"; EXPECT(*t == text(2 * who) + "x"); unsigned n = 0; for (Text& v : w.pool) n += unsigned(&v == t); EXPECT(n == 1); EXPECT(w.pool.GetAllocatedEntryCount() == 3); }
OPERATION(elements_enumarray) { Color c = Color(who); w.byColor[c] += "x"; unsigned n = 0; for (auto&& [k, v] : w.byColor.iter_kv()) if (k == c) { v += "y"; ++n; } EXPECT(n == 1 && w.byColor[c] == text(who) + "xy"); w.byColor.front(); w.byColor.data(); }
OPERATION(elements_sparse) { w.sparse[who] = 50; *(w.sparse + int(who)) += 1; EXPECT(w.numbers[2 * who] == 51); }
