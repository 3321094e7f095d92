// C10 (parts 0, 1): delivery of an emission while callbacks connect, disconnect, clear or throw.
// C11 (part 2): lifetimes of connections, guards and signals.
#include "mc.hpp"
#include <NazaraUtils/Signal.hpp>
#include <map>
#include <memory>
#include <optional>

namespace
{
	using Sig = Nz::Signal<int, const std::string&>;

#if MC_PART < 2
	struct Boom {};

	struct World
	{
		mc::Exec& x;
		Sig sig;
		struct Slot { Sig::Connection connection; bool connected = true; bool fresh = false; int calls = 0; };
		std::vector<Slot> slots;
		std::vector<int> order;
		int budget = 0;
		int value = 0;
		bool everDisconnected = false;
		std::string text;
		std::size_t maxSlots;
		bool emitting = false;
		bool allowThrow = true;

		World(mc::Exec& exec, std::size_t max) : x(exec), maxSlots(max) { slots.reserve(32); }

		struct Callback
		{
			mc::Elem token; // detects a callback destroyed while it runs, and callbacks that are never destroyed
			World* world;
			int id;
			Callback(World* w, int i) : token(i), world(w), id(i) {}
			void operator()(int v, const std::string& s)
			{
				MC_CHECK(token.get() == id, "content", "callback %d holds %d", id, token.get());
				World* w = world;
				w->called(id, v, s);
				MC_CHECK(token.get() == id, "content", "callback %d holds %d after its actions", id, token.get());
			}
		};

		void connect()
		{
			int id = int(slots.size());
			MC_NOTE("%sconnect #%d", emitting ? "    " : "", id);
			slots.emplace_back();
			slots.back().fresh = emitting;
			Callback cb(this, id);
			Sig::Connection c;
			if (id % 2) { Sig::Callback f(cb); c = sig.Connect(f); } else c = sig.Connect(cb);
			slots[id].connection = c;
			x.step();
		}
		void disconnect(int id)
		{
			MC_NOTE("%sdisconnect #%d", emitting ? "    " : "", id);
			slots[id].connection.Disconnect();
			slots[id].connected = false;
			everDisconnected = true;
			x.step();
			checkConnections();
		}
		void clear()
		{
			MC_NOTE("%sclear", emitting ? "    " : "");
			sig.Clear();
			for (Slot& s : slots) s.connected = false;
			everDisconnected = true;
			x.step();
			checkConnections();
		}
		void checkConnections()
		{
			for (std::size_t i = 0; i < slots.size(); ++i)
				MC_CHECK(slots[i].connection.IsConnected() == slots[i].connected, "is-connected", "connection #%zu says %d, expected %d", i, int(slots[i].connection.IsConnected()), int(slots[i].connected));
		}

		// one mutation; returns false when the execution decided to do nothing
		bool mutate(int self)
		{
			std::vector<int> alive;
			if (self >= 0 && slots[self].connected) alive.push_back(self);
			for (int i = 0; i < int(slots.size()); ++i) if (slots[i].connected && i != self) alive.push_back(i);
			std::size_t connected = alive.size();
			bool canConnect = connected < maxSlots && slots.size() < 30;
			unsigned n = 1 + unsigned(alive.size()) + (canConnect ? 1 : 0) + 1 + (self >= 0 && allowThrow ? 1 : 0) + 1;
			unsigned c = x.choose(n);
			if (c == 0) return false;
			--budget;
			--c;
			if (c < alive.size()) { disconnect(alive[c]); return true; }
			c -= unsigned(alive.size());
			if (canConnect) { if (c == 0) { connect(); return true; } --c; }
			if (c == 0) { clear(); return true; }
			--c;
			if (c == 0)
			{
				// disconnecting a connection twice does nothing
				for (Slot& s : slots) if (!s.connected) { s.connection.Disconnect(); break; }
				checkConnections();
				return true;
			}
			MC_NOTE("    throw");
			throw Boom{};
		}

		void called(int id, int v, const std::string& s)
		{
			MC_NOTE("  #%d called", id);
			MC_CHECK(v == value && s == text, "arguments", "callback #%d received (%d, %s) instead of (%d, %s)", id, v, s.c_str(), value, text.c_str());
			MC_CHECK(slots[id].connected, "called-disconnected", "callback #%d is called after its disconnection", id);
			MC_CHECK(slots[id].calls == 0, "called-twice", "callback #%d is called twice by one emission", id);
			slots[id].calls++;
			order.push_back(id);
			while (budget > 0 && mutate(id)) {}
		}

		void emit(int mutations)
		{
			budget = mutations;
			++value;
			text = "emission " + std::to_string(value);
			order.clear();
			bool wasDisconnected = everDisconnected;
			std::vector<int> start;
			for (int i = 0; i < int(slots.size()); ++i) { slots[i].calls = 0; slots[i].fresh = false; if (slots[i].connected) start.push_back(i); }
			MC_NOTE("emit %d (%zu callbacks)", value, start.size());
			emitting = true;
			bool threw = false;
			try { sig(value, text); } catch (const Boom&) { threw = true; }
			emitting = false;
			x.step();
			if (!threw)
			{
				for (int i = 0; i < int(slots.size()); ++i)
					if (slots[i].connected && !slots[i].fresh)
						MC_CHECK(slots[i].calls == 1, "not-called", "callback #%d was connected during the whole emission and was called %d times", i, slots[i].calls);
				if (!wasDisconnected && !everDisconnected)
					for (std::size_t i = 0; i < start.size(); ++i)
						MC_CHECK(order[i] == start[i], "order", "call %zu is #%d instead of #%d (connection order, nothing was ever disconnected)", i, order[i], start[i]);
			}
			checkConnections();
			std::size_t alive = 0;
			for (Slot& s : slots) alive += s.connected;
			mc::lifeExpect(alive, "callbacks owned by the signal");
			mc::u64 h = threw;
			for (int i : order) h = mc::mix(h, mc::u64(i));
			mc::outcome(mc::mix(h, alive));
		}
	};

	// initial connections, mutations outside, emission with mutations, mutations outside, emission with mutations, plain emission
	void delivery(std::size_t maxSlots, int before, int during, int between, int during2, bool allowThrow)
	{
		mc::forAll([&](mc::Exec& x)
		{
			mc::g_life.reset();
			{
				World w(x, maxSlots);
				w.allowThrow = allowThrow;
				std::size_t n = x.choose(unsigned(maxSlots) + 1);
				for (std::size_t i = 0; i < n; ++i) w.connect();
				w.budget = before; while (w.budget > 0 && w.mutate(-1)) {}
				w.emit(during);
				w.budget = between; while (w.budget > 0 && w.mutate(-1)) {}
				w.emit(during2);
				w.emit(0);
			}
			mc::lifeExpect(0, "destruction of the signal");
		});
	}
#endif
}

#if MC_PART == 0
MC_SUITE(delivery_one_emission) { delivery(MC_SAN ? mc::pick(4, 5) : mc::pick(5, 6), 0, MC_SAN ? 3 : mc::pick(4, 5), 0, 0, true); }
MC_SUITE(delivery_two_emissions) { delivery(MC_SAN ? 3 : mc::pick(4, 4), 0, 2, mc::pick(1, 1), MC_SAN ? mc::pick(1, 2) : mc::pick(2, 3), true); }
MC_SUITE(delivery_mixed) { delivery(MC_SAN ? 3 : 4, mc::pick(2, 2), MC_SAN ? 2 : mc::pick(3, 4), mc::pick(1, 1), mc::pick(0, 1), true); }
#elif MC_PART == 1
// large slot counts, one or two mutations
MC_SUITE(delivery_many_slots) { delivery(MC_SAN ? mc::pick(6, 7) : mc::pick(7, 9), 0, mc::pick(2, 3), 0, 0, false); }

// the ways to connect
namespace
{
	struct Receiver
	{
		mutable std::vector<std::string> log;
		void onEvent(int v, const std::string& s) { log.push_back("m" + std::to_string(v) + s); }
		void onConst(int v, const std::string& s) const { log.push_back("c" + std::to_string(v) + s); }
	};
	std::vector<std::string> g_log;
	void freeFunction(int v, const std::string& s) { g_log.push_back("f" + std::to_string(v) + s); }
}
MC_SUITE(connect_kinds)
{
	mc::forAll([](mc::Exec& x)
	{
		Receiver r[6];
		Sig sig;
		g_log.clear();
		std::vector<int> kinds;
		std::vector<Sig::Connection> connections;
		unsigned n = x.choose(mc::pick(5, 6));
		for (unsigned i = 0; i < n; ++i)
		{
			int k = int(x.choose(6));
			kinds.push_back(k);
			const Receiver& cr = r[i];
			switch (k)
			{
				case 0: connections.push_back(sig.Connect(r[i], &Receiver::onEvent)); break;
				case 1: connections.push_back(sig.Connect(&r[i], &Receiver::onEvent)); break;
				case 2: connections.push_back(sig.Connect(cr, &Receiver::onConst)); break;
				case 3: connections.push_back(sig.Connect(&cr, &Receiver::onConst)); break;
				case 4: connections.push_back(sig.Connect(freeFunction)); break;
				case 5: { Receiver* p = &r[i]; connections.push_back(sig.Connect([p](int v, std::string s) { p->log.push_back("l" + std::to_string(v) + s); s = "modified"; })); break; }
			}
			x.step();
		}
		sig(7, "x");
		sig(-1, "y");
		std::size_t functions = 0;
		for (unsigned i = 0; i < n; ++i)
		{
			const char* prefix[] = { "m", "m", "c", "c", nullptr, "l" };
			if (kinds[i] == 4) { functions++; MC_CHECK(r[i].log.empty(), "wrong-target", "unexpected call"); continue; }
			std::string p = prefix[kinds[i]];
			MC_CHECK(r[i].log.size() == 2 && r[i].log[0] == p + "7x" && r[i].log[1] == p + "-1y", "delivery", "receiver %u did not receive both emissions exactly once", i);
		}
		MC_CHECK(g_log.size() == 2 * functions, "delivery", "free function called %zu times", g_log.size());
		for (std::size_t i = 0; i < g_log.size(); ++i) MC_CHECK(g_log[i] == (i < functions ? "f7x" : "f-1y"), "arguments", "wrong arguments");
	});
}
// arguments given by value and by mutable reference
MC_SUITE(argument_kinds)
{
	mc::forAll([](mc::Exec& x)
	{
		Nz::Signal<std::string, int&, const int*> sig;
		unsigned n = 1 + x.choose(5);
		int counter = 0; int pointee = 4;
		unsigned thief = x.choose(n);
		for (unsigned i = 0; i < n; ++i)
			sig.Connect([&, i](std::string s, int& c, const int* p)
			{
				MC_CHECK(s == "by value, long enough to be allocated", "arguments", "callback %u received '%s'", i, s.c_str());
				MC_CHECK(c == int(i) && &c == &counter && p == &pointee, "arguments", "reference arguments are not forwarded");
				++c;
				if (i == thief) { std::string stolen = std::move(s); s = "changed"; (void)stolen; }
			});
		sig("by value, long enough to be allocated", counter, &pointee);
		x.step();
		MC_CHECK(counter == int(n), "delivery", "%d calls instead of %u", counter, n);
	});
}
// by-value arguments, when callbacks connect and disconnect slots: whichever slots end up being called receive the value of the emission
MC_SUITE(argument_values)
{
	mc::forAll([](mc::Exec& x)
	{
		using Sig = Nz::Signal<std::string, std::vector<int>, std::shared_ptr<int>>;
		Sig sig;
		const std::vector<int> values = { 1, 2, 3 };
		auto shared = std::make_shared<int>(5);
		unsigned n = 1 + x.choose(4);
		unsigned actor = x.choose(n);
		unsigned added = x.choose(3);
		unsigned removed = x.choose(n + 1); //< n: none
		bool removeFirst = x.flip(), steal = x.flip();
		unsigned calls = 0; bool acted = false;
		std::vector<Sig::Connection> connections(n + added);
		auto callback = [&](unsigned i, std::string s, std::vector<int> v, std::shared_ptr<int> p)
		{
			++calls;
			MC_CHECK(s == "by value, long enough to be allocated", "arguments", "callback %u received the string '%s'", i, s.c_str());
			MC_CHECK(v == values, "arguments", "callback %u received a vector of %zu elements", i, v.size());
			MC_CHECK(p == shared, "arguments", "callback %u did not receive the shared pointer", i);
			if (steal)
			{
				std::string stolen = std::move(s); std::vector<int> stolenToo = std::move(v); p.reset();
			}
		};
		for (unsigned i = 0; i < n; ++i)
			connections[i] = sig.Connect([&, i](std::string s, std::vector<int> v, std::shared_ptr<int> p)
			{
				callback(i, std::move(s), std::move(v), std::move(p));
				if (i == actor && !std::exchange(acted, true))
				{
					if (removed < n && removeFirst) connections[removed].Disconnect();
					for (unsigned k = 0; k < added; ++k)
						connections[n + k] = sig.Connect([&, k, n](std::string s2, std::vector<int> v2, std::shared_ptr<int> p2) { callback(n + k, std::move(s2), std::move(v2), std::move(p2)); });
					if (removed < n && !removeFirst) connections[removed].Disconnect();
				}
			});
		sig("by value, long enough to be allocated", values, shared);
		x.step();
		MC_CHECK(calls >= actor + 1, "not-called", "%u calls", calls);
		MC_CHECK(shared.use_count() == 1, "arguments", "a copy of the arguments was kept: %ld owners", shared.use_count());
		// arguments given as lvalues are left alone
		calls = 0;
		std::string s = "by value, long enough to be allocated"; std::vector<int> v = values; std::shared_ptr<int> p = shared;
		sig(s, v, p);
		MC_CHECK(s == "by value, long enough to be allocated" && v == values && p == shared && shared.use_count() == 2, "arguments", "the emission changed its lvalue arguments");
	});
}
// an emission of another signal, and of the same signal, from a callback
MC_SUITE(nested_other)
{
	mc::forAll([](mc::Exec& x)
	{
		Nz::Signal<int> a, b;
		unsigned na = 1 + x.choose(4), nb = x.choose(4), from = x.choose(na);
		std::vector<int> ca(na), cb(nb + 1);
		Nz::Signal<int>::Connection extra;
		for (unsigned i = 0; i < nb; ++i) b.Connect([&cb, i](int v) { cb[i] += v; });
		bool connectToOther = x.flip(), disconnectOther = x.flip();
		for (unsigned i = 0; i < na; ++i) a.Connect([&, i](int v)
		{
			ca[i] += v;
			if (i == from)
			{
				if (connectToOther) extra = b.Connect([&](int v) { cb[nb] += v; });
				b(v * 10);
				if (disconnectOther) extra.Disconnect();
			}
		});
		a(1);
		x.step();
		for (unsigned i = 0; i < na; ++i) MC_CHECK(ca[i] == 1, "not-called", "outer callback %u called %d times", i, ca[i]);
		for (unsigned i = 0; i < nb; ++i) MC_CHECK(cb[i] == 10, "not-called", "inner callback %u received %d", i, cb[i]);
		MC_CHECK(cb[nb] == (connectToOther ? 10 : 0), "not-called", "callback connected before the inner emission");
		b(1);
		for (unsigned i = 0; i < nb; ++i) MC_CHECK(cb[i] == 11, "not-called", "inner callback %u received %d", i, cb[i]);
		MC_CHECK(cb[nb] == (connectToOther ? (disconnectOther ? 10 : 11) : 0), "not-called", "extra callback received %d", cb[nb]);
	});
}
MC_SUITE(nested_same)
{
	mc::forAll([](mc::Exec& x)
	{
		Nz::Signal<int> s;
		unsigned n = 1 + x.choose(4), from = x.choose(n);
		std::vector<int> outer(n), inner(n);
		for (unsigned i = 0; i < n; ++i) s.Connect([&, i](int depth)
		{
			(depth ? inner : outer)[i]++;
			if (depth == 0 && i == from) s(1);
		});
		s(0);
		x.step();
		for (unsigned i = 0; i < n; ++i) MC_CHECK(inner[i] == 1, "nested-inner", "inner emission called #%u %d times", i, inner[i]);
		for (unsigned i = 0; i <= from; ++i) MC_CHECK(outer[i] == 1, "nested-outer-before", "outer emission called #%u %d times", i, outer[i]);
		for (unsigned i = 0; i < n; ++i) MC_CHECK(outer[i] == 1, "nested-ends-outer", "outer emission called #%u %d times: an emission of the same signal by #%u ended it", i, outer[i], from);
	});
}
#else

namespace
{
	using S = Nz::Signal<int>;
	struct Tracked { mc::Elem token; std::vector<int>* log; int id; Tracked(std::vector<int>* l, int i) : token(i), log(l), id(i) {} void operator()(int) { token.get(); log->push_back(id); } };

	// 2 signals, 2 connections, 2 guards.  The model: slot id -> signal (or none)
	template<bool Guards>
	struct LifeSys
	{
		static constexpr int NSig = 2, NConn = 2, NGuard = Guards ? 2 : 0;
		std::optional<S> sig[NSig];
		std::optional<S::Connection> conn[NConn];
		std::optional<S::ConnectionGuard> guard[2];
		std::vector<int> log;
		std::map<int, int> slotSignal; // connected slots
		int connSlot[NConn], guardSlot[2]; // slot id last held, -1 none
		int next = 0;
		int maxSlots;

		struct Op { int kind, a, b; };
		enum Kind { Connect, ConnectForget, Disconnect, ConnCopy, ConnMove, ConnReset, GuardConnect, GuardFromCopy, GuardFromMove, GuardAssignCopy, GuardAssignMove, GuardMove, GuardMoveCtor, GuardDestroy, GuardDisconnect, GuardRelease,
			SigClear, SigMove, SigMoveCtor, SigCopy, SigDestroy, ConnCopyCtor, ConnMoveCtor, SigCopyCtor, GuardGet };
		std::vector<Op> table;

		explicit LifeSys(int max = 3) : maxSlots(max)
		{
			mc::g_life.reset();
			for (auto& s : sig) s.emplace();
			for (auto& c : conn) c.emplace();
			for (auto& g : guard) g.emplace();
			for (int& c : connSlot) c = -1;
			for (int& c : guardSlot) c = -1;
		}
		bool connected(int slot) const { return slot >= 0 && slotSignal.count(slot); }
		void drop(int slot) { if (slot >= 0) slotSignal.erase(slot); }
		void build()
		{
			table.clear();
			bool room = int(slotSignal.size()) < maxSlots;
			for (int s = 0; s < NSig; ++s)
			{
				if (room)
				{
					for (int c = 0; c < NConn; ++c) table.push_back({ Connect, s, c });
					table.push_back({ ConnectForget, s, 0 });
					for (int g = 0; g < NGuard; ++g) table.push_back({ GuardConnect, s, g });
				}
				table.push_back({ SigClear, s, 0 });
				table.push_back({ SigMove, s, 1 - s });
				table.push_back({ SigMoveCtor, s, 0 });
				table.push_back({ SigCopy, s, 1 - s });
				table.push_back({ SigCopyCtor, s, 0 });
				table.push_back({ SigDestroy, s, 0 });
			}
			for (int c = 0; c < NConn; ++c)
			{
				table.push_back({ Disconnect, c, 0 });
				table.push_back({ ConnCopy, c, 1 - c });
				table.push_back({ ConnMove, c, 1 - c });
				table.push_back({ ConnReset, c, 0 });
				table.push_back({ ConnCopyCtor, c, 0 });
				table.push_back({ ConnMoveCtor, c, 0 });
				for (int g = 0; g < NGuard; ++g)
				{
					table.push_back({ GuardFromCopy, g, c });
					table.push_back({ GuardFromMove, g, c });
					if (guardSlot[g] < 0 || guardSlot[g] != connSlot[c])
					{
						table.push_back({ GuardAssignCopy, g, c });
						table.push_back({ GuardAssignMove, g, c });
					}
				}
			}
			for (int g = 0; g < NGuard; ++g)
			{
				table.push_back({ GuardDestroy, g, 0 });
				table.push_back({ GuardDisconnect, g, 0 });
				table.push_back({ GuardGet, g, 0 });
				table.push_back({ GuardMoveCtor, g, 0 });
				if (guardSlot[0] < 0 || guardSlot[0] != guardSlot[1]) table.push_back({ GuardMove, g, 1 - g });
			}
		}
		unsigned ops() { build(); return unsigned(table.size()); }
		Tracked fresh(int s) { slotSignal[next] = s; Tracked t(&log, next); next++; return t; }
		void apply(unsigned index)
		{
			build();
			Op op = table[index];
			int s = op.a, c = op.b;
			switch (op.kind)
			{
				case Connect: MC_NOTE("conn%d.Connect(sig%d) -> slot %d", c, s, next); { int id = next; if (id % 2) conn[c]->Connect(*sig[s], fresh(s)); else *conn[c] = sig[s]->Connect(fresh(s)); connSlot[c] = id; } break;
				case ConnectForget: MC_NOTE("sig%d.Connect -> slot %d", s, next); sig[s]->Connect(fresh(s)); break;
				case GuardConnect: MC_NOTE("guard%d.Connect(sig%d) -> slot %d", c, s, next); { drop(guardSlot[c]); int id = next; guard[c]->Connect(*sig[s], fresh(s)); guardSlot[c] = id; } break;
				case SigClear: MC_NOTE("sig%d.Clear", s); sig[s]->Clear(); dropSignal(s); break;
				case SigMove:
					MC_NOTE("sig%d = move(sig%d)", s, c);
					*sig[s] = std::move(*sig[c]);
					dropSignal(s);
					for (auto& p : slotSignal) if (p.second == c) p.second = s;
					break;
				case SigMoveCtor: { MC_NOTE("sig%d moved through a new signal", s); S tmp(std::move(*sig[s])); sig[s].reset(); sig[s].emplace(std::move(tmp)); break; }
				case SigCopy: MC_NOTE("sig%d = sig%d", s, c); *sig[s] = *sig[c]; break;
				case SigCopyCtor: { MC_NOTE("copy of sig%d", s); S tmp(*sig[s]); std::size_t n = log.size(); tmp(0); MC_CHECK(log.size() == n, "signal-copy", "a copied signal called callbacks"); break; }
				case SigDestroy: MC_NOTE("sig%d destroyed, recreated", s); sig[s].emplace(); dropSignal(s); break;
				case Disconnect: MC_NOTE("conn%d.Disconnect", op.a); conn[op.a]->Disconnect(); drop(connSlot[op.a]); break;
				case ConnCopy: MC_NOTE("conn%d = conn%d", op.a, op.b); *conn[op.a] = *conn[op.b]; connSlot[op.a] = connSlot[op.b]; break;
				case ConnMove: MC_NOTE("conn%d = move(conn%d)", op.a, op.b); *conn[op.a] = std::move(*conn[op.b]); connSlot[op.a] = connSlot[op.b]; connSlot[op.b] = -1; break;
				case ConnReset: MC_NOTE("conn%d destroyed", op.a); conn[op.a].emplace(); connSlot[op.a] = -1; break;
				case ConnCopyCtor: { S::Connection tmp(*conn[op.a]); MC_CHECK(tmp.IsConnected() == connected(connSlot[op.a]), "is-connected", "copied connection"); break; }
				case ConnMoveCtor: { MC_NOTE("conn%d moved through a new connection", op.a); S::Connection tmp(std::move(*conn[op.a])); MC_CHECK(!conn[op.a]->IsConnected(), "is-connected", "moved-from connection"); conn[op.a].emplace(std::move(tmp)); break; }
				case GuardFromCopy: MC_NOTE("guard%d{conn%d}", op.a, op.b); drop(guardSlot[op.a]); guard[op.a].reset(); { const S::Connection& k = *conn[op.b]; guard[op.a].emplace(k); } guardSlot[op.a] = connSlot[op.b]; break;
				case GuardFromMove: MC_NOTE("guard%d{move(conn%d)}", op.a, op.b); drop(guardSlot[op.a]); guard[op.a].reset(); guard[op.a].emplace(std::move(*conn[op.b])); guardSlot[op.a] = connSlot[op.b]; connSlot[op.b] = -1; break;
				case GuardAssignCopy: MC_NOTE("guard%d = conn%d", op.a, op.b); { const S::Connection& k = *conn[op.b]; *guard[op.a] = k; } drop(guardSlot[op.a]); guardSlot[op.a] = connSlot[op.b]; break;
				case GuardAssignMove: MC_NOTE("guard%d = move(conn%d)", op.a, op.b); *guard[op.a] = std::move(*conn[op.b]); drop(guardSlot[op.a]); guardSlot[op.a] = connSlot[op.b]; connSlot[op.b] = -1; break;
				case GuardMove: MC_NOTE("guard%d = move(guard%d)", op.a, op.b); *guard[op.a] = std::move(*guard[op.b]); drop(guardSlot[op.a]); guardSlot[op.a] = guardSlot[op.b]; guardSlot[op.b] = -1; break;
				case GuardMoveCtor: { MC_NOTE("guard%d moved through a new guard", op.a); S::ConnectionGuard tmp(std::move(*guard[op.a])); MC_CHECK(!guard[op.a]->IsConnected(), "is-connected", "moved-from guard"); guard[op.a].reset(); MC_CHECK(tmp.IsConnected() == connected(guardSlot[op.a]), "is-connected", "destroying a moved-from guard disconnected its connection"); guard[op.a].emplace(std::move(tmp)); break; }
				case GuardDestroy: MC_NOTE("guard%d destroyed", op.a); guard[op.a].reset(); guard[op.a].emplace(); drop(guardSlot[op.a]); guardSlot[op.a] = -1; break;
				case GuardDisconnect: MC_NOTE("guard%d.Disconnect", op.a); guard[op.a]->Disconnect(); drop(guardSlot[op.a]); break;
				case GuardGet: { MC_NOTE("guard%d.GetConnection().Disconnect", op.a); MC_CHECK(guard[op.a]->GetConnection().IsConnected() == connected(guardSlot[op.a]), "is-connected", "GetConnection"); guard[op.a]->GetConnection().Disconnect(); drop(guardSlot[op.a]); break; }
			}
			check();
		}
		void dropSignal(int s) { for (auto it = slotSignal.begin(); it != slotSignal.end();) it = it->second == s ? slotSignal.erase(it) : std::next(it); }
		void check()
		{
			for (int c = 0; c < NConn; ++c) MC_CHECK(conn[c]->IsConnected() == connected(connSlot[c]), "is-connected", "connection %d (slot %d) says %d", c, connSlot[c], int(conn[c]->IsConnected()));
			for (int g = 0; g < NGuard; ++g) MC_CHECK(guard[g]->IsConnected() == connected(guardSlot[g]), "is-connected", "guard %d (slot %d) says %d", g, guardSlot[g], int(guard[g]->IsConnected()));
			mc::lifeExpect(slotSignal.size(), "callbacks alive");
		}
		std::string key()
		{
			// canonical names for the slots
			std::string k;
			std::map<int, int> names;
			auto name = [&](int slot) { if (!connected(slot)) return slot < 0 ? std::string("-") : std::string("x"); auto it = names.emplace(slot, int(names.size())).first; return std::to_string(it->second) + "@" + std::to_string(slotSignal[slot]); };
			// the real order of the callbacks is part of the state
			for (int s = 0; s < NSig; ++s)
			{
				std::size_t from = log.size();
				(*sig[s])(0);
				k += "|";
				std::vector<int> got(log.begin() + from, log.end()), want;
				for (int i : got) k += name(i) + ",";
				std::sort(got.begin(), got.end());
				for (auto& p : slotSignal) if (p.second == s) want.push_back(p.first);
				MC_CHECK(got == want, "delivery", "emission of signal %d reaches %zu callbacks, %zu are connected", s, got.size(), want.size());
			}
			for (int c = 0; c < NConn; ++c) k += ";" + name(connSlot[c]);
			for (int g = 0; g < NGuard; ++g) k += ";" + name(guardSlot[g]);
			k += next % 2 ? "o" : "e";
			return k;
		}
		void finish()
		{
			// guards first, then what remains must be exactly the unguarded slots
			for (int g = 0; g < NGuard; ++g) { guard[g].reset(); drop(guardSlot[g]); mc::lifeExpect(slotSignal.size(), "guard destruction"); }
			for (int s = 0; s < NSig; ++s) { sig[s].reset(); dropSignal(s); mc::lifeExpect(slotSignal.size(), "signal destruction"); }
			for (int c = 0; c < NConn; ++c) { MC_CHECK(!conn[c]->IsConnected(), "is-connected", "connection to a destroyed signal"); conn[c]->Disconnect(); conn[c].reset(); }
		}
	};
}
MC_SUITE(lifetimes_connections) { mc::bfs<LifeSys<false>>(MC_SAN ? mc::pick(8, 12) : mc::pick(14, 40)); }
MC_SUITE(lifetimes_guards) { mc::bfs<LifeSys<true>>(MC_SAN ? mc::pick(5, 6) : mc::pick(8, 12)); }
// no merging of states: what a stale position inside the signal could change
MC_SUITE(lifetimes_histories)
{
	mc::forAll([](mc::Exec& x)
	{
		LifeSys<false> sys(4);
		unsigned depth = MC_SAN ? mc::pick(3, 3) : mc::pick(3, 4);
		for (unsigned i = 0; i < depth; ++i) { sys.apply(x.choose(sys.ops())); x.step(); if (x.choose(2)) sys.key(); }
		sys.key();
		sys.finish();
	});
}
// signals with more slots: moved, then every connection used
MC_SUITE(lifetimes_moves)
{
	mc::forAll([](mc::Exec& x)
	{
		mc::g_life.reset();
		const unsigned n = x.choose(mc::pick(9u, 13u)), before = x.choose(3), after = x.choose(3), how = x.choose(4);
		std::vector<int> log;
		std::optional<S> from(std::in_place), to;
		std::vector<S::Connection> conns, targets, later;
		for (unsigned i = 0; i < n; ++i) conns.push_back(from->Connect(Tracked(&log, int(i))));
		if (how == 0)
		{
			MC_NOTE("a signal with %u slots moved to a new signal", n);
			to.emplace(std::move(*from));
		}
		else
		{
			MC_NOTE("a signal with %u slots moved to a signal with %u slots (%u)", n, before, how);
			to.emplace();
			for (unsigned i = 0; i < before; ++i) targets.push_back(to->Connect(Tracked(&log, 100 + int(i))));
			if (how == 2) { (*to)(0); log.clear(); }
			if (how == 3) { (*from)(0); log.clear(); }
			*to = std::move(*from);
		}
		x.step();
		for (auto& c : targets) MC_CHECK(!c.IsConnected(), "is-connected", "a connection to the former slots of the target is still active");
		const bool destroyed = after == 0 && x.flip();
		if (destroyed) from.reset();
		for (unsigned i = 0; i < after; ++i) later.push_back(from->Connect(Tracked(&log, 200 + int(i))));
		std::set<int> in, out;
		for (unsigned i = 0; i < n; ++i) in.insert(int(i));
		for (unsigned i = 0; i < after; ++i) out.insert(200 + int(i));
		auto see = [&]
		{
			mc::lifeExpect(in.size() + out.size(), "callbacks alive");
			auto call = [&](S& s, const std::set<int>& want)
			{
				log.clear(); s(0);
				std::set<int> got(log.begin(), log.end());
				MC_CHECK(log.size() == want.size() && got == want, "delivery", "an emission reaches %zu callbacks, %zu are connected", log.size(), want.size());
			};
			call(*to, in);
			if (from) call(*from, out);
			for (unsigned i = 0; i < n; ++i) MC_CHECK(conns[i].IsConnected() == (in.count(int(i)) != 0), "is-connected", "connection %u", i);
		};
		see();
		for (unsigned d = 0; d < 2 && !(in.empty() && out.empty()); ++d)
		{
			unsigned k = x.choose(n + after);
			MC_NOTE("connection %u disconnected", k);
			if (k < n) { conns[k].Disconnect(); in.erase(int(k)); } else { later[k - n].Disconnect(); out.erase(200 + int(k - n)); }
			x.step();
			see();
		}
		if (x.flip()) { to.reset(); in.clear(); for (auto& c : conns) MC_CHECK(!c.IsConnected(), "is-connected", "connection to a destroyed signal"); mc::lifeExpect(out.size(), "signal destruction"); }
		mc::outcome(n * 100 + before * 10 + after);
		from.reset(); to.reset();
		mc::lifeExpect(0, "signal destruction");
	});
}

// callbacks owning the guards of other slots: the end of one slot disconnects others
namespace
{
	struct Owning { mc::Elem token; std::shared_ptr<S::ConnectionGuard> guard; std::function<void(int)>* body; int id; void operator()(int) { token.get(); (*body)(id); } };

	struct OwnedWorld
	{
		std::optional<S> sig[3];
		std::vector<S::Connection> conns; // slot id -> connection
		std::vector<int> at, target;      // slot id -> signal (-1 when disconnected), slot its guard disconnects
		std::function<void(int)> body;
		int running = -1;
		bool pending = false; // the running slot was disconnected: its callback ends with its call
		int add(int s)
		{
			int id = int(conns.size());
			at.push_back(s); target.push_back(-1);
			conns.push_back({});
			return id;
		}
		void drop(int id)
		{
			if (id < 0 || at[std::size_t(id)] < 0) return;
			at[std::size_t(id)] = -1;
			if (id == running) pending = true;
			else drop(target[std::size_t(id)]);
		}
		void dropAll(int s) { for (int i = 0; i < int(at.size()); ++i) if (at[std::size_t(i)] == s) drop(i); }
		void see()
		{
			for (std::size_t i = 0; i < at.size(); ++i) MC_CHECK(conns[i].IsConnected() == (at[i] >= 0), "is-connected", "slot %zu is %s but reports otherwise", i, at[i] >= 0 ? "connected" : "disconnected");
		}
		void emit(int s, const std::function<void(int)>& action = {})
		{
			std::vector<int> calls(at.size());
			const std::vector<int> before = at;
			body = [&](int id)
			{
				MC_CHECK(at[std::size_t(id)] == s, "called-disconnected", "slot %d is called but is not connected", id);
				calls[std::size_t(id)]++;
				MC_CHECK(calls[std::size_t(id)] == 1, "called-twice", "slot %d is called twice", id);
				running = id;
				if (action) action(id);
				running = -1;
				if (pending) { pending = false; drop(target[std::size_t(id)]); }
			};
			(*sig[s])(0);
			for (std::size_t i = 0; i < before.size(); ++i)
				if (before[i] == s && at[i] == s) MC_CHECK(calls[i] == 1, "delivery", "slot %zu stays connected during the emission but is called %d times", i, calls[i]);
			body = [](int) {};
		}
	};
	void ownedGuards(unsigned maxSlots, unsigned maxOther)
	{
		mc::forAll([&](mc::Exec& x)
		{
			mc::g_life.reset();
			const unsigned n = 2 + x.choose(maxSlots - 1), m = x.choose(maxOther + 1), total = n + m;
			{
				OwnedWorld w;
				w.sig[0].emplace(); w.sig[1].emplace();
				std::vector<std::shared_ptr<S::ConnectionGuard>> guards(total);
				for (unsigned i = 0; i < total; ++i)
				{
					int id = w.add(i < n ? 0 : 1);
					guards[i] = std::make_shared<S::ConnectionGuard>();
					w.conns[i] = w.sig[i < n ? 0 : 1]->Connect(Owning{ mc::Elem(id), guards[i], &w.body, id });
				}
				// each callback of the first signal owns the guard of any slot, of either signal (those of the second may own the first ones)
				for (unsigned i = 0; i < total; ++i)
				{
					unsigned t = i < n ? x.choose(total + 1) : x.choose(2);
					if (t) { w.target[i] = int(t - 1); *guards[i] = w.conns[t - 1]; MC_NOTE("slot %u owns a guard of slot %u", i, t - 1); }
				}
				guards.clear();
				w.see();
				for (unsigned round = 0; round < 2; ++round)
				{
					const unsigned what = x.choose(8);
					switch (what)
					{
						case 0: { unsigned k = x.choose(total); MC_NOTE("slot %u disconnected", k); w.conns[k].Disconnect(); w.drop(int(k)); break; }
						case 1: MC_NOTE("the signal is cleared"); w.sig[0]->Clear(); w.dropAll(0); break;
						case 2: MC_NOTE("the signal is destroyed"); w.sig[0].reset(); w.dropAll(0); w.sig[0].emplace(); break;
						case 3: // the slots of the second signal become those of the first one
							MC_NOTE("the second signal is moved to the first one");
							*w.sig[0] = std::move(*w.sig[1]);
							w.dropAll(0);
							for (int& s : w.at) if (s == 1) s = 0;
							break;
						case 4:
							MC_NOTE("the first signal is moved to a new signal and back");
							w.sig[2].emplace(std::move(*w.sig[0]));
							w.see();
							*w.sig[0] = std::move(*w.sig[2]);
							w.sig[2].reset();
							break;
						case 5: // disconnected by a callback
						{
							unsigned who = x.choose(n), k = x.choose(total);
							MC_NOTE("slot %u disconnects slot %u when called", who, k);
							w.emit(0, [&](int id) { if (id == int(who)) { w.conns[k].Disconnect(); w.drop(int(k)); } });
							break;
						}
						case 6: MC_NOTE("the signal is moved to itself"); { S& self = *w.sig[0]; *w.sig[0] = std::move(self); } break;
						case 7: // a slot is connected again through its former connection
						{
							unsigned k = x.choose(n);
							MC_NOTE("a guard of slot %u is destroyed", k);
							{ S::ConnectionGuard guard(w.conns[k]); }
							w.drop(int(k));
							break;
						}
					}
					x.step();
					w.see();
					mc::lifeExpect(mc::u64(std::count_if(w.at.begin(), w.at.end(), [](int s) { return s >= 0; })), "callbacks alive");
					w.emit(0); w.emit(1);
					w.see();
				}
				mc::outcome(mc::u64(std::count(w.at.begin(), w.at.end(), 0)));
				w.sig[0].reset(); w.dropAll(0); w.see();
				w.sig[1].reset(); w.dropAll(1); w.see();
			}
			mc::lifeExpect(0, "destruction of the signals");
		});
	}
}
MC_SUITE(owned_guards) { ownedGuards(mc::pick(3, MC_SAN ? 3 : 4), 1); }
MC_SUITE(owned_guards_other) { ownedGuards(2, mc::pick(2, MC_SAN ? 2 : 3)); }
#endif
