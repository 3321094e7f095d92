struct use_Signal_S { NazaraSignal(OnValue, int); NazaraSlot(use_Signal_S, OnValue, slot); };
inline int use_Signal()
{
	Nz::Signal<int> s; int n = 0; auto c = s.Connect([&](int v) { n += v; });
	{ Nz::Signal<int>::ConnectionGuard g = s.Connect([&](int v) { n += 10 * v; }); s(1); }
	s(1); c.Disconnect(); s(1);
	use_Signal_S o; o.slot.Connect(o.OnValue, [&](int v) { n += v; }); o.OnValue(100);
	return n == 112 ? 0 : 1;
}
