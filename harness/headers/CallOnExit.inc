inline int use_CallOnExit()
{
	int n = 0;
	{ Nz::CallOnExit a([&] { ++n; }); Nz::CallOnExit b([&] { n += 10; }); b.CallAndReset(); Nz::CallOnExit c([&] { n += 100; }); c.Reset(); }
	return n == 11 ? 0 : 1;
}
