inline int use_Assert()
{
	int evaluated = 0; (void)evaluated;
	NazaraAssert(++evaluated > 0);
	NazaraAssertMsg(++evaluated > 0, "message %d", 3);
	if (evaluated > 5) NazaraAssert(evaluated > 3); else NazaraAssert(evaluated <= 5);
	Nz::Assert(true); Nz::Assert(true, "message %d", 3);
	return evaluated <= 3 ? 0 : 1;
}
