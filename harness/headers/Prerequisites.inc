inline int use_Prerequisites()
{
	NAZARA_WARNING_PUSH() NAZARA_WARNING_POP()
	int v = 3; NazaraUnused(v);
	if NAZARA_LIKELY(v == 3) v = 4;
	if NAZARA_UNLIKELY(v == 3) NAZARA_UNREACHABLE();
	return sizeof(Nz::Int8) == 1 && sizeof(Nz::UInt16) == 2 && sizeof(Nz::Int32) == 4 && sizeof(Nz::UInt64) == 8 && NazaraStringifyMacro(NazaraSuffix(a, b))[1] == 'b' && NazaraPrefix(_Prerequisites, use) != nullptr ? 0 : 1;
}
