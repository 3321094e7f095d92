inline int use_MemoryHelper()
{
	alignas(int) unsigned char memory[sizeof(int)]; int* p = Nz::PlacementNew(reinterpret_cast<int*>(memory), 4); const int v = *p; Nz::PlacementDestroy(p);
	char* stack = static_cast<char*>(NAZARA_ALLOCA(12)); stack[11] = 1;
	return v == 4 && stack[11] == 1 ? 0 : 1;
}
