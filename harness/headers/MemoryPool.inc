inline int use_MemoryPool()
{
	Nz::MemoryPool<int> pool(2); std::size_t a, b, c; pool.Allocate(a, 1); pool.Allocate(b, 2); int* p = pool.Allocate(c, 3); pool.Free(b);
	int sum = 0; for (int v : pool) sum += v;
	const bool ok = sum == 4 && pool.RetrieveEntryIndex(p) == c && pool.GetFreeEntryCount() == 2;
	pool.Reset(); pool.Clear();
	return ok ? 0 : 1;
}
