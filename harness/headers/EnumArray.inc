enum class use_EnumArray_E { A, B, C, Max = C };
inline int use_EnumArray()
{
	Nz::EnumArray<use_EnumArray_E, int> a{ 1, 2, 3 }; a[use_EnumArray_E::B] = 5;
	int n = 0; for (auto&& [k, v] : a.iter_kv()) n += int(k) * v; for (int v : a) n += v;
	a.fill(2);
	return n == 11 + 9 && a.size() == 3 && a[use_EnumArray_E::C] == 2 && a.back() == 2 ? 0 : 1;
}
