inline int use_FunctionRef_free(int v) { return v + 1; }
inline int use_FunctionRef()
{
	int k = 3; auto add = [&](int v) { return v + k; };
	Nz::FunctionRef<int(int)> f(add), g(use_FunctionRef_free); int (*pointer)(int) = use_FunctionRef_free; Nz::FunctionRef h(pointer);
	return f(1) == 4 && g(1) == 2 && h(2) == 3 && bool(f) ? 0 : 1;
}
