inline int use_FunctionTraits()
{
	auto f = [](int, char) -> double { return 0; };
	using T = Nz::FunctionTraits<decltype(f)>;
	static_assert(sizeof(T) >= 1, "");
	return 0;
}
