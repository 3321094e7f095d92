inline int use_TypeList()
{
	using L = Nz::TypeList<int, char, int>;
	using A = Nz::TypeListAppend<L, double>; using C = Nz::TypeListConcat<L, A>;
	static_assert(Nz::TypeListSize<C> == 7, ""); static_assert(Nz::TypeListFind<L, char> == 1, ""); static_assert(sizeof(Nz::TypeListAt<L, 1>) == 1, "");
	static_assert(Nz::TypeListSize<Nz::TypeListUnique<L>> == 2, "");
	return 0;
}
