enum class use_Flags_E { A, B, C, Max = C };
template<> struct Nz::EnumAsFlags<use_Flags_E> { static constexpr use_Flags_E max = use_Flags_E::Max; };
inline int use_Flags()
{
	Nz::Flags<use_Flags_E> f = use_Flags_E::A | use_Flags_E::C; f ^= use_Flags_E::A; f |= ~f;
	unsigned n = 0; for (use_Flags_E e : f) n += unsigned(e) + 1;
	return n == 6 && f.Test(use_Flags_E::B) && f.Count() == 3 && std::hash<Nz::Flags<use_Flags_E>>()(f) == std::hash<Nz::Flags<use_Flags_E>>()(f) ? 0 : 1;
}
