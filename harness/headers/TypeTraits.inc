enum class use_TypeTraits_E { A, B, Max = B };
inline int use_TypeTraits() { static_assert(Nz::EnumValueCount_v<use_TypeTraits_E> == 2, ""); static_assert(Nz::IsComplete_v<int>, ""); static_assert(!Nz::AlwaysFalse<int>::value, ""); auto o = Nz::Overloaded{ [](int) { return 0; }, [](char) { return 1; } }; return o(3); }
