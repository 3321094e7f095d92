template<NAZARA_STD_CONCEPT_T(std::integral) T> T use_Concepts_integral(T v) { return v; }
template<NAZARA_STD_CONCEPT_T(Nz::Arithmetic) T> T use_Concepts_arithmetic(T v) { return v; }
inline int use_Concepts() { return use_Concepts_integral(1) == 1 && use_Concepts_arithmetic(1.5) == 1.5 ? 0 : 1; }
