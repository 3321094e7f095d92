struct use_OffsetOf_S { int a; char b; };
inline int use_OffsetOf() { const std::size_t offset = NazaraOffsetOf(use_OffsetOf_S, b); return offset == sizeof(int) ? 0 : 1; }
