inline int use_TypeName() { return Nz::TypeName<int>() == "int" && Nz::TypeName<const char*>() != Nz::TypeName<char*>() ? 0 : 1; }
