inline int use_TypeTag() { Nz::TypeTag<int>::Type v = 0; return v; }
