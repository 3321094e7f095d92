struct use_PrivateImpl_S { int v = 3; };
inline int use_PrivateImpl() { Nz::PrivateImpl<use_PrivateImpl_S> p{ new use_PrivateImpl_S }, q = p; q->v = 4; Nz::PrivateImpl<use_PrivateImpl_S, 32> i{ use_PrivateImpl_S{} }, j = i; p = q; p.Reset(); return j->v == 3 && q->v == 4 && !p.HasValue() ? 0 : 1; }
