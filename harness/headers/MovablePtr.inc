inline int use_MovablePtr() { int v = 3; Nz::MovablePtr<int> a(&v), b(std::move(a)); a = std::move(b); return *a.Get() == 3 && b.Get() == nullptr ? 0 : 1; }
