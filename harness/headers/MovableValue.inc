inline int use_MovableValue() { Nz::MovableValue<int> a(3), b(std::move(a)); Nz::MovableLiteral<int, -1> l(4), m(std::move(l)); return b.Get() == 3 && m.Get() == 4 && l.Get() == -1 ? 0 : 1; }
