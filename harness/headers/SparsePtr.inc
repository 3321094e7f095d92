inline int use_SparsePtr() { int a[4] = { 1, 2, 3, 4 }; Nz::SparsePtr<int> p(a, 2 * int(sizeof(int))); Nz::SparsePtr<const int> q(p); ++p; return *p == 3 && q[1] == 3 && (p - Nz::SparsePtr<int>(a, 2 * int(sizeof(int)))) == 1 ? 0 : 1; }
