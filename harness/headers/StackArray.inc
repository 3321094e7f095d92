inline int use_StackArray() { auto a = NazaraStackArray(int, 3); a.fill(2); auto b = NazaraStackArrayNoInit(int, 2); b[0] = 1; return a.size() == 3 && a.back() == 2 && b.front() == 1 ? 0 : 1; }
