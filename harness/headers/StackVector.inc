inline int use_StackVector() { auto v = NazaraStackVector(int, 3); v.push_back(1); v.insert(v.begin(), 0); v.resize(3); v.erase(v.begin()); return v.size() == 2 && v[0] == 1 && v.capacity() == 3 ? 0 : 1; }
