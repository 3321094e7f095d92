inline int use_FixedVector()
{
	Nz::FixedVector<int, 4> f{ 1, 2 }; f.push_back(3); f.insert(f.begin(), 0); f.erase(f.begin() + 1); f.resize(4);
	Nz::HybridVector<int, 2> h; for (int i = 0; i < 5; ++i) h.emplace_back(i); auto c = h; h.resize(1); h.reserve(10); h = std::move(c);
	return f.size() == 4 && f[0] == 0 && f.front() == 0 && h.size() == 5 && h.back() == 4 ? 0 : 1;
}
