inline int use_Bitset()
{
	Nz::Bitset<> b(20, false); b.Set(std::size_t(3)); b.UnboundedSet(70); b <<= 1; b.Reverse(); b.Flip();
	Nz::FixedBitset<Nz::UInt8, 64> f(9, true); Nz::HybridBitset<Nz::UInt16, 16> h(40, true);
	unsigned n = 0; for (std::size_t i : b.IterBits()) { n += unsigned(i < b.GetSize()); }
	Nz::Bitset<Nz::UInt64> c("1011"); c.AppendBits(Nz::UInt8(3), 2); const unsigned char bytes[] = { 1, 2 }; c.Write(bytes, 12);
	using std::swap; Nz::Bitset<Nz::UInt64> d(5u); swap(c, d);
	return n == b.Count() && f.Count() == 9 && h.Count() == 40 && c.To<unsigned>() == 5 && d.ToString().size() == 18 && (c & d).Count() == 1 && c < d && b.FindFirst() != b.npos ? 0 : 1;
}
