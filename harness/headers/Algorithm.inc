inline int use_Algorithm()
{
	int array[3] = { 1, 2, 3 };
	enum class E { A = 4 };
	struct Base { virtual ~Base() = default; }; struct Derived : Base {};
	std::unique_ptr<Base> base(new Derived);
	std::unique_ptr<Derived> derived = Nz::StaticUniquePointerCast<Derived>(std::move(base));
	const Nz::UInt32 bits = Nz::BitCast<Nz::UInt32>(1.0f);
	int* p = Nz::IntegerToPointer<int*>(Nz::PointerToInteger<Nz::UInt64>(&array[1]));
	const Nz::UInt8 small = Nz::SafeCast<Nz::UInt8>(200); const short viaCaster = Nz::SafeCaster(12);
	return Nz::CountOf(array) == 3 && bits == 0x3F800000u && *p == 2 && small == 200 && viaCaster == 12 && derived && Nz::UnderlyingCast(E::A) == 4 && Nz::AccessByOffset<int&>(array, sizeof(int)) == 2 ? 0 : 1;
}
