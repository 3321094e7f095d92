inline int use_Constants()
{
	return Nz::Pi<float>() > 3.14f && Nz::Pi<double>() < 3.15 && Nz::Infinity<double>() > Nz::MaxValue<double>() && Nz::MaxValue<int>() > 0 ? 0 : 1;
}
