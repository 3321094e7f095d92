inline int use_Endianness()
{
	const Nz::UInt32 v = 0x01020304u; const double d = 1.5;
	return Nz::PlatformEndianness == Nz::Endianness::LittleEndian && Nz::HostToLittleEndian(v) == v && Nz::BigEndianToHost(Nz::HostToBigEndian(v)) == v && Nz::HostToBigEndian(v) == 0x04030201u && Nz::LittleEndianToHost(d) == d ? 0 : 1;
}
