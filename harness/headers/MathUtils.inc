inline int use_MathUtils()
{
	unsigned char b[3] = { 1, 2, 3 }; Nz::SwapBytes(b, 3);
	return Nz::CountBits(7u) == 3 && Nz::FindFirstBit(8u) == 4 && Nz::FindLastBit(8u) == 4 && Nz::ByteSwap(Nz::UInt16(0x0102)) == 0x0201 && Nz::ReverseBits(Nz::UInt8(1)) == 0x80 && Nz::Align(5, 4) == 8 && Nz::Clamp(5, 1, 3) == 3
		&& Nz::NumberEquals(1.0, 1.0) && Nz::Mod(5.0, 3.0) == 2.0 && Nz::IntegralLog2(9u) == 3 && Nz::IsNaN(1.0f) == false && Nz::Lerp(0.0, 2.0, 0.5) == 1.0 && Nz::DegreeToRadian(180.0) > 3.1 && b[0] == 3 ? 0 : 1;
}
