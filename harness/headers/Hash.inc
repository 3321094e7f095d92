inline int use_Hash()
{
	std::size_t seed = 3; Nz::HashCombine(seed, 12);
	return Nz::CRC32("123456789") == 0xCBF43926u && Nz::FNV1a32("a") == 0xE40C292Cu && Nz::FNV1a64("a") == 0xAF63DC4C8601EC8CULL && Nz::HashCombine(1, 2) == Nz::HashCombine(1, 2) && Nz::FNV1a32Hash()("a") == 0xE40C292Cu && seed != 3 ? 0 : 1;
}
