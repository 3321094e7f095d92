// C04: bits appended from integers and byte streams, in every split and resumption, land in order and nothing else is read.
#include "bitset_common.hpp"

namespace
{
	template<typename B, typename T>
	void append(std::size_t start, std::size_t count, T value)
	{
		Bits m(start);
		for (std::size_t i = 0; i < start; ++i) m[i] = (i * 5 + 1) % 3 != 0;
		B b = makeBitset<B>(m);
		for (std::size_t i = 0; i < count; ++i) m.push_back(i < 8 * sizeof(T) ? char((mc::u64(value) >> i) & 1) : char(0));
		MC_NOTE("AppendBits(%llx, %zu) after %zu bits", (unsigned long long)value, count, start);
		b.AppendBits(value, count);
		expect(b, m, "AppendBits");
		b.AppendBits(value, 1); m.push_back(char(value & 1));
		expect(b, m, "AppendBits again");
		g_count();
	}
	template<typename B, typename T>
	void appendAll(std::size_t maxStart)
	{
		mc::pointName("append(start,count,value)");
		std::vector<T> values = { T(0), T(~T(0)), T(1), T(mc::u64(0x5DB3A6C91F2E8407ull) >> (64 - 8 * sizeof(T))), T(mc::u64(1) << (8 * sizeof(T) - 1)), T(mc::u64(0x96A55A6996A55A69ull)) };
		if (std::is_signed_v<T>) for (T& v : values) v = T(v & std::numeric_limits<T>::max());
		for (std::size_t start = 0; start <= maxStart; ++start)
			for (std::size_t count = 0; count <= 8 * sizeof(T) + B::bitsPerBlock + 3; ++count)
				for (T v : values)
				{
					mc::point(start, count, mc::u64(v), sizeof(T));
					append<B, T>(start, count, v);
				}
	}
	template<typename B> void appendTypes(std::size_t maxStart)
	{
		appendAll<B, Nz::UInt8>(maxStart); appendAll<B, Nz::UInt16>(maxStart); appendAll<B, Nz::UInt32>(maxStart); appendAll<B, Nz::UInt64>(maxStart);
		appendAll<B, Nz::Int32>(maxStart); appendAll<B, Nz::Int64>(maxStart);
	}

	struct Stream
	{
		std::size_t size;
		Nz::UInt8* bytes; // exactly sized: reading past its end is caught by the sanitizer
		Stream(std::size_t n, unsigned seed) : size(n), bytes(new Nz::UInt8[n])
		{
			for (std::size_t i = 0; i < n; ++i) bytes[i] = seed == 0 ? 0xFF : seed == 1 ? Nz::UInt8(0xB5u * (i + 1) + (i >> 1) * 77u) : Nz::UInt8(i % 2 ? 0x00 : 0xFF);
		}
		~Stream() { delete[] bytes; }
		char bit(std::size_t i) const { return char((bytes[i / 8] >> (i % 8)) & 1); }
	};

	// one Write from every bit offset
	template<typename B> void writeAll(std::size_t maxStart, std::size_t maxBits)
	{
		mc::pointName("write(start,offset,count,data)");
		for (std::size_t start = 0; start <= maxStart; ++start)
			for (std::size_t off = 0; off < 8; ++off)
				for (std::size_t count = 0; count <= maxBits; ++count)
					for (unsigned data = 0; data < 3; ++data)
					{
						mc::point(start, off, count, data);
						Stream s((off + count + 7) / 8, data);
						Bits m(start, 1);
						B b = makeBitset<B>(m);
						for (std::size_t i = 0; i < count; ++i) m.push_back(s.bit(off + i));
						MC_NOTE("Write({bytes, %zu}, %zu) after %zu bits", off, count, start);
						auto next = b.Write(typename B::PointerSequence(s.bytes, off), count);
						expect(b, m, "Write");
						MC_CHECK(next.first == s.bytes + (off + count) / 8 && next.second == (off + count) % 8, "resume", "Write returned byte %td bit %zu, expected byte %zu bit %zu",
							static_cast<const Nz::UInt8*>(next.first) - s.bytes, next.second, (off + count) / 8, (off + count) % 8);
						if (off == 0)
						{
							B c = makeBitset<B>(Bits(start, 1));
							auto n2 = c.Write(s.bytes, count);
							expect(c, m, "Write(pointer)");
							MC_CHECK(n2 == next, "resume", "Write(pointer) returned another position than Write(sequence)");
							if (start == 0)
							{
								typename B::PointerSequence seq;
								B d = B::FromPointer(s.bytes, count, &seq);
								expect(d, m, "FromPointer");
								MC_CHECK(seq == next, "resume", "FromPointer gave another position than Write");
								expect(B::FromPointer(s.bytes, count), m, "FromPointer");
							}
						}
						g_count();
					}
	}
	// every way to cut a stream into pieces
	template<typename B> void splits(std::size_t totalBits, unsigned pieces)
	{
		mc::forAll([&](mc::Exec& x)
		{
			unsigned data = x.choose(2);
			Stream s((totalBits + 7) / 8, data);
			B b; Bits m;
			typename B::PointerSequence seq(s.bytes, 0);
			std::size_t done = 0;
			for (unsigned p = 0; p < pieces; ++p)
			{
				std::size_t left = totalBits - done;
				std::size_t n = p + 1 == pieces ? left : x.choose(unsigned(left) + 1);
				for (std::size_t i = 0; i < n; ++i) m.push_back(s.bit(done + i));
				MC_NOTE("Write %zu bits at bit %zu", n, done);
				seq = b.Write(seq, n);
				done += n;
				x.step();
				expect(b, m, "resumed Write");
				MC_CHECK(seq.first == s.bytes + done / 8 && seq.second == done % 8, "resume", "position after %zu bits: byte %td bit %zu", done, static_cast<const Nz::UInt8*>(seq.first) - s.bytes, seq.second);
			}
		});
	}
	// histories mixing every way to grow
	template<typename B> void histories(unsigned depth)
	{
		mc::forAll([&](mc::Exec& x)
		{
			Stream s(24, 1);
			B b; Bits m;
			typename B::PointerSequence seq(s.bytes, 0);
			std::size_t done = 0;
			auto appendModel = [&](mc::u64 v, std::size_t width, std::size_t n) { for (std::size_t i = 0; i < n; ++i) m.push_back(i < width ? char(v >> i & 1) : char(0)); };
			for (unsigned d = 0; d < depth; ++d)
			{
				unsigned op = x.choose(14);
				static const std::size_t counts[] = { 1, 3, 7, 8, 13, 33 };
				if (op < 6)
				{
					std::size_t n = counts[op];
					MC_NOTE("Write %zu bits at bit %zu", n, done);
					for (std::size_t i = 0; i < n; ++i) m.push_back(s.bit(done + i));
					seq = b.Write(seq, n);
					done += n;
				}
				else switch (op)
				{
					case 6: MC_NOTE("AppendBits(u8 0xFF, 5)"); b.AppendBits(Nz::UInt8(0xFF), 5); appendModel(0xFF, 8, 5); break;
					case 7: MC_NOTE("AppendBits(u8 0xA7, 11)"); b.AppendBits(Nz::UInt8(0xA7), 11); appendModel(0xA7, 8, 11); break;
					case 8: MC_NOTE("AppendBits(u64, 64)"); b.AppendBits(Nz::UInt64(0x8123456789ABCDEFull), 64); appendModel(0x8123456789ABCDEFull, 64, 64); break;
					case 9: MC_NOTE("AppendBits(u32, 32)"); b.AppendBits(Nz::UInt32(0xDEADBEEF), 32); appendModel(0xDEADBEEF, 32, 32); break;
					case 10: MC_NOTE("AppendBits(u64, 9)"); b.AppendBits(Nz::UInt64(0xFFFFFFFFFFFFFFFFull), 9); appendModel(~mc::u64(0), 64, 9); break;
					case 11: MC_NOTE("Resize(+2)"); b.Resize(b.GetSize() + 2); m.resize(m.size() + 2, 0); break;
					case 12: MC_NOTE("Resize to half"); b.Resize(b.GetSize() / 2); m.resize(m.size() / 2); break;
					case 13: MC_NOTE("Flip"); b.Flip(); for (char& c : m) c = !c; break;
				}
				x.step();
				expect(b, m, "history");
			}
		});
	}
}

#if MC_PART == 0
MC_SUITE(append8) { appendTypes<VecBitset<Nz::UInt8>>(MC_SAN ? mc::pick(17, 20) : mc::pick(26, 34)); }
MC_SUITE(append16) { appendTypes<VecBitset<Nz::UInt16>>(MC_SAN ? mc::pick(33, 40) : mc::pick(49, 65)); }
MC_SUITE(append32) { appendTypes<VecBitset<Nz::UInt32>>(MC_SAN ? mc::pick(65, 70) : mc::pick(97, 129)); }
MC_SUITE(append64) { appendTypes<VecBitset<Nz::UInt64>>(MC_SAN ? mc::pick(65, 129) : mc::pick(129, 193)); }
MC_SUITE(append_hyb8) { appendTypes<HybBitset<Nz::UInt8>>(mc::pick(17, 20)); }
#else
MC_SUITE(write8) { writeAll<VecBitset<Nz::UInt8>>(mc::pick(17, 20), mc::pick(40, 70)); }
MC_SUITE(write16) { writeAll<VecBitset<Nz::UInt16>>(mc::pick(17, 33), mc::pick(40, 70)); }
MC_SUITE(write32) { writeAll<VecBitset<Nz::UInt32>>(mc::pick(33, 65), mc::pick(50, 70)); }
MC_SUITE(write64) { writeAll<VecBitset<Nz::UInt64>>(mc::pick(65, 129), mc::pick(70, 140)); }
MC_SUITE(write_hyb8) { writeAll<HybBitset<Nz::UInt8>>(9, mc::pick(30, 50)); }
MC_SUITE(splits8) { splits<VecBitset<Nz::UInt8>>(MC_SAN ? mc::pick(26, 34) : mc::pick(34, 42), 4); }
MC_SUITE(splits32) { splits<VecBitset<Nz::UInt32>>(MC_SAN ? mc::pick(37, 50) : mc::pick(50, 75), 4); }
MC_SUITE(splits64) { splits<VecBitset<Nz::UInt64>>(MC_SAN ? mc::pick(70, 75) : mc::pick(70, 90), mc::pick(3, 4)); }
MC_SUITE(hist8) { histories<VecBitset<Nz::UInt8>>(MC_SAN ? mc::pick(3, 4) : mc::pick(5, 6)); }
MC_SUITE(hist32) { histories<VecBitset<Nz::UInt32>>(MC_SAN ? mc::pick(3, 4) : mc::pick(5, 6)); }
MC_SUITE(hist64) { histories<VecBitset<Nz::UInt64>>(MC_SAN ? mc::pick(3, 4) : mc::pick(5, 6)); }
#endif
