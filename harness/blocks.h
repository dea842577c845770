// The block-compressed formats as their names and the container specifications define them.
#pragma once
#include "texgen.h"

namespace ref
{
struct Block
{
	Layout l;              // Channels and types, to draw pixels with.
	unsigned bw, bh, size;
	std::vector<std::string> fns;
	uint32_t dxgi[2];      // linear, sRGB; of the first type
	uint32_t gl[2], glBase;
	uint32_t pvr;
	uint32_t dxgi2, gl2;   // of the second type
	bool pvrtc;
};

inline const std::vector<Block>& blocks()
{
	static std::vector<Block> b;
	if (!b.empty()) return b;
	const uint32_t RED = 0x1903, RG = 0x8227, RGB = 0x1907, RGBA = 0x1908;
	std::vector<T> un{T::UNorm}, us{T::UNorm, T::SNorm}, ff{T::UFloat, T::Float}, uf{T::UNorm, T::UFloat};
	auto add = [&](F f, const char* n, std::vector<int> ch, std::vector<T> types, bool srgb, bool alpha, unsigned bw, unsigned bh,
		unsigned size, std::vector<std::string> fns, uint32_t dx, uint32_t dxs, uint32_t gl, uint32_t gls, uint32_t base, uint32_t pvr,
		uint32_t dx2 = 0, uint32_t gl2 = 0, bool pvrtc = false)
	{
		b.push_back({Layout{f, n, 4, arr(8, ch), types, srgb, alpha}, bw, bh, size, fns, {dx, dxs}, {gl, gls}, base, pvr, dx2, gl2,
			pvrtc});
	};
	std::vector<int> c4{0, 1, 2, 3}, c3{0, 1, 2}, c2{0, 1}, c1{0};
	add(F::BC1_RGB, "BC1_RGB", c3, un, true, false, 4, 4, 8, {"bc1"}, 71, 72, 0x83F0, 0x8C4C, RGB, 7);
	add(F::BC1_RGBA, "BC1_RGBA", c4, un, true, true, 4, 4, 8, {"bc1", "squish"}, 71, 72, 0x83F1, 0x8C4D, RGBA, 7);
	add(F::BC2, "BC2", c4, un, true, true, 4, 4, 16, {"bc1"}, 74, 75, 0x83F2, 0x8C4E, RGBA, 9);
	add(F::BC3, "BC3", c4, un, true, true, 4, 4, 16, {"bc3"}, 77, 78, 0x83F3, 0x8C4F, RGBA, 11);
	add(F::BC4, "BC4", c1, us, false, false, 4, 4, 8, {"bc4", "bc4s"}, 80, 0, 0x8DBB, 0, RED, 12, 81, 0x8DBC);
	add(F::BC5, "BC5", c2, us, false, false, 4, 4, 16, {"bc5", "bc5s"}, 83, 0, 0x8DBD, 0, RG, 13, 84, 0x8DBE);
	add(F::BC6H, "BC6H", c3, ff, false, false, 4, 4, 16, {"bc6h"}, 95, 0, 0x8E8F, 0, RGB, 14, 96, 0x8E8E);
	add(F::BC7, "BC7", c4, un, true, true, 4, 4, 16, {"bc7"}, 98, 99, 0x8E8C, 0x8E8D, RGBA, 15);
	add(F::ETC1, "ETC1", c3, un, false, false, 4, 4, 8, {"etc"}, 0, 0, 0x8D64, 0, RGB, 6);
	add(F::ETC2_R8G8B8, "ETC2_R8G8B8", c3, un, true, false, 4, 4, 8, {"etc"}, 0, 0, 0x9274, 0x9275, RGB, 22);
	add(F::ETC2_R8G8B8A1, "ETC2_R8G8B8A1", c4, un, true, true, 4, 4, 8, {"etc"}, 0, 0, 0x9276, 0x9277, RGBA, 24);
	add(F::ETC2_R8G8B8A8, "ETC2_R8G8B8A8", c4, un, true, true, 4, 4, 16, {"etc"}, 0, 0, 0x9278, 0x9279, RGBA, 23);
	add(F::EAC_R11, "EAC_R11", c1, us, false, false, 4, 4, 8, {"etc"}, 0, 0, 0x9270, 0, RED, 25, 0, 0x9271);
	add(F::EAC_R11G11, "EAC_R11G11", c2, us, false, false, 4, 4, 16, {"etc"}, 0, 0, 0x9272, 0, RG, 26, 0, 0x9273);
	const F af[] = {F::ASTC_4x4, F::ASTC_5x4, F::ASTC_5x5, F::ASTC_6x5, F::ASTC_6x6, F::ASTC_8x5, F::ASTC_8x6, F::ASTC_8x8,
		F::ASTC_10x5, F::ASTC_10x6, F::ASTC_10x8, F::ASTC_10x10, F::ASTC_12x10, F::ASTC_12x12};
	const unsigned ad[][2] = {{4, 4}, {5, 4}, {5, 5}, {6, 5}, {6, 6}, {8, 5}, {8, 6}, {8, 8}, {10, 5}, {10, 6}, {10, 8}, {10, 10},
		{12, 10}, {12, 12}};
	static std::vector<std::string> names;
	names.reserve(14);
	for (unsigned i = 0; i < 14; ++i)
	{
		names.push_back(vh::fmt("ASTC_%ux%u", ad[i][0], ad[i][1]));
		add(af[i], names.back().c_str(), c4, uf, true, true, ad[i][0], ad[i][1], 16, {"astc"}, 0, 0, 0x93B0 + i, 0x93D0 + i, RGBA,
			27 + i, 0, 0x93B0 + i);
	}
	add(F::PVRTC1_RGB_2BPP, "PVRTC1_RGB_2BPP", c3, un, true, false, 8, 4, 8, {"pvrtc"}, 0, 0, 0x8C01, 0x8A54, RGB, 0, 0, 0, true);
	add(F::PVRTC1_RGBA_2BPP, "PVRTC1_RGBA_2BPP", c4, un, true, true, 8, 4, 8, {"pvrtc"}, 0, 0, 0x8C03, 0x8A56, RGBA, 1, 0, 0, true);
	add(F::PVRTC1_RGB_4BPP, "PVRTC1_RGB_4BPP", c3, un, true, false, 4, 4, 8, {"pvrtc"}, 0, 0, 0x8C00, 0x8A55, RGB, 2, 0, 0, true);
	add(F::PVRTC1_RGBA_4BPP, "PVRTC1_RGBA_4BPP", c4, un, true, true, 4, 4, 8, {"pvrtc"}, 0, 0, 0x8C02, 0x8A57, RGBA, 3, 0, 0, true);
	add(F::PVRTC2_RGBA_2BPP, "PVRTC2_RGBA_2BPP", c4, un, true, true, 8, 4, 8, {"pvrtc"}, 0, 0, 0x9137, 0x93F0, RGBA, 4, 0, 0, true);
	add(F::PVRTC2_RGBA_4BPP, "PVRTC2_RGBA_4BPP", c4, un, true, true, 4, 4, 8, {"pvrtc"}, 0, 0, 0x9138, 0x93F1, RGBA, 5, 0, 0, true);
	return b;
}

} // namespace ref
