#pragma once
#include "stub.h"
namespace rgbcx
{
enum class bc1_approx_mode {cBC1Ideal = 0, cBC1NVidia, cBC1AMD, cBC1IdealRound4};
const uint32_t MIN_LEVEL = 0, MAX_LEVEL = 18;
void init(bc1_approx_mode mode = bc1_approx_mode::cBC1Ideal);
void encode_bc1(uint32_t level, void* dst, const uint8_t* rgba, bool allow3Color, bool useTransparentForBlack, void* palette = nullptr);
void encode_bc3(uint32_t level, void* dst, const uint8_t* rgba);
void encode_bc3_hq(uint32_t level, void* dst, const uint8_t* rgba, uint32_t radius = 5, uint32_t modes = 3);
void encode_bc4(void* dst, const uint8_t* px, uint32_t stride = 4);
void encode_bc4_hq(void* dst, const uint8_t* px, uint32_t stride = 4, uint32_t radius = 5, uint32_t modes = 3);
void encode_bc5(void* dst, const uint8_t* px, uint32_t chan0 = 0, uint32_t chan1 = 1, uint32_t stride = 4);
void encode_bc5_hq(void* dst, const uint8_t* px, uint32_t chan0 = 0, uint32_t chan1 = 1, uint32_t stride = 4, uint32_t radius = 5,
	uint32_t modes = 3);
}
