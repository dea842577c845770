#pragma once
#include "stub.h"
namespace squish
{
typedef unsigned char u8;
enum {kDxt1 = 1 << 0, kDxt3 = 1 << 1, kDxt5 = 1 << 2, kColourClusterFit = 1 << 5, kColourRangeFit = 1 << 6,
	kWeightColourByAlpha = 1 << 7, kColourIterativeClusterFit = 1 << 8};
void Compress(u8 const* rgba, void* block, int flags, float* metric = nullptr);
}
