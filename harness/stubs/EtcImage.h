#pragma once
#include "stub.h"
#define ETCCOMP_MIN_EFFORT_LEVEL 0.0f
#define ETCCOMP_DEFAULT_EFFORT_LEVEL 40.0f
#define ETCCOMP_MAX_EFFORT_LEVEL 100.0f
namespace Etc
{
enum ErrorMetric {RGBA, RGBX, REC709, NUMERIC, NORMALXYZ};
class Image
{
public:
	enum class Format {UNKNOWN, ETC1, RGB8, SRGB8, RGBA8, SRGBA8, R11, SIGNED_R11, RG11, SIGNED_RG11, RGB8A1, SRGB8A1};
	typedef int EncodingStatus;
	Image(float* rgba, unsigned int w, unsigned int h, ErrorMetric m);
	EncodingStatus Encode(Format f, ErrorMetric m, float effort, unsigned int jobs, unsigned int maxJobs);
	unsigned int GetEncodingBitsBytes() const {return m_size;}
	unsigned char* GetEncodingBits() {return m_bits;}
private:
	float* m_rgba;
	unsigned m_w, m_h;
	ErrorMetric m_metric;
	unsigned m_size;
	unsigned char m_bits[16];
};
}
