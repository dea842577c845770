#pragma once
#include "stub.h"
typedef uint64_t PVRTuint64;
#define PVRTGENPIXELID4(C1, C2, C3, C4, B1, B2, B3, B4) \
	((uint64_t)C1 | ((uint64_t)C2 << 8) | ((uint64_t)C3 << 16) | ((uint64_t)C4 << 24) | ((uint64_t)B1 << 32) | \
	((uint64_t)B2 << 40) | ((uint64_t)B3 << 48) | ((uint64_t)B4 << 56))
enum PVRTexLibColourSpace {PVRTLCS_Linear, PVRTLCS_sRGB};
enum PVRTexLibVariableType {PVRTLVT_UnsignedByteNorm, PVRTLVT_SignedByteNorm};
enum PVRTexLibPixelFormat {PVRTLPF_PVRTCI_2bpp_RGB, PVRTLPF_PVRTCI_2bpp_RGBA, PVRTLPF_PVRTCI_4bpp_RGB, PVRTLPF_PVRTCI_4bpp_RGBA,
	PVRTLPF_PVRTCII_2bpp, PVRTLPF_PVRTCII_4bpp};
enum PVRTexLibCompressorQuality {PVRTLCQ_PVRTCFastest, PVRTLCQ_PVRTCFast, PVRTLCQ_PVRTCLow, PVRTLCQ_PVRTCNormal, PVRTLCQ_PVRTCHigh,
	PVRTLCQ_PVRTCVeryHigh, PVRTLCQ_PVRTCThorough, PVRTLCQ_PVRTCBest};
namespace pvrtexlib
{
struct PVRTextureHeader
{
	uint64_t format; unsigned w, h; int cs; bool pre;
	PVRTextureHeader(uint64_t format, unsigned w, unsigned h, unsigned d = 1, unsigned mips = 1, unsigned arr = 1, unsigned faces = 1,
		PVRTexLibColourSpace cs = PVRTLCS_sRGB, PVRTexLibVariableType type = PVRTLVT_UnsignedByteNorm, bool pre = false);
};
class PVRTexture
{
public:
	PVRTexture(const PVRTextureHeader& h, const void* data);
	void* GetTextureDataPointer() {return m_data.data();}
	uint64_t GetTextureDataSize() const {return m_data.size();}
	template <typename... Rest>
	bool Transcode(uint64_t format, PVRTexLibVariableType type, PVRTexLibColourSpace cs, PVRTexLibCompressorQuality q, Rest...)
	{
		return transcode(format, (int)type, (int)cs, (int)q);
	}
private:
	bool transcode(uint64_t format, int type, int cs, int q);
	PVRTextureHeader m_h;
	std::vector<uint8_t> m_data;
};
}
