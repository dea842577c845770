// Independent descriptions of pixel layouts and numeric encodings used by the oracles.
#pragma once
#include "vh.h"
#include <cuttlefish/Image.h>
#include <cuttlefish/Texture.h>

namespace ref
{

using cuttlefish::ColorSpace;
using cuttlefish::ColorRGBAd;
using cuttlefish::Image;
using cuttlefish::Texture;
using F = Texture::Format;
using T = Texture::Type;

struct Comp
{
	int ch;        // 0..3 = r, g, b, a
	unsigned bits;
	unsigned shift; // within the little-endian pixel word
};

enum class Kind {Norm, PackedF, SharedExp};

struct Layout
{
	F format;
	const char* name;
	unsigned bytes;            // per pixel
	std::vector<Comp> comps;
	std::vector<T> types;      // valid types
	bool srgb;                 // native sRGB possible (with UNorm)
	bool alpha;
};

inline std::vector<Comp> arr(unsigned bits, std::vector<int> order)
{
	std::vector<Comp> r;
	for (unsigned i = 0; i < order.size(); ++i)
		r.push_back(Comp{order[i], bits, i*bits});
	return r;
}

inline const std::vector<Layout>& layouts()
{
	static const std::vector<T> un{T::UNorm}, n8{T::UNorm, T::SNorm, T::UInt, T::Int},
		n10{T::UNorm, T::UInt}, n16{T::UNorm, T::SNorm, T::UInt, T::Int, T::Float},
		n32{T::UInt, T::Int, T::Float}, uf{T::UFloat};
	static const std::vector<Layout> l{
		{F::R4G4, "R4G4", 1, {{0, 4, 4}, {1, 4, 0}}, un, false, false},
		{F::R4G4B4A4, "R4G4B4A4", 2, {{0, 4, 12}, {1, 4, 8}, {2, 4, 4}, {3, 4, 0}}, un, false, true},
		{F::B4G4R4A4, "B4G4R4A4", 2, {{2, 4, 12}, {1, 4, 8}, {0, 4, 4}, {3, 4, 0}}, un, false, true},
		{F::A4R4G4B4, "A4R4G4B4", 2, {{3, 4, 12}, {0, 4, 8}, {1, 4, 4}, {2, 4, 0}}, un, false, true},
		{F::R5G6B5, "R5G6B5", 2, {{0, 5, 11}, {1, 6, 5}, {2, 5, 0}}, un, false, false},
		{F::B5G6R5, "B5G6R5", 2, {{2, 5, 11}, {1, 6, 5}, {0, 5, 0}}, un, false, false},
		{F::R5G5B5A1, "R5G5B5A1", 2, {{0, 5, 11}, {1, 5, 6}, {2, 5, 1}, {3, 1, 0}}, un, false, true},
		{F::B5G5R5A1, "B5G5R5A1", 2, {{2, 5, 11}, {1, 5, 6}, {0, 5, 1}, {3, 1, 0}}, un, false, true},
		{F::A1R5G5B5, "A1R5G5B5", 2, {{3, 1, 15}, {0, 5, 10}, {1, 5, 5}, {2, 5, 0}}, un, false, true},
		{F::R8, "R8", 1, arr(8, {0}), n8, false, false},
		{F::R8G8, "R8G8", 2, arr(8, {0, 1}), n8, false, false},
		{F::R8G8B8, "R8G8B8", 3, arr(8, {0, 1, 2}), n8, true, false},
		{F::B8G8R8, "B8G8R8", 3, arr(8, {2, 1, 0}), un, true, false},
		{F::R8G8B8A8, "R8G8B8A8", 4, arr(8, {0, 1, 2, 3}), n8, true, true},
		{F::B8G8R8A8, "B8G8R8A8", 4, arr(8, {2, 1, 0, 3}), un, true, true},
		{F::A8B8G8R8, "A8B8G8R8", 4, arr(8, {3, 2, 1, 0}), un, true, true},
		{F::A2R10G10B10, "A2R10G10B10", 4, {{3, 2, 30}, {0, 10, 20}, {1, 10, 10}, {2, 10, 0}}, n10, false, true},
		{F::A2B10G10R10, "A2B10G10R10", 4, {{3, 2, 30}, {2, 10, 20}, {1, 10, 10}, {0, 10, 0}}, n10, false, true},
		{F::R16, "R16", 2, arr(16, {0}), n16, false, false},
		{F::R16G16, "R16G16", 4, arr(16, {0, 1}), n16, false, false},
		{F::R16G16B16, "R16G16B16", 6, arr(16, {0, 1, 2}), n16, false, false},
		{F::R16G16B16A16, "R16G16B16A16", 8, arr(16, {0, 1, 2, 3}), n16, false, true},
		{F::R32, "R32", 4, arr(32, {0}), n32, false, false},
		{F::R32G32, "R32G32", 8, arr(32, {0, 1}), n32, false, false},
		{F::R32G32B32, "R32G32B32", 12, arr(32, {0, 1, 2}), n32, false, false},
		{F::R32G32B32A32, "R32G32B32A32", 16, arr(32, {0, 1, 2, 3}), n32, false, true},
		{F::B10G11R11_UFloat, "B10G11R11_UFloat", 4, {{0, 11, 0}, {1, 11, 11}, {2, 10, 22}}, uf, false, false},
		{F::E5B9G9R9_UFloat, "E5B9G9R9_UFloat", 4, {{0, 9, 0}, {1, 9, 9}, {2, 9, 18}}, uf, false, false},
	};
	return l;
}

inline const Layout* layout(F f)
{
	for (const Layout& l : layouts())
		if (l.format == f)
			return &l;
	return nullptr;
}

inline const char* typeName(T t)
{
	switch (t)
	{
		case T::UNorm: return "UNorm";
		case T::SNorm: return "SNorm";
		case T::UInt: return "UInt";
		case T::Int: return "Int";
		case T::UFloat: return "UFloat";
		case T::Float: return "Float";
	}
	return "?";
}

inline bool hasType(const Layout& l, T t)
{
	return std::find(l.types.begin(), l.types.end(), t) != l.types.end();
}

// Extracts a bit field from a little-endian pixel of up to 16 bytes.
inline uint64_t field(const uint8_t* px, unsigned bytes, unsigned shift, unsigned bits)
{
	uint64_t v = 0;
	for (unsigned i = 0; i < bits; ++i)
	{
		unsigned b = shift + i;
		if (b/8 < bytes && (px[b/8] >> (b % 8)) & 1)
			v |= 1ull << i;
	}
	return v;
}

inline int64_t signExtend(uint64_t v, unsigned bits)
{
	if (bits < 64 && (v >> (bits - 1)) & 1)
		return (int64_t)(v | (~0ull << bits));
	return (int64_t)v;
}

// Generic small unsigned/signed float decode. expBits = 5.
inline double decodeSmallFloat(uint64_t v, unsigned mant, bool sign)
{
	double s = 1.0;
	if (sign && (v >> (mant + 5)) & 1)
		s = -1.0;
	unsigned e = (unsigned)((v >> mant) & 31), m = (unsigned)(v & ((1u << mant) - 1));
	if (e == 31)
		return m ? std::numeric_limits<double>::quiet_NaN() : s*std::numeric_limits<double>::infinity();
	if (e == 0)
		return s*std::ldexp((double)m, -14 - (int)mant);
	return s*std::ldexp(1.0 + std::ldexp((double)m, -(int)mant), (int)e - 15);
}

inline double smallFloatUlp(double v, unsigned mant)
{
	v = std::fabs(v);
	int e;
	if (v < std::ldexp(1.0, -14))
		return std::ldexp(1.0, -14 - (int)mant);
	std::frexp(v, &e);
	return std::ldexp(1.0, e - 1 - (int)mant);
}

inline float bitsToFloat(uint32_t b) {float f; std::memcpy(&f, &b, 4); return f;}
inline uint32_t floatToBits(float f) {uint32_t b; std::memcpy(&b, &f, 4); return b;}

// Verdict on one encoded pixel: empty when right, otherwise a short reason.
inline std::string checkPixel(const Layout& l, T type, const float* src, const uint8_t* px)
{
	using vh::fmt;
	if (l.format == F::E5B9G9R9_UFloat)
	{
		unsigned e = (unsigned)field(px, 4, 27, 5);
		double scale = std::ldexp(1.0, (int)e - 24);
		double c[3], mx = 0;
		for (int i = 0; i < 3; ++i)
		{
			if (std::isnan(src[i]))
				return "";
			c[i] = std::min(std::max((double)src[i], 0.0), 65408.0);
			mx = std::max(mx, c[i]);
		}
		int p;
		std::frexp(mx, &p); // mx = f*2^p, f in [.5,1)
		int ideal = mx == 0 ? 0 : std::max(-16, p - 1) + 1 + 15;
		if (std::floor(mx/std::ldexp(1.0, ideal - 24) + 0.5) >= 512)
			ideal += 1;
		if (mx > 0 && (int)e > ideal)
			return fmt("exponent %u larger than needed (%d) for max %g", e, ideal, mx);
		for (int i = 0; i < 3; ++i)
		{
			double d = (double)field(px, 4, (unsigned)i*9, 9)*scale;
			if (std::fabs(d - c[i]) > 0.501*scale + c[i]*1e-7)
				return fmt("ch %d: value %.9g stored as %.9g (step %g)", i, src[i], d, scale);
		}
		return "";
	}
	for (const Comp& c : l.comps)
	{
		double v = src[c.ch];
		uint64_t raw = field(px, l.bytes, c.shift, c.bits);
		if (l.format == F::B10G11R11_UFloat)
		{
			unsigned mant = c.bits - 5;
			double d = decodeSmallFloat(raw, mant, false);
			double maxFinite = decodeSmallFloat((30u << mant) | ((1u << mant) - 1), mant, false);
			if (std::isnan(v))
				continue;
			double want = std::max(v, 0.0);
			if (want > maxFinite)
			{
				if (!(d == maxFinite || std::isinf(d)))
					return fmt("ch %d: value %.9g above range stored as %.9g", c.ch, v, d);
			}
			else if (!(std::fabs(d - want) <= smallFloatUlp(want, mant)*1.0001))
				return fmt("ch %d: value %.9g stored as %.9g", c.ch, v, d);
			continue;
		}
		switch (type)
		{
			case T::UNorm:
			{
				if (std::isnan(v))
					break;
				double mx = (double)((1ull << c.bits) - 1);
				double want = std::min(std::max(v, 0.0), 1.0)*mx;
				if (std::fabs((double)raw - want) > 0.5 + mx*std::ldexp(1.0, -23))
					return fmt("ch %d: %.9g stored as %llu of %g", c.ch, v, (unsigned long long)raw, mx);
				break;
			}
			case T::SNorm:
			{
				if (std::isnan(v))
					break;
				double mx = (double)((1ull << (c.bits - 1)) - 1);
				int64_t s = signExtend(raw, c.bits);
				double want = std::min(std::max(v, -1.0), 1.0)*mx;
				if (s == -(int64_t)mx - 1)
					s += 1;
				if (std::fabs((double)s - want) > 0.5 + mx*std::ldexp(1.0, -23))
					return fmt("ch %d: %.9g stored as %lld of %g", c.ch, v, (long long)s, mx);
				break;
			}
			case T::UInt:
			{
				if (std::isnan(v))
					break;
				double mx = (double)((1ull << c.bits) - 1);
				double want = std::min(std::max(v, 0.0), mx);
				if (std::fabs((double)raw - want) > 0.5)
					return fmt("ch %d: %.9g stored as %llu", c.ch, v, (unsigned long long)raw);
				break;
			}
			case T::Int:
			{
				if (std::isnan(v))
					break;
				double mx = (double)((1ull << (c.bits - 1)) - 1), mn = -mx - 1;
				double want = std::min(std::max(v, mn), mx);
				int64_t s = signExtend(raw, c.bits);
				if (std::fabs((double)s - want) > 0.5)
					return fmt("ch %d: %.9g stored as %lld", c.ch, v, (long long)s);
				break;
			}
			case T::Float:
				if (c.bits == 32)
				{
					if ((uint32_t)raw != floatToBits(src[c.ch]) && !std::isnan(v))
						return fmt("ch %d: float bits %08x stored as %08x", c.ch, floatToBits(src[c.ch]), (uint32_t)raw);
					if (std::isnan(v) && !std::isnan(bitsToFloat((uint32_t)raw)))
						return fmt("ch %d: NaN stored as %08x", c.ch, (uint32_t)raw);
				}
				else
				{
					double d = decodeSmallFloat(raw, 10, true);
					if (std::isnan(v))
					{
						if (!std::isnan(d))
							return fmt("ch %d: NaN stored as %g", c.ch, d);
						break;
					}
					if (std::fabs(v) >= 65520.0)
					{
						if (!(std::fabs(d) >= 65504.0 && std::signbit(d) == std::signbit(v)))
							return fmt("ch %d: %.9g beyond range stored as %g", c.ch, v, d);
						if (std::isinf(v) && !std::isinf(d))
							return fmt("ch %d: infinity stored as %g", c.ch, d);
					}
					else
					{
						double ulp = smallFloatUlp(v, 10);
						if (!(std::fabs(d - v) <= ulp*0.5000001))
							return fmt("ch %d: %.9g stored as half %.9g", c.ch, v, d);
						if (std::fabs(v) > std::ldexp(1.0, -25) && std::signbit(d) != std::signbit(v))
							return fmt("ch %d: %.9g lost its sign", c.ch, v);
					}
				}
				break;
			default:
				return "unexpected type";
		}
	}
	return "";
}

} // namespace ref
