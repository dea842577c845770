// Independent descriptions of the in-memory image pixel formats.
#pragma once
#include "ref.h"

namespace ref
{

using IF = Image::Format;
using cuttlefish::ColorSpace;
using cuttlefish::ColorRGBAd;

enum class IK {Norm, UInt, SInt, F32, F64};

struct IComp {int ch; unsigned bits, shift;};

struct ILayout
{
	IF f;
	const char* name;
	unsigned bytes;
	IK kind;
	std::vector<IComp> comps;
	bool gray;  // one channel that grayscale conversion applies to
	bool masks; // masks and shifts are advertised
	bool alpha;
	bool single() const {return comps.size() == 1;}
	bool has(int ch) const {for (auto& c : comps) if (c.ch == ch) return true; return false;}
	const IComp* comp(int ch) const {for (auto& c : comps) if (c.ch == ch) return &c; return nullptr;}
};

inline const std::vector<ILayout>& imageLayouts()
{
	static const std::vector<ILayout> l{
		{IF::Gray8, "Gray8", 1, IK::Norm, {{0, 8, 0}}, true, false, false},
		{IF::Gray16, "Gray16", 2, IK::Norm, {{0, 16, 0}}, true, false, false},
		{IF::RGB5, "RGB5", 2, IK::Norm, {{0, 5, 10}, {1, 5, 5}, {2, 5, 0}}, false, true, false},
		{IF::RGB565, "RGB565", 2, IK::Norm, {{0, 5, 11}, {1, 6, 5}, {2, 5, 0}}, false, true, false},
		{IF::RGB8, "RGB8", 3, IK::Norm, {{0, 8, 16}, {1, 8, 8}, {2, 8, 0}}, false, true, false},
		{IF::RGB16, "RGB16", 6, IK::Norm, {{0, 16, 0}, {1, 16, 16}, {2, 16, 32}}, false, false, false},
		{IF::RGBF, "RGBF", 12, IK::F32, {{0, 32, 0}, {1, 32, 32}, {2, 32, 64}}, false, false, false},
		{IF::RGBA8, "RGBA8", 4, IK::Norm, {{0, 8, 16}, {1, 8, 8}, {2, 8, 0}, {3, 8, 24}}, false, true, true},
		{IF::RGBA16, "RGBA16", 8, IK::Norm, {{0, 16, 0}, {1, 16, 16}, {2, 16, 32}, {3, 16, 48}}, false, false, true},
		{IF::RGBAF, "RGBAF", 16, IK::F32, {{0, 32, 0}, {1, 32, 32}, {2, 32, 64}, {3, 32, 96}}, false, false, true},
		{IF::Int16, "Int16", 2, IK::SInt, {{0, 16, 0}}, false, false, false},
		{IF::UInt16, "UInt16", 2, IK::UInt, {{0, 16, 0}}, false, false, false},
		{IF::Int32, "Int32", 4, IK::SInt, {{0, 32, 0}}, false, false, false},
		{IF::UInt32, "UInt32", 4, IK::UInt, {{0, 32, 0}}, false, false, false},
		{IF::Float, "Float", 4, IK::F32, {{0, 32, 0}}, true, false, false},
		{IF::Double, "Double", 8, IK::F64, {{0, 64, 0}}, true, false, false},
		{IF::Complex, "Complex", 16, IK::F64, {{0, 64, 0}, {1, 64, 64}}, false, false, false},
	};
	return l;
}

inline const ILayout& ilayout(IF f)
{
	for (auto& l : imageLayouts())
		if (l.f == f)
			return l;
	std::abort();
}

struct Px {double v[4];};

inline double decodeI(const ILayout& l, const IComp& c, uint64_t raw)
{
	switch (l.kind)
	{
		case IK::Norm: return (double)raw/(double)((1ull << c.bits) - 1);
		case IK::UInt: return (double)raw;
		case IK::SInt: return (double)signExtend(raw, c.bits);
		case IK::F32: return bitsToFloat((uint32_t)raw);
		case IK::F64: {double d; std::memcpy(&d, &raw, 8); return d;}
	}
	return 0;
}

// Reads a pixel straight from the scanline bytes.
inline Px readRaw(const ILayout& l, const void* scan, unsigned x)
{
	const uint8_t* p = (const uint8_t*)scan + (size_t)x*l.bytes;
	Px r{{0, 0, 0, 1}};
	for (auto& c : l.comps)
		r.v[c.ch] = decodeI(l, c, field(p, l.bytes, c.shift, c.bits));
	if (l.single())
		r.v[1] = r.v[2] = r.v[0];
	return r;
}

inline std::vector<uint8_t> bytesOf(const Image& img)
{
	std::vector<uint8_t> r;
	if (!img.isValid())
		return r;
	size_t row = (size_t)img.width()*ilayout(img.format()).bytes;
	r.resize(row*img.height());
	for (unsigned y = 0; y < img.height(); ++y)
		std::memcpy(r.data() + row*y, img.scanline(y), row);
	return r;
}

// What an image says about its bits is a matter of its format alone, however it was made and whatever it shows.
inline void checkMasks(const Image& i, const std::string& how)
{
	if (!i.isValid()) return;
	const ILayout& l = ilayout(i.format());
	uint64_t got[] = {i.redMask(), i.greenMask(), i.blueMask(), i.alphaMask(), i.redShift(), i.greenShift(), i.blueShift(), i.alphaShift()};
	uint64_t want[8] = {};
	if (l.masks)
		for (auto& c : l.comps)
		{
			want[c.ch] = ((1ull << c.bits) - 1) << c.shift;
			want[c.ch + 4] = c.shift;
		}
	else
	{
		const Image f(i.format(), 2, 1);
		uint64_t fresh[] = {f.redMask(), f.greenMask(), f.blueMask(), f.alphaMask(), f.redShift(), f.greenShift(), f.blueShift(),
			f.alphaShift()};
		std::memcpy(want, fresh, sizeof want);
	}
	bool same = i.bitsPerPixel() == l.bytes*8;
	for (int k = 0; k < 8; ++k) same &= got[k] == want[k];
	vh::eval();
	if (!same)
		vh::violation("masks:" + how + ":" + l.name, vh::fmt("an image of %s %s advertises masks %llx %llx %llx %llx, shifts %u %u %u %u, %u bits",
			l.name, how.c_str(), (unsigned long long)got[0], (unsigned long long)got[1], (unsigned long long)got[2], (unsigned long long)got[3],
			(unsigned)got[4], (unsigned)got[5], (unsigned)got[6], (unsigned)got[7], i.bitsPerPixel()));
}

inline std::vector<Px> pixelsOf(const Image& img)
{
	std::vector<Px> r;
	const ILayout& l = ilayout(img.format());
	for (unsigned y = 0; y < img.height(); ++y)
		for (unsigned x = 0; x < img.width(); ++x)
			r.push_back(readRaw(l, img.scanline(y), x));
	return r;
}

inline double lum(double r, double g, double b) {return 0.2126*r + 0.7152*g + 0.0722*b;}
inline double toLin(double c) {return c <= 0.04045 ? c/12.92 : std::pow((c + 0.055)/1.055, 2.4);}
inline double toSrgb(double c) {return c <= 0.0031308 ? c*12.92 : 1.055*std::pow(c, 1/2.4) - 0.055;}

// Distance between two representable values near v.
inline double stepOf(const ILayout& l, const IComp& c, double v)
{
	switch (l.kind)
	{
		case IK::Norm: return 1.0/(double)((1ull << c.bits) - 1);
		case IK::UInt:
		case IK::SInt: return 1;
		case IK::F32: return std::max(std::fabs(v)*std::ldexp(1.0, -23), std::ldexp(1.0, -149));
		case IK::F64: return std::max(std::fabs(v)*std::ldexp(1.0, -52), std::ldexp(1.0, -1074));
	}
	return 0;
}

inline double rangeLo(const ILayout& l, const IComp& c)
{
	switch (l.kind)
	{
		case IK::Norm: case IK::UInt: return 0;
		case IK::SInt: return -std::ldexp(1.0, (int)c.bits - 1);
		default: return -INFINITY;
	}
}

inline double rangeHi(const ILayout& l, const IComp& c)
{
	switch (l.kind)
	{
		case IK::Norm: return 1;
		case IK::UInt: return std::ldexp(1.0, (int)c.bits) - 1;
		case IK::SInt: return std::ldexp(1.0, (int)c.bits - 1) - 1;
		default: return INFINITY;
	}
}

// Whether storing want in channel c may give got. slack is in addition, in value units.
inline bool storedOk(const ILayout& l, const IComp& c, double want, double got, double slack = 0, bool nearest = false)
{
	if (std::isnan(want))
		return l.kind == IK::F32 || l.kind == IK::F64 ? std::isnan(got) || slack > 0 : true;
	double w = std::min(std::max(want, rangeLo(l, c)), rangeHi(l, c));
	if (l.kind == IK::F32 && std::fabs(w) >= 3.4028235677973366e38)
		return std::isinf(got) && std::signbit(got) == std::signbit(w);
	if (std::isinf(w))
		return w == got || slack == INFINITY;
	if (l.kind == IK::Norm)
		return std::fabs(got - w) <= 0.5*stepOf(l, c, w)*(1 + 1e-9) + 1e-12 + slack;
	if (l.kind == IK::UInt || l.kind == IK::SInt)
	{
		if (nearest) return std::fabs(got - w) <= 0.5 + 1e-9 + std::fabs(w)*1e-13 + slack;
		// Integers truncate or round; an integral value (up to arithmetic noise) is exact.
		double n = std::floor(w + 0.5);
		if (std::fabs(w - n) < std::max(1e-9, std::fabs(w)*1e-13) && w == n)
			return std::fabs(got - n) <= slack;
		return std::fabs(got - w) < 1 + 1e-9 + slack;
	}
	return std::fabs(got - w) <= 0.5*stepOf(l, c, w)*(1 + 1e-9) + (l.kind == IK::F64 ? std::fabs(w)*1e-14 : 0) + slack;
}

inline const char* csName(ColorSpace c) {return c == ColorSpace::sRGB ? "sRGB" : "Linear";}

// Random pixel value for one channel: raw bits for integers, tame or hostile floats.
// Floats are lo..hi; normalised integers only use nlo..nhi of their range.
inline void fillRandom(Image& img, vh::Rng& rng, bool hostile, double hi = 1.0, double lo = 0.0, double nlo = 0.0, double nhi = 1.0)
{
	const ILayout& l = ilayout(img.format());
	// Some images are smooth, some noisy, some have few distinct values.
	unsigned mode = (unsigned)rng.below(4);
	for (unsigned y = 0; y < img.height(); ++y)
	{
		uint8_t* p = (uint8_t*)img.scanline(y);
		for (unsigned x = 0; x < img.width(); ++x, p += l.bytes)
		{
			for (auto& c : l.comps)
			{
				double u = mode == 0 ? rng.unit() : mode == 1 ? (double)((x*7 + y*13 + (unsigned)c.ch*5) % 64)/63.0 :
					mode == 2 ? (double)rng.below(3)/2 : rng.chance(0.5) ? rng.unit()*0.06 : rng.unit();
				uint64_t raw = 0;
				switch (l.kind)
				{
					case IK::Norm: raw = (uint64_t)((nlo + u*(nhi - nlo))*(double)((1ull << c.bits) - 1) + 0.5); break;
					case IK::UInt: raw = (uint64_t)((nlo + u*(nhi - nlo))*rangeHi(l, c)); if (nlo == 0 && rng.chance(0.3)) raw = rng.below(300); break;
					case IK::SInt:
					{
						double d = (2*u - 1)*rangeHi(l, c);
						if (rng.chance(0.1)) d = rangeLo(l, c);
						if (rng.chance(0.3)) d = (double)rng.range(-200, 200);
						raw = (uint64_t)(int64_t)d;
						break;
					}
					case IK::F32:
					{
						float f = (float)(lo + u*(hi - lo));
						if (hostile && rng.chance(0.1))
						{
							static const float h[] = {NAN, INFINITY, -INFINITY, -1.f, 1e30f, -1e30f, 1e-40f, 2.f, -0.f, 1e10f, 3e9f,
								-5e9f, 70000.f, 1.0000001f};
							f = rng.pick(h);
						}
						raw = floatToBits(f);
						break;
					}
					case IK::F64:
					{
						double f = lo + u*(hi - lo);
						if (hostile && rng.chance(0.1))
						{
							static const double h[] = {NAN, INFINITY, -INFINITY, -1, 1e300, -1e300, 1e-310, 2, -0.0, 1e10, 5e9, 1e39};
							f = rng.pick(h);
						}
						std::memcpy(&raw, &f, 8);
						break;
					}
				}
				unsigned o = c.shift/8;
				if (c.bits % 8)
				{
					uint16_t w;
					std::memcpy(&w, p, 2);
					unsigned m = ((1u << c.bits) - 1) << c.shift;
					w = (uint16_t)((w & ~m) | ((raw << c.shift) & m));
					std::memcpy(p, &w, 2);
				}
				else
					std::memcpy(p + o, &raw, c.bits/8);
			}
			if (l.f == IF::RGB5)
				p[1] &= 0x7F;
		}
	}
}

inline std::string pxs(const Px& p) {return vh::fmt("(%.9g %.9g %.9g %.9g)", p.v[0], p.v[1], p.v[2], p.v[3]);}

} // namespace ref
