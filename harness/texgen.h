// Random converted textures together with the pixels they were made from.
#pragma once
#include "iref.h"

namespace ref
{

struct Surf {unsigned w = 0, h = 0; std::vector<float> px;}; // RGBA, row-major, four floats per pixel

struct TexSpec
{
	Texture::Dimension dim = Texture::Dimension::Dim2D;
	unsigned w = 1, h = 1, depth = 0, mips = 1; // depth as given to initialize
	ColorSpace cs = ColorSpace::Linear;
	const Layout* l = nullptr;
	T type = T::UNorm;
	Texture::Alpha alpha = Texture::Alpha::Standard;
	bool array() const {return dim != Texture::Dimension::Dim3D && depth > 0;}
	unsigned faces() const {return dim == Texture::Dimension::Cube ? 6 : 1;}
	unsigned lw(unsigned m) const {return std::max(1u, w >> m);}
	unsigned lh(unsigned m) const {return std::max(1u, h >> m);}
	unsigned ld(unsigned m) const
	{
		if (dim == Texture::Dimension::Dim3D) return std::max(1u, std::max(1u, depth) >> m);
		return std::max(1u, depth);
	}
	std::string str() const
	{
		static const char* d[] = {"1D", "2D", "3D", "Cube"};
		return vh::fmt("%s %ux%u depth %u mips %u %s %s %s", d[(int)dim], w, h, depth, mips, csName(cs), l ? l->name : "-",
			typeName(type));
	}
	std::string shape() const
	{
		static const char* d[] = {"1D", "2D", "3D", "Cube"};
		return std::string(d[(int)dim]) + (array() ? "array" : "") + (mips > 1 ? "+mips" : "");
	}
};

// Surfaces by [level][depth][face].
using Surfaces = std::vector<std::vector<std::vector<Surf>>>;

inline unsigned maxLevels(const TexSpec& s)
{
	unsigned m = std::max(s.w, s.h), n = 1;
	if (s.dim == Texture::Dimension::Dim3D) m = std::max(m, std::max(1u, s.depth));
	while (m > 1) {m >>= 1; ++n;}
	return n;
}

inline float drawChannel(vh::Rng& rng, const Layout& l, T type, unsigned bits)
{
	switch (type)
	{
		case T::UNorm: return rng.chance(0.05) ? (float)rng.uniform(-1, 2) : (float)rng.unit();
		case T::SNorm: return (float)rng.uniform(-1.05, 1.05);
		case T::UInt: return rng.chance(0.05) ? -5.0f : (float)std::floor(rng.uniform(0, std::ldexp(1.0, (int)std::min(bits, 24u))));
		case T::Int: return (float)std::floor(rng.uniform(-std::ldexp(1.0, (int)std::min(bits - 1, 24u)),
			std::ldexp(1.0, (int)std::min(bits - 1, 24u))));
		case T::UFloat: return (float)(rng.unit()*std::pow(2.0, rng.range(-6, 8)));
		default: return (float)(rng.uniform(-1, 1)*std::pow(2.0, rng.range(-6, 8)));
	}
}

inline Surf drawSurf(vh::Rng& rng, const TexSpec& s, unsigned w, unsigned h)
{
	Surf r;
	r.w = w; r.h = h;
	r.px.resize((size_t)w*h*4);
	unsigned bits[4] = {8, 8, 8, 8};
	for (auto& c : s.l->comps) bits[c.ch] = c.bits;
	for (size_t i = 0; i < r.px.size(); ++i)
		r.px[i] = drawChannel(rng, *s.l, s.type, bits[i % 4]);
	return r;
}

inline Image toImage(const Surf& s, ColorSpace cs)
{
	Image img(Image::Format::RGBAF, s.w, s.h, cs);
	for (unsigned y = 0; y < s.h; ++y)
		std::memcpy(img.scanline(y), s.px.data() + (size_t)y*s.w*4, (size_t)s.w*16);
	return img;
}

inline bool drawSpec(vh::Rng& rng, TexSpec& s, const Layout* l, T type, unsigned maxSize = 24)
{
	s.l = l;
	s.type = type;
	s.dim = (Texture::Dimension)rng.below(4);
	auto sz = [&]() -> unsigned
	{
		if (rng.chance(0.2)) return 1;
		if (rng.chance(0.3)) return 1u << rng.below(5);
		return 1 + (unsigned)rng.below(maxSize);
	};
	s.w = sz();
	s.h = s.dim == Texture::Dimension::Dim1D ? 1 : s.dim == Texture::Dimension::Cube ? s.w : sz();
	if (rng.chance(0.03))
	{
		s.w = 100 + (unsigned)rng.below(300);
		s.h = s.dim == Texture::Dimension::Dim1D ? 1 : s.dim == Texture::Dimension::Cube ? (s.w = 100 + s.w % 40) : 1 + (unsigned)rng.below(3);
		if (s.dim == Texture::Dimension::Dim2D && rng.chance(0.5)) std::swap(s.w, s.h);
	}
	if (s.dim == Texture::Dimension::Dim3D)
		s.depth = rng.chance(0.05) ? 30 + (unsigned)rng.below(40) : rng.chance(0.2) ? 1 : 1 + (unsigned)rng.below(7);
	else
		s.depth = rng.chance(0.5) ? 0 : rng.chance(0.03) ? 20 + (unsigned)rng.below(30) : 1 + (unsigned)rng.below(4);
	if (maxSize > 9 && rng.chance(0.004))
	{
		// Beyond what fits into 8 and 16 bits.
		bool flat = s.dim == Texture::Dimension::Dim1D || s.dim == Texture::Dimension::Dim2D;
		switch (rng.below(3))
		{
			case 0:
				s.w = flat ? rng.chance(0.5) ? 1u << rng.range(9, 16) : 700 + (unsigned)rng.below(70000) : 100 + (unsigned)rng.below(200);
				s.h = s.dim == Texture::Dimension::Cube ? s.w : 1;
				if (s.dim == Texture::Dimension::Dim2D && rng.chance(0.5)) std::swap(s.w, s.h);
				s.depth = std::min(s.depth, 2u);
				break;
			case 1:
				s.w = 200 + (unsigned)rng.below(120);
				s.h = s.dim == Texture::Dimension::Dim1D ? 1 : s.dim == Texture::Dimension::Cube ? s.w : 200 + (unsigned)rng.below(120);
				s.depth = std::min(s.depth, 1u);
				break;
			default:
				s.w = 1 + (unsigned)rng.below(3);
				s.h = s.dim == Texture::Dimension::Dim1D ? 1 : s.dim == Texture::Dimension::Cube ? s.w : 1 + (unsigned)rng.below(3);
				s.depth = 200 + (unsigned)rng.below(900);
				break;
		}
	}
	unsigned mx = maxLevels(s);
	s.mips = rng.chance(0.35) ? 1 : rng.chance(0.5) ? mx : 1 + (unsigned)rng.below(mx);
	s.cs = l->srgb && type == T::UNorm && rng.chance(0.5) ? ColorSpace::sRGB : ColorSpace::Linear;
	s.alpha = (Texture::Alpha)rng.below(4);
	return true;
}

// Initialises the texture and gives every image different noise.
inline bool fillTexture(vh::Rng& rng, const TexSpec& s, Texture& t, Surfaces& out)
{
	if (!t.initialize(s.dim, s.w, s.h, s.depth, s.mips, s.cs))
		return false;
	out.resize(s.mips);
	// In any order.
	struct At {unsigned m, d, f;};
	std::vector<At> order;
	for (unsigned m = 0; m < s.mips; ++m)
	{
		out[m].assign(s.ld(m), std::vector<Surf>(s.faces()));
		for (unsigned d = 0; d < s.ld(m); ++d)
			for (unsigned f = 0; f < s.faces(); ++f)
				order.push_back({m, d, f});
	}
	for (size_t i = order.size(); i > 1; --i)
		std::swap(order[i - 1], order[rng.below(i)]);
	for (auto& a : order)
	{
		Surf sf = drawSurf(rng, s, s.lw(a.m), s.lh(a.m));
		Image img = toImage(sf, s.cs);
		bool ok = s.dim == Texture::Dimension::Cube || rng.chance(0.5) ?
			t.setImage(img, (Texture::CubeFace)a.f, a.m, a.d) : t.setImage(img, a.m, a.d);
		if (!ok)
			return false;
		out[a.m][a.d][a.f] = std::move(sf);
	}
	return t.imagesComplete();
}

// Compares bytes decoded with l/type (which may come from a file's header) with the pixels.
inline std::string checkSurf(const Layout& l, T type, const Surf& s, const uint8_t* data, size_t rowStride)
{
	for (unsigned y = 0; y < s.h; ++y)
		for (unsigned x = 0; x < s.w; ++x)
		{
			std::string r = checkPixel(l, type, &s.px[((size_t)y*s.w + x)*4], data + y*rowStride + (size_t)x*l.bytes);
			if (!r.empty())
				return vh::fmt("pixel %u,%u: %s", x, y, r.c_str());
		}
	return "";
}

inline const Layout* anyLayout(vh::Rng& rng, T& type)
{
	const Layout& l = layouts()[rng.below(layouts().size())];
	type = l.types[rng.below(l.types.size())];
	return &l;
}

} // namespace ref
