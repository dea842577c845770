// C26: the block-compressed formats with recording stand-ins for the encoders. What each encoder was given, where its blocks
// end up, and what the containers say about them.
#include "blocks.h"
#include "stubs/stub.h"
#include <array>
#include <sstream>
using namespace ref;
using namespace cuttlefish;
using vh::Rng;
using vh::fmt;
using stub::Rec;
using FT = Texture::FileType;

int cmpLive();

namespace
{
double clampd(double v, double lo, double hi) {return v != v ? lo : std::min(std::max(v, lo), hi);}

double half(double bits)
{
	unsigned u = (unsigned)bits, e = (u >> 10) & 31, m = u & 1023;
	double s = u & 0x8000 ? -1 : 1;
	if (e == 31) return m ? NAN : s*INFINITY;
	return e ? s*std::ldexp(1024.0 + m, (int)e - 25) : s*std::ldexp((double)m, -24);
}

// Whether the value an encoder was given for a channel stands for the pixel's.
bool same(const std::string& fn, T type, unsigned ch, double given, double want)
{
	if (want != want) return true; // NaN: nothing in particular, so long as nothing else is disturbed.
	if (fn == "bc1" || fn == "bc3" || fn == "bc4" || fn == "bc5" || fn == "bc7" || fn == "squish" || fn == "pvrtc")
		return std::fabs(given - clampd(want, 0, 1)*255) <= 0.5 + 1e-4;
	if (fn == "bc4s" || fn == "bc5s")
		return std::fabs(given - clampd(want, -1, 1)*127) <= 0.5 + 1e-4;
	if (fn == "bc6h")
	{
		double h = half(given);
		if (std::fabs(want) > 65000) return std::fabs(h) > 64900 && (h > 0) == (want > 0);
		return std::fabs(h - want) <= std::max(std::ldexp(1.0, -25), std::fabs(want)*std::ldexp(1.0, -11))*1.001;
	}
	if (fn == "etc")
	{
		if (type == T::SNorm)
		{
			if (ch > 1) return true;
			want = want*0.5 + 0.5;
		}
		return given == want || std::fabs(given - want) <= 1e-6*std::max(1.0, std::fabs(want));
	}
	return given == (double)(float)want; // astc
}

double effort(const Rec& r)
{
	if (r.fn == "bc7") return r.opt[1]*1000 + r.opt[0] + r.opt[3]; // uber level, then partitions
	if (r.fn == "bc3") return r.opt[0] + r.opt[1];
	if (r.fn == "bc1" || r.fn == "bc4" || r.fn == "bc5" || r.fn == "bc4s" || r.fn == "bc5s" || r.fn == "bc6h" || r.fn == "squish" ||
		r.fn == "etc" || r.fn == "astc" || r.fn == "pvrtc")
		return r.opt[0];
	return 0;
}

struct Ctx
{
	const Block& b;
	TexSpec s;
	Texture::ColorMask mask;
	Texture::Quality q;
	std::string str() const {return s.str() + fmt(" quality %d alpha %d mask %d%d%d%d", (int)q, (int)s.alpha, mask.r, mask.g, mask.b, mask.a);}
	std::string key(const char* k) const {return fmt("%s:%s", k, b.l.name);}
};

// Options that change what a decoder will see, or which channels matter.
void checkOptions(const Ctx& c, const Rec& r, bool transparent)
{
	const auto& o = r.opt;
	F f = c.b.l.format;
	bool srgb = c.s.cs == ColorSpace::sRGB;
	if (r.fn == "bc1")
	{
		// Three-colour blocks do not exist in BC2, and their black is transparent in BC1 with alpha.
		if (f == F::BC2) VH_CHECK(!o[1] && !o[2], c.key("mode"), "%s: three-colour blocks in BC2", c.str().c_str());
		if (f == F::BC1_RGBA) VH_CHECK(!o[2] && !transparent, c.key("mode"), "%s: transparent %d, black as transparent %g",
			c.str().c_str(), transparent, o[2]);
	}
	else if (r.fn == "squish")
	{
		VH_CHECK(o[1] == 1, c.key("mode"), "%s: squish flags", c.str().c_str());
		for (int i = 0; i < 3; ++i)
		{
			bool m = i == 0 ? c.mask.r : i == 1 ? c.mask.g : c.mask.b;
			VH_CHECK((o[2 + i] > 0) == m, c.key("weights"), "%s: weight %g of channel %d", c.str().c_str(), o[2 + i], i);
		}
		if (c.mask.r && c.mask.g && c.mask.b)
			VH_CHECK(srgb ? o[3] > o[2] && o[2] > o[4] : o[2] == o[3] && o[3] == o[4], c.key("weights"), "%s: weights %g %g %g",
				c.str().c_str(), o[2], o[3], o[4]);
	}
	else if (r.fn == "bc7")
	{
#if !CUTTLEFISH_ISPC
		bool m[] = {c.mask.r, c.mask.g, c.mask.b, c.mask.a};
		for (int i = 0; i < 4; ++i)
			VH_CHECK((o[5 + i] > 0) == m[i], c.key("weights"), "%s: weight %g of channel %d", c.str().c_str(), o[5 + i], i);
		if (!srgb || c.q >= Texture::Quality::Normal)
#endif
			VH_CHECK((o[2] != 0) == srgb, c.key("perceptual"), "%s: perceptual %g", c.str().c_str(), o[2]);
	}
	else if (r.fn == "bc6h")
		VH_CHECK(o[1] == (c.s.type == T::Float), c.key("sign"), "%s: signed %g", c.str().c_str(), o[1]);
	else if (r.fn == "etc")
	{
		// By the encoder's own numbering: ETC1 1, RGB8 2, RGBA8 4, R11 6, signed 7, RG11 8, signed 9, RGB8A1 10.
		int want = f == F::ETC1 ? 1 : f == F::ETC2_R8G8B8 ? 2 : f == F::ETC2_R8G8B8A8 ? 4 : f == F::ETC2_R8G8B8A1 ? 10 :
			(f == F::EAC_R11 ? 6 : 8) + (c.s.type == T::SNorm);
		VH_CHECK((int)o[1] == want, c.key("etcformat"), "%s: etc format %g", c.str().c_str(), o[1]);
		bool eac = f == F::EAC_R11 || f == F::EAC_R11G11;
		// RGBA 0, RGBX 1, REC709 2, NUMERIC 3
		VH_CHECK(eac ? o[2] == 3 : srgb ? o[2] == 2 : o[2] == (c.b.l.alpha ? 0 : 1), c.key("metric"), "%s: metric %g", c.str().c_str(),
			o[2]);
	}
	else if (r.fn == "astc")
	{
		bool m[] = {c.mask.r, c.mask.g, c.mask.b, c.mask.a};
		for (int i = 0; i < 4; ++i)
		{
			double want = !m[i] ? 4 : i == 3 && c.s.alpha == Texture::Alpha::None ? 5 : i;
			VH_CHECK(o[3 + i] == want, c.key("swizzle"), "%s: channel %d is swizzled to %g", c.str().c_str(), i, o[3 + i]);
		}
		int profile = (int)o[1];
		VH_CHECK(c.s.type == T::UFloat ? profile == 2 || profile == 3 : profile <= 1, c.key("profile"), "%s: profile %d", c.str().c_str(),
			profile);
		if (c.s.type == T::UFloat && c.s.alpha == Texture::Alpha::Encoded)
			VH_CHECK(profile == 3, c.key("profile"), "%s: profile %d", c.str().c_str(), profile);
		VH_CHECK((((unsigned)o[2] & 4) != 0) == (c.s.alpha == Texture::Alpha::Standard || c.s.alpha == Texture::Alpha::PreMultiplied),
			c.key("alphaweight"), "%s: flags %g", c.str().c_str(), o[2]);
		VH_CHECK((((unsigned)o[2] & 8) != 0) == srgb, c.key("perceptual"), "%s: flags %g", c.str().c_str(), o[2]);
	}
	else if (r.fn == "pvrtc")
	{
		unsigned want = (unsigned)f - (unsigned)F::PVRTC1_RGB_2BPP;
		VH_CHECK(o[1] == want && o[2] == 1, c.key("pvrtcformat"), "%s: format %g", c.str().c_str(), o[1]);
		VH_CHECK((o[3] != 0) == (c.s.alpha == Texture::Alpha::PreMultiplied), c.key("premultiplied"), "%s: %g", c.str().c_str(), o[3]);
	}
}

unsigned blocksAcross(const Ctx& c, unsigned w) {unsigned n = (w + c.b.bw - 1)/c.b.bw; return c.b.pvrtc ? std::max(2u, n) : n;}
unsigned blocksDown(const Ctx& c, unsigned h) {unsigned n = (h + c.b.bh - 1)/c.b.bh; return c.b.pvrtc ? std::max(2u, n) : n;}
size_t surfSize(const Ctx& c, unsigned m) {return (size_t)blocksAcross(c, c.s.lw(m))*blocksDown(c, c.s.lh(m))*c.b.size;}

// Every block of a surface against the pixels it covers.
double checkSurface(const Ctx& c, const Surf& sf, const uint8_t* data, size_t size, const std::string& at)
{
	double eff = -1;
	std::set<std::string> seen;
	uint64_t nblocks = 0;
	unsigned nx = blocksAcross(c, sf.w), ny = blocksDown(c, sf.h);
	VH_CHECK(size == (size_t)nx*ny*c.b.size, c.key("size"), "%s %s: %zu bytes for %ux%u blocks", c.str().c_str(), at.c_str(), size, nx, ny);
	if (size != (size_t)nx*ny*c.b.size)
		return eff;
	for (unsigned by = 0; by < ny; ++by)
		for (unsigned bx = 0; bx < nx; ++bx)
		{
			const uint8_t* p = data + ((size_t)by*nx + bx)*c.b.size;
			const uint8_t* coded = p;
			unsigned codedSize = c.b.size;
			if (c.b.l.format == F::BC2)
			{
				coded += 8;
				codedSize = 8;
			}
			Rec r;
			if (c.b.pvrtc && (bx || by))
			{
				vh::eval();
				if (std::memcmp(p, data, 8))
					vh::violation(c.key("block"), c.str() + " " + at + ": the encoder's output was disturbed");
				continue;
			}
			bool found = stub::find(coded, codedSize, r);
			VH_CHECK(found, c.key("block"), "%s %s block %u,%u: not the output of any encoder call", c.str().c_str(), at.c_str(), bx, by);
			if (!found) continue;
			bool fnOk = std::find(c.b.fns.begin(), c.b.fns.end(), r.fn) != c.b.fns.end();
			if (c.b.fns.size() == 2 && c.b.l.types.size() == 2)
				fnOk = r.fn == c.b.fns[c.s.type == T::SNorm];
			VH_CHECK(fnOk, c.key("encoder"), "%s %s block %u,%u: encoded with %s", c.str().c_str(), at.c_str(), bx, by, r.fn.c_str());
			if (!fnOk) continue;
			bool whole = c.b.pvrtc;
			unsigned x0 = bx*c.b.bw, y0 = by*c.b.bh;
			unsigned wantW = whole ? sf.w : r.fn == "etc" ? std::min(c.b.bw, sf.w - x0) : c.b.bw;
			unsigned wantH = whole ? sf.h : r.fn == "etc" ? std::min(c.b.bh, sf.h - y0) : c.b.bh;
			VH_CHECK(r.w == wantW && r.h == wantH, c.key("dimensions"), "%s %s block %u,%u: given %ux%u pixels", c.str().c_str(), at.c_str(),
				bx, by, r.w, r.h);
			if (r.w != wantW || r.h != wantH) continue;
			bool transparent = false;
			for (unsigned y = 0; y < r.h; ++y)
				for (unsigned x = 0; x < r.w; ++x)
				{
					// Past the edge, the nearest pixel there is.
					unsigned sx = std::min(x0 + x, sf.w - 1), sy = std::min(y0 + y, sf.h - 1);
					const float* want = &sf.px[((size_t)sy*sf.w + sx)*4];
					if (want[3] < 0.5f) transparent = true;
					for (auto& comp : c.b.l.comps)
					{
						unsigned ch = (unsigned)comp.ch;
						if (ch >= r.ch) continue; // BC2's alpha is not the encoder's.
						double g = r.px[((size_t)y*r.w + x)*r.ch + ch];
						vh::eval();
						if (!same(r.fn, c.s.type, ch, g, want[ch]))
						{
							vh::violation(c.key(sx == x0 + x && sy == y0 + y ? "pixels" : "padding"), c.str() + " " + at +
								fmt(" block %u,%u pixel %u,%u channel %u: %s was given %.9g for %.9g", bx, by, x, y, ch, r.fn.c_str(), g,
									want[ch]));
							y = r.h - 1; x = r.w - 1;
							break;
						}
					}
					if (c.b.l.format == F::BC2)
					{
						unsigned i = y*4 + x;
						double a = (p[i/2] >> (4*(i & 1)) & 15)/15.0;
						VH_CHECK(want[3] != want[3] || std::fabs(a - clampd(want[3], 0, 1)) <= 0.5/15 + 0.5/255 + 1e-6, c.key("alpha"),
							"%s %s block %u,%u pixel %u,%u: alpha %g for %g", c.str().c_str(), at.c_str(), bx, by, x, y, a, want[3]);
					}
				}
			checkOptions(c, r, transparent);
			if (c.b.l.format == F::BC1_RGBA)
				VH_CHECK(!transparent || r.fn == "squish", c.key("encoder"), "%s %s block %u,%u: transparent pixels given to %s",
					c.str().c_str(), at.c_str(), bx, by, r.fn.c_str());
			bool partial = x0 + c.b.bw > sf.w || y0 + c.b.bh > sf.h;
			seen.insert(r.fn + (partial ? ":edge" : ""));
			++nblocks;
			if (!(c.b.l.format == F::BC1_RGBA && r.fn == "bc1")) eff = effort(r);
		}
	for (auto& k : seen)
		vh::cover(fmt("%s:%s:%s:q%d", c.b.l.name, typeName(c.s.type), k.c_str(), (int)c.q));
	vh::count("blocks", nblocks);
	return eff;
}

// The containers, read back by field.
struct In
{
	const std::vector<uint8_t>& d;
	size_t p = 0;
	uint32_t u32() {uint32_t v = 0; if (p + 4 <= d.size()) std::memcpy(&v, &d[p], 4); p += 4; return v;}
	uint64_t u64() {uint64_t l = u32(); return l | (uint64_t)u32() << 32;}
};

void checkFile(const Ctx& c, Texture& t, FT ft, const char* name)
{
	bool second = c.b.l.types.size() == 2 && c.s.type == c.b.l.types[1];
	bool srgb = c.s.cs == ColorSpace::sRGB;
	bool supported = ft != FT::DDS || c.b.dxgi[0];
	VH_CHECK(Texture::isFormatValid(c.b.l.format, c.s.type, ft) == supported, c.key("support"), "%s: %s %s", c.str().c_str(), name,
		supported ? "should support it" : "should not");
	std::vector<uint8_t> d;
	auto res = t.save(d, ft);
	VH_CHECK((res == Texture::SaveResult::Success) == supported, c.key("save"), "%s: %s result %d", c.str().c_str(), name, (int)res);
	if (res != Texture::SaveResult::Success || !supported) return;
	In in{d};
	bool array = c.s.array(), cube = c.s.faces() == 6, d3 = c.s.dim == Texture::Dimension::Dim3D, d1 = c.s.dim == Texture::Dimension::Dim1D;
	std::string bad;
	auto need = [&](bool ok, const std::string& what) {vh::eval(); if (!ok && bad.empty()) bad = what;};
	auto eq = [&](uint64_t a, uint64_t b, const char* what) {need(a == b, fmt("%s is %llu, not %llu", what, (unsigned long long)a,
		(unsigned long long)b));};
	std::vector<size_t> where; // offset of each surface, in the order level, depth, face
	std::vector<std::array<unsigned, 3>> ids;
	for (unsigned m = 0; m < c.s.mips; ++m)
		for (unsigned dd = 0; dd < c.s.ld(m); ++dd)
			for (unsigned f = 0; f < c.s.faces(); ++f)
				ids.push_back({m, dd, f});
	auto index = [&](unsigned m, unsigned dd, unsigned f)
	{
		for (size_t i = 0; i < ids.size(); ++i) if (ids[i] == std::array<unsigned, 3>{m, dd, f}) return i;
		return (size_t)0;
	};
	where.resize(ids.size());
	if (ft == FT::DDS)
	{
		eq(in.u32(), 0x20534444, "magic");
		eq(in.u32(), 124, "size");
		uint32_t flags = in.u32(), h = in.u32(), w = in.u32(), pitch = in.u32(), depth = in.u32(), mips = in.u32();
		need((flags & 0x1007) == 0x1007, "flags");
		eq(w, c.s.w, "width"); eq(h, c.s.h, "height"); eq(mips, c.s.mips, "mips");
		if (d3) eq(depth, c.s.depth, "depth");
		// A block-compressed surface has no rows of pixels: its whole size is given.
		need((flags & 0x80008) == 0x80000, fmt("flags %x describe a pitch", flags));
		eq(pitch, surfSize(c, 0), "linear size");
		in.p = 4 + 124;
		eq(in.u32(), c.b.dxgi2 && second ? c.b.dxgi2 : c.b.dxgi[srgb], "DXGI format");
		eq(in.u32(), d1 ? 2 : d3 ? 4 : 3, "resource dimension");
		eq(in.u32() & 4, cube ? 4 : 0, "cube flag");
		eq(in.u32(), d3 ? 1 : std::max(1u, c.s.depth), "array size");
		in.u32();
		for (unsigned e = 0; e < (d3 ? 1 : std::max(1u, c.s.depth)); ++e)
			for (unsigned f = 0; f < c.s.faces(); ++f)
				for (unsigned m = 0; m < c.s.mips; ++m)
					for (unsigned z = 0; z < (d3 ? c.s.ld(m) : 1); ++z)
					{
						where[index(m, d3 ? z : e, f)] = in.p;
						in.p += surfSize(c, m);
					}
	}
	else if (ft == FT::KTX)
	{
		in.p = 12;
		eq(in.u32(), 0x04030201, "endianness");
		eq(in.u32(), 0, "glType");
		eq(in.u32(), 1, "glTypeSize");
		eq(in.u32(), 0, "glFormat");
		eq(in.u32(), second ? c.b.gl2 : c.b.gl[srgb], "glInternalFormat");
		eq(in.u32(), c.b.glBase, "glBaseInternalFormat");
		eq(in.u32(), c.s.w, "width"); eq(in.u32(), d1 ? 0 : c.s.h, "height"); eq(in.u32(), d3 ? c.s.depth : 0, "depth");
		eq(in.u32(), array ? c.s.depth : 0, "array elements"); eq(in.u32(), c.s.faces(), "faces"); eq(in.u32(), c.s.mips, "mips");
		in.p += in.u32();
		for (unsigned m = 0; m < c.s.mips; ++m)
		{
			uint32_t size = in.u32();
			size_t total = surfSize(c, m)*(cube && !array ? 1 : c.s.ld(m)*c.s.faces());
			eq(size, total, "imageSize");
			for (unsigned dd = 0; dd < c.s.ld(m); ++dd)
				for (unsigned f = 0; f < c.s.faces(); ++f)
				{
					where[index(m, dd, f)] = in.p;
					in.p += surfSize(c, m);
				}
		}
	}
	else
	{
		eq(in.u32(), 0x03525650, "version");
		eq(in.u32(), c.s.alpha == Texture::Alpha::PreMultiplied ? 2 : 0, "flags");
		uint64_t want = c.b.pvr;
		if ((c.b.l.format == F::BC2 || c.b.l.format == F::BC3) && c.s.alpha == Texture::Alpha::PreMultiplied) --want; // DXT2, DXT4
		eq(in.u64(), want, "pixel format");
		eq(in.u32(), srgb, "colour space");
		uint32_t ct = in.u32();
		bool isSigned = c.s.type == T::SNorm, flt = c.s.type == T::UFloat || c.s.type == T::Float;
		// Unsigned byte norm 0, signed 1, unsigned short norm 4, signed 5, float 12, unsigned float 13.
		need(flt ? ct == (c.s.type == T::Float ? 12u : 13u) : isSigned ? ct == 1 || ct == 5 : ct == 0 || ct == 4, fmt("channel type %u", ct));
		eq(in.u32(), c.s.h, "height"); eq(in.u32(), c.s.w, "width"); eq(in.u32(), d3 ? c.s.depth : 1, "depth");
		eq(in.u32(), array ? c.s.depth : 1, "surfaces"); eq(in.u32(), c.s.faces(), "faces"); eq(in.u32(), c.s.mips, "mips");
		uint32_t meta = in.u32();
		size_t end = in.p + meta;
		std::string saw;
		while (in.p + 12 <= end)
		{
			uint32_t cc = in.u32(), key = in.u32(), n = in.u32();
			eq(cc, 0x53465443, "metadata owner");
			saw += fmt("%08x,", key);
			in.p += n;
		}
		eq(in.p, end, "metadata size");
		std::string wantMeta;
		if (c.b.l.format == F::BC1_RGBA) wantMeta += fmt("%08x,", 0x41314342);
		if (c.b.l.format == F::BC1_RGB) wantMeta += fmt("%08x,", 0x00314342);
		if (array) wantMeta += fmt("%08x,", 0x59525241);
		if (d1) wantMeta += fmt("%08x,", 0x314D4944);
		need(saw == wantMeta, "metadata " + saw + " for " + wantMeta);
		for (unsigned m = 0; m < c.s.mips; ++m)
			for (unsigned dd = 0; dd < c.s.ld(m); ++dd)
				for (unsigned f = 0; f < c.s.faces(); ++f)
				{
					where[index(m, dd, f)] = in.p;
					in.p += surfSize(c, m);
				}
	}
	eq(in.p, d.size(), "file size");
	if (bad.empty())
		for (size_t i = 0; i < ids.size(); ++i)
		{
			auto& id = ids[i];
			need(!std::memcmp(d.data() + where[i], t.data((Texture::CubeFace)id[2], id[0], id[1]), surfSize(c, id[0])),
				fmt("surface level %u depth %u face %u", id[0], id[1], id[2]));
		}
	if (!bad.empty())
		vh::violation(fmt("%s:%s:%s", name, bad.substr(0, bad.find(' ')).c_str(), c.b.l.name), c.str() + ": " + bad);
	vh::count("files");
	vh::cover(fmt("%s:%s:%s:%s", name, c.b.l.name, typeName(c.s.type), c.s.shape().c_str()));
}

void c26(uint64_t idx, Rng& rng)
{
	const auto& all = blocks();
	static std::vector<std::pair<const Block*, T>> pairs;
	if (pairs.empty())
	{
		for (auto& b : all) for (T t : b.l.types) pairs.push_back({&b, t});
		for (auto& b : all)
			for (int t = 0; t <= (int)T::Float; ++t)
			{
				bool want = std::find(b.l.types.begin(), b.l.types.end(), (T)t) != b.l.types.end();
				VH_CHECK(Texture::isFormatValid(b.l.format, (T)t) == want, fmt("support:%s", b.l.name), "type %d", t);
			}
	}
	auto pr = pairs[idx % pairs.size()];
	Ctx c{*pr.first};
	drawSpec(rng, c.s, &c.b.l, pr.second, 30);
	// Now and then one with blocks for a great many threads.
	bool crowd = rng.chance(0.01);
	if (crowd)
	{
		c.s.dim = Texture::Dimension::Dim2D;
		c.s.w = 100 + (unsigned)rng.below(80);
		c.s.h = 90 + (unsigned)rng.below(80);
		c.s.depth = 0;
		c.s.mips = 1;
	}
	if (rng.chance(0.3)) c.mask = Texture::ColorMask(rng.chance(0.6), rng.chance(0.6), rng.chance(0.6), rng.chance(0.6));
	c.q = (Texture::Quality)rng.below(5);
	stub::clear();
	Texture t;
	Surfaces px;
	if (!fillTexture(rng, c.s, t, px)) {vh::violation("fill", c.str()); return;}
	if (rng.chance(0.1))
	{
		// Values no encoding has room for.
		unsigned m = (unsigned)rng.below(c.s.mips), d = (unsigned)rng.below(c.s.ld(m)), f = (unsigned)rng.below(c.s.faces());
		static const float hostile[] = {NAN, INFINITY, -INFINITY, 1e30f, -1e30f, 70000.0f, 1e-40f, -0.0f, 65504.0f, 65519.0f};
		Surf& sf = px[m][d][f];
		for (int i = 0; i < 6; ++i) sf.px[rng.below(sf.px.size())] = rng.pick(hostile);
		if (!t.setImage(toImage(sf, c.s.cs), (Texture::CubeFace)f, m, d)) {vh::violation("fill", c.str()); return;}
		vh::count("hostile surfaces");
	}
	Texture t2 = t, t3 = t;
	bool first = t.convert(c.s.l->format, c.s.type, c.q, c.s.alpha, c.mask, 1);
	VH_CHECK(first, c.key("convert"), "refused %s", c.str().c_str());
	if (!first) return;
	unsigned nsurf = 0;
	double eff = -1;
	for (unsigned m = 0; m < c.s.mips; ++m)
		for (unsigned d = 0; d < c.s.ld(m); ++d)
			for (unsigned f = 0; f < c.s.faces(); ++f)
			{
				const Texture& ct = t;
				double e = checkSurface(c, px[m][d][f], (const uint8_t*)ct.data((Texture::CubeFace)f, m, d),
					ct.dataSize((Texture::CubeFace)f, m, d), fmt("level %u depth %u face %u", m, d, f));
				if (e >= 0) eff = e;
				++nsurf;
			}
	// More threads, same blocks.
	unsigned threads = crowd || rng.chance(0.02) ? 60 + (unsigned)rng.below(140) : 2 + (unsigned)rng.below(7);
	if (crowd) {stub::setPause(2000); vh::count("crowded conversions");}
	bool again = t2.convert(c.s.l->format, c.s.type, c.q, c.s.alpha, c.mask, threads);
	stub::setPause(0);
	VH_CHECK(again, c.key("convert"), "refused %s", c.str().c_str());
	if (!again) return;
	for (unsigned m = 0; m < c.s.mips; ++m)
		for (unsigned d = 0; d < c.s.ld(m); ++d)
			for (unsigned f = 0; f < c.s.faces(); ++f)
			{
				auto ff = (Texture::CubeFace)f;
				VH_CHECK(t.dataSize(ff, m, d) == t2.dataSize(ff, m, d) && !std::memcmp(t.data(ff, m, d), t2.data(ff, m, d),
					t.dataSize(ff, m, d)), c.key("threads"), "%s: level %u depth %u face %u differs with %u threads", c.str().c_str(), m, d, f,
					threads);
			}
	// The same images again under other settings, straight after: nothing of the earlier conversion may stick. With nothing but
	// the quality changed, never more effort for less quality.
	auto& other = rng.chance(0.3) ? pairs[rng.below(pairs.size())] : pr;
	Ctx c2{*other.first};
	c2.s = c.s;
	c2.s.l = &c2.b.l;
	c2.s.type = other.second;
	c2.q = c.q;
	c2.mask = c.mask;
	unsigned what = 1 + (unsigned)rng.below(7);
	if (what & 1) c2.q = (Texture::Quality)rng.below(5);
	if (what & 2) c2.s.alpha = (Texture::Alpha)rng.below(4);
	if (what & 4) c2.mask = Texture::ColorMask(rng.chance(0.6), rng.chance(0.6), rng.chance(0.6), rng.chance(0.6));
	bool possible = c.s.cs == ColorSpace::Linear || (c2.b.l.srgb && c2.s.type == T::UNorm);
	bool second = t3.convert(c2.s.l->format, c2.s.type, c2.q, c2.s.alpha, c2.mask, 1 + (unsigned)rng.below(3));
	VH_CHECK(second == possible, c2.key("convert"), "%d for %s", second, c2.str().c_str());
	if (second)
	{
		double e2 = -1;
		for (unsigned m = 0; m < c.s.mips; ++m)
			for (unsigned d = 0; d < c.s.ld(m); ++d)
				for (unsigned f = 0; f < c.s.faces(); ++f)
				{
					double e = checkSurface(c2, px[m][d][f], (const uint8_t*)t3.data((Texture::CubeFace)f, m, d),
						t3.dataSize((Texture::CubeFace)f, m, d), fmt("second, level %u depth %u face %u", m, d, f));
					if (e >= 0) e2 = e;
				}
		vh::count("second conversions");
		if (eff >= 0 && e2 >= 0 && &other == &pr && what == 1 && c2.q != c.q)
		{
			bool up = c2.q > c.q;
			bool ends = (c.q == Texture::Quality::Lowest && c2.q == Texture::Quality::Highest) ||
				(c2.q == Texture::Quality::Lowest && c.q == Texture::Quality::Highest);
			VH_CHECK(ends ? (up ? e2 > eff : eff > e2) : up ? e2 >= eff : eff >= e2, c.key("quality"),
				"%s: effort %g at quality %d, %g at %d", c.str().c_str(), eff, (int)c.q, e2, (int)c2.q);
			vh::count("quality pairs");
		}
	}
	checkFile(c, t, FT::DDS, "dds");
	checkFile(c, t, FT::KTX, "ktx");
	checkFile(c, t, FT::PVR, "pvr");
	VH_CHECK(cmpLive() == 0, "encoder:options-left", "%d sets of encoder options left after conversions of %s", cmpLive(), c.str().c_str());
	vh::count("surfaces", nsurf);
	if (idx % 97 == 0)
		vh::sample(c.str() + fmt(" -> %zu encoder calls", stub::calls()));
}
}

int main(int argc, char** argv)
{
	return vh::runMain(argc, argv, {{"C26", c26}});
}
