// C12-C17: pixel access, format conversion, permutations, resizing, colour operations and normal
// maps, each against an independent per-pixel definition.
#include "iref.h"
using namespace ref;
using namespace cuttlefish;
using vh::Rng;
using vh::fmt;

static void pickSize(Rng& rng, unsigned& w, unsigned& h, unsigned mx = 24, bool huge = true)
{
	static const unsigned e[] = {1, 1, 2, 3, 4, 5, 7, 8, 9, 13, 16, 17};
	w = rng.chance(0.5) ? rng.pick(e) : (unsigned)rng.range(1, (int)mx);
	h = rng.chance(0.5) ? rng.pick(e) : (unsigned)rng.range(1, (int)mx);
	if (rng.chance(0.03))
	{
		// Long and thin now and then.
		w = (unsigned)rng.range(1, 4);
		h = (unsigned)rng.range(25, 700);
		if (rng.chance(0.5)) std::swap(w, h);
	}
	if (rng.chance(0.008))
	{
		// Beyond what fits into 8 and 16 bits.
		w = huge && rng.chance(0.5) ? (unsigned)rng.range(700, 70000) : (unsigned)rng.range(200, 520);
		h = w > 600 ? (unsigned)rng.range(1, 2) : (unsigned)rng.range(1, 300);
		if (rng.chance(0.5)) std::swap(w, h);
	}
}

static ColorSpace pickCs(Rng& rng) {return rng.chance(0.4) ? ColorSpace::sRGB : ColorSpace::Linear;}

// Pads of scanlines must survive as well: no out-of-row writes. Rows are 4-byte aligned in memory.
static bool sameBytes(const Image& img, const std::vector<uint8_t>& b) {return bytesOf(img) == b;}

static double hostileColor(Rng& rng, const ILayout& l)
{
	static const double h[] = {NAN, INFINITY, -INFINITY, -1, -0.0, 1e300, -1e300, 1e20, -1e20, 2, 1.5, -0.25, 65536, 65535,
		32768, 32767, -32768, -32769, 4294967295.0, 4294967296.0, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0,
		3.4e38, 3.5e38, 1e-45, 1e-310, 255.5, 65535.5};
	if (rng.chance(0.15))
		return rng.pick(h);
	switch (l.kind)
	{
		case IK::Norm:
		{
			unsigned bits = l.comps[rng.below(l.comps.size())].bits;
			double mx = (double)((1u << bits) - 1), k = (double)rng.below((uint64_t)mx + 1);
			switch (rng.below(3))
			{
				case 0: return k/mx;
				case 1: return (k + rng.pick({0.5 + 1e-6, 0.5 - 1e-6, 0.3, 0.499})) / mx;
				default: return rng.uniform(-0.2, 1.2);
			}
		}
		case IK::SInt: return rng.chance(0.5) ? std::floor(rng.uniform(-70000, 70000)) : rng.uniform(-3e9, 3e9);
		case IK::UInt: return rng.chance(0.5) ? std::floor(rng.uniform(-10, 70000)) : rng.uniform(-1e9, 5e9);
		default: return rng.chance(0.5) ? rng.unit() : rng.uniform(-1, 1)*std::pow(10.0, rng.range(-8, 8));
	}
}

// Expected stored colour for a write to a pixel of layout l.
static Px wantWrite(const ILayout& l, ColorSpace cs, const Px& in, bool gray)
{
	Px w = in;
	if (gray && l.gray)
	{
		double g = cs == ColorSpace::sRGB ? toSrgb(lum(toLin(in.v[0]), toLin(in.v[1]), toLin(in.v[2]))) :
			lum(in.v[0], in.v[1], in.v[2]);
		w.v[0] = g;
	}
	return w;
}

//---------------------------------------------------------------------------------------------

static void c12(uint64_t idx, Rng& rng)
{
	const ILayout& l = imageLayouts()[idx % imageLayouts().size()];
	unsigned w, h;
	pickSize(rng, w, h);
	ColorSpace cs = pickCs(rng);
	if (idx >= 5000 && idx < 5003)
	{
		// Rows of more bytes than fit into 31 and 32 bits: refused, or there to the last byte.
		static const IF fs[] = {IF::RGBAF, IF::RGBF, IF::RGBAF};
		static const unsigned ws[] = {(1u << 27) + 1, (1u << 28)/3*2 + 5, (1u << 28) + 3};
		Image vast(fs[idx - 5000], ws[idx - 5000], 1, cs);
		vh::cover(vast.isValid() ? "vast row" : "vast row refused");
		if (vast.isValid())
		{
			unsigned last = vast.width() - 1;
			ColorRGBAd g, in = {0.5, 0.25, 0.75, 1.0};
			uint8_t* line = (uint8_t*)vast.scanline(0);
			size_t bytes = (size_t)vast.width()*(vast.bitsPerPixel()/8);
			line[bytes - 1] = line[bytes/2] = line[0] = 0;
			VH_CHECK(vast.width() == ws[idx - 5000] && vast.setPixel(last, 0, in) && vast.getPixel(g, last, 0) && g.r == 0.5, "vast",
				"the last pixel of %u does not hold what was written", vast.width());
		}
		return;
	}
	Image img(l.f, w, h, cs);
	std::string id = l.name;
	VH_CHECK(img.isValid() && img.format() == l.f && img.width() == w && img.height() == h && img.colorSpace() == cs,
		id + ":init", "%ux%u: valid %d format %d size %ux%u", w, h, img.isValid(), (int)img.format(), img.width(), img.height());
	if (!img.isValid())
		return;
	// However it came about.
	if (rng.chance(0.3))
	{
		static const IF from[] = {IF::RGB8, IF::RGB565, IF::Gray8, IF::RGBA8, IF::RGBAF, IF::RGB16};
		Image o(rng.pick(from), w, h, cs);
		fillRandom(o, rng, false);
		Image n;
		const char* how = "converted";
		switch (rng.below(4))
		{
			case 0: n = o.convert(l.f); break;
			case 1: n = img; how = "copied"; break;
			case 2: n = std::move(img); how = "moved"; break;
			default:
				n = img;
				n.flipVertical();
				n.flipHorizontal();
				how = "flipped";
				break;
		}
		if (n.isValid())
		{
			VH_CHECK(n.format() == l.f && n.width() == w && n.height() == h && n.colorSpace() == cs, id + ":" + how, "%ux%u", w, h);
			checkMasks(n, how);
			img = std::move(n);
			if (img.format() != l.f || img.width() != w || img.height() != h || img.colorSpace() != cs) return;
		}
		if (!img.isValid()) return;
	}
	VH_CHECK(img.bitsPerPixel() == l.bytes*8, id + ":bpp", "%u bits per pixel", img.bitsPerPixel());
	if (l.masks)
	{
		uint32_t m[4] = {img.redMask(), img.greenMask(), img.blueMask(), img.alphaMask()};
		unsigned s[4] = {img.redShift(), img.greenShift(), img.blueShift(), img.alphaShift()};
		for (int c = 0; c < 4; ++c)
		{
			const IComp* k = l.comp(c);
			uint32_t want = k ? (uint32_t)(((1ull << k->bits) - 1) << k->shift) : 0;
			VH_CHECK(m[c] == want, id + fmt(":mask%d", c), "channel %d mask %08x, bits are at %08x", c, m[c], want);
			if (k)
				VH_CHECK(s[c] == k->shift, id + fmt(":shift%d", c), "channel %d shift %u, bits are at %u", c, s[c], k->shift);
		}
	}
	fillRandom(img, rng, true);
	std::vector<uint8_t> before = bytesOf(img);
	const Image& cimg = img;
	for (unsigned y = 0; y < h; ++y)
	{
		VH_CHECK(img.scanline(y) && img.scanline(y) == cimg.scanline(y), id + ":scanline", "scanline %u", y);
		for (unsigned x = 0; x < w; ++x)
		{
			Px want = readRaw(l, img.scanline(y), x);
			ColorRGBAd c(-7, -7, -7, -7);
			bool ok = img.getPixel(c, x, y);
			const double* g = &c.r;
			bool same = ok;
			for (int i = 0; i < 4; ++i)
			{
				double wv = want.v[i];
				if (l.f == IF::Complex && i == 2)
					wv = 0;
				if (!(g[i] == wv || (std::isnan(g[i]) && std::isnan(wv)) || std::fabs(g[i] - wv) <= 1e-12*std::fabs(wv)))
					same = false;
			}
			VH_CHECK(same, id + ":get", "%ux%u (%u,%u) %s: bytes hold %s, getPixel gives (%.9g %.9g %.9g %.9g) %d", w, h, x, y,
				csName(cs), pxs(want).c_str(), c.r, c.g, c.b, c.a, ok);
		}
	}
	VH_CHECK(sameBytes(img, before), id + ":get-writes", "reading changed the image");
	unsigned sets = 12;
	for (unsigned k = 0; k < sets; ++k)
	{
		unsigned x = (unsigned)rng.below(w), y = (unsigned)rng.below(h);
		bool gray = rng.chance(0.5);
		Px in;
		for (double& v : in.v) v = hostileColor(rng, l);
		if (rng.chance(0.3)) in.v[1] = in.v[2] = in.v[0];
		std::vector<uint8_t> b = bytesOf(img);
		bool ok = gray && rng.chance(0.5) ? img.setPixel(x, y, ColorRGBAd(in.v[0], in.v[1], in.v[2], in.v[3])) :
			img.setPixel(x, y, ColorRGBAd(in.v[0], in.v[1], in.v[2], in.v[3]), gray);
		VH_CHECK(ok, id + ":set-refused", "(%u,%u) of %ux%u", x, y, w, h);
		std::vector<uint8_t> a = bytesOf(img);
		size_t off = ((size_t)y*w + x)*l.bytes;
		bool local = true;
		for (size_t i = 0; i < a.size(); ++i)
			if (a[i] != b[i] && (i < off || i >= off + l.bytes))
				local = false;
		VH_CHECK(local, id + ":set-spill", "(%u,%u) of %ux%u changed another pixel", x, y, w, h);
		Px want = wantWrite(l, cs, in, gray), got = readRaw(l, img.scanline(y), x);
		for (auto& c : l.comps)
		{
			double slack = gray && l.gray ? std::fabs(want.v[0])*1e-9 + 1e-9*(std::fabs(in.v[0]) + std::fabs(in.v[1]) +
				std::fabs(in.v[2])) : 0;
			if (gray && l.gray && !(slack < 1e30)) continue;
			if (gray && l.gray && std::isnan(want.v[0])) continue;
			VH_CHECK(storedOk(l, c, want.v[c.ch], got.v[c.ch], slack, true), id + ":set" + (gray ? "-gray" : ""),
				"%s channel %d: %s should store %.12g, holds %.12g", csName(cs), c.ch, pxs(in).c_str(), want.v[c.ch], got.v[c.ch]);
		}
		// Reading it back and writing that again is stable.
		ColorRGBAd r;
		img.getPixel(r, x, y);
		std::vector<uint8_t> s1 = bytesOf(img);
		bool nan = std::isnan(r.r) || std::isnan(r.g) || std::isnan(r.b) || std::isnan(r.a);
		img.setPixel(x, y, r, false);
		if (!nan)
			VH_CHECK(bytesOf(img) == s1, id + ":reread", "writing what was read changed the pixel %s", pxs(got).c_str());
	}
	static const unsigned far[] = {0, 1, 2, 17, 1u << 16, 1u << 30, 1u << 31, 0xFFFFFFFFu};
	std::vector<uint8_t> b = bytesOf(img);
	for (unsigned k = 0; k < 6; ++k)
	{
		unsigned x = (unsigned)rng.below(w), y = (unsigned)rng.below(h);
		if (k % 3 != 1) x = std::max(w, w + rng.pick(far));
		if (k % 3 != 0) y = std::max(h, h + rng.pick(far));
		ColorRGBAd c(-7, -8, -9, -10);
		bool g = img.getPixel(c, x, y);
		bool s = img.setPixel(x, y, ColorRGBAd(0.5, 0.5, 0.5, 0.5), rng.chance(0.5));
		VH_CHECK(!g && !s && c.r == -7 && c.g == -8 && c.b == -9 && c.a == -10, id + ":out-of-range",
			"(%u,%u) of %ux%u: get %d set %d", x, y, w, h, g, s);
		if (y >= h)
			VH_CHECK(!img.scanline(y) && !cimg.scanline(y), id + ":scanline-range", "scanline %u of %u is not null", y, h);
	}
	VH_CHECK(sameBytes(img, b), id + ":out-of-range-write", "%ux%u", w, h);
	Image none;
	ColorRGBAd c;
	VH_CHECK(!none.getPixel(c, 0, 0) && !none.setPixel(0, 0, c) && !none.scanline(0) && none.width() == 0 &&
		none.height() == 0 && none.format() == IF::Invalid && none.bitsPerPixel() == 0 && none.redMask() == 0 &&
		none.alphaMask() == 0, "invalid-image", "an empty image answers");
	vh::cover(id + ":" + csName(cs) + (w % 2 ? ":odd" : ":even"));
	if (idx < 4)
		vh::sample(fmt("%s %ux%u %s: %u writes", l.name, w, h, csName(cs), sets));
}

//---------------------------------------------------------------------------------------------

static double srcStep(const ILayout& l, const Px& p, int ch)
{
	const IComp* c = l.comp(l.single() ? 0 : ch);
	return c ? stepOf(l, *c, p.v[l.single() ? 0 : ch]) : 0;
}

static void c13(uint64_t idx, Rng& rng)
{
	const auto& ls = imageLayouts();
	const ILayout& s = ls[idx % ls.size()];
	const ILayout& d = ls[(idx/ls.size()) % ls.size()];
	unsigned w, h;
	pickSize(rng, w, h);
	ColorSpace cs = pickCs(rng);
	bool gray = rng.chance(0.6);
	Image img(s.f, w, h, cs);
	fillRandom(img, rng, rng.chance(0.3), rng.chance(0.5) ? 1 : 3);
	std::vector<uint8_t> before = bytesOf(img);
	std::vector<Px> src = pixelsOf(img);
	Image out = img.convert(d.f, gray);
	std::string id = std::string(s.name) + ">" + d.name;
	VH_CHECK(out.isValid() && out.format() == d.f && out.width() == w && out.height() == h && out.colorSpace() == cs,
		id + ":shape", "%ux%u %s -> valid %d format %d %ux%u %s", w, h, csName(cs), out.isValid(), (int)out.format(),
		out.width(), out.height(), csName(out.colorSpace()));
	VH_CHECK(sameBytes(img, before) && img.format() == s.f && img.width() == w, id + ":source", "the source changed");
	checkMasks(out, "converted");
	if (!out.isValid() || out.format() != d.f || out.width() != w || out.height() != h)
		return;
	VH_CHECK(out.bitsPerPixel() == d.bytes*8, id + ":bpp", "%u bits per pixel", out.bitsPerPixel());
	if (s.f == d.f)
		VH_CHECK(sameBytes(out, before), id + ":same", "converting to the same format changed pixels");
	std::vector<Px> got = pixelsOf(out);
	bool bad = false;
	for (size_t i = 0; i < src.size() && !bad; ++i)
	{
		// What a pixel write of the source pixel would store.
		Px in = src[i];
		if (s.f == IF::Complex) in.v[2] = 0;
		Px want = s.f == IF::Complex ? in : wantWrite(d, cs, in, gray);
		bool grayed = gray && d.gray && s.f != IF::Complex;
		if (grayed && s.single())
			want.v[0] = in.v[0]; // luminance of equal channels
		// Integer formats keep the code of an 8-bit gray value rather than its fraction.
		if (s.f == IF::Gray8 && (d.f == IF::Int16 || d.f == IF::Int32 || d.f == IF::UInt32))
			want.v[0] = std::floor(in.v[0]*255 + 0.5);
		for (auto& c : d.comps)
		{
			double slack = 0;
			// Within one step of the less precise format.
			double st = srcStep(s, in, c.ch);
			if (d.kind == IK::Norm && s.kind == IK::Norm)
				slack = std::max(st, stepOf(d, c, 0))*(0.51 + 1e-6);
			if (grayed)
				slack = std::max(slack, 1e-6*std::fabs(want.v[c.ch]) + (s.kind == IK::Norm || d.kind == IK::Norm ?
					std::max(st, stepOf(d, c, want.v[c.ch])) : 0));
			if (!std::isfinite(in.v[0]) || !std::isfinite(in.v[1]) || !std::isfinite(in.v[2]) || !std::isfinite(in.v[3]))
			{
				if (grayed || !std::isfinite(in.v[c.ch]))
				{
					if (!(std::isinf(in.v[c.ch]) && !grayed))
						continue;
				}
			}
			vh::eval();
			double g = got[i].v[c.ch], wv = want.v[c.ch];
			if (!storedOk(d, c, wv, g, slack))
			{
				// Rounding of a value that passed through a float on the way.
				double noise = std::fabs(wv)*2e-7;
				if (std::isfinite(wv) && storedOk(d, c, wv, g, slack + noise) && s.kind != IK::SInt && s.kind != IK::UInt)
					continue;
				vh::violation(id + ":value" + (grayed ? "-gray" : ""), fmt("%s pixel %zu channel %d: %s should give %.12g, got %.12g",
					csName(cs), i, c.ch, pxs(in).c_str(), wv, g));
				bad = true;
				break;
			}
		}
	}
	// Back again: lossless when the target is at least as precise.
	auto bits = [](const ILayout& l) {return l.comps[0].bits;};
	bool covers = d.comps.size() >= s.comps.size() && s.f != IF::Complex && d.f != IF::Complex;
	for (auto& c : s.comps)
		if (!d.has(c.ch)) covers = false;
	bool finer = false;
	if (s.kind == IK::Norm)
		finer = (d.kind == IK::Norm && bits(d) >= 8 && bits(d) >= bits(s)) || d.kind == IK::F32 || d.kind == IK::F64;
	else if (s.kind == IK::F32)
		finer = d.kind == IK::F32 || d.kind == IK::F64;
	else if (s.kind == IK::SInt)
		finer = (d.kind == IK::SInt && bits(d) >= bits(s)) || d.kind == IK::F64 || (d.kind == IK::F32 && bits(s) == 16);
	else if (s.kind == IK::UInt)
		finer = (d.kind == IK::UInt && bits(d) >= bits(s)) || (d.kind == IK::SInt && bits(d) > bits(s)) || d.kind == IK::F64 ||
			(d.kind == IK::F32 && bits(s) == 16);
	else
		finer = d.kind == IK::F64;
	if (covers && finer && !bad)
	{
		Image back = out.convert(s.f, gray);
		VH_CHECK(back.isValid() && back.format() == s.f, id + ":back", "cannot convert back");
		if (back.isValid())
		{
			std::vector<Px> bp = pixelsOf(back);
			for (size_t i = 0; i < bp.size(); ++i)
				for (auto& c : s.comps)
				{
					double a = src[i].v[c.ch], b = bp[i].v[c.ch];
					vh::eval();
					bool noisy = gray && (s.gray || d.gray) && (s.kind == IK::F32 || s.kind == IK::F64);
					if (!(a == b || (std::isnan(a) && std::isnan(b)) || !std::isfinite(a) ||
						(noisy && std::fabs(a - b) <= std::max(3*stepOf(s, c, a), s.kind == IK::F64 ? 1e-13*std::fabs(a) : 0)) ||
						(noisy && cs == ColorSpace::sRGB && std::fabs(a - b) <= 1e-6*std::max(1.0, std::fabs(a))) ||
						(gray && (s.gray || d.gray) && s.kind == IK::Norm && std::fabs(a - b) <= 1.01*stepOf(s, c, a))))
					{
						vh::violation(id + ":roundtrip", fmt("%s pixel %zu channel %d: %.12g came back as %.12g", csName(cs), i, c.ch,
							a, b));
						i = bp.size();
						break;
					}
				}
		}
	}
	vh::cover(id + (gray ? ":gray" : "") + ":" + csName(cs));
	if (idx < 4)
		vh::sample(fmt("%s %ux%u gray %d %s", id.c_str(), w, h, gray, csName(cs)));
}

//---------------------------------------------------------------------------------------------

static void c14(uint64_t idx, Rng& rng)
{
	const auto& ls = imageLayouts();
	const ILayout& l = ls[idx % ls.size()];
	unsigned op = (unsigned)(idx/ls.size()) % 9;
	unsigned w, h;
	pickSize(rng, w, h, 70);
	if (rng.chance(0.03)) {w = (unsigned)rng.range(60, 300); h = (unsigned)rng.range(60, 300);}
	ColorSpace cs = pickCs(rng);
	Image img(l.f, w, h, cs);
	fillRandom(img, rng, rng.chance(0.3), 2);
	std::vector<uint8_t> src = bytesOf(img);
	using R = Image::RotateAngle;
	static const struct {const char* n; int q;} rots[] = {{"CW90", 1}, {"CW180", 2}, {"CW270", 3}, {"CCW90", 3},
		{"CCW180", 2}, {"CCW270", 1}};
	unsigned B = l.bytes;
	std::string id = l.name;
	auto check = [&](const Image& out, const std::string& name, int quarter, bool fh, bool fv)
	{
		unsigned ow = quarter % 2 ? h : w, oh = quarter % 2 ? w : h;
		VH_CHECK(out.isValid() && out.format() == l.f && out.width() == ow && out.height() == oh && out.colorSpace() == cs,
			id + ":" + name + ":shape", "%ux%u -> valid %d format %d %ux%u", w, h, out.isValid(), (int)out.format(),
			out.width(), out.height());
		checkMasks(out, name);
		if (!out.isValid() || out.format() != l.f || out.width() != ow || out.height() != oh)
			return;
		VH_CHECK(out.bitsPerPixel() == B*8, id + ":" + name + ":bpp", "%u bits", out.bitsPerPixel());
		if (out.bitsPerPixel() != B*8)
			return;
		std::vector<uint8_t> o = bytesOf(out);
		for (unsigned y = 0; y < h; ++y)
			for (unsigned x = 0; x < w; ++x)
			{
				unsigned dx = x, dy = y;
				switch (quarter) // clockwise quarter turns
				{
					case 1: dx = h - 1 - y; dy = x; break;
					case 2: dx = w - 1 - x; dy = h - 1 - y; break;
					case 3: dx = y; dy = w - 1 - x; break;
				}
				if (fh) dx = w - 1 - x;
				if (fv) dy = h - 1 - y;
				vh::eval();
				const uint8_t* a = src.data() + ((size_t)y*w + x)*B;
				const uint8_t* b = o.data() + ((size_t)dy*ow + dx)*B;
				if (std::memcmp(a, b, B) != 0)
				{
					// A NaN may be quietened by being copied; anything else has to be exact.
					bool ok = true;
					Px pa = readRaw(l, a, 0), pb = readRaw(l, b, 0);
					for (auto& c : l.comps)
						if (!(std::isnan(pa.v[c.ch]) && std::isnan(pb.v[c.ch])) && pa.v[c.ch] != pb.v[c.ch]) ok = false;
					if (!ok)
					{
						vh::violation(id + ":" + name, fmt("%ux%u pixel (%u,%u) is not at (%u,%u): %s vs %s", w, h, x, y, dx, dy,
							pxs(pa).c_str(), pxs(pb).c_str()));
						return;
					}
				}
			}
	};
	std::string opName;
	if (op < 6)
	{
		Image out = img.rotate((R)op);
		opName = rots[op].n;
		check(out, opName, rots[op].q, false, false);
		VH_CHECK(sameBytes(img, src) && img.width() == w, id + ":" + opName + ":source", "the source changed");
	}
	else if (op == 6)
	{
		opName = "flipH";
		VH_CHECK(img.flipHorizontal(), id + ":flipH:refused", "%ux%u", w, h);
		check(img, "flipH", 0, true, false);
		VH_CHECK(img.flipHorizontal(), id + ":flipH:refused", "%ux%u", w, h);
		VH_CHECK(sameBytes(img, src), id + ":flipH2", "two flips do not restore %ux%u", w, h);
	}
	else if (op == 7)
	{
		opName = "flipV";
		VH_CHECK(img.flipVertical(), id + ":flipV:refused", "%ux%u", w, h);
		check(img, "flipV", 0, false, true);
		VH_CHECK(img.flipVertical(), id + ":flipV:refused", "%ux%u", w, h);
		VH_CHECK(sameBytes(img, src), id + ":flipV2", "two flips do not restore %ux%u", w, h);
	}
	else
	{
		// A random word in the generators, tracked as an element of the symmetry group.
		opName = "word";
		Image cur = img;
		// position of source (x, y) as signed permutation matrix
		int m[4] = {1, 0, 0, 1};
		std::string word;
		for (unsigned k = 0, n = (unsigned)rng.range(2, 8); k < n && cur.isValid(); ++k)
		{
			unsigned g = (unsigned)rng.below(8);
			int q = g < 6 ? rots[g].q : 0;
			if (g < 6) cur = cur.rotate((R)g);
			else if (g == 6) cur.flipHorizontal();
			else cur.flipVertical();
			word += g < 6 ? rots[g].n : g == 6 ? "H" : "V";
			word += ' ';
			int a[4] = {1, 0, 0, 1};
			// clockwise quarter with y down: (x,y) -> (-y,x)
			for (; q > 0; --q) {int t[4] = {-a[2], -a[3], a[0], a[1]}; std::memcpy(a, t, sizeof a);}
			if (g == 6) a[0] = -1;
			if (g == 7) a[3] = -1;
			int r[4] = {a[0]*m[0] + a[1]*m[2], a[0]*m[1] + a[1]*m[3], a[2]*m[0] + a[3]*m[2], a[2]*m[1] + a[3]*m[3]};
			std::memcpy(m, r, sizeof m);
		}
		bool swap = m[0] == 0;
		VH_CHECK(cur.isValid() && cur.width() == (swap ? h : w) && cur.height() == (swap ? w : h), id + ":word:shape",
			"%s", word.c_str());
		if (cur.isValid() && cur.width() == (swap ? h : w) && cur.height() == (swap ? w : h) && cur.bitsPerPixel() == B*8)
		{
			std::vector<Px> a = pixelsOf(img), b = pixelsOf(cur);
			unsigned cw = cur.width(), ch = cur.height();
			bool ok = true;
			for (unsigned y = 0; y < h && ok; ++y)
				for (unsigned x = 0; x < w && ok; ++x)
				{
					int X = m[0]*(int)x + m[1]*(int)y, Y = m[2]*(int)x + m[3]*(int)y;
					if (m[0] + m[1] < 0) X += (int)cw - 1;
					if (m[2] + m[3] < 0) Y += (int)ch - 1;
					const Px& pa = a[(size_t)y*w + x];
					const Px& pb = b[(size_t)Y*cw + X];
					vh::eval();
					for (auto& c : l.comps)
						if (!(pa.v[c.ch] == pb.v[c.ch] || (std::isnan(pa.v[c.ch]) && std::isnan(pb.v[c.ch])))) ok = false;
				}
			if (!ok)
				vh::violation(id + ":word", fmt("%ux%u after %s", w, h, word.c_str()));
		}
	}
	vh::cover(id + ":" + opName + (w == 1 || h == 1 ? ":line" : w == h ? ":square" : ":rect"));
	if (idx < 4)
		vh::sample(fmt("%s %s %ux%u", l.name, opName.c_str(), w, h));
}

//---------------------------------------------------------------------------------------------

static const char* filterName(Image::ResizeFilter f)
{
	static const char* n[] = {"Box", "Linear", "Cubic", "CatmullRom", "BSpline"};
	return n[(int)f];
}

static bool onlyBoxLinear(IF f)
{
	return f == IF::Int16 || f == IF::Int32 || f == IF::UInt32 || f == IF::Double || f == IF::Complex;
}

// Largest error a channel may pick up when its value v goes through linear light in the format.
// Magnitude of the float data at hand, which sums of float products are only accurate to.
static double g_mag = 1;

static double lightSlack(const ILayout& l, const IComp& c, ColorSpace cs, double v, double steps)
{
	double mag = std::max(std::fabs(v), g_mag);
	if (cs == ColorSpace::sRGB && c.ch != 3) mag = std::max(mag, toLin(mag));
	double st = l.kind == IK::F32 ? mag*2e-6 : l.kind == IK::F64 ? mag*1e-9 : stepOf(l, c, v);
	if (cs == ColorSpace::Linear || c.ch == 3)
		return steps*st;
	// Work in linear light with the quantisation of the format, then back.
	double lin = toLin(std::max(v, 0.0));
	double hi = toSrgb(lin + steps*st) - v, lo = v - toSrgb(std::max(lin - steps*st, 0.0));
	return std::max(hi, lo) + steps*st;
}

static void c15(uint64_t idx, Rng& rng)
{
	const auto& ls = imageLayouts();
	const ILayout& l = ls[idx % ls.size()];
	auto filter = (Image::ResizeFilter)((idx/ls.size()) % 5);
	unsigned mode = (unsigned)(idx/(ls.size()*5)) % 8;
	ColorSpace cs = pickCs(rng);
	unsigned w, h, nw, nh;
	pickSize(rng, w, h, 24, false);
	pickSize(rng, nw, nh, 40, false);
	if (rng.chance(0.06))
	{
		// Many pixels become one.
		nw = (unsigned)rng.range(1, 3); nh = (unsigned)rng.range(1, 2);
		w = nw*(unsigned)rng.range(10, 40); h = nh*(unsigned)rng.range(8, 40);
	}
	if (mode <= 2 && rng.chance(0.04))
	{
		// Thousands of pixels in a row.
		w = rng.chance(0.2) ? (unsigned)rng.range(65000, 67000) : (unsigned)rng.range(700, 9000);
		nw = rng.chance(0.3) ? w/2 : (unsigned)rng.range((int)w/3, (int)w*2);
		h = (unsigned)rng.range(1, 2); nh = (unsigned)rng.range(1, 2);
		if (rng.chance(0.5)) {std::swap(w, h); std::swap(nw, nh);}
	}
	std::string id = std::string(l.name) + ":" + filterName(filter) + ":" + csName(cs);
	bool bl = filter == Image::ResizeFilter::Box || filter == Image::ResizeFilter::Linear;
	bool intish = l.kind == IK::UInt || l.kind == IK::SInt;
	if (intish) cs = ColorSpace::Linear;
	// Range of the float data: beyond 0..1 as well, but keep transfer functions meaningful.
	double lo = 0, hi = 1;
	if (rng.chance(0.6))
	{
		static const double los[] = {0, -1, -50, 0}, his[] = {100, 1, 3000, 6};
		unsigned k = cs == ColorSpace::sRGB ? 3 : (unsigned)rng.below(4);
		lo = los[k]; hi = his[k];
	}
	g_mag = l.kind == IK::F32 || l.kind == IK::F64 ? std::max(std::fabs(lo), std::fabs(hi)) : 1;
	Image img(l.f, w, h, cs);
	fillRandom(img, rng, false, hi, lo);
	auto shape = [&](const Image& o, const char* what, unsigned W, unsigned H)
	{
		bool ok = o.isValid() && o.format() == l.f && o.width() == W && o.height() == H && o.colorSpace() == cs &&
			o.bitsPerPixel() == l.bytes*8;
		VH_CHECK(ok, id + ":shape", "%s %ux%u -> %ux%u gives valid %d format %d %ux%u %s %ubpp", what, w, h, W, H, o.isValid(),
			(int)o.format(), o.width(), o.height(), csName(o.colorSpace()), o.bitsPerPixel());
		checkMasks(o, "resized");
		return ok;
	};
	// A few formats have no smooth filters: refusing those is documented.
	if (onlyBoxLinear(l.f) && !bl)
	{
		std::vector<uint8_t> b = bytesOf(img);
		Image o = img.resize(nw, nh, filter);
		if (nw != w || nh != h)
			VH_CHECK(!o.isValid() || (o.width() == nw && o.height() == nh), id + ":unsupported", "%ux%u", o.width(), o.height());
		VH_CHECK(sameBytes(img, b), id + ":source", "the source changed");
		vh::cover(id + ":unsupported");
		return;
	}
	if (mode == 0)
	{
		// Uniform stays uniform; the same size preserves pixels; the source is untouched.
		std::vector<uint8_t> first((uint8_t*)img.scanline(0), (uint8_t*)img.scanline(0) + l.bytes);
		Image same = img.resize(w, h, filter);
		if (shape(same, "same", w, h))
			VH_CHECK(sameBytes(same, bytesOf(img)), id + ":same-size", "%ux%u changed", w, h);
		for (unsigned y = 0; y < h; ++y)
			for (unsigned x = 0; x < w; ++x)
				std::memcpy((uint8_t*)img.scanline(y) + (size_t)x*l.bytes, first.data(), l.bytes);
		std::vector<uint8_t> b = bytesOf(img);
		Px u = readRaw(l, img.scanline(0), 0);
		Image o = img.resize(nw, nh, filter);
		VH_CHECK(sameBytes(img, b), id + ":source", "the source changed");
		if (!shape(o, "uniform", nw, nh))
			return;
		std::vector<Px> p = pixelsOf(o);
		for (auto& c : l.comps)
		{
			double lo = INFINITY, hi = -INFINITY;
			for (auto& q : p) {lo = std::min(lo, q.v[c.ch]); hi = std::max(hi, q.v[c.ch]);}
			double v = u.v[c.ch], s = lightSlack(l, c, cs, v, intish ? 1.001 : 1.6);
			VH_CHECK(lo >= v - s && hi <= v + s, id + ":uniform", "%ux%u->%ux%u channel %d: %.9g became %.9g..%.9g", w, h, nw, nh,
				c.ch, v, lo, hi);
		}
	}
	else if (mode == 1)
	{
		// No overshoot with the positive filters.
		Image o = img.resize(nw, nh, filter);
		if (!shape(o, "range", nw, nh) || !bl)
			return;
		std::vector<Px> p = pixelsOf(o), q = pixelsOf(img);
		for (auto& c : l.comps)
		{
			double lo = INFINITY, hi = -INFINITY;
			for (auto& s : q) {lo = std::min(lo, s.v[c.ch]); hi = std::max(hi, s.v[c.ch]);}
			for (auto& s : p)
			{
				double v = s.v[c.ch];
				vh::eval();
				if (!(v >= lo - lightSlack(l, c, cs, lo, 1.6) && v <= hi + lightSlack(l, c, cs, hi, 1.6)))
				{
					vh::violation(id + ":range", fmt("%ux%u->%ux%u channel %d: %.9g outside %.9g..%.9g", w, h, nw, nh, c.ch, v, lo, hi));
					break;
				}
			}
		}
	}
	else if (mode == 2)
	{
		// Channels do not influence each other.
		if (l.single())
		{
			shape(img.resize(nw, nh, filter), "single", nw, nh);
			return;
		}
		Image other = img;
		Image noise(l.f, w, h, cs);
		fillRandom(noise, rng, false, hi, lo);
		const IComp& vary = l.comps[rng.below(l.comps.size())];
		for (unsigned y = 0; y < h; ++y)
			for (unsigned x = 0; x < w; ++x)
			{
				ColorRGBAd a, b;
				other.getPixel(a, x, y);
				noise.getPixel(b, x, y);
				(&a.r)[vary.ch] = (&b.r)[vary.ch];
				other.setPixel(x, y, a, false);
			}
		Image o1 = img.resize(nw, nh, filter), o2 = other.resize(nw, nh, filter);
		if (!shape(o1, "independent", nw, nh) || !shape(o2, "independent", nw, nh))
			return;
		std::vector<Px> a = pixelsOf(o1), b = pixelsOf(o2);
		for (auto& c : l.comps)
			if (c.ch != vary.ch)
				for (size_t i = 0; i < a.size(); ++i)
				{
					vh::eval();
					if (a[i].v[c.ch] != b[i].v[c.ch])
					{
						vh::violation(id + ":independent", fmt("%ux%u->%ux%u: changing channel %d changed channel %d", w, h, nw, nh,
							vary.ch, c.ch));
						break;
					}
				}
	}
	else if (mode == 3)
	{
		// Commutes with flips. The box filter has steps, where a sample on the very edge may fall either way; with
		// whole ratios none does.
		if (filter == Image::ResizeFilter::Box)
		{
			unsigned kx = (unsigned)rng.range(1, 4), ky = (unsigned)rng.range(1, 4);
			if (rng.chance(0.5)) {nw = std::max(w/kx, 1u); w = nw*kx;} else nw = w*kx;
			if (rng.chance(0.5)) {nh = std::max(h/ky, 1u); h = nh*ky;} else nh = h*ky;
			img.initialize(l.f, w, h, cs);
			fillRandom(img, rng, false, hi, lo);
		}
		Image o1 = img.resize(nw, nh, filter);
		Image f = img;
		bool hor = rng.chance(0.5);
		if (hor) f.flipHorizontal(); else f.flipVertical();
		Image o2 = f.resize(nw, nh, filter);
		if (!shape(o1, "flip", nw, nh) || !shape(o2, "flip", nw, nh))
			return;
		if (hor) o2.flipHorizontal(); else o2.flipVertical();
		std::vector<Px> a = pixelsOf(o1), b = pixelsOf(o2);
		for (auto& c : l.comps)
			for (size_t i = 0; i < a.size(); ++i)
			{
				double s = lightSlack(l, c, cs, a[i].v[c.ch], 2.01);
				if (l.f == IF::Float || l.kind == IK::F32) s += 4e-6*g_mag;
				vh::eval();
				if (!(std::fabs(a[i].v[c.ch] - b[i].v[c.ch]) <= s))
				{
					vh::violation(id + ":flip", fmt("%ux%u->%ux%u %s channel %d pixel %zu: %.9g vs %.9g", w, h, nw, nh,
						hor ? "H" : "V", c.ch, i, a[i].v[c.ch], b[i].v[c.ch]));
					return;
				}
			}
	}
	else if (mode == 4)
	{
		// Integer shrink with the box filter: the average of each block, in linear light.
		unsigned fx = (unsigned)rng.range(1, 4), fy = (unsigned)rng.range(1, 4);
		nw = (unsigned)rng.range(1, 8); nh = (unsigned)rng.range(1, 8);
		w = nw*fx; h = nh*fy;
		Image big(l.f, w, h, cs);
		fillRandom(big, rng, false, hi, lo);
		Image o = big.resize(nw, nh, Image::ResizeFilter::Box);
		if (!shape(o, "shrink", nw, nh))
			return;
		std::vector<Px> s = pixelsOf(big), p = pixelsOf(o);
		for (unsigned y = 0; y < nh; ++y)
			for (unsigned x = 0; x < nw; ++x)
				for (auto& c : l.comps)
				{
					double sum = 0;
					bool light = cs == ColorSpace::sRGB && c.ch != 3;
					for (unsigned j = 0; j < fy; ++j)
						for (unsigned i = 0; i < fx; ++i)
						{
							double v = s[(size_t)(y*fy + j)*w + x*fx + i].v[c.ch];
							sum += light ? toLin(v) : v;
						}
					sum /= fx*fy;
					double want = light ? toSrgb(sum) : sum, got = p[(size_t)y*nw + x].v[c.ch];
					double sl = lightSlack(l, c, cs, want, intish ? 1.01 : 2.01);
					vh::eval();
					if (!(std::fabs(want - got) <= sl))
					{
						vh::violation(std::string(l.name) + ":" + csName(cs) + ":box-average",
							fmt("%ux%u->%ux%u pixel (%u,%u) channel %d: average %.9g, got %.9g", w, h, nw, nh, x, y, c.ch, want, got));
						return;
					}
				}
		id = std::string(l.name) + ":Box:" + csName(cs);
	}
	else if (mode == 5)
	{
		// The same filter on the same data in double-checked precision: floats against this format.
		if (!bl || l.f == IF::Complex)
			return;
		bool up = rng.chance(0.5);
		unsigned k = (unsigned)rng.range(2, 4);
		if (up) {nw = w*k; nh = h*k;}
		else {nw = (unsigned)rng.range(1, 6); nh = (unsigned)rng.range(1, 6); w = nw*k; h = nh*k;}
		Image a(l.f, w, h, cs);
		fillRandom(a, rng, false, hi, lo);
		Image f(IF::RGBAF, w, h, cs);
		std::vector<Px> ap = pixelsOf(a);
		double scale = intish ? 1.0/rangeHi(l, l.comps[0]) : 1.0;
		for (unsigned y = 0; y < h; ++y)
			for (unsigned x = 0; x < w; ++x)
				for (int c = 0; c < 4; ++c)
					((float*)f.scanline(y))[x*4 + (unsigned)c] = (float)(ap[(size_t)y*w + x].v[c]*(c < 3 || !intish ? scale : 1));
		Image o = a.resize(nw, nh, filter), fo = f.resize(nw, nh, filter);
		if (!shape(o, "formats", nw, nh) || !fo.isValid())
			return;
		std::vector<Px> p = pixelsOf(o), q = pixelsOf(fo);
		for (auto& c : l.comps)
			for (size_t i = 0; i < p.size(); ++i)
			{
				double want = q[i].v[c.ch]/scale, got = p[i].v[c.ch];
				double s = lightSlack(l, c, cs, want, 2.6) + std::fabs(want)*1e-5 + (intish ? 1e-6/scale : 1e-5*g_mag);
				vh::eval();
				if (!(std::fabs(want - got) <= s))
				{
					vh::violation(id + ":formats", fmt("%ux%u->%ux%u channel %d pixel %zu: RGBAF gives %.9g, this %.9g", w, h, nw, nh,
						c.ch, i, want, got));
					return;
				}
			}
	}
	else if (mode == 6)
	{
		// Every filter against its definition: weights of the kernel at the distance of the sample centres, stretched
		// when shrinking, normalised, one dimension after the other, in linear light. The data leave room for overshoot,
		// so that no intermediate clamping comes into it.
		double nlo = cs == ColorSpace::sRGB ? 0.62 : 0.25, nhi = cs == ColorSpace::sRGB ? 0.8 : 0.75;
		if (cs == ColorSpace::sRGB && !intish && (l.kind == IK::F32 || l.kind == IK::F64)) {lo = 0.62; hi = 0.8; g_mag = 1;}
		if (rng.chance(0.15)) {w = 1 + (unsigned)rng.below(200); nw = 1 + (unsigned)rng.below(200);}
		Image a(l.f, w, h, cs);
		fillRandom(a, rng, false, hi, lo, nlo, nhi);
		auto weights = [&](unsigned n, unsigned m, bool& edge)
		{
			std::vector<std::vector<double>> out(m, std::vector<double>(n));
			double ratio = (double)n/m, st = std::max(ratio, 1.0);
			for (unsigned i = 0; i < m; ++i)
			{
				double sum = 0;
				for (unsigned j = 0; j < n; ++j)
				{
					double t = std::fabs(j + 0.5 - (i + 0.5)*ratio)/st, k = 0;
					switch (filter)
					{
						case Image::ResizeFilter::Box: k = t <= 0.5; if (std::fabs(t - 0.5) < 1e-9) edge = true; break;
						case Image::ResizeFilter::Linear: k = std::max(0.0, 1 - t); break;
						case Image::ResizeFilter::Cubic: // Mitchell and Netravali, B = C = 1/3
							k = t < 1 ? (16 + t*t*(21*t - 36))/18 : t < 2 ? (32 + t*(-60 + t*(36 - 7*t)))/18 : 0; break;
						case Image::ResizeFilter::CatmullRom:
							k = t < 1 ? (2 + t*t*(-5 + 3*t))/2 : t < 2 ? (4 + t*(-8 + t*(5 - t)))/2 : 0; break;
						case Image::ResizeFilter::BSpline:
							k = t < 1 ? (4 + t*t*(-6 + 3*t))/6 : t < 2 ? (2 - t)*(2 - t)*(2 - t)/6 : 0; break;
					}
					out[i][j] = k;
					sum += k;
				}
				for (auto& k : out[i]) k /= sum;
			}
			return out;
		};
		bool edge = false;
		auto wx = weights(w, nw, edge), wy = weights(h, nh, edge);
		Image o = a.resize(nw, nh, filter);
		if (!shape(o, "kernel", nw, nh))
			return;
		// Along a dimension that keeps its size, filters which blur may be left out or not.
		if (edge || (w == nw && h == nh) || ((w == nw || h == nh) && (filter == Image::ResizeFilter::Cubic ||
			filter == Image::ResizeFilter::BSpline)))
			return;
		std::vector<Px> s = pixelsOf(a), p = pixelsOf(o);
		for (auto& c : l.comps)
		{
			bool light = cs == ColorSpace::sRGB && c.ch != 3;
			std::vector<double> mid((size_t)nw*h);
			for (unsigned y = 0; y < h; ++y)
				for (unsigned x = 0; x < nw; ++x)
				{
					double sum = 0;
					for (unsigned i = 0; i < w; ++i)
						if (wx[x][i] != 0)
						{
							double v = s[(size_t)y*w + i].v[c.ch];
							sum += wx[x][i]*(light ? toLin(v) : v);
						}
					mid[(size_t)y*nw + x] = sum;
				}
			for (unsigned y = 0; y < nh; ++y)
				for (unsigned x = 0; x < nw; ++x)
				{
					double sum = 0;
					for (unsigned j = 0; j < h; ++j)
						sum += wy[y][j]*mid[(size_t)j*nw + x];
					double want = light ? toSrgb(sum) : sum, got = p[(size_t)y*nw + x].v[c.ch];
					double sl = lightSlack(l, c, cs, want, intish ? 2.01 : 2.6) + (intish || l.kind == IK::Norm ? 0 : 1e-5*g_mag);
					vh::eval();
					if (!(std::fabs(want - got) <= sl))
					{
						vh::violation(id + ":kernel", fmt("%ux%u->%ux%u pixel (%u,%u) channel %d: the filter gives %.9g, got %.9g", w, h,
							nw, nh, x, y, c.ch, want, got));
						return;
					}
				}
		}
	}
	else
	{
		// Brightness: linear-light mean of a smooth filter on a symmetric image is kept when the size doubles.
		Image o = img.resize(nw, nh, filter);
		if (!shape(o, "large", nw, nh))
			return;
		// A pixel far inside a uniform half stays what it was, for every filter.
		w = 24; h = 24;
		Image half(l.f, w, h, cs);
		Image two(l.f, 2, 1, cs);
		fillRandom(two, rng, false, hi, lo);
		bool vert = rng.chance(0.5);
		for (unsigned y = 0; y < h; ++y)
			for (unsigned x = 0; x < w; ++x)
				std::memcpy((uint8_t*)half.scanline(y) + (size_t)x*l.bytes,
					(uint8_t*)two.scanline(0) + ((vert ? y : x) >= 12 ? l.bytes : 0), l.bytes);
		unsigned n = (unsigned)rng.range(8, 60);
		nw = vert ? 24 : n; nh = vert ? n : 24;
		if (rng.chance(0.5)) {nw = n; nh = n;}
		o = half.resize(nw, nh, filter);
		if (!shape(o, "halves", nw, nh))
			return;
		Px a = readRaw(l, two.scanline(0), 0), b = readRaw(l, two.scanline(0), 1);
		std::vector<Px> p = pixelsOf(o);
		for (unsigned y = 0; y < nh; ++y)
			for (unsigned x = 0; x < nw; ++x)
			{
				double t = ((vert ? y : x) + 0.5)/(vert ? nh : nw)*24;
				double reach = 2.6*std::max(1.0, 24.0/(vert ? nh : nw));
				const Px* want = t < 12 - reach ? &a : t > 12 + reach ? &b : nullptr;
				if (!want) continue;
				for (auto& c : l.comps)
				{
					double v = want->v[c.ch], got = p[(size_t)y*nw + x].v[c.ch];
					vh::eval();
					if (!(std::fabs(v - got) <= lightSlack(l, c, cs, v, intish ? 1.001 : 1.6)))
					{
						vh::violation(id + ":halves", fmt("24x24->%ux%u (%u,%u) channel %d: %.9g became %.9g", nw, nh, x, y, c.ch, v, got));
						return;
					}
				}
			}
	}
	vh::cover(id + fmt(":mode%u", mode));
	if (idx < 4)
		vh::sample(fmt("%s mode %u %ux%u -> %ux%u", id.c_str(), mode, w, h, nw, nh));
}

//---------------------------------------------------------------------------------------------

static void c16(uint64_t idx, Rng& rng)
{
	const auto& ls = imageLayouts();
	const ILayout& l = ls[idx % ls.size()];
	unsigned op = (unsigned)(idx/ls.size()) % 5;
	static const char* names[] = {"colorspace", "grayscale", "premultiply", "swizzle", "roundtrip"};
	unsigned w, h;
	pickSize(rng, w, h);
	ColorSpace cs = pickCs(rng), ncs = cs;
	Image img(l.f, w, h, cs);
	fillRandom(img, rng, false, rng.chance(0.7) ? 1 : 4);
	std::string id = std::string(l.name) + ":" + names[op] + ":" + csName(cs);
	std::vector<Px> src = pixelsOf(img), want = src;
	std::vector<uint8_t> before = bytesOf(img);
	Image::Channel sw[4];
	bool ok = false, exactSame = false;
	switch (op)
	{
		case 0:
		case 4:
		{
			ncs = rng.chance(0.8) ? (cs == ColorSpace::sRGB ? ColorSpace::Linear : ColorSpace::sRGB) : cs;
			ok = img.changeColorSpace(ncs);
			if (ncs == cs) exactSame = true;
			else
				for (auto& p : want)
					for (int c = 0; c < 3; ++c)
						p.v[c] = ncs == ColorSpace::sRGB ? toSrgb(p.v[c]) : toLin(p.v[c]);
			break;
		}
		case 1:
			ok = img.grayscale();
			for (auto& p : want)
			{
				double b = l.f == IF::Complex ? 0 : p.v[2];
				p.v[0] = p.v[1] = p.v[2] = cs == ColorSpace::sRGB ? toSrgb(lum(toLin(p.v[0]), toLin(p.v[1]), toLin(b))) :
					lum(p.v[0], p.v[1], b);
			}
			break;
		case 2:
			ok = img.preMultiplyAlpha();
			if (!l.alpha) exactSame = true;
			for (auto& p : want)
				for (int c = 0; c < 3 && l.alpha; ++c)
					p.v[c] = cs == ColorSpace::sRGB ? toSrgb(toLin(p.v[c])*p.v[3]) : p.v[c]*p.v[3];
			break;
		case 3:
			for (auto& s : sw) s = (Image::Channel)rng.below(5);
			ok = img.swizzle(sw[0], sw[1], sw[2], sw[3]);
			for (size_t i = 0; i < want.size(); ++i)
				for (int c = 0; c < 4; ++c)
				{
					Px s = src[i];
					if (l.f == IF::Complex) s.v[2] = 0;
					want[i].v[c] = sw[c] == Image::Channel::None ? (c == 3 ? 1 : 0) : s.v[(int)sw[c]];
				}
			break;
	}
	VH_CHECK(ok, id + ":refused", "%ux%u", w, h);
	VH_CHECK(img.format() == l.f && img.width() == w && img.height() == h && img.colorSpace() == ncs, id + ":shape",
		"%ux%u %s", img.width(), img.height(), csName(img.colorSpace()));
	checkMasks(img, names[op]);
	if (exactSame)
		VH_CHECK(sameBytes(img, before), id + ":unchanged", "%ux%u changed", w, h);
	std::vector<Px> got = pixelsOf(img);
	auto compare = [&](const std::vector<Px>& wantPx, const std::vector<Px>& gotPx, const char* tag, double extra)
	{
		for (size_t i = 0; i < wantPx.size(); ++i)
			for (auto& c : l.comps)
			{
				double wv = wantPx[i].v[c.ch], slack = std::fabs(wv)*1e-9 + extra*stepOf(l, c, wv);
				if (l.kind == IK::F32) slack += std::fabs(wv)*1e-7;
				if (!std::isfinite(wv)) continue;
				vh::eval();
				if (!storedOk(l, c, wv, gotPx[i].v[c.ch], slack))
				{
					vh::violation(id + tag, fmt("%ux%u pixel (%zu,%zu) channel %d: %s should give %.12g, got %.12g", w, h, i % w, i/w,
						c.ch, pxs(src[i]).c_str(), wv, gotPx[i].v[c.ch]));
					return false;
				}
			}
		return true;
	};
	if (!compare(want, got, ":value", 0))
		return;
	if (op == 1 && l.f != IF::Complex)
	{
		img.grayscale();
		// Channels of unequal precision round the same gray differently, so a second pass may move by a step.
		bool uneven = l.comps[0].bits != l.comps[std::min<size_t>(1, l.comps.size() - 1)].bits;
		compare(got, pixelsOf(img), ":idempotent", l.kind == IK::Norm ? (uneven ? 1 : 0) :
			l.kind == IK::F32 || l.kind == IK::F64 ? 8 : 0);
	}
	if (op == 4 && ncs != cs && (l.kind == IK::F32 || l.kind == IK::F64 || l.comps[0].bits == 16) && l.kind != IK::UInt &&
		l.kind != IK::SInt)
	{
		VH_CHECK(img.changeColorSpace(cs), id + ":back", "refused");
		std::vector<Px> back = pixelsOf(img);
		for (size_t i = 0; i < src.size(); ++i)
			for (auto& c : l.comps)
			{
				double a = src[i].v[c.ch], b = back[i].v[c.ch];
				double s = l.kind == IK::Norm ? lightSlack(l, c, cs == ColorSpace::sRGB ? cs : ColorSpace::Linear, a, 1.1) +
					(cs == ColorSpace::Linear ? stepOf(l, c, a)*2 : 0) : std::max(1e-4*std::fabs(a), 1e-5);
				vh::eval();
				if (!(std::fabs(a - b) <= s))
				{
					vh::violation(id + ":roundtrip", fmt("%.9g came back as %.9g", a, b));
					return;
				}
			}
	}
	Image none;
	VH_CHECK(!none.changeColorSpace(ColorSpace::sRGB) && !none.grayscale() && !none.preMultiplyAlpha() &&
		!none.swizzle(Image::Channel::Red, Image::Channel::Red, Image::Channel::Red, Image::Channel::Red) &&
		!none.flipHorizontal() && !none.flipVertical() && !none.isValid(), "invalid-image", "an empty image accepts an operation");
	vh::cover(id);
	if (idx < 4)
		vh::sample(fmt("%s %ux%u", id.c_str(), w, h));
}

//---------------------------------------------------------------------------------------------

static void c17(uint64_t idx, Rng& rng)
{
	const auto& ls = imageLayouts();
	const ILayout& s = ls[idx % ls.size()];
	const ILayout& d = ls[rng.below(ls.size())];
	unsigned opts = (unsigned)rng.below(8);
	unsigned w, h;
	pickSize(rng, w, h);
	ColorSpace cs = rng.chance(0.2) ? ColorSpace::sRGB : ColorSpace::Linear;
	Image img(s.f, w, h, cs);
	fillRandom(img, rng, false, rng.chance(0.7) ? 1 : 50);
	bool flat = rng.chance(0.1);
	if (flat)
		for (unsigned y = 0; y < h; ++y)
			for (unsigned x = 0; x < w; ++x)
				std::memcpy((uint8_t*)img.scanline(y) + (size_t)x*s.bytes, img.scanline(0), s.bytes);
	double height = rng.pick({1.0, 1.0, 0.5, 4.0, 0.0, -2.0, 25.0, 0.01, 1000.0});
	std::vector<uint8_t> before = bytesOf(img);
	std::vector<Px> src = pixelsOf(img);
	Image out = img.createNormalMap((Image::NormalOptions)opts, height, d.f);
	std::string id = std::string(s.name) + ">" + d.name + fmt(":o%u", opts);
	VH_CHECK(out.isValid() && out.format() == d.f && out.width() == w && out.height() == h && out.colorSpace() == cs, id + ":shape",
		"%ux%u %s -> %ux%u %s", w, h, csName(cs), out.width(), out.height(), csName(out.colorSpace()));
	VH_CHECK(sameBytes(img, before), id + ":source", "the source changed");
	checkMasks(out, "normals");
	if (!out.isValid() || out.width() != w || out.height() != h || out.format() != d.f)
		return;
	bool keep = opts & 1, wx = opts & 2, wy = opts & 4;
	std::vector<Px> got = pixelsOf(out);
	auto H = [&](unsigned x, unsigned y) {return src[(size_t)y*w + x].v[0];};
	for (unsigned y = 0; y < h; ++y)
		for (unsigned x = 0; x < w; ++x)
		{
			// Neighbours that exist; at an edge without wrapping the difference is one-sided.
			auto diff = [&](bool vert)
			{
				unsigned n = vert ? h : w, p = vert ? y : x;
				bool wrap = vert ? wy : wx;
				int lo = (int)p - 1, hi = (int)p + 1;
				double dist = 2;
				if (lo < 0) {if (wrap) lo = (int)n - 1; else {lo = 0; dist -= 1;}}
				if (hi >= (int)n) {if (wrap) hi = 0; else {hi = (int)n - 1; dist -= 1;}}
				if (dist == 0) return 0.0;
				double a = vert ? H(x, (unsigned)lo) : H((unsigned)lo, y), b = vert ? H(x, (unsigned)hi) : H((unsigned)hi, y);
				return (a - b)/dist;
			};
			double dx = diff(false)*height, dy = -diff(true)*height;
			double len = std::sqrt(dx*dx + dy*dy + 1);
			double n[3] = {dx/len, dy/len, 1/len};
			Px want{{0, 0, 0, 1}};
			for (int c = 0; c < 3; ++c)
				want.v[c] = keep ? n[c] : n[c]*0.5 + 0.5;
			want = wantWrite(d, ColorSpace::Linear, want, true);
			if (flat && !(n[0] == 0 && n[1] == 0 && n[2] == 1))
				vh::violation("oracle", "flat");
			for (auto& c : d.comps)
			{
				vh::eval();
				double g = got[(size_t)y*w + x].v[c.ch];
				double slack = d.kind == IK::F32 ? 1e-7 : d.kind == IK::UInt || d.kind == IK::SInt ? 1e-7 : 1e-9;
				if (d.kind == IK::UInt || d.kind == IK::SInt)
				{
					// -1..1 or 0..1 truncated or rounded.
					double wv = std::max(want.v[c.ch], rangeLo(d, c));
					if (std::fabs(g - wv) < 1 + 1e-6) continue;
				}
				else if (storedOk(d, c, want.v[c.ch], g, slack))
					continue;
				vh::violation(std::string(s.name) + ">" + d.name + fmt(":%s%s%s", keep ? "K" : "", wx ? "X" : "", wy ? "Y" : ""),
					fmt("%s %ux%u (%u,%u) height %g channel %d: expected %.9g, got %.9g", csName(cs), w, h, x, y, height, c.ch,
					want.v[c.ch], g));
				return;
			}
		}
	vh::cover(std::string(s.name) + fmt(":o%u", opts) + (w == 1 ? ":w1" : w == 2 ? ":w2" : "") + (h == 1 ? ":h1" : h == 2 ? ":h2" : ""));
	vh::cover(std::string("to:") + d.name + csName(cs) + (flat ? ":flat" : ""));
	if (idx < 4)
		vh::sample(fmt("%s %ux%u height %g", id.c_str(), w, h, height));
}

int main(int argc, char** argv)
{
	return vh::runMain(argc, argv, {{"C12", c12}, {"C13", c13}, {"C14", c14}, {"C15", c15}, {"C16", c16}, {"C17", c17}});
}
