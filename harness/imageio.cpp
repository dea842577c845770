// C11: images load the same from every source and survive lossless round trips.
#include "iref.h"
#include "streams.h"
#include "fileutil.h"
#include "coded.h"
#include <array>
#include <sstream>
#include <fstream>
using namespace ref;
using namespace cuttlefish;
using vh::Rng;
using vh::fmt;

struct Lossless {const char* ext; std::vector<IF> formats;};

static const std::vector<Lossless>& lossless()
{
	static const std::vector<Lossless> l{
		{"bmp", {IF::Gray8, IF::RGB5, IF::RGB565, IF::RGB8, IF::RGBA8}},
		{"png", {IF::Gray8, IF::Gray16, IF::RGB8, IF::RGB16, IF::RGBA8, IF::RGBA16}},
		{"tif", {IF::Gray8, IF::Gray16, IF::RGB8, IF::RGB16, IF::RGBF, IF::RGBA8, IF::RGBA16, IF::RGBAF, IF::Int16, IF::Int32,
			IF::UInt32, IF::Float, IF::Double, IF::Complex}},
		{"tga", {IF::Gray8, IF::RGB5, IF::RGB8, IF::RGBA8}},
		{"ppm", {IF::Gray8, IF::Gray16, IF::RGB8, IF::RGB16}},
		{"pfm", {IF::RGBF, IF::Float}},
		{"gif", {IF::Gray8}},
		{"xpm", {IF::RGB8}},
	};
	return l;
}

struct Loaded
{
	bool ok = false, valid = false;
	IF f = IF::Invalid;
	unsigned w = 0, h = 0;
	ColorSpace cs = ColorSpace::Linear;
	std::vector<uint8_t> bytes;
	bool operator==(const Loaded& o) const
	{
		return ok == o.ok && valid == o.valid && (!ok || (f == o.f && w == o.w && h == o.h && cs == o.cs && bytes == o.bytes));
	}
	std::string str() const {return ok ? fmt("format %d %ux%u %s", (int)f, w, h, csName(cs)) : std::string("failure");}
};

static Loaded grab(bool ok, const Image& img)
{
	Loaded l;
	l.ok = ok;
	l.valid = img.isValid();
	if (ok && l.valid)
	{
		l.f = img.format(); l.w = img.width(); l.h = img.height(); l.cs = img.colorSpace();
		l.bytes = bytesOf(img);
		checkMasks(img, "loaded");
	}
	return l;
}

// Loads d through every source. Half of the targets already hold another image.
static std::vector<std::pair<std::string, Loaded>> loadAll(Rng& rng, const std::vector<uint8_t>& d, const std::string& ext,
	ColorSpace cs)
{
	std::vector<std::pair<std::string, Loaded>> r;
	auto fresh = [&]() {return rng.chance(0.5) ? Image(IF::RGB8, 3, 2) : Image();};
	{
		Image i = fresh();
		bool ok = i.load(d.data(), d.size(), cs);
		r.push_back({"memory", grab(ok, i)});
	}
	{
		// The name's extension is not what decides.
		std::string p = vh::scratchFile("in." + (rng.chance(0.7) ? ext : std::string("dat")));
		vh::writeFile(p, d.data(), d.size());
		Image i = fresh();
		bool ok = i.load(p.c_str(), cs);
		r.push_back({"file", grab(ok, i)});
		Image c(p.c_str(), cs);
		r.push_back({"file constructor", grab(c.isValid(), c)});
		std::ifstream s(p, std::ios::binary);
		Image j = fresh();
		ok = j.load(s, cs);
		r.push_back({"ifstream", grab(ok, j)});
		unlink(p.c_str());
	}
	{
		Image i(d.data(), d.size(), cs);
		r.push_back({"memory constructor", grab(i.isValid(), i)});
		std::istringstream s(std::string((const char*)d.data(), d.size()));
		Image j(s, cs);
		r.push_back({"stream constructor", grab(j.isValid(), j)});
		if (cs == ColorSpace::Linear)
		{
			Image k(d.data(), d.size());
			r.push_back({"memory constructor without colour space", grab(k.isValid(), k)});
		}
	}
	{
		std::istringstream s(std::string((const char*)d.data(), d.size()));
		Image i = fresh();
		bool ok = i.load(s, cs);
		r.push_back({"stringstream", grab(ok, i)});
	}
	for (bool pipe : {false, true})
	{
		size_t chunk = rng.chance(0.4) ? 1 + rng.below(7) : 1 + rng.below(5000);
		vh::ChunkIn b(d.data(), d.size(), chunk, pipe);
		std::istream s(&b);
		Image i = fresh();
		bool ok = i.load(s, cs);
		r.push_back({pipe ? "pipe" : "chunks", grab(ok, i)});
		vh::count("refills", b.refills);
		vh::count("seeks", b.seeks);
	}
	return r;
}

static void agree(const std::vector<std::pair<std::string, Loaded>>& l, const std::string& key, const std::string& what)
{
	for (auto& x : l)
	{
		vh::eval();
		if (x.second.ok != x.second.valid)
			vh::violation(key + ":validity:" + x.first, what + ": load returned " + (x.second.ok ? "true" : "false") +
				" but the image is " + (x.second.valid ? "valid" : "invalid"));
		if (!(x.second == l[0].second))
			vh::violation(key + ":differs:" + x.first, what + ": from " + x.first + " " + x.second.str() + ", from memory " +
				l[0].second.str());
	}
}

// Images written by hand, with the colours they stand for.
static void handWritten(Rng& rng, unsigned w, unsigned h, ColorSpace cs)
{
	coded::Coded c = coded::any(rng, w, h);
	auto l = loadAll(rng, c.d, c.ext, cs);
	std::string what = fmt("%s %ux%u", c.what.c_str(), w, h);
	agree(l, "coded:" + c.ext, what);
	Image img(c.d.data(), c.d.size(), cs);
	const Loaded& m = l[0].second;
	vh::eval();
	if (c.mayFail && !m.ok)
	{
		vh::cover("coded:" + c.what + ":refused");
		return;
	}
	if (!m.ok || m.w != w || m.h != h || m.cs != cs || !img.isValid())
	{
		vh::violation("coded:load:" + c.what, what + " loaded as " + m.str());
		return;
	}
	VH_CHECK(ilayout(m.f).kind == (c.real ? IK::F32 : IK::Norm) && (c.gray || !ilayout(m.f).gray) && (!c.alpha || ilayout(m.f).comp(3)) &&
		(c.real || c.depth == 8 || ilayout(m.f).comps[0].bits == 16), "coded:format:" + c.what, "%s loaded as %s, which cannot hold it", what.c_str(),
		m.str().c_str());
	for (unsigned y = 0; y < h; ++y)
		for (unsigned x = 0; x < w; ++x)
		{
			ColorRGBAd g;
			img.getPixel(g, x, y);
			const double* e = &c.px[((size_t)y*w + x)*4];
			const double* v = &g.r;
			vh::eval();
			for (int i = 0; i < (c.anyAlpha ? 3 : 4); ++i)
				if (!(std::fabs(v[i] - e[i]) <= c.tol))
				{
					vh::violation("coded:pixel:" + c.what, what + fmt(" loaded as %s: channel %d of (%u,%u) is %.9g, the file says %.9g",
						m.str().c_str(), i, x, y, v[i], e[i]));
					return;
				}
		}
	vh::cover(fmt("coded:%s:%s", c.what.c_str(), csName(cs)));
}

static void images(uint64_t idx, Rng& rng)
{
	ColorSpace cs = rng.chance(0.5) ? ColorSpace::sRGB : ColorSpace::Linear;
	unsigned w = 1 + (unsigned)rng.below(20), h = 1 + (unsigned)rng.below(20);
	if (rng.chance(0.05)) {w = 1 + (unsigned)rng.below(300); h = 1 + (unsigned)rng.below(100);}
	unsigned kind = rng.chance(0.2) ? 0 : (unsigned)rng.below(10);
	if (kind == 0)
	{
		handWritten(rng, w, h, cs);
		return;
	}
	if (kind == 1)
	{
		// Not images at all.
		std::vector<uint8_t> d(rng.below(200));
		for (auto& b : d) b = (uint8_t)rng.next();
		if (rng.chance(0.3)) d.clear();
		auto l = loadAll(rng, d, "png", cs);
		agree(l, "garbage", fmt("%zu random bytes", d.size()));
		Image i(IF::RGB8, 2, 2);
		std::string p = vh::scratchFile("does-not-exist.png");
		VH_CHECK(!i.load(p.c_str(), cs) && !i.isValid(), "missing-file", "loading a missing file");
		Image j(IF::RGB8, 2, 2);
		VH_CHECK(!j.load(vh::st().scratch.c_str(), cs) && !j.isValid(), "directory", "loading a directory");
		vh::cover("garbage");
		return;
	}
	const Lossless& ll = rng.pick(lossless());
	static const char* lossy[] = {"jpg", "hdr", "exr", "webp"};
	std::string ext = kind == 2 ? rng.pick(lossy) : ll.ext;
	IF f = kind == 2 ? (ext == "hdr" ? IF::RGBF : ext == "exr" ? rng.chance(0.5) ? IF::RGBF : IF::RGBAF : IF::RGB8) : rng.pick(ll.formats);
	const ILayout& l = ilayout(f);
	Image img(f, w, h, cs);
	fillRandom(img, rng, false);
	auto orig = bytesOf(img);
	std::vector<uint8_t> d;
	std::string what = fmt("%s %s %ux%u %s", ext.c_str(), l.name, w, h, csName(cs));
	bool saved = img.save(d, ("x." + ext).c_str());
	VH_CHECK(saved, ext + ":save:" + l.name, "%s: not saved", what.c_str());
	VH_CHECK(img.isValid() && img.format() == f && bytesOf(img) == orig, ext + ":source:" + l.name, "%s: saving changed the image",
		what.c_str());
	if (!saved)
		return;
	auto loads = loadAll(rng, d, ext, cs);
	agree(loads, ext, what);
	Loaded m = loads[0].second;
	if (ext == "png" && f == IF::RGBA8 && m.ok && m.f == IF::RGB8 && m.bytes.size()/3 == orig.size()/4)
	{
		// FreeImage leaves out an alpha channel that is fully opaque. The pixels are the same.
		bool opaque = true;
		for (size_t i = 3; i < orig.size(); i += 4) opaque &= orig[i] == 255;
		if (opaque)
		{
			std::vector<uint8_t> b;
			for (size_t i = 0; i < m.bytes.size(); ++i)
			{
				b.push_back(m.bytes[i]);
				if (i % 3 == 2) b.push_back(255);
			}
			m.bytes = b;
			m.f = f;
			vh::cover("png:opaque");
		}
	}
	VH_CHECK(m.ok && m.w == w && m.h == h && m.cs == cs, ext + ":shape:" + l.name, "%s: loaded as %s", what.c_str(), m.str().c_str());
	if (kind != 2)
	{
		VH_CHECK(m.f == f, ext + ":format:" + l.name, "%s: loaded as %s", what.c_str(), m.str().c_str());
		if (m.f == f && m.bytes.size() == orig.size())
		{
			bool same = m.bytes == orig;
			vh::eval(orig.size());
			if (!same)
			{
				size_t i = 0;
				while (m.bytes[i] == orig[i]) ++i;
				vh::violation(ext + ":pixels:" + l.name, fmt("%s: byte %zu is %02x, was %02x", what.c_str(), i, m.bytes[i], orig[i]));
			}
		}
	}
	vh::cover(fmt("%s:%s:%s", ext.c_str(), l.name, csName(cs)));
	// Damage the container. Any outcome is fine as long as it is the same everywhere.
	if (rng.chance(0.3) && (ext == "png" || ext == "bmp" || ext == "ppm" || ext == "tga"))
	{
		auto t = d;
		t.resize(rng.chance(0.5) ? rng.below(t.size()) : t.size() - 1 - rng.below(std::min<size_t>(t.size() - 1, 40)));
		// FreeImage uses the masks without checking that it could read them, so a cut there has no defined result.
		if (ext == "bmp" && (f == IF::RGB565 || f == IF::RGB5) && t.size() < 66)
			t = std::vector<uint8_t>(d.begin(), d.begin() + 66);
		auto lt = loadAll(rng, t, ext, cs);
		agree(lt, ext + ":truncated", what + fmt(" cut to %zu of %zu bytes", t.size(), d.size()));
		vh::cover(ext + ":truncated:" + (lt[0].second.ok ? "ok" : "fail"));
	}
	if (idx % 101 == 0)
		vh::sample(what + fmt(" %zu bytes", d.size()));
}

int main(int argc, char** argv)
{
	return vh::runMain(argc, argv, {{"C11", images}});
}
