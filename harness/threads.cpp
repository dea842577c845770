// C02: conversion under many schedules, watched by ThreadSanitizer (and without it at full speed).
// The library is compiled with -finstrument-functions, so that every function entered by a worker is
// a point at which the schedule can be disturbed and is observed.
#include "texgen.h"
#include "schedule.h"
#include <thread>
#include <memory>
#include <set>
#include <mutex>
#include <sstream>
using namespace ref;
using namespace cuttlefish;
using vh::Rng;
using vh::fmt;
using Face = Texture::CubeFace;
using Bytes = std::vector<uint8_t>;

static std::vector<Bytes> dataOf(const Texture& t)
{
	std::vector<Bytes> r;
	for (unsigned m = 0; m < t.mipLevelCount(); ++m)
		for (unsigned d = 0; d < t.depth(m); ++d)
			for (unsigned f = 0; f < t.faceCount(); ++f)
			{
				const uint8_t* p = (const uint8_t*)t.data((Face)f, m, d);
				size_t n = t.dataSize((Face)f, m, d);
				r.push_back(p ? Bytes(p, p + n) : Bytes());
			}
	return r;
}

struct Work
{
	TexSpec s;
	std::vector<Image> src; // in order of mip, depth, face
	Texture::ColorMask mask;
	Texture make() const
	{
		Texture t(s.dim, s.w, s.h, s.depth, s.mips, s.cs);
		size_t i = 0;
		for (unsigned m = 0; m < s.mips; ++m)
			for (unsigned d = 0; d < s.ld(m); ++d)
				for (unsigned f = 0; f < s.faces(); ++f)
					t.setImage(src[i++], (Face)f, m, d);
		return t;
	}
	bool convert(Texture& t, unsigned threads) const
	{
		return t.convert(s.l->format, s.type, Texture::Quality::Normal, s.alpha, mask, threads);
	}
};

static Work draw(Rng& rng, bool small, bool vast = false)
{
	Work w;
	T type;
	const Layout* l = anyLayout(rng, type);
	drawSpec(rng, w.s, l, type, 12);
	w.s.depth = std::min(w.s.depth, 4u);
	if (w.s.dim == Texture::Dimension::Dim3D) w.s.depth = std::max(1u, w.s.depth);
	// Mostly sizes with many batches for the workers.
	if (!small && rng.chance(0.75))
	{
		w.s.w = 1 + (unsigned)rng.below(120);
		w.s.h = w.s.dim == Texture::Dimension::Dim1D ? 1 : w.s.dim == Texture::Dimension::Cube ? (w.s.w = 1 + w.s.w % 48) :
			1 + (unsigned)rng.below(80);
	}
	else
	{
		w.s.w = std::min(w.s.w, 40u); w.s.h = std::min(w.s.h, 40u);
		if (w.s.dim == Texture::Dimension::Cube) w.s.h = w.s.w;
	}
	// Now and then one with many thousands of batches.
	if (!small && w.s.dim == Texture::Dimension::Dim2D && rng.chance(0.02))
	{
		w.s.w = 200 + (unsigned)rng.below(600);
		w.s.h = 200 + (unsigned)rng.below(300);
		w.s.depth = std::min(w.s.depth, 1u);
	}
	if (vast)
	{
		// More batches of 32 pixels than 16 bits can count.
		w.s.dim = Texture::Dimension::Dim2D;
		w.s.w = 1449 + (unsigned)rng.below(300);
		w.s.h = 1449 + (unsigned)rng.below(100);
		w.s.depth = 0;
		w.s.mips = 1;
		vh::count("vast surfaces");
	}
	w.s.mips = std::min(w.s.mips, std::min(4u, maxLevels(w.s)));
	w.mask = Texture::ColorMask(rng.chance(0.9), rng.chance(0.9), rng.chance(0.9), rng.chance(0.9));
	for (unsigned m = 0; m < w.s.mips; ++m)
		for (unsigned d = 0; d < w.s.ld(m); ++d)
			for (unsigned f = 0; f < w.s.faces(); ++f)
				w.src.push_back(toImage(drawSurf(rng, w.s, w.s.lw(m), w.s.lh(m)), w.s.cs));
	return w;
}

static std::string firstDifference(const std::vector<Bytes>& a, const std::vector<Bytes>& b)
{
	if (a.size() != b.size()) return "number of surfaces";
	for (size_t i = 0; i < a.size(); ++i)
	{
		if (a[i].size() != b[i].size()) return fmt("surface %zu has %zu bytes, expected %zu", i, a[i].size(), b[i].size());
		for (size_t k = 0; k < a[i].size(); ++k)
			if (a[i][k] != b[i][k]) return fmt("surface %zu byte %zu is %02x, expected %02x", i, k, a[i][k], b[i][k]);
	}
	return "";
}

static std::set<uint64_t>& signatures() {static std::set<uint64_t> s; return s;}

static void observe(const char* kind, unsigned threads)
{
	uint64_t sw = sched::switches.load();
	signatures().insert(sched::signature.load());
	vh::count("context-switches-seen", sw);
	vh::count("injected-delays", sched::delays.load());
	vh::cover(fmt("%s:threads%u:switches2^%d", kind, threads, sw ? 64 - __builtin_clzll(sw) : 0));
	// Each distinct interleaving of the workers counts once per process.
	static size_t last = 0;
	if (signatures().size() != last)
	{
		vh::count("distinct-interleavings");
		last = signatures().size();
	}
}

static void oneTexture(uint64_t idx, Rng& rng)
{
#ifdef __SANITIZE_THREAD__
	bool vast = false;
#else
	bool vast = idx % 3000 == 11;
#endif
	Work w = draw(rng, false, vast);
	Texture a = w.make();
	bool ok = w.convert(a, 1);
	VH_CHECK(ok, "convert", "%s was refused", w.s.str().c_str());
	if (!ok) return;
	auto ref = dataOf(a);
	// The reference itself is what the format says (NaN free sources).
	size_t i = 0;
	for (unsigned m = 0; m < w.s.mips; ++m)
		for (unsigned d = 0; d < w.s.ld(m); ++d)
			for (unsigned f = 0; f < w.s.faces(); ++f, ++i)
			{
				Surf sf;
				sf.w = w.s.lw(m); sf.h = w.s.lh(m);
				for (unsigned y = 0; y < sf.h; ++y)
				{
					const float* p = (const float*)w.src[i].scanline(y);
					sf.px.insert(sf.px.end(), p, p + sf.w*4);
				}
				if (ref[i].size() != (size_t)sf.w*sf.h*w.s.l->bytes) {vh::violation("size", w.s.str()); return;}
				std::string e = checkSurf(*w.s.l, w.s.type, sf, ref[i].data(), (size_t)sf.w*w.s.l->bytes);
				vh::eval();
				if (!e.empty()) vh::violation(std::string("sequential:") + w.s.l->name, w.s.str() + ": " + e);
			}
	static const unsigned counts[] = {0, 2, 2, 3, 3, 4, 5, 7, 8, 13, 16, 33, Texture::allCores};
	unsigned rounds = vast ? 1 : 3;
	for (unsigned r = 0; r < rounds; ++r)
	{
		unsigned th = vast ? 6 : rng.chance(0.01) ? 64 + (unsigned)rng.below(240) : rng.pick(counts);
		Texture b = w.make();
		{
			Arm arm(1 + (unsigned)rng.below(3), rng.next());
			ok = w.convert(b, th);
		}
		std::string diff = ok ? firstDifference(dataOf(b), ref) : "refused";
		vh::eval();
		if (!diff.empty())
			vh::violation(fmt("threads:%s", w.s.l->name), w.s.str() + fmt(" with %u threads: ", th) + diff);
		observe("single", th);
	}
	vh::cover(fmt("%s:%s", w.s.l->name, typeName(w.s.type)));
	if (idx % 41 == 0)
		vh::sample(w.s.str() + fmt(" %zu surfaces", ref.size()));
}

static Bytes saved(Texture& t)
{
	Bytes d;
	t.save(d, Texture::FileType::PVR);
	return d;
}

// Everything one thread does in the concurrent cases, with its own objects only.
static std::vector<Bytes> life(const Work& w, unsigned threads, uint64_t seed)
{
	Rng rng(seed);
	Texture t = w.make();
	std::vector<Bytes> r;
	Image i(IF::RGB8, 9, 7, ColorSpace::sRGB);
	fillRandom(i, rng, false);
	Image big = i.resize(13, 5, Image::ResizeFilter::CatmullRom);
	big = big.rotate(Image::RotateAngle::CW90);
	r.push_back(bytesOf(big));
	r.push_back(bytesOf(i.convert(IF::Gray8)));
	r.push_back(bytesOf(i.createNormalMap()));
	if (!w.convert(t, threads)) return {};
	auto d = dataOf(t);
	r.insert(r.end(), d.begin(), d.end());
	r.push_back(saved(t));
	Texture m(Texture::Dimension::Dim2D, 9, 7);
	m.setImage(i);
	m.generateMipmaps();
	m.convert(Texture::Format::R8G8B8A8, Texture::Type::UNorm, Texture::Quality::Normal, Texture::Alpha::Standard, Texture::ColorMask(),
		threads);
	d = dataOf(m);
	r.insert(r.end(), d.begin(), d.end());
	return r;
}

static void manyTextures(uint64_t, Rng& rng)
{
	unsigned n = 2 + (unsigned)rng.below(4);
	std::vector<Work> ws;
	std::vector<unsigned> th;
	std::vector<uint64_t> seeds;
	for (unsigned i = 0; i < n; ++i)
	{
		ws.push_back(draw(rng, true));
		th.push_back((unsigned)rng.below(5));
		seeds.push_back(rng.next());
	}
	std::vector<std::vector<Bytes>> got(n);
	{
		Arm arm(1 + (unsigned)rng.below(3), rng.next());
		std::vector<std::thread> t;
		for (unsigned i = 0; i < n; ++i)
			t.emplace_back([&, i] {got[i] = life(ws[i], th[i], seeds[i]);});
		for (auto& x : t) x.join();
	}
	observe("concurrent", n);
	// Afterwards, alone.
	for (unsigned i = 0; i < n; ++i)
	{
		auto want = life(ws[i], 1, seeds[i]);
		std::string diff = firstDifference(got[i], want);
		vh::eval(want.size());
		if (!diff.empty())
			vh::violation("concurrent", ws[i].s.str() + fmt(" among %u textures: ", n) + diff);
	}
}

// One texture read from several threads, each converting its own copy.
static void sharedSource(uint64_t, Rng& rng)
{
	Work w = draw(rng, true);
	const Texture t = w.make();
	unsigned n = 2 + (unsigned)rng.below(3);
	std::vector<std::vector<Bytes>> got(n);
	std::vector<unsigned> th;
	for (unsigned i = 0; i < n; ++i) th.push_back(1 + (unsigned)rng.below(4));
	{
		Arm arm(1 + (unsigned)rng.below(3), rng.next());
		std::vector<std::thread> ts;
		for (unsigned i = 0; i < n; ++i)
			ts.emplace_back([&, i]
			{
				Texture copy(t);
				if (!t.imagesComplete() || t.getImage(99, 99).isValid()) return;
				if (w.convert(copy, th[i])) got[i] = dataOf(copy);
			});
		for (auto& x : ts) x.join();
	}
	observe("shared", n);
	Texture a = w.make();
	w.convert(a, 1);
	auto ref = dataOf(a);
	for (unsigned i = 0; i < n; ++i)
	{
		std::string diff = firstDifference(got[i], ref);
		vh::eval();
		if (!diff.empty())
			vh::violation("shared", w.s.str() + fmt(" copied in %u threads: ", n) + diff);
	}
	for (size_t i = 0, k = 0; i < w.s.mips; ++i)
		for (unsigned d = 0; d < w.s.ld((unsigned)i); ++d)
			for (unsigned f = 0; f < w.s.faces(); ++f, ++k)
				VH_CHECK(bytesOf(t.getImage((Face)f, (unsigned)i, d)) == bytesOf(w.src[k]), "shared-source", "%s: the source changed", w.s.str().c_str());
}

static void threads(uint64_t idx, Rng& rng)
{
	// A process starts with any of these, so first-time initialisation is concurrent as well.
	unsigned k = (unsigned)rng.below(10);
#ifndef __SANITIZE_THREAD__
	if (idx % 3000 == 11) k = 0;
#endif
	if (k < 7) oneTexture(idx, rng);
	else if (k < 9) manyTextures(idx, rng);
	else sharedSource(idx, rng);
}

int main(int argc, char** argv)
{
	return vh::runMain(argc, argv, {{"C02", threads}});
}
