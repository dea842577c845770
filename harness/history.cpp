// C01: random histories of public calls with hostile arguments, under sanitizers, with leak accounting.
// C25: the same histories repeated over differently filled memory and in other processes.
#include "texgen.h"
#include "streams.h"
#include "fileutil.h"
#include "coded.h"
#include <fstream>
#include <atomic>
#include <cerrno>
#include <memory>
#include <sstream>
#include <array>
#include <malloc.h>
#include <dlfcn.h>
#include <pthread.h>
#include <sys/wait.h>
#include <dirent.h>
#include <FreeImage.h>
#ifdef VH_MEMCHECK
#include <valgrind/memcheck.h>
#endif
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#define VH_ASAN 1
#else
#define VH_ASAN 0
#endif
using namespace ref;
using namespace cuttlefish;
using vh::Rng;
using vh::fmt;
using FT = Texture::FileType;
using Dim = Texture::Dimension;
using Face = Texture::CubeFace;

static const unsigned formatCount = (unsigned)F::PVRTC2_RGBA_4BPP + 1;
static const unsigned typeCount = (unsigned)T::Float + 1;
static const unsigned imageFormatCount = (unsigned)IF::Complex + 1;

// ---------------------------------------------------------------- filling memory

#ifdef VH_FILL
static volatile uint64_t g_fill; // 0: leave alone
static std::atomic<uint64_t> g_filled{0};

static void fillBytes(void* p, size_t n)
{
	uint64_t s = g_fill;
	if (!s || !p) return;
	g_filled.fetch_add(n, std::memory_order_relaxed);
	uint8_t* b = (uint8_t*)p;
	s ^= (uint64_t)(n*0x9E3779B97F4A7C15ull);
	size_t i = 0;
	for (; i + 8 <= n; i += 8)
	{
		s = s*6364136223846793005ull + 1442695040888963407ull;
		uint64_t v = s ^ (s >> 29);
		std::memcpy(b + i, &v, 8);
	}
	for (; i < n; ++i)
		b[i] = (uint8_t)(s >> (8*(i & 7)));
}

extern "C"
{
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);

void* malloc(size_t n) {void* p = __libc_malloc(n); fillBytes(p, n); return p;}
void free(void* p)
{
	if (p && g_fill) {int e = errno; fillBytes(p, malloc_usable_size(p)); errno = e;}
	__libc_free(p);
}
void* calloc(size_t a, size_t b) {return __libc_calloc(a, b);}
void* realloc(void* p, size_t n)
{
	if (!p) return malloc(n);
	if (!g_fill || !n) return __libc_realloc(p, n);
	size_t old = malloc_usable_size(p);
	void* q = malloc(n);
	if (!q) return nullptr;
	std::memcpy(q, p, std::min(old, n));
	free(p);
	return q;
}
void* memalign(size_t a, size_t n) {void* p = __libc_memalign(a, n); fillBytes(p, n); return p;}
void* aligned_alloc(size_t a, size_t n) {return memalign(a, n);}
int posix_memalign(void** r, size_t a, size_t n)
{
	void* p = memalign(a, n);
	if (!p) return ENOMEM;
	*r = p;
	return 0;
}

__attribute__((noinline)) static void fillStack()
{
	volatile uint8_t b[160*1024];
	fillBytes((void*)b, sizeof b);
	__asm__ volatile("" : : "r"(b) : "memory");
}

struct Start {void* (*fn)(void*); void* arg;};
static void* started(void* p)
{
	Start s = *(Start*)p;
	__libc_free(p);
	fillStack();
	return s.fn(s.arg);
}
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{
	using Fn = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
	static Fn real = (Fn)dlsym(RTLD_NEXT, "pthread_create");
	Start* s = (Start*)__libc_malloc(sizeof(Start));
	s->fn = fn; s->arg = arg;
	return real(t, a, started, s);
}
}
#else
static void fillStack() {}
#endif

// ---------------------------------------------------------------- the workload

struct Entry {std::string what; uint64_t hash;};

struct Log
{
	std::vector<Entry> entries;
	std::set<std::string> cover;
	std::vector<std::vector<uint8_t>> loads; // what was loaded, to tell the library's leaks from the codec's
	std::string trace;
	uint64_t bytes = 0, hash = 0;
	const char* op = "";
	bool keep = false; // record the entries
};

static uint64_t hashBytes(uint64_t h, const void* d, size_t n)
{
	const uint8_t* p = (const uint8_t*)d;
	for (size_t i = 0; i < n; ++i)
		h = (h ^ p[i])*1099511628211ull;
	return h;
}

static Log* g_log;

// Every byte handed out is looked at here: out of live memory, the sanitizer reports it.
static void observe(const char* what, const void* d, size_t n)
{
#ifdef VH_MEMCHECK
	if (d && n && VALGRIND_CHECK_MEM_IS_DEFINED(d, n))
		vh::violation(fmt("undefined:%s:%s", g_log->op, what), fmt("%s of %zu bytes has bytes that were never initialised; history: %s",
			what, n, g_log->trace.c_str()));
	vh::count("bytes checked for definedness", n);
#endif
	uint64_t h = hashBytes(1469598103934665603ull, d, d ? n : 0);
	g_log->bytes += n;
	g_log->hash = g_log->hash*31 + h + n;
	if (g_log->keep)
		g_log->entries.push_back({fmt("%s:%s", g_log->op, what), h*31 + n});
}
static void observe(const char* what, uint64_t v) {observe(what, &v, sizeof v);}

static void observe(const char* what, const Image& i)
{
	observe("valid", i.isValid());
	if (i.isValid() != (bool)i)
		vh::violation("bool", "isValid and bool disagree");
	uint64_t d[] = {(uint64_t)i.format(), i.width(), i.height(), i.isValid() ? (uint64_t)i.colorSpace() : 0, i.bitsPerPixel(), i.redMask(), i.redShift(),
		i.greenMask(), i.greenShift(), i.blueMask(), i.blueShift(), i.alphaMask(), i.alphaShift()};
	observe("header", d, sizeof d);
	if (!i.isValid())
	{
		if (i.scanline(0))
			vh::violation("scanline:invalid", "an invalid image hands out pixels");
		return;
	}
	const ILayout& l = ilayout(i.format());
	size_t row = (size_t)i.width()*l.bytes;
	for (unsigned y = 0; y < i.height(); ++y)
	{
		const uint8_t* p = (const uint8_t*)i.scanline(y);
		if (!p) {vh::violation("scanline:null", fmt("no row %u of %u", y, i.height())); return;}
		observe(what, p, row);
	}
	for (unsigned y : {i.height(), i.height() + 1, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu})
		if (y >= i.height() && i.scanline(y))
			vh::violation("scanline:outside", fmt("row %u of an image with %u rows is handed out", y, i.height()));
}

static void observe(const char* what, const Texture& t)
{
	observe("valid", t.isValid());
	if (!t.isValid())
	{
		if (t.converted() || t.imagesComplete() || t.data() || t.dataSize())
			vh::violation("texture:invalid", "an invalid texture holds something");
		return;
	}
	uint64_t d[] = {(uint64_t)t.dimension(), (uint64_t)t.colorSpace(), t.isArray(), t.width(), t.height(), t.depth(), t.mipLevelCount(),
		t.faceCount(), t.imagesComplete(), t.converted(), t.converted() ? (uint64_t)t.format() : 0, t.converted() ? (uint64_t)t.type() : 0};
	observe("header", d, sizeof d);
	for (unsigned m = 0; m < t.mipLevelCount(); ++m)
		for (unsigned z = 0; z < t.depth(m); ++z)
			for (unsigned f = 0; f < t.faceCount(); ++f)
			{
				const Image& i = t.getImage((Face)f, m, z);
				if (i.isValid())
					observe("level", i);
				if (t.converted())
					observe("data", t.data((Face)f, m, z), t.dataSize((Face)f, m, z));
				else if (t.data((Face)f, m, z) || t.dataSize((Face)f, m, z))
					vh::violation("data:unconverted", "an unconverted texture holds data");
				// The forms without a face answer the same, or nothing for cube maps.
				const Image& n = t.getImage(m, z);
				const void* nd = t.data(m, z);
				size_t ns = t.dataSize(m, z);
				bool cube = t.dimension() == Dim::Cube;
				if (&n != &i ? n.isValid() : cube && n.isValid())
					vh::violation("no-face:image", "the image without a face is another one");
				if (nd != (cube ? nullptr : t.data((Face)f, m, z)) || ns != (cube ? 0 : t.dataSize((Face)f, m, z)))
					vh::violation("no-face:data", "the data without a face is another one");
			}
}

// What is out of range is refused, for every query.
static void outside(Rng& rng, Texture& t)
{
	auto big = [&](unsigned n) -> unsigned
	{
		switch (rng.below(6))
		{
			case 0: return n;
			case 1: return n + 1 + (unsigned)rng.below(70);
			case 2: return 0xFFFFFFFFu;
			case 3: return 0x7FFFFFFFu + (unsigned)rng.below(3);
			case 4: return n + 31;
			default: return n + (unsigned)rng.below(100000);
		}
	};
	unsigned m = 0, z = 0, f = 0;
	switch (rng.below(t.isValid() && t.dimension() != Dim::Cube ? 3 : 2))
	{
		case 0: m = big(t.mipLevelCount()); z = rng.chance(0.5) ? 0 : (unsigned)rng.next(); f = rng.chance(0.5) ? (unsigned)rng.below(6) : 0; break;
		case 1:
			m = t.mipLevelCount() ? (unsigned)rng.below(t.mipLevelCount()) : 0;
			z = big(t.depth(m));
			f = rng.chance(0.5) ? (unsigned)rng.below(6) : 0;
			break;
		case 2:
			m = (unsigned)rng.below(t.mipLevelCount());
			z = (unsigned)rng.below(t.depth(m));
			f = 1 + (unsigned)rng.below(5);
			break;
	}
	bool noFace = f == 0 && rng.chance(0.5);
	const Image& i = noFace ? t.getImage(m, z) : t.getImage((Face)f, m, z);
	if (i.isValid())
		vh::violation("outside:getImage", fmt("an image is handed out for level %u depth %u face %u", m, z, f));
	const void* d = noFace ? t.data(m, z) : t.data((Face)f, m, z);
	size_t n = noFace ? t.dataSize(m, z) : t.dataSize((Face)f, m, z);
	if (d || n)
		vh::violation("outside:data", fmt("data of %zu bytes is handed out for level %u depth %u face %u", n, m, z, f));
	Image img(IF::RGBA8, std::max(1u, std::min(64u, t.width(m))), std::max(1u, std::min(64u, t.height(m))));
	fillRandom(img, rng, true);
	bool ok = noFace ? t.setImage(img, m, z) : t.setImage(img, (Face)f, m, z);
	if (!ok)
		ok = noFace ? t.setImage(std::move(img), m, z) : t.setImage(std::move(img), (Face)f, m, z);
	if (ok)
		vh::violation("outside:setImage", fmt("an image is accepted for level %u depth %u face %u", m, z, f));
	if (m >= t.mipLevelCount())
		observe("outside", (uint64_t)t.width(m) + t.height(m) + t.depth(m));
	vh::eval(4);
}

struct ThrowIn : std::streambuf
{
	const uint8_t* d; size_t n, at = 0; char c = 0;
	ThrowIn(const uint8_t* p, size_t s) : d(p), n(s) {}
	int_type underflow() override
	{
		if (at >= n) throw std::runtime_error("broken stream");
		c = (char)d[at++];
		setg(&c, &c, &c + 1);
		return traits_type::to_int_type(c);
	}
};

struct ThrowOut : std::streambuf
{
	size_t left;
	explicit ThrowOut(size_t n) : left(n) {}
	int_type overflow(int_type c) override
	{
		if (!left) throw std::runtime_error("broken stream");
		--left;
		return c;
	}
};

static double hostile(Rng& rng)
{
	static const double h[] = {0, 1, -1, 0.5, NAN, -NAN, INFINITY, -INFINITY, 1e300, -1e300, 1e39, -1e39, 4294967295.0, 4294967296.0,
		-2147483648.0, -2147483649.0, 2147483648.0, 65535.4999, 65536, 255.5, 256, 1e-310, 1e-40, -0.0, 3.402823466e38, 1.0000001,
		1e19, -1e19, 9.3e18, 65504, 65520, 131008, 5e-324, 2e10};
	return rng.chance(0.5) ? rng.pick(h) : rng.uniform(-2, 2);
}

struct World
{
	Rng rng;
	bool safe; // only inputs that the decoders are known to handle deterministically
	std::vector<Image> img;
	std::vector<std::unique_ptr<Texture>> tex;
	std::vector<uint8_t> out;

	World(uint64_t seed, bool s) : rng(seed), safe(s), img(5)
	{
		for (int i = 0; i < 3; ++i) tex.emplace_back(new Texture);
	}

	unsigned dim()
	{
		if (rng.chance(0.1)) return 0;
		if (rng.chance(0.2)) return 1;
		if (rng.chance(0.01)) return 257 + (unsigned)rng.below(200);
		return 1 + (unsigned)rng.below(rng.chance(0.2) ? 40 : 9);
	}
	unsigned okDim() {unsigned d = dim(); return d ? d : 1;}
	// Sizes which cannot be honoured at all.
	void absurd(unsigned& w, unsigned& h)
	{
		// Beyond the signed range, or too much for any memory.
		static const unsigned b[] = {0x80000000u, 0x80000001u, 0xFFFFFFFFu, 0xFFFFFFFEu, 0xC0000000u};
		w = rng.pick(b);
		if (rng.chance(0.5)) h = okDim();
		else h = rng.chance(0.5) ? rng.pick(b) : 0x100000u << rng.below(12);
		if (rng.chance(0.5)) std::swap(w, h);
	}
	Image& any() {return img[rng.below(img.size())];}
	Texture& anyTex() {return *tex[rng.below(tex.size())];}
	ColorSpace cs() {return rng.chance(0.5) ? ColorSpace::sRGB : ColorSpace::Linear;}
	IF imageFormat() {return rng.chance(0.03) ? IF::Invalid : (IF)(1 + rng.below(imageFormatCount - 1));}
	void fill(Image& i)
	{
		if (!i.isValid()) return;
		static const double his[] = {1, 1, 1, 2, 300, 1e6};
		fillRandom(i, rng, rng.chance(0.4), rng.pick(his));
	}
	Image fresh()
	{
		Image i(imageLayouts()[rng.below(imageLayouts().size())].f, okDim(), okDim(), cs());
		fill(i);
		return i;
	}
	std::vector<uint8_t> encoded()
	{
		Image i = fresh();
		static const char* exts[] = {"png", "bmp", "tif", "tga", "ppm", "pfm", "gif", "xpm"};
		std::vector<uint8_t> d;
		for (int k = 0; k < 4 && d.empty(); ++k)
			if (!i.save(d, rng.pick(exts)))
			{
				d.clear();
				Image n(rng.chance(0.5) ? IF::RGB8 : IF::Gray8, okDim(), okDim());
				fill(n);
				i = std::move(n);
			}
		if (rng.chance(0.25)) d = coded::any(rng, okDim(), okDim()).d;
		if (safe)
			return d;
		switch (rng.below(6))
		{
			case 0: d.resize(rng.below(d.size() + 1)); break;
			case 1: {size_t n = rng.below(64); d.resize(n); for (auto& b : d) b = (uint8_t)rng.next(); break;}
			case 2: if (!d.empty()) d.resize(1 + rng.below(std::min<size_t>(d.size(), 60))); break;
			case 3: for (size_t k = 0, n = rng.below(50); k < n; ++k) d.push_back((uint8_t)rng.next()); break;
			default: break;
		}
		// A truncated BMP header makes the decoder itself read what it never wrote.
		if (d.size() >= 2 && d[0] == 'B' && d[1] == 'M' && d.size() < 70) d.clear();
		return d;
	}

	void note(const std::string& s)
	{
		g_log->trace += s + "; ";
		if (getenv("VH_TRACE")) std::fprintf(stderr, "%s\n", s.c_str());
		if (g_log->trace.size() > 3000) g_log->trace.erase(0, 1000);
	}

	void step()
	{
		fillStack();
		unsigned op = (unsigned)rng.below(40);
		Image& a = any();
		Texture& t = anyTex();
		bool ok = true;
		switch (op)
		{
			case 0: case 1: case 2:
			{
				g_log->op = "Image::initialize";
				unsigned w = dim(), h = dim();
				if (rng.chance(0.03)) absurd(w, h);
				IF f = imageFormat();
				note(fmt("initialize image %d %ux%u", (int)f, w, h));
				if (rng.chance(0.5)) {ok = a.initialize(f, w, h, cs());}
				else {a = Image(f, w, h, cs()); ok = a.isValid();}
				observe("fresh", a);
				if (ok ? a.width() != w || a.height() != h || a.format() != f : a.isValid())
					vh::violation("initialize:size", fmt("asked for %ux%u of %d, got %ux%u of %d", w, h, (int)f, a.width(), a.height(), (int)a.format()));
				fill(a);
				break;
			}
			case 3:
			{
				g_log->op = "Image::getPixel";
				note("get pixels");
				for (int k = 0; k < 10; ++k)
				{
					unsigned x = rng.chance(0.7) && a.width() ? (unsigned)rng.below(a.width()) : rng.chance(0.5) ? a.width() : (unsigned)rng.next();
					unsigned y = rng.chance(0.7) && a.height() ? (unsigned)rng.below(a.height()) : rng.chance(0.5) ? a.height() : (unsigned)rng.next();
					ColorRGBAd c{1, 2, 3, 4};
					bool r = a.getPixel(c, x, y);
					if (r != (x < a.width() && y < a.height()))
						vh::violation("getPixel:result", fmt("pixel %u,%u of %ux%u: %d", x, y, a.width(), a.height(), r));
					if (r) observe("pixel", &c, sizeof c);
					vh::eval();
				}
				break;
			}
			case 4: case 5:
			{
				g_log->op = "Image::setPixel";
				note("set pixels");
				for (int k = 0; k < 10; ++k)
				{
					unsigned x = rng.chance(0.7) && a.width() ? (unsigned)rng.below(a.width()) : rng.chance(0.5) ? a.width() : (unsigned)rng.next();
					unsigned y = rng.chance(0.7) && a.height() ? (unsigned)rng.below(a.height()) : rng.chance(0.5) ? a.height() : (unsigned)rng.next();
					ColorRGBAd c{hostile(rng), hostile(rng), hostile(rng), hostile(rng)};
					bool r = a.setPixel(x, y, c, rng.chance(0.5));
					if (r != (x < a.width() && y < a.height()))
						vh::violation("setPixel:result", fmt("pixel %u,%u of %ux%u: %d", x, y, a.width(), a.height(), r));
					vh::eval();
				}
				observe("pixels", a);
				break;
			}
			case 6: case 7:
			{
				g_log->op = "Image::convert";
				IF f = imageFormat();
				note(fmt("convert %d to %d", (int)a.format(), (int)f));
				Image r = a.convert(f, rng.chance(0.5));
				ok = r.isValid();
				observe("result", r);
				g_log->cover.insert(fmt("convert:%d:%d:%d", (int)a.format(), (int)f, ok));
				any() = rng.chance(0.5) ? std::move(r) : r;
				break;
			}
			case 8:
			{
				g_log->op = "Image::resize";
				unsigned w = dim(), h = dim();
				if (rng.chance(0.03)) absurd(w, h);
				auto fl = (Image::ResizeFilter)rng.below(5);
				note(fmt("resize %d %ux%u to %ux%u filter %d", (int)a.format(), a.width(), a.height(), w, h, (int)fl));
				Image r = a.resize(w, h, fl);
				ok = r.isValid();
				if (ok && (r.width() != w || r.height() != h))
					vh::violation("resize:size", fmt("asked for %ux%u, got %ux%u", w, h, r.width(), r.height()));
				observe("result", r);
				g_log->cover.insert(fmt("resize:%d:%d:%d", (int)a.format(), (int)fl, ok));
				any() = std::move(r);
				break;
			}
			case 9:
			{
				g_log->op = "Image::rotate";
				auto an = (Image::RotateAngle)rng.below(6);
				note(fmt("rotate %d %ux%u by %d", (int)a.format(), a.width(), a.height(), (int)an));
				Image r = a.rotate(an);
				ok = r.isValid();
				observe("result", r);
				g_log->cover.insert(fmt("rotate:%d:%d:%d", (int)a.format(), (int)an, ok));
				any() = std::move(r);
				break;
			}
			case 10:
			{
				g_log->op = "Image::in-place";
				unsigned k = (unsigned)rng.below(6);
				note(fmt("in place %u on %d %ux%u", k, (int)a.format(), a.width(), a.height()));
				switch (k)
				{
					case 0: ok = a.flipHorizontal(); break;
					case 1: ok = a.flipVertical(); break;
					case 2: ok = a.preMultiplyAlpha(); break;
					case 3: ok = a.changeColorSpace(cs()); break;
					case 4: ok = a.grayscale(); break;
					default: ok = a.swizzle((Image::Channel)rng.below(5), (Image::Channel)rng.below(5), (Image::Channel)rng.below(5),
						(Image::Channel)rng.below(5)); break;
				}
				observe("result", a);
				g_log->cover.insert(fmt("inplace:%d:%u:%d", (int)a.format(), k, ok));
				break;
			}
			case 11:
			{
				g_log->op = "Image::createNormalMap";
				auto o = (Image::NormalOptions)rng.below(8);
				double h = rng.chance(0.5) ? 1 : hostile(rng);
				IF f = rng.chance(0.5) ? IF::RGBF : imageFormat();
				note(fmt("normal map %d %ux%u options %d height %g to %d", (int)a.format(), a.width(), a.height(), (int)o, h, (int)f));
				Image r = a.createNormalMap(o, h, f);
				ok = r.isValid();
				observe("result", r);
				g_log->cover.insert(fmt("normal:%d:%d:%d:%d", (int)a.format(), (int)o, (int)f, ok));
				any() = std::move(r);
				break;
			}
			case 12:
			{
				g_log->op = "Image::copy";
				note("copy/move image");
				Image& b = any();
				switch (rng.below(6))
				{
					case 0: b = a; break;
					case 1: b = std::move(a); break;
					case 2: {Image c(a); b = std::move(c); break;}
					case 3: {Image c(std::move(a)); b = c; break;}
					case 4: a.reset(); break;
					default: std::swap(a, b); break;
				}
				observe("source", a);
				observe("target", b);
				break;
			}
			case 13: case 14:
			{
				g_log->op = "Image::load";
				std::vector<uint8_t> d = encoded();
				if (d.empty() && safe) break;
				if (!safe) g_log->loads.push_back(d);
				unsigned k = (unsigned)rng.below(safe ? 3 : 6);
				note(fmt("load %zu bytes via %u", d.size(), k));
				switch (k)
				{
					case 0:
						if (rng.chance(0.6)) ok = a.load(d.data(), d.size(), cs());
						else {Image i(d.data(), d.size(), cs()); ok = i.isValid(); a = std::move(i);}
						break;
					case 1:
					{
						std::string p = vh::scratchFile("h.bin");
						vh::writeFile(p, d.data(), d.size());
						if (rng.chance(0.5)) ok = a.load(p.c_str(), cs());
						else {Image i(p.c_str(), cs()); ok = i.isValid(); a = std::move(i);}
						unlink(p.c_str());
						break;
					}
					case 2:
					{
						vh::ChunkIn b(d.data(), d.size(), 1 + rng.below(100), !safe && rng.chance(0.3));
						std::istream s(&b);
						if (rng.chance(0.6)) ok = a.load(s, cs());
						else {Image i(s, cs()); ok = i.isValid(); a = i;}
						break;
					}
					case 3:
					{
						ThrowIn b(d.data(), d.size());
						std::istream s(&b);
						ok = a.load(s, cs());
						break;
					}
					case 4:
					{
						std::istringstream s(std::string((const char*)d.data(), d.size()));
						s.setstate(rng.chance(0.5) ? std::ios::failbit : std::ios::eofbit);
						ok = a.load(s, cs());
						break;
					}
					default: ok = a.load(vh::scratchFile(rng.chance(0.5) ? "missing.png" : "").c_str(), cs()); break;
				}
				observe("loaded", a);
				g_log->cover.insert(fmt("load:%u:%d", k, ok));
				break;
			}
			case 15:
			{
				g_log->op = "Image::save";
				static const char* exts[] = {"png", "bmp", "tif", "tga", "ppm", "pfm", "gif", "xpm", "", "xyz", "ico", "raw", "jpg", "hdr", "pbm", "wbmp"};
				const char* e = rng.pick(exts);
				unsigned k = (unsigned)rng.below(safe ? 1 : 4);
				if (!safe && !std::strcmp(e, "ico")) e = "png";
				note(fmt("save %d %ux%u as %s via %u", (int)a.format(), a.width(), a.height(), e, k));
				if (!a.isValid() && rng.chance(0.7)) a = fresh();
				switch (k)
				{
					case 0:
					{
						std::vector<uint8_t> d;
						ok = a.save(d, e);
						observe("file", d.data(), d.size());
						break;
					}
					case 1:
					{
						std::string p = vh::scratchFile(std::string("s.") + e);
						ok = a.save(p.c_str());
						std::vector<uint8_t> d;
						vh::readFile(p, d);
						observe("file", d.data(), d.size());
						unlink(p.c_str());
						break;
					}
					case 2: ok = a.save(vh::scratchFile("no/such/dir.png").c_str()); break;
					default:
					{
						ThrowOut b(rng.below(300));
						std::ostream s(&b);
						ok = a.save(s, e);
						break;
					}
				}
				observe("result", ok);
				g_log->cover.insert(fmt("save-image:%u:%d:%s", k, ok, e));
				break;
			}
			case 16:
			{
				g_log->op = "adjustImageValueRange";
				T ty = (T)rng.below(typeCount);
				IF o = rng.chance(0.5) ? IF::Invalid : imageFormat();
				note(fmt("adjust %d for type %d from %d", (int)a.format(), (int)ty, (int)o));
				Texture::adjustImageValueRange(a, ty, o);
				observe("result", a);
				g_log->cover.insert(fmt("adjust:%d:%d:%d", (int)a.format(), (int)ty, (int)o));
				break;
			}
			case 17: case 18: case 19:
			{
				g_log->op = "Texture::initialize";
				Dim d = (Dim)rng.below(4);
				unsigned w = dim(), h = d == Dim::Cube && rng.chance(0.9) ? w : dim(), dep = (unsigned)rng.below(rng.chance(0.1) ? 40 : 5);
				if (d == Dim::Dim1D && rng.chance(0.7)) h = 1;
				unsigned mips = rng.chance(0.3) ? Texture::allMipLevels : rng.chance(0.1) ? (unsigned)rng.next() : (unsigned)rng.below(6);
				if (rng.chance(0.03)) absurd(w, h);
				note(fmt("initialize texture %d %ux%u depth %u mips %u", (int)d, w, h, dep, mips));
				if (rng.chance(0.5)) ok = t.initialize(d, w, h, dep, mips, cs());
				else {t = Texture(d, w, h, dep, mips, cs()); ok = t.isValid();}
				observe("fresh", t);
				g_log->cover.insert(fmt("texture:%d:%d", (int)d, ok));
				break;
			}
			case 20: case 21: case 22: case 23: case 24:
			{
				g_log->op = "Texture::setImage";
				bool all = rng.chance(0.7);
				note(fmt("set images all %d", all));
				if (t.isValid() && (uint64_t)t.width()*t.height() < 100000)
					for (unsigned m = 0; m < t.mipLevelCount(); ++m)
						for (unsigned z = 0; z < t.depth(m); ++z)
							for (unsigned f = 0; f < t.faceCount(); ++f)
							{
								if (!all && rng.chance(0.7)) continue;
								IF fm = imageLayouts()[rng.below(imageLayouts().size())].f;
								if (rng.chance(0.5)) fm = IF::RGBAF;
								Image i(fm, t.width(m) + (rng.chance(0.01) ? 1 : 0), t.height(m), cs());
								fill(i);
								if (rng.chance(0.02)) i.reset();
								bool cube = t.dimension() == Dim::Cube;
								ok = cube || rng.chance(0.5) ? rng.chance(0.5) ? t.setImage(std::move(i), (Face)f, m, z) : t.setImage(i, (Face)f, m, z) :
									rng.chance(0.5) ? t.setImage(std::move(i), m, z) : t.setImage(i, m, z);
							}
				if (rng.chance(0.1))
					ok = t.setImage(any(), (Face)rng.below(6), (unsigned)rng.below(3), (unsigned)rng.below(3));
				if (rng.chance(0.1) && t.isValid())
					ok = t.setImage(t.getImage((Face)rng.below(6), (unsigned)rng.below(3), (unsigned)rng.below(3)), (Face)rng.below(6), (unsigned)rng.below(3));
				observe("images", t);
				break;
			}
			case 25: case 26: case 27:
			{
				g_log->op = "Texture::generateMipmaps";
				unsigned n = rng.chance(0.4) ? Texture::allMipLevels : rng.chance(0.1) ? (unsigned)rng.next() : (unsigned)rng.below(6);
				Texture::CustomMipImages list;
				std::vector<Image> hold;
				hold.reserve(8);
				unsigned c = rng.chance(0.6) ? 0 : 1 + (unsigned)rng.below(8);
				for (unsigned k = 0; k < c; ++k)
				{
					Image i = rng.chance(0.1) ? Image() : fresh();
					Texture::ImageIndex at((Face)rng.below(t.faceCount() == 6 || rng.chance(0.1) ? 6 : 1), rng.chance(0.9) ? (unsigned)rng.below(5) : (unsigned)rng.next(),
						rng.chance(0.9) ? (unsigned)rng.below(4) : (unsigned)rng.next());
					auto rep = rng.chance(0.5) ? Texture::MipReplacement::Once : Texture::MipReplacement::Continue;
					if (rng.chance(0.5)) {hold.push_back(std::move(i)); list.emplace(at, Texture::CustomMipImage(hold.back(), rep));}
					else list.emplace(at, Texture::CustomMipImage(std::move(i), rep));
				}
				if (rng.chance(0.3)) {Texture::CustomMipImages l2(list); list = l2;}
				auto fl = (Image::ResizeFilter)rng.below(5);
				note(fmt("mipmaps filter %d levels %u custom %zu on %d %ux%u", (int)fl, n, list.size(), t.isValid() ? (int)t.dimension() : -1, t.width(), t.height()));
				for (auto& c : list)
					note(fmt("custom face %u level %u depth %u %d %ux%u replacement %d", (unsigned)c.first.cubeFace, c.first.mipLevel, c.first.depth,
						(int)c.second.image->format(), c.second.image->width(), c.second.image->height(), (int)c.second.replacement));
				ok = t.generateMipmaps(fl, n, list);
				observe("levels", t);
				g_log->cover.insert(fmt("mips:%d:%d:%d", t.isValid() ? (int)t.dimension() : -1, (int)fl, ok));
				break;
			}
			case 28: case 29: case 30: case 31: case 32:
			{
				g_log->op = "Texture::convert";
				F f = (F)rng.below(formatCount);
				T ty = (T)rng.below(typeCount);
				if (rng.chance(0.85)) f = anyLayout(rng, ty)->format;
				if (t.isValid() && t.colorSpace() == ColorSpace::sRGB && rng.chance(0.8))
				{
					static const F sf[] = {F::R8G8B8, F::B8G8R8, F::R8G8B8A8, F::B8G8R8A8, F::A8B8G8R8};
					f = rng.pick(sf);
					ty = T::UNorm;
				}
				if (rng.chance(0.01)) f = F::Unknown;
				static const unsigned th[] = {0, 1, 1, 2, 3, 16, Texture::allCores};
				note(fmt("convert to %d:%d", (int)f, (int)ty));
				ok = t.convert(f, ty, (Texture::Quality)rng.below(5), (Texture::Alpha)rng.below(4),
					Texture::ColorMask(rng.chance(0.8), rng.chance(0.8), rng.chance(0.8), rng.chance(0.8)), rng.pick(th));
				observe("converted", t);
				g_log->cover.insert(fmt("convert:%d:%d:%d", (int)f, (int)ty, ok));
				break;
			}
			case 33: case 34: case 35:
			{
				g_log->op = "Texture::save";
				FT ft = (FT)rng.below(4);
				unsigned k = (unsigned)rng.below(safe ? 3 : 5);
				note(fmt("save texture as %d via %u", (int)ft, k));
				Texture::SaveResult r = Texture::SaveResult::Invalid;
				static const char* ext[] = {"xyz", "dds", "ktx", "PVR"};
				switch (k)
				{
					case 0:
						r = t.save(out, ft);
						if (r == Texture::SaveResult::Success) observe("file", out.data(), out.size());
						if (rng.chance(0.5)) {out.clear(); out.shrink_to_fit();}
						break;
					case 1:
					{
						std::string p = vh::scratchFile(std::string("t.") + ext[(int)ft]);
						r = t.save(p.c_str(), rng.chance(0.5) ? FT::Auto : ft);
						if (r == Texture::SaveResult::Success)
						{
							std::vector<uint8_t> d;
							vh::readFile(p, d);
							observe("file", d.data(), d.size());
						}
						unlink(p.c_str());
						break;
					}
					case 2:
					{
						std::ostringstream os;
						r = t.save(os, ft);
						std::string d = os.str();
						observe("file", d.data(), d.size());
						break;
					}
					case 3: r = t.save(vh::scratchFile("no/such/t.dds").c_str()); break;
					default:
					{
						ThrowOut b(rng.below(300));
						std::ostream s(&b);
						r = t.save(s, ft);
						break;
					}
				}
				observe("result", (uint64_t)r);
				g_log->cover.insert(fmt("save:%d:%u:%d", (int)ft, k, (int)r));
				break;
			}
			case 36:
			{
				g_log->op = "Texture::copy";
				note("copy/move texture");
				Texture& b = anyTex();
				switch (rng.below(7))
				{
					case 0: b = t; break;
					case 1: b = std::move(t); break;
					case 2: {Texture c(t); b = std::move(c); break;}
					case 3: {Texture c(std::move(t)); b = c; break;}
					case 4: t.reset(); break;
					case 5: std::swap(t, b); break;
					default: t.initialize(Dim::Dim2D, okDim(), okDim(), 0, 1, cs()); break;
				}
				observe("source", t);
				observe("target", b);
				break;
			}
			case 37: case 38:
			{
				g_log->op = "outside";
				note("outside");
				outside(rng, t);
				break;
			}
			default:
			{
				g_log->op = "statics";
				note("statics");
				F f = (F)rng.below(formatCount);
				T ty = (T)rng.below(typeCount);
				auto u = [&]() {return rng.chance(0.5) ? (unsigned)rng.below(5) : rng.chance(0.5) ? 1u << rng.below(32) : (unsigned)rng.next();};
				uint64_t d[] = {Texture::isFormatValid(f, ty), Texture::isFormatValid(f, ty, (FT)rng.below(4)), Texture::hasNativeSRGB(f, ty),
					Texture::hasAlpha(f), Texture::blockWidth(f), Texture::blockHeight(f), Texture::blockSize(f), Texture::minWidth(f),
					Texture::minHeight(f), Texture::maxMipmapLevels((Dim)rng.below(4), u(), u(), u())};
				observe("statics", d, sizeof d);
				std::string n;
				for (size_t k = 0, c = rng.below(12); k < c; ++k) n += (char)(1 + rng.below(255));
				if (rng.chance(0.5)) n += ".dds";
				observe("file type", (uint64_t)Texture::fileType(n.c_str()));
				break;
			}
		}
		vh::eval();
	}
};

static const unsigned kSteps = 45;

static void runHistory(uint64_t seed, bool safe, Log& log)
{
	g_log = &log;
	World w(seed, safe);
	for (unsigned i = 0; i < kSteps; ++i)
		w.step();
	g_log = &log;
}

static unsigned openFiles()
{
	unsigned n = 0;
	if (DIR* d = opendir("/proc/self/fd"))
	{
		while (readdir(d)) ++n;
		closedir(d);
	}
	return n;
}

static void merge(const Log& l)
{
	for (auto& c : l.cover) vh::cover(c);
	vh::count("bytes looked at", l.bytes);
	vh::count("calls", kSteps);
	if (vh::st().curCase % 97 == 0)
		vh::sample("..." + l.trace.substr(l.trace.size() > 400 ? l.trace.size() - 400 : 0));
}

// ---------------------------------------------------------------- C01

static void safety(uint64_t idx, Rng& rng)
{
	uint64_t seed = rng.next();
#if VH_ASAN
	auto live = []() {return (int64_t)__sanitizer_get_current_allocated_bytes();};
	unsigned fds = openFiles();
	Log log;
	log.cover.insert("x"); // so that the containers exist
	auto once = [&]() -> int64_t
	{
		int64_t before = live();
		{
			Log l;
			runHistory(seed, false, l);
		}
		return live() - before;
	};
	runHistory(seed, false, log);
	merge(log);
	log.cover.clear();
	if (idx % 4 == 0)
	{
		// Memory that every repetition of the same history leaves behind.
		int64_t g = once();
		int64_t least = g;
		for (int k = 0; k < 3 && least > 0; ++k)
			least = std::min(least, once());
		if (least > 0)
		{
			// What the decoders leave behind by themselves is not the library's doing.
			int64_t codec = 0;
			for (int k = 0; k < 3; ++k)
			{
				int64_t b = live();
				for (auto& d : log.loads)
				{
					FIMEMORY* m = FreeImage_OpenMemory((BYTE*)d.data(), (DWORD)d.size());
					FREE_IMAGE_FORMAT f = FreeImage_GetFileTypeFromMemory(m, 0);
					if (f != FIF_UNKNOWN)
						if (FIBITMAP* bm = FreeImage_LoadFromMemory(f, m, 0))
							FreeImage_Unload(bm);
					FreeImage_CloseMemory(m);
				}
				codec = std::max(codec, live() - b);
			}
			if (least > codec)
				vh::violation("leak", fmt("every repetition of one history leaves %lld bytes behind: %s", (long long)least, log.trace.c_str()));
			else
				vh::count("histories whose codec leaks");
		}
		vh::count("histories with leak accounting");
		vh::eval();
	}
	unsigned fds2 = openFiles();
	if (fds2 > fds)
	{
		{Log l; runHistory(seed, false, l);}
		unsigned fds3 = openFiles();
		if (fds3 > fds2)
			vh::violation("leak:files", fmt("every repetition of one history leaves %u files open: %s", fds3 - fds2, log.trace.c_str()));
	}
	vh::eval();
#endif
}

// ---------------------------------------------------------------- C25

#ifdef VH_FILL
static std::vector<uint64_t> hashesOf(const Log& l)
{
	std::vector<uint64_t> r;
	for (auto& e : l.entries) r.push_back(e.hash);
	return r;
}

static void fresh(const char* file, uint64_t seed, uint64_t fill)
{
	g_fill = fill;
	Log l;
	l.keep = true;
	runHistory(seed, true, l);
	g_fill = 0;
	auto h = hashesOf(l);
	vh::writeFile(file, h.data(), h.size()*8);
}

static void repeat(uint64_t idx, Rng& rng)
{
	uint64_t seed = rng.next();
	Log ref;
	ref.keep = true;
	g_fill = 0x5851F42D4C957F2Dull;
	runHistory(seed, true, ref);
	g_fill = 0;
	auto compare = [&](const std::vector<uint64_t>& h, const char* how)
	{
		size_t n = std::min(h.size(), ref.entries.size());
		for (size_t i = 0; i < n; ++i)
			if (h[i] != ref.entries[i].hash)
			{
				vh::violation("differs:" + ref.entries[i].what, fmt("%s: observation %zu (%s) differs from the first run: %s", how, i,
					ref.entries[i].what.c_str(), ref.trace.c_str()));
				return;
			}
		if (h.size() != ref.entries.size())
			vh::violation("differs:length", fmt("%s: %zu observations, %zu in the first run", how, h.size(), ref.entries.size()));
		vh::eval(n);
	};
	static const uint64_t fills[] = {0xFFFFFFFFFFFFFFFFull, 1, 0x0123456789ABCDEFull};
	for (uint64_t f : fills)
	{
		Log l;
		l.keep = true;
		g_fill = f ^ rng.next();
		if (!g_fill) g_fill = 1;
		runHistory(seed, true, l);
		g_fill = 0;
		compare(hashesOf(l), "in the same process, over other memory contents");
	}
	// In a process of its own.
	std::string p = vh::scratchFile("fresh.bin");
	std::string a = p, b = std::to_string(seed), c = std::to_string(rng.chance(0.3) ? 0 : rng.next());
	pid_t pid = fork();
	if (!pid)
	{
		std::string scratch = vh::scratchFile("other");
		mkdir(scratch.c_str(), 0755);
		std::string pad = "PADDING=" + std::string(rng.below(3000), 'x');
		std::vector<char*> env{(char*)pad.c_str(), (char*)"LC_ALL=C.UTF-8", nullptr};
		const char* args[] = {"history", "fresh", a.c_str(), b.c_str(), c.c_str(), scratch.c_str(), nullptr};
		execve("/proc/self/exe", (char**)args, env.data());
		_exit(111);
	}
	int status = 0;
	waitpid(pid, &status, 0);
	std::vector<uint8_t> d;
	vh::readFile(p, d);
	unlink(p.c_str());
	if (!WIFEXITED(status) || WEXITSTATUS(status) || d.empty())
		vh::violation("fresh:failed", fmt("a history that finished here did not finish in a fresh process (status %x)", status));
	else
	{
		std::vector<uint64_t> h(d.size()/8);
		std::memcpy(h.data(), d.data(), h.size()*8);
		compare(h, "in a fresh process");
		vh::count("fresh processes");
	}
	merge(ref);
	vh::count("bytes filled", g_filled.exchange(0));
}
#else
static void repeat(uint64_t, Rng& rng)
{
	Log l;
	runHistory(rng.next(), true, l);
	merge(l);
}
#endif

int main(int argc, char** argv)
{
	signal(SIGPIPE, SIG_IGN);
#ifdef VH_FILL
	if (argc == 6 && !std::strcmp(argv[1], "fresh"))
	{
		vh::st().scratch = argv[5];
		vh::st().out = stderr;
		fresh(argv[2], std::strtoull(argv[3], nullptr, 10), std::strtoull(argv[4], nullptr, 10));
		return 0;
	}
#endif
	return vh::runMain(argc, argv, {{"C01", safety}, {"C25", repeat}});
}
