// C27: independent objects used from several threads at once, objects only read by several threads, and objects
// handed from thread to thread. Whatever a thread got is compared with the same work done alone afterwards, under
// schedules that are disturbed at every function of the library, watched by ThreadSanitizer (and without it).
#include "texgen.h"
#include "coded.h"
#include "streams.h"
#include "fileutil.h"
#include "schedule.h"
#include <condition_variable>
#include <deque>
#include <memory>
#include <set>
#include <sstream>
#include <thread>
using namespace ref;
using namespace cuttlefish;
using vh::Rng;
using vh::fmt;
using Face = Texture::CubeFace;
using Bytes = std::vector<uint8_t>;
using Filter = Image::ResizeFilter;

static uint64_t digest(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
{
	for (size_t i = 0; i < n; ++i) h = (h ^ ((const uint8_t*)p)[i])*1099511628211ull;
	return h;
}

// What one thread got, in order: a name for the operation, and its outcome.
struct Log
{
	std::vector<std::pair<std::string, uint64_t>> e;
	void add(const std::string& n, uint64_t v) {e.emplace_back(n, v);}
	void add(const std::string& n, const Bytes& b) {e.emplace_back(n, digest(b.data(), b.size()));}
	void add(const std::string& n, const Image& i)
	{
		if (!i.isValid()) {e.emplace_back(n, 0); return;}
		Bytes b = bytesOf(i);
		unsigned head[] = {(unsigned)i.format(), (unsigned)i.colorSpace(), i.width(), i.height(), i.bitsPerPixel(), i.redMask(),
			i.greenMask(), i.blueMask(), i.alphaMask(), i.redShift(), i.greenShift(), i.blueShift(), i.alphaShift()};
		e.emplace_back(n, digest(b.data(), b.size(), digest(head, sizeof head)));
	}
	void add(const std::string& n, const Texture& t)
	{
		uint64_t h = 7;
		for (unsigned m = 0; m < t.mipLevelCount(); ++m)
			for (unsigned d = 0; d < t.depth(m); ++d)
				for (unsigned f = 0; f < t.faceCount(); ++f)
				{
					const void* p = t.data((Face)f, m, d);
					h = p ? digest(p, t.dataSize((Face)f, m, d), h) : h*31 + 5;
					const Image& i = t.getImage((Face)f, m, d);
					if (i.isValid()) {Bytes b = bytesOf(i); h = digest(b.data(), b.size(), h);}
				}
		unsigned head[] = {(unsigned)t.converted(), t.width(), t.height(), t.depth(), t.mipLevelCount(), (unsigned)t.imagesComplete()};
		e.emplace_back(n, digest(head, sizeof head, h));
	}
	std::string diff(const Log& o) const
	{
		for (size_t i = 0; i < e.size() && i < o.e.size(); ++i)
			if (e[i] != o.e[i])
				return fmt("step %zu (%s) gave %016llx, alone %s %016llx", i, e[i].first.c_str(), (unsigned long long)e[i].second,
					o.e[i].first.c_str(), (unsigned long long)o.e[i].second);
		if (e.size() != o.e.size()) return fmt("%zu steps, alone %zu", e.size(), o.e.size());
		return "";
	}
	std::string where(const Log& o) const
	{
		for (size_t i = 0; i < e.size() && i < o.e.size(); ++i)
			if (e[i] != o.e[i]) return e[i].first.substr(0, e[i].first.find(' '));
		return "steps";
	}
};

// With the spellings that share an encoder, and those that match further down a list of extensions.
static const char* const extensions[] = {"png", "x.PNG", "bmp", "tga", "a.targa", "tif", "tiff", "jpg", "f.jpeg", "jpe", "jif", "ppm",
	"pgm", "pbm", "pfm", "gif", "hdr", "xpm", "wap", "wbmp", "wbm", "none", "x.unknown", "psd", "iff", "lbm", "exr", "webp", "jp2", "j2k", "jxr"};

static IF anyFormat(Rng& rng) {return imageLayouts()[rng.below(imageLayouts().size())].f;}

static Image anyImage(Rng& rng, unsigned mx = 20)
{
	Image i(anyFormat(rng), 1 + (unsigned)rng.below(mx), 1 + (unsigned)rng.below(mx),
		rng.chance(0.3) ? ColorSpace::sRGB : ColorSpace::Linear);
	fillRandom(i, rng, false);
	return i;
}

static bool anyTarget(Rng& rng, Texture::Format& f, Texture::Type& t)
{
	for (unsigned i = 0; i < 400; ++i)
	{
		f = (Texture::Format)rng.below((unsigned)Texture::Format::PVRTC2_RGBA_4BPP + 1);
		t = (Texture::Type)rng.below((unsigned)Texture::Type::Float + 1);
		if (Texture::isFormatValid(f, t)) return true;
	}
	return false;
}

enum Op {Create, LoadMemory, LoadStream, LoadFile, SaveVector, SaveStream, SaveFile, Convert, Resize, Rotate, Flip, Colour, Normal, Pixels,
	CopyMove, TexMake, TexMips, TexConvert, TexSave, TexFile, Range, Queries, OpCount};
static const char* const opNames[] = {"create", "load-memory", "load-stream", "load-file", "save-vector", "save-stream", "save-file",
	"convert", "resize", "rotate", "flip", "colour", "normal", "pixels", "copy-move", "tex-make", "tex-mips", "tex-convert", "tex-save",
	"tex-file", "range", "queries"};

struct Actor
{
	Rng rng;
	std::string id;
	Log log;
	Image img[3];
	Texture tex;
	bool filled = false;
	Actor(uint64_t seed, const std::string& name) : rng(seed), id(name)
	{
		for (auto& i : img) i = anyImage(rng);
	}

	Image& pick() {return img[rng.below(3)];}
	const Image& valid()
	{
		Image& i = pick();
		if (!i.isValid() || i.width() > 64 || i.height() > 64) i = anyImage(rng);
		return i;
	}

	void makeTexture()
	{
		T type;
		const Layout* l = anyLayout(rng, type);
		TexSpec s;
		drawSpec(rng, s, l, type, 9);
		s.w = std::min(s.w, 24u);
		s.h = s.dim == Texture::Dimension::Cube ? s.w : std::min(s.h, 24u);
		s.depth = std::min(s.depth, 3u);
		if (s.dim == Texture::Dimension::Dim3D) s.depth = std::max(s.depth, 1u);
		bool ok = tex.initialize(s.dim, s.w, s.h, s.depth, 1, rng.chance(0.2) ? ColorSpace::sRGB : ColorSpace::Linear);
		Image base = valid().resize(s.w, s.h, Filter::Box);
		for (unsigned d = 0; d < s.ld(0); ++d)
			for (unsigned f = 0; f < s.faces(); ++f)
			{
				if (!base.isValid() || rng.chance(0.4)) {base = Image(anyFormat(rng), s.w, s.h, s.cs); fillRandom(base, rng, false);}
				ok = tex.setImage(base, (Face)f, 0, d) && ok;
			}
		filled = ok;
		log.add("tex-make " + s.shape(), tex);
	}

	void step(Op op)
	{
		const char* n = opNames[op];
		switch (op)
		{
			case Create:
				pick() = anyImage(rng);
				break;
			case LoadMemory: case LoadStream: case LoadFile:
			{
				coded::Coded c = coded::any(rng, 1 + (unsigned)rng.below(14), 1 + (unsigned)rng.below(14));
				// Whole files only: decoders leave what is missing from a file as they found it, or worse.
				if (rng.chance(0.05)) c.d.clear();
				ColorSpace cs = rng.chance(0.5) ? ColorSpace::sRGB : ColorSpace::Linear;
				Image i;
				bool ok;
				if (op == LoadMemory)
					ok = i.load(c.d.data(), c.d.size(), cs);
				else if (op == LoadStream)
				{
					vh::ChunkIn b(c.d.data(), c.d.size(), 1 + rng.below(50), false);
					std::istream is(&b);
					ok = i.load(is, cs);
				}
				else
				{
					std::string f = vh::scratchFile(id + "-in." + c.ext);
					vh::writeFile(f, c.d.data(), c.d.size());
					ok = i.load(f.c_str(), cs);
					unlink(f.c_str());
				}
				log.add(fmt("%s %s", n, c.what.c_str()), ok);
				log.add(fmt("%s %s", n, c.what.c_str()), i);
				if (i.isValid()) pick() = std::move(i);
				break;
			}
			case SaveVector: case SaveStream: case SaveFile:
			{
				valid();
				Image& i = pick();
				if (!i.isValid()) break;
				std::string ext = rng.pick(extensions);
				if (rng.chance(0.5) && i.width() <= 64 && i.height() <= 64)
					i = i.convert(rng.pick({IF::RGB8, IF::RGBA8, IF::Gray8, IF::RGBF, IF::Float, IF::Gray16}));
				bool ok;
				Bytes out;
				if (op == SaveVector)
					ok = i.save(out, ext.c_str());
				else if (op == SaveStream)
				{
					vh::LimitOut b(rng.chance(0.1) ? rng.below(500) : ~0ull, rng.chance(0.7));
					std::ostream os(&b);
					ok = i.save(os, ext.c_str());
					out = b.data;
				}
				else
				{
					std::string f = vh::scratchFile(id + "-out." + ext);
					ok = i.save(f.c_str());
					log.add(fmt("%s .%s", n, ext.c_str()), vh::readFile(f, out));
					unlink(f.c_str());
				}
				log.add(fmt("%s .%s %d", n, ext.c_str(), (int)i.format()), ok);
				log.add(fmt("%s .%s %d bytes", n, ext.c_str(), (int)i.format()), out);
				if (ok && !out.empty() && rng.chance(0.5))
				{
					Image r;
					r.load(out.data(), out.size());
					log.add(fmt("%s .%s reload", n, ext.c_str()), r);
				}
				break;
			}
			case Convert:
			{
				Image r = valid().convert(anyFormat(rng), rng.chance(0.5));
				log.add(n, r);
				if (r.isValid()) pick() = r;
				break;
			}
			case Resize:
			{
				Image r = valid().resize(1 + (unsigned)rng.below(40), 1 + (unsigned)rng.below(40), (Filter)rng.below(5));
				log.add(n, r);
				if (r.isValid()) pick() = r;
				break;
			}
			case Rotate:
			{
				Image r = valid().rotate((Image::RotateAngle)rng.below(6));
				log.add(n, r);
				if (r.isValid()) pick() = std::move(r);
				break;
			}
			case Flip:
			{
				Image& i = pick();
				log.add(n, rng.chance(0.5) ? i.flipHorizontal() : i.flipVertical());
				log.add(n, i);
				break;
			}
			case Colour:
			{
				Image& i = pick();
				bool ok = false;
				switch (rng.below(4))
				{
					case 0: ok = i.preMultiplyAlpha(); break;
					case 1: ok = i.changeColorSpace(rng.chance(0.5) ? ColorSpace::sRGB : ColorSpace::Linear); break;
					case 2: ok = i.grayscale(); break;
					default: ok = i.swizzle((Image::Channel)rng.below(5), (Image::Channel)rng.below(5), (Image::Channel)rng.below(5),
						(Image::Channel)rng.below(5)); break;
				}
				log.add(n, ok);
				log.add(n, i);
				break;
			}
			case Normal:
			{
				valid();
				Image& i = pick();
				Image r = i.createNormalMap((Image::NormalOptions)rng.below(8), rng.uniform(0.1, 3),
					rng.chance(0.5) ? anyFormat(rng) : IF::RGBF);
				log.add(n, r);
				if (r.isValid()) pick() = std::move(r);
				break;
			}
			case Pixels:
			{
				Image& i = pick();
				valid();
				if (!i.isValid()) break;
				uint64_t h = 3;
				for (unsigned k = 0; k < 20; ++k)
				{
					ColorRGBAd c{0, 0, 0, 0};
					unsigned x = (unsigned)rng.below(i.width() + 1), y = (unsigned)rng.below(i.height() + 1);
					bool ok = i.getPixel(c, x, y);
					h = digest(&c, sizeof c, h) + ok;
					c = {rng.unit(), rng.unit(), rng.unit(), rng.unit()};
					h = h*31 + i.setPixel((unsigned)rng.below(i.width()), (unsigned)rng.below(i.height()), c, rng.chance(0.5));
				}
				log.add(n, h);
				log.add(n, i);
				break;
			}
			case CopyMove:
			{
				Image a(pick());
				Image b(std::move(pick()));
				log.add(n, a);
				log.add(n, b);
				pick() = b.isValid() ? b : a;
				Texture c(tex), d;
				d = c;
				log.add(n, d);
				tex = std::move(d);
				break;
			}
			case TexMake:
				makeTexture();
				break;
			case TexMips:
			{
				if (!filled || tex.converted()) makeTexture();
				Texture::CustomMipImages custom;
				if (rng.chance(0.5))
					custom.emplace(Texture::ImageIndex((Face)rng.below(tex.faceCount()), (unsigned)rng.below(3), 0),
						Texture::CustomMipImage(valid(), rng.chance(0.5) ? Texture::MipReplacement::Once : Texture::MipReplacement::Continue));
				bool ok = tex.generateMipmaps((Filter)rng.below(5), rng.chance(0.5) ? Texture::allMipLevels : 1 + (unsigned)rng.below(6), custom);
				log.add(n, ok);
				log.add(n, tex);
				break;
			}
			case TexConvert:
			{
				if (!filled || tex.converted()) makeTexture();
				Texture::Format f;
				Texture::Type t;
				if (!anyTarget(rng, f, t)) break;
				bool ok = tex.convert(f, t, (Texture::Quality)rng.below(5), (Texture::Alpha)rng.below(4),
					Texture::ColorMask(rng.chance(0.9), rng.chance(0.9), rng.chance(0.9)), (unsigned)rng.below(4));
				log.add(fmt("%s %d.%d", n, (int)f, (int)t), ok);
				log.add(fmt("%s %d.%d", n, (int)f, (int)t), tex);
				break;
			}
			case TexSave: case TexFile:
			{
				if (!tex.converted()) step(TexConvert);
				Texture::FileType ft = (Texture::FileType)(1 + rng.below(3));
				static const char* const ext[] = {"", "dds", "KTX", "pvr", "Dds", "ktx"};
				Bytes out;
				int res;
				if (op == TexSave)
				{
					if (rng.chance(0.5))
						res = (int)tex.save(out, ft);
					else
					{
						vh::LimitOut b(rng.chance(0.1) ? rng.below(300) : ~0ull, rng.chance(0.5));
						std::ostream os(&b);
						res = (int)tex.save(os, ft);
						out = b.data;
					}
				}
				else
				{
					std::string f = vh::scratchFile(id + "-tex." + rng.pick(ext));
					res = (int)tex.save(f.c_str(), rng.chance(0.6) ? Texture::FileType::Auto : ft);
					log.add(n, vh::readFile(f, out));
					unlink(f.c_str());
				}
				log.add(n, (uint64_t)res);
				log.add(n, out);
				break;
			}
			case Range:
			{
				valid();
				Image& i = pick();
				Texture::adjustImageValueRange(i, (Texture::Type)rng.below((unsigned)Texture::Type::Float + 1),
					(IF)rng.below((unsigned)IF::Complex + 2));
				log.add(n, i);
				break;
			}
			default:
			{
				uint64_t h = 11;
				for (unsigned k = 0; k < 40; ++k)
				{
					auto f = (Texture::Format)rng.below((unsigned)Texture::Format::PVRTC2_RGBA_4BPP + 1);
					auto t = (Texture::Type)rng.below((unsigned)Texture::Type::Float + 1);
					auto ft = (Texture::FileType)rng.below(4);
					h = h*31 + Texture::isFormatValid(f, t) + 2*Texture::isFormatValid(f, t, ft) + 4*Texture::hasNativeSRGB(f, t) +
						8*Texture::hasAlpha(f) + 16*(uint64_t)Texture::blockWidth(f) + 256*(uint64_t)Texture::blockHeight(f) +
						4096*(uint64_t)Texture::blockSize(f) + Texture::minWidth(f)*7 + Texture::minHeight(f)*11 +
						Texture::maxMipmapLevels((Texture::Dimension)rng.below(4), (unsigned)rng.below(5000), (unsigned)rng.below(5000),
							(unsigned)rng.below(50));
				}
				log.add(n, h);
				break;
			}
		}
	}
};

static std::set<uint64_t>& signatures() {static std::set<uint64_t> s; return s;}

static void observe(const char* kind, unsigned threads)
{
	uint64_t sw = sched::switches.load();
	vh::count("context-switches-seen", sw);
	vh::count("injected-delays", sched::delays.load());
	vh::cover(fmt("%s:threads%u:switches2^%d", kind, threads, sw ? 64 - __builtin_clzll(sw) : 0));
	if (signatures().insert(sched::signature.load()).second)
		vh::count("distinct-interleavings");
}

// Starts them together.
struct Gate
{
	std::atomic<unsigned> waiting;
	explicit Gate(unsigned n) : waiting(n) {}
	void pass()
	{
		waiting.fetch_sub(1, std::memory_order_relaxed);
		while (waiting.load(std::memory_order_relaxed)) sched_yield();
	}
};

struct Program
{
	std::vector<Op> ops;
	uint64_t seed;
	static Program draw(Rng& rng, int focus)
	{
		Program p;
		p.seed = rng.next();
		unsigned n = 4 + (unsigned)rng.below(14);
		for (unsigned i = 0; i < n; ++i) p.ops.push_back(focus >= 0 && rng.chance(0.85) ? (Op)focus : (Op)rng.below(OpCount));
		return p;
	}
	Log run(const std::string& name) const
	{
		Actor a(seed, name);
		for (Op o : ops) a.step(o);
		return std::move(a.log);
	}
};

static void compare(const char* kind, const Log& got, const Log& want, const std::string& what)
{
	vh::eval(want.e.size());
	std::string d = got.diff(want);
	if (!d.empty()) vh::violation(fmt("%s:%s", kind, got.where(want).c_str()), what + ": " + d);
	for (auto& e : want.e)
	{
		std::string k = e.first.substr(0, e.first.find(' '));
		vh::count(fmt("results of %s", k.c_str()));
		vh::cover(fmt("%s:%s", kind, k.c_str()));
	}
}

// Everybody with objects of their own.
static void own(uint64_t idx, Rng& rng)
{
	unsigned n = rng.chance(0.1) ? 7 + (unsigned)rng.below(10) : 2 + (unsigned)rng.below(5);
	int focus = rng.chance(0.5) ? (int)rng.below(OpCount) : -1;
	std::vector<Program> p;
	bool same = rng.chance(0.2);
	for (unsigned i = 0; i < n; ++i)
	{
		p.push_back(Program::draw(rng, focus));
		// All doing exactly the same, so that all need the same thing at the same time.
		if (same && i) p[i] = p[0];
	}
	std::vector<Log> got(n);
	{
		Arm arm(1 + (unsigned)rng.below(3), rng.next());
		Gate gate(n);
		std::vector<std::thread> t;
		for (unsigned i = 0; i < n; ++i)
			t.emplace_back([&, i] {gate.pass(); got[i] = p[i].run(fmt("t%u", i));});
		for (auto& x : t) x.join();
	}
	observe(focus >= 0 ? opNames[focus] : "own", n);
	for (unsigned i = 0; i < n; ++i)
		compare("own", got[i], p[i].run(fmt("t%u", i)), fmt("thread %u of %u%s, mostly %s", i, n, same ? " all alike" : "",
			focus >= 0 ? opNames[focus] : "anything"));
	if (idx % 97 == 0) vh::sample(fmt("own objects: %u threads, %zu results in the first, mostly %s", n, got[0].e.size(), focus >= 0 ? opNames[focus] : "anything"));
}

// Things that all of them only read.
struct Shared
{
	Image img;
	Texture raw, done;
	coded::Coded file;
	std::string path;
	Image mip;
	Texture::CustomMipImages custom;
};

static Log readShared(const Shared& s, uint64_t seed, const std::string& id)
{
	Rng rng(seed);
	Log log;
	const Image& i = s.img;
	unsigned n = 4 + (unsigned)rng.below(10);
	for (unsigned k = 0; k < n; ++k)
		switch (rng.below(13))
		{
			case 0: log.add("convert", i.convert(anyFormat(rng), rng.chance(0.5))); break;
			case 1: log.add("resize", i.resize(1 + (unsigned)rng.below(30), 1 + (unsigned)rng.below(30), (Filter)rng.below(5))); break;
			case 2: log.add("rotate", i.rotate((Image::RotateAngle)rng.below(6))); break;
			case 3: log.add("normal", Image(i).createNormalMap((Image::NormalOptions)rng.below(8), 1.5, IF::RGBF)); break;
			case 4:
			{
				uint64_t h = 3;
				for (unsigned y = 0; y < i.height(); ++y)
					for (unsigned x = 0; x < i.width(); ++x)
					{
						ColorRGBAd c{0, 0, 0, 0};
						h += i.getPixel(c, x, y);
						h = digest(&c, sizeof c, h);
					}
				log.add("pixels", h);
				break;
			}
			case 5: log.add("image", i); break;
			case 6:
			{
				Image c(i);
				c.changeColorSpace(rng.chance(0.5) ? ColorSpace::sRGB : ColorSpace::Linear);
				c.flipVertical();
				c.grayscale();
				log.add("copy", c);
				log.add("copy", i);
				break;
			}
			case 7: log.add("texture", s.raw); log.add("converted", s.done); break;
			case 8:
			{
				Texture t(s.raw);
				t.generateMipmaps((Filter)rng.below(5));
				Texture::Format f;
				Texture::Type ty;
				if (!anyTarget(rng, f, ty)) break;
				bool ok = t.convert(f, ty, Texture::Quality::Low, Texture::Alpha::Standard, Texture::ColorMask(), (unsigned)rng.below(3));
				log.add(fmt("copy-converted %d.%d", (int)f, (int)ty), ok);
				log.add(fmt("copy-converted %d.%d", (int)f, (int)ty), t);
				log.add("texture", s.raw);
				break;
			}
			case 9:
			{
				Texture t(s.done);
				Bytes b;
				log.add("copy-saved", (uint64_t)t.save(b, (Texture::FileType)(1 + rng.below(3))));
				log.add("copy-saved", b);
				break;
			}
			case 10:
			{
				Texture t(Texture::Dimension::Dim2D, i.width(), i.height());
				log.add("custom", t.setImage(i));
				log.add("custom", t.generateMipmaps((Filter)rng.below(5), Texture::allMipLevels, s.custom));
				log.add("custom", t);
				break;
			}
			case 11:
			{
				Image l;
				log.add("load-memory " + s.file.what, l.load(s.file.d.data(), s.file.d.size()));
				log.add("load-memory " + s.file.what, l);
				break;
			}
			default:
			{
				Image l;
				log.add("load-file " + s.file.what, l.load(s.path.c_str()));
				log.add("load-file " + s.file.what, l);
				// Saved beside the others.
				Bytes b;
				Image c(i);
				log.add("save", c.save(b, rng.pick(extensions)));
				log.add("save", b);
				break;
			}
		}
	(void)id;
	return log;
}

static void shared(uint64_t idx, Rng& rng)
{
	Shared s;
	s.img = anyImage(rng);
	s.mip = anyImage(rng);
	s.file = coded::any(rng, 1 + (unsigned)rng.below(20), 1 + (unsigned)rng.below(20));
	if (rng.chance(0.5))
	{
		// As it comes from a file.
		Image l;
		if (l.load(s.file.d.data(), s.file.d.size())) s.img = std::move(l);
	}
	s.path = vh::scratchFile("shared." + s.file.ext);
	vh::writeFile(s.path, s.file.d.data(), s.file.d.size());
	s.custom.emplace(Texture::ImageIndex(1), Texture::CustomMipImage(s.mip, rng.chance(0.5) ? Texture::MipReplacement::Once :
		Texture::MipReplacement::Continue));
	if (rng.chance(0.5)) s.custom.emplace(Texture::ImageIndex(2), Texture::CustomMipImage(Image(s.img), Texture::MipReplacement::Once));
	{
		Actor a(rng.next(), "s");
		a.makeTexture();
		s.raw = a.tex;
		a.step(TexConvert);
		s.done = std::move(a.tex);
	}
	Log before;
	before.add("image", s.img); before.add("mip", s.mip); before.add("texture", s.raw); before.add("converted", s.done);
	unsigned n = 2 + (unsigned)rng.below(6);
	std::vector<uint64_t> seeds;
	for (unsigned i = 0; i < n; ++i) seeds.push_back(i && rng.chance(0.2) ? seeds[0] : rng.next());
	std::vector<Log> got(n);
	{
		const Shared& c = s;
		Arm arm(1 + (unsigned)rng.below(3), rng.next());
		Gate gate(n);
		std::vector<std::thread> t;
		for (unsigned i = 0; i < n; ++i)
			t.emplace_back([&, i] {gate.pass(); got[i] = readShared(c, seeds[i], fmt("t%u", i));});
		for (auto& x : t) x.join();
	}
	observe("shared", n);
	Log after;
	after.add("image", s.img); after.add("mip", s.mip); after.add("texture", s.raw); after.add("converted", s.done);
	compare("shared-changed", after, before, fmt("objects read by %u threads", n));
	for (unsigned i = 0; i < n; ++i)
		compare("shared", got[i], readShared(s, seeds[i], "alone"), fmt("reader %u of %u", i, n));
	unlink(s.path.c_str());
	if (idx % 97 == 0) vh::sample(fmt("shared objects: %u readers of a %ux%u image of format %d and a texture", n, s.img.width(), s.img.height(), (int)s.img.format()));
}

// Objects that go from thread to thread, each stage done by whichever thread gets them.
static void handOver(uint64_t, Rng& rng)
{
	unsigned n = 2 + (unsigned)rng.below(4), jobs = 2 + (unsigned)rng.below(5), stages = 3 + (unsigned)rng.below(5);
	std::vector<uint64_t> seeds;
	std::vector<std::vector<Op>> ops(jobs);
	for (unsigned i = 0; i < jobs; ++i)
	{
		seeds.push_back(rng.next());
		for (unsigned k = 0; k < stages*2; ++k) ops[i].push_back((Op)rng.below(OpCount));
	}
	struct Item {std::unique_ptr<Actor> a; unsigned job, stage;};
	std::deque<Item> q;
	std::mutex m;
	std::condition_variable cv;
	unsigned left = jobs;
	std::vector<Log> got(jobs);
	std::vector<std::set<unsigned>> who(jobs);
	{
		Arm arm(1 + (unsigned)rng.below(3), rng.next());
		for (unsigned i = 0; i < jobs; ++i) q.push_back({nullptr, i, 0});
		std::vector<std::thread> t;
		for (unsigned k = 0; k < n; ++k)
			t.emplace_back([&, k]
			{
				for (;;)
				{
					Item it;
					{
						std::unique_lock<std::mutex> l(m);
						cv.wait(l, [&] {return !q.empty() || !left;});
						if (q.empty()) return;
						it = std::move(q.front());
						q.pop_front();
						who[it.job].insert(k);
					}
					if (!it.a) it.a.reset(new Actor(seeds[it.job], fmt("j%u", it.job)));
					it.a->step(ops[it.job][it.stage*2]);
					it.a->step(ops[it.job][it.stage*2 + 1]);
					++it.stage;
					std::lock_guard<std::mutex> l(m);
					if (it.stage == stages)
					{
						got[it.job] = std::move(it.a->log);
						--left;
					}
					else
						q.push_back(std::move(it));
					cv.notify_all();
				}
			});
		for (auto& x : t) x.join();
	}
	observe("hand-over", n);
	for (unsigned i = 0; i < jobs; ++i)
	{
		Actor a(seeds[i], fmt("j%u", i));
		for (Op o : ops[i]) a.step(o);
		if (who[i].size() > 1) vh::count("objects used by several threads in turn");
		compare("hand-over", got[i], a.log, fmt("object %u of %u through %zu threads", i, jobs, who[i].size()));
	}
}

// Also as the first thing that a process does.
static void concurrent(uint64_t idx, Rng& rng)
{
	unsigned k = (unsigned)rng.below(20);
	if (k < 11) own(idx, rng);
	else if (k < 16) shared(idx, rng);
	else handOver(idx, rng);
}

int main(int argc, char** argv)
{
	return vh::runMain(argc, argv, {{"C27", concurrent}});
}
