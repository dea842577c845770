// C22, C23, C24: the command-line tool, run as a process in a scratch directory.
#include "toolrun.h"
#include "readers.h"
#ifdef VH_ENC
#include "blocks.h"
#endif
#include <stdexcept>

using namespace cuttlefish;
using namespace ref;
using vh::Rng;
using vh::fmt;
typedef std::vector<std::string> Args;
typedef Texture::Dimension Dim;

static std::string upperSome(Rng& rng, std::string s)
{
	if (rng.chance(0.8)) return s;
	for (char& c : s) if (rng.chance(0.5)) c = (char)toupper(c);
	return s;
}

static const char* filterNames[] = {"box", "linear", "cubic", "catmull-rom", "b-spline"};
static const Image::ResizeFilter filters[] = {Image::ResizeFilter::Box, Image::ResizeFilter::Linear, Image::ResizeFilter::Cubic,
	Image::ResizeFilter::CatmullRom, Image::ResizeFilter::BSpline};
static const char* faceNames[] = {"+x", "-x", "+y", "-y", "+z", "-z"};
static const char* typeOpts[] = {"unorm", "snorm", "uint", "int", "ufloat", "float"};
static const char* containerExt[] = {"dds", "ktx", "pvr"};
static const Texture::FileType containers[] = {Texture::FileType::DDS, Texture::FileType::KTX, Texture::FileType::PVR};

// A fresh directory for one case, removed with it.
struct Dir
{
	std::string path;
	Dir()
	{
		path = vh::scratchFile(fmt("case%llu", (unsigned long long)vh::st().curCase));
		vh::removeTree(path);
		mkdir(path.c_str(), 0755);
	}
	~Dir() {vh::removeTree(path);}
	std::string at(const std::string& n) const {return path + "/" + n;}
};

struct CustomMip {unsigned level = 1, depth = 0, face = 0; bool once = false; std::string file;};

// What a command line asks for, and the command line that asks for it.
struct Request
{
	enum Kind {Single, Array, Cube, CubeArray} kind = Single;
	Dim dim = Dim::Dim2D;
	std::vector<std::string> files;
	std::vector<CustomMip> customs;
	bool srgb = false, flipX = false, flipY = false, gray = false, swizzle = false, premul = false, normal = false, resize = false;
	int angle = 0;
	std::string rw, rh, sw = "rgba";
	Image::ResizeFilter rf = Image::ResizeFilter::CatmullRom, mf = Image::ResizeFilter::CatmullRom;
	Image::NormalOptions no = Image::NormalOptions::Default;
	double nh = 1.0;
	unsigned mips = 1, jobs = 1;
	const Layout* l = nullptr;
	T type = T::UNorm;
	int alpha = -1;
	Texture::Quality quality = Texture::Quality::Normal;
	int container = 0;
	std::string output;
	int log = 0;
	bool makesDir = false; // the output's directory is for the tool to create
	std::vector<Args> groups; // options in any order
	Args inputs; // input options, order matters
};

static unsigned po2Up(unsigned v) {unsigned p = 1; while (p < v) p *= 2; return p;}

// One of the documented size names, or a number.
static bool sizeOf(const std::string& s, unsigned cur, unsigned w, unsigned h, unsigned& out)
{
	std::string b = s, po2;
	if (!s.empty() && isdigit((unsigned char)s[0])) {out = (unsigned)std::strtoul(s.c_str(), nullptr, 10); return true;}
	if (s == "nextpo2" || s == "nearestpo2") {b = ""; po2 = s;}
	else
	{
		size_t p = s.find('-');
		if (p != std::string::npos) {b = s.substr(0, p); po2 = s.substr(p + 1);}
	}
	unsigned v = b.empty() ? cur : b == "width" ? w : b == "height" ? h : b == "min" ? std::min(w, h) : std::max(w, h);
	if (po2 == "nextpo2") v = po2Up(v);
	if (po2 == "nearestpo2")
	{
		unsigned n = po2Up(v), p = n/2;
		if (p && n - v == v - p) return false; // Both are nearest.
		if (p && v - p < n - v) n = p;
		v = n;
	}
	out = v;
	return true;
}

static std::string drawInput(Rng& rng, const Dir& d, const std::string& name, unsigned w, unsigned h, bool allowFloat = true)
{
	struct Choice {IF f; const char* ext;};
	static const Choice ints[] = {{IF::Gray8, "png"}, {IF::RGB8, "png"}, {IF::RGBA8, "png"}, {IF::RGBA8, "png"}, {IF::RGB8, "bmp"},
		{IF::RGBA8, "tga"}, {IF::RGB8, "tif"}, {IF::RGBA16, "png"}, {IF::Gray16, "png"}, {IF::RGB16, "tif"}, {IF::RGB8, "ppm"}};
	static const Choice floats[] = {{IF::RGBAF, "tif"}, {IF::RGBF, "tif"}, {IF::Float, "tif"}, {IF::Int16, "tif"}, {IF::Int32, "tif"},
		{IF::UInt32, "tif"}};
	for (;;)
	{
		Choice c = allowFloat && rng.chance(0.3) ? rng.pick(floats) : rng.pick(ints);
		Image img(c.f, w, h);
		fillRandom(img, rng, false, rng.chance(0.7) ? 1.0 : 40.0);
		std::string n = name + "." + c.ext;
		if (img.save(d.at(n).c_str())) return n;
	}
}

static std::vector<uint8_t> fromFile(const std::string& p)
{
	std::vector<uint8_t> d;
	vh::readFile(p, d);
	return d;
}

// The operations of the pipeline in their documented order, one library call each.
static bool process(const Request& q, const std::string& path, unsigned level, unsigned& w, unsigned& h, Image& out)
{
	ColorSpace in = q.srgb ? ColorSpace::sRGB : ColorSpace::Linear;
	bool native = q.l->srgb && q.type == T::UNorm;
	ColorSpace target = q.srgb && native ? ColorSpace::sRGB : ColorSpace::Linear;
	if (!out.load(path.c_str(), in)) return false;
	if (!w)
	{
		unsigned iw = out.width(), ih = out.height();
		w = iw; h = ih;
		if (q.resize && (!sizeOf(q.rw, iw, iw, ih, w) || !sizeOf(q.rh, ih, iw, ih, h))) return false;
	}
	Image::Format original = out.format();
	if (original != IF::RGBAF) out = out.convert(IF::RGBAF);
	out.changeColorSpace(target);
	unsigned lw = std::max(1u, w >> level), lh = std::max(1u, h >> level);
	unsigned fw = q.normal ? w : lw, fh = q.normal ? h : lh;
	if (out.width() != fw || out.height() != fh) out = out.resize(fw, fh, q.rf);
	switch (((q.angle % 360) + 360) % 360)
	{
		case 90: out = out.rotate(Image::RotateAngle::CW90); break;
		case 180: out = out.rotate(Image::RotateAngle::CW180); break;
		case 270: out = out.rotate(Image::RotateAngle::CW270); break;
	}
	if (q.gray) out.grayscale();
	if (q.normal)
	{
		bool sgn = q.type == T::SNorm || q.type == T::Int || q.type == T::Float;
		out = out.createNormalMap(sgn ? q.no | Image::NormalOptions::KeepSign : q.no, q.nh);
		if (fw != lw || fh != lh)
			out = (q.angle/90) % 2 ? out.resize(lh, lw, q.rf) : out.resize(lw, lh, q.rf);
		original = out.format();
	}
	if (q.flipX) out.flipHorizontal();
	if (q.flipY) out.flipVertical();
	if (q.swizzle)
	{
		Image::Channel c[4];
		for (int i = 0; i < 4; ++i)
		{
			char k = (char)tolower(q.sw[i]);
			c[i] = k == 'r' ? Image::Channel::Red : k == 'g' ? Image::Channel::Green : k == 'b' ? Image::Channel::Blue :
				k == 'a' ? Image::Channel::Alpha : Image::Channel::None;
		}
		out.swizzle(c[0], c[1], c[2], c[3]);
	}
	if (q.premul) out.preMultiplyAlpha();
	Texture::adjustImageValueRange(out, q.type, original);
	return out.isValid();
}

// The expected status of an accepted request, and with status 0 the bytes of the file.
static int expected(const Request& q, const Dir& d, std::vector<uint8_t>& bytes)
{
	unsigned w = 0, h = 0;
	std::vector<Image> images(q.files.size());
	for (size_t i = 0; i < images.size(); ++i)
		if (!process(q, d.at(q.files[i]), 0, w, h, images[i])) return 2;
	unsigned depth = q.kind == Request::Array ? (unsigned)images.size() : q.kind == Request::CubeArray ? (unsigned)images.size()/6 : 0;
	bool cube = q.kind == Request::Cube || q.kind == Request::CubeArray;
	Dim dim = cube ? Dim::Cube : q.dim;
	unsigned levels = std::min(q.mips, Texture::maxMipmapLevels(dim, w, h, depth));
	Texture::CustomMipImages customs;
	for (auto& c : q.customs)
	{
		if (c.level >= levels) return 2;
		if (c.face && !cube) return 2;
		Image img;
		if (!process(q, d.at(c.file), c.level, w, h, img)) return 2;
		customs.emplace(Texture::ImageIndex((Texture::CubeFace)c.face, c.level, c.depth),
			Texture::CustomMipImage(std::move(img), c.once ? Texture::MipReplacement::Once : Texture::MipReplacement::Continue));
	}
	bool native = q.l->srgb && q.type == T::UNorm;
	Texture t(dim, images[0].width(), images[0].height(), depth, 1, q.srgb && native ? ColorSpace::sRGB : ColorSpace::Linear);
	for (size_t i = 0; i < images.size(); ++i)
	{
		bool ok = cube ? t.setImage(images[i], (Texture::CubeFace)(i % 6), 0, (unsigned)(i/6)) : t.setImage(images[i], 0, (unsigned)i);
		if (!ok) return 3;
	}
	if (q.mips > 1 && !t.generateMipmaps(q.mf, q.mips, customs)) return 3;
	Texture::ColorMask mask;
	bool noAlpha = false;
	if (q.swizzle)
	{
		mask.r = tolower(q.sw[0]) != 'x'; mask.g = tolower(q.sw[1]) != 'x'; mask.b = tolower(q.sw[2]) != 'x';
		mask.a = tolower(q.sw[3]) != 'x';
		noAlpha = !mask.a;
	}
	Texture::Alpha alpha = q.alpha >= 0 ? (Texture::Alpha)q.alpha : noAlpha ? Texture::Alpha::None :
		q.premul ? Texture::Alpha::PreMultiplied : Texture::Alpha::Standard;
	if (!t.convert(q.l->format, q.type, q.quality, alpha, mask, 1)) return 3;
	if (t.save(bytes, containers[q.container]) != Texture::SaveResult::Success) return 3;
	return 0;
}

static void optFormat(Rng& rng, Request& q)
{
	for (;;)
	{
#ifdef VH_ENC
		q.l = &rng.pick(blocks()).l;
		q.type = rng.pick(q.l->types);
#else
		q.l = anyLayout(rng, q.type);
#endif
		q.container = (int)rng.below(3);
		if (Texture::isFormatValid(q.l->format, q.type, containers[q.container])) break;
	}
	q.groups.push_back({rng.chance(0.5) ? "-f" : "--format", upperSome(rng, q.l->name)});
	bool packed = q.l->format == F::B10G11R11_UFloat || q.l->format == F::E5B9G9R9_UFloat ||
		q.l->format == F::BC6H;
	bool isDefault = q.type == (packed ? T::UFloat : T::UNorm);
	if (!isDefault || rng.chance(0.4))
		q.groups.push_back({rng.chance(0.5) ? "-t" : "--type", upperSome(rng, typeOpts[(int)q.type])});
	q.output = "out";
	bool explicitType = rng.chance(0.3);
	if (!explicitType || rng.chance(0.5))
		q.output += std::string(".") + upperSome(rng, containerExt[explicitType ? rng.below(3) : (unsigned)q.container]);
	if (explicitType)
		q.groups.push_back({"--file-format", upperSome(rng, containerExt[q.container])});
	q.groups.push_back({rng.chance(0.5) ? "-o" : "--output", q.output});
}

static void optMisc(Rng& rng, Request& q)
{
	if (rng.chance(0.4))
	{
		if (rng.chance(0.3)) q.groups.push_back({rng.chance(0.5) ? "-j" : "--jobs"});
		else
		{
			static const char* n[] = {"0", "1", "2", "3", "8", "17"};
			q.groups.push_back({rng.chance(0.5) ? "-j" : "--jobs", rng.pick(n)});
		}
	}
	q.log = rng.chance(0.5) ? 0 : rng.chance(0.5) ? 1 : 2;
	if (q.log == 1) q.groups.push_back({rng.chance(0.5) ? "-q" : "--quiet"});
	if (q.log == 2) q.groups.push_back({rng.chance(0.5) ? "-v" : "--verbose"});
	if (rng.chance(0.3))
	{
		static const char* a[] = {"none", "standard", "pre-multiplied", "encoded"};
		static const Texture::Alpha av[] = {Texture::Alpha::None, Texture::Alpha::Standard, Texture::Alpha::PreMultiplied,
			Texture::Alpha::Encoded};
		unsigned i = (unsigned)rng.below(4);
		q.alpha = (int)av[i];
		q.groups.push_back({"--alpha", upperSome(rng, a[i])});
	}
	if (rng.chance(0.3))
	{
		static const char* a[] = {"lowest", "low", "normal", "high", "highest"};
		static const Texture::Quality v[] = {Texture::Quality::Lowest, Texture::Quality::Low, Texture::Quality::Normal,
			Texture::Quality::High, Texture::Quality::Highest};
		unsigned i = (unsigned)rng.below(5);
		q.quality = v[i];
		q.groups.push_back({rng.chance(0.5) ? "-Q" : "--quality", upperSome(rng, a[i])});
	}
	if (rng.chance(0.1)) q.groups.push_back({"--create-dir"});
}

static void optManipulate(Rng& rng, Request& q, unsigned w, unsigned h)
{
	if (rng.chance(0.4)) {q.srgb = true; q.groups.push_back({"--srgb"});}
	if (rng.chance(0.3)) {q.flipX = true; q.groups.push_back({"--flipx"});}
	if (rng.chance(0.3)) {q.flipY = true; q.groups.push_back({"--flipy"});}
	if (rng.chance(0.2)) {q.gray = true; q.groups.push_back({rng.chance(0.5) ? "-g" : "--grayscale"});}
	if (rng.chance(0.3)) {q.premul = true; q.groups.push_back({"--pre-multiply"});}
	if (rng.chance(0.4))
	{
		static const int a[] = {90, 180, 270, -90, -180, -270, 0, 360, 450, -450, 720, 630};
		q.angle = rng.pick(a);
		q.groups.push_back({"--rotate", fmt("%d", q.angle)});
	}
	if (rng.chance(0.35))
	{
		q.swizzle = true;
		for (int i = 0; i < 4; ++i) q.sw[i] = "rgbaxRGBAX"[rng.below(10)];
		q.groups.push_back({rng.chance(0.5) ? "-s" : "--swizzle", q.sw});
	}
	if (rng.chance(0.25))
	{
		q.normal = true;
		Args g{rng.chance(0.5) ? "-n" : "--normalmap"};
		switch (rng.below(4))
		{
			case 0: q.no = Image::NormalOptions::WrapX | Image::NormalOptions::WrapY; g.push_back(upperSome(rng, "wrap")); break;
			case 1: q.no = Image::NormalOptions::WrapX; g.push_back(upperSome(rng, "wrapx")); break;
			case 2: q.no = Image::NormalOptions::WrapY; g.push_back(upperSome(rng, "wrapy")); break;
		}
		if (rng.chance(0.5))
		{
			static const char* hs[] = {"0.5", "2", "1e1", "0", "3.25", "-1.5"};
			g.push_back(rng.pick(hs));
			q.nh = std::strtod(g.back().c_str(), nullptr);
		}
		q.groups.push_back(g);
	}
	if (rng.chance(0.4))
	{
		static const char* names[] = {"nextpo2", "nearestpo2", "width", "width-nextpo2", "width-nearestpo2", "height", "height-nextpo2",
			"height-nearestpo2", "min", "min-nextpo2", "min-nearestpo2", "max", "max-nextpo2", "max-nearestpo2"};
		bool long_ = false;
		auto draw = [&](unsigned cur)
		{
			for (;;)
			{
				std::string s = std::max(w, h) > 1000 && rng.chance(0.4) ? "nextpo2" : rng.chance(0.4) ?
					fmt("%u", 1 + (unsigned)rng.below(20)) : rng.pick(names);
				unsigned v;
				if (!sizeOf(s, cur, w, h, v)) continue;
				if (v > 1000 && long_) s = "1"; // Not both.
				long_ = v > 1000;
				return s;
			}
		};
		q.resize = true;
		q.rw = draw(w);
		q.rh = draw(h);
		Args g{rng.chance(0.5) ? "-r" : "--resize", upperSome(rng, q.rw), upperSome(rng, q.rh)};
		if (rng.chance(0.7))
		{
			unsigned i = (unsigned)rng.below(5);
			q.rf = filters[i];
			g.push_back(upperSome(rng, filterNames[i]));
		}
		q.groups.push_back(g);
	}
}

static void optMips(Rng& rng, Request& q)
{
	Args g{rng.chance(0.5) ? "-m" : "--mipmap"};
	if (rng.chance(0.5)) q.mips = Texture::allMipLevels;
	else
	{
		q.mips = (unsigned)rng.below(8);
		g.push_back(fmt("%u", q.mips));
	}
	if (rng.chance(0.6))
	{
		unsigned i = (unsigned)rng.below(5);
		q.mf = filters[i];
		g.push_back(upperSome(rng, filterNames[i]));
	}
	q.groups.push_back(g);
}

// Joins all options; the input options keep their own order but are interleaved with the others.
static Args assemble(Rng& rng, const std::vector<Args>& groups, const std::vector<Args>& inputs)
{
	std::vector<Args> g = groups;
	for (size_t i = g.size(); i > 1; --i) std::swap(g[i - 1], g[rng.below(i)]);
	Args out;
	size_t a = 0, b = 0;
	while (a < g.size() || b < inputs.size())
	{
		bool first = b >= inputs.size() || (a < g.size() && rng.below(g.size() - a + inputs.size() - b) < g.size() - a);
		for (auto& s : first ? g[a++] : inputs[b++]) out.push_back(s);
	}
	return out;
}

static const char* kindNames[] = {"single", "array", "cube", "cube-array"};

// Everything that gives the input images. Names must not be ambiguous with the options before them.
static std::vector<Args> spellInputs(Rng& rng, Request& q, const Dir& d)
{
	std::vector<Args> in;
	size_t n = q.files.size();
	if (rng.chance(0.3))
	{
		static const char* t[] = {"image", "array", "cube", "cube-array"};
		static const char* eol[] = {"\n", "\r\n", "\r", "\n\n", "\n\r\n"};
		std::string e = rng.pick(eol), s;
		if (rng.chance(0.2)) s += e;
		for (size_t i = 0; i < n; ++i) s += q.files[i] + (i + 1 < n || rng.chance(0.5) ? e : "");
		vh::writeFile(d.at("list.txt"), s.data(), s.size());
		in.push_back({rng.chance(0.5) ? "-I" : "--input-list", upperSome(rng, t[q.kind]), "list.txt"});
		return in;
	}
	if (q.kind == Request::Single)
	{
		in.push_back({rng.chance(0.5) ? "-i" : "--input", q.files[0]});
		return in;
	}
	std::vector<size_t> order(n);
	for (size_t i = 0; i < n; ++i) order[i] = i;
	bool implicit = q.kind == Request::Array && rng.chance(0.4);
	if (!implicit)
		for (size_t i = n; i > 1; --i) std::swap(order[i - 1], order[rng.below(i)]);
	size_t size = 0;
	for (size_t i : order)
	{
		std::string face = upperSome(rng, faceNames[i % 6]);
		if (q.kind == Request::Cube) in.push_back({rng.chance(0.5) ? "-c" : "--cube", face, q.files[i]});
		else if (q.kind == Request::CubeArray) in.push_back({rng.chance(0.5) ? "-C" : "--cube-array", fmt("%zu", i/6), face, q.files[i]});
		// Without an index an image goes to the end of what was given so far.
		else if (implicit || (i == size && rng.chance(0.3))) in.push_back({rng.chance(0.5) ? "-a" : "--array", q.files[i]});
		else in.push_back({rng.chance(0.5) ? "-a" : "--array", fmt("%zu", i), q.files[i]});
		size = std::max(size, i + 1);
	}
	return in;
}

static void spellCustoms(Rng& rng, Request& q, const Dir& d, std::vector<Args>& groups)
{
	std::string list;
	static const char* eol[] = {"\n", "\r\n", "\r", "\n\n", "\r\n\r\n"};
	static const char* gap[] = {" ", "\t", "  ", " \t "};
	std::string e = rng.pick(eol);
	bool inList = rng.chance(0.4);
	for (auto& c : q.customs)
	{
		Args a{fmt("%u", c.level)};
		// Anything may be left out where it is the default.
		if (c.depth || rng.chance(0.5)) a.push_back(fmt("%u", c.depth));
		if (c.face || rng.chance(0.5)) a.push_back(upperSome(rng, faceNames[c.face]));
		if (c.once || rng.chance(0.5)) a.push_back(upperSome(rng, c.once ? "once" : "continue"));
		if (inList && rng.chance(0.8))
		{
			std::string s = rng.chance(0.2) ? " " : "";
			for (auto& x : a) s += x + rng.pick(gap);
			list += s + c.file + e;
		}
		else
		{
			a.insert(a.begin(), rng.chance(0.5) ? "-M" : "--custom-mip");
			a.push_back(c.file);
			groups.push_back(a);
		}
	}
	if (list.empty()) return;
	if (rng.chance(0.5)) list.resize(list.size() - e.size());
	vh::writeFile(d.at("mips.txt"), list.data(), list.size());
	groups.push_back({"--custom-mip-list", "mips.txt"});
}

static void drawCustoms(Rng& rng, Request& q, unsigned levels, const std::function<std::string(const CustomMip&)>& make)
{
	bool cube = q.kind == Request::Cube || q.kind == Request::CubeArray;
	unsigned depth = q.kind == Request::Array ? (unsigned)q.files.size() : q.kind == Request::CubeArray ? (unsigned)q.files.size()/6 : 1;
	for (unsigned m = 1; m < levels; ++m)
	{
		unsigned ld = q.dim == Dim::Dim3D ? std::max(1u, depth >> m) : depth;
		bool all3D = q.dim == Dim::Dim3D && rng.chance(0.4), once3D = rng.chance(0.5);
		for (unsigned z = 0; z < ld; ++z)
			for (unsigned f = 0; f < (cube ? 6u : 1u); ++f)
			{
				if (q.dim == Dim::Dim3D ? !all3D : !rng.chance(0.3)) continue;
				CustomMip c;
				c.level = m; c.depth = z; c.face = f;
				c.once = q.dim == Dim::Dim3D ? once3D : rng.chance(0.5);
				c.file = make(c);
				q.customs.push_back(c);
			}
	}
	for (size_t i = q.customs.size(); i > 1; --i) std::swap(q.customs[i - 1], q.customs[rng.below(i)]);
}

static void drawKind(Rng& rng, Request& q, unsigned& n)
{
	static const Request::Kind kinds[] = {Request::Single, Request::Single, Request::Single, Request::Array, Request::Array, Request::Cube,
		Request::CubeArray};
	q.kind = rng.pick(kinds);
	n = q.kind == Request::Single ? 1 : q.kind == Request::Array ? 1 + (unsigned)rng.below(6) : q.kind == Request::Cube ? 6 :
		6*(1 + (unsigned)rng.below(2));
	q.dim = Dim::Dim2D;
	if (q.kind == Request::Single && rng.chance(0.15)) q.dim = Dim::Dim1D;
	if (q.kind == Request::Array) q.dim = rng.chance(0.4) ? Dim::Dim3D : rng.chance(0.2) ? Dim::Dim1D : Dim::Dim2D;
	if (q.dim != Dim::Dim2D || rng.chance(0.3))
		q.groups.push_back({rng.chance(0.5) ? "-d" : "--dimension", q.dim == Dim::Dim1D ? "1" : q.dim == Dim::Dim2D ? "2" : "3"});
}

static unsigned drawSize(Rng& rng) {return rng.chance(0.012) ? 19 + (unsigned)rng.below(rng.chance(0.2) ? 500 : 120) : rng.chance(0.2) ? 1 : rng.chance(0.3) ? 1u << rng.below(5) : 1 + (unsigned)rng.below(18);}

static void checkUntouched(const std::map<std::string, std::string>& before, const Dir& d, const std::string& allowed,
	const std::string& key, const std::string& cmd)
{
	std::map<std::string, std::string> after;
	vh::snapshot(d.path, after);
	auto b = before;
	for (std::string a = allowed; !a.empty(); a.resize(a.find('/') == std::string::npos ? 0 : a.rfind('/')))
	{
		after.erase(a);
		b.erase(a);
	}
	std::string diff = vh::snapshotDiff(b, after);
	VH_CHECK(diff.empty(), key, "%s: %s", cmd.c_str(), diff.c_str());
}

static Request drawPipeline(uint64_t idx, Rng& rng, const Dir& d, std::vector<Args>& inputs)
{
	Request q;
	unsigned n;
	drawKind(rng, q, n);
	unsigned w = drawSize(rng), h = q.dim == Dim::Dim1D && rng.chance(0.8) ? 1 : drawSize(rng);
	if (q.kind >= Request::Cube && rng.chance(0.5)) h = w;
	bool vast = idx % 500 == 7;
	if (vast) {q = Request(); n = 1;}
	if (q.kind == Request::Single && q.dim != Dim::Dim3D && (vast || rng.chance(0.02)))
	{
		// Long and thin, around a power of two.
		w = (1u << (vast ? 16 : rng.chance(0.1) ? 12 + rng.below(6) : 4 + rng.below(8))) + (unsigned)rng.below(3) - (vast ? 0 : 1);
		h = 1 + (unsigned)rng.below(2);
		if (q.dim != Dim::Dim1D && rng.chance(0.3)) std::swap(w, h);
	}
	for (unsigned i = 0; i < n; ++i)
	{
		bool other = i && rng.chance(0.2);
		q.files.push_back(drawInput(rng, d, fmt("in%u", i), other ? drawSize(rng) : w, other ? drawSize(rng) : h));
	}
	optFormat(rng, q);
	optMisc(rng, q);
	if (rng.chance(0.08))
	{
		// Into directories that are not there yet.
		static const char* deep[] = {"new/", "new/er/", "a/b/c/d/", "with space/x.ktx/"};
		for (auto& g : q.groups)
			if (g[0] == "-o" || g[0] == "--output") g[1] = q.output = rng.pick(deep) + q.output;
		q.groups.push_back({"--create-dir"});
		q.makesDir = true;
	}
	optManipulate(rng, q, w, h);
	if (rng.chance(0.5))
	{
		optMips(rng, q);
		unsigned tw = w, th = h;
		if (q.resize) {sizeOf(q.rw, w, w, h, tw); sizeOf(q.rh, h, w, h, th);}
		unsigned levels = std::min(q.mips, Texture::maxMipmapLevels(q.dim, tw, th, n));
		if (rng.chance(0.5))
			drawCustoms(rng, q, std::min(levels, rng.chance(0.7) ? 4u : 9u), [&](const CustomMip& c)
			{
				bool fit = rng.chance(0.5);
				return drawInput(rng, d, fmt("mip%u_%u_%u", c.level, c.depth, c.face), fit ? std::max(1u, tw >> c.level) : drawSize(rng),
					fit ? std::max(1u, th >> c.level) : drawSize(rng));
			});
	}
	spellCustoms(rng, q, d, q.groups);
	inputs = spellInputs(rng, q, d);
	return q;
}

static void pipeline(uint64_t idx, Rng& rng)
{
	Dir d;
	std::vector<Args> inputs;
	Request q = drawPipeline(idx, rng, d, inputs);
	std::vector<uint8_t> want;
	int status = expected(q, d, want);
	// The same request twice, differently spelled in order, verbosity and jobs.
	for (int round = 0; round < 2; ++round)
	{
		std::map<std::string, std::string> before;
		if ((!q.makesDir || round) && rng.chance(0.3))
		{
			std::string old(rng.below(9000), 'o');
			vh::writeFile(d.at(q.output), old.data(), old.size());
		}
		vh::snapshot(d.path, before);
		Args cmd = assemble(rng, q.groups, inputs);
		if (round) {cmd.push_back("-j"); cmd.push_back("5");}
		vh::ToolRun r = vh::runTool(cmd, d.path);
		std::string c = vh::shown(cmd);
		if (!vh::endedWell(r, "pipeline", c)) return;
		VH_CHECK(r.rc == status, fmt("pipeline:status:%d-for-%d", r.rc, status), "%s: exit %d instead of %d: %s", c.c_str(), r.rc, status,
			r.tail().c_str());
		if (r.rc == 0)
		{
			std::vector<uint8_t> got = fromFile(d.at(q.output));
			size_t i = 0;
			while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
			VH_CHECK(got == want, "pipeline:bytes", "%s: %zu bytes instead of %zu, first difference at %zu", c.c_str(), got.size(),
				want.size(), i);
			if (q.log == 1)
				VH_CHECK(r.out.empty(), "pipeline:quiet", "%s printed '%s'", c.c_str(), r.out.c_str());
		}
		// A failure leaves no directories behind.
		checkUntouched(before, d, status && q.makesDir ? "" : q.output, "pipeline:other-files", c);
		if (q.makesDir && !status) vh::cover("new directories");
		if (status) break;
	}
	vh::cover(fmt("%s dim%d%s%s status%d", kindNames[q.kind], (int)q.dim, q.mips > 1 ? "+mips" : "", q.customs.empty() ? "" : "+custom", status));
	vh::cover(fmt("%s %s %s%s", q.l->name, typeName(q.type), containerExt[q.container], q.srgb ? " srgb" : ""));
	vh::cover(fmt("ops%s%s%s%s%s%s%s%s", q.resize ? " r" : "", q.angle ? " R" : "", q.gray ? " g" : "", q.normal ? " n" : "",
		q.flipX ? " x" : "", q.flipY ? " y" : "", q.swizzle ? " s" : "", q.premul ? " p" : ""));
	vh::count(fmt("exit %d", status));
	if (vh::st().curCase % 500 == 0)
		vh::sample(vh::shown(assemble(rng, q.groups, inputs)) + fmt(" -> exit %d, %zu bytes as expected", status, want.size()));
}

// ---- C24 ----

struct Rgba {uint8_t c[4]; bool operator==(const Rgba& o) const {return std::memcmp(c, o.c, 4) == 0;}};

static std::string niceName(Rng& rng, unsigned i, bool custom)
{
	// Custom mips in lists have their names after white space.
	if (!custom && rng.chance(0.1)) return fmt(rng.chance(0.5) ? " img%u.png" : "\t  img%u.png", i);
	static const char* forms[] = {"img%u.png", "a b %u.png", "\xe5\x9c\xb0%u.png", "once%u.png", "i-%u.png", "x%u .png", "#%u;.png", "+x%u.png"};
	char b[64];
	std::snprintf(b, sizeof b, rng.pick(forms), i);
	return b;
}

static void placement(uint64_t, Rng& rng)
{
	Dir d;
	Request q;
	unsigned n;
	drawKind(rng, q, n);
	if (q.kind == Request::Array && rng.chance(0.1)) n = 7 + (unsigned)rng.below(30);
	if (q.kind == Request::CubeArray && rng.chance(0.1)) n = 6*(3 + (unsigned)rng.below(4));
	bool cube = q.kind >= Request::Cube;
	unsigned w = drawSize(rng), h = cube ? w : q.dim == Dim::Dim1D ? 1 : drawSize(rng);
	bool mips = rng.chance(0.6);
	// With mips every image has one colour, so that each level of it is known; without them each pixel is different.
	unsigned uid = 0;
	std::map<std::string, std::vector<Rgba>> px;
	auto colour = [&](unsigned id) {return Rgba{{(uint8_t)(id*37 + 11), (uint8_t)(id*101 + 3), (uint8_t)(255 - id*53), (uint8_t)(60 + id*29 % 190)}};};
	auto make = [&](unsigned iw, unsigned ih, bool custom)
	{
		unsigned id = uid++;
		std::string name = niceName(rng, id, custom);
		Image img(IF::RGBA8, iw, ih);
		std::vector<Rgba> p((size_t)iw*ih);
		for (unsigned y = 0; y < ih; ++y)
			for (unsigned x = 0; x < iw; ++x)
			{
				Rgba v = colour(id);
				if (!mips) for (int k = 0; k < 3; ++k) v.c[k] = (uint8_t)rng.next();
				p[(size_t)y*iw + x] = v;
				img.setPixel(x, y, ColorRGBAd(v.c[0]/255.0, v.c[1]/255.0, v.c[2]/255.0, v.c[3]/255.0));
			}
		if (!img.save(d.at(name).c_str())) {std::fprintf(stderr, "cannot save an input\n"); _exit(66);}
		px[name] = p;
		return name;
	};
	for (unsigned i = 0; i < n; ++i) q.files.push_back(make(w, h, false));
	unsigned depth = q.kind == Request::Array ? n : q.kind == Request::CubeArray ? n/6 : 0;
	unsigned top = std::max(w, h);
	if (q.dim == Dim::Dim3D) top = std::max(top, depth);
	unsigned levels = 1;
	for (unsigned v = top; v > 1; v >>= 1) ++levels;
	if (mips)
	{
		optMips(rng, q);
		levels = q.mips <= 1 ? 1 : std::min(levels, q.mips);
		drawCustoms(rng, q, levels, [&](const CustomMip&) {return make(1 + (unsigned)rng.below(6), 1 + (unsigned)rng.below(6), true);});
	}
	else
		levels = 1;
	if (q.customs.size() > 40) q.customs.clear();
	q.container = (int)rng.below(3);
	q.output = std::string("out.") + containerExt[q.container];
	static const F fs[] = {F::R8G8B8A8, F::B8G8R8A8, F::A8B8G8R8};
	F f = q.container == 0 ? F::R8G8B8A8 : rng.pick(fs);
	for (;;)
	{
		if (Texture::isFormatValid(f, T::UNorm, containers[q.container])) break;
		f = F::R8G8B8A8;
		if (!Texture::isFormatValid(f, T::UNorm, containers[q.container])) return;
	}
	q.l = layout(f);
	q.groups.push_back({"-f", q.l->name});
	q.groups.push_back({"-o", q.output});
	std::vector<uint8_t> first;
	for (int round = 0; round < 2; ++round)
	{
		std::vector<Args> groups = q.groups;
		spellCustoms(rng, q, d, groups);
		std::vector<Args> inputs = spellInputs(rng, q, d);
		Args cmd = assemble(rng, groups, inputs);
		vh::ToolRun r = vh::runTool(cmd, d.path);
		std::string c = vh::shown(cmd);
		if (!vh::endedWell(r, "placement", c)) return;
		VH_CHECK(r.rc == 0, "placement:refused", "%s: exit %d: %s", c.c_str(), r.rc, r.tail().c_str());
		if (r.rc) return;
		std::vector<uint8_t> got = fromFile(d.at(q.output));
		if (round)
		{
			VH_CHECK(got == first, "placement:spelling", "%s: differs from the same inputs spelled differently", c.c_str());
			break;
		}
		first = got;
		FileTex t = q.container == 0 ? readDds(got) : q.container == 1 ? readKtx(got) : readPvr(got);
		VH_CHECK(t.error.empty(), "placement:unreadable", "%s: %s", c.c_str(), t.error.c_str());
		if (!t.error.empty()) return;
		unsigned ld0 = q.dim == Dim::Dim3D ? depth : std::max(1u, depth);
		bool shape = t.w == w && t.h == h && t.mips == levels && t.faces == (cube ? 6u : 1u) &&
			(q.dim == Dim::Dim3D ? t.depth : t.elements) == ld0;
		VH_CHECK(shape, "placement:shape", "%s: file has %ux%u mips %u faces %u depth %u elements %u, wanted %ux%u mips %u depth %u", c.c_str(),
			t.w, t.h, t.mips, t.faces, t.depth, t.elements, w, h, levels, ld0);
		if (!shape) return;
		// What each place shows. 3D levels blend slices, so only given levels are known there.
		std::vector<std::vector<const std::string*>> current(ld0, std::vector<const std::string*>(cube ? 6 : 1));
		for (unsigned z = 0; z < ld0; ++z)
			for (unsigned fc = 0; fc < (cube ? 6u : 1u); ++fc)
				current[z][fc] = &q.files[cube ? z*6 + fc : z];
		for (unsigned m = 0; m < levels; ++m)
			for (unsigned z = 0; z < (q.dim == Dim::Dim3D ? std::max(1u, ld0 >> m) : ld0); ++z)
				for (unsigned fc = 0; fc < (cube ? 6u : 1u); ++fc)
				{
					const CustomMip* cm = nullptr;
					for (auto& x : q.customs) if (x.level == m && x.depth == z && x.face == fc) cm = &x;
					if (q.dim == Dim::Dim3D && m && !cm) continue;
					const std::string* src = cm ? &cm->file : current[z][fc];
					if (cm && !cm->once) current[z][fc] = src;
					const std::vector<Rgba>& p = px[*src];
					unsigned lw = std::max(1u, w >> m), lh = std::max(1u, h >> m);
					if (z >= t.at[m].size()) {vh::violation("placement:payload", c + ": too few slices"); return;}
					const FileTex::Slice& sl = t.at[m][z][fc];
					std::string bad;
					for (unsigned y = 0; y < lh && bad.empty(); ++y)
						for (unsigned x = 0; x < lw && bad.empty(); ++x)
						{
							const uint8_t* raw = got.data() + sl.offset + y*sl.rowStride + (size_t)x*4;
							Rgba v = {{0, 0, 0, 0}};
							for (auto& k : t.l.comps) v.c[k.ch] = (uint8_t)field(raw, 4, k.shift, 8);
							const Rgba& want = mips ? p[0] : p[(size_t)y*w + x];
							for (int k = 0; k < 4; ++k)
								if (std::abs((int)v.c[k] - (int)want.c[k]) > (mips && m ? 1 : 0))
									bad = fmt("pixel %u,%u channel %d is %d, '%s' has %d", x, y, k, v.c[k], src->c_str(), want.c[k]);
						}
					VH_CHECK(bad.empty(), fmt("placement:wrong:%s%s", kindNames[q.kind], m ? ":mip" : ""), "%s: level %u depth %u face %u: %s",
						c.c_str(), m, z, fc, bad.c_str());
				}
		vh::cover(fmt("%s dim%d n%zu levels%u customs%d %s", kindNames[q.kind], (int)q.dim, q.files.size(), levels,
			(int)std::min<size_t>(q.customs.size(), 9), containerExt[q.container]));
		if (vh::st().curCase % 500 == 0) vh::sample(c + " -> every surface found in its place");
	}
}

// ---- C23 ----

static const char* const junk[] = {"", "-", "--", "x", "0", "-1", "1", "99999999999999999999", "4294967296", "-2147483648", "1e9", "nan", "+x",
	"box", "once", "image", "rgba", "R8G8B8A8", "unorm", "\xff\xfe", "%s%n", "a b", "width", "nextpo2", "-i", "-o", "-f", "-M", "=", "2.5", " 1"};

// Options that are wrong wherever they are added to an otherwise valid request. Each makes the request malformed.
static Args definiteError(Rng& rng, std::string& name, const Dir& d)
{
	struct E {const char* name; Args a;};
	static const std::vector<E> es{
		{"unknown option", {"--bogus"}}, {"unknown option", {"-z"}}, {"stray word", {"stray"}}, {"empty argument", {""}},
		{"format", {"-f", "R7"}}, {"format", {"--format", ""}}, {"format", {"-f", "Unknown"}}, {"format", {"-f", "BC1_RGB"}},
		{"format", {"-f", "R8G8B8A8 "}},
		{"type", {"-t", "double"}}, {"type", {"--type", ""}}, {"quality", {"-Q", "best"}}, {"alpha", {"--alpha", "some"}},
		{"dimension", {"-d", "4"}}, {"dimension", {"-d", "0"}}, {"dimension", {"--dimension", "2d"}}, {"dimension", {"-d", "cube"}},
		{"file format", {"--file-format", "png"}}, {"file format", {"--file-format", ""}},
		{"swizzle", {"-s", "rgb"}}, {"swizzle", {"-s", "rgbaa"}}, {"swizzle", {"--swizzle", "rgbq"}}, {"swizzle", {"-s", ""}},
		{"rotate", {"--rotate", "45"}}, {"rotate", {"--rotate", "90x"}}, {"rotate", {"--rotate", "left"}}, {"rotate", {"--rotate", ""}}, {"rotate", {"--rotate", "91"}},
		{"size", {"-r", "0", "4"}}, {"size", {"-r", "4", "0"}}, {"size", {"-r", "-1", "4"}}, {"size", {"--resize", "4", "-16"}},
		{"size", {"-r", "4x", "4"}}, {"size", {"-r", "", "4"}}, {"size", {"-r", "99999999999", "4"}}, {"size", {"-r", "wide", "4"}},
		{"size", {"-r", "4", "nextpo3"}}, {"size", {"-r", "-2147483649", "4"}}, {"size", {"-r", "-5", "-5"}}, {"size", {"-r", "4.5", "4"}},
		{"second output", {"-o", "other.dds"}},
		{"list", {"-I", "array", "missing.txt"}}, {"list", {"-I", "volume", "missing.txt"}}, {"list", {"--custom-mip-list", "missing.txt"}},
		{"custom level", {"-M", "0", "in.png"}}, {"custom level", {"-M", "-1", "in.png"}}, {"custom level", {"-M", "4294967295", "in.png"}},
		{"custom level", {"-M", "x", "in.png"}}, {"custom level", {"-M", "4294967296", "in.png"}}, {"custom level", {"-M", "", "in.png"}},
		{"custom level", {"--custom-mip", "32", "in.png"}}, {"custom level", {"-M", "33", "0", "in.png"}},
		{"custom level", {"-M", "1000000000", "in.png"}},
		{"custom depth", {"-M", "1", "4294967295", "in.png"}}, {"custom depth", {"-M", "1", "1000", "in.png"}},
		{"duplicate custom", {"-M", "1", "in.png", "-M", "1", "0", "+x", "once", "in.png"}},
		{"duplicate custom", {"-M", "1", "in.png", "-M", "1", "./in.png"}},
		{"mixed inputs", {"-i", "in.png", "-i", "in.png"}}, {"mixed inputs", {"-i", "in.png", "-a", "in.png"}},
		{"mixed inputs", {"-a", "in.png", "-c", "+x", "in.png"}}, {"mixed inputs", {"-c", "+x", "in.png", "-C", "0", "+x", "in.png"}},
		{"mixed inputs", {"-I", "array", "good.txt", "-a", "in.png"}}, {"mixed inputs", {"-a", "in.png", "-I", "array", "good.txt"}},
		{"mixed inputs", {"-I", "image", "good.txt", "-I", "image", "good.txt"}}, {"mixed inputs", {"-i", "in.png", "-I", "image", "good.txt"}},
		{"index", {"-C", "-1", "+x", "in.png"}}, {"index", {"-C", "", "+x", "in.png"}}, {"index", {"-C", "x", "+x", "in.png"}},
		{"index", {"-C", "4000000000", "+x", "in.png"}}, {"index", {"-a", "4000000000", "in.png"}}, {"index", {"-a", "999999999", "in.png"}},
		{"index", {"-C", "18446744073709551615", "+x", "in.png"}}, {"index", {"-a", "18446744073709551615", "in.png"}},
		{"face", {"-c", "+w", "in.png"}}, {"face", {"-c", "x", "in.png"}}, {"face", {"-C", "0", "", "in.png"}},
		{"duplicate", {"-a", "0", "in.png", "-a", "0", "in.png"}}, {"duplicate", {"-c", "+x", "in.png", "-c", "+x", "in.png"}},
		{"duplicate", {"-C", "0", "-y", "in.png", "-C", "0", "-Y", "in.png"}}, {"duplicate", {"-C", "1", "-y", "in.png", "-C", "1", "-Y", "./in.png"}},
		{"duplicate", {"-a", "1", "in.png", "-a", "1", "./in.png"}}, {"duplicate", {"-c", "+x", "in.png", "-c", "+x", "./in.png"}},
		{"duplicate", {"-i", "in.png", "-i", "./in.png"}},
	};
	const E& e = rng.pick(es);
	name = e.name;
	if (name == "list" && rng.chance(0.5))
	{
		static const char* bad[] = {"x in.png\n", "1\n", "1 0 +x once\n", "-1 in.png\n", "1 in.png\n1 in.png\n", "1.5 in.png\n", "\xff\n", "1 \r\n",
			"99999999999 in.png\n", "0 in.png\n", "40 in.png", "1 70 in.png"};
		std::string b = rng.pick(bad);
		vh::writeFile(d.at("bad.txt"), b.data(), b.size());
		name = "custom mip list";
		return {"--custom-mip-list", "bad.txt"};
	}
	return e.a;
}

static void expectFailure(const Args& cmd, const Dir& d, int status, const std::string& name, const std::string& mayCreate = "")
{
	std::map<std::string, std::string> before, after;
	vh::snapshot(d.path, before);
	vh::ToolRun r = vh::runTool(cmd, d.path);
	std::string c = vh::shown(cmd);
	if (!vh::endedWell(r, "reject:" + name, c)) return;
	VH_CHECK(r.rc == status, fmt("reject:%s:exit%d", name.c_str(), r.rc), "%s: exit %d instead of %d (%s)", c.c_str(), r.rc, status, r.tail().c_str());
	if (r.rc) VH_CHECK(!r.err.empty(), "reject:" + name + ":silent", "%s: exit %d without a message", c.c_str(), r.rc);
	if (mayCreate.empty()) checkUntouched(before, d, "", "reject:" + name + ":touched", c);
	vh::cover(fmt("%s exit %d", name.c_str(), r.rc));
	vh::count(fmt("exit %d", r.rc));
}

static void rejection(uint64_t idx, Rng& rng)
{
	Dir d;
	Image img(IF::RGBA8, 1 + (unsigned)rng.below(9), 1 + (unsigned)rng.below(9));
	fillRandom(img, rng, false);
	img.save(d.at("in.png").c_str());
	vh::writeFile(d.at("good.txt"), "in.png\n", 7);
	if (rng.chance(0.5)) vh::writeFile(d.at("out.dds"), "precious", 8);
	if (rng.chance(0.3)) vh::writeFile(d.at("other.dds"), "precious", 8);
	mkdir(d.at("sub").c_str(), 0755);
	// A valid request with random manipulations.
	Request q;
	q.l = layout(F::R8G8B8A8);
	std::vector<Args> in{{"-i", "in.png"}};
	optMisc(rng, q);
	if (rng.chance(0.6)) optManipulate(rng, q, img.width(), img.height());
	std::vector<Args> base = q.groups;
	Args fmtOpt{"-f", "R8G8B8A8"}, outOpt{"-o", "out.dds"};
	auto cat = [](std::vector<Args> a, const std::vector<Args>& b) {a.insert(a.end(), b.begin(), b.end()); return a;};
	std::string name;
	switch (idx % 8)
	{
		case 0: case 1: // one definite error somewhere
		{
			Args e = definiteError(rng, name, d);
			bool inputs = name == "mixed inputs" || name == "index" || name == "face" || name == "duplicate" ||
				(name == "list" && (e[0] == "-I"));
			bool out = name == "second output";
			(void)out;
			std::vector<Args> g = cat(base, {fmtOpt, outOpt});
			if (name.compare(0, 6, "custom") == 0 || name == "duplicate custom" || (name == "list" && rng.chance(0.5))) g.push_back({"-m"});
			std::vector<Args> i = inputs ? std::vector<Args>() : in;
			g.push_back(e);
			expectFailure(assemble(rng, g, i), d, 1, name);
			break;
		}
		case 2: // something required is missing or cut off
		{
			switch (rng.below(9))
			{
				case 7: // complete inputs with one given a second time
				{
					std::vector<Args> i;
					unsigned kind = (unsigned)rng.below(3), n = kind == 0 ? 6 : kind == 1 ? 12 : 1 + (unsigned)rng.below(4);
					auto one = [&](unsigned k, const char* file) -> Args
					{
						if (kind == 0) return {"-c", upperSome(rng, faceNames[k]), file};
						if (kind == 1) return {"-C", fmt("%u", k/6), upperSome(rng, faceNames[k % 6]), file};
						return {"-a", fmt("%u", k), file};
					};
					for (unsigned k = 0; k < n; ++k) i.push_back(one(k, "in.png"));
					unsigned k = (unsigned)rng.below(n);
					i.insert(i.begin() + (long)rng.below(n + 1), one(k, rng.chance(0.5) ? "in.png" : "./in.png"));
					expectFailure(assemble(rng, cat(base, {fmtOpt, outOpt}), i), d, 1, "repeated input");
					break;
				}
				case 0: expectFailure(assemble(rng, cat(base, {outOpt}), in), d, 1, "no format"); break;
				case 1: expectFailure(assemble(rng, cat(base, {fmtOpt}), in), d, 1, "no output"); break;
				case 2: expectFailure(assemble(rng, cat(base, {fmtOpt, outOpt}), {}), d, 1, "no input"); break;
				case 3:
				{
					std::vector<Args> faces;
					for (int f = 0; f < 6; ++f) faces.push_back({"-c", faceNames[f], "in.png"});
					faces.erase(faces.begin() + (long)rng.below(6));
					expectFailure(assemble(rng, cat(base, {fmtOpt, outOpt}), faces), d, 1, "missing face");
					break;
				}
				case 4: expectFailure(assemble(rng, cat(base, {fmtOpt, outOpt}), {{"-a", fmt("%u", 1 + (unsigned)rng.below(5)), "in.png"}}), d, 1,
					"gap in array"); break;
				case 5:
				{
					std::vector<Args> faces;
					for (int f = 0; f < 6; ++f) faces.push_back({"-c", faceNames[f], "in.png"});
					expectFailure(assemble(rng, cat(base, {fmtOpt, outOpt, {"-d", rng.chance(0.5) ? "3" : "1"}}), faces), d, 1, "cube dimension");
					break;
				}
				case 6:
				{
					static const char* t[] = {"image", "cube", "cube-array", "array"};
					static const char* content[] = {"in.png\nin.png\n", "in.png\n", "in.png\nin.png\nin.png\nin.png\nin.png\nin.png\nin.png\n", "\n\r\n"};
					unsigned i = (unsigned)rng.below(4);
					vh::writeFile(d.at("l.txt"), content[i], std::strlen(content[i]));
					std::vector<Args> g = cat(base, {fmtOpt, outOpt});
					if (rng.chance(0.3)) g.push_back({"-d", fmt("%u", 1 + (unsigned)rng.below(3))});
					expectFailure(assemble(rng, g, {{"-I", t[i], "l.txt"}}), d, 1, "list of the wrong length");
					break;
				}
				default:
				{
					// An option at the end lacks its arguments.
					static const std::vector<Args> cut{{"-f"}, {"-o"}, {"-t"}, {"-Q"}, {"-d"}, {"-s"}, {"--alpha"}, {"--rotate"}, {"-r"}, {"-r", "4"},
						{"--file-format"}, {"-M"}, {"-M", "1"}, {"--custom-mip-list"}, {"-M", "1", "0"}, {"-M", "1", "+x", "once"}};
					Args cmd = assemble(rng, cat(base, {fmtOpt, outOpt, {"-m"}}), in);
					for (auto& s : rng.pick(cut)) cmd.push_back(s);
					expectFailure(cmd, d, 1, "cut off");
				}
			}
			break;
		}
		case 3: // what the container or format cannot do, undeducible containers, customs that do not fit
		{
			switch (rng.below(7))
			{
				case 5: // a custom image for the first level there is not
				{
					Image big(IF::RGBA8, 2 + (unsigned)rng.below(40), 1 + (unsigned)rng.below(40));
					big.save(d.at("big.png").c_str());
					unsigned most = Texture::maxMipmapLevels(Dim::Dim2D, big.width(), big.height(), 0);
					unsigned n = 2 + (unsigned)rng.below(most - 1);
					Args m{"-m"};
					if (n < most || rng.chance(0.5)) m.push_back(fmt("%u", n == most ? n + (unsigned)rng.below(3) : n));
					expectFailure(assemble(rng, cat({fmtOpt, outOpt}, {m, {"-M", fmt("%u", n), "big.png"}}), {{"-i", "big.png"}}), d, 2,
						"custom level beyond the chain");
					break;
				}
				case 6: // a face where there are none, a slice beyond the array
				{
					Image big(IF::RGBA8, 2 + (unsigned)rng.below(40), 1 + (unsigned)rng.below(40));
					big.save(d.at("big.png").c_str());
					std::vector<Args> g{fmtOpt, outOpt, {"-m"}}, i{{"-i", "big.png"}};
					int status = 1;
					if (rng.chance(0.5)) {status = 2; g.push_back({"-M", "1", faceNames[1 + rng.below(5)], "big.png"});}
					else
					{
						unsigned n = 1 + (unsigned)rng.below(4);
						i.clear();
						for (unsigned k = 0; k < n; ++k) i.push_back({"-a", "big.png"});
						g.push_back({"-M", "1", fmt("%u", n), "big.png"});
					}
					expectFailure(assemble(rng, g, i), d, status, status == 2 ? "custom face without faces" : "custom slice beyond the array");
					break;
				}
				case 0:
				{
					Request p;
					for (;;)
					{
						p.l = &layouts()[rng.below(layouts().size())];
						p.type = (T)rng.below(6);
						p.container = (int)rng.below(3);
						if (!Texture::isFormatValid(p.l->format, p.type, containers[p.container])) break;
					}
					expectFailure(assemble(rng, cat(base, {{"-f", p.l->name}, {"-t", typeOpts[(int)p.type]}, {"-o", std::string("out.") +
						containerExt[p.container]}}), in), d, 1, "unsupported format");
					break;
				}
				case 1:
				{
					static const char* o[] = {"out", "out.png", "dds", "out.dds.txt", "sub", "", "out.", "out.ddss", ".pvrx"};
					expectFailure(assemble(rng, cat(base, {fmtOpt, {"-o", rng.pick(o)}}), in), d, 1, "unknown container");
					break;
				}
				case 2: expectFailure(assemble(rng, cat(base, {fmtOpt, outOpt, {"-M", "1", "in.png"}}), in), d, 1, "custom without mips"); break;
				case 3: // volumes need every slice of a custom level
					expectFailure(assemble(rng, cat(base, {fmtOpt, outOpt, {"-d", "3"}, {"-m"}, {"-M", "1", rng.chance(0.5) ? "0" : "1", "in.png"}}),
						{{"-a", "in.png"}, {"-a", "in.png"}, {"-a", "in.png"}, {"-a", "in.png"}}), d, 1, "custom slices missing");
					break;
				case 4:
				{
					std::vector<Args> faces;
					for (int f = 0; f < 12; ++f) faces.push_back({"-C", fmt("%d", f/6), faceNames[f % 6], "in.png"});
					expectFailure(assemble(rng, cat(base, {fmtOpt, outOpt, {"-m"}, {"-M", "1", fmt("%d", 2 + (int)rng.below(9)), "+y", "in.png"}}), faces),
						d, 1, "custom depth beyond the cube maps");
				}
			}
			break;
		}
		case 4: // inputs that cannot be read
		{
			static const char* broken[] = {"", "not an image", "\x89PNG\r\n\x1a\n", "BM", "II*", "GIF89a", "P6\n", "\xff\xd8\xff", "DDS "};
			std::string f = "bad.png";
			switch (rng.below(4))
			{
				case 0: f = "absent.png"; break;
				case 1: f = "sub"; break;
				case 2: f = "no/dir/a.png"; break;
				default:
				{
					std::string b = rng.pick(broken);
					static const char* ext[] = {"png", "bmp", "tga", "dat"};
					f = std::string("bad.") + ext[b.empty() || b == "not an image" ? rng.below(4) : 3];
					if (b.size() > 2 && (b[0] == 'I')) b = "junk";
					vh::writeFile(d.at(f), b.data(), b.size());
				}
			}
			std::vector<Args> i{{"-i", f}};
			if (rng.chance(0.4)) {i = {{"-a", "in.png"}, {"-a", f}, {"-a", "in.png"}}; if (rng.chance(0.5)) std::swap(i[0], i[1]);}
			std::vector<Args> g = cat(base, {fmtOpt, outOpt});
			if (rng.chance(0.3) && img.width() > 1 && !q.resize) {i = in; g.push_back({"-m"}); g.push_back({"-M", "1", f});}
			expectFailure(assemble(rng, g, i), d, 2, "unreadable image");
			break;
		}
		case 5: // outputs that cannot be written
		{
			std::vector<Args> g = base;
			g.erase(std::remove_if(g.begin(), g.end(), [](const Args& a) {return a[0] == "--create-dir";}), g.end());
			g.push_back(fmtOpt);
			vh::writeFile(d.at("file"), "precious", 8);
			mkdir(d.at("dir.dds").c_str(), 0755);
			switch (rng.below(6))
			{
				case 0: g.push_back({"-o", "new/out.dds"}); expectFailure(assemble(rng, g, in), d, 3, "no directory"); break;
				case 1: g.push_back({"-o", "file/out.dds"}); if (rng.chance(0.5)) g.push_back({"--create-dir"});
					expectFailure(assemble(rng, g, in), d, 3, "parent is a file"); break;
				case 2: g.push_back({"-o", "dir.dds"}); if (rng.chance(0.5)) g.push_back({"--create-dir"});
					expectFailure(assemble(rng, g, in), d, 3, "output is a directory"); break;
				case 3: // a volume of no slices, in a directory that must not appear
					g.push_back({"-o", "new/out.dds"}); g.push_back({"--create-dir"}); g.push_back({"-d", "3"});
					expectFailure(assemble(rng, g, in), d, 3, "not convertible"); break;
				case 4:
					if (symlink("/dev/full", d.at("full.dds").c_str()) == 0)
					{
						g.push_back({"-o", "full.dds"});
						expectFailure(assemble(rng, g, in), d, 3, "full device");
					}
					break;
				default:
				{
					g.push_back({"-o", "sub/limited.dds"});
					g.push_back({"-q"});
					Args cmd = assemble(rng, g, in);
					uint64_t limit = rng.below(150);
					vh::FileLimit fl(limit);
					expectFailure(cmd, d, 3, "file size limit", "sub/limited.dds");
				}
			}
			break;
		}
		case 6: // directories are made on request, and only then
		{
			static const char* outs[] = {"new/out.dds", "a/b/c/out.dds", "sub/x/out.dds", "sub/out.dds", "./y/./out.dds", "n//m/out.dds"};
			std::string o = rng.pick(outs);
			std::vector<Args> g = cat(base, {fmtOpt, {"-o", o}, {"--create-dir"}});
			Args cmd = assemble(rng, g, in);
			std::string c = vh::shown(cmd);
			vh::ToolRun r = vh::runTool(cmd, d.path);
			if (!vh::endedWell(r, "create-dir", c)) return;
			VH_CHECK(r.rc == 0 && vh::exists(d.at(o)), "create-dir:refused", "%s: exit %d: %s", c.c_str(), r.rc, r.tail().c_str());
			q.files = {"in.png"};
			q.output = o;
			std::vector<uint8_t> want;
			if (r.rc == 0 && expected(q, d, want) == 0)
				VH_CHECK(fromFile(d.at(o)) == want, "create-dir:bytes", "%s: not the expected file", c.c_str());
			std::string abs = d.at(o);
			if (rng.chance(0.5))
			{
				// The same with an absolute path.
				std::string o2 = d.at("abs/q/out.dds");
				g[base.size() + 1] = {"-o", o2};
				cmd = assemble(rng, g, in);
				r = vh::runTool(cmd, d.path);
				if (!vh::endedWell(r, "create-dir", vh::shown(cmd))) return;
				VH_CHECK(r.rc == 0 && fromFile(o2) == fromFile(abs), "create-dir:absolute", "%s: exit %d: %s", vh::shown(cmd).c_str(), r.rc,
					r.tail().c_str());
			}
			vh::cover("create-dir " + o);
			break;
		}
		default: // anything at all
		{
			std::vector<Args> g = cat(base, {fmtOpt, outOpt});
			if (rng.chance(0.5)) g.push_back({"-m"});
			Args cmd = assemble(rng, g, in);
			for (int k = 1 + (int)rng.below(4); k-- > 0;)
			{
				static const char* opts[] = {"-j", "-q", "-v", "-i", "-a", "-c", "-C", "-I", "-r", "-m", "-M", "--custom-mip-list", "--flipx", "--rotate", "-n",
					"-g", "-s", "--srgb", "--pre-multiply", "-d", "-f", "-t", "--alpha", "-Q", "-o", "--file-format", "--create-dir", "--help"};
				size_t p = rng.below(cmd.size() + 1);
				switch (rng.below(5))
				{
					case 0: cmd.insert(cmd.begin() + (long)p, rng.pick(opts)); break;
					case 1: cmd.insert(cmd.begin() + (long)p, rng.pick(junk)); break;
					case 2: if (p < cmd.size()) cmd.erase(cmd.begin() + (long)p); break;
					case 3: if (p < cmd.size()) cmd[p] = rng.pick(junk); break;
					default: if (p < cmd.size()) std::swap(cmd[p], cmd[rng.below(cmd.size())]);
				}
			}
			// Sizes that only need more memory than there is are not of interest.
			for (auto& a : cmd) if (a == "1e9") a = "7";
			std::map<std::string, std::string> before, after;
			vh::snapshot(d.path, before);
			std::string c = vh::shown(cmd);
			vh::ToolRun r = vh::runTool(cmd, d.path);
			if (!vh::endedWell(r, "anything", c)) return;
			bool help = cmd.empty();
			for (auto& a : cmd) help = help || a == "-h" || a == "--help";
			if (help)
			{
				VH_CHECK(r.rc == 1 && r.out.find("Usage") != std::string::npos, "help", "%s: exit %d", c.c_str(), r.rc);
				checkUntouched(before, d, "", "help:touched", c);
				break;
			}
			vh::snapshot(d.path, after);
			if (r.rc)
			{
				VH_CHECK(!r.err.empty(), "anything:silent", "%s: exit %d without a message", c.c_str(), r.rc);
				// Options may have been rearranged into asking for directories.
				if (std::find(cmd.begin(), cmd.end(), "--create-dir") == cmd.end())
					checkUntouched(before, d, "", "anything:touched", c);
			}
			else
			{
				// One complete texture file, and nothing else.
				std::string changed;
				unsigned n = 0;
				for (auto& x : after)
				{
					auto it = before.find(x.first);
					if (it == before.end() || it->second != x.second) {if (x.second != "dir") {changed = x.first; ++n;}}
				}
				VH_CHECK(n == 1, "anything:outputs", "%s: exit 0 with %u files written", c.c_str(), n);
				if (n == 1)
				{
					std::vector<uint8_t> b = fromFile(d.at(changed));
					bool dds = b.size() > 128 && !std::memcmp(b.data(), "DDS ", 4), ktx = b.size() > 64 && b[0] == 0xAB,
						pvr = b.size() > 52 && !std::memcmp(b.data(), "PVR\3", 4);
					VH_CHECK(dds || ktx || pvr, "anything:content", "%s: exit 0 but no texture file in %s", c.c_str(), changed.c_str());
				}
			}
			vh::cover(fmt("anything exit %d", r.rc));
			vh::count(fmt("anything exit %d", r.rc));
			if (vh::st().curCase % 501 == 0) vh::sample(c + fmt(" -> exit %d", r.rc));
		}
	}
}

int main(int argc, char** argv)
{
	return vh::runMain(argc, argv, {{"C22", pipeline}, {"C23", rejection}, {"C24", placement}});
}
