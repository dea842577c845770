// C09 support queries, C18 mip chains, C19 lifecycle, C20 copies and moves, C21 value ranges.
#include "texgen.h"
#include "fileutil.h"
#include <sstream>
#include <array>
#include <memory>
using namespace ref;
using namespace cuttlefish;
using vh::Rng;
using vh::fmt;
using FT = Texture::FileType;
using Dim = Texture::Dimension;
using Face = Texture::CubeFace;

static const unsigned formatCount = (unsigned)F::PVRTC2_RGBA_4BPP + 1;
static const unsigned typeCount = (unsigned)T::Float + 1;

// ---------------------------------------------------------------- C09

struct Block {F f; unsigned w, h, size, minW, minH; bool alpha, srgb;};

static const std::vector<Block>& blocks()
{
	static std::vector<Block> b;
	if (b.empty())
	{
		for (auto& l : layouts())
			b.push_back({l.format, 1, 1, l.bytes, 1, 1, l.alpha, l.srgb});
		auto four = [&](F f, unsigned size, bool a, bool s) {b.push_back({f, 4, 4, size, 4, 4, a, s});};
		four(F::BC1_RGB, 8, false, true); four(F::BC1_RGBA, 8, true, true); four(F::BC2, 16, true, true);
		four(F::BC3, 16, true, true); four(F::BC4, 8, false, false); four(F::BC5, 16, false, false);
		four(F::BC6H, 16, false, false); four(F::BC7, 16, true, true);
		four(F::ETC1, 8, false, false); four(F::ETC2_R8G8B8, 8, false, true); four(F::ETC2_R8G8B8A1, 8, true, true);
		four(F::ETC2_R8G8B8A8, 16, true, true); four(F::EAC_R11, 8, false, false); four(F::EAC_R11G11, 16, false, false);
		static const struct {F f; unsigned w, h;} astc[] = {{F::ASTC_4x4, 4, 4}, {F::ASTC_5x4, 5, 4}, {F::ASTC_5x5, 5, 5},
			{F::ASTC_6x5, 6, 5}, {F::ASTC_6x6, 6, 6}, {F::ASTC_8x5, 8, 5}, {F::ASTC_8x6, 8, 6}, {F::ASTC_8x8, 8, 8},
			{F::ASTC_10x5, 10, 5}, {F::ASTC_10x6, 10, 6}, {F::ASTC_10x8, 10, 8}, {F::ASTC_10x10, 10, 10},
			{F::ASTC_12x10, 12, 10}, {F::ASTC_12x12, 12, 12}};
		for (auto& a : astc)
			b.push_back({a.f, a.w, a.h, 16, a.w, a.h, true, true});
		// PVRTC needs at least two blocks in each direction.
		b.push_back({F::PVRTC1_RGB_2BPP, 8, 4, 8, 16, 8, false, true});
		b.push_back({F::PVRTC1_RGBA_2BPP, 8, 4, 8, 16, 8, true, true});
		b.push_back({F::PVRTC1_RGB_4BPP, 4, 4, 8, 8, 8, false, true});
		b.push_back({F::PVRTC1_RGBA_4BPP, 4, 4, 8, 8, 8, true, true});
		b.push_back({F::PVRTC2_RGBA_2BPP, 8, 4, 8, 16, 8, true, true});
		b.push_back({F::PVRTC2_RGBA_4BPP, 4, 4, 8, 8, 8, true, true});
	}
	return b;
}

// The table in README.md, "Texture file format limitations".
static bool documented(F f, FT ft)
{
	if (ft == FT::DDS)
	{
		static const std::set<F> no{F::R4G4B4A4, F::B4G4R4A4, F::B5G6R5, F::R5G5B5A1, F::B5G5R5A1, F::R8G8B8, F::B8G8R8,
			F::A8B8G8R8, F::A2R10G10B10, F::R16G16B16};
		return !no.count(f);
	}
	if (ft == FT::KTX)
		return f != F::R4G4 && f != F::A4R4G4B4 && f != F::B8G8R8;
	return ft == FT::PVR;
}

static void matrix(uint64_t idx, Rng& rng)
{
	F f = (F)(idx % formatCount);
	T t = (T)(idx/formatCount % typeCount);
	const Layout* l = layout(f);
	std::string what = fmt("format %u (%s) %s", (unsigned)f, l ? l->name : "-", typeName(t));
	std::string key = fmt("%u:%s", (unsigned)f, typeName(t));
	bool valid = l && hasType(*l, t);
	VH_CHECK(Texture::isFormatValid(f, t) == valid, "valid:" + key, "%s is reported %s", what.c_str(), valid ? "invalid" : "valid");
	VH_CHECK(!Texture::isFormatValid(f, t, FT::Auto), "valid-auto:" + key, "%s is valid for no particular file type", what.c_str());
	bool inFile[4] = {};
	static const FT fts[] = {FT::DDS, FT::KTX, FT::PVR};
	for (FT ft : fts)
	{
		inFile[(int)ft] = valid && documented(f, ft);
		VH_CHECK(Texture::isFormatValid(f, t, ft) == inFile[(int)ft], fmt("valid-file:%d:", (int)ft) + key,
			"%s for file type %d is reported %s", what.c_str(), (int)ft, inFile[(int)ft] ? "invalid" : "valid");
	}
	if (valid)
		VH_CHECK(Texture::hasNativeSRGB(f, t) == (l->srgb && t == T::UNorm), "srgb:" + key, "%s", what.c_str());
	for (auto& b : blocks())
		if (b.f == f)
		{
			VH_CHECK(Texture::blockWidth(f) == b.w && Texture::blockHeight(f) == b.h, "block-dims:" + key, "%s: %ux%u", what.c_str(),
				Texture::blockWidth(f), Texture::blockHeight(f));
			VH_CHECK(Texture::blockSize(f) == b.size, "block-size:" + key, "%s: %u", what.c_str(), Texture::blockSize(f));
			VH_CHECK(Texture::minWidth(f) == b.minW && Texture::minHeight(f) == b.minH, "min-size:" + key, "%s: %ux%u", what.c_str(),
				Texture::minWidth(f), Texture::minHeight(f));
			VH_CHECK(Texture::hasAlpha(f) == b.alpha, "alpha:" + key, "%s", what.c_str());
			if (t == T::UNorm)
				VH_CHECK(Texture::hasNativeSRGB(f, t) == b.srgb, "srgb:" + key, "%s", what.c_str());
		}
	if (idx % 37 == 0)
		vh::sample(what + fmt(": valid %d, DDS %d KTX %d PVR %d, all as documented", valid, inFile[1], inFile[2], inFile[3]));
	// What conversion and saving do.
	for (ColorSpace cs : {ColorSpace::Linear, ColorSpace::sRGB})
	{
		TexSpec s;
		static const Layout& any = layouts()[9];
		drawSpec(rng, s, l ? l : &any, valid ? t : T::UNorm, 9);
		s.cs = cs;
		Texture x;
		Surfaces px;
		VH_CHECK(fillTexture(rng, s, x, px), "fill", "%s", s.str().c_str());
		bool expect = valid && (cs == ColorSpace::Linear || Texture::hasNativeSRGB(f, t));
		bool ok = x.convert(f, t, (Texture::Quality)rng.below(5), s.alpha, Texture::ColorMask(), 1 + (unsigned)rng.below(3));
		VH_CHECK(ok == expect, fmt("convert:%s:", csName(cs)) + key, "%s in %s: convert returned %d", what.c_str(), csName(cs), ok);
		VH_CHECK(x.converted() == ok, "converted:" + key, "%s", what.c_str());
		vh::cover(fmt("%s:%s:%s", key.c_str(), csName(cs), ok ? "converts" : "refused"));
		if (!ok)
		{
			VH_CHECK(x.imagesComplete(), "refused-images:" + key, "%s: a refused conversion lost the images", what.c_str());
			for (FT ft : fts)
			{
				std::vector<uint8_t> d{7};
				VH_CHECK(x.save(d, ft) == Texture::SaveResult::Invalid && d == std::vector<uint8_t>{7}, "unconverted-save:" + key, "%s",
					what.c_str());
			}
			continue;
		}
		VH_CHECK(x.format() == f && x.type() == t && x.alphaType() == s.alpha, "stored:" + key, "%s", what.c_str());
		for (unsigned m = 0; m < s.mips; ++m)
			for (unsigned d = 0; d < s.ld(m); ++d)
				for (unsigned c = 0; c < s.faces(); ++c)
				{
					size_t want = (size_t)((s.lw(m) + Texture::blockWidth(f) - 1)/Texture::blockWidth(f))*
						((s.lh(m) + Texture::blockHeight(f) - 1)/Texture::blockHeight(f))*Texture::blockSize(f);
					VH_CHECK(x.dataSize((Face)c, m, d) == want, "data-size:" + key, "%s %s level %u: %zu bytes, expected %zu", what.c_str(),
						s.str().c_str(), m, x.dataSize((Face)c, m, d), want);
				}
		for (FT ft : fts)
		{
			std::vector<uint8_t> d{7, 8};
			std::ostringstream os;
			std::string p = vh::scratchFile("x.bin");
			Texture::SaveResult r = x.save(d, ft), r2 = x.save(os, ft), r3 = x.save(p.c_str(), ft);
			bool e = vh::exists(p);
			Texture::SaveResult want = inFile[(int)ft] ? Texture::SaveResult::Success : Texture::SaveResult::Unsupported;
			VH_CHECK(r == want && r2 == want && r3 == want, fmt("save:%d:", (int)ft) + key, "%s: results %d %d %d, expected %d", what.c_str(),
				(int)r, (int)r2, (int)r3, (int)want);
			if (want != Texture::SaveResult::Success)
				VH_CHECK(d == (std::vector<uint8_t>{7, 8}) && os.str().empty() && !e, fmt("refused-output:%d:", (int)ft) + key,
					"%s: a refused save wrote something", what.c_str());
			else
			{
				static const char* magic[] = {"", "DDS ", "\xABKTX 11\xBB\r\n\x1A\n", "PVR\x03"};
				size_t n = std::strlen(magic[(int)ft]);
				VH_CHECK(d.size() > n && !std::memcmp(d.data(), magic[(int)ft], n), fmt("magic:%d", (int)ft), "%s", what.c_str());
			}
			unlink(p.c_str());
		}
		// Alpha and the other channels matter exactly when the format has them.
		if (l)
		{
			for (int ch = 0; ch < 4; ++ch)
			{
				Texture a(Dim::Dim2D, 3, 2, 0, 1, cs), b(Dim::Dim2D, 3, 2, 0, 1, cs);
				Surf sa = drawSurf(rng, s, 3, 2);
				for (auto& v : sa.px) v = t == T::UInt || t == T::Int ? 3.f : 0.25f;
				Surf sb = sa;
				for (unsigned i = 0; i < 6; ++i) {sa.px[i*4 + (unsigned)ch] = 0; sb.px[i*4 + (unsigned)ch] = 1;}
				bool both = a.setImage(toImage(sa, cs)) && b.setImage(toImage(sb, cs)) && a.convert(f, t, Texture::Quality::Normal) &&
					b.convert(f, t, Texture::Quality::Normal);
				VH_CHECK(both && a.dataSize() == b.dataSize(), "channel-convert:" + key, "%s", what.c_str());
				if (!both || a.dataSize() != b.dataSize())
					continue;
				bool differs = std::memcmp(a.data(), b.data(), a.dataSize()) != 0;
				bool has = false;
				for (auto& c : l->comps) has |= c.ch == ch;
				VH_CHECK(differs == has && (ch != 3 || has == Texture::hasAlpha(f)), fmt("channel:%d:", ch) + key,
					"%s: channel %d %s the data", what.c_str(), ch, differs ? "affects" : "does not affect");
			}
		}
	}
}

static void names(Rng& rng)
{
	static const char* exts[] = {".dds", ".ktx", ".pvr", ".png", ".ddsx", ".ktx2", "dds", "ktx", "pvr", ".dd", ".tx", ".vr", ".", "",
		".dds ", ".pvr.bak", ".xktx", "/dds", "_pvr", ".kt", ".dds.ktx", ".pvr.dds", ".ktx.pvr", ".dsd", ".kxt", ".prv"};
	static const char* bases[] = {"", "a", "x.y", "dir.dds/file", "a b", "\xC3\xA9t\xC3\xA9", ".hidden", "verylongname_with_many_parts", "dds",
		"..", "a.ktx"};
	std::string n = std::string(rng.pick(bases)) + rng.pick(exts);
	for (auto& c : n)
		if (rng.chance(0.4)) c = (char)toupper((unsigned char)c < 128 ? c : 0) ? (char)((unsigned char)c < 128 ? toupper(c) : c) : c;
	if (rng.chance(0.1) && !n.empty())
		n[rng.below(n.size())] = (char)(1 + rng.below(126));
	std::string e = n.size() >= 4 ? n.substr(n.size() - 4) : "";
	for (auto& c : e) if (c >= 'A' && c <= 'Z') c = (char)(c + 32);
	FT want = e == ".dds" ? FT::DDS : e == ".ktx" ? FT::KTX : e == ".pvr" ? FT::PVR : FT::Auto;
	// Always at the same address: only the characters count.
	static char held[512];
	std::snprintf(held, sizeof held, "%s", n.c_str());
	FT got = Texture::fileType(held);
	VH_CHECK(got == want, "file-type", "'%s' is detected as %d, expected %d", n.c_str(), (int)got, (int)want);
	vh::cover(fmt("file-type:%d", (int)want));
	// The file written under an automatic type is of that type.
	static Texture t;
	if (!t)
	{
		t.initialize(Dim::Dim2D, 2, 2);
		Image img(IF::RGBAF, 2, 2);
		for (unsigned y = 0; y < 2; ++y) std::memset(img.scanline(y), 0, 32);
		t.setImage(img);
		t.convert(F::R8G8B8A8, T::UNorm);
	}
	if (n.find('/') != std::string::npos || n == "." || n == ".." || n.empty() || !rng.chance(0.3))
		return;
	std::string p = vh::scratchFile(n);
	static char heldPath[4096];
	std::snprintf(heldPath, sizeof heldPath, "%s", p.c_str());
	Texture::SaveResult r = t.save(heldPath);
	std::vector<uint8_t> d;
	bool there = vh::readFile(p, d);
	if (want == FT::Auto)
		VH_CHECK(r == Texture::SaveResult::UnknownFormat && !there, "auto-unknown", "'%s': result %d, file %d", n.c_str(), (int)r, there);
	else
	{
		std::vector<uint8_t> m;
		t.save(m, want);
		VH_CHECK(r == Texture::SaveResult::Success && d == m, "auto-save", "'%s': result %d, %zu bytes", n.c_str(), (int)r, d.size());
	}
	unlink(p.c_str());
	// A type that is named is used whatever the file is called.
	FT named = (FT)(1 + rng.below(3));
	std::vector<uint8_t> m, f;
	t.save(m, named);
	r = t.save(p.c_str(), named);
	there = vh::readFile(p, f);
	VH_CHECK(r == Texture::SaveResult::Success && f == m, "named-save", "'%s' as %d: result %d, %zu bytes", n.c_str(), (int)named, (int)r, f.size());
	unlink(p.c_str());
}

static void mipCounts(Rng& rng)
{
	auto sz = [&]() -> unsigned
	{
		if (rng.chance(0.4)) return (1u << rng.below(9)) + (unsigned)rng.below(3) - (rng.chance(0.3) ? 1 : 0);
		return 1 + (unsigned)rng.below(600);
	};
	unsigned w = std::max(1u, sz()), h = std::max(1u, sz()), d = std::max(1u, sz());
	Dim dim = (Dim)rng.below(4);
	if (rng.chance(0.3)) {w = 1 + (unsigned)rng.below(0xFFFFFFFFu); h = 1 + (unsigned)rng.below(0xFFFFFFFFu); d = 1 + (unsigned)rng.below(0xFFFFFFFFu);}
	auto levels = [&](unsigned dd)
	{
		unsigned m = std::max(w, h), n = 1;
		if (dim == Dim::Dim3D) m = std::max(m, dd);
		while (m > 1) {m /= 2; ++n;}
		return n;
	};
	VH_CHECK(Texture::maxMipmapLevels(dim, w, h, d) == levels(d), "max-levels", "dim %d %u %u %u: %u, expected %u", (int)dim, w, h, d,
		Texture::maxMipmapLevels(dim, w, h, d), levels(d));
	if (dim != Dim::Dim3D)
		VH_CHECK(Texture::maxMipmapLevels(dim, w, h) == levels(1), "max-levels", "dim %d %u %u", (int)dim, w, h);
	// The largest dimension halves to exactly one over the chain.
	unsigned dd = dim == Dim::Dim3D ? d % 300 + 1 : (unsigned)rng.below(3);
	Texture t;
	bool ok = t.initialize(dim, w, h, dd, rng.chance(0.5) ? Texture::allMipLevels : levels(dd) + (unsigned)rng.below(3));
	VH_CHECK(ok && t.mipLevelCount() == levels(dd), "all-levels", "dim %d %ux%u %u: %u levels, expected %u", (int)dim, w, h, dd,
		t.mipLevelCount(), levels(dd));
	unsigned last = t.mipLevelCount() - 1;
	VH_CHECK(t.width(last) == 1 && t.height(last) == 1 && (dim != Dim::Dim3D || t.depth(last) == 1), "last-level", "dim %d %ux%u", (int)dim, w,
		h);
	unsigned m = 1 + (unsigned)rng.below(levels(dd));
	VH_CHECK(t.initialize(dim, w, h, dd, m) && t.mipLevelCount() == m, "some-levels", "asked for %u levels", m);
	vh::cover(fmt("levels:%u", levels(dd)));
}

static void support(uint64_t idx, Rng& rng)
{
	if (idx % 3 == 0)
		matrix(idx/3, rng);
	else
	{
		for (int i = 0; i < 10; ++i)
		{
			names(rng);
			mipCounts(rng);
		}
	}
}

// ---------------------------------------------------------------- snapshots

struct ImgState
{
	bool valid = false;
	IF f = IF::Invalid;
	unsigned w = 0, h = 0;
	ColorSpace cs = ColorSpace::Linear;
	std::vector<uint8_t> bytes;
	bool operator==(const ImgState& o) const
	{
		return valid == o.valid && (!valid || (f == o.f && w == o.w && h == o.h && cs == o.cs && bytes == o.bytes));
	}
	std::string str() const {return valid ? fmt("%s %ux%u %s", ilayout(f).name, w, h, csName(cs)) : std::string("invalid");}
};

static ImgState stateOf(const Image& i)
{
	ImgState s;
	s.valid = i.isValid();
	if (s.valid)
	{
		s.f = i.format(); s.w = i.width(); s.h = i.height(); s.cs = i.colorSpace();
		s.bytes = bytesOf(i);
	}
	return s;
}

// What can be seen of a texture.
struct Model
{
	bool valid = false;
	Dim dim = Dim::Dim2D;
	ColorSpace cs = ColorSpace::Linear;
	unsigned w = 0, h = 0, depth = 0, mips = 0;
	bool converted = false;
	F format = F::Unknown;
	T type = T::UNorm;
	Texture::Alpha alpha = Texture::Alpha::None;
	bool mask[4] = {true, true, true, true};
	// [mip][depth][face]
	std::vector<std::vector<std::vector<ImgState>>> images;
	std::vector<std::vector<std::vector<std::vector<uint8_t>>>> data;

	unsigned faces() const {return !valid ? 0 : dim == Dim::Cube ? 6 : 1;}
	unsigned lw(unsigned m) const {return valid && m < mips ? std::max(1u, w >> m) : 0;}
	unsigned lh(unsigned m) const {return valid && m < mips ? std::max(1u, h >> m) : 0;}
	unsigned ld(unsigned m) const
	{
		if (!valid || m >= mips) return 0;
		return dim == Dim::Dim3D ? std::max(1u, depth >> m) : std::max(1u, depth);
	}
	bool complete() const
	{
		if (!valid) return false;
		for (auto& a : images) for (auto& b : a) for (auto& c : b) if (!c.valid) return false;
		return true;
	}
	bool level0() const
	{
		for (auto& b : images[0]) for (auto& c : b) if (!c.valid) return false;
		return true;
	}
	void resizeImages()
	{
		images.resize(mips);
		for (unsigned m = 0; m < mips; ++m)
		{
			images[m].resize(ld(m));
			for (auto& b : images[m]) b.resize(faces());
		}
	}
	void init(Dim d, unsigned W, unsigned H, unsigned D, unsigned M, ColorSpace c)
	{
		*this = Model();
		if (!W || !H || (d == Dim::Dim3D && !D)) return;
		valid = true; dim = d; w = W; h = H; depth = D; cs = c;
		unsigned mx = std::max(W, H), n = 1;
		if (d == Dim::Dim3D) mx = std::max(mx, D);
		while (mx > 1) {mx >>= 1; ++n;}
		mips = std::min(std::max(M, 1u), n);
		alpha = Texture::Alpha::Standard;
		resizeImages();
	}
};

static std::string maskStr(const bool* m) {return fmt("%d%d%d%d", m[0], m[1], m[2], m[3]);}

// Every accessor against the model, in and out of range. Empty when they agree.
static std::string compareTexture(const Texture& t, const Model& m, uint64_t& n)
{
	n += 12;
	if (t.isValid() != m.valid || (bool)t != m.valid) return fmt("valid: isValid() is %d", t.isValid());
	if (t.dimension() != m.dim) return fmt("dimension: %d", (int)t.dimension());
	if (t.colorSpace() != m.cs) return fmt("colorspace: %d", (int)t.colorSpace());
	if (t.isArray() != (m.valid && m.dim != Dim::Dim3D && m.depth > 0)) return fmt("array: isArray() is %d", t.isArray());
	if (t.mipLevelCount() != m.mips) return fmt("mips: %u levels, expected %u", t.mipLevelCount(), m.mips);
	if (t.faceCount() != m.faces()) return fmt("faces: %u", t.faceCount());
	if (t.imagesComplete() != m.complete()) return fmt("complete: imagesComplete() is %d", t.imagesComplete());
	if (t.converted() != m.converted) return fmt("converted: converted() is %d", t.converted());
	if (t.format() != m.format) return fmt("format: %d, expected %d", (int)t.format(), (int)m.format);
	if (t.type() != m.type) return fmt("type: %d, expected %d", (int)t.type(), (int)m.type);
	if (t.alphaType() != m.alpha) return fmt("alphatype: %d, expected %d", (int)t.alphaType(), (int)m.alpha);
	Texture::ColorMask k = t.colorMask();
	bool km[4] = {k.r, k.g, k.b, k.a};
	if (std::memcmp(km, m.mask, sizeof km)) return "mask: " + maskStr(km) + ", expected " + maskStr(m.mask);
	std::vector<unsigned> mv;
	for (unsigned i = 0; i <= m.mips; ++i) mv.push_back(i);
	for (unsigned i : {31u, 32u, 33u, 64u, 0x7FFFFFFFu, 0xFFFFFFFFu}) mv.push_back(i);
	for (unsigned mip : mv)
	{
		n += 3;
		if (t.width(mip) != m.lw(mip) || t.height(mip) != m.lh(mip) || t.depth(mip) != m.ld(mip))
			return fmt("size: level %u is %ux%ux%u, expected %ux%ux%u", mip, t.width(mip), t.height(mip), t.depth(mip), m.lw(mip), m.lh(mip),
				m.ld(mip));
		std::vector<unsigned> dv;
		unsigned ld = m.ld(mip);
		for (unsigned i = 0; i <= ld; ++i) dv.push_back(i);
		dv.push_back(0xFFFFFFFFu);
		dv.push_back(0x80000000u);
		for (unsigned d : dv)
		{
			bool in = d < ld;
			// Through the accessors without a face.
			bool plain = in && m.dim != Dim::Cube;
			n += 3;
			ImgState want = plain ? m.images[mip][d][0] : ImgState();
			ImgState got = stateOf(t.getImage(mip, d));
			if (!(got == want)) return fmt("image: level %u depth %u is %s, expected %s", mip, d, got.str().c_str(), want.str().c_str());
			static const std::vector<uint8_t> none;
			const std::vector<uint8_t>& wd = plain && m.converted ? m.data[mip][d][0] : none;
			if (t.dataSize(mip, d) != wd.size()) return fmt("datasize: level %u depth %u is %zu, expected %zu", mip, d, t.dataSize(mip, d), wd.size());
			const void* p = t.data(mip, d);
			if (wd.empty() ? p != nullptr : !p || std::memcmp(p, wd.data(), wd.size())) return fmt("data: level %u depth %u", mip, d);
			for (unsigned f = 0; f < 6; ++f)
			{
				bool fin = in && (m.dim == Dim::Cube || f == 0);
				n += 3;
				ImgState w2 = fin ? m.images[mip][d][f] : ImgState();
				ImgState g2 = stateOf(t.getImage((Face)f, mip, d));
				if (!(g2 == w2)) return fmt("image: level %u depth %u face %u is %s, expected %s", mip, d, f, g2.str().c_str(), w2.str().c_str());
				const std::vector<uint8_t>& fd = fin && m.converted ? m.data[mip][d][f] : none;
				if (t.dataSize((Face)f, mip, d) != fd.size()) return fmt("datasize: level %u depth %u face %u is %zu, expected %zu", mip, d, f,
					t.dataSize((Face)f, mip, d), fd.size());
				const void* q = t.data((Face)f, mip, d);
				if (fd.empty() ? q != nullptr : !q || std::memcmp(q, fd.data(), fd.size())) return fmt("data: level %u depth %u face %u", mip, d, f);
			}
		}
	}
	return "";
}

static void check(const Texture& t, const Model& m, const std::string& after, const std::string& trace)
{
	uint64_t n = 0;
	std::string e = compareTexture(t, m, n);
	vh::eval(n);
	if (!e.empty())
		vh::violation(after + ":" + e.substr(0, e.find(':')), "after " + trace + ": " + e);
}

// ---------------------------------------------------------------- C18

static std::vector<float> rgbaf(const Image& i)
{
	std::vector<float> r;
	for (unsigned y = 0; y < i.height(); ++y)
	{
		const float* p = (const float*)i.scanline(y);
		r.insert(r.end(), p, p + (size_t)i.width()*4);
	}
	return r;
}

static double magOf(const Image& i)
{
	double mag = 1;
	for (auto v : rgbaf(i)) if (std::isfinite(v)) mag = std::max(mag, (double)std::fabs(v));
	return mag;
}

static bool closeF(const Image& a, const Image& b, double tol, std::string& why, double mag = 1)
{
	if (a.format() != b.format() || a.width() != b.width() || a.height() != b.height() || a.colorSpace() != b.colorSpace())
	{
		why = stateOf(a).str() + ", expected " + stateOf(b).str();
		return false;
	}
	auto x = rgbaf(a), y = rgbaf(b);
	// Sums are as accurate as their largest terms.
	mag = std::max(mag, magOf(b));
	for (size_t i = 0; i < x.size(); ++i)
		if (!(std::fabs(x[i] - y[i]) <= tol*(mag + std::fabs(y[i])) || x[i] == y[i]))
		{
			why = fmt("pixel %zu,%zu channel %zu is %.9g, expected %.9g", i/4 % a.width(), i/4/a.width(), i % 4, x[i], y[i]);
			return false;
		}
	return true;
}

// Depth reduction of same-sized slices: box average or tent of the resampling ratio, in linear light.
static std::vector<Image> reduceDepth(const std::vector<Image>& in, unsigned outD, ColorSpace cs, Image::ResizeFilter filter)
{
	std::vector<Image> out;
	double ratio = (double)in.size()/outD, radius = std::max(ratio, 1.0);
	for (unsigned d = 0; d < outD; ++d)
	{
		double center = (d + 0.5)*ratio;
		std::vector<double> wt(in.size());
		double total = 0;
		for (size_t i = 0; i < in.size(); ++i)
		{
			double dist = std::fabs((double)i + 0.5 - center)/radius;
			wt[i] = filter == Image::ResizeFilter::Box ? dist <= 0.5 : std::max(0.0, 1 - dist);
			total += wt[i];
		}
		Image o(IF::RGBAF, in[0].width(), in[0].height(), cs);
		for (unsigned y = 0; y < o.height(); ++y)
			for (unsigned x = 0; x < o.width(); ++x)
				for (unsigned c = 0; c < 4; ++c)
				{
					double v = 0;
					bool srgb = cs == ColorSpace::sRGB && c < 3;
					for (size_t i = 0; i < in.size(); ++i)
					{
						double s = ((const float*)in[i].scanline(y))[x*4 + c];
						v += wt[i]*(srgb ? toLin(s) : s);
					}
					v /= total;
					((float*)o.scanline(y))[x*4 + c] = (float)(srgb ? toSrgb(v) : v);
				}
		out.push_back(std::move(o));
	}
	return out;
}

static const Image::ResizeFilter filters[] = {Image::ResizeFilter::Box, Image::ResizeFilter::Linear, Image::ResizeFilter::Cubic,
	Image::ResizeFilter::CatmullRom, Image::ResizeFilter::BSpline};

// Float data in 0..1 or beyond.
static void floatFill(Image& i, Rng& rng)
{
	if (rng.chance(0.6))
		fillRandom(i, rng, false);
	else if (i.colorSpace() == ColorSpace::sRGB)
		fillRandom(i, rng, false, 5);
	else if (rng.chance(0.5))
		fillRandom(i, rng, false, 1, -1);
	else
		fillRandom(i, rng, false, 2000, -30);
}

static Image randomImage(Rng& rng, unsigned w, unsigned h, bool any = false)
{
	static const IF fs[] = {IF::RGBAF, IF::RGBAF, IF::RGBF, IF::RGBA8, IF::RGB8, IF::Gray8, IF::RGBA16, IF::Float, IF::Gray16, IF::RGB565};
	static const IF more[] = {IF::Int16, IF::Int32, IF::UInt16, IF::UInt32, IF::Double, IF::Complex, IF::RGB5, IF::RGB16};
	IF f = any && rng.chance(0.25) ? rng.pick(more) : rng.pick(fs);
	Image i(f, w, h, rng.chance(0.5) ? ColorSpace::sRGB : ColorSpace::Linear);
	floatFill(i, rng);
	return i;
}

static void mipChains(uint64_t idx, Rng& rng)
{
	TexSpec s;
	T type;
	const Layout* l = anyLayout(rng, type);
	drawSpec(rng, s, l, type, 20);
	s.cs = rng.chance(0.5) ? ColorSpace::sRGB : ColorSpace::Linear;
	Image::ResizeFilter filter = rng.pick(filters);
	static const char* dims[] = {"1D", "2D", "3D", "Cube"};
	Texture t(s.dim, s.w, s.h, s.depth, s.mips, s.cs);
	unsigned faces = s.faces(), depth0 = s.ld(0);
	bool missing = rng.chance(0.05);
	unsigned skipD = (unsigned)rng.below(depth0), skipF = (unsigned)rng.below(faces);
	bool mixed = rng.chance(0.2);
	for (unsigned d = 0; d < depth0; ++d)
		for (unsigned f = 0; f < faces; ++f)
		{
			if (missing && d == skipD && f == skipF) continue;
			Image i = mixed ? randomImage(rng, s.w, s.h, true) : Image(IF::RGBAF, s.w, s.h, s.cs);
			if (!mixed) floatFill(i, rng);
			t.setImage(i, (Face)f, 0, d);
		}
	// Levels that are already there are replaced.
	if (rng.chance(0.3) && s.mips > 1)
	{
		unsigned m = 1 + (unsigned)rng.below(s.mips - 1);
		Image i(IF::RGBAF, s.lw(m), s.lh(m), s.cs);
		floatFill(i, rng);
		t.setImage(i, (Face)rng.below(faces), m, (unsigned)rng.below(s.ld(m)));
	}
	bool wasConverted = false;
	std::string what = s.str() + fmt(" filter %d%s", (int)filter, mixed ? " mixed sources" : "");

	unsigned mx = maxLevels(s);
	unsigned ask = rng.chance(0.4) ? Texture::allMipLevels : rng.chance(0.1) ? (unsigned)rng.below(2) : rng.chance(0.2) ? mx + 1 :
		1 + (unsigned)rng.below(mx);
	unsigned mips = std::min(std::max(ask, 1u), mx);

	// Custom levels.
	struct Custom {Image img; Texture::MipReplacement rep;};
	std::map<std::array<unsigned, 3>, Custom> custom; // mip, depth, face
	Texture::CustomMipImages list;
	std::vector<std::unique_ptr<Image>> external;
	bool inconsistent = false, invalidCustom = false;
	if (rng.chance(0.65))
	{
		auto add = [&](unsigned m, unsigned d, unsigned f, Texture::MipReplacement rep, bool bad)
		{
			if (custom.count({m, d, f})) return;
			unsigned cw = s.lw(m), ch = s.lh(m);
			if (rng.chance(0.5)) {cw = 1 + (unsigned)rng.below(12); ch = 1 + (unsigned)rng.below(12);}
			Image img = bad ? Image() : randomImage(rng, cw, ch, true);
			custom[{m, d, f}] = {img, rep};
			Texture::ImageIndex ix = f == 0 && rng.chance(0.5) ? Texture::ImageIndex(m, d) : Texture::ImageIndex((Face)f, m, d);
			if (rng.chance(0.5))
				list.emplace(ix, Texture::CustomMipImage(std::move(img), rep));
			else
			{
				external.emplace_back(new Image(img));
				list.emplace(ix, Texture::CustomMipImage(*external.back(), rep));
			}
		};
		unsigned n = 1 + (unsigned)rng.below(6);
		for (unsigned i = 0; i < n; ++i)
		{
			// Mostly existing levels; some that are not there.
			unsigned m = rng.chance(0.9) && mips > 1 ? 1 + (unsigned)rng.below(mips - 1) : (unsigned)rng.below(mx + 3);
			auto rep = rng.chance(0.5) ? Texture::MipReplacement::Once : Texture::MipReplacement::Continue;
			bool bad = rng.chance(0.01);
			if (s.dim == Dim::Dim3D)
			{
				unsigned ld = s.ld(m);
				bool already = false;
				for (auto& c : custom) already |= c.first[0] == m;
				if (already) continue;
				bool spoil = rng.chance(0.08) && ld > 1 && m >= 1 && m < mips;
				unsigned odd = (unsigned)rng.below(ld);
				bool drop = rng.chance(0.5);
				for (unsigned d = 0; d < ld; ++d)
				{
					if (spoil && d == odd && drop) continue;
					auto r = spoil && d == odd ? rep == Texture::MipReplacement::Once ? Texture::MipReplacement::Continue :
						Texture::MipReplacement::Once : rep;
					add(m, d, 0, r, bad && d == 0);
				}
				inconsistent |= spoil;
				invalidCustom |= bad;
			}
			else
			{
				unsigned d = (unsigned)rng.below(s.ld(0) + (rng.chance(0.05) ? 1 : 0)), f = (unsigned)rng.below(rng.chance(0.05) ? 6 : faces);
				bool fresh = !custom.count({m, d, f});
				add(m, d, f, rep, bad);
				invalidCustom |= bad && fresh;
			}
		}
	}
	if (rng.chance(0.1) && !missing && s.cs == ColorSpace::Linear && t.imagesComplete() && s.mips == 1)
	{
		// After a conversion and new images the old data must not survive.
		std::vector<Image> keep;
		for (unsigned d = 0; d < depth0; ++d) for (unsigned f = 0; f < faces; ++f) keep.push_back(t.getImage((Face)f, 0, d));
		wasConverted = t.convert(F::R8, T::UNorm, Texture::Quality::Normal, Texture::Alpha::Standard, Texture::ColorMask(), 1);
		size_t k = 0;
		for (unsigned d = 0; d < depth0; ++d) for (unsigned f = 0; f < faces; ++f) t.setImage(keep[k++], (Face)f, 0, d);
	}

	// Before.
	std::vector<std::vector<std::vector<ImgState>>> before(t.mipLevelCount());
	for (unsigned m = 0; m < t.mipLevelCount(); ++m)
	{
		before[m].resize(t.depth(m));
		for (unsigned d = 0; d < t.depth(m); ++d)
			for (unsigned f = 0; f < faces; ++f)
				before[m][d].push_back(stateOf(t.getImage((Face)f, m, d)));
	}
	std::vector<ImgState> extBefore;
	for (auto& e : external) extBefore.push_back(stateOf(*e));
	std::vector<std::vector<Image>> base(depth0);
	for (unsigned d = 0; d < depth0; ++d)
		for (unsigned f = 0; f < faces; ++f)
			base[d].push_back(t.getImage((Face)f, 0, d));

	std::string cs;
	for (auto& c : custom)
		cs += fmt(" [mip %u depth %u face %u %s %s]", c.first[0], c.first[1], c.first[2],
			c.second.rep == Texture::MipReplacement::Once ? "once" : "continue", stateOf(c.second.img).str().c_str());
	what += fmt(" asked for %u levels", ask) + (cs.empty() ? "" : ", custom" + cs.substr(0, 800));

	bool expect = !missing && !invalidCustom && !inconsistent;
	bool ok = t.generateMipmaps(filter, ask, list);
	std::string k = std::string(dims[(int)s.dim]) + (custom.empty() ? "" : "+custom");
	VH_CHECK(ok == expect, k + ":result", "%s: generateMipmaps returned %d, expected %d", what.c_str(), ok, expect);
	for (size_t i = 0; i < external.size(); ++i)
		VH_CHECK(stateOf(*external[i]) == extBefore[i], k + ":custom-source", "%s: a custom source image changed", what.c_str());
	vh::cover(k + fmt(":f%d:%s:%s:%s", (int)filter, csName(s.cs), expect ? "ok" : missing ? "missing" : invalidCustom ? "invalid" :
		"inconsistent", mixed ? "mixed" : "plain"));
	vh::cover(fmt("%s:levels%u", dims[(int)s.dim], mips));
	if (!ok)
	{
		bool same = t.mipLevelCount() == before.size();
		for (unsigned m = 0; same && m < before.size(); ++m)
			for (unsigned d = 0; same && d < before[m].size(); ++d)
				for (unsigned f = 0; same && f < faces; ++f)
					same = stateOf(t.getImage((Face)f, m, d)) == before[m][d][f];
		VH_CHECK(same && t.converted() == wasConverted, k + ":failed-changed", "%s: a failed generation changed the texture", what.c_str());
		return;
	}
	if (!expect)
		return;
	VH_CHECK(t.mipLevelCount() == mips, k + ":count", "%s: %u levels, expected %u", what.c_str(), t.mipLevelCount(), mips);
	VH_CHECK(!t.converted() && t.format() == F::Unknown, k + ":converted", "%s: converted data survived", what.c_str());
	VH_CHECK(t.imagesComplete(), k + ":complete", "%s: images are missing", what.c_str());
	if (t.mipLevelCount() != mips || !t.imagesComplete())
		return;
	for (unsigned m = 0; m < mips; ++m)
		VH_CHECK(t.width(m) == s.lw(m) && t.height(m) == s.lh(m) && t.depth(m) == s.ld(m), k + ":size", "%s: level %u is %ux%ux%u", what.c_str(),
			m, t.width(m), t.height(m), t.depth(m));
	for (unsigned d = 0; d < depth0; ++d)
		for (unsigned f = 0; f < faces; ++f)
			VH_CHECK(stateOf(t.getImage((Face)f, 0, d)) == before[0][d][f], k + ":level0", "%s: level 0 depth %u face %u changed", what.c_str(), d,
				f);

	// A custom image fits its level, in the texture's colour space; the conversion may come first or last.
	auto customOk = [&](const Image& got, const Image& src, unsigned m, const std::string& at)
	{
		Image a = src.resize(s.lw(m), s.lh(m), filter).convert(IF::RGBAF);
		a.changeColorSpace(s.cs);
		Image b = src.convert(IF::RGBAF);
		b.changeColorSpace(s.cs);
		b = b.resize(s.lw(m), s.lh(m), filter);
		std::string wa, wb;
		vh::eval((uint64_t)s.lw(m)*s.lh(m)*4);
		bool fits = closeF(got, a, 2e-5, wa) || closeF(got, b, 2e-5, wb);
		if (!fits)
			vh::violation(k + ":custom-level", what + ": " + at + " does not hold its custom image: " + wa);
	};
	auto same = [&](const Image& got, const Image& want, const std::string& key, const std::string& at, double mag)
	{
		std::string w;
		vh::eval((uint64_t)got.width()*got.height()*4);
		if (!closeF(got, want, 2e-5, w, mag))
			vh::violation(k + ":" + key, what + ": " + at + ": " + w);
	};
	if (s.dim == Dim::Dim3D)
	{
		std::vector<Image> src;
		for (unsigned d = 0; d < depth0; ++d) src.push_back(base[d][0]);
		for (unsigned m = 1; m < mips; ++m)
		{
			std::vector<Image> resized;
			double mag = 1;
			for (auto& i : src) mag = std::max(mag, magOf(i));
			for (auto& i : src) resized.push_back(i.resize(s.lw(m), s.lh(m), filter));
			std::vector<Image> gen = reduceDepth(resized, s.ld(m), s.cs, filter);
			auto it = custom.find({m, 0u, 0u});
			std::vector<Image> got;
			for (unsigned d = 0; d < s.ld(m); ++d) got.push_back(t.getImage(m, d));
			for (unsigned d = 0; d < s.ld(m); ++d)
			{
				std::string at = fmt("level %u slice %u", m, d);
				if (it == custom.end()) same(got[d], gen[d], "generated", at, mag);
				else customOk(got[d], custom[{m, d, 0u}].img, m, at);
			}
			// Follow what is there rather than letting differences accumulate.
			src = it != custom.end() && it->second.rep == Texture::MipReplacement::Once ? gen : got;
		}
	}
	else
	{
		for (unsigned d = 0; d < depth0; ++d)
			for (unsigned f = 0; f < faces; ++f)
			{
				Image src = base[d][f];
				for (unsigned m = 1; m < mips; ++m)
				{
					Image gen = src.resize(s.lw(m), s.lh(m), filter);
					const Image& got = t.getImage((Face)f, m, d);
					auto it = custom.find({m, d, f});
					std::string at = fmt("level %u depth %u face %u", m, d, f);
					if (it == custom.end()) same(got, gen, "generated", at, magOf(src));
					else customOk(got, it->second.img, m, at);
					src = it != custom.end() && it->second.rep == Texture::MipReplacement::Once ? gen : got;
				}
			}
	}
	vh::count("levels", mips);
	vh::count("custom-images", custom.size());
	if (idx % 53 == 0)
		vh::sample(what);
}

// ---------------------------------------------------------------- C19

static Model modelOf(const Texture& t)
{
	Model m;
	m.valid = t.isValid();
	m.dim = t.dimension(); m.cs = t.colorSpace();
	m.w = t.width(); m.h = t.height(); m.mips = t.mipLevelCount();
	m.depth = m.dim == Dim::Dim3D || t.isArray() ? t.depth() : 0;
	m.converted = t.converted(); m.format = t.format(); m.type = t.type(); m.alpha = t.alphaType();
	Texture::ColorMask k = t.colorMask();
	m.mask[0] = k.r; m.mask[1] = k.g; m.mask[2] = k.b; m.mask[3] = k.a;
	m.resizeImages();
	m.data.clear();
	if (m.converted) m.data.resize(m.mips);
	for (unsigned mip = 0; mip < m.mips; ++mip)
	{
		if (m.converted) m.data[mip].resize(m.ld(mip));
		for (unsigned d = 0; d < m.ld(mip); ++d)
		{
			if (m.converted) m.data[mip][d].resize(m.faces());
			for (unsigned f = 0; f < m.faces(); ++f)
			{
				m.images[mip][d][f] = stateOf(t.getImage((Face)f, mip, d));
				if (m.converted)
				{
					const uint8_t* p = (const uint8_t*)t.data((Face)f, mip, d);
					m.data[mip][d][f].assign(p, p + t.dataSize((Face)f, mip, d));
				}
			}
		}
	}
	return m;
}

static Image imageFrom(const ImgState& s)
{
	Image i;
	if (!s.valid) return i;
	i.initialize(s.f, s.w, s.h, s.cs);
	size_t row = s.bytes.size()/s.h;
	for (unsigned y = 0; y < s.h; ++y) std::memcpy(i.scanline(y), s.bytes.data() + row*y, row);
	return i;
}

struct Step
{
	std::string op;   // kind, for keys
	std::string text; // full
};

// Applies one random operation to the texture and the model.
static Step randomOp(Rng& rng, Texture& t, Model& m)
{
	static const unsigned big[] = {31, 32, 33, 64, 0x7FFFFFFFu, 0xFFFFFFFFu};
	auto pickMip = [&]() {return rng.chance(0.85) && m.mips ? (unsigned)rng.below(m.mips) : rng.chance(0.5) ? m.mips + (unsigned)rng.below(2) : rng.pick(big);};
	unsigned op = (unsigned)rng.below(100);
	if (!m.valid && rng.chance(0.6)) op = 0;
	if (op < 6)
	{
		Dim d = (Dim)rng.below(4);
		auto z = [&]() {return rng.chance(0.04) ? 0u : 1 + (unsigned)rng.below(9);};
		unsigned w = z(), h = z(), dep = (unsigned)rng.below(4), mips = rng.chance(0.2) ? Texture::allMipLevels : (unsigned)rng.below(6);
		if (d == Dim::Cube && rng.chance(0.9)) h = w;
		ColorSpace cs = rng.chance(0.5) ? ColorSpace::sRGB : ColorSpace::Linear;
		Step s{"initialize", fmt("initialize(%d, %u, %u, %u, %u, %s)", (int)d, w, h, dep, mips, csName(cs))};
		bool ok = t.initialize(d, w, h, dep, mips, cs);
		m.init(d, w, h, dep, mips, cs);
		VH_CHECK(ok == m.valid, "initialize:result", "%s returned %d", s.text.c_str(), ok);
		return s;
	}
	if (op < 8)
	{
		t.reset();
		m = Model();
		return {"reset", "reset()"};
	}
	if (op < 30 || (op < 60 && m.valid && !m.complete()))
	{
		unsigned mip = pickMip();
		unsigned ld = m.ld(mip);
		unsigned d = rng.chance(0.9) && ld ? (unsigned)rng.below(ld) : rng.chance(0.5) ? ld : 0xFFFFFFFFu;
		unsigned face = m.dim == Dim::Cube || rng.chance(0.1) ? (unsigned)rng.below(6) : 0;
		bool useFace = m.dim == Dim::Cube ? rng.chance(0.9) : rng.chance(0.5);
		// Aim at a missing image, so that textures become complete.
		if (m.valid && rng.chance(0.6))
		{
			std::vector<std::array<unsigned, 3>> miss;
			for (unsigned a = 0; a < m.images.size(); ++a) for (unsigned b = 0; b < m.images[a].size(); ++b)
				for (unsigned c = 0; c < m.images[a][b].size(); ++c) if (!m.images[a][b][c].valid) miss.push_back({a, b, c});
			if (!miss.empty())
			{
				auto x = rng.pick(miss);
				mip = x[0]; d = x[1]; face = x[2]; useFace = m.dim == Dim::Cube || rng.chance(0.5);
				ld = m.ld(mip);
			}
		}
		unsigned w = m.lw(mip), h = m.lh(mip);
		if (!w) w = h = 1 + (unsigned)rng.below(4);
		if (rng.chance(0.08)) (rng.chance(0.5) ? w : h) += 1;
		unsigned src = (unsigned)rng.below(20);
		Image img = src == 0 ? Image() : randomImage(rng, w, h, rng.chance(0.8));
		const Image* use = &img;
		std::string from = img.isValid() ? stateOf(img).str() : "an invalid image";
		bool alias = src == 1 && m.valid;
		if (alias)
		{
			use = &t.getImage((Face)face, pickMip(), d);
			from = "one of its own images, " + stateOf(*use).str();
		}
		bool ok, legal = ld && d < ld && (useFace ? m.dim == Dim::Cube || face == 0 : m.dim != Dim::Cube) && use->isValid() &&
			use->width() == m.lw(mip) && use->height() == m.lh(mip);
		ImgState want;
		if (legal)
		{
			Image c = use->convert(IF::RGBAF);
			c.changeColorSpace(m.cs);
			want = stateOf(c);
		}
		bool mv = !alias && rng.chance(0.5);
		Step s{"setImage", fmt("setImage(%s%s, %sface %u, mip %u, depth %u)", mv ? "moved " : "", from.c_str(), useFace ? "" : "no ", face, mip, d)};
		ImgState srcBefore = stateOf(*use);
		if (mv) ok = useFace ? t.setImage(std::move(img), (Face)face, mip, d) : t.setImage(std::move(img), mip, d);
		else ok = useFace ? t.setImage(*use, (Face)face, mip, d) : t.setImage(*use, mip, d);
		VH_CHECK(ok == legal, "setImage:result", "%s returned %d", s.text.c_str(), ok);
		if (!alias && (!mv || !ok))
			VH_CHECK(stateOf(img) == srcBefore, "setImage:source", "%s changed its source", s.text.c_str());
		if (legal)
			m.images[mip][d][useFace ? face : 0] = want;
		return s;
	}
	if (op < 42)
	{
		Image::ResizeFilter filter = rng.pick(filters);
		unsigned n = rng.chance(0.3) ? Texture::allMipLevels : (unsigned)rng.below(6);
		Texture::CustomMipImages list;
		bool bad = false;
		if (rng.chance(0.4))
		{
			unsigned c = 1 + (unsigned)rng.below(3);
			for (unsigned i = 0; i < c; ++i)
			{
				Image img = randomImage(rng, 1 + (unsigned)rng.below(6), 1 + (unsigned)rng.below(6));
				if (rng.chance(0.05)) img.reset();
				auto r = list.emplace(Texture::ImageIndex((Face)(m.dim == Dim::Cube ? rng.below(6) : 0), 1 + (unsigned)rng.below(4),
					(unsigned)rng.below(3)), Texture::CustomMipImage(std::move(img), rng.chance(0.5) ? Texture::MipReplacement::Once :
					Texture::MipReplacement::Continue));
				bad |= r.second && !r.first->second.image->isValid();
			}
		}
		Step s{"generateMipmaps", fmt("generateMipmaps(%d, %u, %zu custom)", (int)filter, n, list.size())};
		unsigned mx = m.valid ? Texture::maxMipmapLevels(m.dim, m.w, m.h, m.depth) : 0;
		unsigned levels = std::min(std::max(n, 1u), mx);
		bool expect = m.valid && m.level0() && !bad;
		if (expect && m.dim == Dim::Dim3D)
			for (unsigned mip = 1; mip < levels; ++mip)
			{
				unsigned ld = std::max(1u, m.depth >> mip), have = 0, once = 0;
				for (unsigned d = 0; d < ld; ++d)
				{
					auto it = list.find(Texture::ImageIndex(mip, d));
					if (it == list.end()) continue;
					++have;
					once += it->second.replacement == Texture::MipReplacement::Once;
				}
				expect &= (have == 0 || have == ld) && (once == 0 || once == ld);
			}
		bool ok = t.generateMipmaps(filter, n, list);
		VH_CHECK(ok == expect, "generateMipmaps:result", "%s returned %d", s.text.c_str(), ok);
		if (ok && expect)
		{
			// C18 decides what the levels hold.
			m.mips = levels;
			m.converted = false;
			m.format = F::Unknown;
			m.data.clear();
			m.resizeImages();
			for (unsigned mip = 1; mip < levels; ++mip)
				for (unsigned d = 0; d < m.ld(mip); ++d)
					for (unsigned f = 0; f < m.faces(); ++f)
					{
						ImgState i = stateOf(t.getImage((Face)f, mip, d));
						VH_CHECK(i.valid && i.f == IF::RGBAF && i.w == m.lw(mip) && i.h == m.lh(mip) && i.cs == m.cs, "generateMipmaps:level",
							"%s: level %u holds %s", s.text.c_str(), mip, i.str().c_str());
						m.images[mip][d][f] = i;
					}
		}
		return s;
	}
	if (op < 60)
	{
		F f = (F)rng.below(formatCount);
		T ty = (T)rng.below(typeCount);
		if (rng.chance(0.8))
		{
			f = anyLayout(rng, ty)->format;
			if (m.cs == ColorSpace::sRGB && rng.chance(0.8))
			{
				static const F sf[] = {F::R8G8B8, F::B8G8R8, F::R8G8B8A8, F::B8G8R8A8, F::A8B8G8R8};
				f = rng.pick(sf);
				ty = T::UNorm;
			}
		}
		Texture::ColorMask mask(rng.chance(0.7), rng.chance(0.7), rng.chance(0.7), rng.chance(0.7));
		Texture::Alpha alpha = (Texture::Alpha)rng.below(4);
		static const unsigned th[] = {0, 1, 2, 3, 8, Texture::allCores};
		unsigned threads = rng.pick(th);
		const Layout* l = layout(f);
		bool expect = m.complete() && l && hasType(*l, ty) && (m.cs == ColorSpace::Linear || (l->srgb && ty == T::UNorm));
		Step s{"convert", fmt("convert(%d, %s, threads %u)", (int)f, typeName(ty), threads)};
		bool ok = t.convert(f, ty, (Texture::Quality)rng.below(5), alpha, mask, threads);
		VH_CHECK(ok == expect, "convert:result", "%s returned %d", s.text.c_str(), ok);
		if (ok && expect)
		{
			m.converted = true;
			m.format = f; m.type = ty; m.alpha = alpha;
			m.mask[0] = mask.r; m.mask[1] = mask.g; m.mask[2] = mask.b; m.mask[3] = mask.a;
			m.data.assign(m.mips, {});
			for (unsigned mip = 0; mip < m.mips; ++mip)
			{
				m.data[mip].resize(m.ld(mip));
				for (unsigned d = 0; d < m.ld(mip); ++d)
				{
					m.data[mip][d].resize(m.faces());
					for (unsigned c = 0; c < m.faces(); ++c)
					{
						ImgState& i = m.images[mip][d][c];
						size_t n = (size_t)i.w*i.h*l->bytes;
						const uint8_t* p = (const uint8_t*)t.data((Face)c, mip, d);
						VH_CHECK(p && t.dataSize((Face)c, mip, d) == n, "convert:size", "%s: level %u holds %zu bytes, expected %zu", s.text.c_str(),
							mip, t.dataSize((Face)c, mip, d), n);
						if (p && t.dataSize((Face)c, mip, d) == n)
						{
							Surf sf;
							sf.w = i.w; sf.h = i.h;
							sf.px.resize((size_t)i.w*i.h*4);
							std::memcpy(sf.px.data(), i.bytes.data(), i.bytes.size());
							std::string e = checkSurf(*l, ty, sf, p, (size_t)i.w*l->bytes);
							vh::eval((uint64_t)i.w*i.h);
							if (!e.empty())
								vh::violation("convert:data", s.text + fmt(" level %u depth %u face %u: ", mip, d, c) + e);
							m.data[mip][d][c].assign(p, p + n);
						}
						i = ImgState();
					}
				}
			}
		}
		return s;
	}
	if (op < 70)
	{
		FT ft = (FT)rng.below(4);
		std::vector<uint8_t> d{9};
		bool known = ft != FT::Auto;
		Texture::SaveResult want = !m.converted ? Texture::SaveResult::Invalid : !known ? Texture::SaveResult::UnknownFormat :
			Texture::isFormatValid(m.format, m.type, ft) ? Texture::SaveResult::Success : Texture::SaveResult::Unsupported;
		Step s{"save", fmt("save(%d)", (int)ft)};
		Texture::SaveResult r = t.save(d, ft);
		VH_CHECK(r == want, "save:result", "%s returned %d, expected %d", s.text.c_str(), (int)r, (int)want);
		return s;
	}
	if (op < 85 && m.valid && !m.complete())
	{
		// Complete it.
		for (unsigned mip = 0; mip < m.mips; ++mip)
			for (unsigned d = 0; d < m.ld(mip); ++d)
				for (unsigned f = 0; f < m.faces(); ++f)
				{
					if (m.images[mip][d][f].valid) continue;
					Image img(IF::RGBAF, m.lw(mip), m.lh(mip), m.cs);
					fillRandom(img, rng, rng.chance(0.2));
					ImgState st = stateOf(img);
					bool ok = rng.chance(0.5) ? t.setImage(std::move(img), (Face)f, mip, d) : t.setImage(img, (Face)f, mip, d);
					VH_CHECK(ok, "setImage:result", "filling level %u depth %u face %u failed", mip, d, f);
					m.images[mip][d][f] = st;
				}
		return {"fill", "setting every missing image"};
	}
	if (op < 93)
		return {"query", "queries"};
	Image img = randomImage(rng, 1 + (unsigned)rng.below(4), 1 + (unsigned)rng.below(4));
	Texture::adjustImageValueRange(img, (T)rng.below(typeCount));
	return {"other", "adjusting an unrelated image"};
}

static void lifecycle(uint64_t idx, Rng& rng)
{
	Texture t;
	Model m;
	if (rng.chance(0.3))
	{
		Dim d = (Dim)rng.below(4);
		unsigned w = 1 + (unsigned)rng.below(8), h = d == Dim::Cube ? w : 1 + (unsigned)rng.below(8), dep = (unsigned)rng.below(4), mips = (unsigned)rng.below(5);
		ColorSpace cs = rng.chance(0.5) ? ColorSpace::sRGB : ColorSpace::Linear;
		t = Texture(d, w, h, dep, mips, cs);
		m.init(d, w, h, dep, mips, cs);
	}
	check(t, m, "construct", "construction");
	std::string trace;
	unsigned n = 4 + (unsigned)rng.below(24);
	std::string last = "construct";
	for (unsigned i = 0; i < n; ++i)
	{
		Step s = randomOp(rng, t, m);
		trace += (trace.empty() ? "" : "; ") + s.text;
		if (trace.size() > 1500) trace = "..." + trace.substr(trace.size() - 1400);
		check(t, m, s.op, trace);
		vh::cover(last + ">" + s.op + (m.converted ? ":converted" : m.valid && m.complete() ? ":complete" : m.valid ? ":partial" : ":empty"));
		last = s.op;
		vh::count("steps");
	}
	if (idx % 67 == 0)
		vh::sample(trace.substr(0, 400));
}

// ---------------------------------------------------------------- C20

struct CustomState
{
	bool internal = false;
	const Image* external = nullptr;
	ImgState img;
	Texture::MipReplacement rep = Texture::MipReplacement::Once;
};

static void mutate(Rng& rng, Image& i)
{
	switch (rng.below(7))
	{
		case 0: i.initialize((IF)(1 + rng.below(17)), 1 + (unsigned)rng.below(5), 1 + (unsigned)rng.below(5)); break;
		case 1: i.reset(); break;
		case 2: if (i) i.setPixel(0, 0, ColorRGBAd{rng.unit(), rng.unit(), rng.unit(), rng.unit()}); break;
		case 3: i.flipHorizontal(); break;
		case 4: i.changeColorSpace(rng.chance(0.5) ? ColorSpace::sRGB : ColorSpace::Linear); break;
		case 5: i.swizzle(Image::Channel::Blue, Image::Channel::Red, Image::Channel::Green, Image::Channel::Alpha); break;
		case 6: if (i) fillRandom(i, rng, false); break;
	}
}

static void copies(uint64_t idx, Rng& rng)
{
	constexpr unsigned N = 3;
	static const Image shared1 = [] {Image i(IF::RGBA8, 2, 3); Rng r(5); fillRandom(i, r, false); return i;}();
	static const Image shared2 = [] {Image i(IF::RGBAF, 4, 1, ColorSpace::sRGB); Rng r(6); fillRandom(i, r, false); return i;}();
	std::vector<std::unique_ptr<Image>> imgs(N);
	std::vector<std::unique_ptr<Texture>> texs(N);
	std::vector<std::unique_ptr<Texture::CustomMipImage>> cus(N);
	ImgState im[N];
	Model tm[N];
	CustomState cm[N];
	for (unsigned i = 0; i < N; ++i)
	{
		imgs[i].reset(new Image(rng.chance(0.2) ? Image() : randomImage(rng, 1 + (unsigned)rng.below(5), 1 + (unsigned)rng.below(5))));
		im[i] = stateOf(*imgs[i]);
		texs[i].reset(new Texture);
		if (rng.chance(0.7))
		{
			TexSpec s;
			T type;
			const Layout* l = anyLayout(rng, type);
			drawSpec(rng, s, l, type, 6);
			s.depth = std::min(s.depth, 3u);
			s.w = std::min(s.w, 9u);
			s.h = s.dim == Dim::Cube ? s.w : std::min(s.h, 9u);
			s.mips = std::min(s.mips, maxLevels(s));
			Surfaces px;
			fillTexture(rng, s, *texs[i], px);
			if (rng.chance(0.6))
			{
				Texture::ColorMask mask(rng.chance(0.5), rng.chance(0.5), rng.chance(0.5), rng.chance(0.5));
				texs[i]->convert(l->format, type, Texture::Quality::Normal, s.alpha, mask, 1);
				// Some are partly filled again.
				if (rng.chance(0.3)) texs[i]->setImage(Image(IF::RGBAF, s.w, s.h, s.cs), Face::PosX, 0, 0);
			}
			tm[i] = modelOf(*texs[i]);
		}
		bool ext = rng.chance(0.5);
		cm[i].rep = rng.chance(0.5) ? Texture::MipReplacement::Once : Texture::MipReplacement::Continue;
		if (ext)
		{
			cm[i].external = rng.chance(0.5) ? &shared1 : &shared2;
			cus[i].reset(new Texture::CustomMipImage(*cm[i].external, cm[i].rep));
			cm[i].img = stateOf(*cm[i].external);
		}
		else
		{
			Image x = randomImage(rng, 2, 1 + (unsigned)rng.below(3));
			cm[i].img = stateOf(x);
			cm[i].internal = true;
			cus[i].reset(new Texture::CustomMipImage(std::move(x), cm[i].rep));
		}
	}
	std::string trace, last;
	auto verify = [&](const std::string& op)
	{
		for (unsigned i = 0; i < N; ++i)
		{
			ImgState s = stateOf(*imgs[i]);
			VH_CHECK(s == im[i], op + ":image", "after %s: image %u is %s, expected %s", trace.c_str(), i, s.str().c_str(), im[i].str().c_str());
			// The derived accessors too.
			if (imgs[i]->isValid())
			{
				auto masks = [](const Image& x)
				{
					return std::array<uint32_t, 9>{x.redMask(), x.greenMask(), x.blueMask(), x.alphaMask(), x.redShift(), x.greenShift(),
						x.blueShift(), x.alphaShift(), x.bitsPerPixel()};
				};
				VH_CHECK(masks(*imgs[i]) == masks(Image(im[i].f, im[i].w, im[i].h)), op + ":image-masks", "after %s: masks of image %u",
					trace.c_str(), i);
			}
			uint64_t n = 0;
			std::string e = compareTexture(*texs[i], tm[i], n);
			vh::eval(n);
			if (!e.empty())
				vh::violation(op + ":texture:" + e.substr(0, e.find(':')), "after " + trace + fmt(": texture %u: ", i) + e);
			const Texture::CustomMipImage& c = *cus[i];
			bool ptr = cm[i].internal ? c.image == &c.imageStorage : c.image == cm[i].external;
			VH_CHECK(ptr, op + ":custom-pointer", "after %s: custom %u points elsewhere", trace.c_str(), i);
			if (ptr)
				VH_CHECK(stateOf(*c.image) == cm[i].img && c.replacement == cm[i].rep, op + ":custom", "after %s: custom %u is %s %d, expected %s %d",
					trace.c_str(), i, stateOf(*c.image).str().c_str(), (int)c.replacement, cm[i].img.str().c_str(), (int)cm[i].rep);
		}
	};
	verify("start");
	unsigned steps = 6 + (unsigned)rng.below(20);
	for (unsigned k = 0; k < steps; ++k)
	{
		unsigned a = (unsigned)rng.below(N), b = (unsigned)rng.below(N), kind = (unsigned)rng.below(3), op = (unsigned)rng.below(kind == 1 ? 8 : 6);
		static const char* kinds[] = {"image", "texture", "custom"};
		static const char* ops[] = {"copy-construct", "copy-assign", "move-construct", "move-assign", "self-assign", "mutate", "mutate", "mutate"};
		if ((op == 2 || op == 3) && a == b) b = (a + 1) % N;
		std::string name = fmt("%s:%s", kinds[kind], ops[op]);
		trace += fmt("%s%s %u<-%u", trace.empty() ? "" : "; ", name.c_str(), a, b);
		bool srcValid = kind == 0 ? im[b].valid : kind == 1 ? tm[b].valid : cm[b].img.valid;
		bool dstValid = kind == 0 ? im[a].valid : kind == 1 ? tm[a].valid : cm[a].img.valid;
		if (kind == 0)
		{
			switch (op)
			{
				case 0: {std::unique_ptr<Image> n(new Image(*imgs[b])); im[a] = im[b]; imgs[a] = std::move(n); break;}
				case 1: *imgs[a] = *imgs[b]; im[a] = im[b]; break;
				case 2: imgs[a].reset(new Image(std::move(*imgs[b]))); im[a] = im[b]; im[b] = ImgState(); break;
				case 3: *imgs[a] = std::move(*imgs[b]); im[a] = im[b]; im[b] = ImgState(); break;
				case 4: {Image& s = *imgs[a]; if (rng.chance(0.5)) *imgs[a] = s; else *imgs[a] = std::move(s); break;}
				default: mutate(rng, *imgs[a]); im[a] = stateOf(*imgs[a]); break;
			}
		}
		else if (kind == 1)
		{
			switch (op)
			{
				case 0: {std::unique_ptr<Texture> n(new Texture(*texs[b])); tm[a] = tm[b]; texs[a] = std::move(n); break;}
				case 1: *texs[a] = *texs[b]; tm[a] = tm[b]; break;
				case 2: texs[a].reset(new Texture(std::move(*texs[b]))); tm[a] = tm[b]; tm[b] = Model(); break;
				case 3: *texs[a] = std::move(*texs[b]); tm[a] = tm[b]; tm[b] = Model(); break;
				case 4: {Texture& s = *texs[a]; if (rng.chance(0.5)) *texs[a] = s; else *texs[a] = std::move(s); break;}
				default:
					for (int r = 0; r < 3; ++r)
					{
						Step s = randomOp(rng, *texs[a], tm[a]);
						trace += " " + s.text;
					}
					break;
			}
		}
		else
		{
			switch (op)
			{
				case 0: {std::unique_ptr<Texture::CustomMipImage> n(new Texture::CustomMipImage(*cus[b])); cm[a] = cm[b]; cus[a] = std::move(n); break;}
				case 1: *cus[a] = *cus[b]; cm[a] = cm[b]; break;
				case 2:
					cus[a].reset(new Texture::CustomMipImage(std::move(*cus[b])));
					cm[a] = cm[b];
					if (cm[b].internal) cm[b].img = ImgState();
					break;
				case 3:
					*cus[a] = std::move(*cus[b]);
					cm[a] = cm[b];
					if (cm[b].internal) cm[b].img = ImgState();
					break;
				case 4: {Texture::CustomMipImage& s = *cus[a]; if (rng.chance(0.5)) *cus[a] = s; else *cus[a] = std::move(s); break;}
				default:
					if (cm[a].internal)
					{
						mutate(rng, cus[a]->imageStorage);
						cm[a].img = stateOf(cus[a]->imageStorage);
					}
					cus[a]->replacement = rng.chance(0.5) ? Texture::MipReplacement::Once : Texture::MipReplacement::Continue;
					cm[a].rep = cus[a]->replacement;
					break;
			}
		}
		if (trace.size() > 1500) trace = "..." + trace.substr(trace.size() - 1400);
		verify(name);
		vh::cover(name + (srcValid ? ":from-full" : ":from-empty") + (dstValid ? ":over-full" : ":over-empty") +
			(kind == 1 && tm[a].converted ? ":converted" : ""));
		vh::count("steps");
	}
	if (idx % 61 == 0)
		vh::sample(trace.substr(0, 300));
}

// ---------------------------------------------------------------- C21

static void ranges(uint64_t idx, Rng& rng)
{
	IF f = (IF)(1 + idx % 17);
	bool given = rng.chance(0.6);
	IF orig = given ? (IF)(1 + rng.below(17)) : IF::Invalid;
	T type = (T)rng.below(typeCount);
	unsigned w = 1 + (unsigned)rng.below(rng.chance(0.05) ? 200 : 12), h = 1 + (unsigned)rng.below(12);
	if (rng.chance(0.02))
	{
		// Thousands of pixels in a row.
		w = rng.chance(0.5) ? 300 + (unsigned)rng.below(4000) : 65000 + (unsigned)rng.below(4000);
		h = 1 + (unsigned)rng.below(2);
		if (rng.chance(0.5)) std::swap(w, h);
	}
	ColorSpace cs = rng.chance(0.5) ? ColorSpace::sRGB : ColorSpace::Linear;
	Image img(f, w, h, cs);
	fillRandom(img, rng, false);
	ImgState before = stateOf(img);
	auto px = pixelsOf(img);
	IF src = given ? orig : f;
	const ILayout& sl = ilayout(src);
	const ILayout& l = ilayout(f);
	std::string what = fmt("%s from %s to %s %ux%u %s", l.name, given ? ilayout(orig).name : "itself", typeName(type), w, h, csName(cs));
	std::string key = fmt("%s:%s:%s", l.name, sl.name, typeName(type));
	bool norm = sl.kind == IK::Norm;
	bool target = type == T::SNorm || type == T::UInt || type == T::Int;
	// Integer images hold no normalised values to adjust.
	bool adjustable = l.kind != IK::UInt && l.kind != IK::SInt;
	Texture::adjustImageValueRange(img, type, given ? orig : IF::Invalid);
	vh::cover(key);
	if (!norm || !target || !adjustable)
	{
		VH_CHECK(stateOf(img) == before, "unchanged:" + key, "%s: the image changed", what.c_str());
		return;
	}
	IF want = l.comps.size() == 1 ? IF::Float : l.alpha ? IF::RGBAF : IF::RGBF;
	VH_CHECK(img.isValid() && img.format() == want && img.width() == w && img.height() == h && img.colorSpace() == cs, "shape:" + key,
		"%s: became %s", what.c_str(), stateOf(img).str().c_str());
	if (!img.isValid() || img.format() != want || img.width() != w || img.height() != h)
		return;
	auto out = pixelsOf(img);
	const ILayout& ol = ilayout(want);
	for (size_t i = 0; i < px.size(); ++i)
		for (auto& c : ol.comps)
		{
			double v = px[i].v[c.ch], got = out[i].v[c.ch], exp;
			if (l.f == IF::Complex && c.ch == 2)
				v = 0;
			vh::eval();
			bool ok;
			if (type == T::SNorm)
			{
				exp = v*2 - 1;
				ok = std::fabs(got - exp) <= 1e-6*(1 + std::fabs(v));
			}
			else
			{
				const IComp* sc = sl.comp(c.ch);
				unsigned bits = sc ? sc->bits : sl.comps[0].bits;
				double mx = std::ldexp(1.0, (int)bits) - 1, mn = type == T::Int ? -std::ldexp(1.0, (int)bits - 1) : 0;
				exp = v*mx + mn;
				ok = got == std::floor(got) && std::fabs(got - exp) <= 0.5 + 1e-6*(mx + std::fabs(v)*mx);
				// A value of the source format is exactly one integer.
				double n = std::floor(v*mx + 0.5);
				if (std::fabs(v*mx - n) < 1e-3) ok = ok && got == n + mn;
				if (!sc && c.ch == 3)
				{
					// Opaque in a source without alpha: stays at the top of some range of the source.
					ok = got == std::floor(got) && (v < 1 || got >= 15);
				}
			}
			if (!ok)
			{
				vh::violation("value:" + key + fmt(":ch%d", c.ch), what + fmt(": pixel %zu,%zu channel %d value %.9g became %.9g, expected %.9g", i % w,
					i/w, c.ch, v, got, exp));
				return;
			}
		}
	vh::count("pixels", px.size());
	if (idx % 71 == 0)
		vh::sample(what);
	// An invalid image stays invalid.
	Image none;
	Texture::adjustImageValueRange(none, type, orig);
	VH_CHECK(!none.isValid(), "invalid", "adjusting an invalid image");
}

int main(int argc, char** argv)
{
	return vh::runMain(argc, argv, {{"C09", support}, {"C18", mipChains}, {"C19", lifecycle}, {"C20", copies}, {"C21", ranges}});
}
