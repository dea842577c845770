// Independent readers for the three texture containers, written from their specifications. They
// recover the channel layout from the header rather than from the library's format names.
#pragma once
#include "texgen.h"

namespace ref
{

struct FileTex
{
	std::string error;
	unsigned w = 0, h = 0, depth = 1, elements = 1, faces = 1, mips = 1;
	bool is1D = false, is3D = false, isCube = false, isArray = false, arrayKnown = true;
	bool srgb = false, premultiplied = false, alphaModeKnown = false;
	int alphaMode = -1;
	Layout l; // bytes and comps as described by the header
	T type = T::UNorm;
	bool sharedExp = false, packedFloat = false;
	struct Slice {size_t offset = 0; size_t rowStride = 0;};
	// [level][element or slice][face]
	std::vector<std::vector<std::vector<Slice>>> at;
};

struct Rd
{
	const std::vector<uint8_t>& d;
	size_t p = 0;
	bool bad = false;
	explicit Rd(const std::vector<uint8_t>& v) : d(v) {}
	uint32_t u32()
	{
		if (p + 4 > d.size()) {bad = true; return 0;}
		uint32_t v = d[p] | d[p + 1] << 8 | d[p + 2] << 16 | (uint32_t)d[p + 3] << 24;
		p += 4;
		return v;
	}
	uint64_t u64() {uint64_t a = u32(); return a | (uint64_t)u32() << 32;}
};

inline unsigned lvl(unsigned v, unsigned m) {return std::max(1u, v >> m);}

inline void setLayout(FileTex& f, unsigned bytes, std::vector<Comp> comps)
{
	f.l.bytes = bytes;
	f.l.comps = std::move(comps);
	f.l.name = "file";
	f.l.format = f.sharedExp ? F::E5B9G9R9_UFloat : f.packedFloat ? F::B10G11R11_UFloat : F::R8;
}

// ---- DDS ----

inline bool dxgi(FileTex& f, unsigned fmt)
{
	auto set = [&](unsigned bytes, std::vector<Comp> c, T t, bool srgb = false)
	{
		f.type = t;
		f.srgb = srgb;
		setLayout(f, bytes, std::move(c));
		return true;
	};
	std::vector<int> rgba{0, 1, 2, 3}, rgb{0, 1, 2}, rg{0, 1}, r{0};
	switch (fmt)
	{
		case 2: return set(16, arr(32, rgba), T::Float);
		case 3: return set(16, arr(32, rgba), T::UInt);
		case 4: return set(16, arr(32, rgba), T::Int);
		case 6: return set(12, arr(32, rgb), T::Float);
		case 7: return set(12, arr(32, rgb), T::UInt);
		case 8: return set(12, arr(32, rgb), T::Int);
		case 10: return set(8, arr(16, rgba), T::Float);
		case 11: return set(8, arr(16, rgba), T::UNorm);
		case 12: return set(8, arr(16, rgba), T::UInt);
		case 13: return set(8, arr(16, rgba), T::SNorm);
		case 14: return set(8, arr(16, rgba), T::Int);
		case 16: return set(8, arr(32, rg), T::Float);
		case 17: return set(8, arr(32, rg), T::UInt);
		case 18: return set(8, arr(32, rg), T::Int);
		case 24: return set(4, {{0, 10, 0}, {1, 10, 10}, {2, 10, 20}, {3, 2, 30}}, T::UNorm);
		case 25: return set(4, {{0, 10, 0}, {1, 10, 10}, {2, 10, 20}, {3, 2, 30}}, T::UInt);
		case 26: f.packedFloat = true; return set(4, {{0, 11, 0}, {1, 11, 11}, {2, 10, 22}}, T::UFloat);
		case 28: return set(4, arr(8, rgba), T::UNorm);
		case 29: return set(4, arr(8, rgba), T::UNorm, true);
		case 30: return set(4, arr(8, rgba), T::UInt);
		case 31: return set(4, arr(8, rgba), T::SNorm);
		case 32: return set(4, arr(8, rgba), T::Int);
		case 34: return set(4, arr(16, rg), T::Float);
		case 35: return set(4, arr(16, rg), T::UNorm);
		case 36: return set(4, arr(16, rg), T::UInt);
		case 37: return set(4, arr(16, rg), T::SNorm);
		case 38: return set(4, arr(16, rg), T::Int);
		case 41: return set(4, arr(32, r), T::Float);
		case 42: return set(4, arr(32, r), T::UInt);
		case 43: return set(4, arr(32, r), T::Int);
		case 49: return set(2, arr(8, rg), T::UNorm);
		case 50: return set(2, arr(8, rg), T::UInt);
		case 51: return set(2, arr(8, rg), T::SNorm);
		case 52: return set(2, arr(8, rg), T::Int);
		case 54: return set(2, arr(16, r), T::Float);
		case 56: return set(2, arr(16, r), T::UNorm);
		case 57: return set(2, arr(16, r), T::UInt);
		case 58: return set(2, arr(16, r), T::SNorm);
		case 59: return set(2, arr(16, r), T::Int);
		case 61: return set(1, arr(8, r), T::UNorm);
		case 62: return set(1, arr(8, r), T::UInt);
		case 63: return set(1, arr(8, r), T::SNorm);
		case 64: return set(1, arr(8, r), T::Int);
		case 67: f.sharedExp = true; return set(4, {{0, 9, 0}, {1, 9, 9}, {2, 9, 18}}, T::UFloat);
		case 85: return set(2, {{2, 5, 0}, {1, 6, 5}, {0, 5, 11}}, T::UNorm);
		case 86: return set(2, {{2, 5, 0}, {1, 5, 5}, {0, 5, 10}, {3, 1, 15}}, T::UNorm);
		case 87: return set(4, arr(8, {2, 1, 0, 3}), T::UNorm);
		case 91: return set(4, arr(8, {2, 1, 0, 3}), T::UNorm, true);
		case 112: return set(1, {{1, 4, 0}, {0, 4, 4}}, T::UNorm); // IA44, the only two-nibble format
		case 115: return set(2, {{2, 4, 0}, {1, 4, 4}, {0, 4, 8}, {3, 4, 12}}, T::UNorm);
		default: return false;
	}
}

inline FileTex readDds(const std::vector<uint8_t>& d)
{
	using vh::fmt;
	FileTex f;
	Rd r(d);
	auto fail = [&](const std::string& e) {f.error = e; return f;};
	if (r.u32() != 0x20534444) return fail("magic");
	if (r.u32() != 124) return fail("header size");
	uint32_t flags = r.u32(), height = r.u32(), width = r.u32(), pitch = r.u32(), depth = r.u32(), mips = r.u32();
	for (int i = 0; i < 11; ++i) if (r.u32() != 0) return fail("reserved1 not zero");
	if (r.u32() != 32) return fail("pixel format size");
	uint32_t pff = r.u32(), fourcc = r.u32();
	for (int i = 0; i < 5; ++i) r.u32();
	if (pff != 4 || fourcc != 0x30315844) return fail("not a DX10 file");
	uint32_t caps = r.u32(), caps2 = r.u32();
	r.u32(); r.u32(); r.u32();
	uint32_t fmtv = r.u32(), rdim = r.u32(), misc = r.u32(), asize = r.u32(), misc2 = r.u32();
	if (r.bad) return fail("truncated header");
	if (!dxgi(f, fmtv)) return fail(fmt("DXGI format %u unexpected", fmtv));
	if ((flags & 0x1007) != 0x1007) return fail(fmt("required header flags missing: %x", flags));
	if (mips > 1 && !(flags & 0x20000)) return fail("mip count flag missing");
	if (flags & 0x8)
	{
		if (pitch != (width*f.l.bytes*8 + 7)/8) return fail(fmt("pitch %u for width %u x %u bytes", pitch, width, f.l.bytes));
	}
	else if (!(flags & 0x80000)) return fail("neither pitch nor linear size");
	if (!(caps & 0x1000)) return fail("texture cap missing");
	if ((mips > 1) != !!(caps & 0x400000)) return fail("mipmap cap");
	bool complex = mips > 1 || rdim == 4 || (misc & 4) || asize > 1;
	if (complex && !(caps & 8)) return fail("complex cap missing");
	f.is3D = rdim == 4;
	f.is1D = rdim == 2;
	if (rdim < 2 || rdim > 4) return fail(fmt("resource dimension %u", rdim));
	f.isCube = (misc & 4) != 0;
	if (misc & ~4u) return fail("unknown misc flags");
	if (f.isCube != ((caps2 & 0xFE00) == 0xFE00)) return fail(fmt("cube caps2 %x", caps2));
	if (!f.isCube && (caps2 & 0xFE00)) return fail(fmt("cube caps2 %x on a non-cube", caps2));
	if (f.is3D != !!(caps2 & 0x200000)) return fail(fmt("volume caps2 %x", caps2));
	if (f.is3D != !!(flags & 0x800000)) return fail("depth flag");
	if (f.isCube && rdim != 3) return fail("cube map must be a 2D resource");
	f.w = width; f.h = height; f.mips = mips;
	f.depth = f.is3D ? depth : 1;
	f.elements = asize;
	if (f.is3D && asize != 1) return fail("3D array size");
	f.faces = f.isCube ? 6 : 1;
	f.arrayKnown = asize > 1; // an array of one is the same as no array
	f.isArray = asize > 1;
	f.alphaModeKnown = true;
	f.alphaMode = (int)(misc2 & 7);
	if (!mips || !asize || !width || !height || (f.is3D && !depth)) return fail("zero dimension");
	if (mips > 20 || (double)std::max(1u, asize)*std::max(1u, width)*std::max(1u, height)*std::max(1u, depth) > (1 << 26)) return fail("implausible dimensions");
	size_t off = r.p;
	f.at.resize(mips);
	for (unsigned e = 0; e < asize; ++e)
		for (unsigned fc = 0; fc < f.faces; ++fc)
			for (unsigned m = 0; m < mips; ++m)
			{
				unsigned slices = f.is3D ? lvl(depth, m) : 1;
				f.at[m].resize(f.is3D ? slices : asize);
				for (unsigned z = 0; z < slices; ++z)
				{
					auto& v = f.at[m][f.is3D ? z : e];
					v.resize(f.faces);
					v[fc].offset = off;
					v[fc].rowStride = (size_t)lvl(width, m)*f.l.bytes;
					off += v[fc].rowStride*lvl(height, m);
				}
			}
	if (off != d.size()) return fail(fmt("%zu bytes described, file has %zu", off, d.size()));
	return f;
}

// ---- KTX ----

struct GlInternal {uint32_t id; unsigned comps; unsigned bits; T type; bool srgb; bool integer;};

inline const GlInternal* glInternal(uint32_t id)
{
	static const GlInternal t[] = {
		{0x8056, 4, 4, T::UNorm, false, false}, {0x8057, 4, 5, T::UNorm, false, false}, {0x8D62, 3, 6, T::UNorm, false, false},
		{0x8229, 1, 8, T::UNorm, false, false}, {0x822B, 2, 8, T::UNorm, false, false}, {0x8051, 3, 8, T::UNorm, false, false},
		{0x8058, 4, 8, T::UNorm, false, false}, {0x8C41, 3, 8, T::UNorm, true, false}, {0x8C43, 4, 8, T::UNorm, true, false},
		{0x8F94, 1, 8, T::SNorm, false, false}, {0x8F95, 2, 8, T::SNorm, false, false}, {0x8F96, 3, 8, T::SNorm, false, false},
		{0x8F97, 4, 8, T::SNorm, false, false}, {0x8232, 1, 8, T::UInt, false, true}, {0x8238, 2, 8, T::UInt, false, true},
		{0x8D7D, 3, 8, T::UInt, false, true}, {0x8D7C, 4, 8, T::UInt, false, true}, {0x8231, 1, 8, T::Int, false, true},
		{0x8237, 2, 8, T::Int, false, true}, {0x8D8F, 3, 8, T::Int, false, true}, {0x8D8E, 4, 8, T::Int, false, true},
		{0x8059, 4, 10, T::UNorm, false, false}, {0x906F, 4, 10, T::UInt, false, true},
		{0x822A, 1, 16, T::UNorm, false, false}, {0x822C, 2, 16, T::UNorm, false, false}, {0x8054, 3, 16, T::UNorm, false, false},
		{0x805B, 4, 16, T::UNorm, false, false}, {0x8F98, 1, 16, T::SNorm, false, false}, {0x8F99, 2, 16, T::SNorm, false, false},
		{0x8F9A, 3, 16, T::SNorm, false, false}, {0x8F9B, 4, 16, T::SNorm, false, false}, {0x8234, 1, 16, T::UInt, false, true},
		{0x823A, 2, 16, T::UInt, false, true}, {0x8D77, 3, 16, T::UInt, false, true}, {0x8D76, 4, 16, T::UInt, false, true},
		{0x8233, 1, 16, T::Int, false, true}, {0x8239, 2, 16, T::Int, false, true}, {0x8D89, 3, 16, T::Int, false, true},
		{0x8D88, 4, 16, T::Int, false, true}, {0x822D, 1, 16, T::Float, false, false}, {0x822F, 2, 16, T::Float, false, false},
		{0x881B, 3, 16, T::Float, false, false}, {0x881A, 4, 16, T::Float, false, false}, {0x8236, 1, 32, T::UInt, false, true},
		{0x823C, 2, 32, T::UInt, false, true}, {0x8D71, 3, 32, T::UInt, false, true}, {0x8D70, 4, 32, T::UInt, false, true},
		{0x8235, 1, 32, T::Int, false, true}, {0x823B, 2, 32, T::Int, false, true}, {0x8D83, 3, 32, T::Int, false, true},
		{0x8D82, 4, 32, T::Int, false, true}, {0x822E, 1, 32, T::Float, false, false}, {0x8230, 2, 32, T::Float, false, false},
		{0x8815, 3, 32, T::Float, false, false}, {0x8814, 4, 32, T::Float, false, false},
		{0x8C3A, 3, 11, T::UFloat, false, false}, {0x8C3D, 3, 9, T::UFloat, false, false}};
	for (auto& x : t)
		if (x.id == id)
			return &x;
	return nullptr;
}

// What glTexImage would make of (format, type) on a little-endian machine.
inline bool glLayout(FileTex& f, uint32_t format, uint32_t type, bool& integer, T& kind)
{
	std::vector<int> order;
	integer = false;
	switch (format)
	{
		case 0x8D94: integer = true; // fall through
		case 0x1903: order = {0}; break;
		case 0x8228: integer = true; // fall through
		case 0x8227: order = {0, 1}; break;
		case 0x8D98: integer = true; // fall through
		case 0x1907: order = {0, 1, 2}; break;
		case 0x8D9A: integer = true; // fall through
		case 0x80E0: order = {2, 1, 0}; break;
		case 0x8D99: integer = true; // fall through
		case 0x1908: order = {0, 1, 2, 3}; break;
		case 0x8D9B: integer = true; // fall through
		case 0x80E1: order = {2, 1, 0, 3}; break;
		default: return false;
	}
	unsigned n = (unsigned)order.size();
	auto simple = [&](unsigned bits) {setLayout(f, n*bits/8, arr(bits, order)); return true;};
	// Widths from the first component; rev puts it in the lowest bits.
	auto packed = [&](unsigned bytes, std::vector<unsigned> bits, bool rev)
	{
		if (bits.size() != n) return false;
		std::vector<Comp> c;
		unsigned s = rev ? 0 : bytes*8;
		for (unsigned i = 0; i < n; ++i)
		{
			if (!rev) s -= bits[i];
			c.push_back(Comp{order[i], bits[i], s});
			if (rev) s += bits[i];
		}
		setLayout(f, bytes, c);
		return true;
	};
	kind = integer ? T::UInt : T::UNorm;
	switch (type)
	{
		case 0x1400: kind = integer ? T::Int : T::SNorm; return simple(8);
		case 0x1401: return simple(8);
		case 0x1402: kind = integer ? T::Int : T::SNorm; return simple(16);
		case 0x1403: return simple(16);
		case 0x1404: kind = integer ? T::Int : T::SNorm; return simple(32);
		case 0x1405: return simple(32);
		case 0x1406: kind = T::Float; return !integer && simple(32);
		case 0x140B: kind = T::Float; return !integer && simple(16);
		case 0x8033: return packed(2, {4, 4, 4, 4}, false);
		case 0x8365: return packed(2, {4, 4, 4, 4}, true);
		case 0x8034: return packed(2, {5, 5, 5, 1}, false);
		case 0x8366: return packed(2, {5, 5, 5, 1}, true);
		case 0x8363: return packed(2, {5, 6, 5}, false);
		case 0x8364: return packed(2, {5, 6, 5}, true);
		case 0x8035: return packed(4, {8, 8, 8, 8}, false);
		case 0x8367: return packed(4, {8, 8, 8, 8}, true);
		case 0x8368: return packed(4, {10, 10, 10, 2}, true);
		case 0x8036: return packed(4, {10, 10, 10, 2}, false);
		case 0x8C3B: kind = T::UFloat; f.packedFloat = true; return !integer && format == 0x1907 && packed(4, {11, 11, 10}, true);
		case 0x8C3E: kind = T::UFloat; f.sharedExp = true; return !integer && format == 0x1907 &&
			(setLayout(f, 4, {{0, 9, 0}, {1, 9, 9}, {2, 9, 18}}), true);
		default: return false;
	}
}

inline FileTex readKtx(const std::vector<uint8_t>& d)
{
	using vh::fmt;
	FileTex f;
	Rd r(d);
	auto fail = [&](const std::string& e) {f.error = e; return f;};
	static const uint8_t ident[12] = {0xAB, 0x4B, 0x54, 0x58, 0x20, 0x31, 0x31, 0xBB, 0x0D, 0x0A, 0x1A, 0x0A};
	if (d.size() < 64 || std::memcmp(d.data(), ident, 12)) return fail("identifier");
	r.p = 12;
	if (r.u32() != 0x04030201) return fail("endianness");
	uint32_t glType = r.u32(), typeSize = r.u32(), glFormat = r.u32(), internal = r.u32(), base = r.u32();
	uint32_t w = r.u32(), h = r.u32(), dep = r.u32(), elems = r.u32(), faces = r.u32(), mips = r.u32(), kv = r.u32();
	const GlInternal* gi = glInternal(internal);
	if (!gi) return fail(fmt("internal format %x", internal));
	bool integer;
	T kind;
	if (!glLayout(f, glFormat, glType, integer, kind)) return fail(fmt("glFormat %x with glType %x", glFormat, glType));
	if (integer != gi->integer) return fail(fmt("glFormat %x does not match internal format %x", glFormat, internal));
	if (kind != gi->type) return fail(fmt("glType %x does not match internal format %x", glType, internal));
	f.type = gi->type;
	f.srgb = gi->srgb;
	if (f.l.comps.size() != gi->comps) return fail(fmt("%zu components in glFormat, %u in internal format", f.l.comps.size(), gi->comps));
	unsigned maxBits = 0;
	for (auto& c : f.l.comps) maxBits = std::max(maxBits, c.bits);
	if (maxBits != gi->bits) return fail(fmt("%u bits in data, %u in internal format %x", maxBits, gi->bits, internal));
	unsigned ts = glType == 0x1400 || glType == 0x1401 ? 1 : glType == 0x1402 || glType == 0x1403 || glType == 0x140B ||
		glType == 0x8033 || glType == 0x8034 || glType == 0x8365 || glType == 0x8366 || glType == 0x8363 || glType == 0x8364 ? 2 : 4;
	if (typeSize != ts) return fail(fmt("glTypeSize %u for glType %x", typeSize, glType));
	bool baseOk = gi->comps == 1 ? base == 0x1903 || base == 0x1909 : gi->comps == 2 ? base == 0x8227 || base == 0x190A :
		gi->comps == 3 ? base == 0x1907 || base == 0x80E0 : base == 0x1908 || base == 0x80E1;
	if (!baseOk) return fail(fmt("base internal format %x", base));
	f.w = w;
	f.is1D = h == 0;
	f.h = std::max(1u, h);
	f.is3D = dep != 0;
	f.depth = std::max(1u, dep);
	f.isArray = elems != 0;
	f.elements = std::max(1u, elems);
	f.faces = faces;
	f.isCube = faces == 6;
	f.mips = mips;
	if (faces != 1 && faces != 6) return fail("faces");
	if (kv) return fail("unexpected key/value data");
	if (!w || !mips || mips > 20 || (double)std::max(1u, elems)*w*std::max(1u, h)*std::max(1u, dep) > (1 << 26)) return fail("implausible dimensions");
	size_t off = 64;
	f.at.resize(mips);
	for (unsigned m = 0; m < mips; ++m)
	{
		if (off + 4 > d.size()) return fail(fmt("file ends before level %u", m));
		r.p = off;
		uint32_t size = r.u32();
		off += 4;
		size_t row = ((size_t)lvl(w, m)*f.l.bytes + 3)/4*4, face = row*lvl(f.h, m);
		unsigned slices = f.is3D ? lvl(dep, m) : 1;
		uint64_t want = f.isCube && !f.isArray ? face : (uint64_t)face*slices*f.elements*faces;
		if (size != want) return fail(fmt("level %u image size %u, expected %llu", m, size, (unsigned long long)want));
		unsigned n = f.is3D ? slices : f.elements;
		f.at[m].resize(n);
		for (unsigned e = 0; e < n; ++e)
			for (unsigned fc = 0; fc < faces; ++fc)
			{
				f.at[m][e].resize(faces);
				f.at[m][e][fc] = {off, row};
				// Padding must be there, and be defined.
				for (unsigned y = 0; y < lvl(f.h, m); ++y)
					for (size_t b = (size_t)lvl(w, m)*f.l.bytes; b < row; ++b)
						if (off + y*row + b < d.size() && d[off + y*row + b] != 0)
							return fail(fmt("row padding byte %02x", d[off + y*row + b]));
				off += face;
			}
	}
	if (off != d.size()) return fail(fmt("%zu bytes described, file has %zu", off, d.size()));
	return f;
}

// ---- PVR ----

inline FileTex readPvr(const std::vector<uint8_t>& d)
{
	using vh::fmt;
	FileTex f;
	Rd r(d);
	auto fail = [&](const std::string& e) {f.error = e; return f;};
	if (r.u32() != 0x03525650) return fail("version");
	uint32_t flags = r.u32();
	uint64_t pf = r.u64();
	uint32_t cs = r.u32(), ct = r.u32(), h = r.u32(), w = r.u32(), dep = r.u32(), surf = r.u32(), faces = r.u32(), mips = r.u32(),
		meta = r.u32();
	if (r.bad) return fail("truncated header");
	if (flags & ~2u) return fail(fmt("flags %x", flags));
	f.premultiplied = (flags & 2) != 0;
	if (cs > 1) return fail("colour space");
	f.srgb = cs == 1;
	if (pf >> 32)
	{
		unsigned total = 0;
		std::vector<std::pair<int, unsigned>> ch;
		bool ended = false;
		for (int i = 0; i < 4; ++i)
		{
			char c = (char)(pf >> (8*i));
			unsigned bits = (unsigned)(pf >> (32 + 8*i)) & 0xFF;
			if ((c == 0) != (bits == 0)) return fail("pixel format");
			if (!c) {ended = true; continue;}
			if (ended) return fail("pixel format has a gap");
			int id = c == 'r' ? 0 : c == 'g' ? 1 : c == 'b' ? 2 : c == 'a' ? 3 : -1;
			if (id < 0) return fail("pixel format channel");
			for (auto& o : ch) if (o.first == id) return fail("pixel format channel repeated");
			ch.push_back({id, bits});
			total += bits;
		}
		if (total % 8) return fail("pixel format bits");
		bool whole = true;
		for (auto& c : ch) whole = whole && c.second == ch[0].second && c.second % 8 == 0;
		std::vector<Comp> comps;
		unsigned s = whole ? 0 : total;
		for (auto& c : ch)
		{
			// Whole-byte channels are in memory order, packed pixels start at the most significant bit.
			if (!whole) s -= c.second;
			comps.push_back(Comp{c.first, c.second, s});
			if (whole) s += c.second;
		}
		unsigned big = 0;
		for (auto& c : ch) big = std::max(big, c.second);
		static const T types[] = {T::UNorm, T::SNorm, T::UInt, T::Int, T::UNorm, T::SNorm, T::UInt, T::Int, T::UNorm, T::SNorm,
			T::UInt, T::Int, T::Float, T::UFloat};
		if (ct > 13) return fail("channel type");
		f.type = types[ct];
		unsigned word = whole ? ch[0].second : total;
		if (ct < 12 && (ct < 4 ? 8u : ct < 8 ? 16u : 32u) != word)
			return fail(fmt("channel type %u for %u-bit words", ct, word));
		if (ct == 13) f.packedFloat = big == 11;
		setLayout(f, total/8, comps);
	}
	else if (pf == 19)
	{
		f.sharedExp = true;
		f.type = T::UFloat;
		if (ct != 12 && ct != 13) return fail(fmt("shared exponent channel type %u", ct));
		setLayout(f, 4, {{0, 9, 0}, {1, 9, 9}, {2, 9, 18}});
	}
	else
		return fail(fmt("pixel format id %llu", (unsigned long long)pf));
	size_t end = r.p + meta;
	if (end > d.size()) return fail("metadata beyond the file");
	while (r.p < end)
	{
		uint32_t cc = r.u32(), key = r.u32(), size = r.u32();
		if (r.bad || r.p + size > end) return fail("metadata block");
		if (cc != 0x53465443) return fail("metadata owner");
		if (size != 4 || r.u32() != 0) return fail("metadata data");
		if (key == 0x59525241) {if (f.isArray) return fail("metadata repeated"); f.isArray = true;}
		else if (key == 0x314D4944) {if (f.is1D) return fail("metadata repeated"); f.is1D = true;}
		else return fail(fmt("metadata key %x", key));
	}
	if (r.p != end) return fail("metadata size");
	f.w = w; f.h = h; f.depth = dep; f.elements = surf; f.faces = faces; f.mips = mips;
	f.is3D = dep > 1;
	f.isCube = faces == 6;
	if (faces != 1 && faces != 6) return fail("faces");
	if (!w || !h || !dep || !surf || !mips || mips > 20 || (double)surf*w*h*dep > (1 << 26)) return fail("implausible dimensions");
	size_t off = end;
	f.at.resize(mips);
	for (unsigned m = 0; m < mips; ++m)
	{
		unsigned slices = lvl(dep, m);
		if (dep > 1 && surf > 1) return fail("array of volumes");
		unsigned n = dep > 1 ? slices : surf;
		f.at[m].resize(n);
		for (unsigned e = 0; e < n; ++e)
			for (unsigned fc = 0; fc < faces; ++fc)
			{
				f.at[m][e].resize(faces);
				f.at[m][e][fc] = {off, (size_t)lvl(w, m)*f.l.bytes};
				off += (size_t)lvl(w, m)*f.l.bytes*lvl(h, m);
			}
	}
	if (off != d.size()) return fail(fmt("%zu bytes described, file has %zu", off, d.size()));
	return f;
}

// Compares what a reader recovered with what was put in. Empty when they agree.
inline std::string compareFile(const FileTex& f, const TexSpec& s, const Surfaces& px, const std::vector<uint8_t>& d, int container)
{
	using vh::fmt;
	if (!f.error.empty()) return "header: " + f.error;
	bool is3D = s.dim == Texture::Dimension::Dim3D, is1D = s.dim == Texture::Dimension::Dim1D, cube = s.dim == Texture::Dimension::Cube;
	if (f.w != s.w || f.h != s.h) return fmt("size: file says %ux%u", f.w, f.h);
	if (f.mips != s.mips) return fmt("mips: file says %u", f.mips);
	if (f.faces != s.faces() || f.isCube != cube) return fmt("faces: file says %u", f.faces);
	if (f.is1D != is1D) return "dim: 1D flag";
	if (container == 2 ? f.depth != (is3D ? s.ld(0) : 1) : (f.is3D != is3D || (is3D && f.depth != s.ld(0))))
		return fmt("depth: file says %u", f.depth);
	if (f.elements != (is3D ? 1 : s.ld(0))) return fmt("array: file says %u elements", f.elements);
	if (f.arrayKnown && f.isArray != s.array()) return fmt("array: file says %d", f.isArray);
	if (f.srgb != (s.cs == ColorSpace::sRGB)) return fmt("colourspace: file says %s", f.srgb ? "sRGB" : "linear");
	if (f.type != s.type) return std::string("type: file says ") + typeName(f.type);
	if (f.l.bytes != s.l->bytes) return fmt("layout: %u bytes per pixel", f.l.bytes);
	if (f.alphaModeKnown)
	{
		int want = !s.l->alpha || s.alpha == Texture::Alpha::None ? 3 : s.alpha == Texture::Alpha::Standard ? 1 :
			s.alpha == Texture::Alpha::PreMultiplied ? 2 : 4;
		if (f.alphaMode != want) return fmt("alphamode: %d instead of %d", f.alphaMode, want);
	}
	if (container == 2 && s.l->alpha && f.premultiplied != (s.alpha == Texture::Alpha::PreMultiplied))
		return fmt("alphamode: premultiplied %d", f.premultiplied);
	auto sorted = [](std::vector<Comp> c) {std::sort(c.begin(), c.end(), [](const Comp& a, const Comp& b) {return a.ch < b.ch;}); return c;};
	auto a = sorted(f.l.comps), b = sorted(s.l->comps);
	bool same = a.size() == b.size();
	for (size_t i = 0; same && i < a.size(); ++i)
		same = a[i].ch == b[i].ch && a[i].bits == b[i].bits && a[i].shift == b[i].shift;
	if (!same)
	{
		std::string t;
		for (auto& c : f.l.comps) t += fmt("%c%u@%u ", "rgba"[c.ch], c.bits, c.shift);
		return "layout: file says " + t;
	}
	for (unsigned m = 0; m < s.mips; ++m)
		for (unsigned z = 0; z < s.ld(m); ++z)
			for (unsigned fc = 0; fc < s.faces(); ++fc)
			{
				vh::eval();
				if (z >= f.at[m].size()) return fmt("payload: level %u has no slice %u", m, z);
				const FileTex::Slice& sl = f.at[m][z][fc];
				std::string e = checkSurf(f.l, f.type, px[m][z][fc], d.data() + sl.offset, sl.rowStride);
				if (!e.empty()) return fmt("payload: level %u slice %u face %u %s", m, z, fc, e.c_str());
			}
	return "";
}

} // namespace ref
