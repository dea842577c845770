// Images written by hand, with the colours they stand for: independent of what the library saves.
#pragma once
#include "vh.h"
#include <array>
#include <cmath>
#include <cstring>
#include <map>
#include <string>
#include <vector>

namespace coded
{
using vh::Rng;
using vh::fmt;

struct Coded
{
	std::string ext, what;
	std::vector<uint8_t> d;
	unsigned w = 0, h = 0;
	bool alpha = false;
	std::vector<double> px; // r, g, b, a in 0..1
	bool gray = false;
	unsigned depth = 8;     // bits that the loaded format needs
	bool real = false;      // holds floating-point values: only a floating-point format will do
	bool mayFail = false;   // no image format can hold it as it is
	bool anyAlpha = false;  // readers disagree about the fourth channel
	double tol = 1e-6;
};

struct Bytes
{
	std::vector<uint8_t>& d;
	bool big;
	void u8(unsigned v) {d.push_back((uint8_t)v);}
	void u16(unsigned v) {if (big) {u8(v >> 8); u8(v);} else {u8(v); u8(v >> 8);}}
	void u32(uint32_t v) {if (big) {u16(v >> 16); u16(v & 0xFFFF);} else {u16(v & 0xFFFF); u16(v >> 16);}}
	void f32(float f) {uint32_t v; std::memcpy(&v, &f, 4); u32(v);}
};

inline void put(Coded& c, unsigned x, unsigned y, double r, double g, double b, double a)
{
	double* o = &c.px[((size_t)y*c.w + x)*4];
	o[0] = r; o[1] = g; o[2] = b; o[3] = a;
}

// A palette of n colours: anything, a grey ramp, or a grey ramp the wrong way round.
inline std::vector<std::array<uint8_t, 3>> somePalette(Rng& rng, unsigned n, bool& gray, const char*& kind)
{
	std::vector<std::array<uint8_t, 3>> pal(n);
	unsigned k = (unsigned)rng.below(3);
	kind = k == 0 ? "colours" : k == 1 ? "ramp" : "inverse";
	gray = k != 0;
	for (unsigned i = 0; i < n; ++i)
		for (unsigned c = 0; c < 3; ++c)
		{
			unsigned v = i*255/(n - 1);
			pal[i][c] = (uint8_t)(k == 0 ? rng.below(256) : k == 1 ? v : 255 - v);
		}
	if (k == 0) pal[0] = {{200, 3, 77}};
	return pal;
}

inline void packBits(std::vector<uint8_t>& row, unsigned x, unsigned bits, unsigned v)
{
	unsigned bit = x*bits;
	if (bits == 16) {row[x*2] = (uint8_t)(v >> 8); row[x*2 + 1] = (uint8_t)v;}
	else row[bit/8] |= (uint8_t)(v << (8 - bits - bit % 8));
}

inline Coded codedBmp(Rng& rng, unsigned w, unsigned h)
{
	Coded c;
	c.ext = "bmp"; c.w = w; c.h = h; c.px.resize((size_t)w*h*4);
	static const unsigned bs[] = {1, 4, 8};
	unsigned bits = rng.pick(bs), n = 1u << bits;
	const char* kind;
	auto pal = somePalette(rng, n, c.gray, kind);
	bool down = rng.chance(0.3);
	c.what = fmt("%u-bit %s%s BMP", bits, kind, down ? " top-down" : "");
	unsigned row = (w*bits + 31)/32*4;
	auto& d = c.d;
	auto u16 = [&](unsigned v) {d.push_back((uint8_t)v); d.push_back((uint8_t)(v >> 8));};
	auto u32 = [&](unsigned v) {u16(v & 0xFFFF); u16(v >> 16);};
	unsigned off = 54 + n*4;
	d.push_back('B'); d.push_back('M');
	u32(off + row*h); u32(0); u32(off);
	u32(40); u32(w); u32(down ? 0u - h : h); u16(1); u16(bits); u32(0); u32(row*h); u32(2835); u32(2835); u32(n); u32(n);
	for (auto& p : pal) {d.push_back(p[2]); d.push_back(p[1]); d.push_back(p[0]); d.push_back(0);}
	for (unsigned y = 0; y < h; ++y)
	{
		std::vector<uint8_t> r(row, 0);
		for (unsigned x = 0; x < w; ++x)
		{
			unsigned v = (unsigned)rng.below(n);
			packBits(r, x, bits, v);
			put(c, x, down ? y : h - 1 - y, pal[v][0]/255.0, pal[v][1]/255.0, pal[v][2]/255.0, 1);
		}
		d.insert(d.end(), r.begin(), r.end());
	}
	return c;
}

inline Coded codedPng(Rng& rng, unsigned w, unsigned h)
{
	Coded c;
	c.ext = "png"; c.w = w; c.h = h; c.px.resize((size_t)w*h*4);
	static const unsigned types[] = {0, 0, 2, 3, 3, 3, 4, 6};
	unsigned type = rng.pick(types);
	static const unsigned small[] = {1, 2, 4, 8}, any[] = {1, 2, 4, 8, 16};
	unsigned bits = type == 0 ? rng.pick(any) : type == 3 ? rng.pick(small) : rng.chance(0.5) ? 8 : 16;
	unsigned comps = type == 0 || type == 3 ? 1 : type == 2 ? 3 : type == 4 ? 2 : 4;
	unsigned n = 1u << bits;
	std::vector<std::array<uint8_t, 3>> pal;
	std::vector<uint8_t> trns;
	const char* kind = "";
	if (type == 3)
	{
		pal = somePalette(rng, n, c.gray, kind);
		// Transparency of grey palettes has no format to go to.
		if (!c.gray && rng.chance(0.5))
		{
			trns.resize(1 + rng.below(n));
			for (auto& t : trns) t = (uint8_t)rng.below(256);
			trns[0] = 100;
		}
	}
	else
		c.gray = type == 0;
	c.alpha = type == 4 || type == 6 || !trns.empty();
	c.depth = bits == 16 ? 16 : 8;
	c.what = fmt("PNG colour type %u of %u bits%s%s%s", type, bits, *kind ? " " : "", kind, trns.empty() ? "" : " with transparency");
	std::vector<uint8_t> raw;
	unsigned bytes = (w*comps*bits + 7)/8, bpp = std::max(1u, comps*bits/8);
	std::vector<uint8_t> prev(bytes, 0);
	for (unsigned y = 0; y < h; ++y)
	{
		std::vector<uint8_t> r(bytes, 0);
		for (unsigned x = 0; x < w; ++x)
		{
			unsigned v[4];
			double e[4];
			for (unsigned k = 0; k < comps; ++k)
			{
				v[k] = (unsigned)rng.below(n);
				packBits(r, x*comps + k, bits, v[k]);
				e[k] = (double)v[k]/(n - 1);
			}
			switch (type)
			{
				case 0: put(c, x, y, e[0], e[0], e[0], 1); break;
				case 2: put(c, x, y, e[0], e[1], e[2], 1); break;
				case 3: put(c, x, y, pal[v[0]][0]/255.0, pal[v[0]][1]/255.0, pal[v[0]][2]/255.0,
					v[0] < trns.size() ? trns[v[0]]/255.0 : 1); break;
				case 4: put(c, x, y, e[0], e[0], e[0], e[1]); break;
				default: put(c, x, y, e[0], e[1], e[2], e[3]); break;
			}
		}
		unsigned filter = (unsigned)rng.below(5);
		raw.push_back((uint8_t)filter);
		for (unsigned i = 0; i < bytes; ++i)
		{
			int a = i >= bpp ? r[i - bpp] : 0, u = prev[i], ul = i >= bpp ? prev[i - bpp] : 0, p = 0;
			if (filter == 1) p = a;
			else if (filter == 2) p = u;
			else if (filter == 3) p = (a + u)/2;
			else if (filter == 4)
			{
				int q = a + u - ul, da = std::abs(q - a), db = std::abs(q - u), dc = std::abs(q - ul);
				p = da <= db && da <= dc ? a : db <= dc ? u : ul;
			}
			raw.push_back((uint8_t)(r[i] - p));
		}
		prev = r;
	}
	// Deflate without compression.
	std::vector<uint8_t> z{0x78, 0x01};
	size_t pos = 0;
	do
	{
		size_t k = std::min<size_t>(raw.size() - pos, 1 + rng.below(65535));
		z.push_back(pos + k == raw.size());
		z.push_back((uint8_t)k); z.push_back((uint8_t)(k >> 8)); z.push_back((uint8_t)~k); z.push_back((uint8_t)(~k >> 8));
		z.insert(z.end(), raw.begin() + (long)pos, raw.begin() + (long)(pos + k));
		pos += k;
	} while (pos < raw.size());
	uint32_t s1 = 1, s2 = 0;
	for (auto b : raw) {s1 = (s1 + b) % 65521; s2 = (s2 + s1) % 65521;}
	auto be32 = [](std::vector<uint8_t>& o, uint32_t v) {for (int k = 24; k >= 0; k -= 8) o.push_back((uint8_t)(v >> k));};
	be32(z, s2 << 16 | s1);
	auto chunk = [&](const char* name, const std::vector<uint8_t>& data)
	{
		be32(c.d, (uint32_t)data.size());
		std::vector<uint8_t> t(name, name + 4);
		t.insert(t.end(), data.begin(), data.end());
		uint32_t crc = ~0u;
		for (auto b : t)
		{
			crc ^= b;
			for (int k = 0; k < 8; ++k) crc = crc >> 1 ^ (crc & 1 ? 0xEDB88320u : 0);
		}
		c.d.insert(c.d.end(), t.begin(), t.end());
		be32(c.d, ~crc);
	};
	c.d = {0x89, 'P', 'N', 'G', 13, 10, 26, 10};
	std::vector<uint8_t> hd;
	be32(hd, w); be32(hd, h);
	hd.push_back((uint8_t)bits); hd.push_back((uint8_t)type); hd.insert(hd.end(), 3, 0);
	chunk("IHDR", hd);
	if (type == 3)
	{
		std::vector<uint8_t> p;
		for (auto& e : pal) p.insert(p.end(), e.begin(), e.end());
		chunk("PLTE", p);
		if (!trns.empty()) chunk("tRNS", trns);
	}
	if (z.size() > 10 && rng.chance(0.5))
	{
		long cut = 1 + (long)rng.below(z.size() - 1);
		chunk("IDAT", std::vector<uint8_t>(z.begin(), z.begin() + cut));
		chunk("IDAT", std::vector<uint8_t>(z.begin() + cut, z.end()));
	}
	else
		chunk("IDAT", z);
	chunk("IEND", {});
	return c;
}

// Bytes in runs and literals, as PackBits and (with another coding of the counts) TGA have them.
inline std::vector<uint8_t> packRuns(Rng& rng, const std::vector<uint8_t>& in, unsigned unit, bool tga)
{
	std::vector<uint8_t> o;
	size_t n = in.size()/unit, i = 0;
	auto same = [&](size_t a, size_t b) {return !std::memcmp(&in[a*unit], &in[b*unit], unit);};
	while (i < n)
	{
		size_t run = 1;
		while (i + run < n && run < 128 && same(i, i + run)) ++run;
		if (run > 1 || (tga && rng.chance(0.1)))
		{
			o.push_back((uint8_t)(tga ? 0x80 | (run - 1) : 257 - run));
			o.insert(o.end(), in.begin() + (long)(i*unit), in.begin() + (long)((i + 1)*unit));
			i += run;
		}
		else
		{
			size_t k = std::min<size_t>(n - i, 1 + rng.below(128));
			o.push_back((uint8_t)(k - 1));
			o.insert(o.end(), in.begin() + (long)(i*unit), in.begin() + (long)((i + k)*unit));
			i += k;
		}
	}
	return o;
}

inline Coded codedTiff(Rng& rng, unsigned w, unsigned h)
{
	Coded c;
	c.ext = "tif"; c.w = w; c.h = h; c.px.resize((size_t)w*h*4);
	// Photometric interpretation: 0 white is zero, 1 black is zero, 2 RGB, 3 palette.
	unsigned photo = (unsigned)rng.below(4);
	static const unsigned grayBits[] = {1, 4, 8, 8, 16, 32}, colorBits[] = {8, 16, 32}, palBits[] = {1, 4, 8}, whiteBits[] = {1, 4, 8};
	unsigned bits = photo == 0 ? rng.pick(whiteBits) : photo == 1 ? rng.pick(grayBits) : photo == 2 ? rng.pick(colorBits) :
		rng.pick(palBits);
	bool alpha = photo == 2 && rng.chance(0.4);
	unsigned comps = photo == 2 ? alpha ? 4 : 3 : 1;
	unsigned n = bits <= 16 ? 1u << bits : 0;
	bool big = rng.chance(0.4), pack = rng.chance(0.3);
	unsigned rows = rng.chance(0.5) ? h : 1 + (unsigned)rng.below(h);
	c.gray = photo < 2;
	c.alpha = alpha;
	c.depth = bits == 16 ? 16 : 8;
	c.real = bits == 32;
	c.what = fmt("%u-bit TIFF %s%s%s%s", bits, photo == 0 ? "with 0 as white" : photo == 1 ? "with 0 as black" : photo == 2 ?
		"in colour" : "with a palette", alpha ? " and alpha" : "", big ? " big endian" : "", pack ? " packed" : "");
	std::vector<std::array<uint8_t, 3>> pal;
	const char* kind = "";
	if (photo == 3) {pal = somePalette(rng, n, c.gray, kind); c.what += std::string(" ") + kind;}
	auto& d = c.d;
	Bytes b{d, big};
	d = {(uint8_t)(big ? 'M' : 'I'), (uint8_t)(big ? 'M' : 'I')};
	b.u16(42);
	b.u32(0); // where the directory is
	unsigned row = (w*bits*comps + 7)/8;
	std::vector<uint32_t> offs, sizes;
	std::vector<uint8_t> strip;
	for (unsigned y = 0; y < h; ++y)
	{
		std::vector<uint8_t> r;
		if (bits < 8) r.resize(row, 0);
		Bytes rb{r, big};
		bool flat = rng.chance(0.3);
		unsigned v[4] = {};
		float f[4] = {};
		for (unsigned x = 0; x < w; ++x)
		{
			double e[4] = {0, 0, 0, 1};
			for (unsigned k = 0; k < comps; ++k)
			{
				if (!flat || !x)
				{
					v[k] = n ? (unsigned)rng.below(n) : 0;
					f[k] = (float)rng.uniform(-3, 10);
				}
				if (bits < 8) packBits(r, x*comps + k, bits, v[k]);
				else if (bits == 8) rb.u8(v[k]);
				else if (bits == 16) rb.u16(v[k]);
				else rb.f32(f[k]);
				e[k] = n ? (double)v[k]/(n - 1) : f[k];
			}
			if (photo == 3) put(c, x, y, pal[v[0]][0]/255.0, pal[v[0]][1]/255.0, pal[v[0]][2]/255.0, 1);
			else if (photo == 2) put(c, x, y, e[0], e[1], e[2], e[3]);
			else
			{
				double g = photo == 0 ? 1 - e[0] : e[0];
				put(c, x, y, g, g, g, 1);
			}
		}
		if (y % rows == 0) offs.push_back((uint32_t)strip.size());
		std::vector<uint8_t> o = pack ? packRuns(rng, r, 1, false) : r;
		strip.insert(strip.end(), o.begin(), o.end());
		if (y % rows == rows - 1 || y == h - 1) sizes.push_back((uint32_t)strip.size() - offs.back());
	}
	uint32_t base = (uint32_t)d.size();
	d.insert(d.end(), strip.begin(), strip.end());
	if (d.size() % 2) d.push_back(0);
	auto table = [&](const std::vector<uint32_t>& t, bool wide, uint32_t add) -> uint32_t
	{
		if (t.size() == 1) return t[0] + add;
		uint32_t at = (uint32_t)d.size();
		for (auto x : t) {if (wide) b.u32(x + add); else b.u16(x + add);}
		if (d.size() % 2) d.push_back(0);
		return at;
	};
	struct E {unsigned tag, type, count; uint32_t value; bool direct;};
	std::vector<E> es;
	auto one = [&](unsigned tag, unsigned type, uint32_t v) {es.push_back({tag, type, 1, v, true});};
	one(256, 4, w); one(257, 4, h);
	if (comps == 1) one(258, 3, bits);
	else es.push_back({258, 3, comps, table(std::vector<uint32_t>(comps, bits), false, 0), false});
	one(259, 3, pack ? 32773 : 1);
	one(262, 3, photo);
	es.push_back({273, 4, (unsigned)offs.size(), table(offs, true, base), offs.size() == 1});
	one(277, 3, comps);
	one(278, 4, rows);
	es.push_back({279, 4, (unsigned)sizes.size(), table(sizes, true, 0), sizes.size() == 1});
	if (photo == 3)
	{
		std::vector<uint32_t> m;
		for (unsigned k = 0; k < 3; ++k) for (auto& p : pal) m.push_back(p[k]*257u);
		es.push_back({320, 3, (unsigned)m.size(), table(m, false, 0), false});
	}
	if (alpha) one(338, 3, 2);
	if (bits == 32)
	{
		if (comps == 1) one(339, 3, 3);
		else es.push_back({339, 3, comps, table(std::vector<uint32_t>(comps, 3), false, 0), false});
	}
	uint32_t ifd = (uint32_t)d.size();
	b.u16((unsigned)es.size());
	for (auto& e : es)
	{
		b.u16(e.tag); b.u16(e.type); b.u32(e.count);
		if (e.direct && e.type == 3) {b.u16(e.value); b.u16(0);}
		else b.u32(e.value);
	}
	b.u32(0);
	std::vector<uint8_t> at;
	Bytes{at, big}.u32(ifd);
	std::copy(at.begin(), at.end(), d.begin() + 4);
	return c;
}

// Direct-colour BMP files: 16 bits with several masks, 24 and 32.
inline Coded codedDirectBmp(Rng& rng, unsigned w, unsigned h)
{
	Coded c;
	c.ext = "bmp"; c.w = w; c.h = h; c.px.resize((size_t)w*h*4);
	struct M {const char* name; unsigned bits; uint32_t r, g, b; bool fields, odd;};
	static const M ms[] = {
		{"555", 16, 0x7C00, 0x3E0, 0x1F, false, false}, {"555 masks", 16, 0x7C00, 0x3E0, 0x1F, true, false},
		{"565 masks", 16, 0xF800, 0x7E0, 0x1F, true, false}, {"444 masks", 16, 0xF00, 0xF0, 0xF, true, true},
		{"664 masks", 16, 0xFC00, 0x3F0, 0xF, true, true},
		{"888", 24, 0xFF0000, 0xFF00, 0xFF, false, false}, {"x888", 32, 0xFF0000, 0xFF00, 0xFF, false, false}};
	const M& m = rng.pick(ms);
	bool down = rng.chance(0.3);
	c.what = fmt("%s%s BMP", m.name, down ? " top-down" : "");
	c.mayFail = m.odd;
	c.anyAlpha = m.bits == 32;
	unsigned row = (w*m.bits + 31)/32*4, off = 54 + (m.fields ? 12 : 0);
	Bytes b{c.d, false};
	b.u8('B'); b.u8('M');
	b.u32(off + row*h); b.u32(0); b.u32(off);
	b.u32(40); b.u32(w); b.u32(down ? 0u - h : h); b.u16(1); b.u16(m.bits); b.u32(m.fields ? 3 : 0); b.u32(row*h);
	b.u32(2835); b.u32(2835); b.u32(0); b.u32(0);
	if (m.fields) {b.u32(m.r); b.u32(m.g); b.u32(m.b);}
	auto part = [](uint32_t v, uint32_t mask)
	{
		uint32_t low = mask & (~mask + 1);
		return (double)((v & mask)/low)/(double)(mask/low);
	};
	for (unsigned y = 0; y < h; ++y)
	{
		size_t start = c.d.size();
		for (unsigned x = 0; x < w; ++x)
		{
			uint32_t v = (uint32_t)rng.next() & (m.r | m.g | m.b);
			for (unsigned k = 0; k < m.bits/8; ++k) b.u8(v >> (8*k));
			put(c, x, down ? y : h - 1 - y, part(v, m.r), part(v, m.g), part(v, m.b), 1);
		}
		c.d.resize(start + row, 0);
	}
	return c;
}

inline Coded codedTga(Rng& rng, unsigned w, unsigned h)
{
	Coded c;
	c.ext = "tga"; c.w = w; c.h = h; c.px.resize((size_t)w*h*4);
	unsigned kind = (unsigned)rng.below(5); // palette, gray, 16, 24, 32
	bool rle = rng.chance(0.4), top = rng.chance(0.5);
	unsigned bits = kind < 2 ? 8 : kind*8, unit = bits/8, n = kind == 0 ? 2 + (unsigned)rng.below(255) : 256;
	std::vector<std::array<uint8_t, 3>> pal;
	const char* k = "";
	if (kind == 0) pal = somePalette(rng, n, c.gray, k);
	else c.gray = kind == 1;
	c.alpha = kind == 4;
	c.what = fmt("TGA of %u bits%s%s%s%s", bits, kind == 0 ? " with palette " : kind == 1 ? " gray" : "", k, rle ? " packed" : "",
		top ? " top-down" : "");
	Bytes b{c.d, false};
	b.u8(0); b.u8(kind == 0); b.u8((kind == 0 ? 1 : kind == 1 ? 3 : 2) + (rle ? 8 : 0));
	b.u16(0); b.u16(kind == 0 ? n : 0); b.u8(kind == 0 ? 24 : 0);
	b.u16(0); b.u16(0); b.u16(w); b.u16(h); b.u8(bits); b.u8((kind == 4 ? 8 : 0) | (top ? 0x20 : 0));
	for (auto& p : pal) {b.u8(p[2]); b.u8(p[1]); b.u8(p[0]);}
	for (unsigned i = 0; i < h; ++i)
	{
		unsigned y = top ? i : h - 1 - i;
		std::vector<uint8_t> r;
		Bytes rb{r, false};
		bool flat = rng.chance(0.3);
		uint32_t v = 0;
		for (unsigned x = 0; x < w; ++x)
		{
			if (!flat || !x || rng.chance(0.1)) v = (uint32_t)rng.next();
			if (kind == 0) v %= n;
			if (kind == 2) v &= 0x7FFF;
			for (unsigned q = 0; q < unit; ++q) rb.u8(v >> (8*q));
			switch (kind)
			{
				case 0: put(c, x, y, pal[v][0]/255.0, pal[v][1]/255.0, pal[v][2]/255.0, 1); break;
				case 1: put(c, x, y, (v & 255)/255.0, (v & 255)/255.0, (v & 255)/255.0, 1); break;
				case 2: put(c, x, y, (v >> 10 & 31)/31.0, (v >> 5 & 31)/31.0, (v & 31)/31.0, 1); break;
				default:
					put(c, x, y, (v >> 16 & 255)/255.0, (v >> 8 & 255)/255.0, (v & 255)/255.0, kind == 4 ? (v >> 24)/255.0 : 1);
					break;
			}
		}
		std::vector<uint8_t> o = rle ? packRuns(rng, r, unit, true) : r;
		c.d.insert(c.d.end(), o.begin(), o.end());
	}
	return c;
}

inline Coded codedPfm(Rng& rng, unsigned w, unsigned h)
{
	Coded c;
	c.ext = "pfm"; c.w = w; c.h = h; c.px.resize((size_t)w*h*4);
	bool color = rng.chance(0.5), big = rng.chance(0.5);
	c.gray = !color;
	c.real = true;
	c.what = fmt("%s PFM, %s endian", color ? "colour" : "gray", big ? "big" : "little");
	std::string hd = fmt("P%c\n%u %u\n%s1.0\n", color ? 'F' : 'f', w, h, big ? "" : "-");
	c.d.assign(hd.begin(), hd.end());
	Bytes b{c.d, big};
	for (unsigned i = 0; i < h; ++i)
		for (unsigned x = 0; x < w; ++x)
		{
			double e[3];
			for (unsigned k = 0; k < (color ? 3u : 1u); ++k)
			{
				float f = (float)rng.uniform(-5, 70000);
				b.f32(f);
				e[k] = f;
			}
			if (!color) e[1] = e[2] = e[0];
			put(c, x, i, e[0], e[1], e[2], 1); // FreeImage has the rows from the top down
		}
	return c;
}

inline Coded codedPsd(Rng& rng, unsigned w, unsigned h)
{
	Coded c;
	c.ext = "psd"; c.w = w; c.h = h; c.px.resize((size_t)w*h*4);
	unsigned comps = rng.chance(0.4) ? 1 : rng.chance(0.5) ? 3 : 4;
	bool deep = rng.chance(0.4);
	c.gray = comps == 1;
	c.alpha = comps == 4;
	c.depth = deep ? 16 : 8;
	c.what = fmt("PSD of %u channels of %u bits", comps, c.depth);
	Bytes b{c.d, true};
	for (char ch : std::string("8BPS")) b.u8((unsigned char)ch);
	b.u16(1); b.u32(0); b.u16(0); b.u16(comps); b.u32(h); b.u32(w); b.u16(c.depth); b.u16(comps == 1 ? 1 : 3);
	b.u32(0); b.u32(0); b.u32(0); b.u16(0);
	for (auto& p : c.px) p = 1;
	for (unsigned k = 0; k < comps; ++k)
		for (unsigned y = 0; y < h; ++y)
			for (unsigned x = 0; x < w; ++x)
			{
				unsigned v = (unsigned)rng.below(deep ? 65536 : 256);
				if (deep) b.u16(v); else b.u8(v);
				double* o = &c.px[((size_t)y*w + x)*4];
				double e = v/(deep ? 65535.0 : 255.0);
				if (comps == 1) o[0] = o[1] = o[2] = e;
				else o[k] = e;
			}
	return c;
}

inline Coded codedPnm(Rng& rng, unsigned w, unsigned h)
{
	Coded c;
	c.w = w; c.h = h; c.px.resize((size_t)w*h*4);
	unsigned kind = 1 + (unsigned)rng.below(6);
	bool color = kind % 3 == 0, bitmap = kind % 3 == 1, text = kind <= 3;
	bool deep = !bitmap && rng.chance(0.3);
	unsigned mx = bitmap ? 1 : deep ? 65535 : 255;
	c.gray = !color;
	c.ext = bitmap ? "pbm" : color ? "ppm" : "pgm";
	c.depth = deep ? 16 : 8;
	c.what = fmt("P%u with maximum %u", kind, mx);
	std::string hd = fmt("P%u\n", kind);
	if (rng.chance(0.3)) hd += "# a comment\n";
	hd += fmt("%u %u\n", w, h);
	if (!bitmap) hd += fmt("%u\n", mx);
	c.d.assign(hd.begin(), hd.end());
	for (unsigned y = 0; y < h; ++y)
	{
		std::vector<uint8_t> bitsRow((w + 7)/8, 0);
		for (unsigned x = 0; x < w; ++x)
		{
			unsigned v[3];
			for (unsigned k = 0; k < (color ? 3u : 1u); ++k)
			{
				v[k] = (unsigned)rng.below(mx + 1);
				if (text)
				{
					std::string t = fmt("%u%s", v[k], rng.chance(0.9) ? " " : "\n");
					c.d.insert(c.d.end(), t.begin(), t.end());
				}
				else if (bitmap) packBits(bitsRow, x, 1, v[k]);
				else
				{
					if (deep) c.d.push_back((uint8_t)(v[k] >> 8));
					c.d.push_back((uint8_t)v[k]);
				}
			}
			double g[3];
			for (unsigned k = 0; k < 3; ++k) g[k] = (double)v[color ? k : 0]/mx;
			if (bitmap) g[0] = g[1] = g[2] = 1 - g[0];
			put(c, x, y, g[0], g[1], g[2], 1);
		}
		if (bitmap && !text) c.d.insert(c.d.end(), bitsRow.begin(), bitsRow.end());
	}
	return c;
}

inline Coded codedGif(Rng& rng, unsigned w, unsigned h)
{
	Coded c;
	c.ext = "gif"; c.w = w; c.h = h; c.px.resize((size_t)w*h*4);
	unsigned bits = 1 + (unsigned)rng.below(8), n = 1u << bits;
	const char* kind;
	auto pal = somePalette(rng, n, c.gray, kind);
	// Transparency of grey palettes has no format to go to.
	bool clear = !c.gray && rng.chance(0.5), interlaced = h > 4 && rng.chance(0.3), local = rng.chance(0.3);
	unsigned none = (unsigned)rng.below(n);
	c.alpha = clear;
	c.what = fmt("%u-bit %s%s GIF%s", bits, kind, interlaced ? " interlaced" : "", clear ? " with transparency" : "");
	Bytes b{c.d, false};
	for (char ch : std::string("GIF89a")) b.u8((unsigned char)ch);
	auto table = [&]() {for (auto& p : pal) for (auto v : p) b.u8(v);};
	b.u16(w); b.u16(h); b.u8((local ? 0u : 0x80u | (bits - 1)) | 0x70u); b.u8(0); b.u8(0);
	if (!local) table();
	if (clear || rng.chance(0.3))
	{
		b.u8(0x21); b.u8(0xF9); b.u8(4); b.u8(clear ? 1 : 0); b.u16(0); b.u8(none); b.u8(0);
	}
	b.u8(0x2C); b.u16(0); b.u16(0); b.u16(w); b.u16(h); b.u8((interlaced ? 0x40u : 0) | (local ? 0x80u | (bits - 1) : 0));
	if (local) table();
	std::vector<unsigned> order;
	if (interlaced)
	{
		static const unsigned first[] = {0, 4, 2, 1}, step[] = {8, 8, 4, 2};
		for (unsigned k = 0; k < 4; ++k)
			for (unsigned y = first[k]; y < h; y += step[k]) order.push_back(y);
	}
	else
		for (unsigned y = 0; y < h; ++y) order.push_back(y);
	std::vector<unsigned> idx;
	bool busy = rng.chance(0.5);
	for (unsigned y : order)
		for (unsigned x = 0; x < w; ++x)
		{
			unsigned v = busy || rng.chance(0.3) ? (unsigned)rng.below(n) : none;
			idx.push_back(v);
			put(c, x, y, pal[v][0]/255.0, pal[v][1]/255.0, pal[v][2]/255.0, clear && v == none ? 0 : 1);
		}
	// LZW.
	unsigned minSize = std::max(2u, bits), clr = 1u << minSize, size = minSize + 1, next = clr + 2;
	std::map<std::pair<unsigned, unsigned>, unsigned> dict;
	std::vector<uint8_t> z;
	uint32_t acc = 0;
	unsigned have = 0;
	auto code = [&](unsigned v)
	{
		acc |= v << have;
		have += size;
		for (; have >= 8; have -= 8, acc >>= 8) z.push_back((uint8_t)acc);
	};
	code(clr);
	unsigned cur = idx[0];
	for (size_t i = 1; i < idx.size(); ++i)
	{
		auto it = dict.find({cur, idx[i]});
		if (it != dict.end()) {cur = it->second; continue;}
		code(cur);
		if (next < 4096)
		{
			if (next == 1u << size) ++size;
			dict[{cur, idx[i]}] = next++;
		}
		else
		{
			code(clr);
			dict.clear();
			size = minSize + 1; next = clr + 2;
		}
		cur = idx[i];
	}
	code(cur);
	if (next == 1u << size && size < 12) ++size;
	code(clr + 1);
	if (have) z.push_back((uint8_t)acc);
	b.u8(minSize);
	for (size_t i = 0; i < z.size(); i += 255)
	{
		size_t k = std::min<size_t>(255, z.size() - i);
		b.u8((unsigned)k);
		c.d.insert(c.d.end(), z.begin() + (long)i, z.begin() + (long)(i + k));
	}
	b.u8(0); b.u8(0x3B);
	return c;
}

inline Coded any(Rng& rng, unsigned w, unsigned h)
{
	switch (rng.below(9))
	{
		case 0: return codedBmp(rng, w, h);
		case 1: return codedDirectBmp(rng, w, h);
		case 2: return codedTiff(rng, w, h);
		case 3: return codedPnm(rng, w, h);
		case 4: return codedTga(rng, w, h);
		case 5: return codedPfm(rng, w, h);
		case 6: return codedPsd(rng, w, h);
		case 7: return codedGif(rng, w, h);
		default: return codedPng(rng, w, h);
	}
}
} // namespace coded
