// C03, C04, C05: every channel of every converted pixel against an independent decoder.
#include "ref.h"
#include <thread>
using namespace ref;
using namespace cuttlefish;
using vh::Rng;

static float nudge(float v, int n)
{
	for (; n > 0; --n) v = std::nextafterf(v, INFINITY);
	for (; n < 0; ++n) v = std::nextafterf(v, -INFINITY);
	return v;
}

// Values are drawn so that rounding boundaries, range limits and special values are all frequent.
static float drawValue(Rng& rng, const Layout& l, T type, unsigned bits)
{
	static const float special[] = {0.0f, -0.0f, 1.0f, -1.0f, INFINITY, -INFINITY, NAN, FLT_MAX, -FLT_MAX, FLT_MIN,
		-FLT_MIN, 1e-45f, -1e-45f, 1e10f, -1e10f, 0.5f, -0.5f, 1.0000001f, 0.99999994f, -1.0000001f, 2.0f, -2.0f,
		1e20f, -1e20f};
	unsigned k = (unsigned)rng.below(16);
	if (k == 0)
		return rng.pick(special);
	switch (type)
	{
		case T::UNorm:
		case T::SNorm:
		{
			double mx = type == T::UNorm ? (double)((1ull << bits) - 1) : (double)((1ull << (bits - 1)) - 1);
			double lo = type == T::UNorm ? 0 : -mx;
			double step = lo + (double)rng.below((uint64_t)(mx - lo) + 1);
			if (k < 6) // exact codes
				return nudge((float)(step/mx), rng.range(-1, 1));
			if (k < 11) // rounding boundaries
				return nudge((float)((step + 0.5)/mx), rng.range(-3, 3));
			if (k < 14)
				return (float)rng.uniform(lo/mx, 1.0);
			return (float)rng.uniform(-3.0, 3.0);
		}
		case T::UInt:
		case T::Int:
		{
			double mx = type == T::UInt ? (double)((1ull << bits) - 1) : (double)((1ull << (bits - 1)) - 1);
			double mn = type == T::UInt ? 0 : -mx - 1;
			if (k < 4)
				return nudge((float)(rng.chance(0.5) ? mx : mn), rng.range(-4, 4));
			if (k < 7)
				return (float)(std::floor(rng.uniform(mn, mx + 1)) + 0.5);
			if (k < 10)
				return nudge((float)(std::floor(rng.uniform(std::max(mn, -2000.0), 2000.0)) + 0.5), rng.range(-2, 2));
			if (k < 12)
				return (float)std::ldexp(rng.uniform(-1.0, 1.0), rng.range(0, 70));
			return (float)rng.uniform(mn, mx);
		}
		default:
			if (k < 4) // any bit pattern
				return bitsToFloat((uint32_t)rng.next());
			if (l.bytes/std::max<size_t>(l.comps.size(), 1) != 4 || l.comps.size() == 3)
			{
				if (k < 8) // near representable small floats and their midpoints
				{
					int e = rng.range(-27, 17);
					double m = 1.0 + (double)rng.below(4096)/4096.0;
					return nudge((float)(std::ldexp(m, e)*(rng.chance(0.2) ? -1 : 1)), rng.range(-2, 2));
				}
				if (k < 11) // range limits
				{
					static const double lim[] = {65504, 65520, 65536, 65024, 64512, 65408, 32768, 6.103515625e-05,
						5.9604645e-08, 2.98e-08, 6.097555e-05, 131072};
					return nudge((float)(rng.pick(lim)*(rng.chance(0.2) ? -1 : 1)), rng.range(-3, 3));
				}
			}
			return (float)(rng.uniform(0, 1)*std::pow(10.0, rng.range(-6, 5))*(rng.chance(0.2) ? -1 : 1));
	}
}

static void drawSize(Rng& rng, unsigned& w, unsigned& h)
{
	static const unsigned edge[] = {1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 96, 127};
	if (rng.chance(0.003))
	{
		w = rng.chance(0.5) ? (unsigned)rng.range(200, 70000) : (unsigned)rng.range(128, 400);
		h = w > 600 ? 1 : (unsigned)rng.range(1, 300);
		if (rng.chance(0.5)) std::swap(w, h);
		return;
	}
	switch (rng.below(4))
	{
		case 0: w = rng.pick(edge); h = 1; break;
		case 1: w = 1; h = rng.pick(edge); break;
		case 2: w = rng.pick(edge); h = (unsigned)rng.range(1, 9); break;
		default: w = (unsigned)rng.range(1, 40); h = (unsigned)rng.range(1, 12); break;
	}
}

static void encodeCase(uint64_t idx, Rng& rng, const std::vector<T>& wanted)
{
	std::vector<std::pair<const Layout*, T>> pairs;
	for (const Layout& l : layouts())
		for (T t : l.types)
			if (std::find(wanted.begin(), wanted.end(), t) != wanted.end())
				pairs.emplace_back(&l, t);
	const Layout& l = *pairs[idx % pairs.size()].first;
	T type = pairs[idx % pairs.size()].second;
	std::string id = std::string(l.name) + ":" + typeName(type);

	unsigned w, h;
	drawSize(rng, w, h);
	// A few large surfaces so that work is really shared between workers.
	if (rng.chance(0.02)) {w = (unsigned)rng.range(100, 300); h = (unsigned)rng.range(50, 200);}
	if (rng.chance(0.0015)) {w = (unsigned)rng.range(500, 1300); h = (unsigned)rng.range(300, 900);}
	// Each format and type at least once in sizes that need more than 12 and 16 bits.
	size_t round = idx/pairs.size();
	if (round == 3) {w = (unsigned)rng.range(4200, 9000); h = (unsigned)rng.range(1, 3);}
	else if (round == 4) {w = (unsigned)rng.range(65600, 70000); h = 1;}
	else if (round == 5) {w = (unsigned)rng.range(1, 2); h = (unsigned)rng.range(33000, 67000);}
	bool big = round >= 3 && round <= 5;
	static const Texture::Dimension dims[] = {Texture::Dimension::Dim2D, Texture::Dimension::Dim2D,
		Texture::Dimension::Dim1D, Texture::Dimension::Dim3D, Texture::Dimension::Cube};
	Texture::Dimension dim = big ? Texture::Dimension::Dim2D : rng.pick(dims);
	unsigned depth = big || rng.chance(0.7) ? 0 : (unsigned)rng.range(1, 3);
	if (dim == Texture::Dimension::Dim1D) h = 1;
	if (dim == Texture::Dimension::Dim3D) depth = (unsigned)rng.range(1, 3);
	if (dim == Texture::Dimension::Cube) h = w = std::min(w, 40u);
	ColorSpace cs = l.srgb && type == T::UNorm && rng.chance(0.3) ? ColorSpace::sRGB : ColorSpace::Linear;

	Texture tex(dim, w, h, depth, 1, cs);
	if (!tex.isValid()) {vh::violation(id + ":init", vh::fmt("%ux%u refused", w, h)); return;}
	unsigned D = std::max(depth, 1u), faces = dim == Texture::Dimension::Cube ? 6 : 1;
	std::vector<std::vector<float>> src;
	// The widths of all channels are the same or close; draw for the channel's own width.
	unsigned chBits[4] = {8, 8, 8, 8};
	for (const Comp& c : l.comps) chBits[c.ch] = c.bits;
	for (unsigned d = 0; d < D; ++d)
		for (unsigned f = 0; f < faces; ++f)
		{
			Image img(Image::Format::RGBAF, w, h, cs);
			std::vector<float> px((size_t)w*h*4);
			for (size_t i = 0; i < px.size(); ++i)
				px[i] = drawValue(rng, l, type, chBits[i % 4]);
			for (unsigned y = 0; y < h; ++y)
				std::memcpy(img.scanline(y), px.data() + (size_t)y*w*4, (size_t)w*16);
			bool ok = faces == 6 ? tex.setImage(img, (Texture::CubeFace)f, 0, d) : tex.setImage(img, 0, d);
			if (!ok) {vh::violation(id + ":setImage", "setImage refused"); return;}
			src.push_back(std::move(px));
		}
	static const unsigned threadChoices[] = {1, 1, 2, 3, 8, Texture::allCores, 0, 40};
	unsigned threads = rng.pick(threadChoices);
	bool ok = tex.convert(l.format, type, (Texture::Quality)rng.below(5), (Texture::Alpha)rng.below(4),
		Texture::ColorMask(rng.chance(0.8), rng.chance(0.8), rng.chance(0.8), rng.chance(0.8)), threads);
	vh::eval();
	if (!ok) {vh::violation(id + ":convert-refused", vh::fmt("%ux%u threads %u", w, h, threads)); return;}
	size_t n = 0;
	for (unsigned d = 0; d < D; ++d)
		for (unsigned f = 0; f < faces; ++f, ++n)
		{
			const uint8_t* data = (const uint8_t*)(faces == 6 ? tex.data((Texture::CubeFace)f, 0, d) : tex.data(0, d));
			size_t size = faces == 6 ? tex.dataSize((Texture::CubeFace)f, 0, d) : tex.dataSize(0, d);
			if (!data || size != (size_t)w*h*l.bytes)
			{
				vh::violation(id + ":size", vh::fmt("%ux%u gives %zu bytes", w, h, size));
				return;
			}
			for (size_t i = 0; i < (size_t)w*h; ++i)
			{
				std::string why = checkPixel(l, type, src[n].data() + i*4, data + i*l.bytes);
				vh::eval(l.comps.size());
				if (!why.empty())
				{
					vh::violation(id + ":value", vh::fmt("%ux%u pixel (%zu,%zu): %s", w, h, i % w, i/w, why.c_str()));
					break;
				}
			}
		}
	vh::count("pixels", (uint64_t)w*h*src.size());
	vh::cover(id + (threads == 1 ? ":seq" : ":par") + (w*h % 32 ? ":partial" : ":full") + (w < 32 ? ":narrow" : ":wide"));
	if (idx < 6)
		vh::sample(vh::fmt("%s %ux%u faces %u depth %u threads %u: first pixel (%g %g %g %g)", id.c_str(), w, h, faces,
			D, threads, src[0][0], src[0][1], src[0][2], src[0][3]));
}

// Exhaustive sweep of the codes of one channel: each code k of a <=16-bit channel is produced by
// its own exact value, and by the values just inside its rounding interval.
static void sweepCase(uint64_t idx, const std::vector<T>& wanted)
{
	std::vector<std::pair<const Layout*, T>> pairs;
	for (const Layout& l : layouts())
		for (T t : l.types)
			if (std::find(wanted.begin(), wanted.end(), t) != wanted.end() && (t == T::UNorm || t == T::SNorm ||
				l.comps[0].bits <= 16))
				pairs.emplace_back(&l, t);
	const Layout& l = *pairs[idx % pairs.size()].first;
	T type = pairs[idx % pairs.size()].second;
	if (type == T::Float || type == T::UFloat)
	{
		// All half/11/10-bit patterns decode to themselves after encoding.
		std::vector<float> vals;
		for (unsigned b = 0; b < 65536; ++b)
			vals.push_back((float)decodeSmallFloat(b, 10, true));
		Image img(Image::Format::RGBAF, 256, 256);
		for (unsigned y = 0; y < 256; ++y)
			for (unsigned x = 0; x < 256; ++x)
				for (unsigned c = 0; c < 4; ++c)
					((float*)img.scanline(y))[x*4 + c] = vals[(y*256 + x + c*977) & 65535];
		Texture tex(Texture::Dimension::Dim2D, 256, 256);
		Image copy = img;
		tex.setImage(copy);
		if (!tex.convert(l.format, type)) {vh::violation(std::string(l.name) + ":sweep", "refused"); return;}
		for (unsigned i = 0; i < 65536; ++i)
		{
			std::string why = checkPixel(l, type, (const float*)img.scanline(i/256) + (i % 256)*4,
				(const uint8_t*)tex.data() + i*l.bytes);
			vh::eval(l.comps.size());
			if (!why.empty())
			{
				vh::violation(std::string(l.name) + ":" + typeName(type) + ":value", why);
				return;
			}
		}
		vh::cover(std::string(l.name) + ":" + typeName(type) + ":sweep");
		return;
	}
	for (const Comp& c : l.comps)
	{
		bool sgn = type == T::SNorm || type == T::Int;
		bool norm = type == T::UNorm || type == T::SNorm;
		int64_t mx = sgn ? (1ll << (c.bits - 1)) - 1 : (1ll << c.bits) - 1, mn = sgn ? (norm ? -mx : -mx - 1) : 0;
		if (c.bits > 16) continue;
		unsigned n = (unsigned)(mx - mn + 1)*3, w = std::min(n, 3u*256u), h = (n + w - 1)/w;
		Image img(Image::Format::RGBAF, w, h);
		std::vector<int64_t> want(n);
		for (unsigned y = 0; y < h; ++y)
			std::memset(img.scanline(y), 0, w*16);
		for (unsigned i = 0; i < n; ++i)
		{
			int64_t code = mn + i/3;
			double off = i % 3 == 0 ? 0 : i % 3 == 1 ? -0.49 : 0.49;
			double v = ((double)code + off)/(norm ? (double)mx : 1.0);
			((float*)img.scanline(i/w))[(i % w)*4 + c.ch] = (float)v;
			want[i] = code;
		}
		Texture tex(Texture::Dimension::Dim2D, w, h);
		tex.setImage(img);
		if (!tex.convert(l.format, type)) {vh::violation(std::string(l.name) + ":sweep", "refused"); return;}
		for (unsigned i = 0; i < n; ++i)
		{
			uint64_t raw = field((const uint8_t*)tex.data() + i*l.bytes, l.bytes, c.shift, c.bits);
			int64_t got = sgn ? signExtend(raw, c.bits) : (int64_t)raw;
			vh::eval();
			if (got != want[i])
			{
				vh::violation(std::string(l.name) + ":" + typeName(type) + ":sweep",
					vh::fmt("channel %d code %lld variant %u stored as %lld", c.ch, (long long)want[i], i % 3, (long long)got));
				return;
			}
		}
		vh::cover(std::string(l.name) + ":" + typeName(type) + vh::fmt(":sweep%d", c.ch));
	}
}

static void dispatch(uint64_t idx, Rng& rng, const std::vector<T>& types, unsigned sweeps)
{
	if (idx < sweeps)
		sweepCase(idx, types);
	else
		encodeCase(idx - sweeps, rng, types);
}

int main(int argc, char** argv)
{
	return vh::runMain(argc, argv, {
		{"C03", [](uint64_t i, Rng& r) {dispatch(i, r, {T::UNorm, T::SNorm}, 36);}},
		{"C04", [](uint64_t i, Rng& r) {dispatch(i, r, {T::UInt, T::Int}, 24);}},
		{"C05", [](uint64_t i, Rng& r) {dispatch(i, r, {T::Float, T::UFloat}, 8);}},
	});
}
