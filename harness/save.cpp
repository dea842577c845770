// C06, C07, C08: independent readers over saved files. C10: faults while saving.
#include "readers.h"
#include "streams.h"
#include "fileutil.h"
#include <sstream>
#include <fstream>
using namespace ref;
using namespace cuttlefish;
using vh::Rng;
using vh::fmt;
using FT = Texture::FileType;

static void container(uint64_t idx, Rng& rng, FT ft)
{
	// Every valid format and type in turn, shapes at random.
	static std::vector<std::pair<const Layout*, T>> all;
	if (all.empty())
		for (auto& l : layouts())
			for (T t : l.types)
				if (Texture::isFormatValid(l.format, t, ft))
					all.push_back({&l, t});
	auto p = all[idx % all.size()];
	TexSpec s;
	drawSpec(rng, s, p.first, p.second);
	Texture t;
	Surfaces px;
	if (!fillTexture(rng, s, t, px))
	{
		vh::violation("fill", "could not fill " + s.str());
		return;
	}
	// Quality and mask mean nothing to the uncompressed formats, nor to what their files say.
	Texture::ColorMask mask(!rng.chance(0.2), !rng.chance(0.2), !rng.chance(0.2), !rng.chance(0.2));
	if (!t.convert(s.l->format, s.type, (Texture::Quality)rng.below(5), s.alpha, mask, 1 + (unsigned)rng.below(2)))
	{
		vh::violation("convert", "refused " + s.str());
		return;
	}
	std::vector<uint8_t> d{1, 2, 3};
	Texture::SaveResult r = t.save(d, ft);
	const char* name = ft == FT::DDS ? "dds" : ft == FT::KTX ? "ktx" : "pvr";
	VH_CHECK(r == Texture::SaveResult::Success, fmt("%s:refused:%s:%s", name, s.l->name, typeName(s.type)), "%s result %d",
		s.str().c_str(), (int)r);
	if (r != Texture::SaveResult::Success)
		return;
	FileTex f = ft == FT::DDS ? readDds(d) : ft == FT::KTX ? readKtx(d) : readPvr(d);
	std::string e = compareFile(f, s, px, d, ft == FT::DDS ? 0 : ft == FT::KTX ? 1 : 2);
	vh::eval();
	if (!e.empty())
	{
		// Header values in the message are particular to the case; the kind is not.
		std::string kind = e.substr(0, e.find(':'));
		bool byFormat = kind == "layout" || kind == "type" || kind == "colourspace" || kind == "alphamode" || kind == "header";
		vh::violation(fmt("%s:%s:%s", name, kind.c_str(), byFormat ? s.l->name : s.shape().c_str()), s.str() + ": " + e);
	}
	vh::count("files");
	vh::count("bytes", d.size());
	vh::cover(fmt("%s:%s:%s", s.l->name, typeName(s.type), csName(s.cs)));
	vh::cover(s.shape() + fmt(":%s%s:rowpad%u", s.w & (s.w - 1) ? "npot" : "pot", s.w != s.h ? ":rect" : "",
		(s.w*s.l->bytes) % 4));
	if (idx % 97 == 0)
		vh::sample(s.str() + fmt(" -> %zu bytes", d.size()));
}

static std::vector<uint64_t> limits(Rng& rng, size_t size, size_t dense, size_t some)
{
	std::vector<uint64_t> r;
	if (size <= dense)
		for (size_t i = 0; i < size; ++i) r.push_back(i);
	else
	{
		r = {0, 1, size - 1, size - 2, size/2};
		for (size_t i = 0; i < some; ++i) r.push_back(rng.below(size));
	}
	return r;
}

// One object that can be saved to the three destinations.
struct Savable
{
	std::string id;                                            // for keys
	std::function<int(const char*)> file;                      // 0 = success
	std::function<int(std::ostream&)> stream;
	std::function<int(std::vector<uint8_t>&)> memory;
};

static void destinations(Rng& rng, const Savable& s, const std::string& ext, const std::string& what)
{
	std::vector<uint8_t> ref{9, 9, 9};
	int rm = s.memory(ref);
	VH_CHECK(rm == 0, s.id + ":memory-refused", "%s: result %d", what.c_str(), rm);
	if (rm != 0)
		return;
	{
		// Whatever the vector held before is gone.
		std::vector<uint8_t> v(rng.chance(0.2) ? ref.size() : rng.below(2*ref.size() + 5000), 0xA5);
		size_t held = v.size();
		if (rng.chance(0.3)) v.reserve(3*held + 1);
		int r = s.memory(v);
		VH_CHECK(r == 0 && v == ref, s.id + ":memory-reused", "%s: into a vector of %zu bytes: result %d, %zu bytes rather than %zu", what.c_str(),
			held, r, v.size(), ref.size());
	}
	std::string path = vh::scratchFile("out." + ext);
	// An existing longer file must be replaced completely.
	bool old = rng.chance(0.5);
	unlink(path.c_str());
	if (old)
	{
		std::vector<uint8_t> junk(ref.size() + 100, 0x5A);
		vh::writeFile(path, junk.data(), junk.size());
	}
	int rf = s.file(path.c_str());
	std::vector<uint8_t> got;
	vh::readFile(path, got);
	VH_CHECK(rf == 0, s.id + ":file-refused", "%s: result %d", what.c_str(), rf);
	VH_CHECK(got == ref, s.id + ":file-differs", "%s: file has %zu bytes, memory %zu", what.c_str(), got.size(), ref.size());
	{
		std::ostringstream o;
		o << "prefix";
		int rs = s.stream(o);
		std::string str = o.str();
		VH_CHECK(rs == 0 && str.size() == ref.size() + 6 && str.compare(0, 6, "prefix") == 0 &&
			!std::memcmp(str.data() + 6, ref.data(), ref.size()), s.id + ":stream-differs", "%s: result %d, %zu bytes, memory %zu",
			what.c_str(), rs, str.size(), ref.size());
	}
	{
		vh::LimitOut buf(ref.size() + rng.below(3)*1000000, false);
		std::ostream o(&buf);
		int rs = s.stream(o);
		VH_CHECK(rs == 0 && buf.data == ref && buf.written == ref.size(), s.id + ":pipe-differs", "%s: result %d, %llu bytes of %zu",
			what.c_str(), rs, (unsigned long long)buf.written, ref.size());
	}
	// Faults: the stream refuses everything from some byte on.
	for (uint64_t l : limits(rng, ref.size(), 700, 40))
	{
		vh::LimitOut buf(l, rng.chance(0.5));
		std::ostream o(&buf);
		int rs = s.stream(o);
		vh::count("stream faults");
		VH_CHECK(rs != 0, s.id + ":false-success", "%s: stream refused from byte %llu of %zu but success was reported", what.c_str(),
			(unsigned long long)l, ref.size());
	}
	// A stream that is already broken.
	{
		std::ostringstream o;
		o.setstate(rng.chance(0.5) ? std::ios_base::failbit : std::ios_base::badbit);
		VH_CHECK(s.stream(o) != 0, s.id + ":broken-stream", "%s: success on a failed stream", what.c_str());
		std::ofstream never;
		VH_CHECK(s.stream(never) != 0, s.id + ":unopened-stream", "%s: success on a file stream that was never opened", what.c_str());
		std::ostream nowhere(nullptr);
		VH_CHECK(s.stream(nowhere) != 0, s.id + ":no-buffer", "%s: success on a stream without a buffer", what.c_str());
	}
	{
		// A real file stream is as good as a file name.
		unlink(path.c_str());
		std::ofstream real(path, std::ios_base::binary);
		if (rng.chance(0.3)) real.rdbuf()->pubsetbuf(nullptr, 0);
		int r = s.stream(real);
		real.close();
		std::vector<uint8_t> g;
		vh::readFile(path, g);
		VH_CHECK(r == 0 && real && g == ref, s.id + ":ofstream-differs", "%s: result %d, %zu bytes of %zu", what.c_str(), r, g.size(), ref.size());
		// Reading and writing, at a place in the middle of what is there.
		std::string base(20 + ref.size() + 20, 'z');
		std::stringstream mid(base, std::ios_base::in | std::ios_base::out | std::ios_base::binary);
		mid.seekp(20);
		r = s.stream(mid);
		std::string str = mid.str(), wantStr = base;
		wantStr.replace(20, ref.size(), (const char*)ref.data(), ref.size());
		VH_CHECK(r == 0 && str == wantStr, s.id + ":stream-middle", "%s: result %d, %zu bytes", what.c_str(), r, str.size());
	}
	// The file system refuses data beyond some byte: at write, or only at flush.
	auto lim = limits(rng, ref.size(), 0, 4);
	for (uint64_t l : lim)
	{
		if (l >= ref.size())
			continue;
		unlink(path.c_str());
		int r;
		{
			vh::FileLimit fl(l);
			r = s.file(path.c_str());
		}
		vh::count("file faults");
		std::vector<uint8_t> g;
		vh::readFile(path, g);
		VH_CHECK(r != 0, s.id + ":false-success-file", "%s: only %zu of %zu bytes fit but success was reported", what.c_str(), g.size(),
			ref.size());
	}
	{
		unlink(path.c_str());
		vh::FileLimit fl(ref.size());
		VH_CHECK(s.file(path.c_str()) == 0, s.id + ":exact-fit", "%s: exact fit refused", what.c_str());
	}
	// Destinations that cannot be opened or written at all.
	std::string full = vh::scratchFile("full." + ext);
	unlink(full.c_str());
	if (symlink("/dev/full", full.c_str()) == 0)
	{
		VH_CHECK(s.file(full.c_str()) != 0, s.id + ":dev-full", "%s: success on a full device", what.c_str());
		unlink(full.c_str());
	}
	std::string missing = vh::scratchFile("no/such/dir/x." + ext);
	VH_CHECK(s.file(missing.c_str()) != 0, s.id + ":missing-dir", "%s: success in a missing directory", what.c_str());
	VH_CHECK(!vh::exists(vh::scratchFile("no")), s.id + ":made-dir", "%s: created a directory", what.c_str());
	std::string dir = vh::scratchFile("dir." + ext);
	mkdir(dir.c_str(), 0755);
	VH_CHECK(s.file(dir.c_str()) != 0, s.id + ":is-dir", "%s: success over a directory", what.c_str());
	rmdir(dir.c_str());
	unlink(path.c_str());
	vh::count("saved bytes", ref.size());
}

// A save that must be refused, and leave no trace.
static void refusal(Rng& rng, const Savable& s, const std::string& fileName, const std::string& key, const std::string& what,
	int wantFile, int wantStream)
{
	std::string path = vh::scratchFile(fileName);
	bool old = rng.chance(0.7);
	unlink(path.c_str());
	if (old)
		vh::writeFile(path, "precious", 8);
	std::map<std::string, std::string> a, b;
	vh::snapshot(vh::st().scratch, a);
	int r = s.file(path.c_str());
	vh::snapshot(vh::st().scratch, b);
	std::string diff = vh::snapshotDiff(a, b);
	VH_CHECK(r == wantFile || (wantFile < 0 && r != 0), key + ":file", "%s: saving to %s gave %d", what.c_str(), fileName.c_str(), r);
	VH_CHECK(diff.empty(), key + ":touched", "%s: refused save %s", what.c_str(), diff.c_str());
	unlink(path.c_str());
	if (s.stream)
	{
		vh::LimitOut buf(1u << 30);
		std::ostream o(&buf);
		int rs = s.stream(o);
		VH_CHECK((rs == wantStream || (wantStream < 0 && rs != 0)) && buf.written == 0, key + ":stream", "%s: stream gave %d, %llu bytes written",
			what.c_str(), rs, (unsigned long long)buf.written);
		std::vector<uint8_t> v{1, 2, 3}, keep = v;
		int rv = s.memory(v);
		VH_CHECK((rv == wantStream || (wantStream < 0 && rv != 0)) && v == keep, key + ":memory", "%s: memory gave %d, %zu bytes",
			what.c_str(), rv, v.size());
	}
	vh::count("refusals");
}

static void faults(uint64_t idx, Rng& rng)
{
	using SR = Texture::SaveResult;
	static const FT fts[] = {FT::DDS, FT::KTX, FT::PVR};
	static const char* exts[] = {"dds", "ktx", "pvr"};
	unsigned k = (unsigned)(idx % 4);
	if (k < 3)
	{
		T type;
		const Layout* l;
		TexSpec s;
		// Any combination for refusals, valid ones for successes.
		l = anyLayout(rng, type);
		drawSpec(rng, s, l, type, idx % 5 == 0 ? 40 : 6);
		if (s.w*s.h > 4000) s.w = s.h = 1, s.mips = 1;
		Texture t;
		Surfaces px;
		FT ft = fts[k];
		std::string ext = exts[k];
		auto savable = [&](FT explicitType)
		{
			Savable v;
			v.id = ext;
			v.file = [&t, explicitType](const char* f) {return (int)t.save(f, explicitType);};
			v.stream = [&t, ft](std::ostream& o) {return (int)t.save(o, ft);};
			v.memory = [&t, ft](std::vector<uint8_t>& o) {return (int)t.save(o, ft);};
			return v;
		};
		// Not even initialised.
		if (rng.chance(0.3))
			refusal(rng, savable(ft), "e." + ext, ext + ":empty", "empty texture", (int)SR::Invalid, (int)SR::Invalid);
		if (!fillTexture(rng, s, t, px))
		{
			vh::violation("fill", "could not fill " + s.str());
			return;
		}
		if (rng.chance(0.3))
			refusal(rng, savable(ft), "u." + ext, ext + ":unconverted", "unconverted " + s.str(), (int)SR::Invalid, (int)SR::Invalid);
		if (!t.convert(l->format, type, Texture::Quality::Normal, s.alpha))
		{
			vh::violation("convert", "refused " + s.str());
			return;
		}
		bool valid = Texture::isFormatValid(l->format, type, ft);
		if (valid)
		{
			// A type that is named is used whatever the file is called.
			bool automatic = rng.chance(0.5);
			static const char* others[] = {"dds", "ktx", "pvr", "png", "x", "KTX"};
			destinations(rng, savable(automatic ? FT::Auto : ft), automatic || rng.chance(0.6) ? ext : rng.pick(others), s.str());
			vh::cover(fmt("%s:%s:%s", ext.c_str(), s.l->name, s.shape().c_str()));
		}
		else
		{
			refusal(rng, savable(rng.chance(0.5) ? FT::Auto : ft), "r." + ext, ext + ":unsupported", s.str(), (int)SR::Unsupported,
				(int)SR::Unsupported);
			vh::cover(fmt("%s:%s:unsupported", ext.c_str(), s.l->name));
		}
		// Unknown type.
		Savable un = savable(FT::Auto);
		un.stream = [&t](std::ostream& o) {return (int)t.save(o, FT::Auto);};
		un.memory = [&t](std::vector<uint8_t>& o) {return (int)t.save(o, FT::Auto);};
		static const char* bad[] = {"x", "x.", "x.png", "x.ktx2", "dds", "x.ddsx", "xpvr", "x.dds.bak"};
		refusal(rng, un, rng.pick(bad), "unknown-type", s.str(), (int)SR::UnknownFormat, (int)SR::UnknownFormat);
		if (idx % 50 == 0)
			vh::sample(s.str());
		return;
	}
	// Images.
	static const char* iext[] = {"bmp", "png", "tif", "tga", "ppm", "pfm", "jpg", "hdr", "exr", "webp", "gif", "xpm"};
	std::string ext = rng.pick(iext);
	const ILayout& l = imageLayouts()[rng.below(imageLayouts().size())];
	unsigned w = 1 + (unsigned)rng.below(12), h = 1 + (unsigned)rng.below(12);
	if (rng.chance(0.1)) {w = 40 + (unsigned)rng.below(90); h = 30 + (unsigned)rng.below(60);}
	Image img(l.f, w, h);
	fillRandom(img, rng, false);
	std::string what = fmt("%s %ux%u", l.name, w, h);
	std::string hint = "x." + ext;
	auto make = [&](Image& im)
	{
		Savable v;
		v.id = "image-" + ext;
		v.file = [&im](const char* f) {return im.save(f) ? 0 : 1;};
		v.stream = [&im, hint](std::ostream& o) {return im.save(o, hint.c_str()) ? 0 : 1;};
		v.memory = [&im, hint](std::vector<uint8_t>& o) {return im.save(o, hint.c_str()) ? 0 : 1;};
		return v;
	};
	std::vector<uint8_t> probe;
	if (img.save(probe, hint.c_str()))
	{
		destinations(rng, make(img), ext, what);
		vh::cover(fmt("%s:%s", ext.c_str(), l.name));
	}
	else
	{
		refusal(rng, make(img), "r." + ext, "image-" + ext + ":unsupported:" + l.name, what, 1, 1);
		vh::cover(fmt("%s:%s:unsupported", ext.c_str(), l.name));
	}
	Image none;
	refusal(rng, make(none), "n." + ext, "image:empty", "empty image", 1, 1);
	static const char* bad[] = {"x", "x.", "x.zzz", "x.dds2", "x.pngx"};
	std::string bn = rng.pick(bad);
	Savable un = make(img);
	un.stream = [&](std::ostream& o) {return img.save(o, bn.c_str()) ? 0 : 1;};
	un.memory = [&](std::vector<uint8_t>& o) {return img.save(o, bn.c_str()) ? 0 : 1;};
	refusal(rng, un, bn, "image:unknown-type", what, 1, 1);
}

int main(int argc, char** argv)
{
	return vh::runMain(argc, argv, {
		{"C06", [](uint64_t i, Rng& r) {container(i, r, FT::DDS);}},
		{"C07", [](uint64_t i, Rng& r) {container(i, r, FT::KTX);}},
		{"C08", [](uint64_t i, Rng& r) {container(i, r, FT::PVR);}},
		{"C10", faults},
	});
}
