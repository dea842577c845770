// The encoders behind harness/stubs: they record and digest, nothing else.
#include "stub.h"
#include "bc7enc.h"
#include "bc7e_ispc.h"
#include "ispc_texcomp.h"
#include "cmp_core.h"
#include "rgbcx.h"
#include "squish.h"
#include "EtcImage.h"
#include "astcenc.h"
#include "PVRTexLib.hpp"
#include "vh.h"
#include <atomic>
#include <mutex>
#include <unordered_map>

#include <time.h>

namespace stub
{
static std::mutex g_lock;
static std::unordered_map<uint64_t, Rec>& recs() {static auto* m = new std::unordered_map<uint64_t, Rec>; return *m;}
static size_t g_calls;

static uint64_t digest(const Rec& r)
{
	uint64_t h = 1469598103934665603ull;
	auto add = [&](const void* p, size_t n)
	{
		for (size_t i = 0; i < n; ++i) h = (h ^ ((const unsigned char*)p)[i])*1099511628211ull;
	};
	add(r.fn.data(), r.fn.size());
	auto addD = [&](double d)
	{
		uint64_t u = 0x7FF8000000000000ull;
		if (d == d) std::memcpy(&u, &d, 8);
		h = (h ^ u)*0x9E3779B97F4A7C15ull;
		h ^= h >> 29;
	};
	for (double d : r.opt) addD(d);
	unsigned s[3] = {r.w, r.h, r.ch};
	add(s, sizeof s);
	for (double d : r.px) addD(d);
	return vh::mix(h, 77);
}

static std::atomic<unsigned> g_pause{0};
void setPause(unsigned us) {g_pause.store(us, std::memory_order_relaxed);}
static void pause()
{
	unsigned us = g_pause.load(std::memory_order_relaxed);
	if (!us) return;
	timespec t{0, (long)us*1000};
	nanosleep(&t, nullptr);
}

void record(const Rec& r, void* out, size_t size)
{
	pause();
	uint64_t d = digest(r);
#ifndef VH_NORECORD // The lock would order what the code under test does not.
	{
		std::lock_guard<std::mutex> g(g_lock);
		recs()[d] = r;
		++g_calls;
	}
#endif
	for (size_t i = 0; i < size; i += 8)
	{
		uint64_t v = d + i; // The second half differs, so that halves out of place are noticed.
		std::memcpy((char*)out + i, &v, 8);
	}
}

bool find(const void* block, size_t size, Rec& out)
{
	uint64_t d;
	std::memcpy(&d, block, 8);
	for (size_t i = 8; i < size; i += 8)
	{
		uint64_t v;
		std::memcpy(&v, (const char*)block + i, 8);
		if (v != d + i) return false;
	}
	std::lock_guard<std::mutex> g(g_lock);
	auto f = recs().find(d);
	if (f == recs().end()) return false;
	out = f->second;
	return true;
}

void clear()
{
	std::lock_guard<std::mutex> g(g_lock);
	recs().clear();
	g_calls = 0;
}

size_t calls()
{
	std::lock_guard<std::mutex> g(g_lock);
	return g_calls;
}

void complain(const char* key, const std::string& detail) {vh::violation(std::string("encoder:") + key, detail);}

template <typename P>
static void px(Rec& r, unsigned w, unsigned h, unsigned ch, const P* p, size_t rowStride)
{
	r.w = w; r.h = h; r.ch = ch;
	r.px.resize((size_t)w*h*ch);
	for (unsigned y = 0; y < h; ++y)
		for (unsigned x = 0; x < w*ch; ++x)
			r.px[(size_t)y*w*ch + x] = (double)p[y*rowStride + x];
}
} // namespace stub

using namespace stub;

static std::atomic<bool> g_bc7encReady, g_bc7eReady, g_rgbcxReady;

void bc7enc_compress_block_params_init_linear_weights(bc7enc_compress_block_params* p)
{
	p->m_perceptual = false;
	for (auto& w : p->m_weights) w = 1;
}
void bc7enc_compress_block_params_init_perceptual_weights(bc7enc_compress_block_params* p)
{
	p->m_perceptual = true;
	uint32_t w[] = {128, 64, 16, 32};
	std::memcpy(p->m_weights, w, sizeof w);
}
void bc7enc_compress_block_params_init(bc7enc_compress_block_params* p)
{
	p->m_max_partitions = BC7ENC_MAX_PARTITIONS;
	p->m_uber_level = 0;
	p->m_try_least_squares = p->m_mode17_partition_estimation_filterbank = true;
	bc7enc_compress_block_params_init_linear_weights(p);
}
void bc7enc_compress_block_init() {g_bc7encReady = true;}
bool bc7enc_compress_block(void* block, const void* rgba, const bc7enc_compress_block_params* p)
{
	if (!g_bc7encReady) complain("bc7enc", "compress before init");
	Rec r;
	r.fn = "bc7";
	r.opt = {(double)p->m_max_partitions, (double)p->m_uber_level, (double)p->m_perceptual, (double)p->m_try_least_squares,
		(double)p->m_mode17_partition_estimation_filterbank, (double)p->m_weights[0], (double)p->m_weights[1],
		(double)p->m_weights[2], (double)p->m_weights[3]};
	px(r, 4, 4, 4, (const uint8_t*)rgba, 16);
	record(r, block, 16);
	return true;
}

namespace ispc
{
void bc7e_compress_block_init() {g_bc7eReady = true;}
static void set(bc7e_compress_block_params* p, uint32_t l, bool perc) {p->level = l; p->perceptual = perc; p->ready = 77;}
void bc7e_compress_block_params_init_ultrafast(bc7e_compress_block_params* p, bool perc) {set(p, 0, perc);}
void bc7e_compress_block_params_init_fast(bc7e_compress_block_params* p, bool perc) {set(p, 2, perc);}
void bc7e_compress_block_params_init_basic(bc7e_compress_block_params* p, bool perc) {set(p, 3, perc);}
void bc7e_compress_block_params_init_slow(bc7e_compress_block_params* p, bool perc) {set(p, 4, perc);}
void bc7e_compress_block_params_init_slowest(bc7e_compress_block_params* p, bool perc) {set(p, 6, perc);}
void bc7e_compress_blocks(uint32_t n, uint64_t* out, const uint32_t* rgba, const bc7e_compress_block_params* p)
{
	if (!g_bc7eReady) complain("bc7e", "compress before init");
	if (p->ready != 77) complain("bc7e", "parameters not set up");
	for (uint32_t i = 0; i < n; ++i)
	{
		Rec r;
		r.fn = "bc7";
		r.opt = {(double)p->level, 0, (double)p->perceptual, 0, 0, 1, 1, 1, 1};
		px(r, 4, 4, 4, (const uint8_t*)(rgba + 16*i), 16);
		record(r, out + 2*i, 16);
	}
}
}

static void profile(bc6h_enc_settings* s, int l) {s->level = l; s->ready = 77;}
void GetProfile_bc6h_veryfast(bc6h_enc_settings* s) {profile(s, 0);}
void GetProfile_bc6h_fast(bc6h_enc_settings* s) {profile(s, 1);}
void GetProfile_bc6h_basic(bc6h_enc_settings* s) {profile(s, 2);}
void GetProfile_bc6h_slow(bc6h_enc_settings* s) {profile(s, 3);}
void GetProfile_bc6h_veryslow(bc6h_enc_settings* s) {profile(s, 4);}
void CompressBlocksBC6H(const rgba_surface* src, uint8_t* dst, bc6h_enc_settings* s)
{
	if (s->ready != 77) complain("bc6h", "settings not set up");
	for (int y = 0; y < src->height/4; ++y)
		for (int x = 0; x < src->width/4; ++x)
		{
			Rec r;
			r.fn = "bc6h";
			r.opt = {(double)s->level, 0};
			uint16_t b[16][3];
			for (int j = 0; j < 4; ++j)
				for (int i = 0; i < 4; ++i)
					std::memcpy(b[j*4 + i], src->ptr + (size_t)(y*4 + j)*src->stride + (size_t)(x*4 + i)*8, 6);
			px(r, 4, 4, 3, &b[0][0], 12);
			record(r, dst + 16*(y*(src->width/4) + x), 16);
		}
}

struct CmpOptions {int magic; int kind; float q; int sgn;};
static std::atomic<int> g_cmpLive;
static int create(void** o, int kind) {*o = new CmpOptions{0x434D50, kind, -1, -1}; ++g_cmpLive; return 0;}
static CmpOptions* cmp(const void* o, int kind)
{
	auto* c = (CmpOptions*)o;
	if (!c || c->magic != 0x434D50 || c->kind != kind) {complain("compressonator", vh::fmt("options for BC%d are not", kind)); return nullptr;}
	return c;
}
static int destroy(void* o, int kind)
{
	if (auto* c = cmp(o, kind)) {c->magic = 0; delete c; --g_cmpLive;}
	return 0;
}
int cmpLive() {return g_cmpLive;}
int CreateOptionsBC4(void** o) {return create(o, 4);}
int CreateOptionsBC5(void** o) {return create(o, 5);}
int CreateOptionsBC6(void** o) {return create(o, 6);}
int DestroyOptionsBC4(void* o) {return destroy(o, 4);}
int DestroyOptionsBC5(void* o) {return destroy(o, 5);}
int DestroyOptionsBC6(void* o) {return destroy(o, 6);}
static int quality(void* o, int kind, float q)
{
	if (!(q >= 0 && q <= 1)) complain("compressonator", vh::fmt("quality %g", q));
	if (auto* c = cmp(o, kind)) c->q = q;
	return 0;
}
int SetQualityBC4(void* o, float q) {return quality(o, 4, q);}
int SetQualityBC5(void* o, float q) {return quality(o, 5, q);}
int SetQualityBC6(void* o, float q) {return quality(o, 6, q);}
int SetSignedBC6(void* o, bool s) {if (auto* c = cmp(o, 6)) c->sgn = s; return 0;}
int CompressBlockBC4S(const char* src, unsigned int stride, unsigned char block[8], const void* o)
{
	Rec r;
	r.fn = "bc4s";
	auto* c = cmp(o, 4);
	r.opt = {c ? c->q : -1.0};
	px(r, 4, 4, 1, (const int8_t*)src, stride);
	record(r, block, 8);
	return 0;
}
int CompressBlockBC5S(const char* src1, unsigned int stride1, const char* src2, unsigned int stride2, unsigned char block[16],
	const void* o)
{
	Rec r;
	r.fn = "bc5s";
	auto* c = cmp(o, 5);
	r.opt = {c ? c->q : -1.0};
	r.w = r.h = 4; r.ch = 2;
	r.px.resize(32);
	for (unsigned y = 0; y < 4; ++y)
		for (unsigned x = 0; x < 4; ++x)
		{
			r.px[(y*4 + x)*2] = (int8_t)src1[y*stride1 + x];
			r.px[(y*4 + x)*2 + 1] = (int8_t)src2[y*stride2 + x];
		}
	record(r, block, 16);
	return 0;
}
int CompressBlockBC6(const unsigned short* src, unsigned int strideInShorts, unsigned char block[16], const void* o)
{
	Rec r;
	r.fn = "bc6h";
	auto* c = cmp(o, 6);
	r.opt = {c ? c->q : -1.0, c ? (double)c->sgn : -1.0};
	px(r, 4, 4, 3, src, strideInShorts);
	record(r, block, 16);
	return 0;
}

namespace rgbcx
{
static void ready() {if (!g_rgbcxReady) complain("rgbcx", "encode before init");}
static double lev(uint32_t l) {if (l > MAX_LEVEL) complain("rgbcx", vh::fmt("level %u", l)); return l;}
void init(bc1_approx_mode) {g_rgbcxReady = true;}
void encode_bc1(uint32_t level, void* dst, const uint8_t* rgba, bool three, bool black, void*)
{
	ready();
	Rec r;
	r.fn = "bc1";
	r.opt = {lev(level), (double)three, (double)black};
	px(r, 4, 4, 4, rgba, 16);
	record(r, dst, 8);
}
void encode_bc3(uint32_t level, void* dst, const uint8_t* rgba)
{
	ready();
	Rec r;
	r.fn = "bc3";
	r.opt = {lev(level), 0};
	px(r, 4, 4, 4, rgba, 16);
	record(r, dst, 16);
}
void encode_bc3_hq(uint32_t level, void* dst, const uint8_t* rgba, uint32_t radius, uint32_t)
{
	ready();
	Rec r;
	r.fn = "bc3";
	r.opt = {lev(level), (double)radius};
	px(r, 4, 4, 4, rgba, 16);
	record(r, dst, 16);
}
static void bc4(void* dst, const uint8_t* p, uint32_t stride, uint32_t radius)
{
	ready();
	Rec r;
	r.fn = "bc4";
	r.opt = {(double)radius};
	uint8_t v[16];
	for (int i = 0; i < 16; ++i) v[i] = p[i*stride];
	px(r, 4, 4, 1, v, 4);
	record(r, dst, 8);
}
void encode_bc4(void* dst, const uint8_t* p, uint32_t stride) {bc4(dst, p, stride, 0);}
void encode_bc4_hq(void* dst, const uint8_t* p, uint32_t stride, uint32_t radius, uint32_t) {bc4(dst, p, stride, radius);}
static void bc5(void* dst, const uint8_t* p, uint32_t c0, uint32_t c1, uint32_t stride, uint32_t radius)
{
	ready();
	Rec r;
	r.fn = "bc5";
	r.opt = {(double)radius};
	uint8_t v[32];
	for (int i = 0; i < 16; ++i) {v[i*2] = p[i*stride + c0]; v[i*2 + 1] = p[i*stride + c1];}
	px(r, 4, 4, 2, v, 8);
	record(r, dst, 16);
}
void encode_bc5(void* dst, const uint8_t* p, uint32_t c0, uint32_t c1, uint32_t stride) {bc5(dst, p, c0, c1, stride, 0);}
void encode_bc5_hq(void* dst, const uint8_t* p, uint32_t c0, uint32_t c1, uint32_t stride, uint32_t radius, uint32_t)
{
	bc5(dst, p, c0, c1, stride, radius);
}
}

namespace squish
{
void Compress(u8 const* rgba, void* block, int flags, float* metric)
{
	Rec r;
	r.fn = "squish";
	double effort = flags & kColourRangeFit ? 0 : flags & kColourIterativeClusterFit ? 2 : 1;
	r.opt = {effort, (double)(flags & (kDxt1 | kDxt3 | kDxt5)), metric ? metric[0] : 1.0, metric ? metric[1] : 1.0,
		metric ? metric[2] : 1.0};
	px(r, 4, 4, 4, rgba, 16);
	record(r, block, 8);
}
}

namespace Etc
{
Image::Image(float* rgba, unsigned int w, unsigned int h, ErrorMetric m) : m_rgba(rgba), m_w(w), m_h(h), m_metric(m), m_size(0)
{
	if (!w || !h || w > 4 || h > 4) complain("etc", vh::fmt("image of %ux%u", w, h));
}
Image::EncodingStatus Image::Encode(Format f, ErrorMetric m, float effort, unsigned int jobs, unsigned int maxJobs)
{
	if (effort < 0 || effort > 100) complain("etc", vh::fmt("effort %g", effort));
	if (m != m_metric) complain("etc", "metrics differ");
	m_size = f == Format::RGBA8 || f == Format::SRGBA8 || f == Format::RG11 || f == Format::SIGNED_RG11 ? 16 : 8;
	Rec r;
	r.fn = "etc";
	r.opt = {effort, (double)(int)f, (double)(int)m};
	px(r, m_w, m_h, 4, m_rgba, m_w*4);
	record(r, m_bits, m_size);
	return 0;
}
}

struct astcenc_context {uint32_t magic; astcenc_config config; std::atomic<int> busy; bool used;};
static std::atomic<int> g_astcLive;
int astcLive() {return g_astcLive;}

astcenc_error astcenc_config_init(astcenc_profile profile, unsigned bx, unsigned by, unsigned bz, float quality, unsigned flags,
	astcenc_config* c)
{
	std::memset(c, 0, sizeof *c);
	c->profile = profile; c->flags = flags; c->block_x = bx; c->block_y = by; c->block_z = bz; c->quality = quality;
	c->tune[0] = 1 + (unsigned)quality;
	return ASTCENC_SUCCESS;
}
astcenc_error astcenc_context_alloc(const astcenc_config* c, unsigned threads, astcenc_context** context)
{
	if (threads != 1) complain("astc", vh::fmt("%u threads", threads));
	if (c->block_z != 1 || !c->tune[0]) complain("astc", "configuration not set up");
	*context = new astcenc_context{0x41535443, *c, {0}, false};
	++g_astcLive;
	return ASTCENC_SUCCESS;
}
astcenc_error astcenc_compress_image(astcenc_context* c, astcenc_image* image, const astcenc_swizzle* sw, uint8_t* out, size_t len,
	unsigned thread)
{
	if (c->magic != 0x41535443) {complain("astc", "context is not live"); return ASTCENC_ERR_BAD_PARAM;}
	if (c->busy.fetch_add(1)) complain("astc", "context used by two threads");
	if (c->used) complain("astc", "context not reset");
	c->used = true;
	if (thread != 0 || image->data_type != ASTCENC_TYPE_F32 || image->dim_z != 1 || image->dim_x != c->config.block_x ||
		image->dim_y != c->config.block_y || len < 16)
		complain("astc", vh::fmt("image %ux%ux%u for blocks of %ux%u, %zu bytes", image->dim_x, image->dim_y, image->dim_z,
			c->config.block_x, c->config.block_y, len));
	Rec r;
	r.fn = "astc";
	r.opt = {c->config.quality, (double)(int)c->config.profile, (double)c->config.flags, (double)(int)sw->r, (double)(int)sw->g,
		(double)(int)sw->b, (double)(int)sw->a};
	px(r, image->dim_x, image->dim_y, 4, (const float*)image->data[0], image->dim_x*4);
	record(r, out, 16);
	c->busy.fetch_sub(1);
	return ASTCENC_SUCCESS;
}
astcenc_error astcenc_compress_reset(astcenc_context* c) {c->used = false; return ASTCENC_SUCCESS;}
void astcenc_context_free(astcenc_context* c)
{
	if (!c) return;
	if (c->magic != 0x41535443) {complain("astc", "context freed twice"); return;}
	if (c->busy) complain("astc", "context freed while in use");
	c->magic = 0;
	delete c;
	--g_astcLive;
}

namespace pvrtexlib
{
PVRTextureHeader::PVRTextureHeader(uint64_t f, unsigned w_, unsigned h_, unsigned d, unsigned mips, unsigned arr, unsigned faces,
	PVRTexLibColourSpace c, PVRTexLibVariableType, bool p) : format(f), w(w_), h(h_), cs(c), pre(p)
{
	if (f != PVRTGENPIXELID4('r', 'g', 'b', 'a', 8, 8, 8, 8) || d != 1 || mips != 1 || arr != 1 || faces != 1)
		complain("pvrtc", "unexpected header");
}
PVRTexture::PVRTexture(const PVRTextureHeader& h, const void*) : m_h(h), m_data((size_t)h.w*h.h*4, 0xCD) {}
bool PVRTexture::transcode(uint64_t f, int type, int cs, int q)
{
	Rec r;
	r.fn = "pvrtc";
	r.opt = {(double)q, (double)f, (double)(cs == m_h.cs), (double)m_h.pre};
	px(r, m_h.w, m_h.h, 4, m_data.data(), m_h.w*4);
	bool two = f == PVRTLPF_PVRTCI_2bpp_RGB || f == PVRTLPF_PVRTCI_2bpp_RGBA || f == PVRTLPF_PVRTCII_2bpp;
	unsigned bw = two ? 8 : 4;
	unsigned nx = std::max(2u, (m_h.w + bw - 1)/bw), ny = std::max(2u, (m_h.h + 3)/4);
	m_data.assign((size_t)nx*ny*8, 0);
	record(r, m_data.data(), 8);
	for (size_t i = 8; i < m_data.size(); ++i) m_data[i] = m_data[i - 8];
	(void)type;
	return true;
}
}
