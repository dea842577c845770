#pragma once
#include "stub.h"
namespace ispc
{
struct bc7e_compress_block_params {uint32_t level; bool perceptual; uint32_t ready;};
void bc7e_compress_block_init();
void bc7e_compress_block_params_init_ultrafast(bc7e_compress_block_params* p, bool perceptual);
void bc7e_compress_block_params_init_fast(bc7e_compress_block_params* p, bool perceptual);
void bc7e_compress_block_params_init_basic(bc7e_compress_block_params* p, bool perceptual);
void bc7e_compress_block_params_init_slow(bc7e_compress_block_params* p, bool perceptual);
void bc7e_compress_block_params_init_slowest(bc7e_compress_block_params* p, bool perceptual);
void bc7e_compress_blocks(uint32_t n, uint64_t* out, const uint32_t* rgba, const bc7e_compress_block_params* p);
}
