#pragma once
#include "stub.h"
struct rgba_surface {uint8_t* ptr; int32_t width, height, stride;};
struct bc6h_enc_settings {int level; int ready;};
void GetProfile_bc6h_veryfast(bc6h_enc_settings* s);
void GetProfile_bc6h_fast(bc6h_enc_settings* s);
void GetProfile_bc6h_basic(bc6h_enc_settings* s);
void GetProfile_bc6h_slow(bc6h_enc_settings* s);
void GetProfile_bc6h_veryslow(bc6h_enc_settings* s);
void CompressBlocksBC6H(const rgba_surface* src, uint8_t* dst, bc6h_enc_settings* s);
