#pragma once
#include "stub.h"
int CreateOptionsBC4(void** o);
int CreateOptionsBC5(void** o);
int CreateOptionsBC6(void** o);
int DestroyOptionsBC4(void* o);
int DestroyOptionsBC5(void* o);
int DestroyOptionsBC6(void* o);
int SetQualityBC4(void* o, float q);
int SetQualityBC5(void* o, float q);
int SetQualityBC6(void* o, float q);
int SetSignedBC6(void* o, bool s);
int CompressBlockBC4S(const char* src, unsigned int stride, unsigned char block[8], const void* o = nullptr);
int CompressBlockBC5S(const char* src1, unsigned int stride1, const char* src2, unsigned int stride2, unsigned char block[16],
	const void* o = nullptr);
int CompressBlockBC6(const unsigned short* src, unsigned int strideInShorts, unsigned char block[16], const void* o = nullptr);
