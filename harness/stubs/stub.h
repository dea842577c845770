// Stand-ins for the block encoders Cuttlefish hands its blocks to. Each call is recorded with everything it was given, and
// the "encoded" block is a digest of that record, so that a block found in a texture leads back to the call that made it.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

namespace stub
{
struct Rec
{
	std::string fn;
	std::vector<double> opt;   // options, per function
	unsigned w = 0, h = 0, ch = 0;
	std::vector<double> px;    // w*h*ch, row-major
};
void record(const Rec& r, void* out, size_t size); // thread-safe; writes the digest
void complain(const char* key, const std::string& detail); // misuse of the encoder's interface
bool find(const void* block, size_t size, Rec& out);
void clear();
size_t calls();
void setPause(unsigned us); // Encoders take up to this long from now on, so that all threads are inside one at once.
// Nothing may be handed to an encoder that has not been set up.
}
