// Streams that deliver or accept data in awkward ways.
#pragma once
#include <cstdint>
#include <istream>
#include <ostream>
#include <streambuf>
#include <vector>
#include <algorithm>
#include <cstring>

namespace vh
{

// Delivers at most chunk bytes per refill. Seekable unless pipe is set.
class ChunkIn : public std::streambuf
{
public:
	ChunkIn(const uint8_t* d, size_t n, size_t chunk, bool pipe) : m_data((char*)d), m_size(n), m_chunk(chunk), m_pipe(pipe)
	{
		setg(m_data, m_data, m_data);
	}
	uint64_t refills = 0, seeks = 0;

protected:
	int_type underflow() override
	{
		if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
		size_t pos = (size_t)(gptr() - m_data);
		if (pos >= m_size) return traits_type::eof();
		++refills;
		size_t n = std::min(m_chunk, m_size - pos);
		setg(m_data + pos, m_data + pos, m_data + pos + n);
		return traits_type::to_int_type(*gptr());
	}
	pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override
	{
		if (m_pipe) return pos_type(off_type(-1));
		off_type base = dir == std::ios_base::beg ? 0 : dir == std::ios_base::cur ? (off_type)(gptr() - m_data) : (off_type)m_size;
		off_type np = base + off;
		if (np < 0 || np > (off_type)m_size) return pos_type(off_type(-1));
		++seeks;
		setg(m_data + np, m_data + np, m_data + np);
		return pos_type(np);
	}
	pos_type seekpos(pos_type p, std::ios_base::openmode m) override {return seekoff(off_type(p), std::ios_base::beg, m);}

private:
	char* m_data;
	size_t m_size, m_chunk;
	bool m_pipe;
};

// Accepts up to limit bytes in total (over everything ever written), then refuses. Seekable.
class LimitOut : public std::streambuf
{
public:
	explicit LimitOut(uint64_t limit, bool seekable = true) : m_limit(limit), m_seekable(seekable) {}
	std::vector<uint8_t> data;
	uint64_t written = 0, refused = 0, refusedSeeks = 0;

protected:
	int_type overflow(int_type c) override
	{
		if (c == traits_type::eof()) return traits_type::not_eof(c);
		char ch = traits_type::to_char_type(c);
		return xsputn(&ch, 1) == 1 ? c : traits_type::eof();
	}
	std::streamsize xsputn(const char* s, std::streamsize n) override
	{
		uint64_t take = std::min<uint64_t>((uint64_t)n, m_limit - written);
		if (m_pos + take > data.size()) data.resize(m_pos + take);
		if (take) std::memcpy(data.data() + m_pos, s, take);
		m_pos += take;
		written += take;
		if (take < (uint64_t)n) ++refused;
		return (std::streamsize)take;
	}
	pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override
	{
		off_type base = dir == std::ios_base::beg ? 0 : dir == std::ios_base::cur ? (off_type)m_pos : (off_type)data.size();
		off_type np = base + off;
		if (!m_seekable || np < 0) {++refusedSeeks; return pos_type(off_type(-1));}
		m_pos = (size_t)np;
		return pos_type(np);
	}
	pos_type seekpos(pos_type p, std::ios_base::openmode m) override {return seekoff(off_type(p), std::ios_base::beg, m);}
	int sync() override {return 0;}

private:
	uint64_t m_limit;
	bool m_seekable;
	size_t m_pos = 0;
};

} // namespace vh
