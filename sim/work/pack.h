// Compressed data by the compression libraries themselves: 0 gzip, 1 bzip2, 2 lzma.
#pragma once
#include <string>
#include <cstring>
#include <zlib.h>
#include <bzlib.h>
#include <lzma.h>
namespace {
std::string pack(int t, const std::string &s) { std::string o(s.size() * 2 + 2000, 0);
  if (t == 0) { z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, 6, Z_DEFLATED, 31, 8, Z_DEFAULT_STRATEGY); z.next_in = (Bytef*)s.data(); z.avail_in = s.size(); z.next_out = (Bytef*)&o[0]; z.avail_out = o.size(); deflate(&z, Z_FINISH); o.resize(z.total_out); deflateEnd(&z); }
  else if (t == 1) { unsigned n = o.size(); BZ2_bzBuffToBuffCompress(&o[0], &n, (char*)s.data(), s.size(), 3, 0, 0); o.resize(n); }
  else { size_t p = 0; lzma_easy_buffer_encode(0, LZMA_CHECK_CRC32, nullptr, (const uint8_t*)s.data(), s.size(), (uint8_t*)&o[0], &p, o.size()); o.resize(p); } return o; }
bool unpack(int t, const std::string &s, std::string &o, size_t max) { o.assign(max + 64, 0);
  if (t == 0) { z_stream z; memset(&z, 0, sizeof z); inflateInit2(&z, 31); z.next_in = (Bytef*)s.data(); z.avail_in = s.size(); z.next_out = (Bytef*)&o[0]; z.avail_out = o.size(); int r = inflate(&z, Z_FINISH); size_t n = z.total_out, left = z.avail_in; inflateEnd(&z); o.resize(n); return r == Z_STREAM_END && left == 0; }
  if (t == 1) { unsigned n = o.size(); int r = BZ2_bzBuffToBuffDecompress(&o[0], &n, (char*)s.data(), s.size(), 0, 0); o.resize(r == BZ_OK ? n : 0); return r == BZ_OK; }
  uint64_t m = UINT64_MAX; size_t ip = 0, op = 0; int r = lzma_stream_buffer_decode(&m, 0, nullptr, (const uint8_t*)s.data(), &ip, s.size(), (uint8_t*)&o[0], &op, o.size()); o.resize(op); return r == LZMA_OK && ip == s.size(); }
}
