// Executes bit-bucket, Huffman and header-encoder scripts read from stdin
// against the C++ classes of the repository, and prints what they return.
#include <stdio.h>
#include <string.h>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "bit_bucket.h"
#include "header_freq_tables.h"
#include "huffman.h"
#include "trivial_http_parse.h"
#ifdef WITH_CODEC
#include "spdy4_headers_codec.h"
#endif

typedef std::vector<char> Bytes;

static Bytes unhex(const std::string& h) {
  Bytes out;
  if (h == "-") return out;
  for (size_t i = 0; i + 1 < h.size(); i += 2)
    out.push_back(static_cast<char>(strtol(h.substr(i, 2).c_str(), 0, 16)));
  return out;
}

template <typename T>
static std::string hex(T b, T e) {
  std::string out;
  char buf[4];
  for (; b != e; ++b) {
    snprintf(buf, sizeof(buf), "%02x", static_cast<unsigned char>(*b));
    out += buf;
  }
  return out.empty() ? "-" : out;
}

// A stream that arrives in pieces and may break off with an error.
class Pieces : public std::streambuf {
 public:
  Pieces(const Bytes& data, const std::vector<size_t>& sizes, long fail)
      : data_(data), sizes_(sizes), fail_(fail), at_(0), k_(0) {}

 protected:
  int_type underflow() {
    if (fail_ >= 0 && at_ >= static_cast<size_t>(fail_)) throw "i/o error";
    if (at_ >= data_.size()) return traits_type::eof();
    size_t n = sizes_.empty() ? data_.size() : sizes_[k_++ % sizes_.size()];
    size_t end = fail_ >= 0 ? static_cast<size_t>(fail_) : data_.size();
    if (n > end - at_) n = end - at_;
    // what was handed out before is gone
    piece_.reset(new Bytes(data_.begin() + at_, data_.begin() + at_ + n));
    at_ += n;
    setg(&(*piece_)[0], &(*piece_)[0], &(*piece_)[0] + n);
    return traits_type::to_int_type(*gptr());
  }

 private:
  Bytes data_;
  std::vector<size_t> sizes_;
  long fail_;
  size_t at_, k_;
  std::unique_ptr<Bytes> piece_;
};

static void show(const std::vector<HeaderFrame>& frames) {
  for (size_t i = 0; i < frames.size(); ++i) {
    printf(" [");
    for (size_t j = 0; j < frames[i].size(); ++j) {
      const KVPair& kv = frames[i][j];
      printf("%s%s=%s", j ? "," : "", hex(kv.key.begin(), kv.key.end()).c_str(),
             hex(kv.val.begin(), kv.val.end()).c_str());
    }
    printf("]");
  }
}

int main() {
  std::map<int, std::unique_ptr<BitBucket> > bbs;
  std::map<int, std::unique_ptr<Huffman> > huffs;
#ifdef WITH_CODEC
  std::map<int, std::unique_ptr<SPDY4HeadersCodec> > codecs;
#endif
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op;
    in >> op;
    if (op == "end") {
      bbs.clear();
      huffs.clear();
#ifdef WITH_CODEC
      codecs.clear();
#endif
      puts("end");
      fflush(stdout);
      continue;
    }
    if (op == "parse") {
      std::string h;
      long fail;
      int used;
      size_t n;
      std::vector<size_t> sizes;
      in >> h >> fail >> used;
      while (in >> n) sizes.push_back(n);
      Pieces buf(unhex(h), sizes, fail);
      std::istream is(&buf);
      std::vector<HeaderFrame> req, res;
      if (used & 1) req.push_back(HeaderFrame(1, KVPair("a", "b")));
      if (used & 2) res.push_back(HeaderFrame(1, KVPair("c", "d")));
      int ret = TrivialHTTPParse::ParseStream(is, &req, &res);
      printf("parsed %d q", ret);
      show(req);
      printf(" s");
      show(res);
      printf("\n");
      continue;
    }
    int b = 0;
    in >> b;
    if (op == "hstd") {
      int which;
      in >> which;
      if (!huffs[b].get()) huffs[b].reset(new Huffman);
      huffs[b]->Init(which ? FreqTables::request_freq_table
                           : FreqTables::response_freq_table);
      continue;
    }
    if (op == "hfreq") {
      FreqTable ft;
      for (unsigned int i = 0; i < ft.size(); ++i) {
        uint32_t f;
        in >> f;
        ft[i] = std::make_pair(static_cast<uint16_t>(i), f);
      }
      if (!huffs[b].get()) huffs[b].reset(new Huffman);
      huffs[b]->Init(ft);
      continue;
    }
#ifdef WITH_CODEC
    if (op == "codec") {
      int which;
      size_t state, vals;
      in >> which >> state >> vals;
      codecs[b].reset(new SPDY4HeadersCodec(which ? FreqTables::request_freq_table
                                            : FreqTables::response_freq_table));
      codecs[b]->SetMaxStateSize(state);
      codecs[b]->SetMaxVals(vals);
      printf("state %zu\n", codecs[b]->CurrentStateSize());
      continue;
    }
    if (op == "frame") {
      uint32_t stream, group, last;
      size_t n;
      in >> stream >> group >> last >> n;
      HeaderFrame hf;
      for (size_t i = 0; i < n; ++i) {
        std::string k, v;
        in >> k >> v;
        Bytes kb = unhex(k), vb = unhex(v);
        hf.push_back(KVPair(std::string(kb.begin(), kb.end()),
                            std::string(vb.begin(), vb.end())));
      }
      OutputStream os;
      codecs[b]->ProcessFrame(&os, stream, group, hf, last != 0);
      printf("frame %zu %zu %s\n", codecs[b]->CurrentStateSize(),
             os.BytesRequired(), hex(os.BytesBegin(), os.BytesEnd()).c_str());
      continue;
    }
#endif
    if (!bbs[b].get()) bbs[b].reset(new BitBucket);
    BitBucket& bb = *bbs[b];
    if (op == "bit") {
      int v;
      in >> v;
      bb.StoreBit(v);
    } else if (op == "u8") {
      uint32_t v;
      in >> v;
      bb.StoreBits8(v);
    } else if (op == "u16") {
      uint32_t v;
      in >> v;
      bb.StoreBits16(v);
    } else if (op == "u32") {
      uint32_t v;
      in >> v;
      bb.StoreBits32(v);
    } else if (op == "bits") {
      size_t n;
      std::string h;
      in >> n >> h;
      bb.StoreBits(unhex(h), n);
    } else if (op == "bytes") {
      std::string h;
      in >> h;
      Bytes v = unhex(h);
      bb.StoreBytes(v.begin(), v.end());
    } else if (op == "al") {
      std::string h;
      in >> h;
      bb.StoreByteAligned(unhex(h));
    } else if (op == "a8") {
      uint32_t v;
      in >> v;
      bb.StoreByteAlignedUint8(v);
    } else if (op == "a16") {
      uint32_t v;
      in >> v;
      bb.StoreByteAlignedUint16(v);
    } else if (op == "a32") {
      uint32_t v;
      in >> v;
      bb.StoreByteAlignedUint32(v);
    } else if (op == "ga") {
      int w;
      size_t pos;
      in >> w >> pos;
      printf("got %u\n", w == 8 ? bb.GetByteAlignedUint8(pos)
                      : w == 16 ? bb.GetByteAlignedUint16(pos)
                                : bb.GetByteAlignedUint32(pos));
    } else if (op == "get") {
      size_t n;
      in >> n;
      Bytes out;
      bb.GetBits(&out, n);
      printf("got %s\n", hex(out.begin(), out.end()).c_str());
    } else if (op == "gbit") {
      printf("got %d\n", bb.GetBit() ? 1 : 0);
    } else if (op == "peek") {
      size_t n;
      uint32_t w;
      in >> n >> w;
      bb.ShiftBitsIntoWord(&w, n);
      printf("got %u\n", w);
    } else if (op == "skip") {
      size_t n;
      in >> n;
      bb.ConsumeBits(n);
    } else if (op == "seek") {
      size_t n;
      in >> n;
      bb.Seek(n);
    } else if (op == "clear") {
      bb.Clear();
    } else if (op == "state") {
      printf("state %zu %zu %d %zu %zu %s\n", bb.NumBits(), bb.BitsConsumed(),
             bb.AllConsumed() ? 1 : 0, bb.BitsRemaining(), bb.BytesRequired(),
             hex(bb.BytesBegin(), bb.BytesEnd()).c_str());
    } else if (op == "henc") {
      int t, eof;
      std::string h;
      in >> t >> h >> eof;
      Bytes v = unhex(h);
      huffs[t]->Encode(&bb, std::string(v.begin(), v.end()), eof);
    } else if (op == "hdec") {
      int t, eof, bits;
      in >> t >> eof >> bits;
      std::string out;
      huffs[t]->Decode(&out, &bb, eof, bits);
      printf("got %s\n", hex(out.begin(), out.end()).c_str());
    } else {
      printf("bad %s\n", op.c_str());
    }
  }
  return 0;
}
