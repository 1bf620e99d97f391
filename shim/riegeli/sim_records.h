// Stand-in for the parts of the Riegeli library that arolla uses: a file of
// records, each with its length and a checksum, on a storage that the harness
// lets fail.  Semantics that matter here are those of the real library: a
// writer that failed stays failed, a reader that meets the end of the data
// between records stops without an error, and damage is an error.
#ifndef VERIF_RIEGELI_SIM_RECORDS_H_
#define VERIF_RIEGELI_SIM_RECORDS_H_
#include <cstdint>
#include <cstring>
#include <string>
#include <utility>
#include "absl/status/status.h"
#include "absl/strings/string_view.h"
#include "google/protobuf/message_lite.h"

namespace riegeli {
namespace sim {
// Set per thread by a harness.  `what` is 'w' (writing record `index`), 'c'
// (closing the writer), 'r' (reading record `index`) or 'C' (closing the reader).
inline thread_local absl::Status (*fault)(char what, uint64_t index) = nullptr;
inline absl::Status Fault(char what, uint64_t index) { return fault ? fault(what, index) : absl::OkStatus(); }
inline uint32_t Sum(absl::string_view s) {
  uint32_t h = 2166136261u;
  for (unsigned char c : s) h = (h ^ c) * 16777619u;
  return h;
}
inline void Append(std::string& out, absl::string_view rec) {
  uint32_t hdr[2] = {static_cast<uint32_t>(rec.size()), Sum(rec)};
  out.append(reinterpret_cast<const char*>(hdr), 8);
  out.append(rec.data(), rec.size());
}
}  // namespace sim

class StringWriter {
 public:
  explicit StringWriter(std::string* dest) : dest_(dest) {}
  std::string* dest() const { return dest_; }
 private:
  std::string* dest_;
};
class StringReader {
 public:
  explicit StringReader(absl::string_view src) : src_(src) {}
  absl::string_view src() const { return src_; }
 private:
  absl::string_view src_;
};

class RecordWriterBase {
 public:
  class Options {
   public:
    absl::Status FromString(absl::string_view text) {
      if (text.find('?') != absl::string_view::npos) return absl::InvalidArgumentError("unknown riegeli option");
      return absl::OkStatus();
    }
  };
  bool WriteRecord(const google::protobuf::MessageLite& m) {
    if (!status_.ok()) return false;
    status_ = sim::Fault('w', n_++);
    if (!status_.ok()) return false;
    std::string s;
    if (!m.SerializeToString(&s)) { status_ = absl::InvalidArgumentError("cannot serialize a record"); return false; }
    sim::Append(buf_, s);
    return true;
  }
  const absl::Status& status() const { return status_; }
  bool ok() const { return status_.ok(); }
  bool Close() {
    if (closed_) return status_.ok();
    closed_ = true;
    if (status_.ok()) status_ = sim::Fault('c', 0);
    if (dest_) *dest_ = status_.ok() ? buf_ : buf_.substr(0, buf_.size() / 2);
    return status_.ok();
  }

 protected:
  explicit RecordWriterBase(std::string* dest) : dest_(dest) {}
  std::string* dest_;
  std::string buf_;
  uint64_t n_ = 0;
  bool closed_ = false;
  absl::Status status_;
};
template <typename Dest>
class RecordWriter : public RecordWriterBase {
 public:
  explicit RecordWriter(Dest d, Options = Options()) : RecordWriterBase(d.dest()) {}
};
template <typename Dest> RecordWriter(Dest, RecordWriterBase::Options) -> RecordWriter<Dest>;

class RecordReaderBase {
 public:
  bool ReadRecord(google::protobuf::MessageLite& m) {
    m.Clear();
    if (!status_.ok() || pos_ == src_.size()) return false;
    status_ = sim::Fault('r', n_++);
    if (!status_.ok()) return false;
    uint32_t hdr[2];
    if (src_.size() - pos_ < 8) { truncated_ = true; return false; }
    memcpy(hdr, src_.data() + pos_, 8);
    if (src_.size() - pos_ - 8 < hdr[0]) { truncated_ = true; return false; }
    absl::string_view rec = src_.substr(pos_ + 8, hdr[0]);
    if (sim::Sum(rec) != hdr[1]) { status_ = absl::DataLossError("corrupted record"); return false; }
    pos_ += 8 + hdr[0];
    if (!m.ParseFromArray(rec.data(), static_cast<int>(rec.size()))) { status_ = absl::InvalidArgumentError("failed to parse a record"); return false; }
    return true;
  }
  const absl::Status& status() const { return status_; }
  bool ok() const { return status_.ok(); }
  bool Close() {
    if (status_.ok() && truncated_) status_ = absl::DataLossError("truncated file");
    if (status_.ok()) status_ = sim::Fault('C', 0);
    return status_.ok();
  }

 protected:
  explicit RecordReaderBase(absl::string_view src) : src_(src) {}
  absl::string_view src_;
  size_t pos_ = 0;
  uint64_t n_ = 0;
  bool truncated_ = false;
  absl::Status status_;
};
template <typename Src>
class RecordReader : public RecordReaderBase {
 public:
  explicit RecordReader(Src s) : RecordReaderBase(s.src()) {}
};
}  // namespace riegeli
#endif
