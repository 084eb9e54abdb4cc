// An encoder and decoder of the immutable form's bytes, written from the published layout alone.
#pragma once
#include "model.h"

namespace codec {
  using namespace mdl;

  enum Tag { OBJECT, ARRAY, STRING = 2, SMALL = 3, BIG = 4, I16 = 5, I32 = 6, I64 = 7, F32 = 8, F64 = 9, BOOL = 10, NUL = 11 };

  // Where the encoder put each structural number.
  struct Field {
    enum K { Bytes, Count, Offset, Type, KeyLen, Prefix, StrLen, Term, Content, Bool, Pad } k;
    size_t pos, width;
    size_t base, size;    // the aggregate (or string) the field belongs to
    size_t entries;       // its element count
  };

  struct How {
    Src* s = nullptr;     // with a source: non-canonical but legal choices
    bool wide = false;    // wider numbers and strings than needed
    std::vector<Field>* fields = nullptr;
  };

  std::string encode(Val const& v, How const& h = {});     // v is an object
  // Decodes exactly; strict: every detail of the layout (order, prefixes, widths, padding, sizes).
  bool decode(std::string const& bytes, Val& out, std::string& err, bool strict = true);

  u64 rd(std::string const& b, size_t pos, size_t width);
  void wr(std::string& b, size_t pos, size_t width, u64 v);
  // Mutates the bytes of an encoded document; returns a description.
  std::string corrupt(Src& s, std::string& b, std::vector<Field> const& fields);
  // A copy in which one declared size, count, offset or type is certain to reach outside the buffer
  // (or name no type). Empty if the document offers no such place.
  std::string out_of_range(Src& s, std::string const& b, std::vector<Field> const& fields, std::string& what);
}
