// D16: the strongly typed interface agrees with the untyped one.
#include "d16.h"
using namespace d16;
std::string d16::who;

namespace {
  void one(Src& s) {
    Opt o; o.depth = 2; o.wide = s.chance(1, 20); o.big = s.chance(1, 20);
    Val v;
    switch (s.weigh({4, 4, 2, 2, 1, 1})) {
      case 0: v = gen_obj(s, o); break;
      case 1: v = gen_arr(s, o); break;
      case 2: v = Val::str(gen_str(s, o)); break;
      case 3: v = s.flip() ? Val::integer(gen_int(s)) : Val::dec(gen_dec(s, o)); break;
      case 4: v = Val::boolean(s.flip()); break;
      default: v = Val::null();
    }
    label_val(s, v);
    if (v.t == Val::Null || v.t == Val::Bool || v.size() || v.t == Val::Int || v.t == Val::Dec) s.nontrivial();
    int mode = s.draw(4);
    who = std::string(mode == HeapM ? "heap " : mode == PackM ? "mutable packet " : mode == PackF ? "finalized packet " : "buffer ") + tname(v.t);
    NOTE(who + " " + show(v));
    switch (s.weigh({4, 3, 2})) {
      case 0:
        s.label("reads");
        if (mode == HeapM) reads_heap(s, v, build_heap(v, &s), o);
        else if (mode == PackM) reads_packet(s, v, build_packet(v, &s), o);
        else if (mode == PackF) reads_packet(s, v, dart::packet {build_subbuffer(v)}, o);
        else reads_buffer(s, v, build_subbuffer(v), o);
        break;
      case 1:
        s.label("mutators");
        if (mode == HeapM || mode == BufM) muts_heap(s, v, o); else muts_packet(s, v, mode == PackF, o);
        break;
      default:
        s.label("construction");
        if (mode == HeapM) make_heap(s, o); else if (mode == BufM) make_buffer(s, o); else make_packet(s, o);
    }
  }
}

eng::Prop eng::prop {
  "D16",
  "a document of each type in each form is wrapped in its strongly typed class and every operation of that class is run beside the same operation on the untyped document; results, positions and kinds of error must coincide and the documents must stay equal; non-trivial when the wrapped value is a scalar or a non-empty aggregate",
  one, 3000, 60000
};
