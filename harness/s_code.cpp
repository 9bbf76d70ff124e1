#include "seq.h"
#include "data/code/code.h"
#include <unistd.h>
using namespace pfi::data::code;
static std::vector<long> hl(unsigned v) { std::vector<long> r; r.push_back(v >> 16); r.push_back(v & 65535); return r; }
void run_case(const std::vector<words>& c) {
  event("new").a(0);
  encoder en; decoder* de = 0; std::vector<unsigned char> buf; std::string scratch;
  for (size_t i = 0; i < c.size(); i++) {
    const words& w = c[i]; const std::string& op = w[0];
    if (op == "put") {
      unsigned v = strtoul(w[2].c_str(), 0, 10); unsigned k = num(w[3]); doing("put", "\"" + w[1] + "\"");
      event e("put"); e.ar("\"" + w[1] + "\"").a(hl(v)).a(k);
      if (w[1] == "word") en.word_with_length(v, k); else if (w[1] == "gamma") en.gamma(v); else if (w[1] == "delta") en.delta(v);
      else if (w[1] == "rice") en.rice(v, k); else if (w[1] == "byte") en.byte(v); else en.prefix_code(v);
    } else if (op == "bytes") { buf = en.get_bytes(); event("bytes").a(0).rs(std::string(buf.begin(), buf.end())); }
    else if (op == "open") {  // no event of its own: how the decoder is attached must not matter
      if (!de) { de = new decoder; if (de->is_open()) event("isopen"); }
      if (w[1] == "mem") { buf.resize(buf.size() + 8); de->attach(&buf[0]); }
      else if (w[1] == "stream") { std::stringstream ss; size_t n = buf.size(); long k = en.flush(ss); event("flush").a(0).r(k); de->attach(ss, n); }
      else { scratch = std::string(getenv("VERIF_SCRATCH")) + "/code." + jnum(getpid()); long k = en.flush(scratch); event("flush").a(0).r(k); k = de->attach(scratch); event("attach").a(1).r(k); }
      if (!de->is_open()) event("notopen");
    } else if (op == "again") event("again").a(0);       // the same encoder and decoder once more
    else if (op == "detach") { de->detach(); event("detach").a(0).r(de->is_open()); }
    else if (op == "nofile") { decoder d; long k = d.attach(std::string(getenv("VERIF_SCRATCH")) + "/none"); event("attach").a(0).r(k); }
    else if (op == "seek") { event e("seek"); e.a(num(w[1])).a(num(w[2])); de->seek(num(w[1]), num(w[2])); }
    else if (op == "get") {
      unsigned k = num(w[2]); doing("get", "\"" + w[1] + "\""); event e("get"); e.ar("\"" + w[1] + "\"").a(k).a(w[1] == "word" && k == 0);
      unsigned v = w[1] == "word" ? de->word_with_length(k) : w[1] == "gamma" ? de->gamma() : w[1] == "delta" ? de->delta() : w[1] == "rice" ? de->rice(k) : w[1] == "byte" ? de->byte() : de->prefix_code();
      e.r(hl(v));
    }
  }
  delete de; if (!scratch.empty()) unlink(scratch.c_str());
}
