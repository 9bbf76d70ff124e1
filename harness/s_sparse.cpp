#include "seq.h"
#include <unistd.h>
#include <sys/stat.h>
#include "data/sparse_matrix/sparse_matrix.h"
#include "system/sysstat.h"
using namespace pfi::data::sparse_matrix;
typedef std::vector<std::pair<int, unsigned char> > vrow; typedef std::map<int, unsigned char> mrow; typedef pfi::data::unordered_map<int, unsigned char> urow;
static long free_mem = 1 << 20;
namespace pfi { namespace system { namespace sysstat { int get_sysstat(sysstat_ret& s) { s.loadavg = 0; s.total_memory = 1ull << 32; s.free_memory = free_mem; return 0; } } } }   // free memory decides how transposing is split
static std::string file(long n) { char b[40]; sprintf(b, "/m%d-%ld", (int)getpid(), n); return std::string(getenv("VERIF_SCRATCH")) + b; }
static std::string jp(int c, int v) { return "[" + jnum(c) + "," + jnum(v) + "]"; }
void run_case(const std::vector<words>& c) {
  event("new").a(0);
  { FILE* f = freopen("/dev/null", "w", stderr); (void)f; }
  for (int n = 0; n < 5; n++) { unlink(file(n).c_str()); unlink((file(n) + ".offset").c_str()); }
  sparse_matrix_writer* w = new sparse_matrix_writer; sparse_matrix_reader r;
  for (size_t i = 0; i < c.size(); i++) {
    const words& k = c[i]; const std::string& op = k[0]; std::string all; for (size_t j = 1; j < k.size(); j++) all += k[j] + " "; doing(op, "\"" + all + "\"");
    event e(op);
    if (op == "wopen") e.a(num(k[1])).r(w->open(file(num(k[1]))));
    else if (op == "wrow") {
      vrow v; mrow m; std::vector<std::string> js;
      for (size_t j = 2; j + 1 < k.size(); j += 2) { v.push_back(std::make_pair((int)num(k[j]), (unsigned char)num(k[j + 1]))); m[num(k[j])] = num(k[j + 1]); js.push_back(jp(num(k[j]), num(k[j + 1]))); }
      if (k[1] == "m") w->append_row(m); else w->append_row(v);
      e.ar(jlist(js));
    }
    else if (op == "wnum") e.r(w->row_num());
    else if (op == "wclose") w->close();
    else if (op == "wdel") { delete w; w = new sparse_matrix_writer; }
    else if (op == "ropen") e.a(num(k[1])).r(r.open(file(num(k[1]))));
    else if (op == "rclose") r.close();
    else if (op == "rnum") e.r(r.row_num());
    else if (op == "rsize") { int n = num(k[1]); e.a(n).r(r.get_row_size(n)).r(r.get_row_nonzero_value_num(n)); }
    else if (op == "rget") {
      int n = num(k[1]); e.a(n);
      if (k[2] == "v") { vrow v; if (num(k[3])) if (n < r.row_num()) v.resize(num(k[3])); r.get_row(n, v); for (size_t j = 0; j < v.size(); j++) e.rr(jp(v[j].first, v[j].second)); }
      else { mrow m; if (k[2] == "m") r.get_row(n, m); else { urow u; r.get_row(n, u); m.insert(u.begin(), u.end()); } for (mrow::iterator p = m.begin(); p != m.end(); ++p) e.rr(jp(p->first, p->second)); }
    }
    else if (op == "cut") {   // drop the last k[2] bytes (at least one) of the offset file
      std::string f = file(num(k[1])) + ".offset"; struct stat st; e.a(num(k[1]));
      if (stat(f.c_str(), &st) == 0) { long n = st.st_size - num(k[2]); if (n < 0) n = 0; if (truncate(f.c_str(), n)) {} }
    }
    else if (op == "big") {   // R rows of n entries, column j*step + i%5, value (i+j)%255+1; read in different order; transposed
      long R = num(k[1]), n = num(k[2]), step = num(k[3]), bad = 0; e.a(R).a(n).a(step);
      { sparse_matrix_writer bw; bw.open(file(3)); for (long a = 0; a < R; a++) { vrow v; for (long j = 0; j < n; j++) v.push_back(std::make_pair((int)(j * step + a % 5), (unsigned char)((a + j) % 255 + 1))); bw.append_row(v); } }
      { sparse_matrix_reader br; e.r(br.open(file(3))).r(br.row_num());
        for (long q = 0; q < R; q++) { long a = (q * 7919 + 3) % R; vrow v; br.get_row(a, v); bool ok = (long)v.size() == n && br.get_row_size(a) == n; for (long j = 0; ok && j < n; j++) ok = v[j].first == j * step + a % 5 && v[j].second == (a + j) % 255 + 1; bad += !ok; } }
      e.r(bad);
      if (num(k[4])) { free_mem = num(k[4]); e.r(matrix_transpose(file(3), file(4))); bad = 0; sparse_matrix_reader br; br.open(file(4)); long T = br.row_num(); e.r(T);
        for (long t = 0; t < T; t++) { vrow v, x; br.get_row(t, v); for (long a = 0; a < R; a++) { long d = t - a % 5; if (d >= 0 && d % step == 0 && d / step < n) x.push_back(std::make_pair((int)a, (unsigned char)((a + d / step) % 255 + 1))); } bad += v != x; } e.r(bad); }
      unlink(file(3).c_str()); unlink((file(3) + ".offset").c_str()); unlink(file(4).c_str()); unlink((file(4) + ".offset").c_str());
    }
    else if (op == "count") {   // an offset file whose number of rows cannot be right
      std::string f = file(num(k[1])) + ".offset"; struct stat st; e.a(num(k[1]));
      if (stat(f.c_str(), &st) == 0) { int v = num(k[2]); FILE* h = fopen(f.c_str(), "r+"); fwrite(&v, sizeof v, 1, h); fclose(h); }
    }
    else if (op == "trans") { free_mem = num(k[3]); e.a(num(k[1])).a(num(k[2])).r(matrix_transpose(file(num(k[1])), file(num(k[2])))); }
  }
  delete w;
}
