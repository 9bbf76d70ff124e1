// Common driver of the sequential components.  A case is a list of command
// lines; running it yields a list of events {op,a,x,r} (one JSON array a line).
#ifndef VERIF_SEQ_H
#define VERIF_SEQ_H
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <sstream>

typedef std::vector<std::string> words;
// implemented by the component driver; emits events
void run_case(const std::vector<words>& cmds);

std::string unhex(const std::string& h);      // "-" is the empty string
inline long num(const std::string& s) { return strtol(s.c_str(), 0, 10); }

struct event {
  std::string op_, a_, r_; int x_;
  explicit event(const std::string& op) : op_(op), x_(0) {}
  ~event();                                     // emits
  event& a(long v); event& as(const std::string& bytes); event& a(const std::vector<long>& v);
  event& ar(const std::string& rawjson);
  event& r(long v); event& rs(const std::string& bytes); event& r(const std::vector<long>& v);
  event& rr(const std::string& rawjson);        // raw JSON element
  event& x(int kind) { x_ = kind; r_.clear(); return *this; }
};
std::string jbytes(const std::string& s);       // [1,2,3]
std::string jlist(const std::vector<std::string>& raw);
std::string jnum(long v);
// remember what is being done, so that a crash or hang shows it
void doing(const std::string& op, const std::string& args_json);
#endif
