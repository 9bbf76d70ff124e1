From 6a5b9c02a409425e9053fa3cd345a72b62139011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:56 +0000
Subject: [PATCH 01/57] fix: qsem::wait(q) must take q units, not one

---
 src/concurrent/qsem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/concurrent/qsem.h b/src/concurrent/qsem.h
index 0191c90..8a4f2b8 100644
--- a/src/concurrent/qsem.h
+++ b/src/concurrent/qsem.h
@@ -56,7 +56,7 @@ public:
       if (lock) {
         while (quantity < q)
           cond.wait(m);
-        quantity--;
+        quantity -= q;
         return true;
       }
     }
-- 
2.43.0


From 6bf381015ab509e207d99a3dd05208c92b43cc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:34 +0000
Subject: [PATCH 02/57] fix: rw_mutex::read_lock(0) reported success and
 failure swapped

---
 src/concurrent/rwmutex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/concurrent/rwmutex.cpp b/src/concurrent/rwmutex.cpp
index a5e610e..3815b46 100644
--- a/src/concurrent/rwmutex.cpp
+++ b/src/concurrent/rwmutex.cpp
@@ -96,7 +96,7 @@ bool rw_mutex::impl::read_lock(double sec)
   if (!valid) return false;
 
   if (sec<1e-9)
-    return pthread_rwlock_tryrdlock(&lk);
+    return pthread_rwlock_tryrdlock(&lk)==0;
 
   timespec end=to_timespec(get_clock_time()+sec);
   return pthread_rwlock_timedrdlock(&lk, &end)==0;
-- 
2.43.0


From c783d7595af388c8596c9662042728dac875b798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:39 +0000
Subject: [PATCH 03/57] fix: strip() of wide strings passed characters beyond
 isspace()'s range

---
 src/data/string/utility.h | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/data/string/utility.h b/src/data/string/utility.h
index b4b6982..09e6ca1 100644
--- a/src/data/string/utility.h
+++ b/src/data/string/utility.h
@@ -41,6 +41,18 @@ namespace pfi{
 namespace data{
 namespace string{
 
+namespace detail{
+
+// isspace() is only defined for the values of unsigned char;
+// String may have wider characters.
+template <class Char>
+inline bool is_space(Char c)
+{
+  return c >= 0 && c <= 0xff && isspace(static_cast<int>(c));
+}
+
+} // detail
+
 template <class String, class Char, class Iterator>
 void split(const String &str, Char sep, Iterator p)
 {
@@ -106,11 +118,11 @@ void strip(const String &str, String &res)
   typename String::const_iterator beg = str.begin();
   typename String::const_iterator end = str.end();
 
-  while (beg != end && isspace(*beg)) ++beg;
+  while (beg != end && detail::is_space(*beg)) ++beg;
 
   while (beg != end) {
     --end;
-    if (!isspace(*end)) {
+    if (!detail::is_space(*end)) {
       end++;
       break;
     }
@@ -133,7 +145,7 @@ void lstrip(const String &str, String &res)
   typename String::const_iterator beg = str.begin();
   typename String::const_iterator end = str.end();
 
-  while (beg != end && isspace(*beg)) ++beg;
+  while (beg != end && detail::is_space(*beg)) ++beg;
 
   String(beg, end).swap(res);
 }
@@ -154,7 +166,7 @@ void rstrip(const String &str, String &res)
 
   while (beg != end) {
     --end;
-    if (!isspace(*end)) {
+    if (!detail::is_space(*end)) {
       end++;
       break;
     }
-- 
2.43.0


From 5bb29ff0b87da1dfcc681912f7be90c855089c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:00 +0000
Subject: [PATCH 04/57] fix: kmp with an empty query wrote past the end of its
 table

---
 src/data/string/kmp.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data/string/kmp.h b/src/data/string/kmp.h
index 81fa474..6edcf27 100644
--- a/src/data/string/kmp.h
+++ b/src/data/string/kmp.h
@@ -45,6 +45,7 @@ class kmp {
 public:
  explicit kmp(const T& q) {
    query=q;
+   if (query.size()==0) return;
    next=std::vector<int>(query.size());
    int t=next[0]=0;
    for (int i=1;i<(int)query.size();++i) {
@@ -56,6 +57,9 @@ public:
 
  size_t find(const T& text, int offset = 0) const
  {
+   if (query.size()==0)
+     return offset<=(int)text.size()?(size_t)offset:std::string::npos;
+
    int t=0;
    for (int i=offset;i<(int)text.size();++i) {
      while(t>0&&text[i]!=query[t]) t=next[t-1];
-- 
2.43.0


From 6d940668c2edadc1f6576797a649faf4797623d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:46 +0000
Subject: [PATCH 05/57] fix: aho_corasick could not match words containing NUL
 characters

---
 src/data/string/aho_corasick.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/data/string/aho_corasick.cpp b/src/data/string/aho_corasick.cpp
index 6393108..2fc8cb7 100644
--- a/src/data/string/aho_corasick.cpp
+++ b/src/data/string/aho_corasick.cpp
@@ -55,8 +55,9 @@ void aho_corasick::construct(const vector<pair<std::string, int> > &words)
   if (words.empty()) return;
 
   // create double array trie
-  int tbl[256]={};
-  int children[256]={};
+  // label 0 is the end of a word, label c+1 is the character c
+  int tbl[257]={};
+  int children[257]={};
   int children_num=0;
 
   int bef_base=1;
@@ -64,7 +65,7 @@ void aho_corasick::construct(const vector<pair<std::string, int> > &words)
   stack<pair<pair<int, int>, pair<int,int> > > ss;
   ss.push(make_pair(make_pair(0,0), make_pair(0,words.size())));
 
-  nodes.resize(257);
+  nodes.resize(258);
 
   while(!ss.empty()){
     int pos=ss.top().first.first;
@@ -80,7 +81,7 @@ void aho_corasick::construct(const vector<pair<std::string, int> > &words)
       nodes[pos].output=words[ix].second;
     
     for (int i=0;i<n;i++){
-      int c=dep<(int)words[ix+i].first.length()?(unsigned char)words[ix+i].first[dep]:0;
+      int c=dep<(int)words[ix+i].first.length()?(unsigned char)words[ix+i].first[dep]+1:0;
       if (tbl[c]++==0)
         children[children_num++]=c;
     }
@@ -103,7 +104,7 @@ void aho_corasick::construct(const vector<pair<std::string, int> > &words)
       int i=children[ci];
       if (i>0 && tbl[i]>0){
         int nix=nodes[pos].base+i;
-        if (nix+256>=(int)nodes.size()) nodes.resize(nix+256);
+        if (nix+257>=(int)nodes.size()) nodes.resize(nix+257);
         nodes[nix].check=pos;
         ss.push(make_pair(make_pair(nix, dep+1), make_pair(ix+cur, tbl[i])));
       }
@@ -122,7 +123,7 @@ void aho_corasick::construct(const vector<pair<std::string, int> > &words)
     if (pos>0 && nodes[nodes[pos].fail].output!=-1 && nodes[pos].output==-1)
       nodes[pos].output=-2;
     
-    for (int i=0;i<256;++i) {
+    for (int i=0;i<257;++i) {
       if (nodes[nodes[pos].base+i].check!=pos)
         continue;
 
@@ -142,7 +143,7 @@ void aho_corasick::search(const std::string& s, vector<pair<int,int> >& res) con
 
   int pos=0;
   for (size_t i=0;i<s.size();++i) {
-    int c=(unsigned char)s[i];
+    int c=(unsigned char)s[i]+1;
     while(pos>0 && nodes[nodes[pos].base+c].check!=pos) pos=nodes[pos].fail;
     if (nodes[nodes[pos].base+c].check!=pos) continue;
     pos=nodes[pos].base+c;
-- 
2.43.0


From 9c015fd495a3106b79ef9c97b93ecc4b30189d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:44 +0000
Subject: [PATCH 06/57] fix: longest_increasing_subsequence truncated elements
 that are not int

---
 src/data/string/algorithm.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/data/string/algorithm.h b/src/data/string/algorithm.h
index bb4ca1a..9050b78 100644
--- a/src/data/string/algorithm.h
+++ b/src/data/string/algorithm.h
@@ -66,14 +66,15 @@ namespace string {
 
   template<typename A>
   int longest_increasing_subsequence(const A& a) {
-    if (a.size()==0) return 0;
-    
-    std::vector<int> tbl(a.size(),INT_MAX),id(a.size());
+    // tbl[k]: the smallest last element of increasing subsequences of length k+1
+    std::vector<typename A::value_type> tbl;
     for (size_t i=0;i<a.size();++i) {
-      id[i]=std::lower_bound(tbl.begin(),tbl.end(),a[i])-tbl.begin();
-      tbl[id[i]]=a[i];
+      typename std::vector<typename A::value_type>::iterator p
+        =std::lower_bound(tbl.begin(),tbl.end(),a[i]);
+      if (p==tbl.end()) tbl.push_back(a[i]);
+      else *p=a[i];
     }
-    return *max_element(id.begin(),id.end())+1;
+    return tbl.size();
   }
 
 } // string
-- 
2.43.0


From d9c01b3d687e1c0d8a87c2d5152974b0c9ac9486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:31 +0000
Subject: [PATCH 07/57] fix: decoder::byte() did not skip a partly read byte as
 the encoder does

---
 src/data/code/code.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/data/code/code.cpp b/src/data/code/code.cpp
index 900de9e..48bbfde 100644
--- a/src/data/code/code.cpp
+++ b/src/data/code/code.cpp
@@ -181,6 +181,11 @@ namespace code {
   }
 
   unsigned char decoder::byte() {
+    // the encoder starts a new byte
+    if (bit) {
+      ++pos;
+      bit=0;
+    }
     return bytes[pos++];
   }
 
-- 
2.43.0


From d74be440074192f1ca7618ca7dae5e4ee84bb456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:40 +0000
Subject: [PATCH 08/57] fix: json_parser lost a number's last character at the
 end of the stream

---
 src/text/json/parser.cpp | 14 +++++++-------
 src/text/json/parser.h   |  5 ++++-
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/text/json/parser.cpp b/src/text/json/parser.cpp
index e00e6ed..699b76d 100644
--- a/src/text/json/parser.cpp
+++ b/src/text/json/parser.cpp
@@ -138,7 +138,7 @@ json json_parser::parse()
 void json_parser::parse_stream(callback& cb)
 {
   ss();
-  if (cbuf < 0 && it == end)
+  if (at_end())
     throw lang::end_of_data("json_parser reached end of data");
   return parse_impl(cb);
 }
@@ -242,27 +242,27 @@ void json_parser::parse_number(callback& cb)
     incr();
   }
 
-  while ((cbuf != -1 || it != end) && safe_isdigit(peek())) {
+  while (!at_end() && safe_isdigit(peek())) {
     src += peek();
     incr();
   }
 
-  if (it != end && peek() == '.') {
+  if (!at_end() && peek() == '.') {
     is_frac = true;
     src += '.';
     incr();
-    while (it != end && safe_isdigit(peek())) {
+    while (!at_end() && safe_isdigit(peek())) {
       src += peek();
       incr();
     }
   }
 
-  if (it != end && (peek() == 'e' || peek() == 'E')) {
+  if (!at_end() && (peek() == 'e' || peek() == 'E')) {
     is_frac = true;
     src += peek();
     incr();
 
-    if (it == end)
+    if (at_end())
       error("after exp, digit required.");
 
     if (peek() == '+' || peek() == '-') {
@@ -271,7 +271,7 @@ void json_parser::parse_number(callback& cb)
     }
   }
 
-  while (it != end && safe_isdigit(peek())) {
+  while (!at_end() && safe_isdigit(peek())) {
     src += peek();
     incr();
   }
diff --git a/src/text/json/parser.h b/src/text/json/parser.h
index 686f930..c78c78b 100644
--- a/src/text/json/parser.h
+++ b/src/text/json/parser.h
@@ -114,8 +114,11 @@ private:
       charno++;
     return c;
   }
+  bool at_end() {
+    return cbuf < 0 && it == end;
+  }
   void ss() {
-    while(it != end && safe_isspace(peek()))
+    while(!at_end() && safe_isspace(peek()))
       incr();
   }
 
-- 
2.43.0


From 66039adf613b2d8c29cbfab066f6dbcc0eb3ef96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:41 +0000
Subject: [PATCH 09/57] fix: json strings were printed only up to the first NUL
 character

---
 src/text/json/base.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/text/json/base.h b/src/text/json/base.h
index b608a95..32ff293 100644
--- a/src/text/json/base.h
+++ b/src/text/json/base.h
@@ -297,13 +297,14 @@ public:
     if (escape) {
       const char* p = dat.c_str();
       const char* end = p + dat.size();
-      while (*p) {
+      while (p != end) {
         pfi::data::string::uchar uc = pfi::data::string::chars_to_uchar(p, end);
         print_char(os, uc);
       }
     } else {
       const char* p = dat.c_str();
-      while (*p) {
+      const char* end = p + dat.size();
+      while (p != end) {
         print_char_without_escape(os, *p++);
       }
     }
-- 
2.43.0


From fdc65fd987891a4e04c8115856cd2246350beef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:22 +0000
Subject: [PATCH 10/57] fix: json cast with default into an optional read an
 uninitialised value

---
 src/text/json/cast.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/text/json/cast.h b/src/text/json/cast.h
index 562604f..a5743fd 100644
--- a/src/text/json/cast.h
+++ b/src/text/json/cast.h
@@ -574,7 +574,7 @@ inline void serialize(json_iarchive_cast_with_default& js, pfi::data::optional<T
   if (is<json_null>(js.get()))
     v = pfi::data::optional<T>();
   else {
-    T t;
+    T t = v ? *v : T();
     serialize(js, t);
     v = t;
   }
-- 
2.43.0


From 6c7ee1d8a8cda188e51b10954a5743261be0f99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:25 +0000
Subject: [PATCH 11/57] fix: deserializing a truncated stream value never ended

---
 src/data/serialization/iostream.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data/serialization/iostream.h b/src/data/serialization/iostream.h
index 093ec7c..cd169b8 100644
--- a/src/data/serialization/iostream.h
+++ b/src/data/serialization/iostream.h
@@ -103,9 +103,11 @@ void serialize(Archive &ar, std::iostream &ios)
     char c[2]={};
     for (;;){
       ar & c[0];
+      if (!ar)
+        break;
       if (static_cast<unsigned char>(c[0])==0xff){
         ar & c[1];
-        if (c[1]==0x00)
+        if (!ar || c[1]==0x00)
           break;
         *p=0xff;
       }
-- 
2.43.0


From 715299e0c1015897a8e581f8acf7a4dbae26c0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:38 +0000
Subject: [PATCH 12/57] fix: csv_parser ran past the end of its buffer and of
 its input

---
 src/text/csv.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/text/csv.h b/src/text/csv.h
index b86a722..977fb57 100644
--- a/src/text/csv.h
+++ b/src/text/csv.h
@@ -114,12 +114,12 @@ private:
       for (size_t bufcnt=0; ; ){
         size_t start=bufcnt;
 
-        if (*p=='\"'){
+        if (p!=q && *p=='\"'){
           p++;
-          for (;;){
+          while(p!=q){
             if (*p=='\"'){
               p++;
-              if (*p!='\"') break;
+              if (p==q || *p!='\"') break;
             }
             if (bufcnt>=buf.size()) extend();
             buf[bufcnt++]=*p++;
@@ -133,10 +133,15 @@ private:
           }
         }
 
+        if (bufcnt>=buf.size()) extend();
         buf[bufcnt++]='\0';
         cur.push_back(&buf[start]);
         if (p == q) break;
-        if (*p=='\r') p++;
+        if (*p=='\r'){
+          p++;
+          if (p != q && *p=='\n') p++;
+          break;
+        }
         if (*p=='\n'){ p++; break; }
         p++;
       }
-- 
2.43.0


From 65483c1f4724140e0e3069bffaaa94ae2afb3cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:05 +0000
Subject: [PATCH 13/57] fix: uri rejected valid hosts and misread
 percent-encoded user info

---
 src/network/uri.cpp | 72 ++++++++++++++++-----------------------------
 src/network/uri.h   |  1 +
 2 files changed, 27 insertions(+), 46 deletions(-)

diff --git a/src/network/uri.cpp b/src/network/uri.cpp
index 140c5ea..4764df9 100644
--- a/src/network/uri.cpp
+++ b/src/network/uri.cpp
@@ -326,10 +326,8 @@ bool uri::parse_userinfo(const char *&p)
       p++;
       continue;
     }
-    if (parse_pct_encoded(p)){
-      p+=3;
+    if (parse_pct_encoded(p))
       continue;
-    }
     break;
   }
 
@@ -342,8 +340,8 @@ bool uri::parse_host(const char *&p)
 {
   const char *org=p;
 
+  // every IPv4address is also a reg-name
   if (!parse_ip_literal(p)&&
-      !(p=org, parse_ipv4address(p))&&
       !(p=org, parse_reg_name(p)))
     return false;
 
@@ -404,9 +402,9 @@ bool uri::parse_ipvfuture(const char *&p)
       *p!=':')
     return false;
 
-  while(!is_unreserved(*p)&&
-      !is_sub_delims(*p)&&
-      *p!=':')
+  while(is_unreserved(*p)||
+      is_sub_delims(*p)||
+      *p==':')
     p++;
 
   return true;
@@ -472,8 +470,7 @@ bool uri::parse_ipv6_2(const char *&p)
 
 bool uri::parse_ipv6_3(const char *&p)
 {
-  const char *org=p;
-  if (!parse_h16(p)) p=org;
+  parse_h16s(p,0);
   if (*p++!=':' || *p++!=':') return false;
   if (!parse_h16(p) || *p++!=':') return false;
   if (!parse_h16(p) || *p++!=':') return false;
@@ -485,9 +482,7 @@ bool uri::parse_ipv6_3(const char *&p)
 
 bool uri::parse_ipv6_4(const char *&p)
 {
-  const char *org=p;
-  if (!parse_h16(p) || *p++!=':' ||
-      !parse_h16(p)) p=org;
+  parse_h16s(p,1);
   if (*p++!=':' || *p++!=':') return false;
   if (!parse_h16(p) || *p++!=':') return false;
   if (!parse_h16(p) || *p++!=':') return false;
@@ -498,10 +493,7 @@ bool uri::parse_ipv6_4(const char *&p)
 
 bool uri::parse_ipv6_5(const char *&p)
 {
-  const char *org=p;
-  if (!parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p)) p=org;
+  parse_h16s(p,2);
   if (*p++!=':' || *p++!=':') return false;
   if (!parse_h16(p) || *p++!=':') return false;
   if (!parse_h16(p) || *p++!=':') return false;
@@ -511,11 +503,7 @@ bool uri::parse_ipv6_5(const char *&p)
 
 bool uri::parse_ipv6_6(const char *&p)
 {
-  const char *org=p;
-  if (!parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p)) p=org;
+  parse_h16s(p,3);
   if (*p++!=':' || *p++!=':') return false;
   if (!parse_h16(p) || *p++!=':') return false;
   if (!parse_ls32(p)) return false;
@@ -524,12 +512,7 @@ bool uri::parse_ipv6_6(const char *&p)
 
 bool uri::parse_ipv6_7(const char *&p)
 {
-  const char *org=p;
-  if (!parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p)) p=org;
+  parse_h16s(p,4);
   if (*p++!=':' || *p++!=':') return false;
   if (!parse_ls32(p)) return false;
   return true;
@@ -537,13 +520,7 @@ bool uri::parse_ipv6_7(const char *&p)
 
 bool uri::parse_ipv6_8(const char *&p)
 {
-  const char *org=p;
-  if (!parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p)) p=org;
+  parse_h16s(p,5);
   if (*p++!=':' || *p++!=':') return false;
   if (!parse_h16(p)) return false;
   return true;
@@ -551,24 +528,27 @@ bool uri::parse_ipv6_8(const char *&p)
 
 bool uri::parse_ipv6_9(const char *&p)
 {
-  const char *org=p;
-  if (!parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p)) p=org;
+  parse_h16s(p,6);
   if (*p++!=':' || *p++!=':') return false;
   return true;
 }
 
+// [ *n( h16 ":" ) h16 ]
+void uri::parse_h16s(const char *&p, int n)
+{
+  if (!parse_h16(p)) return;
+  while(n-->0 && p[0]==':' && isxdigit(p[1])){
+    p++;
+    parse_h16(p);
+  }
+}
+
+// 1*4HEXDIG
 bool uri::parse_h16(const char *&p)
 {
-  if (!isxdigit(*p++)) return false;
-  if (!isxdigit(*p++)) return false; 
-  if (!isxdigit(*p++)) return false;
-  if (!isxdigit(*p++)) return false;
+  if (!isxdigit(*p)) return false;
+  for (int i=0;i<4&&isxdigit(*p);i++)
+    p++;
   return true;
 }
 
diff --git a/src/network/uri.h b/src/network/uri.h
index 39e78aa..e4a5634 100644
--- a/src/network/uri.h
+++ b/src/network/uri.h
@@ -81,6 +81,7 @@ private:
   bool parse_ipv6_7(const char *&p);
   bool parse_ipv6_8(const char *&p);
   bool parse_ipv6_9(const char *&p);
+  void parse_h16s(const char *&p, int n);
   bool parse_h16(const char *&p);
   bool parse_ls32(const char *&p);
   bool parse_ipv4address(const char *&p);
-- 
2.43.0


From 390ec78bd6cba2a0809eb20908b71e378f8ffcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:27 +0000
Subject: [PATCH 14/57] fix: destroying an open sparse_matrix_writer lost its
 rows' offsets

---
 src/data/sparse_matrix/sparse_matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/sparse_matrix/sparse_matrix.cpp b/src/data/sparse_matrix/sparse_matrix.cpp
index e2a3b36..238c30e 100644
--- a/src/data/sparse_matrix/sparse_matrix.cpp
+++ b/src/data/sparse_matrix/sparse_matrix.cpp
@@ -198,7 +198,7 @@ namespace sparse_matrix {
 
   sparse_matrix_writer::~sparse_matrix_writer()
   {
-    if (offsets) delete offsets;
+    close();
   }
 
   int sparse_matrix_writer::open(const string& fnMat)
-- 
2.43.0


From fadf025d17434027e25fd855ff0e6e1f5288d107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:27 +0000
Subject: [PATCH 15/57] fix: sparse_matrix_reader read an uninitialised row
 count from a truncated offset file

---
 src/data/sparse_matrix/sparse_matrix.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/data/sparse_matrix/sparse_matrix.cpp b/src/data/sparse_matrix/sparse_matrix.cpp
index 238c30e..fb4a535 100644
--- a/src/data/sparse_matrix/sparse_matrix.cpp
+++ b/src/data/sparse_matrix/sparse_matrix.cpp
@@ -102,7 +102,17 @@ namespace sparse_matrix {
       if (!ifs) return -1;
       
       int rowNum;
-      ifs.read((char*)&rowNum,sizeof(int));
+      if (!ifs.read((char*)&rowNum,sizeof(int)) || rowNum<0){
+        close();
+        return -1;
+      }
+      // do not trust rowNum before allocating for it
+      ifs.seekg(0,ios::end);
+      if (ifs.tellg()<streamoff(sizeof(int)+(uint64_t)rowNum*sizeof(RowInfo))){
+        close();
+        return -1;
+      }
+      ifs.seekg(sizeof(int));
       rowInfos=vector<RowInfo>(rowNum);
       offsets=vector<int>(rowNum);
       if (rowNum > 0)
-- 
2.43.0


From e994729b2a8e2186aab56c57e74625d19ad979b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:27 +0000
Subject: [PATCH 16/57] fix: sparse_matrix_writer::row_num() on a closed writer
 dereferenced NULL

---
 src/data/sparse_matrix/sparse_matrix.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data/sparse_matrix/sparse_matrix.cpp b/src/data/sparse_matrix/sparse_matrix.cpp
index fb4a535..a7dd2b5 100644
--- a/src/data/sparse_matrix/sparse_matrix.cpp
+++ b/src/data/sparse_matrix/sparse_matrix.cpp
@@ -276,6 +276,7 @@ namespace sparse_matrix {
   }
 
   int sparse_matrix_writer::row_num() {
+    if (!offsets) return 0;
     return offsets->offsets_num();
   }
 
-- 
2.43.0


From a9f4d56913a5d156d51bcb726f0c34f13022cf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:51 +0000
Subject: [PATCH 17/57] fix: hankaku_to_zenkaku turned kana followed by a
 handakuten into other kana

---
 src/data/string/ustring.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data/string/ustring.cpp b/src/data/string/ustring.cpp
index 7436b00..19e086d 100644
--- a/src/data/string/ustring.cpp
+++ b/src/data/string/ustring.cpp
@@ -74,11 +74,11 @@ static int take_dakuten_tbl[]={
 
 static int take_handakuten_tbl[]={
   //  ァアィイゥウェエォオカガキギク
-  0,0,0,0,0,0,0,0,0,0,0,0,0,1,0,1,
+  0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
   //グケゲコゴサザシジスズセゼソゾタ
-  0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,
+  0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
   //ダチヂッツヅテデトドナニヌネノハ
-  0,1,0,0,1,0,1,0,1,0,0,0,0,0,0,1,
+  0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,
   //バパヒビピフブプヘベペホボポマミ
   0,0,1,0,0,1,0,0,1,0,0,1,0,0,0,0,
   //ムメモャヤュユョヨラリルレロヮワ
-- 
2.43.0


From 9139974989a001c792c0df64b2e0c4797e8e5245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:51 +0000
Subject: [PATCH 18/57] fix: hankaku_to_zenkaku replaced U+FF60 with U+0000

---
 src/data/string/ustring.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/string/ustring.cpp b/src/data/string/ustring.cpp
index 19e086d..61fdd6b 100644
--- a/src/data/string/ustring.cpp
+++ b/src/data/string/ustring.cpp
@@ -51,7 +51,7 @@ namespace string {
 #define UTF_ZENKAKU_HANDAKUTEN 0x309a 
 
 static int hankaku_zenkaku_tbl[]={
-  0x0000,0x3002,0x300c,0x300d,0x3001,0x30fb,0x30f2,0x30a1,0x30a3,0x30a5,0x30a7,0x30a9,0x30e3,0x30e5,0x30e7,0x30c3, // 0xff60 - 0xff6f
+  0xff60,0x3002,0x300c,0x300d,0x3001,0x30fb,0x30f2,0x30a1,0x30a3,0x30a5,0x30a7,0x30a9,0x30e3,0x30e5,0x30e7,0x30c3, // 0xff60 - 0xff6f
   0x30fc,0x30a2,0x30a4,0x30a6,0x30a8,0x30aa,0x30ab,0x30ad,0x30af,0x30b1,0x30b3,0x30b5,0x30b7,0x30b9,0x30bb,0x30bd, // 0xff70 - 0xff7f
   0x30bf,0x30c1,0x30c4,0x30c6,0x30c8,0x30ca,0x30cb,0x30cc,0x30cd,0x30ce,0x30cf,0x30d2,0x30d5,0x30d8,0x30db,0x30de, // 0xff80 - 0xff8f
   0x30df,0x30e0,0x30e1,0x30e2,0x30e4,0x30e6,0x30e8,0x30e9,0x30ea,0x30eb,0x30ec,0x30ed,0x30ef,0x30f3,0x3099,0x309a // 0xff90 - 0x9f
-- 
2.43.0


From 07dfe4fd3627d0c41fe6c8b0c128539c1c7a1a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:28 +0000
Subject: [PATCH 19/57] fix: ratio of 64-bit integers computed gcd from values
 truncated to int

---
 src/math/ratio.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math/ratio.h b/src/math/ratio.h
index 6f51542..2a57497 100644
--- a/src/math/ratio.h
+++ b/src/math/ratio.h
@@ -59,7 +59,8 @@ public:
 private:
   T num_, den_;
   static T gcd(T a, T b){
-    a=abs(a); b=abs(b);
+    if(a<0) a=-a;
+    if(b<0) b=-b;
     while(true){
       a=a%b;
       if(a==0) return b;
-- 
2.43.0


From 5ed7d3125bb7dfbd8253fa4002835fde5e048c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:28 +0000
Subject: [PATCH 20/57] fix: dividing a ratio by itself in place gave a zero
 denominator

---
 src/math/ratio.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math/ratio.h b/src/math/ratio.h
index 2a57497..aea3101 100644
--- a/src/math/ratio.h
+++ b/src/math/ratio.h
@@ -118,8 +118,9 @@ template<class T>
 inline ratio<T>& operator/=(ratio<T> &a, const ratio<T> &b){
   T gcd1=ratio<T>::gcd(a.num_, b.num_);
   T gcd2=ratio<T>::gcd(a.den_, b.den_);
+  const T bnum=b.num_; // b may be a
   a.num_=(a.num_/gcd1)*(b.den_/gcd2);
-  a.den_=(a.den_/gcd2)*(b.num_/gcd1);
+  a.den_=(a.den_/gcd2)*(bnum/gcd1);
   if(a.den_<0){
     a.num_*=-1; a.den_*=-1;
   }
-- 
2.43.0


From c95bce233c8386c772cdf968559d32ef4c0a9d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:28 +0000
Subject: [PATCH 21/57] fix: calendar_time constructed from fields read an
 uninitialised isdst

---
 src/system/time_util.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/system/time_util.cpp b/src/system/time_util.cpp
index 1b0761c..5533fa8 100644
--- a/src/system/time_util.cpp
+++ b/src/system/time_util.cpp
@@ -91,16 +91,17 @@ calendar_time::calendar_time(const clock_time &ct)
 
 calendar_time::calendar_time(
   int year, int mon, int mday, int hour, int min, int sec, int usec)
-  : year(year)
-  , mon(mon)
-  , mday(mday)
-  , hour(hour)
-  , min(min)
-  , sec(sec)
-  , usec(usec)
 {
-  clock_time ct(*this);
-  *this=calendar_time(ct);
+  tm t={};
+  t.tm_sec=sec;
+  t.tm_min=min;
+  t.tm_hour=hour;
+  t.tm_mday=mday;
+  t.tm_mon=mon-1;
+  t.tm_year=year-1900;
+  t.tm_isdst=-1; // let mktime find out
+
+  *this=calendar_time(clock_time(mktime(&t), usec));
 }
 
 clock_time get_clock_time()
-- 
2.43.0


From 18258020668878469e0d2bc97044015ca4ecb0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:28 +0000
Subject: [PATCH 22/57] fix: a closed mmapper still reported its old size

---
 src/system/mmapper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/system/mmapper.cpp b/src/system/mmapper.cpp
index ce1af2e..7be2842 100644
--- a/src/system/mmapper.cpp
+++ b/src/system/mmapper.cpp
@@ -79,6 +79,7 @@ int mmapper::close()
     munmap(ptr, length);
     ptr = NULL;
   }
+  length = 0;
   return 0;
 }
 
-- 
2.43.0


From ced6f236d134546463f03a5d203bbfdf3bb95e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:39 +0000
Subject: [PATCH 23/57] fix: moving a mmapper unmapped and closed what was
 moved

---
 src/system/mmapper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/system/mmapper.h b/src/system/mmapper.h
index 204244b..85a9b71 100644
--- a/src/system/mmapper.h
+++ b/src/system/mmapper.h
@@ -47,8 +47,8 @@ public:
   typedef const char* const_iterator;
 
   mmapper() : ptr(NULL), length(0), fd(-1) {}
-  mmapper(mmapper&& rhs) : ptr(std::move(rhs.ptr)), length(std::move(rhs.length)), fd(std::move(rhs.fd)) {
-    mmapper().swap(rhs);
+  mmapper(mmapper&& rhs) : ptr(NULL), length(0), fd(-1) {
+    swap(rhs);
   }
   ~mmapper() { close(); }
 
-- 
2.43.0


From c90a467bae5ee2227c2e0e4993da847c10719c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:06 +0000
Subject: [PATCH 24/57] fix: stream_socket carried buffered bytes over to its
 next connection

---
 src/network/socket.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/network/socket.cpp b/src/network/socket.cpp
index 5c2a51f..c8384ef 100644
--- a/src/network/socket.cpp
+++ b/src/network/socket.cpp
@@ -158,6 +158,8 @@ bool stream_socket::bind_socket(int sock, const ipv4_address &addr, uint16_t por
       return false;
 
   this->sock=sock;
+  rdbuf_p=rdbuf_end=0;
+  wrbuf_size=0;
   connected=true;
   raddr=addr;
   rport=port;
@@ -168,6 +170,10 @@ bool stream_socket::open()
 {
   if (sock>=0) return false;
 
+  // what was buffered for an earlier connection is not part of the next
+  rdbuf_p=rdbuf_end=0;
+  wrbuf_size=0;
+
   NO_INTR(sock,::socket(PF_INET,SOCK_STREAM,0));
   if (FAILED(sock)){
     sock=-1;
-- 
2.43.0


From fe224664ee39da935d5e160f0275675c7d6b6d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:06 +0000
Subject: [PATCH 25/57] fix: socketstream returned a character peeked from its
 previous connection

---
 src/network/iostream.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/network/iostream.h b/src/network/iostream.h
index bbc9922..3e63018 100644
--- a/src/network/iostream.h
+++ b/src/network/iostream.h
@@ -57,6 +57,7 @@ public:
 
   bool connect(const std::string &host, uint16_t port){
     pfi::lang::shared_ptr<stream_socket> sock(new stream_socket());
+    buf=T::eof();
     this->sock=
       pfi::lang::shared_ptr<socket_holder>
       (new socket_holder_impl<pfi::lang::shared_ptr<stream_socket> >(sock));
@@ -82,6 +83,7 @@ private:
 public:
   template <class PSOCK>
   void setsock(PSOCK sock){
+    buf=T::eof();
     this->sock=pfi::lang::shared_ptr<socket_holder>(new socket_holder_impl<PSOCK>(sock));
   }
 
-- 
2.43.0


From d0982ddd51fc2b02bb8a4eeb0d1cba55b4bca198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:41 +0000
Subject: [PATCH 26/57] fix: using a socketstream that was never connected
 dereferenced NULL

---
 src/network/iostream.h | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/network/iostream.h b/src/network/iostream.h
index 3e63018..235f0bb 100644
--- a/src/network/iostream.h
+++ b/src/network/iostream.h
@@ -88,33 +88,34 @@ public:
   }
 
   bool is_connected() const{
-    if (!sock->get()) return false;
-    return sock->get()->is_connected();
+    if (!socket()) return false;
+    return socket()->is_connected();
   }
 
   stream_socket *socket() const{
-    return sock->get();
+    return sock ? sock->get() : NULL;
   }
 
   // virtual protected members
 
   std::streamsize xsputn(const char_type *s, std::streamsize n){
-    if (!sock->get()) return 0;
-    int res=sock->get()->write(s, sizeof(char_type)*n);
+    if (!socket()) return 0;
+    int res=socket()->write(s, sizeof(char_type)*n);
     if (res<0) return 0;
     return res;
   }
 
   int overflow(int c){
-    if (!sock->get()) return T::eof();
+    if (!socket()) return T::eof();
     char d=static_cast<char>(c);
-    int res=sock->get()->write(&d, sizeof(char_type));
+    int res=socket()->write(&d, sizeof(char_type));
     if (res<0) return T::eof();
     return res==0?T::eof():0;
   }
 
   int sync(){
-    int res=sock->get()->flush();
+    if (!socket()) return -1;
+    int res=socket()->flush();
     return res<0?0:-1;
   }
 
@@ -126,8 +127,8 @@ public:
 
   int underflow(){
     if (buf==T::eof()){
-      if (!sock->get()) return T::eof();
-      buf=sock->get()->getc();
+      if (!socket()) return T::eof();
+      buf=socket()->getc();
     }
     return buf;
   }
-- 
2.43.0


From 2cc48855977211e08b225d423231d44b9ac053ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:58 +0000
Subject: [PATCH 27/57] fix: a wrong length in the input made deserialization
 allocate or loop without bound

---
 src/data/serialization/deque.h         |  2 +-
 src/data/serialization/list.h          |  2 +-
 src/data/serialization/map.h           |  2 +-
 src/data/serialization/set.h           |  2 +-
 src/data/serialization/string.h        | 17 ++++++++++++++---
 src/data/serialization/unordered_map.h |  2 +-
 src/data/serialization/unordered_set.h |  2 +-
 src/data/serialization/vector.h        |  3 +--
 8 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/data/serialization/deque.h b/src/data/serialization/deque.h
index 7404fdb..14985b7 100644
--- a/src/data/serialization/deque.h
+++ b/src/data/serialization/deque.h
@@ -52,7 +52,7 @@ void serialize(Archive &ar, std::deque<T, Allocator> &v)
     for (size_t i = 0; i < v.size(); ++i) {
       ar & v[i];
     }
-    for (size_t i = v.size(); i < size; ++i) {
+    for (size_t i = v.size(); i < size && ar; ++i) {
       T t = T();
       ar & t;
       v.push_back(t);
diff --git a/src/data/serialization/list.h b/src/data/serialization/list.h
index 7f546e2..5e70171 100644
--- a/src/data/serialization/list.h
+++ b/src/data/serialization/list.h
@@ -53,7 +53,7 @@ void serialize(Archive &ar, std::list<T, Allocator> &v)
     for (iter_t it = v.begin(); it != v.end(); ++it) {
       ar & *it;
     }
-    for (size_t i = v.size(); i < size; ++i) {
+    for (size_t i = v.size(); i < size && ar; ++i) {
       T t = T();
       ar & t;
       v.push_back(t);
diff --git a/src/data/serialization/map.h b/src/data/serialization/map.h
index 71ae62a..dcbf831 100644
--- a/src/data/serialization/map.h
+++ b/src/data/serialization/map.h
@@ -50,7 +50,7 @@ void serialize(Archive &ar, std::map<K, V, Compare, Allocator> &m)
 
   if (ar.is_read){
     m.clear();
-    while(size--){
+    while(size-- && ar){
       std::pair<K,V> v;
       ar & v;
       m.insert(v);
diff --git a/src/data/serialization/set.h b/src/data/serialization/set.h
index 6694c6c..09c01e4 100644
--- a/src/data/serialization/set.h
+++ b/src/data/serialization/set.h
@@ -48,7 +48,7 @@ void serialize(Archive &ar, std::set<T, Compare, Allocator> &s)
 
   if (ar.is_read){
     s.clear();
-    while(size--){
+    while(size-- && ar){
       T v;
       ar & v;
       s.insert(v);
diff --git a/src/data/serialization/string.h b/src/data/serialization/string.h
index 492feba..0f8cb66 100644
--- a/src/data/serialization/string.h
+++ b/src/data/serialization/string.h
@@ -48,9 +48,20 @@ void serialize(Archive &ar, std::basic_string<CharType, Traits, Allocator> &s)
   uint32_t length=static_cast<uint32_t>(s.length());
   ar & length;
 
-  s.resize(length);
-  for (uint32_t i=0;i<length;i++)
-    ar & s[i];
+  if (ar.is_read){
+    // the length is not trusted: nothing is allocated for it in advance,
+    // and reading ends where the input does
+    s.clear();
+    for (uint32_t i=0;i<length && ar;i++){
+      CharType c=CharType();
+      ar & c;
+      s.push_back(c);
+    }
+  }
+  else{
+    for (uint32_t i=0;i<length;i++)
+      ar & s[i];
+  }
 }
 
 class string_type : public type_rep {
diff --git a/src/data/serialization/unordered_map.h b/src/data/serialization/unordered_map.h
index a3750f2..a85e6df 100644
--- a/src/data/serialization/unordered_map.h
+++ b/src/data/serialization/unordered_map.h
@@ -49,7 +49,7 @@ void serialize(Archive &ar, unordered_map<K, V, H, P, A> &m)
 
   if (ar.is_read){
     m.clear();
-    while(size--){
+    while(size-- && ar){
       std::pair<K,V> v;
       ar & v;
       m.insert(v);
diff --git a/src/data/serialization/unordered_set.h b/src/data/serialization/unordered_set.h
index 8820521..23c7cef 100644
--- a/src/data/serialization/unordered_set.h
+++ b/src/data/serialization/unordered_set.h
@@ -49,7 +49,7 @@ void serialize(Archive &ar, unordered_set<T, H, P, A> &s)
 
   if (ar.is_read){
     s.clear();
-    while(size--){
+    while(size-- && ar){
       T v;
       ar & v;
       s.insert(v);
diff --git a/src/data/serialization/vector.h b/src/data/serialization/vector.h
index ed71c70..e217767 100644
--- a/src/data/serialization/vector.h
+++ b/src/data/serialization/vector.h
@@ -48,12 +48,11 @@ void serialize(Archive &ar, std::vector<T, Allocator> &v)
   ar & size;
 
   if (ar.is_read) {
-    v.reserve(size);
     v.resize(std::min<size_t>(size, v.size()));
     for (size_t i = 0; i < v.size(); ++i) {
       ar & v[i];
     }
-    for (size_t i = v.size(); i < size; ++i) {
+    for (size_t i = v.size(); i < size && ar; ++i) {
       T t = T();
       ar & t;
       v.push_back(t);
-- 
2.43.0


From 50267b77778272d036411a3c43532e9f1d100245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:26 +0000
Subject: [PATCH 28/57] fix: rpc_server ran a method for a request that ended
 before its version

---
 src/network/rpc/base.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/network/rpc/base.cpp b/src/network/rpc/base.cpp
index 69c8a0f..10bb90a 100644
--- a/src/network/rpc/base.cpp
+++ b/src/network/rpc/base.cpp
@@ -213,7 +213,9 @@ void rpc_server::process(const pfi::lang::shared_ptr<server_socket>& ssock)
       }
 
       int req_ver;
-      if (ia >> req_ver && req_ver!=version){
+      if (!(ia >> req_ver))
+        break;
+      if (req_ver!=version){
         string msg(string("VersionMismatch ")+lexical_cast<string>(version)+" "+lexical_cast<string>(req_ver));
         oa<<msg;
         oa.flush();
-- 
2.43.0


From d0182d9fd29908a1090d9726d6de54ffd84a3796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:26 +0000
Subject: [PATCH 29/57] fix: an rpc_error thrown by a method left its caller
 waiting for ever

---
 src/network/rpc/base.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/network/rpc/base.cpp b/src/network/rpc/base.cpp
index 10bb90a..3643949 100644
--- a/src/network/rpc/base.cpp
+++ b/src/network/rpc/base.cpp
@@ -226,6 +226,8 @@ void rpc_server::process(const pfi::lang::shared_ptr<server_socket>& ssock)
         funcs[name]->invoke(ia,oa);
       }
       catch(const rpc_error &){
+        // nothing was answered: the client must not wait for it
+        break;
       }
     }
   }
-- 
2.43.0


From 164206179cd8e258682a1ad5567b8b997f4c4ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:26 +0000
Subject: [PATCH 30/57] fix: method_not_found reported a name with blanks only
 up to the first

---
 src/network/rpc/caller.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/network/rpc/caller.h b/src/network/rpc/caller.h
index c78f9ea..f81277c 100644
--- a/src/network/rpc/caller.h
+++ b/src/network/rpc/caller.h
@@ -32,6 +32,10 @@
 #ifndef INCLUDE_GUARD_PFI_NETWORK_RPC_CALLER_H_
 #define INCLUDE_GUARD_PFI_NETWORK_RPC_CALLER_H_
 
+#include <algorithm>
+#include <sstream>
+#include <string>
+
 #include "../../lang/bind.h"
 #include "../../data/serialization.h"
 
@@ -51,9 +55,8 @@ static inline void gen_exception(const std::string &str)
   std::string code;
   iss>>code;
   if (code=="NotFound"){
-    std::string name;
-    iss>>name;
-    throw method_not_found(name);
+    // the name is all that follows, blanks included
+    throw method_not_found(str.substr(std::min(str.length(), code.length()+1)));
   }
   if (code=="VersionMismatch"){
     int sver, cver;
-- 
2.43.0


From 27ddb2a59409f04a08a7165cde3a4659d55d24f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:26 +0000
Subject: [PATCH 31/57] fix: only one of several threads in
 wait_until_stopped() was woken

---
 src/network/rpc/base.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/network/rpc/base.cpp b/src/network/rpc/base.cpp
index 3643949..c3d9f19 100644
--- a/src/network/rpc/base.cpp
+++ b/src/network/rpc/base.cpp
@@ -251,14 +251,12 @@ bool rpc_server::is_stopped_unsafe() const
 
 void rpc_server::notify_if_this_is_the_last_running_threads()
 {
-  {
-    std::lock_guard<std::mutex> lock(state_mutex);
-    if (--num_running_threads > 0) {
-      return;
-    }
-    state = server_state::STOPPED;
+  std::lock_guard<std::mutex> lock(state_mutex);
+  if (--num_running_threads > 0) {
+    return;
   }
-  stop_condition.notify_one();
+  state = server_state::STOPPED;
+  stop_condition.notify_all();
 }
 
 rpc_client::rpc_client(const string &host, uint16_t port, int version)
-- 
2.43.0


From 38ab3b86344e9e9df6db84facf6f7e85b13010f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:26 +0000
Subject: [PATCH 32/57] fix: stop() let an rpc_error of its termination request
 escape

---
 src/network/rpc/base.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/network/rpc/base.cpp b/src/network/rpc/base.cpp
index c3d9f19..0f82b50 100644
--- a/src/network/rpc/base.cpp
+++ b/src/network/rpc/base.cpp
@@ -125,10 +125,11 @@ void rpc_server::stop()
       auto request_termination = client.call<bool()>(EXIT_MSG);
       // NOTE: Now that socket is closed,
       //       when there is no server thread which waits at `server::socket::accept()`
-      //       this RPC call will throw `cannot_get_connection` exception.
+      //       this RPC call will throw `cannot_get_connection` exception,
+      //       or another `rpc_error` when its connection is lost on the way.
       try {
         request_termination();
-      } catch (const cannot_get_connection&) {}
+      } catch (const rpc_error&) {}
     }
   }
 }
-- 
2.43.0


From 593e4d08beb050667c3317dd3341719277b047a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:26 +0000
Subject: [PATCH 33/57] fix: a server none of whose threads could be started
 counted as running

---
 src/network/rpc/base.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/network/rpc/base.cpp b/src/network/rpc/base.cpp
index 0f82b50..7180f01 100644
--- a/src/network/rpc/base.cpp
+++ b/src/network/rpc/base.cpp
@@ -104,7 +104,14 @@ bool rpc_server::start(uint16_t port, int nthreads)
     threads = vector<pfi::lang::shared_ptr<thread>>(nthreads);
     for (int i=0; i<nthreads; i++){
       threads[i]=pfi::lang::shared_ptr<thread>(new thread(bind(&rpc_server::process, this, socket)));
-      if (!threads[i]->start()) return false;
+      if (!threads[i]->start()) {
+        if (num_running_threads == 0) {
+          // nobody would serve, and stop() would wait for nobody
+          state = server_state::STOPPED;
+          socket->close();
+        }
+        return false;
+      }
       ++num_running_threads;
     }
   }
-- 
2.43.0


From 5be450cfbe074b7827442919343f6d7e68b1aabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:13 +0000
Subject: [PATCH 34/57] fix: rpc caller took a truncated error reply for a
 complete one

---
 src/network/rpc/caller.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/network/rpc/caller.h b/src/network/rpc/caller.h
index f81277c..479bb32 100644
--- a/src/network/rpc/caller.h
+++ b/src/network/rpc/caller.h
@@ -80,6 +80,7 @@ static inline void gen_exception(const std::string &str)
   oa.flush(); \
   std::string result_code; \
   ia >> result_code; \
+  if (!ss) throw rpc_error("cannot recv result code"); \
   if (result_code!="OK") gen_exception(result_code); \
   ia >> ret; \
   if (!ss) throw rpc_error("cannot recv return value");
-- 
2.43.0


From 34ee1dc688db466952255b28972c3d5a27a93b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:23 +0000
Subject: [PATCH 35/57] fix: receiving an HTTP message added empty framing
 headers to it

---
 src/network/http/base.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/network/http/base.cpp b/src/network/http/base.cpp
index f8304de..f19ada7 100644
--- a/src/network/http/base.cpp
+++ b/src/network/http/base.cpp
@@ -437,10 +437,11 @@ request::request(const pfi::lang::shared_ptr<stream_socket>& sock)
   header_ = header(sock);
 
   // body
-  if (cicmp(header_["Transfer-Encoding"], "chunked"))
+  const header& h = header_; // looking a field up does not add it
+  if (cicmp(h["Transfer-Encoding"], "chunked"))
     stream = pfi::lang::shared_ptr<iostream>(new basic_httpbody_chunked_stream<char>(sock));
-  else if (header_["Content-Length"] != "")
-    stream = pfi::lang::shared_ptr<iostream>(new basic_httpbody_stream<char>(sock, lexical_cast<int64_t>(header_["Content-Length"])));
+  else if (h["Content-Length"] != "")
+    stream = pfi::lang::shared_ptr<iostream>(new basic_httpbody_stream<char>(sock, lexical_cast<int64_t>(h["Content-Length"])));
   else
     stream = pfi::lang::shared_ptr<iostream>(new socketstream(sock));
 }
@@ -542,10 +543,11 @@ response::response(const pfi::lang::shared_ptr<stream_socket>& sock)
   header_ = header(sock);
 
   // body
-  if (cicmp(header_["Transfer-Encoding"], "chunked"))
+  const header& h = header_; // looking a field up does not add it
+  if (cicmp(h["Transfer-Encoding"], "chunked"))
     stream = pfi::lang::shared_ptr<iostream>(new basic_httpbody_chunked_stream<char>(sock));
-  else if (header_["Content-Length"] != "")
-    stream = pfi::lang::shared_ptr<iostream>(new basic_httpbody_stream<char>(sock, lexical_cast<int64_t>(header_["Content-Length"])));
+  else if (h["Content-Length"] != "")
+    stream = pfi::lang::shared_ptr<iostream>(new basic_httpbody_stream<char>(sock, lexical_cast<int64_t>(h["Content-Length"])));
   else
     stream = pfi::lang::shared_ptr<iostream>(new socketstream(sock));
 }
-- 
2.43.0


From bc8f394e07234e56f3d43e5010af55eee2c9c3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:23 +0000
Subject: [PATCH 36/57] fix: a 0xFF byte ended a chunked HTTP body

---
 src/network/http/base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network/http/base.cpp b/src/network/http/base.cpp
index f19ada7..e9a2d02 100644
--- a/src/network/http/base.cpp
+++ b/src/network/http/base.cpp
@@ -249,7 +249,7 @@ public:
       fill();
     if (empty())
       return T::eof();
-    return buf[buf_pos];
+    return T::to_int_type(buf[buf_pos]);
   }
 
 private:
-- 
2.43.0


From 55a144dbdf4ee2f2e9f62c61289bd5c13ebe4191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:23 +0000
Subject: [PATCH 37/57] fix: an HTTP body of Content-Length 0 took the bytes
 that follow it

---
 src/network/http/base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network/http/base.cpp b/src/network/http/base.cpp
index e9a2d02..e6a1cad 100644
--- a/src/network/http/base.cpp
+++ b/src/network/http/base.cpp
@@ -350,7 +350,7 @@ public:
 
   int underflow() {
     if (buf == T::eof()) {
-      if (!sock)
+      if (!sock || rest <= 0)
         return T::eof();
       buf = sock->getc();
       if (--rest == 0)
-- 
2.43.0


From ca285e46a6af863b6983910849a8c05ae574897e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:23 +0000
Subject: [PATCH 38/57] fix: a negative chunk size crashed the receiver of an
 HTTP message

---
 src/network/http/base.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/network/http/base.cpp b/src/network/http/base.cpp
index e6a1cad..d2c3847 100644
--- a/src/network/http/base.cpp
+++ b/src/network/http/base.cpp
@@ -320,7 +320,10 @@ private:
     // line = chunk-size [chunk-extension] CRLF
 
     istringstream iss(line);
-    iss >> hex >> chunk_rest;
+    if (!(iss >> hex >> chunk_rest) || chunk_rest < 0) {
+      shutdown();
+      throw http_exception("invalid chunk size");
+    }
   }
 
   pfi::lang::shared_ptr<stream_socket> sock;
-- 
2.43.0


From 0ad35a6eeb897c7f4ad457727b0ad046f88dea7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:23 +0000
Subject: [PATCH 39/57] fix: an HTTP header that broke off was taken for a
 complete one

---
 src/network/http/base.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/network/http/base.cpp b/src/network/http/base.cpp
index d2c3847..cb02860 100644
--- a/src/network/http/base.cpp
+++ b/src/network/http/base.cpp
@@ -89,10 +89,8 @@ void header::read_header(pfi::lang::function<bool (string*)> f)
 
     // LWS
     for (;;) {
-      if (!f(&line)) {
-        cont = false;
-        break;
-      }
+      if (!f(&line))
+        throw http_exception("invalid header");
       if (line.length() == 0 || line == "\r") {
         cont = false;
         break;
-- 
2.43.0


From f5342ab6bc42ab4d254f5f4cb2a6257c02a8f46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:23 +0000
Subject: [PATCH 40/57] fix: HTTP lines over the length limit were split into
 several

---
 src/network/http/base.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/network/http/base.cpp b/src/network/http/base.cpp
index cb02860..a62f8cb 100644
--- a/src/network/http/base.cpp
+++ b/src/network/http/base.cpp
@@ -58,6 +58,15 @@ static bool cicmp(const string& s, const string& t)
   return true;
 }
 
+static bool socket_getline(stream_socket* sock, string* str, int line_limit)
+{
+  if (!sock->getline(*str, line_limit))
+    return false;
+  if (str->length() >= static_cast<size_t>(line_limit))
+    throw http_exception("line is too long");
+  return true;
+}
+
 header::header()
 {
 }
@@ -118,11 +127,6 @@ void header::read_header(pfi::lang::function<bool (string*)> f)
   }
 }
 
-static bool socket_getline(stream_socket* sock, string* str, int line_limit)
-{
-  return sock->getline(*str, line_limit);
-}
-
 header::header(const pfi::lang::shared_ptr<stream_socket>& sock)
 {
   read_header(bind(&socket_getline, sock.get(), _1, line_limit));
@@ -276,7 +280,7 @@ private:
       // skip trailer
       if (sock) {
         for (string line;
-             sock->getline(line,line_limit) && line.length()>0;);
+             socket_getline(sock.get(), &line, line_limit) && line.length()>0;);
       }
       shutdown();
       return;
@@ -310,7 +314,7 @@ private:
     if (!sock) return;
 
     string line;
-    if (!sock->getline(line, line_limit)) {
+    if (!socket_getline(sock.get(), &line, line_limit)) {
       shutdown();
       return;
     }
@@ -416,7 +420,7 @@ request::request(const pfi::lang::shared_ptr<stream_socket>& sock)
   // Request-Line
   {
     string head;
-    sock->getline(head, line_limit);
+    socket_getline(sock.get(), &head, line_limit);
   
     istringstream iss(head);
     string uri_s;
@@ -522,7 +526,7 @@ response::response(const pfi::lang::shared_ptr<stream_socket>& sock)
   // status-line
   {
     string line;
-    if (!sock->getline(line, line_limit))
+    if (!socket_getline(sock.get(), &line, line_limit))
       throw http_exception("cannot read status-line: " + line);
     
     istringstream iss(line);
-- 
2.43.0


From 0dd46840ef035ed09d244dfab1f312e0c0445768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:23 +0000
Subject: [PATCH 41/57] fix: an HTTP status line without a status code left the
 code uninitialised

---
 src/network/http/base.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/network/http/base.cpp b/src/network/http/base.cpp
index a62f8cb..62c6141 100644
--- a/src/network/http/base.cpp
+++ b/src/network/http/base.cpp
@@ -531,8 +531,10 @@ response::response(const pfi::lang::shared_ptr<stream_socket>& sock)
     
     istringstream iss(line);
     string ver;
-    iss >> ver >> ws >> code_ >> ws;
+    if (!(iss >> ver >> code_))
+      throw http_exception("invalid status-line");
 
+    iss >> ws;
     getline(iss, reason_);
 
     for (size_t i = 0; i < ver.length(); i++)
-- 
2.43.0


From e03bdaf32625ed425073f133de3ee5240480d902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:23 +0000
Subject: [PATCH 42/57] fix: sending an HTTP header did not notice when its
 last line failed

---
 src/network/http/base.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/network/http/base.cpp b/src/network/http/base.cpp
index 62c6141..6c0676a 100644
--- a/src/network/http/base.cpp
+++ b/src/network/http/base.cpp
@@ -222,7 +222,8 @@ void header::send(const pfi::lang::shared_ptr<stream_socket>& sock)
     if (!sock->puts(line))
       throw http_exception("cannot send header");
   }
-  sock->puts("\r\n");
+  if (!sock->puts("\r\n"))
+    throw http_exception("cannot send header");
 }
 
 // only support under C=char.
-- 
2.43.0


From f42fa43b52be76ea1cbd9ed9f6ff1647ffbbdb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:03 +0000
Subject: [PATCH 43/57] fix: headers read from a stream kept the carriage
 return of each line

---
 src/network/http/base.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/network/http/base.cpp b/src/network/http/base.cpp
index 6c0676a..9f26dfd 100644
--- a/src/network/http/base.cpp
+++ b/src/network/http/base.cpp
@@ -135,6 +135,8 @@ header::header(const pfi::lang::shared_ptr<stream_socket>& sock)
 static bool istream_getline(istream* is, string* str)
 {
   getline(*is, *str);
+  if (!str->empty() && (*str)[str->length()-1] == '\r')
+    str->resize(str->length()-1);
   return is->good();
 }
 
-- 
2.43.0


From 74863185b7b4971b8390128ad40582737f6fa977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:03 +0000
Subject: [PATCH 44/57] fix: a multipart delimiter was missed after a line that
 looked like one

---
 src/network/cgi/base.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/network/cgi/base.cpp b/src/network/cgi/base.cpp
index c069469..20d792c 100644
--- a/src/network/cgi/base.cpp
+++ b/src/network/cgi/base.cpp
@@ -226,6 +226,7 @@ void cgi::parse_multipart_input(const string &s, const string &boundary)
     ssize_t cnt=0;
     for (char a=0, b=0, c=0; iss.get(c); a=b, b=c, cnt++){
       if (a=='\n' && b=='-' && c=='-'){
+        istream::pos_type pos=iss.tellg();
         string chk(boundary.length(), ' ');
         iss.read(&chk[0], boundary.length());
         if (chk==boundary){
@@ -238,11 +239,9 @@ void cgi::parse_multipart_input(const string &s, const string &boundary)
             str.resize(str.length()-1);
           break;
         }
-        str+=a;
-        str+="--";
-        str+=chk;
-        cnt=-1;
-        continue;
+        // not a delimiter: look at these characters again
+        iss.clear();
+        iss.seekg(pos);
       }
       if (cnt>=2) str+=a;
     }
-- 
2.43.0


From e798a7edf46ed1691d5c26030cff60a2aca681b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:03 +0000
Subject: [PATCH 45/57] fix: a malformed multipart body made a CGI program
 throw instead of answering 500

---
 src/network/cgi/base.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/network/cgi/base.cpp b/src/network/cgi/base.cpp
index 20d792c..25f9ac9 100644
--- a/src/network/cgi/base.cpp
+++ b/src/network/cgi/base.cpp
@@ -100,7 +100,13 @@ void cgi::exec(istream& in,
             invalid_msg="Invalid html protocol";
           }
           string boundary=env["CONTENT_TYPE"].substr(ix+9);
-          parse_multipart_input(dat, boundary);
+          try{
+            parse_multipart_input(dat, boundary);
+          }
+          catch(http::http_exception&){
+            valid=false;
+            invalid_msg="Invalid multipart body";
+          }
         }
         else
           parse_input(dat);
-- 
2.43.0


From 515880d4d916617e0946a2548a343c8845e3be45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:03 +0000
Subject: [PATCH 46/57] fix: files uploaded to a CGI program got header fields
 nobody sent

---
 src/network/cgi/base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network/cgi/base.cpp b/src/network/cgi/base.cpp
index 25f9ac9..731c68e 100644
--- a/src/network/cgi/base.cpp
+++ b/src/network/cgi/base.cpp
@@ -253,7 +253,7 @@ void cgi::parse_multipart_input(const string &s, const string &boundary)
     }
 
     istringstream jss(str);
-    http::header hd(jss);
+    const http::header hd(jss);
     string body=(jss?str.substr(jss.tellg()):"");
     const string &ct=hd["Content-Type"];
     if (ct.find("multipart/")!=string::npos){
-- 
2.43.0


From da8f7710d777425e54de3a074d9e0319de32243e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:08 +0000
Subject: [PATCH 47/57] fix: attributes of a multipart header were cut at
 semicolons inside quotes, joined, or lost when unquoted

---
 src/network/cgi/base.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/network/cgi/base.cpp b/src/network/cgi/base.cpp
index 731c68e..0456e0e 100644
--- a/src/network/cgi/base.cpp
+++ b/src/network/cgi/base.cpp
@@ -188,11 +188,22 @@ static inline pair<string, string> extract_attr(const string &s)
   string key=string_tolower(trim(s.substr(0, ix)));
   if (ix==string::npos) return make_pair(key, "");
   ix++;
-  string::size_type jx=s.find('\"', ix);
+  string val=trim(s.substr(ix));
+  if (val.empty() || val[0]!='\"') return make_pair(key, val);
+  string::size_type jx=val.find('\"', 1);
   if (jx==string::npos) return make_pair(key, "");
-  string::size_type kx=s.find('\"', jx+1);
-  if (kx==string::npos) return make_pair(key, "");
-  return make_pair(key, s.substr(jx+1, kx-jx-1));
+  return make_pair(key, val.substr(1, jx-1));
+}
+
+// the first ';' from pos that is not inside a quoted string
+static inline string::size_type find_semicolon(const string &s, string::size_type pos)
+{
+  bool quoted=false;
+  for (; pos<s.length(); pos++){
+    if (s[pos]=='\"') quoted=!quoted;
+    else if (s[pos]==';' && !quoted) return pos;
+  }
+  return string::npos;
 }
 
 static inline pair<string, map<string, string> >
@@ -206,8 +217,8 @@ extract_header(const string &s)
 
   for (; cur!=string::npos; ){
     cur++;
-    string::size_type next=s.find(';', cur);
-    attr.insert(extract_attr(s.substr(cur, next)));
+    string::size_type next=find_semicolon(s, cur);
+    attr.insert(extract_attr(s.substr(cur, next==string::npos?next:next-cur)));
     cur=next;
   }
 
-- 
2.43.0


From 3ea5c74c2d2800ec84b0a0f36fe0382257b5f155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:08 +0000
Subject: [PATCH 48/57] fix: a multipart content type without, or with a quoted
 or not last, boundary was misread

---
 src/network/cgi/base.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/network/cgi/base.cpp b/src/network/cgi/base.cpp
index 0456e0e..eb7b6a7 100644
--- a/src/network/cgi/base.cpp
+++ b/src/network/cgi/base.cpp
@@ -44,6 +44,8 @@ namespace pfi{
 namespace network{
 namespace cgi{
 
+static string extract_boundary(const string &content_type);
+
 cgi::cgi()
   : max_content_length(4*1024*1024)
 {
@@ -94,14 +96,8 @@ void cgi::exec(istream& in,
       }
       else{
         if (env["CONTENT_TYPE"].find("multipart/")!=string::npos){
-          string::size_type ix=env["CONTENT_TYPE"].find("boundary=");
-          if (ix==string::npos){
-            valid=false;
-            invalid_msg="Invalid html protocol";
-          }
-          string boundary=env["CONTENT_TYPE"].substr(ix+9);
           try{
-            parse_multipart_input(dat, boundary);
+            parse_multipart_input(dat, extract_boundary(env["CONTENT_TYPE"]));
           }
           catch(http::http_exception&){
             valid=false;
@@ -225,6 +221,14 @@ extract_header(const string &s)
   return make_pair(val, attr);
 }
 
+static string extract_boundary(const string &content_type)
+{
+  string boundary=extract_header(content_type).second["boundary"];
+  if (boundary.empty())
+    throw http::http_exception("multipart without boundary");
+  return boundary;
+}
+
 void cgi::parse_multipart_input(const string &s, const string &boundary)
 {
   bool end=false;
@@ -268,9 +272,7 @@ void cgi::parse_multipart_input(const string &s, const string &boundary)
     string body=(jss?str.substr(jss.tellg()):"");
     const string &ct=hd["Content-Type"];
     if (ct.find("multipart/")!=string::npos){
-      string::size_type ix=ct.find("boundary=");
-      string bd=ct.substr(ix+9);
-      parse_multipart_input(body, bd);
+      parse_multipart_input(body, extract_boundary(ct));
     }
     else{
       const string &cd=hd["Content-Disposition"];
-- 
2.43.0


From db163b4072202bffa2cafd22fcf99d2157c9e3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:08 +0000
Subject: [PATCH 49/57] fix: deeply nested multipart bodies exhausted memory
 and stack

---
 src/network/cgi/base.cpp | 9 +++++++--
 src/network/cgi/base.h   | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/network/cgi/base.cpp b/src/network/cgi/base.cpp
index eb7b6a7..a6cf1d5 100644
--- a/src/network/cgi/base.cpp
+++ b/src/network/cgi/base.cpp
@@ -44,6 +44,8 @@ namespace pfi{
 namespace network{
 namespace cgi{
 
+static const int max_multipart_depth=16;
+
 static string extract_boundary(const string &content_type);
 
 cgi::cgi()
@@ -229,8 +231,11 @@ static string extract_boundary(const string &content_type)
   return boundary;
 }
 
-void cgi::parse_multipart_input(const string &s, const string &boundary)
+void cgi::parse_multipart_input(const string &s, const string &boundary, int depth)
 {
+  if (depth>=max_multipart_depth)
+    throw http::http_exception("multipart is nested too deeply");
+
   bool end=false;
 
   istringstream iss(s);
@@ -272,7 +277,7 @@ void cgi::parse_multipart_input(const string &s, const string &boundary)
     string body=(jss?str.substr(jss.tellg()):"");
     const string &ct=hd["Content-Type"];
     if (ct.find("multipart/")!=string::npos){
-      parse_multipart_input(body, extract_boundary(ct));
+      parse_multipart_input(body, extract_boundary(ct), depth+1);
     }
     else{
       const string &cd=hd["Content-Disposition"];
diff --git a/src/network/cgi/base.h b/src/network/cgi/base.h
index 796b017..432d7af 100644
--- a/src/network/cgi/base.h
+++ b/src/network/cgi/base.h
@@ -86,7 +86,7 @@ protected:
 
 private:
   void parse_input(const std::string &os);
-  void parse_multipart_input(const std::string &os, const std::string &boundary);
+  void parse_multipart_input(const std::string &os, const std::string &boundary, int depth=0);
 };
 
 } // cgi
-- 
2.43.0


From 3617bac910fa27d0771275fe6e39ad87aff654d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:08 +0000
Subject: [PATCH 50/57] fix: cached DNS entries never expired

---
 src/network/dns.cpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/network/dns.cpp b/src/network/dns.cpp
index adcaaa1..44b5a90 100644
--- a/src/network/dns.cpp
+++ b/src/network/dns.cpp
@@ -107,11 +107,17 @@ public:
   vector<ipv4_address> resolve(const string &host, uint16_t port);
 
 private:
+  struct entry{
+    std::vector<ipv4_address> addr;
+    time_t resolved;
+    time_t accessed;
+  };
+
   int max_size;
   int expire_second;
 
   std::map<std::pair<std::string, uint16_t>,
-    std::pair<std::vector<ipv4_address>, time_t> > cache;
+    entry> cache;
 
   std::multiset<std::pair<time_t, std::pair<std::string, uint16_t> > > access_time;
 
@@ -166,7 +172,7 @@ void cached_dns_resolver::impl::delete_cache(const string &host, uint16_t port)
   pfi::concurrent::scoped_lock lock(m);
   if (lock) {
     pair<string,uint16_t> key(host,port);
-    time_t del_time=cache[key].second;
+    time_t del_time=cache[key].accessed;
     access_time.erase(make_pair(del_time,key));
     cache.erase(key);
   }
@@ -186,18 +192,18 @@ vector<ipv4_address> cached_dns_resolver::impl::resolve(const string &host, uint
     if (lock) {
       // hit cache
       if (cache.count(key) != 0) {
-        // last access time
-        access_time.erase(make_pair(cache[key].second, key));
-        access_time.insert(make_pair(cur, key));
-        cache[key].second = cur;
+        entry &e = cache[key];
+        access_time.erase(make_pair(e.accessed, key));
 
         // is not expire
-        if (cur-cache[key].second < expire_second) {
-          return cache[key].first;
+        if (cur-e.resolved < expire_second) {
+          // last access time
+          access_time.insert(make_pair(cur, key));
+          e.accessed = cur;
+          return e.addr;
         }
 
         // expire, so delete cache
-        access_time.erase(make_pair(cur, key));
         cache.erase(key);
       }
     }
@@ -221,7 +227,9 @@ vector<ipv4_address> cached_dns_resolver::impl::resolve(const string &host, uint
 
       // register to cache
       access_time.insert(make_pair(cur, key));
-      cache[key] = make_pair(ret, cur);
+      entry &e = cache[key];
+      e.addr = ret;
+      e.resolved = e.accessed = cur;
     }
   }
 
-- 
2.43.0


From c93ec5d5206521ca754530d383d355f7dd667805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:08 +0000
Subject: [PATCH 51/57] fix: threads resolving the same name at once broke the
 DNS cache

---
 src/network/dns.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/network/dns.cpp b/src/network/dns.cpp
index 44b5a90..0bc7013 100644
--- a/src/network/dns.cpp
+++ b/src/network/dns.cpp
@@ -216,6 +216,12 @@ vector<ipv4_address> cached_dns_resolver::impl::resolve(const string &host, uint
   {
     pfi::concurrent::scoped_lock lock(m);
     if (lock) {
+      // another thread may have registered it meanwhile
+      if (cache.count(key) != 0) {
+        access_time.erase(make_pair(cache[key].accessed, key));
+        cache.erase(key);
+      }
+
       // is cache full?
       while ((int)cache.size() >= max_size) {
         assert(access_time.size() == cache.size());
-- 
2.43.0


From 9a00d93725bfd7acfec8fab32c312af1e22c4f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:08 +0000
Subject: [PATCH 52/57] fix: a DNS cache without room evicted from an empty set

---
 src/network/dns.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/network/dns.cpp b/src/network/dns.cpp
index 0bc7013..77890b5 100644
--- a/src/network/dns.cpp
+++ b/src/network/dns.cpp
@@ -223,7 +223,7 @@ vector<ipv4_address> cached_dns_resolver::impl::resolve(const string &host, uint
       }
 
       // is cache full?
-      while ((int)cache.size() >= max_size) {
+      while (!cache.empty() && (int)cache.size() >= max_size) {
         assert(access_time.size() == cache.size());
         // oldest entry must be head, so delete it
         pair<string,uint16_t> del_key = access_time.begin()->second;
@@ -231,6 +231,9 @@ vector<ipv4_address> cached_dns_resolver::impl::resolve(const string &host, uint
         access_time.erase(access_time.begin());
       }
 
+      if (max_size <= 0)
+        return ret;
+
       // register to cache
       access_time.insert(make_pair(cur, key));
       entry &e = cache[key];
-- 
2.43.0


From f42cf9f44df694c80273e4504fbaf97bfad18e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:26 +0000
Subject: [PATCH 53/57] fix: assigned or re-copied csv_iterators pointed into
 the buffer of another iterator

---
 src/text/csv.h | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/text/csv.h b/src/text/csv.h
index 977fb57..58b841d 100644
--- a/src/text/csv.h
+++ b/src/text/csv.h
@@ -193,11 +193,13 @@ public:
   }
 
   csv_iterator(const csv_iterator &r)
-    : p(r.p), cached(false) {
-    if (p){
-      cached=true;
-      p->copy(cur, buf);
-    }
+    : p(NULL), cached(false) {
+    assign(r);
+  }
+
+  csv_iterator &operator=(const csv_iterator &r){
+    if (this!=&r) assign(r);
+    return *this;
   }
 
   bool operator==(const csv_iterator &r) const{
@@ -233,6 +235,22 @@ public:
   }
 
 private:
+  // take the row where r stands; the pointers refer to our own buffer
+  void assign(const csv_iterator &r){
+    p=r.p;
+    cached=(p!=NULL);
+    if (!cached) return;
+    if (r.cached){
+      buf=r.buf;
+      cur.resize(r.cur.size());
+      for (size_t i=0; i<cur.size(); i++)
+        cur[i]=&buf[0]+(r.cur[i]-&r.buf[0]);
+    }
+    else{
+      p->copy(cur, buf);
+    }
+  }
+
   csv_parser *p;
 
   bool cached;
-- 
2.43.0


From cbf75bd52fac652b6a1e4bebb1b33aaf82094c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:17 +0000
Subject: [PATCH 54/57] fix: the outer products of component_by_array vectors
 did not compile

---
 src/math/vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/vector.h b/src/math/vector.h
index 0624997..d4c94d1 100644
--- a/src/math/vector.h
+++ b/src/math/vector.h
@@ -279,7 +279,7 @@ namespace component_by_array{
   ///outer product; outer product uses % operator.
   template<class t>
     t operator%(const vector2<t> & a, const vector2<t> & b){
-    return a.x*b.y - a.y*b.x;
+    return a.r[0]*b.r[1] - a.r[1]*b.r[0];
   }
 
   /// +=
@@ -610,7 +610,7 @@ namespace component_by_array{
   ///outer product; outer product uses % operator.
   template<class t>
     vector3<t> operator%(const vector3<t> & a, const vector3<t> & b){
-    return vector3<t>(a.y*b.z - a.z*b.y,a.z*b.x - a.x*b.z,a.x*b.y - a.y*b.x);
+    return vector3<t>(a.r[1]*b.r[2] - a.r[2]*b.r[1],a.r[2]*b.r[0] - a.r[0]*b.r[2],a.r[0]*b.r[1] - a.r[1]*b.r[0]);
   }
 
   /// +=
-- 
2.43.0


From aa094a0620d3c4bf8c4f85158ef98ecca13acee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:17 +0000
Subject: [PATCH 55/57] fix: a printed md5sum depended on the adjustment, case
 and base flags of the stream

---
 src/data/digest/md5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/digest/md5.cpp b/src/data/digest/md5.cpp
index 4b707cb..e0acf46 100644
--- a/src/data/digest/md5.cpp
+++ b/src/data/digest/md5.cpp
@@ -140,7 +140,7 @@ ostream &operator<<(ostream &os, const md5sum &m)
   const ios::fmtflags prev_flags = os.flags();
   const char prev_fill = os.fill('0');
   try {
-    os << hex;
+    os << hex << right << nouppercase << noshowbase;
     os << setw(2) << ((m.a>> 0)&0xff);
     os << setw(2) << ((m.a>> 8)&0xff);
     os << setw(2) << ((m.a>>16)&0xff);
-- 
2.43.0


From 9ec49ff44a812c65d79de332bb41db53088d1862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:17 +0000
Subject: [PATCH 56/57] fix: numbers beyond 32 bits in a dotted address wrapped
 around into valid ones

---
 src/network/ipv4.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/network/ipv4.h b/src/network/ipv4.h
index a0ec2a6..6c56a5f 100644
--- a/src/network/ipv4.h
+++ b/src/network/ipv4.h
@@ -56,8 +56,8 @@ public:
   }
 
   explicit ipv4_address(const std::string& s) {
-    int buf[4];
-    if (std::sscanf(s.c_str(), "%d.%d.%d.%d", &buf[0], &buf[1], &buf[2], &buf[3]) != 4) {
+    long buf[4];
+    if (std::sscanf(s.c_str(), "%ld.%ld.%ld.%ld", &buf[0], &buf[1], &buf[2], &buf[3]) != 4) {
       *this = none;
       return;
     }
-- 
2.43.0


From e9a6d573f1510337d44aeba5c2b2023ee0bec82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:21 +0000
Subject: [PATCH 57/57] fix: free and cached memory of 2 TiB and more
 overflowed in get_sysstat

---
 src/system/sysstat.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/system/sysstat.cpp b/src/system/sysstat.cpp
index 00cc0d9..fa829c0 100644
--- a/src/system/sysstat.cpp
+++ b/src/system/sysstat.cpp
@@ -162,7 +162,7 @@ static uint64_t get_free_memory()
       string kb;
       iss >> type >> mem >> kb;
       if (mem != "") {
-        memfree = atoi(mem.c_str());
+        memfree = atoll(mem.c_str());
         if (kb == "kB") {
           memfree *= 1000;
         }
@@ -175,7 +175,7 @@ static uint64_t get_free_memory()
       string kb;
       iss >> type >> cached >> kb;
       if (cached != "") {
-        memcached = atoi(cached.c_str());
+        memcached = atoll(cached.c_str());
         if (kb == "kB") {
           memcached *= 1000;
         }
-- 
2.43.0

