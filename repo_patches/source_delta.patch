From b3e3bff35c61427e94e3c6e96ae998fdd58c2df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:54 +0000
Subject: [PATCH 01/60] fix: FFT size search loses precision above 2^24 cells

The upper exponent bound was computed from a single precision logarithm, so
for a request of 2^k + 1 cells (k >= 24) the search could start from, and
return, 2^k: one cell less than requested.
---
 src/nrlib/fft/fft.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/fft/fft.cpp b/src/nrlib/fft/fft.cpp
index 1f59986..53faaa4 100644
--- a/src/nrlib/fft/fft.cpp
+++ b/src/nrlib/fft/fft.cpp
@@ -56,10 +56,10 @@ NRLib::FindNewSizeWithPadding(size_t minSize, bool must_be_even) {
   if (must_be_even)
     minant2 = 1;
 
-  int maxant2 = static_cast<int>(ceil((double)log((float)(minSize)) / log(2.0f)));
-  int maxant3 = static_cast<int>(ceil((double)log((float)(minSize)) / log(3.0f)));
-  int maxant5 = static_cast<int>(ceil((double)log((float)(minSize)) / log(5.0f)));
-  int maxant7 = static_cast<int>(ceil((double)log((float)(minSize)) / log(7.0f)));
+  int maxant2 = static_cast<int>(ceil(log(static_cast<double>(minSize)) / log(2.0)));
+  int maxant3 = static_cast<int>(ceil(log(static_cast<double>(minSize)) / log(3.0)));
+  int maxant5 = static_cast<int>(ceil(log(static_cast<double>(minSize)) / log(5.0)));
+  int maxant7 = static_cast<int>(ceil(log(static_cast<double>(minSize)) / log(7.0)));
   int maxant11 = 0;
   int maxant13 = 0;
   size_t closestprod = static_cast<size_t>(pow(2.0f, maxant2));
-- 
2.43.0


From 017768e3fa0532b14037cdac46b650d66aaaff89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:54 +0000
Subject: [PATCH 02/60] fix: a zero perp_range or depth_range defaults to
 main_range

The docstring promises that a zero range means 'same as main_range', but only
negative values were replaced; zero gave a degenerate (NaN) variogram.
---
 src/gaussfft.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gaussfft.cpp b/src/gaussfft.cpp
index cdd7e2e..bf8a642 100644
--- a/src/gaussfft.cpp
+++ b/src/gaussfft.cpp
@@ -60,9 +60,9 @@ NRLib::Variogram * GaussFFT::CreateVariogram(const std::string & type,
                                              double              dip_angle,
                                              double              power)
 {
-  if (range_y < 0.0)
+  if (range_y <= 0.0)
     range_y = range_x;
-  if (range_z < 0.0)
+  if (range_z <= 0.0)
     range_z = range_x;
 
   azimuth_angle *= NRLib::Degree;
-- 
2.43.0


From ca949ce97dbf7feca9f728f6a506d4f6de03ee13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:54 +0000
Subject: [PATCH 03/60] fix: an unreadable seed file leaves the current start
 seed alone

A failed extraction overwrote the stored start seed with zero although the
generator kept its old state, so the reported seed no longer described it.
---
 src/nrlib/random/random.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/random/random.cpp b/src/nrlib/random/random.cpp
index d00de76..44cdc9a 100644
--- a/src/nrlib/random/random.cpp
+++ b/src/nrlib/random/random.cpp
@@ -52,9 +52,11 @@ void Random::Initialize(const std::string& filename) {
   if (!file) {
     throw Exception("Error opening seed file " + filename + "\n");
   }
-  if (!(file >> start_seed_)) {
+  unsigned long seed;
+  if (!(file >> seed)) {
     throw Exception("Error reading seed from seed file " + filename + "\n");
   }
+  start_seed_ = seed;
   seed_file_ = filename;
   use_seed_file_ = true;
   is_initialized_ = true;
-- 
2.43.0


From 630c79c01df70c590c889641f07c1507de731ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:54 +0000
Subject: [PATCH 04/60] fix: do not leak a random generator per 1D and 2D
 simulation

---
 src/nrlib/variogram/gaussianfield.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/variogram/gaussianfield.cpp b/src/nrlib/variogram/gaussianfield.cpp
index 4eaea78..e8616a7 100644
--- a/src/nrlib/variogram/gaussianfield.cpp
+++ b/src/nrlib/variogram/gaussianfield.cpp
@@ -198,10 +198,12 @@ void NRLib::Simulate2DGaussianField(const Variogram& variogram,
                                     // bool   user_defined_padding,
                                     Grid2D<double> & grid_out)
 {
+  RandomGenerator   start_rg;
   RandomGenerator * rg = NULL;
   try {
     unsigned long seed = Random::GetStartSeed();
-    rg = new RandomGenerator(seed);
+    start_rg.Initialize(seed);
+    rg = &start_rg;
   }
   catch (std::exception) {
     // This will occur if NRLib::Random is not initilized. In this case,
@@ -279,8 +281,9 @@ void NRLib::Simulate2DGaussianField(const Variogram              & variogram,
   // This is done to be able to do multithreading
   //NRLib::RandomGenerator random;
  // random.Initialize(seed);
+  RandomGenerator local_rg;
   if(rg == NULL) {
-    rg = new RandomGenerator();
+    rg = &local_rg;
     rg->Initialize(NRLib::Random::DrawUint32());
   }
   for (int k = 0; k < n_fields; k++) {
@@ -318,8 +321,9 @@ NRLib::Simulate1DGaussianField(const Variogram       & variogram,
 
   std::vector<double> cov = FFTCovGrid1D(variogram, static_cast<int>(nxp), dx, scaling_x).GetCov();
 
+  RandomGenerator local_rg;
   if(rg == NULL) {
-    rg = new RandomGenerator();
+    rg = &local_rg;
     rg->Initialize(NRLib::Random::DrawUint32());
   }
   std::vector<double> noise(nxp);
-- 
2.43.0


From 28f879045c3dee3f0f8ed490bb0ae00d1c31d237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:15 +0000
Subject: [PATCH 05/60] fix: passing None as the variogram raises TypeError
 instead of crashing

---
 src/gaussfftinterface.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gaussfftinterface.cpp b/src/gaussfftinterface.cpp
index 41bbb5e..3850404 100644
--- a/src/gaussfftinterface.cpp
+++ b/src/gaussfftinterface.cpp
@@ -195,7 +195,7 @@ PYBIND11_MODULE(_gaussianfft, m, py::mod_gil_not_used(), py::multiple_interprete
   // Padding
   //
   m.def("simulation_size", &GaussFFT::FindGridSizeAfterPadding,
-      py::arg("variogram"),
+      py::arg("variogram").none(false),
       py::arg("nx"),
       py::arg("dx"),
       py::arg("ny") = 1U,
@@ -224,7 +224,7 @@ PYBIND11_MODULE(_gaussianfft, m, py::mod_gil_not_used(), py::multiple_interprete
   // Simulate core function
   //
   m.def("simulate", &GaussFFT::Simulate,
-      py::arg("variogram"),
+      py::arg("variogram").none(false),
       py::arg("nx"),
       py::arg("dx"),
       py::arg("ny")=1U,
@@ -240,7 +240,7 @@ PYBIND11_MODULE(_gaussianfft, m, py::mod_gil_not_used(), py::multiple_interprete
   // Simulate core function
   //
   advanced.def("simulate", &GaussFFT::SimulateWithAdvancedSettings,
-      py::arg("variogram"),
+      py::arg("variogram").none(false),
       py::arg("nx"),
       py::arg("dx"),
       py::arg("ny") = 1U,
-- 
2.43.0


From 9066a2be7416b0e2a77824129bad1101f079ad75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:32 +0000
Subject: [PATCH 06/60] fix: correlation smoothing is independent of the length
 unit

The smoothing factor at distance one underflowed to zero for ranges below
about 0.04, and lost all precision for very large ones.
---
 src/nrlib/variogram/fftcovgrid.cpp |  8 +++++---
 src/nrlib/variogram/fftcovgrid.hpp | 12 ++++++------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/nrlib/variogram/fftcovgrid.cpp b/src/nrlib/variogram/fftcovgrid.cpp
index 0a898d7..ca0149b 100644
--- a/src/nrlib/variogram/fftcovgrid.cpp
+++ b/src/nrlib/variogram/fftcovgrid.cpp
@@ -82,9 +82,11 @@ namespace NRLib { namespace FFTCovGridUtilities
     assert(scaling_z > 1e-12);
     std::vector<double> axis_ranges = FFTCovGridUtilities::FindVariogramRanges(variogram);
 
-    double sx = pow(scaling_x, 1.0/(axis_ranges[0] * axis_ranges[0]));
-    double sy = pow(scaling_y, 1.0/(axis_ranges[1] * axis_ranges[1]));
-    double sz = pow(scaling_z, 1.0/(axis_ranges[2] * axis_ranges[2]));
+    // The logarithm is kept, as the factor itself vanishes or rounds to one when
+    // the ranges are far from one in the length unit used
+    double sx = log(scaling_x) / (axis_ranges[0] * axis_ranges[0]);
+    double sy = log(scaling_y) / (axis_ranges[1] * axis_ranges[1]);
+    double sz = log(scaling_z) / (axis_ranges[2] * axis_ranges[2]);
 
     std::vector<double> scaling_factors;
     scaling_factors.push_back(sx);
diff --git a/src/nrlib/variogram/fftcovgrid.hpp b/src/nrlib/variogram/fftcovgrid.hpp
index 56e7030..3290008 100644
--- a/src/nrlib/variogram/fftcovgrid.hpp
+++ b/src/nrlib/variogram/fftcovgrid.hpp
@@ -49,7 +49,7 @@ private:
   void InitializeSmoothingFactors(const Variogram & variogram,
                                   double            scaling_x);
 
-  double FindSmoothingFactorX(double ddx) { return pow(sx_, ddx * ddx); }
+  double FindSmoothingFactorX(double ddx) { return exp(sx_ * ddx * ddx); }
 };
 
 /// Same as FFTCovGrid1D, but for two dimensions
@@ -74,9 +74,9 @@ private:
                                   double            scaling_x,
                                   double            scaling_y);
 
-  double FindSmoothingFactorX(double ddx) { return pow(sx_, ddx * ddx); }
+  double FindSmoothingFactorX(double ddx) { return exp(sx_ * ddx * ddx); }
 
-  double FindSmoothingFactorY(double ddy) { return pow(sy_, ddy * ddy); }
+  double FindSmoothingFactorY(double ddy) { return exp(sy_ * ddy * ddy); }
 };
 
 /// Same as FFTCovGrid1D, but for three dimensions
@@ -106,11 +106,11 @@ private:
                                   double            scaling_y,
                                   double            scaling_z);
 
-  double FindSmoothingFactorX(double ddx) { return pow(sx_, ddx * ddx); }
+  double FindSmoothingFactorX(double ddx) { return exp(sx_ * ddx * ddx); }
 
-  double FindSmoothingFactorY(double ddy) { return pow(sy_, ddy * ddy); }
+  double FindSmoothingFactorY(double ddy) { return exp(sy_ * ddy * ddy); }
 
-  double FindSmoothingFactorZ(double ddz) { return pow(sz_, ddz * ddz); }
+  double FindSmoothingFactorZ(double ddz) { return exp(sz_ * ddz * ddz); }
 };
 
 }
-- 
2.43.0


From b8c6c0193c51a73385029d3a7a2e87d07f1d863b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:45 +0000
Subject: [PATCH 07/60] fix: Substitute replaces the text that was found, also
 when lengths differ

It removed as many characters as the replacement has, and never returned
when the replacement contains the text to be replaced.
---
 src/nrlib/iotools/stringtools.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/iotools/stringtools.cpp b/src/nrlib/iotools/stringtools.cpp
index e810b22..3815caa 100644
--- a/src/nrlib/iotools/stringtools.cpp
+++ b/src/nrlib/iotools/stringtools.cpp
@@ -144,11 +144,10 @@ NRLib::Substitute(std::string       & text,
                    const std::string & out,
                    const std::string & in)
 {
-  std::string::size_type len = in.size();
   std::string::size_type pos = text.find(out);
   while (pos != std::string::npos) {
-    text.replace(pos, len, in);
-    pos = text.find(out);
+    text.replace(pos, out.size(), in);
+    pos = text.find(out, pos + in.size());
   }
 }
 
-- 
2.43.0


From 25b67fff1c16af98b0c6ebbdbc01ccfcd067f347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:45 +0000
Subject: [PATCH 08/60] fix: ParseAsciiArrayFast does not start over when the
 string is too short

Without whitespace after the last token the search continued at the
beginning of the string, so missing elements were filled with the first
ones instead of being reported.
---
 src/nrlib/iotools/stringtools.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/iotools/stringtools.hpp b/src/nrlib/iotools/stringtools.hpp
index f8a0e8c..3663ca7 100644
--- a/src/nrlib/iotools/stringtools.hpp
+++ b/src/nrlib/iotools/stringtools.hpp
@@ -202,9 +202,11 @@ I NRLib::ParseAsciiArrayFast(std::string& s, I begin, size_t n)
     }
     *begin = NRLibPrivate::UnsafeParser<T>::ParseType(&s[pos]);
     ++begin;
+    ++i;
+    if (next_pos == s.npos)   // That was the last token.
+      break;
     pos = s.find_first_not_of(whitespace, next_pos + 1);
     next_pos = s.find_first_of(whitespace, pos + 1);
-    ++i;
   }
 
   if (i != n) {
-- 
2.43.0


From cf7d713a826286ddc9d9b1305adc564bc0bddeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:45 +0000
Subject: [PATCH 09/60] fix: ReadNextQuoted reads empty strings and counts
 every line

An empty quoted string swallowed the text up to the following quote, and
a newline right after the opening quote was not counted.
---
 src/nrlib/iotools/fileio.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/nrlib/iotools/fileio.cpp b/src/nrlib/iotools/fileio.cpp
index f751ff5..dc7194d 100644
--- a/src/nrlib/iotools/fileio.cpp
+++ b/src/nrlib/iotools/fileio.cpp
@@ -421,28 +421,27 @@ void NRLib::ReadNextQuoted(std::istream& stream, char quote, std::string&  s, in
   char c = 0;
 
   int found = 0;
-  while( found == 0 && !stream.eof() ){
-    stream.get(c);
+  while( found == 0 && stream.get(c) ){
     if (c == '\n'){
       line++;
     }
     if (c == quote){
       found++;
-      stream.get(c);
     }
   }
   s ="";
-  while( found == 1  && !stream.eof() ) {
-    s = s+c;
-    stream.get(c);
+  while( found == 1 && stream.get(c) ) {
     if (c == '\n'){
       line++;
     }
     if (c == quote){
       found++;
     }
+    else {
+      s = s+c;
+    }
   }
-  if (s == "")              //We are at end of file if nothing is read.
+  if (s == "" && found < 2) //We are at end of file if nothing is read.
     throw EndOfFile();
 
 }
-- 
2.43.0


From b64659a000fed157f842b9c399badb7882ee6f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:45 +0000
Subject: [PATCH 10/60] fix: GetQuotedTokens finds the right quotation marks

A quotation at the very beginning was taken to start at its closing mark,
marks inside earlier tokens shifted all later quotations, and a missing
closing mark gave an endless loop.
---
 src/nrlib/iotools/stringtools.cpp | 32 +++++++++++++------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/src/nrlib/iotools/stringtools.cpp b/src/nrlib/iotools/stringtools.cpp
index 3815caa..a90d654 100644
--- a/src/nrlib/iotools/stringtools.cpp
+++ b/src/nrlib/iotools/stringtools.cpp
@@ -115,26 +115,20 @@ std::vector<std::string>
 NRLib::GetQuotedTokens(const std::string& s)
 {
   std::vector<std::string> v;
-  std::istringstream iss(s);
-  std::string tmp;
-  std::string char_tmp;
-  size_t quotation_last_position = 0;
-  while(iss >> tmp) {
-    char_tmp = tmp.substr(0, 1);
-    if (char_tmp != "\"")
-      v.push_back(tmp);
-    else{
-      quotation_last_position = s.find_first_of("\"", quotation_last_position + 1);
-      size_t first_quotation_mark = quotation_last_position;
-      quotation_last_position = s.find_first_of("\"", quotation_last_position + 1);
-      size_t second_quotation_mark = quotation_last_position;
-      std::string quotation = s.substr(first_quotation_mark + 1, (second_quotation_mark - first_quotation_mark - 1));
-      v.push_back(quotation);
-      if (char_tmp == tmp)
-        iss >> tmp;
-      while (tmp.substr((tmp.size() - 1), 1) != "\"")
-        iss >> tmp;
+  size_t pos = s.find_first_not_of(Whitespace());
+  while (pos != std::string::npos) {
+    size_t end;
+    if (s[pos] == '"') {
+      end = s.find('"', pos + 1);
+      v.push_back(s.substr(pos + 1, end - pos - 1));
+      if (end != std::string::npos)
+        ++end;
+    }
+    else {
+      end = s.find_first_of(Whitespace(), pos);
+      v.push_back(s.substr(pos, end - pos));
     }
+    pos = s.find_first_not_of(Whitespace(), end);
   }
   return v;
 }
-- 
2.43.0


From 212b09c5a38b5a3acbec96f2607221dee9151612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:45 +0000
Subject: [PATCH 11/60] fix: SkipComments leaves the stream at end of file when
 there is nothing more

At end of file it looked at an unset character and cleared the eof flag,
so that CheckEndOfFile afterwards said there was more to read.
---
 src/nrlib/iotools/fileio.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/iotools/fileio.cpp b/src/nrlib/iotools/fileio.cpp
index dc7194d..90a995c 100644
--- a/src/nrlib/iotools/fileio.cpp
+++ b/src/nrlib/iotools/fileio.cpp
@@ -299,7 +299,10 @@ void NRLib::SkipComments(std::istream & stream,
         line_num++;
     }
 
-    if (c == comment_symbol) {
+    if (!stream.good()) {
+      comment = false;          // End of file.
+    }
+    else if (c == comment_symbol) {
       std::getline(stream, line);
       line_num++;
     }
-- 
2.43.0


From 8681cb5304e0f069b6ca20feaf5862dba38a2d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:45 +0000
Subject: [PATCH 12/60] fix: ReadAsciiArrayFast accepts a last number that ends
 the file

An array not followed by whitespace was refused with EndOfFile although
all elements had been read.
---
 src/nrlib/iotools/fileio.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/iotools/fileio.hpp b/src/nrlib/iotools/fileio.hpp
index 2d1f490..e08c790 100644
--- a/src/nrlib/iotools/fileio.hpp
+++ b/src/nrlib/iotools/fileio.hpp
@@ -516,7 +516,7 @@ I NRLib::ReadAsciiArrayFast(std::istream& stream, I begin, size_t n)
   for (size_t i = 0; i < n; ++i) {
     stream >> *begin;
     ++begin;
-    if ( stream.eof() ) {
+    if ( stream.fail() && stream.eof() ) {
       throw EndOfFile();
     }
     if ( stream.fail() ) {
-- 
2.43.0


From a561dc61994dfc113b4c94ef06be1d616e67bfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:50 +0000
Subject: [PATCH 13/60] fix: LogFormatted formats messages of any length

Messages longer than 5000 characters (1000 with a phase) overflowed a
buffer on the stack.
---
 src/nrlib/iotools/logkit.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/nrlib/iotools/logkit.cpp b/src/nrlib/iotools/logkit.cpp
index 8199a79..87b89b5 100644
--- a/src/nrlib/iotools/logkit.cpp
+++ b/src/nrlib/iotools/logkit.cpp
@@ -21,6 +21,7 @@
 
 #include <algorithm>
 #include <cstdarg>
+#include <cstdio>
 #include <iostream>
 
 #include "fileio.hpp"
@@ -157,25 +158,38 @@ LogKit::LogMessage(int level, int phase, const std::string & message) {
 }
 
 
+// Formats a message of any length. ap is used up.
+static std::string
+FormatMessage(const char * format, va_list ap) {
+  va_list ap_size;
+  va_copy(ap_size, ap);
+  int length = vsnprintf(NULL, 0, format, ap_size);
+  va_end(ap_size);
+  if (length <= 0)
+    return "";
+  std::vector<char> message(static_cast<size_t>(length) + 1);
+  vsnprintf(&message[0], message.size(), format, ap);
+  return std::string(&message[0], static_cast<size_t>(length));
+}
+
+
 void
 LogKit::LogFormatted(int level, const char* format, ...) {
   va_list ap;
-  char message[5000];
   va_start(ap, format);
-  vsprintf(message, format, ap);
+  std::string message = FormatMessage(format, ap);
   va_end(ap);
-  LogMessage(level, std::string(message));
+  LogMessage(level, message);
 }
 
 
 void
 LogKit::LogFormatted(int level, int phase, const char* format, ...) {
   va_list ap;
-  char message[1000];
   va_start(ap, format);
-  vsprintf(message, format, ap);
+  std::string message = FormatMessage(format, ap);
   va_end(ap);
-  LogMessage(level, phase, std::string(message));
+  LogMessage(level, phase, message);
 }
 
 
-- 
2.43.0


From 1e486cff43be490da58333217813823f95db5d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:47 +0000
Subject: [PATCH 14/60] fix: PrependDir leaves complete paths and empty strings
 alone, as documented

An absolute file name in e.g. a grid header was looked up below the
directory of the header.
---
 src/nrlib/iotools/stringtools.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nrlib/iotools/stringtools.cpp b/src/nrlib/iotools/stringtools.cpp
index a90d654..76719d2 100644
--- a/src/nrlib/iotools/stringtools.cpp
+++ b/src/nrlib/iotools/stringtools.cpp
@@ -67,6 +67,8 @@ std::string
 NRLib::PrependDir(const std::string& prefix,
                    const std::string& str)
 {
+  if (str.empty() || str[0] == '/')
+    return str;
   boost::filesystem::path path(prefix);
   path /= str;
   return path.string();
-- 
2.43.0


From ab693578d6ec72627bf9a3a61e30c1c14494dc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:47 +0000
Subject: [PATCH 15/60] fix: CopyFile does not delete the target unless there
 is something to copy

With allow_overwrite the target was removed first, so a missing source
cost the target, and copying a file onto itself deleted it.
---
 src/nrlib/iotools/fileio.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/iotools/fileio.cpp b/src/nrlib/iotools/fileio.cpp
index 90a995c..1fe6728 100644
--- a/src/nrlib/iotools/fileio.cpp
+++ b/src/nrlib/iotools/fileio.cpp
@@ -167,11 +167,15 @@ void NRLib::CopyFile(const std::string & from_path,
                      const std::string & to_path,
                      bool                allow_overwrite)
 {
-  if (allow_overwrite)
-    RemoveFile(to_path);
-  else {
-    if (boost::filesystem::exists(to_path))
+  if (!boost::filesystem::exists(from_path))
+    throw IOError("Failed to open " + from_path + " for reading: File does not exist.");
+
+  if (boost::filesystem::exists(to_path)) {
+    if (!allow_overwrite)
       throw IOError("Failed to open " + to_path + " for writing: The file already exists.");
+    if (boost::filesystem::equivalent(from_path, to_path))
+      return;
+    RemoveFile(to_path);
   }
 
   boost::filesystem::copy_file(from_path, to_path);
-- 
2.43.0


From 46f69c10cf352303197d6d3fde5d9287740c0151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:37 +0000
Subject: [PATCH 16/60] fix: a single crossline may have its inlines in
 descending order

---
 src/nrlib/segy/segygeometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/segy/segygeometry.cpp b/src/nrlib/segy/segygeometry.cpp
index f3e80e0..c2f7899 100644
--- a/src/nrlib/segy/segygeometry.cpp
+++ b/src/nrlib/segy/segygeometry.cpp
@@ -207,7 +207,7 @@ SegyGeometry::SegyGeometry(std::vector<SegYTrace *> & traces,
     }
     else {
       if(dXL1 == 0 && dXL2 == 0) { //Single crossline or single trace.
-        if(dIL1 > 0) {
+        if(dIL1 != 0) {
           dxIL = (x1-x0)/dIL1;
           dyIL = (y1-y0)/dIL1;
         }
-- 
2.43.0


From d97563b04436e9db09a08a3b8b7968776d0a0ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:37 +0000
Subject: [PATCH 17/60] fix: FindIndex refuses the line just outside the SegY
 grid

---
 src/nrlib/segy/segygeometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/segy/segygeometry.cpp b/src/nrlib/segy/segygeometry.cpp
index c2f7899..e7f0b05 100644
--- a/src/nrlib/segy/segygeometry.cpp
+++ b/src/nrlib/segy/segygeometry.cpp
@@ -938,7 +938,7 @@ SegyGeometry::FindIndex(int IL, int XL, size_t &i, size_t &j) const
     std::swap(ii, jj);
   }
 
-  if (ii < 0 || jj < 0 || ii > static_cast<int>(nx_) || jj > static_cast<int>(ny_))
+  if (ii < 0 || jj < 0 || ii >= static_cast<int>(nx_) || jj >= static_cast<int>(ny_))
     throw Exception("Indexes (i, j) = (" + NRLib::ToString(ii) + ", " + NRLib::ToString(jj) + ") outside grid "
                     "found for (IL, XL) = (" + NRLib::ToString(IL) + ", " + NRLib::ToString(XL) + ")");
 
-- 
2.43.0


From 05efe12e51346116915fa47e116ebfaa9596d6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:37 +0000
Subject: [PATCH 18/60] fix: FindILXL rounds negative line numbers to the
 nearest line

---
 src/nrlib/segy/segygeometry.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/segy/segygeometry.cpp b/src/nrlib/segy/segygeometry.cpp
index e7f0b05..2e85795 100644
--- a/src/nrlib/segy/segygeometry.cpp
+++ b/src/nrlib/segy/segygeometry.cpp
@@ -1002,8 +1002,8 @@ SegyGeometry::FindContIndexFromContILXL(double il, double xl, double &xind, doub
 void
 SegyGeometry::FindILXL(double x, double y, int &IL, int &XL) const
 {
-  IL = static_cast<int>(0.5+in_line0_+(x-x0_)*il_stepX_+(y-y0_)*il_stepY_);
-  XL = static_cast<int>(0.5+cross_line0_+(x-x0_)*xl_stepX_+(y-y0_)*xl_stepY_);
+  IL = static_cast<int>(floor(0.5+in_line0_+(x-x0_)*il_stepX_+(y-y0_)*il_stepY_));
+  XL = static_cast<int>(floor(0.5+cross_line0_+(x-x0_)*xl_stepX_+(y-y0_)*xl_stepY_));
 }
 
 
-- 
2.43.0


From 8859f91e291032dfffb00261a31475eb6b1dcea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:37 +0000
Subject: [PATCH 19/60] fix: geometries made without line numbers use the same
 numbering for cells and positions

---
 src/nrlib/segy/segygeometry.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/nrlib/segy/segygeometry.cpp b/src/nrlib/segy/segygeometry.cpp
index 2e85795..a25c83c 100644
--- a/src/nrlib/segy/segygeometry.cpp
+++ b/src/nrlib/segy/segygeometry.cpp
@@ -768,12 +768,12 @@ SegyGeometry::SegyGeometry(double x0, double y0, double dx, double dy, size_t nx
   IL0_         = 0;
   XL0_         = 0;
   minIL_       = 0;
-  maxIL_       = static_cast<int>(nx - 1);
+  maxIL_       = static_cast<int>(ny - 1);
   ILStep_      = 1;
   minXL_       = 0;
-  maxXL_       = static_cast<int>(ny - 1);
+  maxXL_       = static_cast<int>(nx - 1);
   XLStep_      = 1;
-  firstAxisIL_ = true;
+  firstAxisIL_ = false; // Crosslines along the first axis, see xl_stepX_.
 }
 
 SegyGeometry::SegyGeometry(double x0, double y0, double dx, double dy, size_t nx, size_t ny,
@@ -819,12 +819,12 @@ SegyGeometry::SegyGeometry(const RegularSurface<double> & surf)
   IL0_         = 0;
   XL0_         = 0;
   minIL_       = 0;
-  maxIL_       = static_cast<int>(nx_ - 1);
+  maxIL_       = static_cast<int>(ny_ - 1);
   ILStep_      = 1;
   minXL_       = 0;
-  maxXL_       = static_cast<int>(ny_ - 1);
+  maxXL_       = static_cast<int>(nx_ - 1);
   XLStep_      = 1;
-  firstAxisIL_ = true;
+  firstAxisIL_ = false; // Crosslines along the first axis, see xl_stepX_.
 }
 
 SegyGeometry::SegyGeometry(const RegularSurfaceRotated<double> & surf)
@@ -847,12 +847,12 @@ SegyGeometry::SegyGeometry(const RegularSurfaceRotated<double> & surf)
   IL0_         = 0;
   XL0_         = 0;
   minIL_       = 0;
-  maxIL_       = static_cast<int>(nx_ - 1);
+  maxIL_       = static_cast<int>(ny_ - 1);
   ILStep_      = 1;
   minXL_       = 0;
-  maxXL_       = static_cast<int>(ny_ - 1);
+  maxXL_       = static_cast<int>(nx_ - 1);
   XLStep_      = 1;
-  firstAxisIL_ = true;
+  firstAxisIL_ = false; // Crosslines along the first axis, see xl_stepX_.
 }
 
 SegyGeometry::SegyGeometry(const SegyGeometry *geometry)
-- 
2.43.0


From 99ead5aa57c859cd00f8b76f381217df44a6ea09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:26 +0000
Subject: [PATCH 20/60] fix: the text header of a SegY file is EBCDIC again

The literals had been damaged by a conversion of the source file's encoding: each character outside ASCII had become three bytes, so that all lines were shifted.
---
 src/nrlib/segy/commonheaders.cpp | 52 +++++++-------------------------
 1 file changed, 11 insertions(+), 41 deletions(-)

diff --git a/src/nrlib/segy/commonheaders.cpp b/src/nrlib/segy/commonheaders.cpp
index 92abd48..993f1b4 100644
--- a/src/nrlib/segy/commonheaders.cpp
+++ b/src/nrlib/segy/commonheaders.cpp
@@ -24,6 +24,7 @@
 #include <cstdio>
 #include <cstring>
 #include "../iotools/fileio.hpp"
+#include "../iotools/stringtools.hpp"
 
 using namespace NRLib;
 /// Table with EBCDIC-values for the different ASCII values.
@@ -59,48 +60,17 @@ static unsigned char ascii2ebcdic(unsigned char c)
 
 static void emptyHeader(std::string &ebcdicH)
 {
+  std::string ascii;
+  for (int i = 1; i <= 40; ++i) {
+    std::string line = "C" + std::string(i < 10 ? " " : "") + NRLib::ToString(i);
+    if (i == 40)
+      line += " END EBCDIC";
+    line.resize(80, ' ');
+    ascii += line;
+  }
   ebcdicH = "";
-   ebcdicH+=  "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+=  "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@���@������@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+='@';
+  for (size_t i = 0; i < ascii.size(); ++i)
+    ebcdicH += static_cast<char>(ascii2ebcdic(ascii[i]));
 }
 
 static void oldHeader(std::string &ebcdicH)
-- 
2.43.0


From feadf3ec1da146f1faa8427fbe98e668cd3a6eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:26 +0000
Subject: [PATCH 21/60] fix: ascii2ebcdic does not look past the end of its
 table

---
 src/nrlib/segy/commonheaders.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/segy/commonheaders.cpp b/src/nrlib/segy/commonheaders.cpp
index 993f1b4..755403d 100644
--- a/src/nrlib/segy/commonheaders.cpp
+++ b/src/nrlib/segy/commonheaders.cpp
@@ -53,7 +53,7 @@ const unsigned char transtab[] =
 /// Translates an ASCII character to EBCDIC.
 static unsigned char ascii2ebcdic(unsigned char c)
 {
-  if (c > 128)
+  if (c >= 128)
     return 0;
   return transtab[c];
 }
-- 
2.43.0


From 823cc34c308f0245b73a9d5195f8546ba409e53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:37 +0000
Subject: [PATCH 22/60] fix: coordinates are rounded, not cut, when written to
 a SegY trace header

---
 src/nrlib/segy/traceheader.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/segy/traceheader.cpp b/src/nrlib/segy/traceheader.cpp
index 794ae2d..731f3b0 100644
--- a/src/nrlib/segy/traceheader.cpp
+++ b/src/nrlib/segy/traceheader.cpp
@@ -21,6 +21,7 @@
 
 #include "traceheader.hpp"
 
+#include <cmath>
 #include <cstdio>
 #include <cstring>
 #include <sstream>
@@ -509,10 +510,10 @@ int TraceHeader::Write(NRLib::BigFile& outFile)
     WriteInt16BE(&buffer[format_.GetScalCoLoc() - 1], scalcoinitial_);
 
   if (format_.GetUtmxLoc() > 0)
-    WriteInt32BE(&buffer[format_.GetUtmxLoc() - 1], static_cast<int>(utmx_));
+    WriteInt32BE(&buffer[format_.GetUtmxLoc() - 1], static_cast<int>(floor(utmx_ + 0.5)));
 
   if (format_.GetUtmyLoc() > 0)
-    WriteInt32BE(&buffer[format_.GetUtmyLoc() - 1], static_cast<int>(utmy_));
+    WriteInt32BE(&buffer[format_.GetUtmyLoc() - 1], static_cast<int>(floor(utmy_ + 0.5)));
 
   if (format_.GetInlineLoc() > 0)
     WriteInt32BE(&buffer[format_.GetInlineLoc() - 1], inline_);
-- 
2.43.0


From fcecea4ed0fd88480df692c277044ae454b381a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:45 +0000
Subject: [PATCH 23/60] fix: SegY sampling intervals need not be whole
 milliseconds

---
 src/nrlib/segy/segy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/segy/segy.cpp b/src/nrlib/segy/segy.cpp
index fd076dd..b832018 100644
--- a/src/nrlib/segy/segy.cpp
+++ b/src/nrlib/segy/segy.cpp
@@ -887,7 +887,7 @@ SegY::ReadHeader(TraceHeader & header)
     duplicateHeader = false;
     break;
   }
-  if (header.GetDt()/1000 != dz_) {
+  if (header.GetDt()/1000.0 != dz_) {
     if(dz_ == 0)
       dz_ = static_cast<double>(header.GetDt()/1000.0);
     else if(header.GetDt() > 0) {
@@ -1193,7 +1193,7 @@ SegY::ReadAndSetBinaryHeader(NRLib::BigFile& file)
 {
   binary_header_ = new BinaryHeader(file);
   nz_ = binary_header_->GetHns();
-  dz_ = static_cast<double>(binary_header_->GetHdt() / 1000);
+  dz_ = static_cast<double>(binary_header_->GetHdt() / 1000.0);
   if (binary_header_->GetFormat() == 3)
     datasize_ = 2;
   else
-- 
2.43.0


From 42883bf7c85633329bce7baf66c2165434f5b140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:13 +0000
Subject: [PATCH 24/60] fix: a trace without coordinate scaling is not scaled
 by the factor of the trace before it

---
 src/nrlib/segy/traceheader.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nrlib/segy/traceheader.cpp b/src/nrlib/segy/traceheader.cpp
index 731f3b0..8e889ec 100644
--- a/src/nrlib/segy/traceheader.cpp
+++ b/src/nrlib/segy/traceheader.cpp
@@ -490,6 +490,9 @@ void TraceHeader::Read(NRLib::BigFile& in_file)
       case 1000:
       case 10000:
         scal_co_ = static_cast<double>(scalcoinitial_);
+        break;
+      default:
+        scal_co_ = 1.0;
     }
   }
 }
@@ -718,6 +721,9 @@ void TraceHeader::SetScalCo(short scalcoinitial)
   case 1000:
   case 10000:
     scal_co_ = static_cast<double>(scalcoinitial);
+    break;
+  default:
+    scal_co_ = 1.0;
   }
 }
 
-- 
2.43.0


From b3fa5d0f032b3bc6776d8848af33adb61ef13cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:41 +0000
Subject: [PATCH 25/60] fix: SegY::GetValue does not interpolate across the
 ends of a row

---
 src/nrlib/segy/segy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/segy/segy.cpp b/src/nrlib/segy/segy.cpp
index b832018..8f938db 100644
--- a/src/nrlib/segy/segy.cpp
+++ b/src/nrlib/segy/segy.cpp
@@ -1083,9 +1083,9 @@ SegY::GetValue(double x, double y, double z, int outsideMode) const
         // Along x:
         v0 = rmissing_;
         v2 = rmissing_;
-        if (index >= 1 && traces_[index-1] != NULL)
+        if (i >= 1 && traces_[index-1] != NULL)
           v0 = traces_[index-1]->GetValue(zind);
-        if (index+1 <= maxInd && traces_[index+1] != NULL)
+        if (static_cast<size_t>(i+1) < nx && traces_[index+1] != NULL)
           v2 = traces_[index+1]->GetValue(zind);
         if (v0 == rmissing_)
         {
-- 
2.43.0


From 6e7da4eb4c837f46604a9b6055d903be5dfa4ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:09 +0000
Subject: [PATCH 26/60] fix: the data of a missing SegY trace are not read from
 the start of the file

---
 src/nrlib/segy/segy.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nrlib/segy/segy.cpp b/src/nrlib/segy/segy.cpp
index 8f938db..19fa942 100644
--- a/src/nrlib/segy/segy.cpp
+++ b/src/nrlib/segy/segy.cpp
@@ -412,6 +412,8 @@ SegY::GetTraceData(double x, double y, std::vector<float> & result, const Volume
     throw Exception("Can not find data without geometry set.\n");
 
   std::streampos pos = GetFilePos(x, y);
+  if (pos == std::streampos(0))
+    throw Exception("Trace is not defined.\n");
 
   bool outside = false;
   double z_top = -1; //Indicates inactive.
-- 
2.43.0


From 58b48b9bfa488854a78cc81b79f0993c0891661e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:19 +0000
Subject: [PATCH 27/60] fix: whole traces are read also when the SegY start
 time is negative

---
 src/nrlib/segy/segy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/segy/segy.cpp b/src/nrlib/segy/segy.cpp
index 19fa942..37f5713 100644
--- a/src/nrlib/segy/segy.cpp
+++ b/src/nrlib/segy/segy.cpp
@@ -538,12 +538,12 @@ SegY::GetTraceData(std::streampos pos, std::vector<float> & result, double z_top
 {
   size_t j0, j1;
 
-  if(z_top > z0_)
+  if(z_top != -1 && z_top > z0_)
     j0 = static_cast<size_t>((z_top - z0_)/dz_);
   else
     j0 = 0;
 
-  if(z_bot > z0_)
+  if(z_bot != -1 && z_bot > z0_)
     j1 = static_cast<size_t>((z_bot - z0_)/dz_);
   else
     j1 = nz_-1;
-- 
2.43.0


From 61fd6f5e9d627322ec34d0fc706b29fb03a7f5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:12 +0000
Subject: [PATCH 28/60] fix: the sampling interval written to a SegY file is
 rounded, not cut

---
 src/nrlib/segy/commonheaders.cpp | 3 ++-
 src/nrlib/segy/segy.cpp          | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/segy/commonheaders.cpp b/src/nrlib/segy/commonheaders.cpp
index 755403d..27968e4 100644
--- a/src/nrlib/segy/commonheaders.cpp
+++ b/src/nrlib/segy/commonheaders.cpp
@@ -21,6 +21,7 @@
 
 #include "commonheaders.hpp"
 
+#include <cmath>
 #include <cstdio>
 #include <cstring>
 #include "../iotools/fileio.hpp"
@@ -200,7 +201,7 @@ void BinaryHeader::Write(NRLib::BigFile& file, double dz, size_t nz, short n_sam
   NRLib::WriteInt32BE(&buffer[8], 1);             // Reel number
   NRLib::WriteInt16BE(&buffer[12], n_sam_per_ens);
   NRLib::WriteInt16BE(&buffer[14], n_sam_per_ens);
-  NRLib::WriteInt16BE(&buffer[16], static_cast<short>(1000 * dz));
+  NRLib::WriteInt16BE(&buffer[16], static_cast<short>(floor(1000 * dz + 0.5)));
   NRLib::WriteInt16BE(&buffer[20], static_cast<short>(nz));
   NRLib::WriteInt16BE(&buffer[24], 5);             // Format - IEEE 4-byte floating point
   NRLib::WriteInt16BE(&buffer[26], n_sam_per_ens);
diff --git a/src/nrlib/segy/segy.cpp b/src/nrlib/segy/segy.cpp
index 37f5713..8e8471d 100644
--- a/src/nrlib/segy/segy.cpp
+++ b/src/nrlib/segy/segy.cpp
@@ -1285,7 +1285,7 @@ SegY::WriteTrace(double x, double y, int IL, int XL, const std::vector<float> &d
   assert(data.size() == nz_);
   TraceHeader header(trace_header_format_);
   header.SetNSamples(nz_);
-  header.SetDt(static_cast<unsigned short>(dz_ * 1000));
+  header.SetDt(static_cast<unsigned short>(floor(dz_*1000 + 0.5)));
   header.SetStartTime(static_cast<float>(z0_));
   header.SetScalCo(scalcoinitial);
   header.SetOffset(offset);
@@ -1307,7 +1307,7 @@ SegY::WriteTrace(double x, double y, const std::vector<float> &data, const Volum
   assert(geometry_ != 0);
   TraceHeader header(trace_header_format_);
   header.SetNSamples(nz_);
-  header.SetDt(static_cast<unsigned short>(dz_*1000));
+  header.SetDt(static_cast<unsigned short>(floor(dz_*1000 + 0.5)));
   header.SetStartTime(static_cast<float>(z0_));
   header.SetScalCo(scalcoinitial);
   header.SetOffset(offset);
@@ -1440,7 +1440,7 @@ SegY::WriteAllTracesToFile(short scalcoinitial)
       y = traces_[i]->GetY();
       TraceHeader header(trace_header_format_);
       header.SetNSamples(nz_);
-      header.SetDt(static_cast<unsigned short>(dz_*1000));
+      header.SetDt(static_cast<unsigned short>(floor(dz_*1000 + 0.5)));
       header.SetScalCo(scalcoinitial);
       header.SetUtmx(static_cast<double>(x));
       header.SetUtmy(static_cast<double>(y));
-- 
2.43.0


From 96e74d32e861dfdaeba873d7f0277d708a1ec279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:15 +0000
Subject: [PATCH 29/60] fix: traces written to a SegY file have offset zero
 unless one is set

---
 src/nrlib/segy/traceheader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/segy/traceheader.cpp b/src/nrlib/segy/traceheader.cpp
index 8e889ec..c66bcd2 100644
--- a/src/nrlib/segy/traceheader.cpp
+++ b/src/nrlib/segy/traceheader.cpp
@@ -418,7 +418,8 @@ TraceHeader::TraceHeader(const TraceHeaderFormat& format)
   : format_(format),
     status_(0),
     scal_co_(1),
-    scalcoinitial_(1)
+    scalcoinitial_(1),
+    offset_(0.0)
 {
   memset(buffer_, 0, 240);
   rmissing_ = RMISSING;
-- 
2.43.0


From ef2026c759b8be54c29782ff85de86f4d5f0890e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:27 +0000
Subject: [PATCH 30/60] fix: a SegY trace without header can be copied

---
 src/nrlib/segy/segytrace.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/segy/segytrace.cpp b/src/nrlib/segy/segytrace.cpp
index 7439fa2..edc44bd 100644
--- a/src/nrlib/segy/segytrace.cpp
+++ b/src/nrlib/segy/segytrace.cpp
@@ -182,7 +182,10 @@ SegYTrace::SegYTrace(const SegYTrace& trace)
   table_index_(trace.table_index_),
   file_position_(trace.file_position_)
 {
-  trace_header_ = new TraceHeader(*trace.trace_header_);
+  if (trace.trace_header_ != NULL)
+    trace_header_ = new TraceHeader(*trace.trace_header_);
+  else
+    trace_header_ = NULL;
 }
 
 SegYTrace::~SegYTrace()
-- 
2.43.0


From 671172bcfd88a0d436198eee23a7968a45994802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:38 +0000
Subject: [PATCH 31/60] fix: single precision surfaces can be written to and
 read from Storm binary files

---
 src/nrlib/iotools/fileio.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/iotools/fileio.hpp b/src/nrlib/iotools/fileio.hpp
index e08c790..f7c0bde 100644
--- a/src/nrlib/iotools/fileio.hpp
+++ b/src/nrlib/iotools/fileio.hpp
@@ -977,7 +977,11 @@ void NRLib::WriteBinaryDoubleArray(F& stream,
   typename I::difference_type n_in = std::distance(begin, end);
   std::vector<std::uint64_t> buffer(n_in);
 
-  memcpy(&buffer[0], &begin[0], 8 * n_in);
+  // The values need not be of type double.
+  for (int i = 0; i < n_in; ++i) {
+    double value = static_cast<double>(begin[i]);
+    memcpy(&buffer[i], &value, 8);
+  }
 
   switch (number_representation) {
   case END_BIG_ENDIAN:
@@ -1025,7 +1029,12 @@ I NRLib::ReadBinaryDoubleArray(F& stream,
     assert(false); // Invalid endianess descriptor
   }
 
-  std::memcpy(&begin[0], &buffer[0], 8 * n);
+  // The values need not be of type double.
+  for (size_t i = 0; i < n; ++i) {
+    double value;
+    std::memcpy(&value, &buffer[i], 8);
+    begin[i] = static_cast<typename std::iterator_traits<I>::value_type>(value);
+  }
 
   return begin;
 }
-- 
2.43.0


From 9d2c932ddb514cdb73a5d3dedec3c6cea392ca18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:38 +0000
Subject: [PATCH 32/60] fix: the extent of a rotated surface follows its angle

---
 src/nrlib/surface/regularsurfacerotated.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/surface/regularsurfacerotated.hpp b/src/nrlib/surface/regularsurfacerotated.hpp
index 5f00431..3f08e0f 100644
--- a/src/nrlib/surface/regularsurfacerotated.hpp
+++ b/src/nrlib/surface/regularsurfacerotated.hpp
@@ -150,7 +150,7 @@ public:
   RegularSurface<A> ResampleSurface() const ;
 
   double GetAngle() const       { return angle_  ;}
-  void   SetAngle(double angle) { angle_ = angle ;}
+  void   SetAngle(double angle) { angle_ = angle; CalculateMinMaxXY(); }
 
   A GetMissingValue() const { return surface_.GetMissingValue() ;}
   void SetMissingValue(A missing_val) { surface_.SetMissingValue(missing_val); }
-- 
2.43.0


From a9ddd1a35b0895b0e27eb580b985cabae8541d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:38 +0000
Subject: [PATCH 33/60] fix: a resampled surface has the values of its own
 nodes

---
 src/nrlib/surface/regularsurfacerotated.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nrlib/surface/regularsurfacerotated.hpp b/src/nrlib/surface/regularsurfacerotated.hpp
index 3f08e0f..31450f5 100644
--- a/src/nrlib/surface/regularsurfacerotated.hpp
+++ b/src/nrlib/surface/regularsurfacerotated.hpp
@@ -470,8 +470,7 @@ RegularSurface<A> RegularSurfaceRotated<A>::ResampleSurface() const
   for(i=0;i<nx;i++)
     for(j=0;j<ny;j++)
     {
-      x = x_min_ + i*dx;
-      y = y_min_ + j*dy;
+      surf.GetXY(i, j, x, y);
       value = GetZ(x,y);
       surf(i,j) = value;
     }
-- 
2.43.0


From 9d2980049b4ae95cff5db5c42475dc872265e298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:06 +0000
Subject: [PATCH 34/60] fix: the name of an Sgri binary file may end its line

---
 src/nrlib/surface/surfaceio.cpp | 11 ++++-------
 src/nrlib/surface/surfaceio.hpp |  7 ++-----
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/nrlib/surface/surfaceio.cpp b/src/nrlib/surface/surfaceio.cpp
index 815a1f8..33e624c 100644
--- a/src/nrlib/surface/surfaceio.cpp
+++ b/src/nrlib/surface/surfaceio.cpp
@@ -200,13 +200,10 @@ ReadMultipleSgriSurf(const std::string& filename, const std::vector<std::string>
     getline(header_file, tmp_str);
     if (!tmp_str.empty()) {
       std::locale loc;
-      i = 0;
-      char c = tmp_str[i];
-      while (!std::isspace(c,loc)) {
-        i++;
-        c = tmp_str[i];
-      }
-      tmp_str.erase(tmp_str.begin()+i, tmp_str.end());
+      size_t pos = 0;
+      while (pos < tmp_str.size() && !std::isspace(tmp_str[pos],loc))
+        pos++;
+      tmp_str.erase(pos);
     }
     if (tmp_str.empty())
       bin_file_name = NRLib::ReplaceExtension(filename, "Sgri");
diff --git a/src/nrlib/surface/surfaceio.hpp b/src/nrlib/surface/surfaceio.hpp
index ab8f4d9..787a4d5 100644
--- a/src/nrlib/surface/surfaceio.hpp
+++ b/src/nrlib/surface/surfaceio.hpp
@@ -334,12 +334,9 @@ void  NRLib::ReadSgriSurf(const std::string & filename,
     getline(header_file, tmp_str);
     if (!tmp_str.empty()) {
       std::locale loc;
-      int i = 0;
-      char c = tmp_str[i];
-      while (!std::isspace(c,loc)) {
+      size_t i = 0;
+      while (i < tmp_str.size() && !std::isspace(tmp_str[i],loc))
         i++;
-        c = tmp_str[i];
-      }
       tmp_str.erase(tmp_str.begin()+i, tmp_str.end());
     }
     if (tmp_str.empty())
-- 
2.43.0


From 9a95c74e909f5ae82eee5b39e17827c44b606b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:06 +0000
Subject: [PATCH 35/60] fix: reading Sgri surfaces fails when an axis label is
 not the expected one

---
 src/nrlib/surface/surfaceio.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/surface/surfaceio.cpp b/src/nrlib/surface/surfaceio.cpp
index 33e624c..e1b3615 100644
--- a/src/nrlib/surface/surfaceio.cpp
+++ b/src/nrlib/surface/surfaceio.cpp
@@ -121,12 +121,12 @@ ReadMultipleSgriSurf(const std::string& filename, const std::vector<std::string>
     for (i=0; i<dim; i++) {
       getline(header_file, axis_labels[i]);
       if(labels.size() > static_cast<size_t>(i)) {
-        NRLib::Uppercase(axis_labels[i]);
-        NRLib::Uppercase(labels[i]);
-        if (axis_labels[i].find(labels[i]) == std::string::npos)
+        if (NRLib::Uppercase(axis_labels[i]).find(NRLib::Uppercase(labels[i])) == std::string::npos)
           err_txt += "Wrong axis labels. Label for axis "+NRLib::ToString(i)+" should be '"+labels[i]+"'.\n";
       }
     }
+    if (!err_txt.empty())
+      throw Exception(err_txt);
     getline(header_file, tmp_str);
 
     //Reading record 4+dim: Number of grids
-- 
2.43.0


From e81606c4051b63b3bfa84502870f903dc42c33a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:32 +0000
Subject: [PATCH 36/60] fix: a file starting with two words has an unknown
 surface format

---
 src/nrlib/surface/surfaceio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/surface/surfaceio.cpp b/src/nrlib/surface/surfaceio.cpp
index e1b3615..2170c35 100644
--- a/src/nrlib/surface/surfaceio.cpp
+++ b/src/nrlib/surface/surfaceio.cpp
@@ -249,7 +249,7 @@ bool FindHufsaTrends(const std::string& filename)
   std::vector<std::string> tokens = NRLib::GetTokens(line_string);
 
   //Check if the first line has two number elements
-  if (tokens.size() == 2 && NRLib::IsNumber(tokens[1])) {
+  if (tokens.size() == 2 && NRLib::IsType<int>(tokens[0]) && NRLib::IsType<int>(tokens[1])) {
     int n_row = NRLib::ParseType<int>(tokens[0]);
     int n_col = NRLib::ParseType<int>(tokens[1]);
     std::getline(file, line_string);
-- 
2.43.0


From 095e15406728105d64d4daf0c241986fc02c541e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:32 +0000
Subject: [PATCH 37/60] fix: the binary file of an Sgri surface in the current
 directory is found there

---
 src/nrlib/surface/surfaceio.cpp | 2 +-
 src/nrlib/surface/surfaceio.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/surface/surfaceio.cpp b/src/nrlib/surface/surfaceio.cpp
index 2170c35..f3ff8b9 100644
--- a/src/nrlib/surface/surfaceio.cpp
+++ b/src/nrlib/surface/surfaceio.cpp
@@ -209,7 +209,7 @@ ReadMultipleSgriSurf(const std::string& filename, const std::vector<std::string>
       bin_file_name = NRLib::ReplaceExtension(filename, "Sgri");
     else {
       std::string path = GetPath(filename);
-      bin_file_name = path + "/" + tmp_str;
+      bin_file_name = path.empty() ? tmp_str : path + "/" + tmp_str;
     }
     //Reading record 12+dim+ngrid: Complex values
     bool has_complex;
diff --git a/src/nrlib/surface/surfaceio.hpp b/src/nrlib/surface/surfaceio.hpp
index 787a4d5..31eb2ec 100644
--- a/src/nrlib/surface/surfaceio.hpp
+++ b/src/nrlib/surface/surfaceio.hpp
@@ -343,7 +343,7 @@ void  NRLib::ReadSgriSurf(const std::string & filename,
       bin_file_name = NRLib::ReplaceExtension(filename, "Sgri");
     else {
       std::string path = GetPath(filename);
-      bin_file_name = path + "/" + tmp_str;
+      bin_file_name = path.empty() ? tmp_str : path + "/" + tmp_str;
     }
     //Reading record 12+dim+ngrid: Complex values
     bool has_complex;
-- 
2.43.0


From 4f682ab63eac2b29d45170692a8e8093374a9012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:43 +0000
Subject: [PATCH 38/60] fix: a line through an edge or a corner of a box is
 given each point once

---
 src/nrlib/geometry/box.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/nrlib/geometry/box.cpp b/src/nrlib/geometry/box.cpp
index 857a2de..f2bd077 100644
--- a/src/nrlib/geometry/box.cpp
+++ b/src/nrlib/geometry/box.cpp
@@ -107,6 +107,17 @@ std::vector<Point> Box::FindIntersections(const NRLib::Line& line) const
     }
   }
 
+  // A point on an edge or in a corner is found once for each of its sides.
+  for (size_t i = 1; i < intersections.size(); ) {
+    size_t j = 0;
+    while (j < i && !intersections[i].IsEqual(intersections[j]))
+      ++j;
+    if (j < i)
+      intersections.erase(intersections.begin() + i);
+    else
+      ++i;
+  }
+
   assert(intersections.size() <= 2);
 
   // Prevent numerical instabilities:
-- 
2.43.0


From d419ec743a03b84a08d9c73ead85963e83616c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:43 +0000
Subject: [PATCH 39/60] fix: the circumference of a polygon includes its last
 edge but one

---
 src/nrlib/geometry/polygon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/geometry/polygon.cpp b/src/nrlib/geometry/polygon.cpp
index fd65aa7..2f5924b 100644
--- a/src/nrlib/geometry/polygon.cpp
+++ b/src/nrlib/geometry/polygon.cpp
@@ -339,7 +339,7 @@ Polygon::GetCircumferenceXY() const
   size_t poly_size = poly.GetSize();
   double poly_circ = (poly[poly_size-1] - poly[0]).Norm();
 
-  for (size_t i = 0; i < poly_size - 2; i++){
+  for (size_t i = 0; i + 1 < poly_size; i++){
     poly_circ += (poly[i+1] - poly[i]).Norm();
   }
   return poly_circ;
-- 
2.43.0


From e48578b6c14095e94e7c1f2e70f0c87b914c5cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:43 +0000
Subject: [PATCH 40/60] fix: the orientation of a polygon takes the closing
 edge into account

---
 src/nrlib/geometry/polygon.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nrlib/geometry/polygon.cpp b/src/nrlib/geometry/polygon.cpp
index 2f5924b..60dbedc 100644
--- a/src/nrlib/geometry/polygon.cpp
+++ b/src/nrlib/geometry/polygon.cpp
@@ -96,6 +96,7 @@ bool Polygon::IsCounterclockwise()
   for (size_t i=0; i<(polygon_points_.size()-1) ;i++) {
     doublearea+=polygon_points_[i].x*polygon_points_[i+1].y-polygon_points_[i].y*polygon_points_[i+1].x;
   }
+  doublearea += polygon_points_.back().x*polygon_points_[0].y-polygon_points_.back().y*polygon_points_[0].x;
   return (doublearea>=0);
 }
 
-- 
2.43.0


From e6b3f4da1b306977bf2beb1fe1192e199555edf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:43 +0000
Subject: [PATCH 41/60] fix: the angle between parallel vectors is a number

---
 src/nrlib/geometry/point.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/geometry/point.cpp b/src/nrlib/geometry/point.cpp
index c884158..315b569 100644
--- a/src/nrlib/geometry/point.cpp
+++ b/src/nrlib/geometry/point.cpp
@@ -63,7 +63,7 @@ double Point::GetAngle(const Point& p_in) const
   double norm = Norm()*p_in.Norm();
   if (norm > 0.0) {
     loc = this->Dot(p_in) / norm;
-    return std::acos(loc);
+    return std::acos(std::max(-1.0, std::min(1.0, loc)));
   }
   else
     return 0.0;   // returning unvalid value
-- 
2.43.0


From 231f12ceca37d9a14fee7bbf9ca13b499e655b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:43 +0000
Subject: [PATCH 42/60] fix: the side of a line is right also beyond its end

---
 src/nrlib/geometry/line.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/geometry/line.cpp b/src/nrlib/geometry/line.cpp
index 24aa2f8..1523a5f 100644
--- a/src/nrlib/geometry/line.cpp
+++ b/src/nrlib/geometry/line.cpp
@@ -97,7 +97,7 @@ double Line::FindDistanceAndSide(const Point& p_in, bool& right_side) const
 {
   Point  proj_pt   = FindProjection(p_in);
   Point  side_vec  = p_in - proj_pt;
-  Point  line_vec  = p2_  - proj_pt;
+  Point  line_vec  = p2_  - p1_;
   Point  cross     = side_vec.Cross(line_vec);
   if (cross.z >= 0) //true also if it is exact on line
     right_side = true;
-- 
2.43.0


From ccfc71ce4e3d9a2f6d70e7a1647807d3fdbae696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:43 +0000
Subject: [PATCH 43/60] fix: the nearest point of a triangle may be in its
 interior

---
 src/nrlib/geometry/triangle.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/nrlib/geometry/triangle.cpp b/src/nrlib/geometry/triangle.cpp
index 5c181ef..43d044d 100644
--- a/src/nrlib/geometry/triangle.cpp
+++ b/src/nrlib/geometry/triangle.cpp
@@ -136,6 +136,21 @@ double Triangle::FindNearestPoint(const Line& line, Point& nearest_pt) const
     nearest_pt = pt;
   }
 
+  // An end point of the line may be closest to the interior of the triangle.
+  NRLib::Point n = NRLib::Cross(p2_ - p1_, p3_ - p1_);
+  for (int i = 0; i < 2; ++i) {
+    if (n.Norm() == 0.0 || (i == 0 ? !line.IsEndPt1() : !line.IsEndPt2()))
+      continue;
+    NRLib::Point end = (i == 0 ? line.GetPt1() : line.GetPt2());
+    if (FindIntersection(NRLib::Line::InfiniteLine(end, n), pt, true)) {
+      dist = end.GetDistance(pt);
+      if (dist < min_dist) {
+        min_dist = dist;
+        nearest_pt = pt;
+      }
+    }
+  }
+
   return min_dist;
 }
 
-- 
2.43.0


From 2b5a6f18718a832685115b0796c681520b01eefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:40 +0000
Subject: [PATCH 44/60] fix: the indices of a cell of a four-dimensional grid
 are found from its position

---
 src/nrlib/grid/grid4d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/grid/grid4d.hpp b/src/nrlib/grid/grid4d.hpp
index ad740f7..8cab538 100644
--- a/src/nrlib/grid/grid4d.hpp
+++ b/src/nrlib/grid/grid4d.hpp
@@ -161,8 +161,8 @@ void Grid4D<A>::GetIJKL(size_t index, size_t &i, size_t &j, size_t &k, size_t &l
 
   i = index % ni_;
   j = (index-i)/ni_ % nj_;
-  k = (index - j*ni_ - i)/ni_/nj_;
-  l = (index - k*ni_*nj_)/ni_/nj_/nk_; //?
+  k = index/ni_/nj_ % nk_;
+  l = index/ni_/nj_/nk_;
 }
 
 template<class A>
-- 
2.43.0


From 61560c6f1a8bce5a6134a599a1b22fdcb9cafd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:40 +0000
Subject: [PATCH 45/60] fix: five-dimensional grids compile and find the
 indices of a cell from its position

---
 src/nrlib/grid/grid5d.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/grid/grid5d.hpp b/src/nrlib/grid/grid5d.hpp
index 527f009..1857e7b 100644
--- a/src/nrlib/grid/grid5d.hpp
+++ b/src/nrlib/grid/grid5d.hpp
@@ -112,7 +112,7 @@ void Grid5D<A>::Resize(size_t ni, size_t nj, size_t nk, size_t nl, size_t nm, co
   nj_ = nj;
   nk_ = nk;
   nl_ = nl;
-  nm_ = nm
+  nm_ = nm;
 
   data_.resize(0); //To avoid copying of elements
   data_.resize(ni_ * nj_ * nk_ * nl * nm,  val);
@@ -166,9 +166,9 @@ void Grid5D<A>::GetIJKLM(size_t index, size_t &i, size_t &j, size_t &k, size_t &
 
   i = index % ni_;
   j = (index-i)/ni_ % nj_;
-  k = (index - j*ni_ - i)/ni_/nj_;
-  l = (index - k*ni_*nj_)/ni_/nj_/nk_; //?
-  m = (index - m*ni_*nj_*nk_)/ni_/nj_/nk_/nl_; //?
+  k = index/ni_/nj_ % nk_;
+  l = index/ni_/nj_/nk_ % nl_;
+  m = index/ni_/nj_/nk_/nl_;
 }
 
 template<class A>
-- 
2.43.0


From 562f7895d245f17329046a2d5402ac9fd1c37414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:40 +0000
Subject: [PATCH 46/60] fix: swapping general two-dimensional grids swaps their
 index ranges

---
 src/nrlib/grid/grid2dgeneral.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nrlib/grid/grid2dgeneral.hpp b/src/nrlib/grid/grid2dgeneral.hpp
index 3a0d13a..746c697 100644
--- a/src/nrlib/grid/grid2dgeneral.hpp
+++ b/src/nrlib/grid/grid2dgeneral.hpp
@@ -197,6 +197,10 @@ void Grid2DGeneral<A>::Swap(NRLib::Grid2DGeneral<A> &other)
 {
   std::swap(ni_, other.ni_);
   std::swap(nj_, other.nj_);
+  std::swap(i_min_, other.i_min_);
+  std::swap(i_max_, other.i_max_);
+  std::swap(j_min_, other.j_min_);
+  std::swap(j_max_, other.j_max_);
   data_.swap(other.data_);
 }
 
-- 
2.43.0


From a880d2740d3949b50437b580984022a4a27524c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:38 +0000
Subject: [PATCH 47/60] fix: one-dimensional kriging without observations
 leaves the field as it is

---
 src/nrlib/statistics/kriging.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nrlib/statistics/kriging.cpp b/src/nrlib/statistics/kriging.cpp
index 01e3a68..a8bc26b 100644
--- a/src/nrlib/statistics/kriging.cpp
+++ b/src/nrlib/statistics/kriging.cpp
@@ -52,6 +52,8 @@ void Kriging::Krig1D(std::vector<double>       &field,
   assert(field.size() == is_known.size());
   assert(obs.size() <= field.size());
   int n_obs = static_cast<int>(obs.size());
+  if (n_obs == 0)
+    return;
 
   NRLib::Vector residual(static_cast<int> (n_obs));
   int j = 0;
-- 
2.43.0


From eec5a8e05ea31845f328020c6448e569586014b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:42 +0000
Subject: [PATCH 48/60] fix: kriging residuals are zero where there are no data

---
 src/nrlib/statistics/kriging.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/nrlib/statistics/kriging.cpp b/src/nrlib/statistics/kriging.cpp
index a8bc26b..22a9f27 100644
--- a/src/nrlib/statistics/kriging.cpp
+++ b/src/nrlib/statistics/kriging.cpp
@@ -962,6 +962,11 @@ void Kriging::Krig2DBlock(const Grid2D<double>      & trend_orig,
       }
     }
   }
+  else if (get_residuals) {
+    for (int i = imin ; i < imax ; i++)
+      for (int j = jmin ; j < jmax ; j++)
+        trend(i,j) = 0.0;
+  }
 }
 
 //---------------------------------------------------------------
@@ -1076,6 +1081,11 @@ void Kriging::Krig2DBlock(const RegularSurface<double>   & trend_orig,
       }
     }
   }
+  else if (get_residuals) {
+    for (int i = imin ; i < imax ; i++)
+      for (int j = jmin ; j < jmax ; j++)
+        trend(i,j) = 0.0;
+  }
 }
 
 
-- 
2.43.0


From 3d80ccd61ca860f6ea9496194ef8427101c94297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:56 +0000
Subject: [PATCH 49/60] fix: the last block of a kriged grid uses the data near
 all its nodes

---
 src/nrlib/statistics/kriging.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/statistics/kriging.cpp b/src/nrlib/statistics/kriging.cpp
index 22a9f27..add0eb8 100644
--- a/src/nrlib/statistics/kriging.cpp
+++ b/src/nrlib/statistics/kriging.cpp
@@ -643,17 +643,17 @@ void Kriging::FindOptimalDataInBlock(const Grid2D<double>          & trend,
         kriging_data_blocks[index] = kriging_data.NewInstance();
 
         size_t imin_block = i*nxb;
-        size_t imax_block = std::min(static_cast<int>((i+1)*nxb), static_cast<int>(nx));
+        size_t imax_block = (i + 1 == n_blocks_x) ? nx : std::min(static_cast<int>((i+1)*nxb), static_cast<int>(nx)); // The last block covers the rest
         size_t jmin_block = j*nyb;
-        size_t jmax_block = std::min(static_cast<int>((j+1)*nyb), static_cast<int>(ny));
+        size_t jmax_block = (j + 1 == n_blocks_y) ? ny : std::min(static_cast<int>((j+1)*nyb), static_cast<int>(ny));
         double P_est;
 
         DataInBlockBinarySearch(P_est, P_min, P_max, rx, ry, nx, ny, imin_block, imax_block, jmin_block, jmax_block, true, true, true, true, min_data_in_range, kriging_data, 0.05);
 
         size_t imin_range = std::max(static_cast<int>(std::floor(static_cast<double>(i*nxb)-P_est*static_cast<double>(rx))), 0);
-        size_t imax_range = std::min(static_cast<int>(std::ceil(static_cast<double>((i+1)*nxb)+P_est*static_cast<double>(rx))), static_cast<int>(nx));
+        size_t imax_range = std::min(static_cast<int>(std::ceil(static_cast<double>(imax_block)+P_est*static_cast<double>(rx))), static_cast<int>(nx));
         size_t jmin_range = std::max(static_cast<int>(std::floor(static_cast<double>(j*nyb)-P_est*static_cast<double>(ry))), 0);
-        size_t jmax_range = std::min(static_cast<int>(std::ceil(static_cast<double>((j+1)*nyb)+P_est*static_cast<double>(ry))), static_cast<int>(ny));
+        size_t jmax_range = std::min(static_cast<int>(std::ceil(static_cast<double>(jmax_block)+P_est*static_cast<double>(ry))), static_cast<int>(ny));
 
         kriging_data.AddDataToBlock(*kriging_data_blocks[index], imin_range, imax_range, jmin_range, jmax_range);
 
-- 
2.43.0


From b02bd43921b7df7399c61c5fa059fbf1f99738f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:28 +0000
Subject: [PATCH 50/60] fix: the value closest in z is interpolated between the
 nearest cells and stays in the grid

---
 src/nrlib/stormgrid/stormcontgrid.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/nrlib/stormgrid/stormcontgrid.cpp b/src/nrlib/stormgrid/stormcontgrid.cpp
index 18771c1..1dc407d 100644
--- a/src/nrlib/stormgrid/stormcontgrid.cpp
+++ b/src/nrlib/stormgrid/stormcontgrid.cpp
@@ -478,12 +478,12 @@ float StormContGrid::GetValueClosestInZ(double x, double y, double z)const
   if (local_x < 0.0 || i >= GetNI() || local_y < 0.0 || j >= GetNJ())
     return(missing_code_);
 
-  if (z<z_top+0.5*dz)
-    z = z_top+0.5*dz;
-  else if (z>z_bot+0.5*dz)
-    z = z_bot+0.5*dz;
+  if (z<=z_top+0.5*dz)
+    return (*this)(GetIndex(i,j,0));
+  else if (z>=z_bot-0.5*dz)
+    return (*this)(GetIndex(i,j,GetNK()-1));
 
-  int zInd1 = static_cast<int>(floor((z-z_top)/dz)-0.5);
+  int zInd1 = static_cast<int>(floor((z-z_top)/dz-0.5));
   double t = (z-z_top)/dz - 0.5 - static_cast<double>(zInd1);
   int zInd2 = zInd1+1;
   float value = static_cast<float>((1-t)*(*this)(GetIndex(i,j,zInd1))+t*(*this)(GetIndex(i,j,zInd2)));
-- 
2.43.0


From 44d5a98378537ff5483655408da625aeaa941731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:49 +0000
Subject: [PATCH 51/60] fix: a point on the bottom of a Storm grid is in its
 last layer

---
 src/nrlib/stormgrid/stormcontgrid.cpp   | 3 ++-
 src/nrlib/stormgrid/stormfaciesgrid.cpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/stormgrid/stormcontgrid.cpp b/src/nrlib/stormgrid/stormcontgrid.cpp
index 1dc407d..d6a3b86 100644
--- a/src/nrlib/stormgrid/stormcontgrid.cpp
+++ b/src/nrlib/stormgrid/stormcontgrid.cpp
@@ -20,6 +20,7 @@
 // EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 #include "stormcontgrid.hpp"
+#include <algorithm>
 #include <cmath>
 #include <fstream>
 #include <math.h>
@@ -336,7 +337,7 @@ void StormContGrid::FindIndex(double x, double y, double z, size_t& i_out, size_
     k_out = 0;
   }
   else {
-    k_out = static_cast<size_t>((z - z_top)/dz);
+    k_out = std::min(static_cast<size_t>((z - z_top)/dz), GetNK() - 1); // The bottom belongs to the last layer
   }
 
 }
diff --git a/src/nrlib/stormgrid/stormfaciesgrid.cpp b/src/nrlib/stormgrid/stormfaciesgrid.cpp
index 9827cba..46dc7c3 100644
--- a/src/nrlib/stormgrid/stormfaciesgrid.cpp
+++ b/src/nrlib/stormgrid/stormfaciesgrid.cpp
@@ -294,7 +294,7 @@ void StormFaciesGrid::FindIndex(double x, double y, double z, size_t& i_out, siz
     k_out = 0;
   }
   else {
-    k_out = static_cast<size_t>((z - z_top)/dz);
+    k_out = std::min(static_cast<size_t>((z - z_top)/dz), GetNK() - 1); // The bottom belongs to the last layer
   }
 
 }
-- 
2.43.0


From e5d3c201aaf0b4045d0e771c5d93174184adb011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:22 +0000
Subject: [PATCH 52/60] fix: Storm grid files keep the position of the grid

---
 src/nrlib/stormgrid/stormcontgrid.cpp   | 4 ++--
 src/nrlib/stormgrid/stormfaciesgrid.cpp | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/stormgrid/stormcontgrid.cpp b/src/nrlib/stormgrid/stormcontgrid.cpp
index d6a3b86..44dae48 100644
--- a/src/nrlib/stormgrid/stormcontgrid.cpp
+++ b/src/nrlib/stormgrid/stormcontgrid.cpp
@@ -182,8 +182,7 @@ void StormContGrid::WriteToFile(const std::string& filename, const std::string&
   std::ofstream file;
   OpenWrite(file, filename, std::ios::out | std::ios::binary);
 
-  //file.precision(14);
-  file.precision(4);
+  file.precision(14);
 
   // Header
   if (predefinedHeader == "" && plainAscii==false) {
@@ -198,6 +197,7 @@ void StormContGrid::WriteToFile(const std::string& filename, const std::string&
   else
     file << predefinedHeader;
   // Data
+  file.precision(4);
   int n_data = 0;
   switch (file_format_) {
   case STORM_BINARY:
diff --git a/src/nrlib/stormgrid/stormfaciesgrid.cpp b/src/nrlib/stormgrid/stormfaciesgrid.cpp
index 46dc7c3..ee6a8d5 100644
--- a/src/nrlib/stormgrid/stormfaciesgrid.cpp
+++ b/src/nrlib/stormgrid/stormfaciesgrid.cpp
@@ -109,6 +109,8 @@ void StormFaciesGrid::WriteToFile(const std::string& filename, Endianess file_fo
   std::ofstream file;
   OpenWrite(file, filename, std::ios::out | std::ios::binary);
 
+  file.precision(14);
+
   file << format_desc[file_format_] << "\n\n"
        << zone_number_ << " " << model_file_name_ << " "
        << missing_code_ << "\n\n";
-- 
2.43.0


From 6c9a5ded12de25b76d89b6ac49a9f48581fa76a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:05 +0000
Subject: [PATCH 53/60] fix: the centre of a rotated volume is inside it

---
 src/nrlib/volume/volume.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nrlib/volume/volume.cpp b/src/nrlib/volume/volume.cpp
index 9082607..bc81979 100644
--- a/src/nrlib/volume/volume.cpp
+++ b/src/nrlib/volume/volume.cpp
@@ -328,8 +328,7 @@ Volume::GetZExtreme(size_t nx, size_t ny, const Surface<double> * surf, bool get
 void
 Volume::FindCenter(double & x, double & y, double & z) const
 {
-  x = GetXMin() + 0.5 * GetLX();
-  y = GetYMin() + 0.5 * GetLY();
+  LocalToGlobalCoord(0.5 * GetLX(), 0.5 * GetLY(), x, y);
   z = 0.5 * (z_top_->GetZ(x,y) + z_bot_->GetZ(x,y));
 }
 
-- 
2.43.0


From 2f0e7d5a391c6c9d32f4ce3e0192238d368baafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:21 +0000
Subject: [PATCH 54/60] fix: a point beside a facies grid is not in its first
 cells

---
 src/nrlib/stormgrid/stormfaciesgrid.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nrlib/stormgrid/stormfaciesgrid.cpp b/src/nrlib/stormgrid/stormfaciesgrid.cpp
index ee6a8d5..76d9f43 100644
--- a/src/nrlib/stormgrid/stormfaciesgrid.cpp
+++ b/src/nrlib/stormgrid/stormfaciesgrid.cpp
@@ -278,6 +278,8 @@ void StormFaciesGrid::FindIndex(double x, double y, double z, size_t& i_out, siz
   double local_x, local_y;
   GlobalToLocalCoord(x, y, local_x, local_y);
 
+  if(local_x < 0.0 || local_y < 0.0)
+    throw Exception("Trying to look up an xy-position outside grid.\n");
   i_out = static_cast<size_t>(local_x / GetDX());
   j_out = static_cast<size_t>(local_y / GetDY());
   if(i_out >= GetNI())
-- 
2.43.0


From fddfb1baaf5db4a8f756c39286ff79fa57fbeeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:57 +0000
Subject: [PATCH 55/60] fix: the consistency check of a facies grid rejects the
 body after the last

---
 src/nrlib/stormgrid/stormfaciesgrid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/stormgrid/stormfaciesgrid.cpp b/src/nrlib/stormgrid/stormfaciesgrid.cpp
index 76d9f43..f69c114 100644
--- a/src/nrlib/stormgrid/stormfaciesgrid.cpp
+++ b/src/nrlib/stormgrid/stormfaciesgrid.cpp
@@ -255,7 +255,7 @@ void StormFaciesGrid::CheckConsistency() const
   for (size_t ind = 0; ind < GetN(); ++ind) {
     int body = (*this)(ind);
     if ( !IsMissing(body)
-         && (body < 0 || body > static_cast<int>(body_facies_.size())) ) {
+         && (body < 0 || body >= static_cast<int>(body_facies_.size())) ) {
       size_t i, j, k;
       GetIJK(ind, i, j, k);
       throw Exception("Consistency check failed: body number "
-- 
2.43.0


From 6c257efad3125c626ad0592a547ef1d019d25569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:54 +0000
Subject: [PATCH 56/60] fix: the values of an Sgri grid in the current folder
 are found

---
 src/nrlib/stormgrid/stormcontgrid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/stormgrid/stormcontgrid.cpp b/src/nrlib/stormgrid/stormcontgrid.cpp
index 44dae48..1ed965b 100644
--- a/src/nrlib/stormgrid/stormcontgrid.cpp
+++ b/src/nrlib/stormgrid/stormcontgrid.cpp
@@ -112,7 +112,7 @@ void StormContGrid::ReadFromFile(const std::string& filename, bool commonPath, E
       if (binfilename.empty())
         binfilename = NRLib::ReplaceExtension(filename, "Sgri");
       else
-        binfilename = path + "/" + binfilename;
+        binfilename = path.empty() ? binfilename : path + "/" + binfilename;
       std::ifstream binFile(binfilename.c_str(), std::ios::in | std::ios::binary);
       if(!binFile) {
         throw Exception("Error: Could not open Sgri binary file"+binfilename+"for reading.\n");
-- 
2.43.0


From 04d778fc8d32089e206e0abcc65113e81608d77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:57 +0000
Subject: [PATCH 57/60] fix: the file name in an Sgri header may end its line

---
 src/nrlib/stormgrid/stormcontgrid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/stormgrid/stormcontgrid.cpp b/src/nrlib/stormgrid/stormcontgrid.cpp
index 1ed965b..f51b1cc 100644
--- a/src/nrlib/stormgrid/stormcontgrid.cpp
+++ b/src/nrlib/stormgrid/stormcontgrid.cpp
@@ -664,7 +664,7 @@ void StormContGrid::ReadSgriHeader(std::ifstream &headerFile, std::string &binFi
     std::locale loc;
     i = 0;
     char c = tmpStr[i];
-    while (!std::isspace(c,loc)) {
+    while (i < static_cast<int>(tmpStr.size()) && !std::isspace(c,loc)) {
       i++;
       c = tmpStr[i];
     }
-- 
2.43.0


From 886897d1e5a9e8cfdc693faab9879989b2369c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:04 +0000
Subject: [PATCH 58/60] fix: interpolation at the centre of a single layer or
 without thickness stays in the grid

---
 src/nrlib/stormgrid/stormcontgrid.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/nrlib/stormgrid/stormcontgrid.cpp b/src/nrlib/stormgrid/stormcontgrid.cpp
index f51b1cc..3b9999f 100644
--- a/src/nrlib/stormgrid/stormcontgrid.cpp
+++ b/src/nrlib/stormgrid/stormcontgrid.cpp
@@ -361,7 +361,7 @@ void StormContGrid::FindZInterpolatedIndex(const double & x,
   double z_bot = GetBotSurface().GetZ(x, y);
   double dz    = (z_bot - z_top) / GetNK();
 
-  if (z<=z_top+0.5*dz) {
+  if (dz <= 0.0 || z<=z_top+0.5*dz) {
     k    = 0;
     t    = missing_code_;
     ind1 = GetIndex(i, j, k);
@@ -374,10 +374,11 @@ void StormContGrid::FindZInterpolatedIndex(const double & x,
     ind2 = 0;
   }
   else {
-    k    = static_cast<size_t>(floor(((z - z_top) / dz) - 0.5));
-    t    = (z-z_top)/dz - 0.5 - static_cast<double>(k);
+    double pos = std::min(std::max((z - z_top) / dz - 0.5, 0.0), GetNK() - 1.0);
+    k    = static_cast<size_t>(pos);
+    t    = pos - static_cast<double>(k);
     ind1 = GetIndex(i, j, k);
-    ind2 = GetIndex(i, j, k+1);
+    ind2 = GetIndex(i, j, std::min(k + 1, GetNK() - 1));
   }
 }
 
@@ -479,14 +480,15 @@ float StormContGrid::GetValueClosestInZ(double x, double y, double z)const
   if (local_x < 0.0 || i >= GetNI() || local_y < 0.0 || j >= GetNJ())
     return(missing_code_);
 
-  if (z<=z_top+0.5*dz)
+  if (dz <= 0.0 || z<=z_top+0.5*dz)
     return (*this)(GetIndex(i,j,0));
   else if (z>=z_bot-0.5*dz)
     return (*this)(GetIndex(i,j,GetNK()-1));
 
-  int zInd1 = static_cast<int>(floor((z-z_top)/dz-0.5));
-  double t = (z-z_top)/dz - 0.5 - static_cast<double>(zInd1);
-  int zInd2 = zInd1+1;
+  double pos = std::min(std::max((z - z_top) / dz - 0.5, 0.0), GetNK() - 1.0);
+  size_t zInd1 = static_cast<size_t>(pos);
+  double t = pos - static_cast<double>(zInd1);
+  size_t zInd2 = std::min(zInd1 + 1, GetNK() - 1);
   float value = static_cast<float>((1-t)*(*this)(GetIndex(i,j,zInd1))+t*(*this)(GetIndex(i,j,zInd2)));
   return(value);
 }
-- 
2.43.0


From 63d32b80b8439f499d993fb634c4962445ff7736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:48 +0000
Subject: [PATCH 59/60] fix: a Storm grid whose surface cannot be read is
 destroyed once

---
 src/nrlib/volume/volume.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nrlib/volume/volume.cpp b/src/nrlib/volume/volume.cpp
index bc81979..5225bf6 100644
--- a/src/nrlib/volume/volume.cpp
+++ b/src/nrlib/volume/volume.cpp
@@ -409,6 +409,7 @@ void Volume::ReadVolumeFromFile(std::ifstream& file, int line, const std::string
   }
   token = ReadNext<std::string>(file, line);
   delete z_bot_;
+  z_bot_ = NULL;
   if (IsType<double>(token)) {
     z_bot_ = new ConstantSurface<double>(ParseType<double>(token));
     botfile = false;
@@ -419,6 +420,7 @@ void Volume::ReadVolumeFromFile(std::ifstream& file, int line, const std::string
   }
   token = ReadNext<std::string>(file, line);
   delete erosion_top_;
+  erosion_top_ = NULL;
   if (IsType<double>(token)) {
     erosion_top_ = new ConstantSurface<double>(ParseType<double>(token));
     toperofile = false;
@@ -429,6 +431,7 @@ void Volume::ReadVolumeFromFile(std::ifstream& file, int line, const std::string
   }
   token = ReadNext<std::string>(file, line);
   delete erosion_bot_;
+  erosion_bot_ = NULL;
   if (IsType<double>(token)) {
     erosion_bot_ = new ConstantSurface<double>(ParseType<double>(token));
     boterofile = false;
-- 
2.43.0


From 1f3c49fd0beb6b3b49a383c45c979b0ad8f44fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:13 +0000
Subject: [PATCH 60/60] fix: a volume may be given a surface it has

---
 src/nrlib/volume/volume.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/nrlib/volume/volume.cpp b/src/nrlib/volume/volume.cpp
index 5225bf6..40e0743 100644
--- a/src/nrlib/volume/volume.cpp
+++ b/src/nrlib/volume/volume.cpp
@@ -206,11 +206,14 @@ void Volume::SetSurfaces(const Surface<double>& top_surf,
                          const Surface<double>& bot_surf,
                          bool  skip_check)
 {
+  // The new surfaces may be the old ones.
+  Surface<double> * z_top = top_surf.Clone();
+  Surface<double> * z_bot = bot_surf.Clone();
   delete z_top_;
-  z_top_ = top_surf.Clone();
+  z_top_ = z_top;
 
   delete z_bot_;
-  z_bot_ = bot_surf.Clone();
+  z_bot_ = z_bot;
 
   if ((lx_ > 0.0 || ly_ > 0.0 ) && skip_check == false) { //Make sure area is set, and we need to check
     CheckSurfaces();
@@ -225,17 +228,22 @@ void Volume::SetSurfaces(const Surface<double>& top_surf,
                          const Surface<double>& erosion_top,
                          const Surface<double>& erosion_bot)
 {
+  // The new surfaces may be the old ones.
+  Surface<double> * z_top = top_surf.Clone();
+  Surface<double> * z_bot = bot_surf.Clone();
+  Surface<double> * new_erosion_top = erosion_top.Clone();
+  Surface<double> * new_erosion_bot = erosion_bot.Clone();
   delete z_top_;
-  z_top_ = top_surf.Clone();
+  z_top_ = z_top;
 
   delete z_bot_;
-  z_bot_ = bot_surf.Clone();
+  z_bot_ = z_bot;
 
   delete erosion_top_;
-  erosion_top_ = erosion_top.Clone();
+  erosion_top_ = new_erosion_top;
 
   delete erosion_bot_;
-  erosion_bot_ = erosion_bot.Clone();
+  erosion_bot_ = new_erosion_bot;
 
   if (lx_ > 0.0 || ly_ > 0.0 ) { //Check that area is set.
     CheckSurfaces();
-- 
2.43.0

