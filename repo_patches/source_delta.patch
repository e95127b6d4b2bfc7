From b1aacedb3fe893057391e4d7453bf169fb81eef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:34 +0000
Subject: [PATCH 001/105] fix: keep room for the terminator when scanning a PNM
 token

A token of 512 or more characters wrote its terminating zero one byte past
the end of the caller's buffer.
---
 src/input-pnm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input-pnm.c b/src/input-pnm.c
index 6d34a83..54028ae 100644
--- a/src/input-pnm.c
+++ b/src/input-pnm.c
@@ -386,7 +386,7 @@ static void pnmscanner_gettoken(PNMScanner * s, unsigned char *buf, unsigned int
   unsigned int ctr = 0;
 
   pnmscanner_eatwhitespace(s);
-  while (!(s->eof) && !isspace(s->cur) && (s->cur != '#') && (ctr < bufsize)) {
+  while (!(s->eof) && !isspace(s->cur) && (s->cur != '#') && (ctr < bufsize - 1)) {
     buf[ctr++] = s->cur;
     pnmscanner_getchar(s);
   }
-- 
2.43.0


From 7aae752e0d439260552588eb883c0d9297dacf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:34 +0000
Subject: [PATCH 002/105] fix: reject unknown PNM types instead of calling a
 wild pointer

The loader was left uninitialised when the magic number was not P1 to P6.
---
 src/input-pnm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/input-pnm.c b/src/input-pnm.c
index 54028ae..90f4c53 100644
--- a/src/input-pnm.c
+++ b/src/input-pnm.c
@@ -149,6 +149,7 @@ input_pnm_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
   }
 
   /* Look up magic number to see what type of PNM this is */
+  pnminfo->loader = NULL;
   for (ctr = 0; pnm_types[ctr].name; ctr++)
     if (buf[1] == pnm_types[ctr].name) {
       pnminfo->np = pnm_types[ctr].np;
-- 
2.43.0


From 01044e599938609f666dcc3d923b2a8a30060dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:34 +0000
Subject: [PATCH 003/105] fix: reject PNM images larger than a bitmap can be

The size was cut down to 16 bits for the bitmap but not for the loaders,
which then wrote past its end.
---
 src/input-pnm.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/input-pnm.c b/src/input-pnm.c
index 90f4c53..ad58b84 100644
--- a/src/input-pnm.c
+++ b/src/input-pnm.c
@@ -35,6 +35,7 @@
 
 #include <math.h>
 #include <ctype.h>
+#include <limits.h>
 
 /* Declare local data types
  */
@@ -170,7 +171,7 @@ input_pnm_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
     goto cleanup;
   }
   pnminfo->xres = isdigit(*buf) ? atoi(buf) : 0;
-  if (pnminfo->xres <= 0) {
+  if (pnminfo->xres <= 0 || pnminfo->xres > USHRT_MAX) {
     LOG("pnm filter: invalid xres while loading\n");
     at_exception_fatal(&excep, "pnm filter: premature end of file");
     goto cleanup;
@@ -183,7 +184,7 @@ input_pnm_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
     goto cleanup;
   }
   pnminfo->yres = isdigit(*buf) ? atoi(buf) : 0;
-  if (pnminfo->yres <= 0) {
+  if (pnminfo->yres <= 0 || pnminfo->yres > USHRT_MAX) {
     LOG("pnm filter: invalid yres while loading\n");
     at_exception_fatal(&excep, "pnm filter: invalid yres while loading");
     goto cleanup;
-- 
2.43.0


From bf1b2c783c9902d3523acdfe20e2b144e47bfe4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:34 +0000
Subject: [PATCH 004/105] fix: read the last character of ASCII PNM files

The scanner signalled the end of the file together with the last character,
so a file without a trailing newline lost its last sample, and the character
after a full buffer was taken from stale data.
---
 src/input-pnm.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/input-pnm.c b/src/input-pnm.c
index ad58b84..f5a7b42 100644
--- a/src/input-pnm.c
+++ b/src/input-pnm.c
@@ -245,16 +245,16 @@ static void pnm_load_ascii(PNMScanner * scan, PNMInfo * info, unsigned char *dat
   for (i = 0; i < scanlines; i++)
     for (x = 0; x < info->xres; x++) {
       for (b = 0; b < np; b++) {
+        if (info->np)
+          pnmscanner_gettoken(scan, (unsigned char *)buf, BUFLEN);
+        else
+          pnmscanner_getsmalltoken(scan, (unsigned char *)buf);
         /* Truncated files will just have all 0's at the end of the images */
-        if (pnmscanner_eof(scan)) {
+        if (!*buf) {
           LOG("pnm filter: premature end of file\n");
           at_exception_fatal(excep, "pnm filter: premature end of file");
           return;
         }
-        if (info->np)
-          pnmscanner_gettoken(scan, (unsigned char *)buf, BUFLEN);
-        else
-          pnmscanner_getsmalltoken(scan, (unsigned char *)buf);
         switch (info->maxval) {
         case 255:
           d[b] = (unsigned char)(isdigit(*buf) ? atoi(buf) : 0);
@@ -401,6 +401,7 @@ static void pnmscanner_gettoken(PNMScanner * s, unsigned char *buf, unsigned int
 static void pnmscanner_getsmalltoken(PNMScanner * s, unsigned char *buf)
 {
   pnmscanner_eatwhitespace(s);
+  *buf = '\0';
   if (!(s->eof) && !isspace(s->cur) && (s->cur != '#')) {
     *buf = s->cur;
     pnmscanner_getchar(s);
@@ -413,14 +414,14 @@ static void pnmscanner_getsmalltoken(PNMScanner * s, unsigned char *buf)
 static void pnmscanner_getchar(PNMScanner * s)
 {
   if (s->inbuf) {
-    s->cur = s->inbuf[s->inbufpos++];
     if (s->inbufpos >= s->inbufvalidsize) {
-      if (s->inbufsize > s->inbufvalidsize)
-        s->eof = 1;
-      else
-        s->inbufvalidsize = fread(s->inbuf, 1, s->inbufsize, s->fd);
+      s->inbufvalidsize = fread(s->inbuf, 1, s->inbufsize, s->fd);
       s->inbufpos = 0;
     }
+    if (s->inbufvalidsize > 0)
+      s->cur = s->inbuf[s->inbufpos++];
+    else
+      s->eof = 1;
   } else
     s->eof = !fread(&(s->cur), 1, 1, s->fd);
 }
-- 
2.43.0


From e9ba793a946e7afb7da4dc82fee10c7add0e4d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:34 +0000
Subject: [PATCH 005/105] fix: scale PNM samples the same way for every maximum
 value

Plain PGM and PPM files with a maximum of 1 were inverted as if they were
bilevel, and samples above the maximum overflowed the conversion to a byte.
---
 src/input-pnm.c | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/input-pnm.c b/src/input-pnm.c
index f5a7b42..db8219e 100644
--- a/src/input-pnm.c
+++ b/src/input-pnm.c
@@ -223,6 +223,16 @@ cleanup:
   return (bitmap);
 }
 
+/* Scale a sample from 0..maxval to 0..255. */
+static unsigned char pnm_normalize(int value, int maxval)
+{
+  if (value < 0)
+    return 0;
+  if (value >= maxval)
+    return 255;
+  return (unsigned char)(255.0 * (double)value / (double)maxval);
+}
+
 static void pnm_load_ascii(PNMScanner * scan, PNMInfo * info, unsigned char *data, at_exception_type * excep)
 {
   unsigned char *d;
@@ -255,17 +265,10 @@ static void pnm_load_ascii(PNMScanner * scan, PNMInfo * info, unsigned char *dat
           at_exception_fatal(excep, "pnm filter: premature end of file");
           return;
         }
-        switch (info->maxval) {
-        case 255:
-          d[b] = (unsigned char)(isdigit(*buf) ? atoi(buf) : 0);
-          break;
-        case 1:
+        if (info->np == 0)
           d[b] = (*buf == '0') ? 0xff : 0x00;
-          break;
-        default:
-          d[b] = (unsigned char)(255.0 * (((double)(isdigit(*buf) ? atoi(buf) : 0))
-                                          / (double)(info->maxval)));
-        }
+        else
+          d[b] = pnm_normalize(isdigit(*buf) ? atoi(buf) : 0, info->maxval);
       }
 
       d += np;
@@ -295,7 +298,7 @@ static void pnm_load_raw(PNMScanner * scan, PNMInfo * info, unsigned char *data,
 
     if (info->maxval != 255) {  /* Normalize if needed */
       for (x = 0; x < info->xres * info->np; x++)
-        d[x] = (unsigned char)(255.0 * (double)(d[x]) / (double)(info->maxval));
+        d[x] = pnm_normalize(d[x], info->maxval);
     }
 
     d += info->xres * info->np;
-- 
2.43.0


From e72c72a9dfa140284d6559f003f3e0a0b9e16894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:54 +0000
Subject: [PATCH 006/105] fix: do not look past a one letter PNM magic number

The third character of the token was tested although it had not been set.
---
 src/input-pnm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/input-pnm.c b/src/input-pnm.c
index db8219e..e7738cf 100644
--- a/src/input-pnm.c
+++ b/src/input-pnm.c
@@ -36,6 +36,7 @@
 #include <math.h>
 #include <ctype.h>
 #include <limits.h>
+#include <string.h>
 
 /* Declare local data types
  */
@@ -143,7 +144,7 @@ input_pnm_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
     at_exception_fatal(&excep, "pnm filter: premature end of file");
     goto cleanup;
   }
-  if (buf[0] != 'P' || buf[2]) {
+  if (buf[0] != 'P' || strlen(buf) != 2) {
     LOG("pnm filter: %s is not a valid file\n", filename);
     at_exception_fatal(&excep, "pnm filter: invalid file");
     goto cleanup;
-- 
2.43.0


From 820228cc8b767d204aa6f00f010a5a024c85b604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:54 +0000
Subject: [PATCH 007/105] fix: report damaged PNG files instead of aborting

libpng calls abort() when its error handler returns, so the first defect in
a PNG file ended the whole program. Jump back to the reader, which releases
the structures and returns an empty bitmap.
---
 src/input-png.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/input-png.c b/src/input-png.c
index 6671bb6..13c86d4 100644
--- a/src/input-png.c
+++ b/src/input-png.c
@@ -24,6 +24,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <setjmp.h>
 
 #include "types.h"
 #include "bitmap.h"
@@ -54,6 +55,8 @@ static void handle_error(png_structp png, const char * message)
   /* at_exception_fatal((at_exception_type *)at_png->error_ptr,
      "PNG error"); */
 
+  /* libpng aborts the program if its error handler returns. */
+  longjmp(png_jmpbuf(png), 1);
 }
 
 static void finalize_structs(png_structp png, png_infop info, png_infop end_info)
@@ -80,12 +83,6 @@ static int init_structs(png_structp * png, png_infop * info, png_infop * end_inf
   return 0;
 }
 
-#define CHECK_ERROR() 	do { if (at_exception_got_fatal(exp))	\
-	  {							\
-	    result = 0;						\
-	    goto cleanup;					\
-	  } } while (0)
-
 static int load_image(at_bitmap * image, FILE * stream, at_input_opts_type * opts, at_exception_type * exp)
 {
   png_structp png;
@@ -93,13 +90,17 @@ static int load_image(at_bitmap * image, FILE * stream, at_input_opts_type * opt
   png_bytep *rows;
   unsigned short width, height, row;
   int pixel_size;
-  int result = 1;
+  volatile int result = 1;
 
   if (!init_structs(&png, &info, &end_info, exp))
     return 0;
 
+  if (setjmp(png_jmpbuf(png))) {
+    result = 0;
+    goto cleanup;
+  }
+
   png_init_io(png, stream);
-  CHECK_ERROR();
 
   png_read_png(png, info, PNG_TRANSFORM_STRIP_16 | PNG_TRANSFORM_PACKING | PNG_TRANSFORM_EXPAND, 0);
   rows = png_get_rows(png, info);
-- 
2.43.0


From 5eafe2fce686c45fca12740cd569819cd645b01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:54 +0000
Subject: [PATCH 008/105] fix: drop the alpha channel when reading PNG files

Rows with an alpha channel have two or four samples per pixel but were
copied as if they had three, which mixed up the colours and read past the
end of the rows of grey images.
---
 src/input-png.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input-png.c b/src/input-png.c
index 13c86d4..d81e5cd 100644
--- a/src/input-png.c
+++ b/src/input-png.c
@@ -102,7 +102,7 @@ static int load_image(at_bitmap * image, FILE * stream, at_input_opts_type * opt
 
   png_init_io(png, stream);
 
-  png_read_png(png, info, PNG_TRANSFORM_STRIP_16 | PNG_TRANSFORM_PACKING | PNG_TRANSFORM_EXPAND, 0);
+  png_read_png(png, info, PNG_TRANSFORM_STRIP_16 | PNG_TRANSFORM_STRIP_ALPHA | PNG_TRANSFORM_PACKING | PNG_TRANSFORM_EXPAND, 0);
   rows = png_get_rows(png, info);
   
   width = (unsigned short)png_get_image_width(png, info);
-- 
2.43.0


From 3c9fc4543546fb20e32f0a0ce3a93c601c392bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:54 +0000
Subject: [PATCH 009/105] fix: reject PNG images larger than a bitmap can be

Width and height are 16 bit values in a bitmap and were silently cut down.
---
 src/input-png.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/input-png.c b/src/input-png.c
index d81e5cd..77bd222 100644
--- a/src/input-png.c
+++ b/src/input-png.c
@@ -25,6 +25,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <setjmp.h>
+#include <limits.h>
 
 #include "types.h"
 #include "bitmap.h"
@@ -101,6 +102,7 @@ static int load_image(at_bitmap * image, FILE * stream, at_input_opts_type * opt
   }
 
   png_init_io(png, stream);
+  png_set_user_limits(png, USHRT_MAX, USHRT_MAX);
 
   png_read_png(png, info, PNG_TRANSFORM_STRIP_16 | PNG_TRANSFORM_STRIP_ALPHA | PNG_TRANSFORM_PACKING | PNG_TRANSFORM_EXPAND, 0);
   rows = png_get_rows(png, info);
-- 
2.43.0


From a185bd2f1138eec708628242c9f9d74f2428e0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:14 +0000
Subject: [PATCH 010/105] fix: assemble 32 bit BMP values without shifting into
 the sign bit

---
 src/input-bmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index f48a6fb..1b82ca8 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -829,7 +829,7 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 
 static long ToL(unsigned char *puffer)
 {
-  return (puffer[0] | puffer[1] << 8 | puffer[2] << 16 | puffer[3] << 24);
+  return (int)(puffer[0] | puffer[1] << 8 | puffer[2] << 16 | (unsigned int)puffer[3] << 24);
 }
 
 static short ToS(unsigned char *puffer)
-- 
2.43.0


From f456d6e2d1b9f08b4c00c11a053ed97f16adcfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:14 +0000
Subject: [PATCH 011/105] fix: read three 32 bit masks from BMP files with bit
 fields

The masks were read as unsigned long, which takes 24 instead of 12 bytes of
the file on 64 bit systems.
---
 src/input-bmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 1b82ca8..5236587 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -259,7 +259,7 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
     memset(masks, 0, sizeof(masks));
     if (Bitmap_Head.biCompr == BI_BITFIELDS)
     {
-      if (!ReadOK(fd, buffer, 3 * sizeof(unsigned long)))
+      if (!ReadOK(fd, buffer, 3 * 4))
       {
         LOG("Error reading BMP file header\n");
         at_exception_fatal(&exp, "Error reading BMP file header");
-- 
2.43.0


From a0834e18b28cb039d7766f923ea06728ba23ac77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:14 +0000
Subject: [PATCH 012/105] fix: make room for version 4 and 5 BMP headers

Headers of 108 and 124 bytes were read into a buffer of 64 bytes.
---
 src/input-bmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 5236587..ddbc239 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -136,7 +136,7 @@ static unsigned char *ReadImage(FILE *, int, int, unsigned char[256][3], int, in
 at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_func msg_func, void * msg_data, void * user_data)
 {
   FILE *fd;
-  unsigned char buffer[64];
+  unsigned char buffer[124];
   int ColormapSize, rowbytes, Maps, Grey;
   unsigned char ColorMap[256][3];
   at_bitmap image = at_bitmap_init(0, 0, 0, 1);
-- 
2.43.0


From 928266860cf1512b76d52fd220be004ab3978e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:14 +0000
Subject: [PATCH 013/105] fix: load BMP files that have a colour map

ReadColorMap returned failure even when it succeeded, so every image with
up to 256 colours came out empty without a message. Entries that the file
does not define are black, and images without a map are not grey.
---
 src/input-bmp.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index ddbc239..814d461 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -137,8 +137,8 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
 {
   FILE *fd;
   unsigned char buffer[124];
-  int ColormapSize, rowbytes, Maps, Grey;
-  unsigned char ColorMap[256][3];
+  int ColormapSize, rowbytes, Maps, Grey = 0;
+  unsigned char ColorMap[256][3] = { { 0 } };
   at_bitmap image = at_bitmap_init(0, 0, 0, 1);
   unsigned char *image_storage;
   at_exception_type exp = at_exception_new(msg_func, msg_data);
@@ -492,6 +492,7 @@ static int ReadColorMap(FILE * fd, unsigned char buffer[256][3], int number, int
     buffer[i][2] = rgb[0];
     *grey = ((*grey) && (rgb[0] == rgb[1]) && (rgb[1] == rgb[2]));
   }
+  return 1;
 cleanup:
   return 0;
 }
-- 
2.43.0


From e17014c6ad720d8d4887eed7a7dbfb0a842e10a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:14 +0000
Subject: [PATCH 014/105] fix: handle empty and split colour masks in BMP files

An empty mask led to a shift by a negative amount and a division by zero,
and a mask with gaps to values above 255.
---
 src/input-bmp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 814d461..73b397c 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -526,8 +526,8 @@ ReadChannelMasks(unsigned long       *tmp,
 			mask = mask >> 1;
 		}
 
-		masks[i].shiftin = offset;
-		masks[i].max_value = (float)((1 << nbits) - 1);
+		masks[i].shiftin = nbits ? offset : 0;
+		masks[i].max_value = nbits ? (float)(masks[i].mask >> offset) : (float)1.0;
 
 #ifdef _DEBUG
 		LOG("Channel %d mask %08x in %d max_val %d\n",
-- 
2.43.0


From 23dd60c1ceed748691307d16cea2d19a68085bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:14 +0000
Subject: [PATCH 015/105] fix: use the standard channels in BMP files without
 bit fields

Files with a 56 to 64 byte or a 12 byte header took their channels from
masks that such files do not have unless they are compressed with bit
fields.
---
 src/input-bmp.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 73b397c..46699ea 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -143,7 +143,7 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
   unsigned char *image_storage;
   at_exception_type exp = at_exception_new(msg_func, msg_data);
   char magick[2];
-  Bitmap_Channel masks[4];
+  Bitmap_Channel masks[4] = { { 0 } };
 
   fd = fopen(filename, "rb");
 
@@ -231,6 +231,7 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
     Bitmap_Head.masks[3] = 0;
 
     memset(masks, 0, sizeof(masks));
+    setMasksDefault(Bitmap_Head.biBitCnt, masks);
     Maps = 3;
   } else if (Bitmap_File_Head.biSize == 40) { /* Windows 3.x */
     if (!ReadOK(fd, buffer, 36))
@@ -313,7 +314,10 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
 	  Bitmap_Head.masks[3] = ToL(&buffer[0x30]);        /* 42 */
 
 	  Maps = 4;
-	  ReadChannelMasks(&Bitmap_Head.masks[0], masks, 4);
+	  if (Bitmap_Head.biCompr == BI_BITFIELDS)
+	    ReadChannelMasks(&Bitmap_Head.masks[0], masks, 4);
+	  else
+	    setMasksDefault(Bitmap_Head.biBitCnt, masks);
 	}
   else if (Bitmap_File_Head.biSize == 108 ||
   Bitmap_File_Head.biSize == 124)
-- 
2.43.0


From f4248f4a81c8ae5442b5f4f24bd82078ac65669e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:14 +0000
Subject: [PATCH 016/105] fix: reject BMP images larger than a bitmap can be

Width and height are 16 bit values in a bitmap and were silently cut down.
The unsigned size in a 12 byte header was taken as a signed one.
---
 src/input-bmp.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 46699ea..3b6f9d8 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -31,6 +31,8 @@
 #include "xstd.h"
 #include "input-bmp.h"
 
+#include <limits.h>
+
 #define BI_RGB            0
 #define BI_RLE8           1
 #define BI_RLE4           2
@@ -217,8 +219,8 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
       goto cleanup;
     }
 
-    Bitmap_Head.biWidth = ToS(&buffer[0x00]);   /* 12 */
-    Bitmap_Head.biHeight = ToS(&buffer[0x02]);  /* 14 */
+    Bitmap_Head.biWidth = (unsigned short)ToS(&buffer[0x00]);   /* 12 */
+    Bitmap_Head.biHeight = (unsigned short)ToS(&buffer[0x02]);  /* 14 */
     Bitmap_Head.biPlanes = ToS(&buffer[0x04]);  /* 16 */
     Bitmap_Head.biBitCnt = ToS(&buffer[0x06]);  /* 18 */
     Bitmap_Head.biCompr = 0;
@@ -444,6 +446,15 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
 	  goto cleanup;
   }
 
+  /* The size of a bitmap is limited to 16 bits */
+  if (Bitmap_Head.biWidth > USHRT_MAX ||
+	  abs((int)Bitmap_Head.biHeight) > USHRT_MAX)
+  {
+	  LOG("%s is too large", filename);
+	  at_exception_fatal(&exp, "bmp: image too large");
+	  goto cleanup;
+  }
+
   /* Windows and OS/2 declare filler so that rows are a multiple of
    * word length (32 bits == 4 bytes)
    */
-- 
2.43.0


From 6191b60cfdb0baf62c1281e5ccaa64a84f0269c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:14 +0000
Subject: [PATCH 017/105] fix: load BMP images stored top row first

A negative height marks a file whose first row is the top one. It was used
as the size of an allocation and as the index of the first row.
---
 src/input-bmp.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 3b6f9d8..6251c95 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -481,7 +481,7 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
   
   /* Get the Image and return the ID or -1 on error */
   image_storage = ReadImage(fd, Bitmap_Head.biWidth, Bitmap_Head.biHeight, ColorMap, Bitmap_Head.biClrUsed, Bitmap_Head.biBitCnt, Bitmap_Head.biCompr, rowbytes, Grey, masks, &exp);
-  image = at_bitmap_init(image_storage, (unsigned short)Bitmap_Head.biWidth, (unsigned short)Bitmap_Head.biHeight, Grey ? 1 : 3);
+  image = at_bitmap_init(image_storage, (unsigned short)Bitmap_Head.biWidth, (unsigned short)abs((int)Bitmap_Head.biHeight), Grey ? 1 : 3);
 cleanup:
   fclose(fd);
   return (image);
@@ -565,6 +565,10 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
   int i, i_max, j;
   int total_bytes_read;
   unsigned int px32;
+  int top_down = height < 0;
+
+  if (top_down)
+    height = -height;
 
   if (!(compression == BI_RGB ||
 	  (bpp == 8 && compression == BI_RLE8) ||
@@ -616,7 +620,7 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
     {
       while (ReadOK (fd, row_buf, rowbytes))
         {
-          temp = image + (ypos * rowstride);
+          temp = image + ((top_down ? height - 1 - ypos : ypos) * rowstride);
           for (xpos= 0; xpos < width; ++xpos)
             {
 			  px32 = ToL(&row_buf[xpos * 4]);
@@ -640,7 +644,7 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
     {
       while (ReadOK (fd, row_buf, rowbytes))
         {
-          temp = image + (ypos * rowstride);
+          temp = image + ((top_down ? height - 1 - ypos : ypos) * rowstride);
           for (xpos= 0; xpos < width; ++xpos)
             {
                *(temp++)= row_buf[xpos * 3 + 2];
@@ -656,7 +660,7 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
     {
       while (ReadOK (fd, row_buf, rowbytes))
         {
-          temp = image + (ypos * rowstride);
+          temp = image + ((top_down ? height - 1 - ypos : ypos) * rowstride);
           for (xpos= 0; xpos < width; ++xpos)
             {
 			  rgb = ToS(&row_buf[xpos * 2]);
@@ -686,7 +690,7 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 	      {
 		for (i = 1; (i <= (8 / bpp)) && (xpos < width); i++, xpos++)
 		  {
-			temp = image + (ypos * rowstride) + (xpos * channels);
+			temp = image + ((top_down ? height - 1 - ypos : ypos) * rowstride) + (xpos * channels);
 			*temp = (v & (((1 << bpp) - 1) << (8 - (i*bpp)))) >> (8 - (i*bpp));
 			if (Grey)
 				*temp = cmap[*temp][0];
-- 
2.43.0


From e2cff384d2754d9b559738964d819d52906f09c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:14 +0000
Subject: [PATCH 018/105] fix: do not count the alpha channel in the rows of
 BMP images

Alpha values are skipped when the pixels are stored, so a row has three
bytes per pixel even if the file has an alpha mask. Rows were placed four
bytes per pixel apart, past the end of the image.
---
 src/input-bmp.c | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 6251c95..41f2a1f 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -585,14 +585,7 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
   if (bpp >= 16) /* color image */
     {
       XMALLOC (image, width * height * 3 * sizeof (unsigned char));
-	  if (masks[3].mask != 0)
-	  {
-		  channels = 4;
-	  }
-	  else
-	  {
-		  channels = 3;
-	  }
+	  channels = 3;
   }
   else if (Grey) /* Grey image */
     {
-- 
2.43.0


From 2660b88e9b9d8a22f3f9a3eaf59cbe2dbb4ee29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:14 +0000
Subject: [PATCH 019/105] fix: stop after the last row of a 24 bit BMP image

Bytes following the image were stored before the start of the buffer.
---
 src/input-bmp.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 41f2a1f..96735c8 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -644,6 +644,10 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
                *(temp++)= row_buf[xpos * 3 + 1];
                *(temp++)= row_buf[xpos * 3];
             }
+
+		  if (ypos == 0)
+			  break;
+
           --ypos; /* next line */
         }
 	}
-- 
2.43.0


From da66525a09c0f16bd187e82b8acc0e3947825ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:14 +0000
Subject: [PATCH 020/105] fix: return the pixels of run length encoded and grey
 BMP images

Encoded pixels were stored in a buffer that was thrown away, and the indices
of grey images were looked up in the colour map twice.
---
 src/input-bmp.c | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 96735c8..e0d7b97 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -559,7 +559,7 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
   int xpos = 0;
   int ypos = 0;
   unsigned char * image;
-  unsigned char *dest, *temp, *row_buf;
+  unsigned char *temp, *row_buf;
   long rowstride, channels;
   unsigned short rgb;
   int i, i_max, j;
@@ -587,22 +587,15 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
       XMALLOC (image, width * height * 3 * sizeof (unsigned char));
 	  channels = 3;
   }
-  else if (Grey) /* Grey image */
-    {
-      XMALLOC (image, width * height * 1 * sizeof (unsigned char));
-	  channels = 1;
-	}
-  else /* indexed image */
+  else /* grey or indexed image */
 	{
-      XMALLOC (image, width * height * 1 * sizeof (unsigned char));
+      /* use XCALLOC so that unspecified pixels in RLE bitmaps show up
+         as the zeroth element in the palette. */
+      XCALLOC (image, width * height * 1 * sizeof (unsigned char));
 	  channels = 1;
 	}
 
-  /* use XCALLOC to initialize the dest row_buf so that unspecified
-	 pixels in RLE bitmaps show up as the zeroth element in the palette.
-  */
-  XCALLOC(dest, width * height * channels);
-  XMALLOC (row_buf, rowbytes); 
+  XMALLOC (row_buf, rowbytes < 2 ? 2 : rowbytes);
   rowstride = width * channels;
 
   ypos = height - 1;  /* Bitmaps begin in the lower left corner */
@@ -689,8 +682,6 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 		  {
 			temp = image + ((top_down ? height - 1 - ypos : ypos) * rowstride) + (xpos * channels);
 			*temp = (v & (((1 << bpp) - 1) << (8 - (i*bpp)))) >> (8 - (i*bpp));
-			if (Grey)
-				*temp = cmap[*temp][0];
 		}
 
 		if (xpos == width)
@@ -735,10 +726,8 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 			             ((unsigned char) j < (unsigned char) row_buf[0]));
 			             i++, xpos++, j++)
 			          {
-			            temp = dest + (ypos * rowstride) + (xpos * channels);
+			            temp = image + (ypos * rowstride) + (xpos * channels);
 			            *temp = (unsigned char) ((row_buf[1] & (((1<<bpp)-1) << (8 - (i * bpp)))) >> (8 - (i * bpp)));
-				        if (Grey)
-					      *temp = cmap[*temp][0];
 			          }
 		      }
 		  }
@@ -771,10 +760,8 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 				while ((i <= i_max) && (xpos < width))
 				{
 					temp =
-						dest + (ypos * rowstride) + (xpos * channels);
+						image + (ypos * rowstride) + (xpos * channels);
 					*temp = (v >> (8 - (i*bpp))) & ((1 << bpp) - 1);
-					if (Grey)
-						*temp = cmap[*temp][0];
 					i++;
 					xpos++;
 				}
@@ -840,7 +827,6 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
   }
 
   free (row_buf);
-  free(dest);
   return image;
 }
 
-- 
2.43.0


From 291e558f0b482abd50211861510d88433d48088e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:14 +0000
Subject: [PATCH 021/105] fix: load BMP images with two bits per pixel

The depth was accepted but no pixel was ever stored.
---
 src/input-bmp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index e0d7b97..5e55dae 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -672,6 +672,7 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 
   case 8:
   case 4:
+  case 2:
   case 1:
     {
       if (compression == 0)
-- 
2.43.0


From 0beadf1e249b33f4e6e95538730ed893eddcb93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:14 +0000
Subject: [PATCH 022/105] fix: warn about BMP files that end within the image

The missing pixels were uninitialised memory and nothing was reported.
They are now black or the first colour of the map.
---
 src/input-bmp.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 5e55dae..15096de 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -566,6 +566,7 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
   int total_bytes_read;
   unsigned int px32;
   int top_down = height < 0;
+  int complete = 0;
 
   if (top_down)
     height = -height;
@@ -584,7 +585,7 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 
   if (bpp >= 16) /* color image */
     {
-      XMALLOC (image, width * height * 3 * sizeof (unsigned char));
+      XCALLOC (image, width * height * 3 * sizeof (unsigned char));
 	  channels = 3;
   }
   else /* grey or indexed image */
@@ -619,7 +620,10 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 		  }
 
 		  if (ypos == 0)
+		  {
+			  complete = 1;
 			  break;
+		  }
 
 		  --ypos; /* next line */
         }
@@ -639,7 +643,10 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
             }
 
 		  if (ypos == 0)
+		  {
+			  complete = 1;
 			  break;
+		  }
 
           --ypos; /* next line */
         }
@@ -663,7 +670,10 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 		  }
 
 		  if (ypos == 0)
+		  {
+			  complete = 1;
 			  break;
+		  }
 
 		  --ypos; /* next line */
         }
@@ -694,18 +704,23 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 
 		  }
 		if (ypos < 0)
-		  break;
+		  {
+		    complete = 1;
+		    break;
+		  }
 	      }
 	    break;
 	  }
 	else
 	  {
 		  /* compressed image (either RLE8 or RLE4) */
+		  complete = 1;
 		  while (ypos >= 0 && xpos <= width)
 	      {
 			if (!ReadOK(fd, row_buf, 2))
 			{
 				LOG("The bitmap ends unexpectedly.");
+				complete = 0;
 				break;
 			}
 
@@ -789,6 +804,7 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 			if (!ReadOK(fd, row_buf, 2))
 			  {
 				LOG("The bitmap ends unexpectedly.");
+				complete = 0;
 				break;
 			  }
 			xpos += (unsigned char) row_buf[0];
@@ -804,6 +820,9 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 	break;
   }
 
+  if (!complete)
+    at_exception_warning(exp, "bmp: premature end of file");
+
   if (bpp <= 8)
     {
       unsigned char *temp2, *temp3;
-- 
2.43.0


From 556158c9221aa9e99da8025ee1a5c6b57d8fa2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:14 +0000
Subject: [PATCH 023/105] fix: return an empty bitmap for unsupported BMP
 compressions

The reader went on to make a bitmap of the declared size without pixels.
---
 src/input-bmp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 15096de..ff7b441 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -481,6 +481,8 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
   
   /* Get the Image and return the ID or -1 on error */
   image_storage = ReadImage(fd, Bitmap_Head.biWidth, Bitmap_Head.biHeight, ColorMap, Bitmap_Head.biClrUsed, Bitmap_Head.biBitCnt, Bitmap_Head.biCompr, rowbytes, Grey, masks, &exp);
+  if (!image_storage)
+    goto cleanup;
   image = at_bitmap_init(image_storage, (unsigned short)Bitmap_Head.biWidth, (unsigned short)abs((int)Bitmap_Head.biHeight), Grey ? 1 : 3);
 cleanup:
   fclose(fd);
-- 
2.43.0


From 282d7208767985f7b48a78a84cf00b8bdfe169d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:37 +0000
Subject: [PATCH 024/105] fix: do not go on with a TGA file that cannot be
 opened

---
 src/input-tga.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/input-tga.c b/src/input-tga.c
index 865897b..2593127 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -117,6 +117,7 @@ input_tga_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
   if (!fp) {
     LOG("TGA: can't open \"%s\"\n", filename);
     at_exception_fatal(&exp, "Cannot open input tga file");
+    return image;
   }
 
   /* Check the footer. */
-- 
2.43.0


From f3bed36a911d6ea352ae33e45fb36ee46df0bfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:37 +0000
Subject: [PATCH 025/105] fix: accept TGA files smaller than a footer

The footer is optional and was never looked at, but a file had to be at
least as long as one.
---
 src/input-tga.c | 21 +--------------------
 1 file changed, 1 insertion(+), 20 deletions(-)

diff --git a/src/input-tga.c b/src/input-tga.c
index 2593127..e401f32 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -93,15 +93,6 @@ struct tga_header {
   unsigned char descriptor;
 };
 
-static struct {
-  unsigned int extensionAreaOffset;
-  unsigned int developerDirectoryOffset;
-#define TGA_SIGNATURE "trueVISION-XFILE"
-  char signature[16];
-  char dot;
-  char null;
-} tga_footer;
-
 static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type * exp);
 
 at_bitmap
@@ -120,17 +111,7 @@ input_tga_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
     return image;
   }
 
-  /* Check the footer. */
-  if (fseek(fp, 0L - (sizeof(tga_footer)), SEEK_END)
-      || fread(&tga_footer, sizeof(tga_footer), 1, fp) != 1) {
-    LOG("TGA: Cannot read footer from \"%s\"\n", filename);
-    at_exception_fatal(&exp, "TGA: Cannot read footer");
-    goto cleanup;
-  }
-
-  /* Check the signature. */
-
-  if (fseek(fp, 0, SEEK_SET) || fread(&hdr, sizeof(hdr), 1, fp) != 1) {
+  if (fread(&hdr, sizeof(hdr), 1, fp) != 1) {
     LOG("TGA: Cannot read header from \"%s\"\n", filename);
     at_exception_fatal(&exp, "TGA: Cannot read header");
     goto cleanup;
-- 
2.43.0


From 4cc9a7e9bd13d9c8cb38ff836dddd6deb7732d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:37 +0000
Subject: [PATCH 026/105] fix: keep TGA run length state within one image

An image whose last packet was too long left pixels behind for the next
image that was read. The buffer was made for the pixel size of the first
image and overflowed if a later one had larger pixels.
---
 src/input-tga.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/input-tga.c b/src/input-tga.c
index e401f32..a50e9ef 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -141,9 +141,9 @@ static int std_fread(unsigned char *buf, int datasize, int nelems, FILE * fp)
 /* Decode a bufferful of file. */
 static int rle_fread(unsigned char *buf, int datasize, int nelems, FILE * fp)
 {
-  static unsigned char *statebuf = 0;
-  static int statelen = 0;
-  static int laststate = 0;
+  unsigned char statebuf[RLE_PACKETSIZE * 4];
+  int statelen = 0;
+  int laststate = 0;
 
   int j, k;
   int buflen, count, bytes;
@@ -185,9 +185,6 @@ static int rle_fread(unsigned char *buf, int datasize, int nelems, FILE * fp)
       /* We can copy directly into the image buffer. */
       p = buf + j;
     } else {
-      /* Allocate the state buffer if we haven't already. */
-      if (!statebuf)
-        statebuf = (unsigned char *)malloc(RLE_PACKETSIZE * datasize);
       p = statebuf;
     }
 
-- 
2.43.0


From 0e4069c708e3dd491637b1fb494509c532c65d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:37 +0000
Subject: [PATCH 027/105] fix: free the colour map of a TGA file that ends
 within it

---
 src/input-tga.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/input-tga.c b/src/input-tga.c
index a50e9ef..2933a58 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -372,6 +372,7 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
     if (fread(cmap + (index * pelbytes), pelbytes, length, fp) != length) {
       LOG("TGA: error reading colormap (ftell == %ld)\n", ftell(fp));
       at_exception_fatal(exp, "TGA: error reading colormap");
+      free(cmap);
       return image;
     }
 
-- 
2.43.0


From e850220fcb23b588f5544a928561dc1f8fe7a7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:37 +0000
Subject: [PATCH 028/105] fix: allow TGA pixels that are not in the colour map

Pixels with an index past the end of the map were looked up outside of it.
They are black now like those before the first entry of the map.
---
 src/input-tga.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/input-tga.c b/src/input-tga.c
index 2933a58..bf7c355 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -362,11 +362,10 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
     }
 
     pelbytes = ROUNDUP_DIVIDE(hdr->colorMapSize, 8);
-    colors = length + index;
-    cmap = (unsigned char *)malloc(colors * pelbytes);
+    colors = MAX(length + index, 256);
 
-    /* Zero the entries up to the beginning of the map. */
-    memset(cmap, 0, index * pelbytes);
+    /* Zero the entries that are not in the map. */
+    XCALLOC(cmap, colors * pelbytes);
 
     /* Read in the rest of the colormap. */
     if (fread(cmap + (index * pelbytes), pelbytes, length, fp) != length) {
-- 
2.43.0


From 9aed724c12afc570a57f59d8ebb0dcd4ee0e2e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:37 +0000
Subject: [PATCH 029/105] fix: ignore the alpha values of TGA colour maps

They were written over the indices of the pixels although a bitmap has no
alpha plane.
---
 src/input-tga.c | 31 +------------------------------
 1 file changed, 1 insertion(+), 30 deletions(-)

diff --git a/src/input-tga.c b/src/input-tga.c
index bf7c355..6049ec8 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -221,9 +221,8 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
 {
   at_bitmap image = at_bitmap_init(0, 0, 0, 1);
   unsigned char *buffer = NULL;
-  unsigned char *alphas = NULL;
 
-  unsigned short width, height, bpp, abpp, pbpp, nalphas;
+  unsigned short width, height, bpp, abpp, pbpp;
   int j, k;
   int pelbytes, wbytes, bsize, npels, pels;
   int rle, badread;
@@ -346,7 +345,6 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
     return image;
   }
 
-  nalphas = 0;
   if (hdr->colorMapType == 1) {
     /* We need to read in the colormap. */
     int index, colors;
@@ -375,11 +373,6 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
       return image;
     }
 
-    /* If we have an alpha channel, then create a mapping to the alpha
-       values. */
-    if (pelbytes > 3)
-      alphas = (unsigned char *)malloc(colors);
-
     k = 0;
     for (j = 0; j < colors * pelbytes; j += pelbytes) {
       /* Swap from BGR to RGB. */
@@ -387,17 +380,8 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
       cmap[k++] = cmap[j + 2];
       cmap[k++] = cmap[j + 1];
       cmap[k++] = tmp;
-
-      /* Take the alpha values out of the colormap. */
-      if (alphas)
-        alphas[nalphas++] = cmap[j + 3];
     }
 
-    /* If the last color was transparent, then omit it from the
-       mapping. */
-    if (nalphas && alphas[nalphas - 1] == 0)
-      colors--;
-
     /* Now pretend as if we only have 8 bpp. */
     abpp = 0;
     pbpp = 8;
@@ -441,17 +425,6 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
     /* Fill the rest of this tile with zeros. */
     memset(image.bitmap + (pels * bpp), 0, ((npels - pels) * bpp));
   }
-  /* If we have indexed alphas, then set them. */
-  if (nalphas) {
-    /* Start at the end of the buffer, and work backwards. */
-    k = (npels - 1) * bpp;
-    for (j = bsize - pelbytes; j >= 0; j -= pelbytes) {
-      /* Find the alpha for this index. */
-      image.bitmap[j + 1] = alphas[image.bitmap[k]];
-      image.bitmap[j] = image.bitmap[k--];
-    }
-  }
-
   if (itype == GRAY)
     for (j = bsize / 3 - 1; j >= 0; j -= 1) {
       /* Find the alpha for this index. */
@@ -519,7 +492,5 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
     free(cmap);
   }
 
-  free(alphas);
-
   return image;
 }                               /* read_image */
-- 
2.43.0


From 3200ca33a38974246ad3d29f529f87d251a6f87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:37 +0000
Subject: [PATCH 030/105] fix: mirror TGA images that are reversed in both
 directions

---
 src/input-tga.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input-tga.c b/src/input-tga.c
index 6049ec8..07d91f4 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -444,11 +444,11 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
 
   if (horzrev || vertrev) {
     unsigned char *tmp;
-    if (vertrev) {
+    if (vertrev && !horzrev) {
       /* We need to mirror only vertically. */
       for (j = 0; j < bsize; j += wbytes)
         memcpy(buffer + j, image.bitmap + bsize - (j + wbytes), wbytes);
-    } else if (horzrev) {
+    } else if (horzrev && !vertrev) {
       /* We need to mirror only horizontally. */
       for (j = 0; j < bsize; j += wbytes)
         for (k = 0; k < wbytes; k += pelbytes)
-- 
2.43.0


From 09219a66c12911ccee134af1e9a25c401f7ab2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:37 +0000
Subject: [PATCH 031/105] fix: leave out the alpha channel of TGA images

Pixels with an alpha value were stored with four bytes each in a buffer made
for three, and those of grey images were taken for two pixels.
---
 src/input-tga.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/input-tga.c b/src/input-tga.c
index 07d91f4..e293033 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -221,6 +221,7 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
 {
   at_bitmap image = at_bitmap_init(0, 0, 0, 1);
   unsigned char *buffer = NULL;
+  unsigned char *raw;
 
   unsigned short width, height, bpp, abpp, pbpp;
   int j, k;
@@ -409,10 +410,13 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
   bsize = wbytes * height;
 
   /* Suck in the data one height at a time. */
+  raw = image.bitmap;
+  if (bpp > 3)
+    XMALLOC(raw, npels * bpp);
   if (badread)
     pels = 0;
   else
-    pels = (*myfread) (image.bitmap, bpp, npels, fp);
+    pels = (*myfread) (raw, bpp, npels, fp);
 
   if (pels != npels) {
     if (!badread) {
@@ -423,8 +427,19 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
     }
 
     /* Fill the rest of this tile with zeros. */
-    memset(image.bitmap + (pels * bpp), 0, ((npels - pels) * bpp));
+    memset(raw + (pels * bpp), 0, ((npels - pels) * bpp));
   }
+
+  /* Leave out the alpha values. */
+  if (abpp) {
+    int planes = itype == RGB ? 3 : 1;
+    for (j = 0; j < npels; j++)
+      for (k = 0; k < planes; k++)
+        image.bitmap[j * planes + k] = raw[j * bpp + k];
+  }
+  if (raw != image.bitmap)
+    free(raw);
+
   if (itype == GRAY)
     for (j = bsize / 3 - 1; j >= 0; j -= 1) {
       /* Find the alpha for this index. */
-- 
2.43.0


From 443ef178271c03bb2326990522323e37fd1aab6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:37 +0000
Subject: [PATCH 032/105] fix: compute the size of large bitmaps without
 overflow

The number of bytes of an image with two 16 bit sides does not fit an int.
---
 src/autotrace.c |  6 +++---
 src/input-tga.c | 22 ++++++++++++----------
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/autotrace.c b/src/autotrace.c
index f91a18f..6f9c1c5 100644
--- a/src/autotrace.c
+++ b/src/autotrace.c
@@ -154,7 +154,7 @@ at_bitmap *at_bitmap_copy(const at_bitmap * src)
   planes = at_bitmap_get_planes(src);
 
   dist = at_bitmap_new(width, height, planes);
-  memcpy(dist->bitmap, src->bitmap, width * height * planes * sizeof(unsigned char));
+  memcpy(dist->bitmap, src->bitmap, (size_t)width * height * planes * sizeof(unsigned char));
   return dist;
 }
 
@@ -165,10 +165,10 @@ at_bitmap at_bitmap_init(unsigned char *area, unsigned short width, unsigned sho
   if (area)
     bitmap.bitmap = area;
   else {
-    if (0 == (width * height))
+    if (0 == width || 0 == height)
       bitmap.bitmap = NULL;
     else
-      XCALLOC(bitmap.bitmap, width * height * planes * sizeof(unsigned char));
+      XCALLOC(bitmap.bitmap, (size_t)width * height * planes * sizeof(unsigned char));
   }
 
   bitmap.width = width;
diff --git a/src/input-tga.c b/src/input-tga.c
index e293033..d4f4602 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -130,7 +130,7 @@ cleanup:
   return image;
 }
 
-static int std_fread(unsigned char *buf, int datasize, int nelems, FILE * fp)
+static long std_fread(unsigned char *buf, int datasize, long nelems, FILE * fp)
 {
 
   return fread(buf, datasize, nelems, fp);
@@ -139,14 +139,14 @@ static int std_fread(unsigned char *buf, int datasize, int nelems, FILE * fp)
 #define RLE_PACKETSIZE 0x80
 
 /* Decode a bufferful of file. */
-static int rle_fread(unsigned char *buf, int datasize, int nelems, FILE * fp)
+static long rle_fread(unsigned char *buf, int datasize, long nelems, FILE * fp)
 {
   unsigned char statebuf[RLE_PACKETSIZE * 4];
   int statelen = 0;
   int laststate = 0;
 
-  int j, k;
-  int buflen, count, bytes;
+  long j, k;
+  long buflen, count, bytes;
   unsigned char *p;
 
   /* Scale the buffer length. */
@@ -224,12 +224,13 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
   unsigned char *raw;
 
   unsigned short width, height, bpp, abpp, pbpp;
-  int j, k;
-  int pelbytes, wbytes, bsize, npels, pels;
+  long j, k;
+  int pelbytes;
+  long wbytes, bsize, npels, pels;
   int rle, badread;
   int itype, dtype;
   unsigned char *cmap = NULL;
-  int (*myfread) (unsigned char *, int, int, FILE *);
+  long (*myfread) (unsigned char *, int, long, FILE *);
 
   /* Find out whether the image is horizontally or vertically reversed. */
   char horzrev = (char)(hdr->descriptor & TGA_DESC_HORIZONTAL);
@@ -397,7 +398,7 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
 
   /* Maybe we need to reverse the data. */
   if (horzrev || vertrev)
-    buffer = (unsigned char *)malloc(width * height * pelbytes * sizeof(unsigned char));
+    XMALLOC(buffer, (size_t)width * height * pelbytes * sizeof(unsigned char));
   if (rle)
     myfread = rle_fread;
   else
@@ -406,7 +407,7 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
   wbytes = width * pelbytes;
   badread = 0;
 
-  npels = width * height;
+  npels = (long)width * height;
   bsize = wbytes * height;
 
   /* Suck in the data one height at a time. */
@@ -493,7 +494,8 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
     int xpos, ypos;
 
     temp2 = temp = image.bitmap;
-    image.bitmap = temp3 = (unsigned char *)malloc(width * height * 3 * sizeof(unsigned char));
+    XMALLOC(temp3, (size_t)width * height * 3 * sizeof(unsigned char));
+    image.bitmap = temp3;
 
     for (ypos = 0; ypos < height; ypos++) {
       for (xpos = 0; xpos < width; xpos++) {
-- 
2.43.0


From 197ec1f0531239a03c90bc5055ea54fa31bdddb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:33 +0000
Subject: [PATCH 033/105] fix: report damaged GF files instead of ending the
 process

The reader called exit from within the library when a file was cut short or
had unexpected contents, and did not close the file in other cases.
---
 src/input-gf.c | 72 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 46 insertions(+), 26 deletions(-)

diff --git a/src/input-gf.c b/src/input-gf.c
index 41c018f..dcceeb9 100644
--- a/src/input-gf.c
+++ b/src/input-gf.c
@@ -24,6 +24,7 @@
 #include "config.h"
 #endif /* Def: HAVE_CONFIG_H */
 
+#include <setjmp.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -81,6 +82,7 @@ typedef struct _gf_char_t {
 typedef struct _gf_font_t {
   char *input_filename;
   FILE *input_file;
+  jmp_buf error;                /* Where to go if the file is damaged. */
   double design_size;
   unsigned long checksum;
   double h_pixels_per_point, v_pixels_per_point;
@@ -115,7 +117,7 @@ static unsigned char get_byte(gf_font_t * font)
 
   if (fread(&b, 1, 1, font->input_file) != 1) {
     fprintf(stderr, "%s: read error\n", font->input_filename);
-    exit(-1);
+    longjmp(font->error, 1);
   }
   return b;
 }
@@ -158,7 +160,7 @@ static void move_relative(gf_font_t * font, long count)
 {
   if (fseek(font->input_file, count, SEEK_CUR) < 0) {
     fprintf(stderr, "%s: seek error\n", font->input_filename);
-    exit(-1);
+    longjmp(font->error, 1);
   }
 }
 
@@ -260,7 +262,7 @@ static void get_character_bitmap(gf_char_t * sym)
       continue;                 /* do nothing */
     if (c != EOC) {
       fprintf(stderr, "%s: expected eoc (for a blank character), found %u\n", sym->font->input_filename, c);
-      exit(-1);
+      longjmp(sym->font->error, 1);
     }
     return;
   }
@@ -270,7 +272,7 @@ static void get_character_bitmap(gf_char_t * sym)
   sym->bitmap = calloc(width, height);
   if (!sym->bitmap) {
     fprintf(stderr, "%s: out of memory\n", sym->font->input_filename);
-    exit(-1);
+    longjmp(sym->font->error, 1);
   }
 
   for (;;) {
@@ -302,7 +304,7 @@ static void get_character_bitmap(gf_char_t * sym)
           break;
         default:
           fprintf(stderr, "%s: invalid painting command %u\n", sym->font->input_filename, c);
-          exit(-1);
+          longjmp(sym->font->error, 1);
         }
       }
 
@@ -344,7 +346,7 @@ static void get_character_bitmap(gf_char_t * sym)
         break;
       default:
         fprintf(stderr, "%s: invalid skip command %u\n", sym->font->input_filename, c);
-        exit(-1);
+        longjmp(sym->font->error, 1);
       }
       cur_y -= rows_to_skip + 1;
       cur_x = sym->bbox_min_col;
@@ -365,7 +367,7 @@ static void get_character_bitmap(gf_char_t * sym)
 
     } else {
       fprintf(stderr, "%s: expected paint or skip or new_row, found %u\n", sym->font->input_filename, c);
-      exit(-1);
+      longjmp(sym->font->error, 1);
     }
   }
 }
@@ -448,7 +450,7 @@ static void deblank(gf_char_t * sym)
       condensed.bitmap = calloc(condensed.width, condensed.height);
       if (!condensed.bitmap) {
         fprintf(stderr, "%s: out of memory\n", sym->font->input_filename);
-        exit(-1);
+        longjmp(sym->font->error, 1);
       }
       for (r = 0; r < condensed.height; r++)
         for (c = 0; c < condensed.width; c++) {
@@ -636,6 +638,34 @@ static int gf_get_char(gf_font_t * font, gf_char_t * sym, unsigned char charcode
   return 1;
 }
 
+/*
+ * Read a character from a file, the first one if the code is zero.
+ * Returns a message if that failed.
+ */
+static const char *gf_load(gf_font_t * font, gf_char_t * sym, char *filename, unsigned int *charcode)
+{
+  unsigned int i;
+
+  if (setjmp(font->error))
+    return "Error reading GF file";
+
+  if (!gf_open(font, filename))
+    return "Cannot open input GF file";
+
+  if (*charcode == 0) {
+    /* Find a first character in font file. */
+    for (i = 0; i < 256; ++i)
+      if (font->char_loc[i].char_pointer != -1)
+        break;
+    if (i >= 256)
+      return "No characters in input GF file";
+    *charcode = i;
+  }
+  if (!gf_get_char(font, sym, (unsigned char)*charcode))
+    return "Error reading character from GF file";
+  return NULL;
+}
+
 at_bitmap
 input_gf_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func, void *msg_data, void *user_data)
 {
@@ -644,25 +674,16 @@ input_gf_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
   gf_font_t fontdata, *font = &fontdata;
   gf_char_t chardata, *sym = &chardata;
   unsigned int i, j, ptr;
+  const char *message;
 
-  if (!gf_open(font, filename)) {
-    at_exception_fatal(&exp, "Cannot open input GF file");
-    return bitmap;
-  }
-  if (opts->charcode == 0) {
-    /* Find a first character in font file. */
-    for (i = 0; i < 256; ++i)
-      if (font->char_loc[i].char_pointer != -1)
-        break;
-    if (i >= 256) {
-      at_exception_fatal(&exp, "No characters in input GF file");
-      return bitmap;
-    }
-    opts->charcode = i;
-  }
-  if (!gf_get_char(font, sym, (unsigned char)opts->charcode)) {
+  font->input_file = NULL;
+  sym->bitmap = NULL;
+  message = gf_load(font, sym, filename, &opts->charcode);
+  if (font->input_file)
     fclose(font->input_file);
-    at_exception_fatal(&exp, "Error reading character from GF file");
+  if (message) {
+    free(sym->bitmap);
+    at_exception_fatal(&exp, message);
     return bitmap;
   }
 
@@ -681,6 +702,5 @@ input_gf_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
     }
   }
   free(sym->bitmap);
-  fclose(font->input_file);
   return bitmap;
 }
-- 
2.43.0


From 0f6b554f2ef8a2cf67557a546c0b957dfd780de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:33 +0000
Subject: [PATCH 034/105] fix: leave the input options alone when reading GF
 files

The code of the first character was stored in the caller's options, so the
next file was searched for that code.
---
 src/input-gf.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/input-gf.c b/src/input-gf.c
index dcceeb9..0d62a05 100644
--- a/src/input-gf.c
+++ b/src/input-gf.c
@@ -674,11 +674,12 @@ input_gf_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
   gf_font_t fontdata, *font = &fontdata;
   gf_char_t chardata, *sym = &chardata;
   unsigned int i, j, ptr;
+  unsigned int charcode = opts->charcode;
   const char *message;
 
   font->input_file = NULL;
   sym->bitmap = NULL;
-  message = gf_load(font, sym, filename, &opts->charcode);
+  message = gf_load(font, sym, filename, &charcode);
   if (font->input_file)
     fclose(font->input_file);
   if (message) {
@@ -688,7 +689,7 @@ input_gf_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
   }
 
   ugs_design_pixels = font->design_size * font->v_pixels_per_point + 0.5;
-  ugs_charcode = opts->charcode;
+  ugs_charcode = charcode;
   ugs_advance_width = sym->h_escapement;
   ugs_left_bearing = sym->bbox_min_col;
   ugs_descend = sym->bbox_min_row;
-- 
2.43.0


From 7357eb6b813565f4d1525a2e1e2daa4726bb6fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:33 +0000
Subject: [PATCH 035/105] fix: use the reduced size of a GF character without
 blank edges

The pixels were moved to a smaller buffer but still read with the old size.
---
 src/input-gf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/input-gf.c b/src/input-gf.c
index 0d62a05..e575b9e 100644
--- a/src/input-gf.c
+++ b/src/input-gf.c
@@ -460,6 +460,8 @@ static void deblank(gf_char_t * sym)
       sym->bbox_max_row -= white_on_top;
       sym->bbox_min_col += white_on_left;
       sym->bbox_max_col -= white_on_right;
+      sym->width = condensed.width;
+      sym->height = condensed.height;
     }
     free(sym->bitmap);
     sym->bitmap = condensed.bitmap;
-- 
2.43.0


From 548a5a51ba76b55bf9cd8446b4c5509b81bca9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:33 +0000
Subject: [PATCH 036/105] fix: read negative numbers in GF files

Where long has 64 bits, the coordinates of a bounding box and the pointer of
a missing character became large positive numbers.
---
 src/input-gf.c | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/input-gf.c b/src/input-gf.c
index e575b9e..4d8a217 100644
--- a/src/input-gf.c
+++ b/src/input-gf.c
@@ -156,6 +156,11 @@ static unsigned long get_four(gf_font_t * font)
   return b;
 }
 
+static long get_signed_four(gf_font_t * font)
+{
+  return (int)get_four(font);
+}
+
 static void move_relative(gf_font_t * font, long count)
 {
   if (fseek(font->input_file, count, SEEK_CUR) < 0) {
@@ -524,10 +529,10 @@ static int gf_open(gf_font_t * font, char *filename)
   font->h_pixels_per_point = get_four(font) / (double)(1L << 16);
   font->v_pixels_per_point = get_four(font) / (double)(1L << 16);
 
-  font->bbox_min_col = (signed long)get_four(font);
-  font->bbox_max_col = (signed long)get_four(font);
-  font->bbox_min_row = (signed long)get_four(font);
-  font->bbox_max_row = (signed long)get_four(font);
+  font->bbox_min_col = get_signed_four(font);
+  font->bbox_max_col = get_signed_four(font);
+  font->bbox_min_row = get_signed_four(font);
+  font->bbox_max_row = get_signed_four(font);
 
   /* We do not know in advance how many character locators exist,
    * but we do place a maximum on it (contrary to what the GF format
@@ -540,7 +545,7 @@ static int gf_open(gf_font_t * font, char *filename)
     c = get_byte(font);
 
     if (b == CHAR_LOC) {
-      font->char_loc[c].h_escapement = (double)get_four(font) / (1 << 16) + .5;
+      font->char_loc[c].h_escapement = (double)get_signed_four(font) / (1 << 16) + .5;
       /* Ignore vertical escapement. */
       (void)get_four(font);
 
@@ -553,7 +558,7 @@ static int gf_open(gf_font_t * font, char *filename)
     }
 
     font->char_loc[c].tfm_width = get_four(font);
-    font->char_loc[c].char_pointer = get_four(font);
+    font->char_loc[c].char_pointer = get_signed_four(font);
   }
   return 1;
 }
@@ -592,7 +597,7 @@ static int gf_get_char(gf_font_t * font, gf_char_t * sym, unsigned char charcode
      * this character is a ``residue'', and the font
      * is probably too big.
      */
-    lcode = (long)get_four(font);
+    lcode = get_signed_four(font);
     if (lcode < 0 || lcode > 255) {
       /* Someone is trying to use a font with character codes
        * that are out of our range. */
@@ -601,14 +606,14 @@ static int gf_get_char(gf_font_t * font, gf_char_t * sym, unsigned char charcode
     }
     sym->charcode = lcode;
 
-    back_pointer = (long)get_four(font);
+    back_pointer = get_signed_four(font);
     if (back_pointer != -1)
       fprintf(stderr, "%s: warning: character %u has a non-null back pointer (to %#lx)\n", font->input_filename, sym->charcode, back_pointer);
 
-    sym->bbox_min_col = (long)get_four(font);
-    sym->bbox_max_col = (long)get_four(font);
-    sym->bbox_min_row = (long)get_four(font);
-    sym->bbox_max_row = (long)get_four(font);
+    sym->bbox_min_col = get_signed_four(font);
+    sym->bbox_max_col = get_signed_four(font);
+    sym->bbox_min_row = get_signed_four(font);
+    sym->bbox_max_row = get_signed_four(font);
     break;
 
   case BOC1:
-- 
2.43.0


From a53f292049f82886e2a19abf8140ad165cf0862e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:33 +0000
Subject: [PATCH 037/105] fix: skip specials within GF characters

Only the code of the special was skipped and its parameters were taken for
painting commands. Specials with a four byte length were not known.
---
 src/input-gf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/input-gf.c b/src/input-gf.c
index 4d8a217..d881802 100644
--- a/src/input-gf.c
+++ b/src/input-gf.c
@@ -206,6 +206,9 @@ static void skip_specials(gf_font_t * font)
     case XXX3:
       move_relative(font, get_three(font));
       continue;
+    case XXX4:
+      move_relative(font, get_four(font));
+      continue;
     case YYY:
       (void)get_four(font);
       continue;
@@ -368,6 +371,7 @@ static void get_character_bitmap(gf_char_t * sym)
       /* do nothing */
 
     } else if ((XXX1 <= c && c <= XXX4) || c == YYY) {
+      move_relative(sym->font, -1);
       skip_specials(sym->font);
 
     } else {
-- 
2.43.0


From d255bc44bee3ee88bc37fa7df96ef715917fa0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:33 +0000
Subject: [PATCH 038/105] fix: do not paint outside of the bounding box of a GF
 character

A damaged file could overwrite memory. The size of the box is checked too,
because a bitmap has 16 bit sides.
---
 src/input-gf.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/input-gf.c b/src/input-gf.c
index d881802..8b26696 100644
--- a/src/input-gf.c
+++ b/src/input-gf.c
@@ -24,6 +24,7 @@
 #include "config.h"
 #endif /* Def: HAVE_CONFIG_H */
 
+#include <limits.h>
 #include <setjmp.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -245,8 +246,9 @@ static void get_character_bitmap(gf_char_t * sym)
   /* We expect these to be >= 0, but if the GF file is improper,
    * they might turn to be negative.
    */
-  int height, width, painting_black = 0;
-  int cur_x, cur_y;             /* This will be the GF position. */
+  long height, width;
+  int painting_black = 0;
+  long cur_x, cur_y;            /* This will be the GF position. */
 
   cur_x = sym->bbox_min_col;
   cur_y = sym->bbox_max_row;
@@ -275,6 +277,11 @@ static void get_character_bitmap(gf_char_t * sym)
     return;
   }
 
+  if (width > USHRT_MAX || height > USHRT_MAX) {
+    fprintf(stderr, "%s: character is too large\n", sym->font->input_filename);
+    longjmp(sym->font->error, 1);
+  }
+
   sym->height = height;
   sym->width = width;
   sym->bitmap = calloc(width, height);
@@ -320,9 +327,14 @@ static void get_character_bitmap(gf_char_t * sym)
        * C coordinates.  That means the x's are the same,
        * but the y's are flipped. */
       if (painting_black) {
-        unsigned matrix_x, matrix_y;
+        long matrix_x, matrix_y;
 
         matrix_y = sym->bbox_max_row - cur_y;
+        matrix_x = cur_x - sym->bbox_min_col;
+        if (length != 0 && (matrix_y >= height || matrix_x + length > width)) {
+          fprintf(stderr, "%s: painting outside of the bounding box\n", sym->font->input_filename);
+          longjmp(sym->font->error, 1);
+        }
         for (; length != 0; length--) {
           matrix_x = cur_x - sym->bbox_min_col;
 
@@ -356,7 +368,7 @@ static void get_character_bitmap(gf_char_t * sym)
         fprintf(stderr, "%s: invalid skip command %u\n", sym->font->input_filename, c);
         longjmp(sym->font->error, 1);
       }
-      cur_y -= rows_to_skip + 1;
+      cur_y -= (long)rows_to_skip + 1;
       cur_x = sym->bbox_min_col;
       painting_black = 0;
 
-- 
2.43.0


From 68bdbc743581ea5250f7565f3765af57bf660500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:20:33 +0000
Subject: [PATCH 039/105] fix: centerline search reads pixels outside the
 bitmap

The neighbour colour was fetched before checking that the neighbour lies
inside the image, so strokes touching the right or bottom border read past
the end of the bitmap.
---
 src/pxl-outline.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pxl-outline.c b/src/pxl-outline.c
index 2482b10..8811ed1 100644
--- a/src/pxl-outline.c
+++ b/src/pxl-outline.c
@@ -218,12 +218,13 @@ bool is_valid_dir(unsigned short row, unsigned short col, direction_type dir, at
 
   at_color c;
 
-  if ((COMPUTE_DELTA(ROW, dir) + row < 0) || (COMPUTE_DELTA(COL, dir) + col < 0))
-	return false;	// Must not call at_bitmap_get_color() with negative row or col.
+  if ((COMPUTE_DELTA(ROW, dir) + row < 0) || (COMPUTE_DELTA(COL, dir) + col < 0)
+      || !AT_BITMAP_VALID_PIXEL(bitmap, COMPUTE_DELTA(ROW, dir) + row, COMPUTE_DELTA(COL, dir) + col))
+	return false;	// Must not call at_bitmap_get_color() outside the bitmap.
 
   at_bitmap_get_color(bitmap, COMPUTE_DELTA(ROW, dir) + row, COMPUTE_DELTA(COL, dir) + col, &c);
   return ((bool) (!is_marked_dir(row, col, dir, marked)
-                  && COMPUTE_DELTA(ROW, dir) + row > 0 && COMPUTE_DELTA(COL, dir) + col > 0 && AT_BITMAP_VALID_PIXEL(bitmap, COMPUTE_DELTA(ROW, dir) + row, COMPUTE_DELTA(COL, dir) + col)
+                  && COMPUTE_DELTA(ROW, dir) + row > 0 && COMPUTE_DELTA(COL, dir) + col > 0
                   && at_bitmap_equal_color(bitmap, row, col, &c)));
 }
 
-- 
2.43.0


From acaa307ce5c667585848e5ae405d118dccead0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:20:33 +0000
Subject: [PATCH 040/105] fix: centerline search fails on images with more than
 32767 rows or columns

The row and column counters were signed shorts, while bitmaps can have up
to 65535 rows and columns.
---
 src/pxl-outline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pxl-outline.c b/src/pxl-outline.c
index 8811ed1..16a67cc 100644
--- a/src/pxl-outline.c
+++ b/src/pxl-outline.c
@@ -233,7 +233,7 @@ find_centerline_pixels(at_bitmap *bitmap, at_color bg_color, at_progress_func no
                        at_testcancel_func test_cancel, void *testcancel_data, at_exception_type *exp)
 {
   pixel_outline_list_type outline_list;
-  signed short row, col;
+  unsigned short row, col;
   at_bitmap *marked = at_bitmap_new(AT_BITMAP_WIDTH(bitmap), AT_BITMAP_HEIGHT(bitmap), 1);
   unsigned int max_progress = AT_BITMAP_HEIGHT(bitmap) * AT_BITMAP_WIDTH(bitmap);
 
-- 
2.43.0


From 90d9fd45b3990ac2e368ed74f9dcd2fdb3a900fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:20:33 +0000
Subject: [PATCH 041/105] fix: colour distance shifts negative values

Shifting a negative value left is undefined. Multiply instead.
---
 src/median.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/median.c b/src/median.c
index 1abf911..27d2ffb 100644
--- a/src/median.c
+++ b/src/median.c
@@ -37,7 +37,7 @@
 #else
 
 /* scale RGB distances by *2,*3,*1 */
-#define R_SCALE  <<1
+#define R_SCALE  *2
 #define G_SCALE  *3
 #define B_SCALE
 #endif
-- 
2.43.0


From 5819ef09be2c26c43175ad0039f77a91869985b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:20:33 +0000
Subject: [PATCH 042/105] fix: quantizing divides by zero when all pixels have
 the background color

The histogram leaves out the background color, so it is empty for such an
image and for one without pixels.
---
 src/median.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/median.c b/src/median.c
index 27d2ffb..f7664d6 100644
--- a/src/median.c
+++ b/src/median.c
@@ -346,6 +346,9 @@ static void compute_color_rgb(QuantizeObj * quantobj, Histogram histogram, boxpt
       }
     }
 
+  if (total == 0)
+    total = 1;                  /* every pixel is ignored, any color will do */
+
   quantobj->cmap[icolor].r = (unsigned char)((Rtotal + (total >> 1)) / total);
   quantobj->cmap[icolor].g = (unsigned char)((Gtotal + (total >> 1)) / total);
   quantobj->cmap[icolor].b = (unsigned char)((Btotal + (total >> 1)) / total);
-- 
2.43.0


From f74afe9e96db6a11da784e002b5af99aea3f9102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:20:33 +0000
Subject: [PATCH 043/105] fix: more than 256 colors overflow the quantizer's
 tables

The color map and the lists derived from it have 256 entries.
---
 src/median.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/median.c b/src/median.c
index f7664d6..625a4ac 100644
--- a/src/median.c
+++ b/src/median.c
@@ -824,7 +824,7 @@ static QuantizeObj *initialize_median_cut(int num_colors)
   XMALLOC(quantobj, sizeof(QuantizeObj));
 
   XMALLOC(quantobj->histogram, sizeof(ColorFreq) * HIST_R_ELEMS * HIST_G_ELEMS * HIST_B_ELEMS);
-  quantobj->desired_number_of_colors = num_colors;
+  quantobj->desired_number_of_colors = num_colors > MAXNUMCOLORS ? MAXNUMCOLORS : num_colors;
 
   return quantobj;
 }
-- 
2.43.0


From d7ae340f1d08aed8848cc65aa0a4544634d434f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:20:46 +0000
Subject: [PATCH 044/105] fix: despeckling handles empty and very large images
 wrongly

An empty image has no defined maximum level, and sizes above 32767 did not
fit the short variables holding them.
---
 src/despeckle.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/despeckle.c b/src/despeckle.c
index f726f7b..5b119a9 100644
--- a/src/despeckle.c
+++ b/src/despeckle.c
@@ -681,7 +681,7 @@ void despeckle( /* in/out */ at_bitmap * bitmap,
                /* exception handling */ at_exception_type * excep)
 {
   int i, planes, max_level;
-  short width, height;
+  int width, height;
   unsigned char *bits;
   double noise_max, adaptive_tightness;
 
@@ -690,7 +690,9 @@ void despeckle( /* in/out */ at_bitmap * bitmap,
   width = AT_BITMAP_WIDTH(bitmap);
   height = AT_BITMAP_HEIGHT(bitmap);
   bits = AT_BITMAP_BITS(bitmap);
-  max_level = (int)(log(width * height) / log(2.0) - 0.5);
+  if (width == 0 || height == 0)
+    return;
+  max_level = (int)(log((double)width * height) / log(2.0) - 0.5);
   if (level > max_level)
     level = max_level;
   adaptive_tightness = (noise_removal * (1.0 + tightness * level) - 1.0) / level;
-- 
2.43.0


From 15f9aca51d9ae96d1411cad54800115e767dc9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:55 +0000
Subject: [PATCH 045/105] fix: curves fitted exactly are subdivided outside of
 the curve

With an error threshold of zero a perfect fit is not accepted, and there is
no worst point to subdivide at. The sentinel was used as an index, or the
same curve was subdivided forever.
---
 src/fit.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/fit.c b/src/fit.c
index 6b9f36a..bb9c00d 100644
--- a/src/fit.c
+++ b/src/fit.c
@@ -944,7 +944,7 @@ static spline_list_type *fit_with_least_squares(curve_type curve, fitting_opts_t
   spline = best_spline;
   error = best_error;
 
-  if (error < fitting_opts->error_threshold && CURVE_CYCLIC(curve) == false) {
+  if ((error < fitting_opts->error_threshold || error == 0.0) && CURVE_CYCLIC(curve) == false) {
     /* The points were fitted with a
        spline.  We end up here whenever a fit is accepted.  We have
        one more job: see if the ``curve'' that was fit should really
@@ -1261,7 +1261,9 @@ static float find_error(curve_type curve, spline_type spline, unsigned *worst_po
 
   *worst_point = CURVE_LENGTH(curve) + 1; /* A sentinel value.  */
 
-  for (this_point = 0; this_point < CURVE_LENGTH(curve); this_point++) {
+  /* The spline begins and ends at the ends of the curve, so the worst
+     point is between them. */
+  for (this_point = 1; this_point + 1 < CURVE_LENGTH(curve); this_point++) {
     at_real_coord curve_point = CURVE_POINT(curve, this_point);
     float t = CURVE_T(curve, this_point);
     at_real_coord spline_point = evaluate_spline(spline, t);
@@ -1274,11 +1276,14 @@ static float find_error(curve_type curve, spline_type spline, unsigned *worst_po
   }
 
   if (*worst_point == CURVE_LENGTH(curve) + 1) {  /* Didn't have any ``worst point''; the error should be zero.  */
-    if (epsilon_equal(total_error, 0.0))
+    *worst_point = CURVE_LENGTH(curve) / 2;
+    if (epsilon_equal(total_error, 0.0)) {
       LOG("  Every point fit perfectly.\n");
-    else {
+      worst_error = 0.0;
+    } else {
       LOG("No worst point found; something is wrong");
       at_exception_warning(exception, "No worst point found; something is wrong");
+      worst_error = FLT_MAX;
     }
   } else {
     if (epsilon_equal(total_error, 0.0))
-- 
2.43.0


From 95f3c1f987e9495bee4050a9400cad9a9cdabac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:22:16 +0000
Subject: [PATCH 046/105] fix: search for a tangent never ends on curves which
 turn back

When the halves around a point cancel each other for every length, the
tangent stays zero and the loop runs through all unsigned values over and
over. Stop after half of the curve has been looked at.
---
 src/fit.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fit.c b/src/fit.c
index bb9c00d..71a3830 100644
--- a/src/fit.c
+++ b/src/fit.c
@@ -34,6 +34,7 @@
 #include "epsilon-equal.h"
 #include "xstd.h"
 #include <math.h>
+#include <limits.h>
 #ifndef FLT_MAX
 #include <limits.h>
 #include <float.h>
@@ -1194,6 +1195,9 @@ static void find_tangent(curve_type curve, bool to_start_point, bool cross_curve
         LOG("(adjacent curve half tangent (%.3f,%.3f,%.3f)) ", tangent2.dx, tangent2.dy, tangent2.dz);
         tangent = Vadd(tangent, tangent2);
       }
+      /* Half of the curve has been tried already.  */
+      if (tangent_surround == UINT_MAX)
+        break;
       tangent_surround--;
 
     }
-- 
2.43.0


From 2855de19219c5eb467481a0cee147978c68857d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:22:16 +0000
Subject: [PATCH 047/105] fix: centerline tracing of an image without pixels

The border of the distance map and the buffer of the previous scan line
were accessed although they do not exist.
---
 src/image-proc.c | 2 +-
 src/thin-image.c | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/image-proc.c b/src/image-proc.c
index d57e810..8dd6bf7 100644
--- a/src/image-proc.c
+++ b/src/image-proc.c
@@ -86,7 +86,7 @@ at_distance_map new_distance_map(at_bitmap *bitmap, unsigned char target_value,
 
   /* If the image is padded then border points are all at most
      one unit away from the nearest target point. */
-  if (padded) {
+  if (padded && w > 0 && h > 0) {
     for (y = 0; y < (signed)h; y++) {
       if (dist.d[y][0] > dist.weight[y][0])
         dist.d[y][0] = dist.weight[y][0];
diff --git a/src/thin-image.c b/src/thin-image.c
index 2e220ec..cc0d718 100644
--- a/src/thin-image.c
+++ b/src/thin-image.c
@@ -115,6 +115,9 @@ void thin_image(at_bitmap * image, const at_color * bg, at_exception_type * exp)
   if (bg)
     background = *bg;
 
+  if (width == 0 || height == 0)
+    return;                     /* nothing to thin */
+
   bm.height = image->height;
   bm.width = image->width;
   bm.np = image->np;
-- 
2.43.0


From 1bf16f47f234c01ba91b6b1ee8fe0334c5eca992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:28:01 +0000
Subject: [PATCH 048/105] fix: despeckling overflows the stack on large winding
 features

The blobs were traversed recursively, one level per run of pixels, so a
narrow winding line in an image of less than a megapixel exhausted the
stack. Keep the places to visit in an allocated stack, in the same order.
---
 src/despeckle.c | 176 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 119 insertions(+), 57 deletions(-)

diff --git a/src/despeckle.c b/src/despeckle.c
index 5b119a9..59fdbbd 100644
--- a/src/despeckle.c
+++ b/src/despeckle.c
@@ -73,6 +73,52 @@ static int calc_error_8(unsigned char *color1, unsigned char *color2)
   return the_error;
 }
 
+/* The places a traversal of a blob has still to visit. A blob can be as big
+   as the whole image, so it is not traversed recursively: the functions below
+   treat one run of pixels and push the places above and below it. */
+
+typedef struct {
+  int *data;
+  size_t length;
+  size_t size;
+} place_stack;
+
+/* Push the places above and below the run of pixels from x1 to x2, so that
+   they are popped from left to right. */
+
+static void push_places( /* in/out */ place_stack *todo,
+                        /* in */ int x1,
+                        /* in */ int x2,
+                        /* in */ int y)
+{
+  size_t needed = todo->length + 4 * (size_t)(x2 - x1 + 1);
+  int x;
+
+  if (needed > todo->size) {
+    todo->size = 2 * needed;
+    XREALLOC(todo->data, todo->size * sizeof(int));
+  }
+  for (x = x2; x >= x1; x--) {
+    todo->data[todo->length++] = x;
+    todo->data[todo->length++] = y + 1;
+    todo->data[todo->length++] = x;
+    todo->data[todo->length++] = y - 1;
+  }
+}
+
+/* Pop the next place. Returns false if there is none. */
+
+static bool pop_place( /* in/out */ place_stack *todo,
+                      /* out */ int *x,
+                      /* out */ int *y)
+{
+  if (todo->length == 0)
+    return false;
+  *y = todo->data[--todo->length];
+  *x = todo->data[--todo->length];
+  return true;
+}
+
 /* Find Size - Find the number of adjacent pixels of the same color
  *
  * Input Parameters:
@@ -92,7 +138,8 @@ static int find_size( /* in */ unsigned char *index,
                      /* in */ int width,
                      /* in */ int height,
                      /* in */ unsigned char *bitmap,
-                     /* in/out */ unsigned char *mask)
+                     /* in/out */ unsigned char *mask,
+                     /* in/out */ place_stack *todo)
 {
   int count;
   int x1, x2;
@@ -110,10 +157,7 @@ static int find_size( /* in */ unsigned char *index,
   for (x = x1; x <= x2; x++)
     mask[y * width + x] = 1;
 
-  for (x = x1; x <= x2; x++) {
-    count += find_size(index, x, y - 1, width, height, bitmap, mask);
-    count += find_size(index, x, y + 1, width, height, bitmap, mask);
-  }
+  push_places(todo, x1, x2, y);
 
   return count;
 }
@@ -137,7 +181,8 @@ static int find_size_8( /* in */ unsigned char *index,
                        /* in */ int width,
                        /* in */ int height,
                        /* in */ unsigned char *bitmap,
-                       /* in/out */ unsigned char *mask)
+                       /* in/out */ unsigned char *mask,
+                       /* in/out */ place_stack *todo)
 {
   int count;
   int x1, x2;
@@ -155,10 +200,7 @@ static int find_size_8( /* in */ unsigned char *index,
   for (x = x1; x <= x2; x++)
     mask[y * width + x] = 1;
 
-  for (x = x1; x <= x2; x++) {
-    count += find_size_8(index, x, y - 1, width, height, bitmap, mask);
-    count += find_size_8(index, x, y + 1, width, height, bitmap, mask);
-  }
+  push_places(todo, x1, x2, y);
 
   return count;
 }
@@ -187,7 +229,8 @@ static void find_most_similar_neighbor( /* in */ unsigned char *index,
                                        /* in */ int width,
                                        /* in */ int height,
                                        /* in */ unsigned char *bitmap,
-                                       /* in/out */ unsigned char *mask)
+                                       /* in/out */ unsigned char *mask,
+                                       /* in/out */ place_stack *todo)
 {
   int x1, x2;
   int temp_error;
@@ -238,10 +281,7 @@ static void find_most_similar_neighbor( /* in */ unsigned char *index,
   for (x = x1; x <= x2; x++)
     mask[y * width + x] = 2;
 
-  for (x = x1; x <= x2; x++) {
-    find_most_similar_neighbor(index, closest_index, error_amt, x, y - 1, width, height, bitmap, mask);
-    find_most_similar_neighbor(index, closest_index, error_amt, x, y + 1, width, height, bitmap, mask);
-  }
+  push_places(todo, x1, x2, y);
 }
 
 /* Find Most Similar Neighbor - Given a position in an 8 bit bitmap and a color
@@ -268,7 +308,8 @@ static void find_most_similar_neighbor_8( /* in */ unsigned char *index,
                                          /* in */ int width,
                                          /* in */ int height,
                                          /* in */ unsigned char *bitmap,
-                                         /* in/out */ unsigned char *mask)
+                                         /* in/out */ unsigned char *mask,
+                                         /* in/out */ place_stack *todo)
 {
   int x1, x2;
   int temp_error;
@@ -319,10 +360,7 @@ static void find_most_similar_neighbor_8( /* in */ unsigned char *index,
   for (x = x1; x <= x2; x++)
     mask[y * width + x] = 2;
 
-  for (x = x1; x <= x2; x++) {
-    find_most_similar_neighbor_8(index, closest_index, error_amt, x, y - 1, width, height, bitmap, mask);
-    find_most_similar_neighbor_8(index, closest_index, error_amt, x, y + 1, width, height, bitmap, mask);
-  }
+  push_places(todo, x1, x2, y);
 }
 
 /* Fill - change the color of a blob
@@ -340,7 +378,8 @@ static void fill( /* in */ unsigned char *to_index,
                  /* in */ int width,
                  /* in */ int height,
                  /* in/out */ unsigned char *bitmap,
-                 /* in/out */ unsigned char *mask)
+                 /* in/out */ unsigned char *mask,
+                 /* in/out */ place_stack *todo)
 {
   int x1, x2;
 
@@ -361,10 +400,7 @@ static void fill( /* in */ unsigned char *to_index,
     mask[y * width + x] = 3;
   }
 
-  for (x = x1; x <= x2; x++) {
-    fill(to_index, x, y - 1, width, height, bitmap, mask);
-    fill(to_index, x, y + 1, width, height, bitmap, mask);
-  }
+  push_places(todo, x1, x2, y);
 }
 
 /* Fill - change the color of a blob
@@ -382,7 +418,8 @@ static void fill_8( /* in */ unsigned char *to_index,
                    /* in */ int width,
                    /* in */ int height,
                    /* in/out */ unsigned char *bitmap,
-                   /* in/out */ unsigned char *mask)
+                   /* in/out */ unsigned char *mask,
+                   /* in/out */ place_stack *todo)
 {
   int x1, x2;
 
@@ -401,10 +438,7 @@ static void fill_8( /* in */ unsigned char *to_index,
     mask[y * width + x] = 3;
   }
 
-  for (x = x1; x <= x2; x++) {
-    fill_8(to_index, x, y - 1, width, height, bitmap, mask);
-    fill_8(to_index, x, y + 1, width, height, bitmap, mask);
-  }
+  push_places(todo, x1, x2, y);
 }
 
 /* Ignore - blob is big enough, mask it off
@@ -417,7 +451,8 @@ static void ignore( /* in */ int x,
                    /* in */ int y,
                    /* in */ int width,
                    /* in */ int height,
-                   /* in/out */ unsigned char *mask)
+                   /* in/out */ unsigned char *mask,
+                   /* in/out */ place_stack *todo)
 {
   int x1, x2;
 
@@ -434,10 +469,7 @@ static void ignore( /* in */ int x,
   for (x = x1; x <= x2; x++)
     mask[y * width + x] = 3;
 
-  for (x = x1; x <= x2; x++) {
-    ignore(x, y - 1, width, height, mask);
-    ignore(x, y + 1, width, height, mask);
-  }
+  push_places(todo, x1, x2, y);
 }
 
 /* Recolor - conditionally change a feature's color to the closest color of all
@@ -464,9 +496,11 @@ static bool recolor( /* in */ double adaptive_tightness,
                         /* in */ int width,
                         /* in */ int height,
                         /* in/out */ unsigned char *bitmap,
-                        /* in/out */ unsigned char *mask)
+                        /* in/out */ unsigned char *mask,
+                        /* in/out */ place_stack *todo)
 {
   unsigned char *index, *to_index;
+  int px, py;
   int error_amt, max_error;
 
   index = &bitmap[3 * (y * width + x)];
@@ -474,7 +508,9 @@ static bool recolor( /* in */ double adaptive_tightness,
   error_amt = 0;
   max_error = (int)(3.0 * adaptive_tightness * adaptive_tightness);
 
-  find_most_similar_neighbor(index, &to_index, &error_amt, x, y, width, height, bitmap, mask);
+  find_most_similar_neighbor(index, &to_index, &error_amt, x, y, width, height, bitmap, mask, todo);
+  while (pop_place(todo, &px, &py))
+    find_most_similar_neighbor(index, &to_index, &error_amt, px, py, width, height, bitmap, mask, todo);
 
   /* This condition only fails if the bitmap is all the same color */
   if (to_index != NULL) {
@@ -484,10 +520,14 @@ static bool recolor( /* in */ double adaptive_tightness,
      * color from turning into its complement.
      */
 
-    if (calc_error(index, to_index) > max_error)
-      fill(index, x, y, width, height, bitmap, mask);
-    else {
-      fill(to_index, x, y, width, height, bitmap, mask);
+    if (calc_error(index, to_index) > max_error) {
+      fill(index, x, y, width, height, bitmap, mask, todo);
+      while (pop_place(todo, &px, &py))
+        fill(index, px, py, width, height, bitmap, mask, todo);
+    } else {
+      fill(to_index, x, y, width, height, bitmap, mask, todo);
+      while (pop_place(todo, &px, &py))
+        fill(to_index, px, py, width, height, bitmap, mask, todo);
 
       return true;
     }
@@ -520,16 +560,20 @@ static bool recolor_8( /* in */ double adaptive_tightness,
                           /* in */ int width,
                           /* in */ int height,
                           /* in/out */ unsigned char *bitmap,
-                          /* in/out */ unsigned char *mask)
+                          /* in/out */ unsigned char *mask,
+                          /* in/out */ place_stack *todo)
 {
   unsigned char *index, *to_index;
+  int px, py;
   int error_amt;
 
   index = &bitmap[(y * width + x)];
   to_index = NULL;
   error_amt = 0;
 
-  find_most_similar_neighbor_8(index, &to_index, &error_amt, x, y, width, height, bitmap, mask);
+  find_most_similar_neighbor_8(index, &to_index, &error_amt, x, y, width, height, bitmap, mask, todo);
+  while (pop_place(todo, &px, &py))
+    find_most_similar_neighbor_8(index, &to_index, &error_amt, px, py, width, height, bitmap, mask, todo);
 
   /* This condition only fails if the bitmap is all the same color */
   if (to_index != NULL) {
@@ -539,10 +583,14 @@ static bool recolor_8( /* in */ double adaptive_tightness,
      * color from turning into its complement.
      */
 
-    if (calc_error_8(index, to_index) > adaptive_tightness)
-      fill_8(index, x, y, width, height, bitmap, mask);
-    else {
-      fill_8(to_index, x, y, width, height, bitmap, mask);
+    if (calc_error_8(index, to_index) > adaptive_tightness) {
+      fill_8(index, x, y, width, height, bitmap, mask, todo);
+      while (pop_place(todo, &px, &py))
+        fill_8(index, px, py, width, height, bitmap, mask, todo);
+    } else {
+      fill_8(to_index, x, y, width, height, bitmap, mask, todo);
+      while (pop_place(todo, &px, &py))
+        fill_8(to_index, px, py, width, height, bitmap, mask, todo);
 
       return true;
     }
@@ -570,6 +618,7 @@ static void despeckle_iteration( /* in */ int level,
                                 /* in/out */ unsigned char *bitmap)
 {
   unsigned char *mask;
+  place_stack todo = { NULL, 0, 0 };
   int x, y;
   int current_size;
   int tightness;
@@ -582,21 +631,27 @@ static void despeckle_iteration( /* in */ int level,
   for (y = 0; y < height; y++) {
     for (x = 0; x < width; x++) {
       if (mask[y * width + x] == 0) {
-        int size;
+        int size, px, py;
 
-        size = find_size(&bitmap[3 * (y * width + x)], x, y, width, height, bitmap, mask);
+        size = find_size(&bitmap[3 * (y * width + x)], x, y, width, height, bitmap, mask, &todo);
+        while (pop_place(&todo, &px, &py))
+          size += find_size(&bitmap[3 * (y * width + x)], px, py, width, height, bitmap, mask, &todo);
 
         assert(size > 0);
 
         if (size < current_size) {
-          if (recolor(tightness, x, y, width, height, bitmap, mask))
+          if (recolor(tightness, x, y, width, height, bitmap, mask, &todo))
             x--;
-        } else
-          ignore(x, y, width, height, mask);
+        } else {
+          ignore(x, y, width, height, mask, &todo);
+          while (pop_place(&todo, &px, &py))
+            ignore(px, py, width, height, mask, &todo);
+        }
       }
     }
   }
 
+  free(todo.data);
   free(mask);
 }
 
@@ -619,6 +674,7 @@ static void despeckle_iteration_8( /* in */ int level,
                                   /* in/out */ unsigned char *bitmap)
 {
   unsigned char *mask;
+  place_stack todo = { NULL, 0, 0 };
   int x, y;
   int current_size;
   int tightness;
@@ -631,21 +687,27 @@ static void despeckle_iteration_8( /* in */ int level,
   for (y = 0; y < height; y++) {
     for (x = 0; x < width; x++) {
       if (mask[y * width + x] == 0) {
-        int size;
+        int size, px, py;
 
-        size = find_size_8(&bitmap[(y * width + x)], x, y, width, height, bitmap, mask);
+        size = find_size_8(&bitmap[(y * width + x)], x, y, width, height, bitmap, mask, &todo);
+        while (pop_place(&todo, &px, &py))
+          size += find_size_8(&bitmap[(y * width + x)], px, py, width, height, bitmap, mask, &todo);
 
         assert(size > 0);
 
         if (size < current_size) {
-          if (recolor_8(tightness, x, y, width, height, bitmap, mask))
+          if (recolor_8(tightness, x, y, width, height, bitmap, mask, &todo))
             x--;
-        } else
-          ignore(x, y, width, height, mask);
+        } else {
+          ignore(x, y, width, height, mask, &todo);
+          while (pop_place(&todo, &px, &py))
+            ignore(px, py, width, height, mask, &todo);
+        }
       }
     }
   }
 
+  free(todo.data);
   free(mask);
 }
 
-- 
2.43.0


From 0710599b00823b16d916f733a0a6ba0af9d1abe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:57:48 +0000
Subject: [PATCH 049/105] fix: follow centerlines along the first row and
 column

Neighbours in row 0 and column 0 were never accepted, so that strokes
along the top and the left border of the image were lost.
---
 src/pxl-outline.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pxl-outline.c b/src/pxl-outline.c
index 16a67cc..e55bce3 100644
--- a/src/pxl-outline.c
+++ b/src/pxl-outline.c
@@ -224,7 +224,6 @@ bool is_valid_dir(unsigned short row, unsigned short col, direction_type dir, at
 
   at_bitmap_get_color(bitmap, COMPUTE_DELTA(ROW, dir) + row, COMPUTE_DELTA(COL, dir) + col, &c);
   return ((bool) (!is_marked_dir(row, col, dir, marked)
-                  && COMPUTE_DELTA(ROW, dir) + row > 0 && COMPUTE_DELTA(COL, dir) + col > 0
                   && at_bitmap_equal_color(bitmap, row, col, &c)));
 }
 
-- 
2.43.0


From 3f67c6f8f66c15c103d52c6cfaf95fa4683a1f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:57:48 +0000
Subject: [PATCH 050/105] fix: thinning keeps the background colour of an
 earlier trace

The background was a static variable which was only set when a
background colour was given.  A later centerline trace without one
deleted pixels by painting them in the colour of the earlier trace, and
traces in several threads disturbed each other.
---
 src/thin-image.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/thin-image.c b/src/thin-image.c
index cc0d718..0622973 100644
--- a/src/thin-image.c
+++ b/src/thin-image.c
@@ -36,8 +36,8 @@
 
 typedef unsigned char Pixel[3]; /* RGB pixel data type */
 
-void thin3(at_bitmap * image, Pixel colour);
-void thin1(at_bitmap * image, unsigned char colour);
+void thin3(at_bitmap * image, Pixel colour, at_color background);
+void thin1(at_bitmap * image, unsigned char colour, at_color background);
 
 /* -------------------------------- ThinImage - Thin binary image. --------------------------- *
  *
@@ -99,8 +99,6 @@ static unsigned char todelete[512] = {
   1, 0, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1
 };
 
-static at_color background = { 0xff, 0xff, 0xff };
-
 void thin_image(at_bitmap * image, const at_color * bg, at_exception_type * exp)
 {
   /* This is nasty as we need to call thin once for each
@@ -110,6 +108,7 @@ void thin_image(at_bitmap * image, const at_color * bg, at_exception_type * exp)
    * trades time for pathological case memory.....*/
   long m, n, num_pixels;
   at_bitmap bm;
+  at_color background = { 0xff, 0xff, 0xff };
   unsigned int spp = AT_BITMAP_PLANES(image), width = AT_BITMAP_WIDTH(image), height = AT_BITMAP_HEIGHT(image);
 
   if (bg)
@@ -146,7 +145,7 @@ void thin_image(at_bitmap * image, const at_color * bg, at_exception_type * exp)
             if (PIXEL_EQUAL(ptr[m], p))
               PIXEL_SET(ptr[m], bg_color);
           }
-          thin3(image, p);
+          thin3(image, p, background);
         }
       }
       break;
@@ -169,7 +168,7 @@ void thin_image(at_bitmap * image, const at_color * bg, at_exception_type * exp)
           for (m = n - 1; m >= 0L; --m)
             if (ptr[m] == c)
               ptr[m] = bg_color;
-          thin1(image, c);
+          thin1(image, c, background);
         }
       }
       break;
@@ -186,7 +185,7 @@ cleanup:
   free(bm.bitmap);
 }
 
-void thin3(at_bitmap * image, Pixel colour)
+void thin3(at_bitmap * image, Pixel colour, at_color background)
 {
   Pixel *ptr, *y_ptr, *y1_ptr;
   Pixel bg_color;
@@ -271,7 +270,7 @@ void thin3(at_bitmap * image, Pixel colour)
   free(qb);
 }
 
-void thin1(at_bitmap * image, unsigned char colour)
+void thin1(at_bitmap * image, unsigned char colour, at_color background)
 {
   unsigned char *ptr, *y_ptr, *y1_ptr;
   unsigned char bg_color;
-- 
2.43.0


From f2df37fad0fc9631f062f80cad4a85c5dffd7e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:57 +0000
Subject: [PATCH 051/105] fix: reducing colors turns foreground into background

The background color was left out when the colors were selected, so
that the entry nearest to it belonged to some other color and all pixels
of that color were painted in the background color.  Tracing a black and
white image with a white background and two colors gave no outline.
---
 src/median.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/median.c b/src/median.c
index 625a4ac..88c2e48 100644
--- a/src/median.c
+++ b/src/median.c
@@ -844,7 +844,9 @@ void quantize(at_bitmap * image, long ncolors, const at_color * bgColor, Quantiz
   if (iQuant) {
     if (*iQuant == NULL) {
       quantobj = initialize_median_cut(ncolors);
-      median_cut_pass1_rgb(quantobj, image, bgColor);
+      /* The background takes part, otherwise the nearest of the other
+         colors would be given up for it. */
+      median_cut_pass1_rgb(quantobj, image, NULL);
       *iQuant = quantobj;
     } else
       quantobj = *iQuant;
-- 
2.43.0


From 82cc101a84b4f659c00de97d52bcc0bba462ce9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:35 +0000
Subject: [PATCH 052/105] fix: a trace cancelled once returns an incomplete
 result

The scan and the fit stop when the cancel callback returns true, but the
callers asked the callback again to find out.  A callback which reported
the request only once got splines that lacked the rest of the image.
---
 src/autotrace.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/autotrace.c b/src/autotrace.c
index 6f9c1c5..dc1061b 100644
--- a/src/autotrace.c
+++ b/src/autotrace.c
@@ -229,6 +229,23 @@ at_splines_type *at_splines_new(at_bitmap * bitmap, at_fitting_opts_type * opts,
   return at_splines_new_full(bitmap, opts, msg_func, msg_data, NULL, NULL, NULL, NULL);
 }
 
+/* Once the client has asked for cancellation, the trace is canceled,
+   even if the client does not repeat the request at the next poll. */
+typedef struct {
+  at_testcancel_func func;
+  void *data;
+  bool canceled;
+} cancel_request;
+
+static bool test_cancel_request(void *data)
+{
+  cancel_request *request = (cancel_request *) data;
+
+  if (!request->canceled && request->func(request->data))
+    request->canceled = true;
+  return request->canceled;
+}
+
 /* at_splines_new_full modify its argument: BITMAP
    when despeckle, quantize and/or thin_image are invoked. */
 at_splines_type *
@@ -242,6 +259,12 @@ at_splines_new_full(at_bitmap *bitmap, at_fitting_opts_type *opts, at_msg_func m
   QuantizeObj *myQuant = NULL;  /* curently not used */
   at_exception_type exp = at_exception_new(msg_func, msg_data);
   at_distance_map dist_map, *dist = NULL;
+  cancel_request request = { test_cancel, testcancel_data, false };
+
+  if (test_cancel) {
+    test_cancel = test_cancel_request;
+    testcancel_data = &request;
+  }
 
 #define CANCELP (test_cancel && test_cancel(testcancel_data))
 #define FATALP  (at_exception_got_fatal(&exp))
-- 
2.43.0


From a2a2eeafc23cc110fcaf9c94581ddd1f26c05bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:35 +0000
Subject: [PATCH 053/105] fix: outlines leak when a trace is cancelled after
 the scan

---
 src/autotrace.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/autotrace.c b/src/autotrace.c
index dc1061b..ec214e4 100644
--- a/src/autotrace.c
+++ b/src/autotrace.c
@@ -270,7 +270,6 @@ at_splines_new_full(at_bitmap *bitmap, at_fitting_opts_type *opts, at_msg_func m
 #define FATALP  (at_exception_got_fatal(&exp))
 #define FREE_SPLINE() do {if (splines) {at_splines_free(splines); splines = NULL;}} while(0)
 
-#define CANCEL_THEN_CLEANUP_DIST() if (CANCELP) goto cleanup_dist;
 #define CANCEL_THEN_CLEANUP_PIXELS() if (CANCELP) {FREE_SPLINE(); goto cleanup_pixels;}
 
 #define FATAL_THEN_RETURN() if (FATALP) return splines;
@@ -317,7 +316,7 @@ at_splines_new_full(at_bitmap *bitmap, at_fitting_opts_type *opts, at_msg_func m
   } else
     pixels = find_outline_pixels(bitmap, opts->background_color, notify_progress, progress_data, test_cancel, testcancel_data, &exp);
   FATAL_THEN_CLEANUP_DIST();
-  CANCEL_THEN_CLEANUP_DIST();
+  CANCEL_THEN_CLEANUP_PIXELS();
 
   XMALLOC(splines, sizeof(at_splines_type));
   *splines = fitted_splines(pixels, opts, dist, image_header.width, image_header.height, &exp, notify_progress, progress_data, test_cancel, testcancel_data);
@@ -336,7 +335,6 @@ cleanup_dist:
 #undef CANCELP
 #undef FATALP
 #undef FREE_SPLINE
-#undef CANCEL_THEN_CLEANUP_DIST
 #undef CANCEL_THEN_CLEANUP_PIXELS
 
 #undef FATAL_THEN_RETURN
-- 
2.43.0


From 3697f4475e29c9562421117732b758e3b46390e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:46 +0000
Subject: [PATCH 054/105] fix: centerline tracing cannot be cancelled during
 the scan

The cancel callback was asked only after the last row.
---
 src/pxl-outline.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pxl-outline.c b/src/pxl-outline.c
index e55bce3..07e9201 100644
--- a/src/pxl-outline.c
+++ b/src/pxl-outline.c
@@ -354,11 +354,11 @@ find_centerline_pixels(at_bitmap *bitmap, at_color bg_color, at_progress_func no
       if (O_LENGTH(outline) == 1)
         free_pixel_outline(&outline);
     }
-  }
-  if (test_cancel && test_cancel(testcancel_data)) {
-    if (O_LIST_LENGTH(outline_list) != 0)
-      free_pixel_outline_list(&outline_list);
-    goto cleanup;
+    if (test_cancel && test_cancel(testcancel_data)) {
+      if (O_LIST_LENGTH(outline_list) != 0)
+        free_pixel_outline_list(&outline_list);
+      goto cleanup;
+    }
   }
 cleanup:
   at_bitmap_free(marked);
-- 
2.43.0


From feaa470ba5ced37f2c27c8691b41650e9fd98410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:46 +0000
Subject: [PATCH 055/105] fix: progress goes back between the phases of a trace

The scan of a larger image ends beyond the 0.333 where the fit began,
and the same holds for the fit of many outlines and 0.666.
---
 src/curve.c | 2 +-
 src/fit.c   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curve.c b/src/curve.c
index 7828c6a..2f3b131 100644
--- a/src/curve.c
+++ b/src/curve.c
@@ -224,7 +224,7 @@ void free_curve_list_array(curve_list_array_type *curve_list_array, at_progress_
 
   for (this_list = 0; this_list < CURVE_LIST_ARRAY_LENGTH(*curve_list_array); this_list++) {
     if (notify_progress)
-      notify_progress(((float) this_list) / (CURVE_LIST_ARRAY_LENGTH(*curve_list_array) * (float) 3.0) + (float) 0.666,
+      notify_progress(((float) this_list) / (CURVE_LIST_ARRAY_LENGTH(*curve_list_array) * (float) 3.0) + (float) (2.0 / 3.0),
                       client_data);
     free_curve_list(&CURVE_LIST_ARRAY_ELT(*curve_list_array, this_list));
   }
diff --git a/src/fit.c b/src/fit.c
index 71a3830..1a25d74 100644
--- a/src/fit.c
+++ b/src/fit.c
@@ -142,7 +142,7 @@ spline_list_array_type fitted_splines(pixel_outline_list_type pixel_outline_list
     curve_list_type curves = CURVE_LIST_ARRAY_ELT(curve_array, this_list);
 
     if (notify_progress)
-      notify_progress((((float) this_list) / ((float) CURVE_LIST_ARRAY_LENGTH(curve_array) * (float) 3.0) + (float) 0.333), progress_data);
+      notify_progress((((float) this_list) / ((float) CURVE_LIST_ARRAY_LENGTH(curve_array) * (float) 3.0) + (float) (1.0 / 3.0)), progress_data);
     if (test_cancel && test_cancel(testcancel_data))
       goto cleanup;
 
-- 
2.43.0


From 2dc16243a1e0963acfc4228ef6127ffe9d6f23b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:07:30 +0000
Subject: [PATCH 056/105] fix: freeing splines leaves the array of lists
 allocated

---
 src/spline.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spline.c b/src/spline.c
index 191caa3..cfb2c00 100644
--- a/src/spline.c
+++ b/src/spline.c
@@ -147,6 +147,7 @@ void free_spline_list_array(spline_list_array_type * spline_list_array)
   for (this_list = 0; this_list < SPLINE_LIST_ARRAY_LENGTH(*spline_list_array); this_list++)
     free_spline_list(SPLINE_LIST_ARRAY_ELT(*spline_list_array, this_list));
 
+  free(SPLINE_LIST_ARRAY_DATA(*spline_list_array));
 }
 
 /* Append the spline S to the list SPLINE_LIST_ARRAY.  */
-- 
2.43.0


From 851be2d5927030ce2e1c9702cac812e4345463c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:19 +0000
Subject: [PATCH 057/105] fix: svg: do not end a path when there are no splines

The path was closed from an uninitialised list when the shape is empty.
---
 src/output-svg.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/output-svg.c b/src/output-svg.c
index f1d7780..857a112 100644
--- a/src/output-svg.c
+++ b/src/output-svg.c
@@ -58,10 +58,11 @@ static void out_splines(FILE * file, spline_list_array_type shape, int height)
       last_color = list.color;
     }
   }
-  if (!(shape.centerline || list.open))
-    fputs("z", file);
-  if (SPLINE_LIST_ARRAY_LENGTH(shape) > 0)
+  if (SPLINE_LIST_ARRAY_LENGTH(shape) > 0) {
+    if (!(shape.centerline || list.open))
+      fputs("z", file);
     fputs("\"/>\n", file);
+  }
 }
 
 int output_svg_writer(FILE * file, char * name, int llx, int lly, int urx, int ury, at_output_opts_type * opts, spline_list_array_type shape, at_msg_func msg_func, void * msg_data, void * user_data)
-- 
2.43.0


From 4c037dbea5f3ed1b6399b16c1072cc02dc54a540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:18 +0000
Subject: [PATCH 058/105] fix: fig: stop when the colour table is full

The writer reported too many colours but went on adding entries past
the end of its tables.
---
 src/output-fig.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/output-fig.c b/src/output-fig.c
index 38d777d..1e70d6f 100644
--- a/src/output-fig.c
+++ b/src/output-fig.c
@@ -161,6 +161,10 @@ static void out_fig_splines(FILE * file, spline_list_array_type shape, int llx,
     spline_list_type list = SPLINE_LIST_ARRAY_ELT(shape, this_list);
     at_color curr_color = (list.clockwise && shape.background_color != NULL) ? *(shape.background_color) : list.color;
     spline_colours[this_list] = get_fig_colour(curr_color, exp);
+    if (at_exception_got_fatal(exp)) {
+      free(spline_colours);
+      return;
+    }
   }
   /* Output colours */
   if (LAST_FIG_COLOUR > 32) {
-- 
2.43.0


From c4e5ff3a2314cd2739b2da062c0ad4bfee3853cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:19 +0000
Subject: [PATCH 059/105] fix: fig: start every file with an empty colour table
 and depth box

A second file written by the same process repeated the colours of the
first one, with colour numbers the lookup no longer knew, and its depths
depended on the last object of the first file.
---
 src/output-fig.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/output-fig.c b/src/output-fig.c
index 1e70d6f..e6e39f1 100644
--- a/src/output-fig.c
+++ b/src/output-fig.c
@@ -173,6 +173,8 @@ static void out_fig_splines(FILE * file, spline_list_array_type shape, int llx,
     }
   }
 /*	Each "spline list" in the array appears to be a group of splines */
+  glo_bbox_flag = 0;
+  loc_bbox_flag = 0;
   fig_depth = SPLINE_LIST_ARRAY_LENGTH(shape) + 20;
   if (fig_depth > 999) {
     fig_depth = 999;
@@ -377,6 +379,7 @@ static void fig_col_init(void)
     fig_hash[i].colour = 0;
     fig_colour_map[i].alternate = 0;
   }
+  LAST_FIG_COLOUR = 32;
 
   /*  populate the first 8 primary colours  */
   /* Black */
-- 
2.43.0


From cd97071719cbddf3bc23ac33ad23a22e711d7e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:19 +0000
Subject: [PATCH 060/105] fix: fig: paint holes in the background colour, not
 always in white

The background colour was looked up for clockwise lists but then
replaced by white.
---
 src/output-fig.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/output-fig.c b/src/output-fig.c
index e6e39f1..a128798 100644
--- a/src/output-fig.c
+++ b/src/output-fig.c
@@ -194,11 +194,7 @@ static void out_fig_splines(FILE * file, spline_list_array_type shape, int llx,
     XMALLOC(pointy, maxlength * sizeof(int));
     XMALLOC(contrl, maxlength * sizeof(float));
 
-    if (list.clockwise) {
-      fig_colour = FIG_WHITE;
-    } else {
-      fig_colour = spline_colours[this_list];
-    }
+    fig_colour = spline_colours[this_list];
 
     fig_spline_close = 5;
 
-- 
2.43.0


From bf890c8f51624b6ebee9c4c08bba613ecc54b5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:47 +0000
Subject: [PATCH 061/105] fix: emf: convert negative coordinates through a
 signed type

Control points may lie outside the frame, and converting a negative
floating point number to an unsigned type is undefined.
---
 src/output-emf.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/output-emf.c b/src/output-emf.c
index 8cc13ee..68991df 100644
--- a/src/output-emf.c
+++ b/src/output-emf.c
@@ -68,10 +68,10 @@
 #define MAKE_COLREF(r,g,b) (((r) & 0x0FF) | (((g) & 0x0FF) << 8) | (((b) & 0x0FF) << 16))
 #define MK_PEN(n) ((n) * 2 + 1)
 #define MK_BRUSH(n) ((n) * 2 + 2)
-#define X_FLOAT_TO_UI32(num) ((uint32_t)(num * SCALE))
-#define X_FLOAT_TO_UI16(num) ((uint16_t)(num * SCALE))
-#define Y_FLOAT_TO_UI32(num) ((uint32_t)(y_offset - num * SCALE))
-#define Y_FLOAT_TO_UI16(num) ((uint16_t)(y_offset - num * SCALE))
+#define X_FLOAT_TO_UI32(num) ((uint32_t)(int32_t)(num * SCALE))
+#define X_FLOAT_TO_UI16(num) ((uint16_t)(int32_t)(num * SCALE))
+#define Y_FLOAT_TO_UI32(num) ((uint32_t)(int32_t)(y_offset - num * SCALE))
+#define Y_FLOAT_TO_UI16(num) ((uint16_t)(int32_t)(y_offset - num * SCALE))
 
 /* color list type */
 
-- 
2.43.0


From bdc47f571947b3705b7c8f4cddcdea79356cfb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:47 +0000
Subject: [PATCH 062/105] fix: emf: delete no pen or brush when there are no
 splines

The object number was never set in that case, so the file deleted an
arbitrary object.
---
 src/output-emf.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/output-emf.c b/src/output-emf.c
index 68991df..4f4ca28 100644
--- a/src/output-emf.c
+++ b/src/output-emf.c
@@ -843,14 +843,16 @@ static void GetEmfStats(EMFStats *stats, char *name, spline_list_array_type shap
   }
 
   // cleanup Pen and Brush
-  if (shape.centerline) {
+  if (SPLINE_LIST_ARRAY_LENGTH(shape) > 0) {
+    if (shape.centerline) {
+      nrecords++;
+      filesize += WriteDeleteObject(NULL, 0);
+    }
+
     nrecords++;
     filesize += WriteDeleteObject(NULL, 0);
   }
 
-  nrecords++;
-  filesize += WriteDeleteObject(NULL, 0);
-
   // emf stats :: header + footer
   nrecords += 2;
   filesize += WriteEndOfMetafile(NULL) + WriteHeader(NULL, name, 0, 0, 0, 0, 0);
@@ -962,9 +964,11 @@ static void OutputEmf(FILE *fdes, EMFStats *stats, char *name, int width, int he
   }
 
   //cleanup DC
-  if (shape.centerline)
-    WriteDeleteObject(fdes, MK_PEN(last_index));
-  WriteDeleteObject(fdes, MK_BRUSH(last_index));
+  if (SPLINE_LIST_ARRAY_LENGTH(shape) > 0) {
+    if (shape.centerline)
+      WriteDeleteObject(fdes, MK_PEN(last_index));
+    WriteDeleteObject(fdes, MK_BRUSH(last_index));
+  }
 
   //output EndOfMetafile
   WriteEndOfMetafile(fdes);
-- 
2.43.0


From 4c8e40af0c20b472a09cd53051287bb5a081e3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:48 +0000
Subject: [PATCH 063/105] fix: emf: paint holes in the background colour

Every list is filled on its own, so a hole painted in the colour of the
region around it was invisible.
---
 src/output-emf.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/output-emf.c b/src/output-emf.c
index 4f4ca28..5b6e416 100644
--- a/src/output-emf.c
+++ b/src/output-emf.c
@@ -761,6 +761,7 @@ static void GetEmfStats(EMFStats *stats, char *name, spline_list_array_type shap
   int filesize = 0;
   uint32_t last_color = 0xFFFFFFFF, curr_color;
   spline_list_type curr_list;
+  at_color list_color;
   spline_type curr_spline;
   int last_degree;
   int nlines;
@@ -768,7 +769,8 @@ static void GetEmfStats(EMFStats *stats, char *name, spline_list_array_type shap
   // visit each spline-list
   for (this_list = 0; this_list < SPLINE_LIST_ARRAY_LENGTH(shape); this_list++) {
     curr_list = SPLINE_LIST_ARRAY_ELT(shape, this_list);
-    curr_color = MAKE_COLREF(curr_list.color.r, curr_list.color.g, curr_list.color.b);
+    list_color = (curr_list.clockwise && shape.background_color != NULL) ? *(shape.background_color) : curr_list.color;
+    curr_color = MAKE_COLREF(list_color.r, list_color.g, list_color.b);
     if (this_list == 0 || curr_color != last_color) {
       ncolorchng++;
       if (!SearchColor(color_list, curr_color)) {
@@ -877,6 +879,7 @@ static void OutputEmf(FILE *fdes, EMFStats *stats, char *name, int width, int he
   int color_index, last_index;
   uint32_t last_color = 0xFFFFFFFF, curr_color;
   spline_list_type curr_list;
+  at_color list_color;
   spline_type curr_spline;
   int last_degree;
   int nlines;
@@ -894,7 +897,8 @@ static void OutputEmf(FILE *fdes, EMFStats *stats, char *name, int width, int he
     curr_list = SPLINE_LIST_ARRAY_ELT(shape, this_list);
 
     // output pen & brush selection
-    curr_color = MAKE_COLREF(curr_list.color.r, curr_list.color.g, curr_list.color.b);
+    list_color = (curr_list.clockwise && shape.background_color != NULL) ? *(shape.background_color) : curr_list.color;
+    curr_color = MAKE_COLREF(list_color.r, list_color.g, list_color.b);
     if (this_list == 0 || curr_color != last_color) {
 
       color_index = ColorLookUp(curr_color, color_table, stats->ncolors);
-- 
2.43.0


From ff2d2cfe3a76f1989e07f111eb2e85331054348b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:31 +0000
Subject: [PATCH 064/105] fix: mif: give every object its own colour

All objects were written in the colour of the last list.
---
 src/output-mif.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/output-mif.c b/src/output-mif.c
index 76f4d43..c292ddd 100644
--- a/src/output-mif.c
+++ b/src/output-mif.c
@@ -158,6 +158,7 @@ int output_mif_writer(FILE *ps_file, char *name, int llx, int lly, int urx, int
     spline_list_type list = SPLINE_LIST_ARRAY_ELT(shape, this_list);
     spline_type first = SPLINE_LIST_ELT(list, 0);
 
+    curr_color = (list.clockwise && shape.background_color != NULL) ? *(shape.background_color) : list.color;
     for (i = 0; i < n_ctbl; i++)
       if (at_color_equal(&curr_color, &col_tbl[i].c))
         break;
-- 
2.43.0


From a06c2ce07f94bf861da2da7b5c44bab035e0ab33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:32 +0000
Subject: [PATCH 065/105] fix: mif: size the colour table for all lists and
 free it

More than 256 colours overran the table, and the colour names were never
freed.
---
 src/output-mif.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/output-mif.c b/src/output-mif.c
index c292ddd..5ebe601 100644
--- a/src/output-mif.c
+++ b/src/output-mif.c
@@ -107,7 +107,7 @@ int output_mif_writer(FILE *ps_file, char *name, int llx, int lly, int urx, int
 {
   unsigned this_list;
   int i;
-  ColorT col_tbl[256];
+  ColorT *col_tbl;
   int n_ctbl = 0;
   at_color curr_color = { 0, 0, 0 };
 
@@ -119,6 +119,8 @@ int output_mif_writer(FILE *ps_file, char *name, int llx, int lly, int urx, int
 
   fprintf(ps_file, "<MIFFile 4.00> #%s\n<Units Upt>\n<ColorCatalog\n", at_version(true));
 
+  XMALLOC(col_tbl, sizeof(ColorT) * (SPLINE_LIST_ARRAY_LENGTH(shape) + 1));
+
   for (this_list = 0; this_list < SPLINE_LIST_ARRAY_LENGTH(shape); this_list++) {
     spline_list_type list = SPLINE_LIST_ARRAY_ELT(shape, this_list);
     curr_color = (list.clockwise && shape.background_color != NULL) ? *(shape.background_color) : list.color;
@@ -186,5 +188,9 @@ int output_mif_writer(FILE *ps_file, char *name, int llx, int lly, int urx, int
     fprintf(ps_file, " >\n");
   }
   fprintf(ps_file, ">\n");
+
+  for (i = 0; i < n_ctbl; i++)
+    free(col_tbl[i].tag);
+  free(col_tbl);
   return 0;
 }
-- 
2.43.0


From e2a3e89d37dda78aaaecc552dc691f92cd769054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:32 +0000
Subject: [PATCH 066/105] fix: mif: write the end point of every curve

Curves were only sampled in between, so what follows a curve started
before the curve ended.
---
 src/output-mif.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/output-mif.c b/src/output-mif.c
index 5ebe601..24ca3e3 100644
--- a/src/output-mif.c
+++ b/src/output-mif.c
@@ -182,6 +182,7 @@ int output_mif_writer(FILE *ps_file, char *name, int llx, int lly, int urx, int
         for (temp = dt; fabs(temp - (float) 1.0) > dt; temp += dt) {
           print_coord(ps_file, bezpnt(temp, START_POINT(s).x, CONTROL1(s).x, CONTROL2(s).x, END_POINT(s).x), bezpnt(temp, START_POINT(s).y, CONTROL1(s).y, CONTROL2(s).y, END_POINT(s).y));
         }
+        print_coord(ps_file, END_POINT(s).x, END_POINT(s).y);
       }
     }
     fprintf(ps_file, "  <Smoothed %s>\n", smooth ? "Yes" : "No");
-- 
2.43.0


From 6a80d633d4f60dc3df4056c4dbd8aacc8209a115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:33 +0000
Subject: [PATCH 067/105] fix: cgm: convert negative coordinates through a
 signed type

Control points may lie outside the frame, and converting a negative
floating point number to an unsigned type is undefined.
---
 src/output-cgm.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/output-cgm.c b/src/output-cgm.c
index 3f85672..c3998e1 100644
--- a/src/output-cgm.c
+++ b/src/output-cgm.c
@@ -214,21 +214,21 @@ int output_cgm_writer(FILE *cgm_file, char *name, int llx, int lly, int urx, int
 
       if (SPLINE_DEGREE(s) == LINEARTYPE) {
         write16(cgm_file, 0x4028);  /* polyline */
-        write16(cgm_file, (uint16_t) START_POINT(s).x);
-        write16(cgm_file, (uint16_t) (ury - START_POINT(s).y));
-        write16(cgm_file, (uint16_t) END_POINT(s).x);
-        write16(cgm_file, (uint16_t) (ury - END_POINT(s).y));
+        write16(cgm_file, (uint16_t) (int) START_POINT(s).x);
+        write16(cgm_file, (uint16_t) (int) (ury - START_POINT(s).y));
+        write16(cgm_file, (uint16_t) (int) END_POINT(s).x);
+        write16(cgm_file, (uint16_t) (int) (ury - END_POINT(s).y));
       } else {
         write16(cgm_file, 0x4352);  /* polybezier */
         write16(cgm_file, 0x0002);  /* continuous */
-        write16(cgm_file, (uint16_t) START_POINT(s).x);
-        write16(cgm_file, (uint16_t) (ury - START_POINT(s).y));
-        write16(cgm_file, (uint16_t) CONTROL1(s).x);
-        write16(cgm_file, (uint16_t) (ury - CONTROL1(s).y));
-        write16(cgm_file, (uint16_t) CONTROL2(s).x);
-        write16(cgm_file, (uint16_t) (ury - CONTROL2(s).y));
-        write16(cgm_file, (uint16_t) END_POINT(s).x);
-        write16(cgm_file, (uint16_t) (ury - END_POINT(s).y));
+        write16(cgm_file, (uint16_t) (int) START_POINT(s).x);
+        write16(cgm_file, (uint16_t) (int) (ury - START_POINT(s).y));
+        write16(cgm_file, (uint16_t) (int) CONTROL1(s).x);
+        write16(cgm_file, (uint16_t) (int) (ury - CONTROL1(s).y));
+        write16(cgm_file, (uint16_t) (int) CONTROL2(s).x);
+        write16(cgm_file, (uint16_t) (int) (ury - CONTROL2(s).y));
+        write16(cgm_file, (uint16_t) (int) END_POINT(s).x);
+        write16(cgm_file, (uint16_t) (int) (ury - END_POINT(s).y));
       }
     }
   }
-- 
2.43.0


From 1ed59dd14d544d440fcccf2313ec908133cdca6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:34 +0000
Subject: [PATCH 068/105] fix: cgm: write the length of long names in full

The length of a name of more than 254 characters was cut to one byte.
---
 src/output-cgm.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/output-cgm.c b/src/output-cgm.c
index c3998e1..741a215 100644
--- a/src/output-cgm.c
+++ b/src/output-cgm.c
@@ -61,22 +61,30 @@ static bool write8(FILE *fdes, uint8_t data)
 
 static bool output_beginmetafilename(FILE *fdes, const char *string)
 {
-  size_t len = strlen(string);
+  size_t i, len = strlen(string);
+  size_t count;                 /* bytes that hold the length of the string */
 
-  if (len + 1 < 0x001F)
-    write16(fdes, (uint16_t) (CGM_BEGINMETAFILE + len + 1));
+  if (len > 0x7FFF - 3)
+    len = 0x7FFF - 3;
+  count = (len < 0x00FF) ? 1 : 3;
+
+  if (len + count < 0x001F)
+    write16(fdes, (uint16_t) (CGM_BEGINMETAFILE + len + count));
   else {
     write16(fdes, CGM_BEGINMETAFILE + 0x001F);
-    write16(fdes, (uint16_t) (len + 1));
+    write16(fdes, (uint16_t) (len + count));
   }
 
-  write8(fdes, (uint8_t) len);
-
-  while (*string != '\0') {
-    write8(fdes, *string);
-    string++;
+  if (count == 1)
+    write8(fdes, (uint8_t) len);
+  else {
+    write8(fdes, 0xFF);
+    write16(fdes, (uint16_t) len);
   }
 
+  for (i = 0; i < len; i++)
+    write8(fdes, string[i]);
+
   if (len % 2 == 0)
     write8(fdes, 0);
 
-- 
2.43.0


From 53a154dc6d93abaa9f74379678235103d508d63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:48 +0000
Subject: [PATCH 069/105] fix: plt: convert negative coordinates through a
 signed type

Curves may leave the frame, and converting a negative floating point
number to an unsigned type is undefined.
---
 src/output-plt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/output-plt.c b/src/output-plt.c
index b56510d..2be97be 100644
--- a/src/output-plt.c
+++ b/src/output-plt.c
@@ -42,8 +42,8 @@
 #define SCALE (float) 1.0
 
 #define MAKE_COLREF(r,g,b) (((r) & 0x0FF) | (((g) & 0x0FF) << 8) | (((b) & 0x0FF) << 16))
-#define X_FLOAT_TO_UI32(num) ((uint32_t)(num * SCALE))
-#define Y_FLOAT_TO_UI32(num) ((uint32_t)(num * SCALE))
+#define X_FLOAT_TO_UI32(num) ((uint32_t)(int32_t)(num * SCALE))
+#define Y_FLOAT_TO_UI32(num) ((uint32_t)(int32_t)(num * SCALE))
 
 /*
   Searches color by closest rgb values (distance**2 of 2 3D points)
-- 
2.43.0


From 6cd2d1c87777cf34aa301e3510d53243375f51cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:41 +0000
Subject: [PATCH 070/105] fix: pov: report centerline splines through the
 message function

The writer ended the whole process instead.
---
 src/output-pov.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/output-pov.c b/src/output-pov.c
index daa3ddf..c72d486 100644
--- a/src/output-pov.c
+++ b/src/output-pov.c
@@ -27,6 +27,7 @@
 #include "output-pov.h"
 #include "logreport.h"
 #include "autotrace.h"
+#include "exception.h"
 #include <string.h>
 #include <math.h>
 
@@ -107,8 +108,11 @@ static void out_splines(FILE * pov_file, spline_list_array_type shape)
 
 int output_pov_writer(FILE *pov_file, char *name, int llx, int lly, int urx, int ury, at_output_opts_type *opts,
                       spline_list_array_type shape, at_msg_func msg_func, void *msg_data, void *user_data) {
-  if (shape.centerline == true)
-    FATAL("Povray output currently not supported for centerline method");
+  if (shape.centerline == true) {
+    at_exception_type exp = at_exception_new(msg_func, msg_data);
+    at_exception_fatal(&exp, "Povray output currently not supported for centerline method");
+    return -1;
+  }
 
   out_splines(pov_file, shape);
 
-- 
2.43.0


From 78ed2980eb843fccab9565798626f07e0317c3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:41 +0000
Subject: [PATCH 071/105] fix: ild: convert clipped coordinates to the signed
 type they are stored in

Half of all coordinates are negative, and converting a negative floating
point number to an unsigned type is undefined.
---
 src/output-ild.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output-ild.c b/src/output-ild.c
index de5c28e..65f1f43 100644
--- a/src/output-ild.c
+++ b/src/output-ild.c
@@ -716,7 +716,7 @@ static inline short int clip(double x)
     x = 32767.0;
   if (x < -32768.0)
     x = -32768.0;
-  return (unsigned short)rint(x);
+  return (short int)rint(x);
 }
 
 /** No descriptions */
-- 
2.43.0


From 9df10b35df29f8908aae23e26e2716275d30ddf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:42 +0000
Subject: [PATCH 072/105] fix: ild: start every file with a new frame

The frame of the previous file was kept, so a second file written by the
same process held no frame at all.
---
 src/output-ild.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/output-ild.c b/src/output-ild.c
index 65f1f43..928b1a3 100644
--- a/src/output-ild.c
+++ b/src/output-ild.c
@@ -970,6 +970,8 @@ static void OutputILDA(FILE * fdes, int llx, int lly, int urx, int ury, spline_l
     return;
 
   drawsequence = newLaserSequence();
+  drawframe = NULL;
+  inserted_anchor_points = 0;
 
   LastPoint.x = 0;
   LastPoint.y = 0;
-- 
2.43.0


From 477e4d64433f30dff33e26714da2ecaa58aeb256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:43 +0000
Subject: [PATCH 073/105] fix: ild: free the points and frames after writing
 them

---
 src/output-ild.c | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/output-ild.c b/src/output-ild.c
index 928b1a3..879822b 100644
--- a/src/output-ild.c
+++ b/src/output-ild.c
@@ -498,6 +498,26 @@ pLaserFrame sequence_frame_add(pLaserSequence seq)
   return frame2;
 };
 
+static void freeLaserSequence(pLaserSequence seq)
+{
+  pLaserFrame frame = seq->frame_first;
+
+  while (frame) {
+    pLaserFrame next_frame = frame->next;
+    pLaserPoint point = frame->point_first;
+
+    while (point) {
+      pLaserPoint next_point = point->next;
+
+      free(point);
+      point = next_point;
+    }
+    free(frame);
+    frame = next_frame;
+  }
+  free(seq);
+}
+
 /** write 2D/3D Frame to file */
 int writeILDAFrame(FILE * file, LaserFrame * f, int format)
 {
@@ -1032,14 +1052,17 @@ int output_ild_writer(FILE *file, char *name, int llx, int lly, int urx, int ury
   /* Output ILDA */
   OutputILDA(file, llx, lly, urx, ury, shape);
 
-  if (file == stdout)
-    return 0;
+  if (file != stdout) {
+    printf("Wrote %d frame with %d points (%d anchors", sequence_frame_count(drawsequence), frame_point_count(drawframe), inserted_anchor_points);
+    if (trueColorWrite)
+      printf(", True Color Header");
+    if (writeTable)
+      printf(", Color Table");
+    printf(").\n");
+  }
 
-  printf("Wrote %d frame with %d points (%d anchors", sequence_frame_count(drawsequence), frame_point_count(drawframe), inserted_anchor_points);
-  if (trueColorWrite)
-    printf(", True Color Header");
-  if (writeTable)
-    printf(", Color Table");
-  printf(").\n");
+  freeLaserSequence(drawsequence);
+  drawsequence = NULL;
+  drawframe = NULL;
   return 0;
 }
-- 
2.43.0


From 3e6fe2d7d8c0432c64aacfd54f8dbaf3a6db7755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:01 +0000
Subject: [PATCH 074/105] fix: ild: report more points than a frame can hold

The point count of a frame has 16 bits; larger counts were cut and the
file could not be read back.
---
 src/output-ild.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/output-ild.c b/src/output-ild.c
index 879822b..85f33f0 100644
--- a/src/output-ild.c
+++ b/src/output-ild.c
@@ -34,6 +34,7 @@
 
 #include "spline.h"
 #include "xstd.h"
+#include "exception.h"
 
 #ifdef MAX
 #undef MAX
@@ -972,7 +973,7 @@ void drawCubicBezier(double x1, double y1, double cx1, double cy1, double cx2, d
 }
 
 /* Parses the spline data and writes out ILDA (*.ILD) formatted file */
-static void OutputILDA(FILE * fdes, int llx, int lly, int urx, int ury, spline_list_array_type shape)
+static int OutputILDA(FILE * fdes, int llx, int lly, int urx, int ury, spline_list_array_type shape, at_exception_type * exp)
 {
   unsigned int this_list, this_spline;
   spline_list_type curr_list;
@@ -987,7 +988,7 @@ static void OutputILDA(FILE * fdes, int llx, int lly, int urx, int ury, spline_l
   double oy = (lly + ury) / 2.0;
 
   if (fdes == NULL)
-    return;
+    return -1;
 
   drawsequence = newLaserSequence();
   drawframe = NULL;
@@ -1025,12 +1026,19 @@ static void OutputILDA(FILE * fdes, int llx, int lly, int urx, int ury, spline_l
   }
 
   frameDrawFinish();
+  if (frame_point_count(drawframe) > 0xFFFF) {
+    at_exception_fatal(exp, "Output-Ild: too many points for one frame");
+    return -1;
+  }
   writeILDA(fdes, drawsequence);
+  return 0;
 }
 
 int output_ild_writer(FILE *file, char *name, int llx, int lly, int urx, int ury, at_output_opts_type *opts,
                       at_spline_list_array_type shape, at_msg_func msg_func, void *msg_data, void *user_data)
 {
+  at_exception_type exp = at_exception_new(msg_func, msg_data);
+  int result;
 
 #ifdef _WINDOWS
   if (file == stdout) {
@@ -1050,9 +1058,9 @@ int output_ild_writer(FILE *file, char *name, int llx, int lly, int urx, int ury
   anchor_thresh = 40;
 
   /* Output ILDA */
-  OutputILDA(file, llx, lly, urx, ury, shape);
+  result = OutputILDA(file, llx, lly, urx, ury, shape, &exp);
 
-  if (file != stdout) {
+  if (result == 0 && file != stdout) {
     printf("Wrote %d frame with %d points (%d anchors", sequence_frame_count(drawsequence), frame_point_count(drawframe), inserted_anchor_points);
     if (trueColorWrite)
       printf(", True Color Header");
@@ -1064,5 +1072,5 @@ int output_ild_writer(FILE *file, char *name, int llx, int lly, int urx, int ury
   freeLaserSequence(drawsequence);
   drawsequence = NULL;
   drawframe = NULL;
-  return 0;
+  return result;
 }
-- 
2.43.0


From bba841c09f96ec6a203fb1c8e26117b0585f8871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:25 +0000
Subject: [PATCH 075/105] fix: dr2d: free the list of chunks

---
 src/output-dr2d.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/output-dr2d.c b/src/output-dr2d.c
index 2c20eb6..4fa7b60 100644
--- a/src/output-dr2d.c
+++ b/src/output-dr2d.c
@@ -635,6 +635,7 @@ int output_dr2d_writer(FILE *file, char *name, int llx, int lly, int urx, int ur
   FreeChunk(CMAPChunk);
   WriteChunks(file, ChunkList, NumSplines);
   FreeChunks(ChunkList, NumSplines);
+  free(ChunkList);
 
   return 0;
 }
-- 
2.43.0


From 62fe2cfb299b7e9dbe9261369b383c3b3072e4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:25 +0000
Subject: [PATCH 076/105] fix: dr2d: start the bounding box at the mirrored
 start point

The box of an object is in page coordinates, which run downwards, but
started from the unmirrored point and so could be too large.
---
 src/output-dr2d.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/output-dr2d.c b/src/output-dr2d.c
index 4fa7b60..cf2e410 100644
--- a/src/output-dr2d.c
+++ b/src/output-dr2d.c
@@ -186,9 +186,9 @@ static struct Chunk *BuildBBOX(spline_list_type list, int height)
   s = SPLINE_LIST_ELT(list, 0);
 
   x1 = START_POINT(s).x;
-  y1 = START_POINT(s).y;
+  y1 = height - START_POINT(s).y;
   x2 = START_POINT(s).x;
-  y2 = START_POINT(s).y;
+  y2 = height - START_POINT(s).y;
 
   this_spline_length = SPLINE_LIST_LENGTH(list);
   for (this_spline = 0; this_spline < this_spline_length; this_spline++) {
-- 
2.43.0


From 5aa69bc63d363366a710933b28a488dc8b42daba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:26 +0000
Subject: [PATCH 077/105] fix: dxf: compare a list's colour with the previous
 list's

The previous colour was reset to black for every list, so black lists
after the first one stayed on the layer of the list before them.
---
 src/output-dxf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output-dxf.c b/src/output-dxf.c
index 6e77b03..e74c70b 100644
--- a/src/output-dxf.c
+++ b/src/output-dxf.c
@@ -581,11 +581,11 @@ static void out_splines(FILE * dxf_file, spline_list_array_type shape)
   xypnt pnt, pnt_old = { 0, 0 };
   char fin, new_layer = 0, layerstr[10];
   int i, first_seg = 1, idx;
+  at_color last_color = { 0, 0, 0 };
 
   strcpy(layerstr, "C1");
   for (this_list = 0; this_list < SPLINE_LIST_ARRAY_LENGTH(shape); this_list++) {
     unsigned this_spline;
-    at_color last_color = { 0, 0, 0 };
 
     spline_list_type list = SPLINE_LIST_ARRAY_ELT(shape, this_list);
     spline_type first = SPLINE_LIST_ELT(list, 0);
-- 
2.43.0


From 85aee17ef01148745ca281790c716c39ba83107c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:02 +0000
Subject: [PATCH 078/105] fix: p2e: start a new path only when the colour
 changes

Lists of one colour are painted together at the end, but every list
threw away the path of the list before it, so only the last one showed.
---
 src/output-p2e.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output-p2e.c b/src/output-p2e.c
index 9ce7875..6350bc8 100644
--- a/src/output-p2e.c
+++ b/src/output-p2e.c
@@ -171,9 +171,9 @@ static void out_splines(FILE * ps_file, spline_list_array_type shape)
       OUT("%.3f %.3f %.3f %.3f %s\n", (double)c / 255.0, (double)m / 255.0, (double)y / 255.0, (double)k / 255.0, "setcmykcolor");
 #endif
       last_color = list.color;
+      OUT_LINE("newpath");
     }
 
-    OUT_LINE("newpath");
     OUT_COMMAND2(START_POINT(first).x, START_POINT(first).y, "moveto");
 
     for (this_spline = 0; this_spline < SPLINE_LIST_LENGTH(list); this_spline++) {
-- 
2.43.0


From fcc032704b79f7e83f6aa2c9aab5d2964bb94f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:02 +0000
Subject: [PATCH 079/105] fix: sk: paint holes in the background colour

Every list is an object of its own, so a hole filled in the colour of the
region around it was invisible.
---
 src/output-sk.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/output-sk.c b/src/output-sk.c
index 480865a..aed2c9f 100644
--- a/src/output-sk.c
+++ b/src/output-sk.c
@@ -34,15 +34,17 @@ static void out_splines(FILE * file, spline_list_array_type shape)
     spline_type first;
     /* Whether to fill or stroke */
     bool stroke;
+    at_color color;
 
     list = SPLINE_LIST_ARRAY_ELT(shape, this_list);
     first = SPLINE_LIST_ELT(list, 0);
 
     stroke = shape.centerline || list.open;
+    color = (list.clockwise && shape.background_color != NULL) ? *(shape.background_color) : list.color;
 
     /* If stroke, set outline color and no fill, otherwise set fill
      * color and no outline */
-    fprintf(file, "%s((%g,%g,%g))\n", stroke ? "lp" : "fp", list.color.r / 255.0, list.color.g / 255.0, list.color.b / 255.0);
+    fprintf(file, "%s((%g,%g,%g))\n", stroke ? "lp" : "fp", color.r / 255.0, color.g / 255.0, color.b / 255.0);
     fputs(stroke ? "fe()\n" : "le()\n", file);
 
     /* Start a bezier object */
-- 
2.43.0


From 79a0c5795198d47434eaf2a27d514d0133147ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:03 +0000
Subject: [PATCH 080/105] fix: dxf: write no polyline of a single point and no
 end without a polyline

The first list started its polyline twice, and a file without any lists
still ended a polyline.
---
 src/output-dxf.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/output-dxf.c b/src/output-dxf.c
index e74c70b..e83fbc1 100644
--- a/src/output-dxf.c
+++ b/src/output-dxf.c
@@ -612,6 +612,7 @@ static void out_splines(FILE * dxf_file, spline_list_array_type shape)
         pnt_old.yp = lround(starty * RESOLUTION);
       }
     } else {
+      new_layer = 0;
       fprintf(dxf_file, "  0\nPOLYLINE\n  8\n%s\n  66\n1\n  10\n%f\n  20\n%f\n", layerstr, startx, starty);
       fprintf(dxf_file, "  0\nVERTEX\n  8\n%s\n  10\n%f\n  20\n%f\n", layerstr, startx, starty);
       pnt_old.xp = lround(startx * RESOLUTION);
@@ -690,7 +691,8 @@ static void out_splines(FILE * dxf_file, spline_list_array_type shape)
     last_color = curr_color;
   }
 
-  fprintf(dxf_file, "  0\nSEQEND\n  8\n0\n");
+  if (!first_seg)
+    fprintf(dxf_file, "  0\nSEQEND\n  8\n0\n");
 
 }
 
-- 
2.43.0


From 557a46d1a555b6d08d3857ef072d6fb151048367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:04 +0000
Subject: [PATCH 081/105] fix: restore the numeric locale after writing splines

Writing switched the whole process to the C locale for good.
---
 src/autotrace.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/autotrace.c b/src/autotrace.c
index ec214e4..a906af1 100644
--- a/src/autotrace.c
+++ b/src/autotrace.c
@@ -347,6 +347,7 @@ void at_splines_write(at_spline_writer *writer, FILE *writeto, char *file_name,
                       at_splines_type *splines, at_msg_func msg_func, void *msg_data) {
   bool new_opts = false;
   int llx, lly, urx, ury;
+  char *numeric_locale;
   llx = 0;
   lly = 0;
   urx = splines->width;
@@ -360,8 +361,13 @@ void at_splines_write(at_spline_writer *writer, FILE *writeto, char *file_name,
     opts = at_output_opts_new();
   }
 
+  numeric_locale = strdup(setlocale(LC_NUMERIC, NULL));
   setlocale(LC_NUMERIC, "C");
   (*writer->func)(writeto, file_name, llx, lly, urx, ury, opts, *splines, msg_func, msg_data, NULL);
+  if (numeric_locale) {
+    setlocale(LC_NUMERIC, numeric_locale);
+    free(numeric_locale);
+  }
   if (new_opts)
     at_output_opts_free(opts);
 }
-- 
2.43.0


From 4e356769e80d34f790ddeaad1f28fe5cd068643e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:21 +0000
Subject: [PATCH 082/105] fix: er: end an open shape with a straight line
 straight

A line that was fitted as a curve first keeps the curve's control points,
and the last one was written as the handle of the final point.
---
 src/output-er.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/output-er.c b/src/output-er.c
index 2d2eab9..ad82370 100644
--- a/src/output-er.c
+++ b/src/output-er.c
@@ -114,8 +114,13 @@ static void out_splines(FILE * er_file, spline_list_array_type shape, unsigned w
     }
 
     if (list.open || length == 1) {
-      x0 = CONTROL2(prev).x;
-      y0 = CONTROL2(prev).y;
+      if (SPLINE_DEGREE(prev) == CUBICTYPE) {
+        x0 = CONTROL2(prev).x;
+        y0 = CONTROL2(prev).y;
+      } else {
+        x0 = END_POINT(prev).x;
+        y0 = END_POINT(prev).y;
+      }
       x2 = x1 = END_POINT(prev).x;
       y2 = y1 = END_POINT(prev).y;
 
@@ -156,7 +161,10 @@ static void out_splines(FILE * er_file, spline_list_array_type shape, unsigned w
         prev = s;
       }
       if (list.open || length == 1) {
-        x0 = CONTROL2(prev).z;
+        if (SPLINE_DEGREE(prev) == CUBICTYPE)
+          x0 = CONTROL2(prev).z;
+        else
+          x0 = END_POINT(prev).z;
         x2 = x1 = END_POINT(prev).z;
         fprintf(er_file, "\t\t\t%g, %g, %g,\n", x0 * w, x1 * w, x2 * w);
       }
-- 
2.43.0


From 1774f8722be8d056fa72bea0f7fa9ef41590f394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:58 +0000
Subject: [PATCH 083/105] fix: do not split DXF polylines by rounding

A curve's end was rounded in single precision and the start of the next
spline in double precision. They could differ by one unit, and then the
outline was broken into two polylines.
---
 src/output-dxf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output-dxf.c b/src/output-dxf.c
index e83fbc1..2783c0b 100644
--- a/src/output-dxf.c
+++ b/src/output-dxf.c
@@ -53,7 +53,7 @@ typedef enum { NATURAL, TANGENT, PERIODIC, CYCLIC, ANTICYCLIC
 } SPLINE_END_TYPE;
 
 #define MAX_VERTICES 10000
-#define RESOLUTION   10000      /* asume no pixels bigger than 1000000.0 */
+#define RESOLUTION   10000.0    /* asume no pixels bigger than 1000000.0 */
 #define RADIAN                  57.295779513082
 
 typedef struct xypnt_t {
-- 
2.43.0


From 0e2c54c3bc3d60971f047cb73cc2458c71fe1146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:59 +0000
Subject: [PATCH 084/105] fix: write the CGM extent in the order x, y, x, y

Width and height were swapped, so pictures that are not square had the
wrong extent.
---
 src/output-cgm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output-cgm.c b/src/output-cgm.c
index 741a215..8c48273 100644
--- a/src/output-cgm.c
+++ b/src/output-cgm.c
@@ -169,8 +169,8 @@ int output_cgm_writer(FILE *cgm_file, char *name, int llx, int lly, int urx, int
 
   write16(cgm_file, 0x20C8);    /* vdc extend */
   write16(cgm_file, (uint16_t) llx /*0x0000 */ );
-  write16(cgm_file, (uint16_t) urx /*0x7FFF */ );
   write16(cgm_file, (uint16_t) ury /*0x7FFF */ );
+  write16(cgm_file, (uint16_t) urx /*0x7FFF */ );
   write16(cgm_file, (uint16_t) lly /*0x0000 */ );
 
   write16(cgm_file, 0x0080);    /* begin picture body */
-- 
2.43.0


From 9d22830b7a1877b343c1ae148ac4d7546ae572bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:19:45 +0000
Subject: [PATCH 085/105] fix: keep the headers of a BMP file out of static
 storage

Two threads reading BMP files overwrote each other's headers.
---
 src/input-bmp.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index ff7b441..595e37c 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -50,7 +50,7 @@ struct Bitmap_File_Head_Struct {
   unsigned short zzHotY;        /* 08 */
   unsigned long bfOffs;         /* 0A */
   unsigned long biSize;         /* 0E */
-} Bitmap_File_Head;
+};
 
 struct Bitmap_Head_Struct {
   unsigned long biWidth;        /* 12 */
@@ -64,7 +64,7 @@ struct Bitmap_Head_Struct {
   unsigned long biClrUsed;      /* 2E */
   unsigned long biClrImp;       /* 32 */
   unsigned long masks[4];       /* 36 */
-} Bitmap_Head;
+};
 
 typedef struct
 {
@@ -146,6 +146,8 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
   at_exception_type exp = at_exception_new(msg_func, msg_data);
   char magick[2];
   Bitmap_Channel masks[4] = { { 0 } };
+  struct Bitmap_File_Head_Struct Bitmap_File_Head = { { 0 } };
+  struct Bitmap_Head_Struct Bitmap_Head = { 0 };
 
   fd = fopen(filename, "rb");
 
-- 
2.43.0


From 7d1d5eb40d82ef3c43c60e98df7bfd8e6f20b9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:19:46 +0000
Subject: [PATCH 086/105] fix: copy bitmaps without pixels

An image that could not be read has no storage to copy from.
---
 src/autotrace.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/autotrace.c b/src/autotrace.c
index a906af1..b26d652 100644
--- a/src/autotrace.c
+++ b/src/autotrace.c
@@ -154,7 +154,8 @@ at_bitmap *at_bitmap_copy(const at_bitmap * src)
   planes = at_bitmap_get_planes(src);
 
   dist = at_bitmap_new(width, height, planes);
-  memcpy(dist->bitmap, src->bitmap, (size_t)width * height * planes * sizeof(unsigned char));
+  if (dist->bitmap)
+    memcpy(dist->bitmap, src->bitmap, (size_t)width * height * planes * sizeof(unsigned char));
   return dist;
 }
 
-- 
2.43.0


From 819bb6d531a61982dfbfaf1137e674a1c79c0990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:50 +0000
Subject: [PATCH 087/105] fix: find no format for file names without a suffix

A name without a dot made the lookup read from an invalid address,
and a dot in a directory name was taken for the suffix.
---
 src/filename.h | 8 ++++++++
 src/input.cpp  | 7 +------
 src/output.cpp | 7 +------
 3 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/filename.h b/src/filename.h
index f8fbfcf..cc58b95 100644
--- a/src/filename.h
+++ b/src/filename.h
@@ -23,6 +23,10 @@ Foundation, Inc., 675 Mass Ave, Cambridge, MA 02139, USA.  */
 #define FILENAME_H
 #include "types.h"
 
+#ifdef __cplusplus
+extern "C" {
+#endif /* __cplusplus */
+
 /* If NAME has a suffix, return a pointer to its first character (i.e.,
    the one after the `.'); otherwise, return NULL.  */
 extern char *find_suffix(char *name);
@@ -39,4 +43,8 @@ extern char *make_suffix(char *s, char *suffix);
 /* Return NAME with any suffix removed.  */
 extern char *remove_suffix(char *name);
 
+#ifdef __cplusplus
+}
+#endif /* __cplusplus */
+
 #endif /* Not def: FILENAME_H */
diff --git a/src/input.cpp b/src/input.cpp
index af0ac19..461cf4e 100644
--- a/src/input.cpp
+++ b/src/input.cpp
@@ -67,12 +67,7 @@ int at_input_add_handler_full(const char *suffix, const char *description, at_in
 }
 
 at_bitmap_reader *at_input_get_handler(char *filename) {
-  char *dot_pos = strrchr(filename, '.');
-  dot_pos++;
-  if (dot_pos == nullptr)
-    dot_pos = const_cast<char *>("");
-
-  return at_input_get_handler_by_suffix(dot_pos);
+  return at_input_get_handler_by_suffix(find_suffix(filename));
 }
 
 at_bitmap_reader *at_input_get_handler_by_suffix(char *suffix)
diff --git a/src/output.cpp b/src/output.cpp
index 76435ae..10da522 100644
--- a/src/output.cpp
+++ b/src/output.cpp
@@ -65,12 +65,7 @@ int at_output_add_handler(const char *suffix, const char *description, at_output
 }
 
 at_spline_writer *at_output_get_handler(char *filename) {
-  char *dot_pos = strrchr(filename, '.');
-  dot_pos++;
-  if (dot_pos == nullptr)
-    dot_pos = const_cast<char *>("");
-
-  return at_output_get_handler_by_suffix(dot_pos);
+  return at_output_get_handler_by_suffix(find_suffix(filename));
 }
 
 at_spline_writer *at_output_get_handler_by_suffix(char *suffix)
-- 
2.43.0


From bfba0a098418dd62aa9c633809f53c59218da541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:51 +0000
Subject: [PATCH 088/105] fix: compare suffixes without regard to the locale

In a Turkish locale I and i are not the same letter, so that FIG or
AI were not recognised.
---
 src/input.cpp  | 9 +++++++--
 src/output.cpp | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/input.cpp b/src/input.cpp
index 461cf4e..9e564ca 100644
--- a/src/input.cpp
+++ b/src/input.cpp
@@ -48,6 +48,11 @@ static std::map<const std::string, at_input_format_entry> inputFormatMap;
  * Helper functions
  */
 
+/* Suffixes are ASCII, so they are the same in every locale. */
+static char lower_case(char c) {
+  return c >= 'A' && c <= 'Z' ? static_cast<char>(c - 'A' + 'a') : c;
+}
+
 int at_input_add_handler(const char *suffix, const char *description, at_input_func writer) {
   return at_input_add_handler_full(suffix, description, writer);
 }
@@ -59,7 +64,7 @@ int at_input_add_handler_full(const char *suffix, const char *description, at_in
   g_return_val_if_fail(reader, 0);
 
   std::string suffixString{suffix};
-  std::transform(suffixString.begin(), suffixString.end(), suffixString.begin(), ::tolower);
+  std::transform(suffixString.begin(), suffixString.end(), suffixString.begin(), lower_case);
 
   inputFormatMap.insert({suffixString, at_input_format_entry(description, reader)});
 
@@ -77,7 +82,7 @@ at_bitmap_reader *at_input_get_handler_by_suffix(char *suffix)
 
   std::string suffixString{suffix};
 
-  std::transform(suffixString.begin(), suffixString.end(), suffixString.begin(), ::tolower);
+  std::transform(suffixString.begin(), suffixString.end(), suffixString.begin(), lower_case);
 
   auto format = inputFormatMap.find(suffixString);
 
diff --git a/src/output.cpp b/src/output.cpp
index 10da522..5eeb977 100644
--- a/src/output.cpp
+++ b/src/output.cpp
@@ -51,13 +51,18 @@ static std::map<const std::string, at_output_format_entry> outputFormatMap;
  * Helper functions
  */
 
+/* Suffixes are ASCII, so they are the same in every locale. */
+static char lower_case(char c) {
+  return c >= 'A' && c <= 'Z' ? static_cast<char>(c - 'A' + 'a') : c;
+}
+
 int at_output_add_handler(const char *suffix, const char *description, at_output_func writer) {
   g_return_val_if_fail(suffix, 0);
   g_return_val_if_fail(description, 0);
   g_return_val_if_fail(writer, 0);
 
   std::string suffixString{suffix};
-  std::transform(suffixString.begin(), suffixString.end(), suffixString.begin(), ::tolower);
+  std::transform(suffixString.begin(), suffixString.end(), suffixString.begin(), lower_case);
 
   outputFormatMap.insert({suffixString, {description, writer}});
 
@@ -75,7 +80,7 @@ at_spline_writer *at_output_get_handler_by_suffix(char *suffix)
 
   std::string suffixString{suffix};
 
-  std::transform(suffixString.begin(), suffixString.end(), suffixString.begin(), ::tolower);
+  std::transform(suffixString.begin(), suffixString.end(), suffixString.begin(), lower_case);
 
   const auto format = outputFormatMap.find(suffixString);
 
-- 
2.43.0


From 6a99fc07afa0b7248bde89a926ad48bb0a9ef2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:52:12 +0000
Subject: [PATCH 089/105] fix: print the whole help text

Half of the options were missing and two pointers that were never set
were freed.
---
 src/main.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/main.c b/src/main.c
index 811d213..698d951 100644
--- a/src/main.c
+++ b/src/main.c
@@ -363,12 +363,9 @@ static char *read_command_line(int argc, char *argv[], at_fitting_opts_type * fi
       fitting_opts->filter_iterations = atou(optarg);
 
     else if (ARGUMENT_IS("help")) {
-      char *ishortlist, *oshortlist;
       fprintf(stderr, _("Usage: %s [options] <input_file_name>.\n"), argv[0]);
       fprintf(stderr, USAGE1);
-      /*fprintf(stderr, USAGE2, ishortlist = at_input_shortlist(), oshortlist = at_output_shortlist());*/
-      free(ishortlist);
-      free(oshortlist);
+      fprintf(stderr, USAGE2, _("see list-input-formats"), _("see list-output-formats"));
       fprintf(stderr, _("\nYou can get the source code of autotrace from \n%s\n"), at_home_site());
       exit(0);
     }
-- 
2.43.0


From 2cf34e38d5172d79a1e7ed282ff3f54afdd33112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:52:12 +0000
Subject: [PATCH 090/105] fix: do not store an int in the variables of command
 line flags

The variables are of type bool, so that setting one flag overwrote
what came after it in memory.
---
 src/main.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/main.c b/src/main.c
index 698d951..aa50904 100644
--- a/src/main.c
+++ b/src/main.c
@@ -264,7 +264,7 @@ static char *read_command_line(int argc, char *argv[], at_fitting_opts_type * fi
   = { {"align-threshold", 1, 0, 0},
   {"background-color", 1, 0, 0},
   {"debug-arch", 0, 0, 0},
-  {"debug-bitmap", 0, (int *)&dumping_bitmap, 1},
+  {"debug-bitmap", 0, 0, 0},
   {"centerline", 0, 0, 0},
   {"charcode", 1, 0, 0},
   {"color-count", 1, 0, 0},
@@ -282,7 +282,7 @@ static char *read_command_line(int argc, char *argv[], at_fitting_opts_type * fi
   {"line-threshold", 1, 0, 0},
   {"list-output-formats", 0, 0, 0},
   {"list-input-formats", 0, 0, 0},
-  {"log", 0, (int *)&logging, 1},
+  {"log", 0, 0, 0},
   {"noise-removal", 1, 0, 0},
   {"output-file", 1, 0, 0},
   {"output-format", 1, 0, 0},
@@ -291,8 +291,8 @@ static char *read_command_line(int argc, char *argv[], at_fitting_opts_type * fi
   {"remove-adjacent-corners", 0, 0, 0},
   {"remove-knees",    0, 0, 0 },
   {"tangent-surround", 1, 0, 0},
-  {"report-progress", 0, (int *)&report_progress, 1},
-  {"version", 0, (int *)&printed_version, 1},
+  {"report-progress", 0, 0, 0},
+  {"version", 0, 0, 0},
   {"width-weight-factor", 1, 0, 0},
   {0, 0, 0, 0}
   };
@@ -344,6 +344,9 @@ static char *read_command_line(int argc, char *argv[], at_fitting_opts_type * fi
       exit(0);
     }
 
+    else if (ARGUMENT_IS("debug-bitmap"))
+      dumping_bitmap = true;
+
     else if (ARGUMENT_IS("despeckle-level"))
       fitting_opts->despeckle_level = atou(optarg);
 
@@ -392,6 +395,9 @@ static char *read_command_line(int argc, char *argv[], at_fitting_opts_type * fi
       exit(0);
     }
 
+    else if (ARGUMENT_IS("log"))
+      logging = true;
+
     else if (ARGUMENT_IS("output-file"))
       output_name = optarg;
 
@@ -408,16 +414,20 @@ static char *read_command_line(int argc, char *argv[], at_fitting_opts_type * fi
     else if (ARGUMENT_IS("remove-knees"))
       fitting_opts->remove_knees = true;
 
+    else if (ARGUMENT_IS("report-progress"))
+      report_progress = true;
+
     else if (ARGUMENT_IS("tangent-surround"))
       fitting_opts->tangent_surround = atou(optarg);
 
-    else if (ARGUMENT_IS("version"))
+    else if (ARGUMENT_IS("version")) {
+      printed_version = true;
       printf(_("AutoTrace version %s.\n"), at_version(false));
+    }
 
     else if (ARGUMENT_IS("width-weight-factor"))
       fitting_opts->width_weight_factor = (float) atof(optarg);
 
-    /* Else it was just a flag; getopt has already done the assignment.  */
   }
   FINISH_COMMAND_LINE();
 }
-- 
2.43.0


From d760321213a7c4fab3c4057c90cffb13513061d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:52:13 +0000
Subject: [PATCH 091/105] fix: obey the option -preserve-width

Its name was misspelled where it is handled.
---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index aa50904..7a56147 100644
--- a/src/main.c
+++ b/src/main.c
@@ -405,7 +405,7 @@ static char *read_command_line(int argc, char *argv[], at_fitting_opts_type * fi
       output_writer = at_output_get_handler_by_suffix(optarg);
       if (output_writer == NULL)
         FATAL(_("Output format %s is not supported"), optarg);
-    } else if (ARGUMENT_IS("preserve_width"))
+    } else if (ARGUMENT_IS("preserve-width"))
       fitting_opts->preserve_width = true;
 
     else if (ARGUMENT_IS("remove-adjacent-corners"))
-- 
2.43.0


From 0c838c047364da42a4eee55248a06787e490affc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:52:13 +0000
Subject: [PATCH 092/105] fix: report errors when writing the output

The command succeeded when the device was full.
---
 src/main.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 7a56147..712be56 100644
--- a/src/main.c
+++ b/src/main.c
@@ -184,8 +184,10 @@ int main(int argc, char *argv[])
   at_splines_write(output_writer, output_file, output_name, output_opts, splines, exception_handler, NULL);
   at_output_opts_free(output_opts);
 
-  if (output_file != stdout)
-    fclose(output_file);
+  if (fflush(output_file) != 0 || ferror(output_file) || (output_file != stdout && fclose(output_file) != 0)) {
+    perror(output_name);
+    exit(EXIT_FAILURE);
+  }
 
   at_splines_free(splines);
   at_bitmap_free(bitmap);
-- 
2.43.0


From a6af92771377e6baae4b96bc9d6e9a1cfa0011f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:52:14 +0000
Subject: [PATCH 093/105] fix: refuse background colors that are not six
 hexadecimal digits

Such a value was ignored or taken for another color. A repeated option
also no longer leaks the color given first.
---
 src/color.c | 9 +++------
 src/main.c  | 4 ++++
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/color.c b/src/color.c
index 2fb539d..63feca8 100644
--- a/src/color.c
+++ b/src/color.c
@@ -60,13 +60,10 @@ at_color *at_color_parse(const char *string, struct GError **err) {
   }
 
   for (i = 0; i < 6; i++) {
-    c[i] = hctoi(string[i], &local_err);
-    if (local_err != NULL) {
-      if (err != NULL) {
-        *err = local_err;
-      }
+    unsigned int digit = hctoi(string[i], &local_err);
+    if (digit > 15)
       return NULL;
-    }
+    c[i] = (unsigned char)digit;
   }
   return at_color_new((unsigned char)(16 * c[0] + c[1]), (unsigned char)(16 * c[2] + c[3]), (unsigned char)(16 * c[4] + c[5]));
 }
diff --git a/src/main.c b/src/main.c
index 712be56..baaeb63 100644
--- a/src/main.c
+++ b/src/main.c
@@ -312,7 +312,11 @@ static char *read_command_line(int argc, char *argv[], at_fitting_opts_type * fi
     assert(g == 0);             /* We have no short option names.  */
 
     if (ARGUMENT_IS("background-color")) {
+      at_color_free(fitting_opts->background_color);
+      at_color_free(input_opts->background_color);
       fitting_opts->background_color = at_color_parse(optarg, NULL);
+      if (fitting_opts->background_color == NULL)
+        FATAL(_("Not a valid background color %s"), optarg);
       input_opts->background_color = at_color_copy(fitting_opts->background_color);
     } else if (ARGUMENT_IS("centerline"))
       fitting_opts->centerline = true;
-- 
2.43.0


From bdab6d59eb714f9b69b54de180dcdda0e1362b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:59 +0000
Subject: [PATCH 094/105] fix: keep the storage of the input background colour
 in the builder

setBackgroudColor() lost the colour object it replaced and put one from
malloc() in its place, which the destructor gave to delete.
---
 src/wrapper/InputOptionsBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wrapper/InputOptionsBuilder.cpp b/src/wrapper/InputOptionsBuilder.cpp
index d3ceeca..4826119 100644
--- a/src/wrapper/InputOptionsBuilder.cpp
+++ b/src/wrapper/InputOptionsBuilder.cpp
@@ -13,7 +13,7 @@ InputOptions InputOptionsBuilder::build() {
 }
 
 InputOptionsBuilder &InputOptionsBuilder::setBackgroudColor(_at_color color) {
-  inputOptions.background_color = at_color_copy(&color);
+  *inputOptions.background_color = color;
   return *this;
 }
 
-- 
2.43.0


From 29073e6d241185d3db47ffd8c7c479602835a33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:02 +0000
Subject: [PATCH 095/105] fix: do not share the background colour when options
 are assigned

After an assignment both objects owned the same colour and freed it twice,
and the old colour of the target was lost.
---
 src/wrapper/FittingOptions.cpp | 10 ++++++++++
 src/wrapper/FittingOptions.h   |  2 +-
 src/wrapper/InputOptions.cpp   | 10 ++++++++++
 src/wrapper/InputOptions.h     |  2 +-
 4 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/wrapper/FittingOptions.cpp b/src/wrapper/FittingOptions.cpp
index 80e41fd..91f5dd8 100644
--- a/src/wrapper/FittingOptions.cpp
+++ b/src/wrapper/FittingOptions.cpp
@@ -137,3 +137,13 @@ FittingOptions::FittingOptions(const FittingOptions &other) : _at_fitting_opts_t
   preserve_width = other.preserve_width;
   width_weight_factor = other.width_weight_factor;
 }
+
+FittingOptions &FittingOptions::operator=(const FittingOptions &other) {
+  at_color *const color = background_color;
+
+  _at_fitting_opts_type::operator=(other);
+  background_color = color;
+  *background_color = *other.background_color;
+
+  return *this;
+}
diff --git a/src/wrapper/FittingOptions.h b/src/wrapper/FittingOptions.h
index fdea75b..6de740d 100644
--- a/src/wrapper/FittingOptions.h
+++ b/src/wrapper/FittingOptions.h
@@ -13,7 +13,7 @@ public:
   virtual ~FittingOptions();
 
   FittingOptions(const FittingOptions& other);
-  FittingOptions& operator=(const FittingOptions& other) = default;
+  FittingOptions& operator=(const FittingOptions& other);
 
   explicit FittingOptions(json11::Json fittingOptionsJson);
 
diff --git a/src/wrapper/InputOptions.cpp b/src/wrapper/InputOptions.cpp
index d3d245e..6916c51 100644
--- a/src/wrapper/InputOptions.cpp
+++ b/src/wrapper/InputOptions.cpp
@@ -55,3 +55,13 @@ InputOptions::InputOptions(const InputOptions &other) : _at_input_opts_type(othe
 
   charcode = other.charcode;
 }
+
+InputOptions &InputOptions::operator=(const InputOptions &other) {
+  at_color *const color = background_color;
+
+  _at_input_opts_type::operator=(other);
+  background_color = color;
+  *background_color = *other.background_color;
+
+  return *this;
+}
diff --git a/src/wrapper/InputOptions.h b/src/wrapper/InputOptions.h
index 45c2abb..73c10fc 100644
--- a/src/wrapper/InputOptions.h
+++ b/src/wrapper/InputOptions.h
@@ -14,7 +14,7 @@ public:
   virtual ~InputOptions();
 
   InputOptions(const InputOptions &other);
-  InputOptions& operator=(const InputOptions& other) = default;
+  InputOptions& operator=(const InputOptions& other);
 
   explicit InputOptions(json11::Json inputOptionsJson);
 
-- 
2.43.0


From 98811c486cad97b9835c3d7c307d7fc1c9bdf11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:23 +0000
Subject: [PATCH 096/105] fix: accept exactly the colours that fit their bytes
 from JSON

White and the other colours made of 0 and 255 only were dropped, so they did
not survive toJson() and back, while values beyond a byte were cut off.
---
 src/wrapper/Json/JsonHelper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wrapper/Json/JsonHelper.cpp b/src/wrapper/Json/JsonHelper.cpp
index 81817c0..6869758 100644
--- a/src/wrapper/Json/JsonHelper.cpp
+++ b/src/wrapper/Json/JsonHelper.cpp
@@ -56,9 +56,9 @@ std::optional<at_color> JsonHelper::getColor(Json::object jsonObject, std::strin
       return std::nullopt;
     }
 
-    const auto colorsInRange = [](const auto colorValue){ return colorValue > 0 && colorValue < 255; };
+    const auto colorInRange = [](const int colorValue){ return colorValue >= 0 && colorValue <= 255; };
 
-    if(!colorsInRange(*maybeRed) && !colorsInRange(maybeGreen) && !colorsInRange(maybeBlue)) {
+    if(!colorInRange(*maybeRed) || !colorInRange(*maybeGreen) || !colorInRange(*maybeBlue)) {
       return std::nullopt;
     }
 
-- 
2.43.0


From f063661a25035c11733248710c7fdfec0079ecfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:24 +0000
Subject: [PATCH 097/105] fix: ignore JSON numbers that do not fit an int

Their conversion to int is undefined.
---
 src/wrapper/Json/JsonHelper.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/wrapper/Json/JsonHelper.cpp b/src/wrapper/Json/JsonHelper.cpp
index 6869758..9e751a4 100644
--- a/src/wrapper/Json/JsonHelper.cpp
+++ b/src/wrapper/Json/JsonHelper.cpp
@@ -4,6 +4,7 @@
 
 #include "JsonHelper.h"
 
+#include <limits>
 #include <utility>
 
 std::optional<int> JsonHelper::getNumber(Json::object jsonObject, std::string key) {
@@ -14,7 +15,12 @@ std::optional<int> JsonHelper::getNumber(Json::object jsonObject, std::string ke
       return std::nullopt;
     }
 
-    return jsonDpi->second.int_value();
+    const auto value = jsonDpi->second.number_value();
+    if (!(value >= std::numeric_limits<int>::min() && value <= std::numeric_limits<int>::max())) {
+      return std::nullopt;
+    }
+
+    return static_cast<int>(value);
   }
 
   return std::nullopt;
-- 
2.43.0


From 8af24eecb91b997dfdd30ebb92e92c30cacda698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:26 +0000
Subject: [PATCH 098/105] fix: keep remove_knees in the JSON form of the
 fitting options

---
 src/wrapper/FittingOptions.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wrapper/FittingOptions.cpp b/src/wrapper/FittingOptions.cpp
index 91f5dd8..bc2ce64 100644
--- a/src/wrapper/FittingOptions.cpp
+++ b/src/wrapper/FittingOptions.cpp
@@ -78,6 +78,7 @@ FittingOptions::FittingOptions(json11::Json fittingOptionsJson) : FittingOptions
   setDecimal(noise_removal, "noise_removal");
   setDecimal(width_weight_factor, "width_weight_factor");
   setBoolean(remove_adjacent_corners, "remove_adjacent_corners");
+  setBoolean(remove_knees, "remove_knees");
   setBoolean(centerline, "centerline");
   setBoolean(preserve_width, "preserve_width");
 }
@@ -107,6 +108,7 @@ json11::Json FittingOptions::toJson() const {
   fittingOptionsJson.emplace("noise_removal", noise_removal);
   fittingOptionsJson.emplace("width_weight_factor", width_weight_factor);
   fittingOptionsJson.emplace("remove_adjacent_corners", remove_adjacent_corners);
+  fittingOptionsJson.emplace("remove_knees", remove_knees);
   fittingOptionsJson.emplace("centerline", centerline);
   fittingOptionsJson.emplace("preserve_width", preserve_width);
 
-- 
2.43.0


From 7c39587e57da2cfe1ee38f158117dfae51eaf502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:49 +0000
Subject: [PATCH 099/105] fix: give Options background colours of its own

It kept pointers into the objects it was made from, which need not live as
long as it does.
---
 src/wrapper/Options.cpp | 19 +++++++++++++++++--
 src/wrapper/Options.h   |  2 ++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/wrapper/Options.cpp b/src/wrapper/Options.cpp
index 2db88e1..7074907 100644
--- a/src/wrapper/Options.cpp
+++ b/src/wrapper/Options.cpp
@@ -4,9 +4,24 @@
 
 #include "Options.h"
 
+// A copy of the options with a background colour of its own
+template<typename T>
+static T copyOptions(T options) {
+  options.background_color = at_color_copy(options.background_color);
+  return options;
+}
+
 Options::Options(const at_fitting_opts_type &fittingOptions, const at_input_opts_type &inputOptions,
-                 const at_output_opts_type &outputOptions) : fittingOptions(fittingOptions),
-                                                             inputOptions(inputOptions),
+                 const at_output_opts_type &outputOptions) : fittingOptions(copyOptions(fittingOptions)),
+                                                             inputOptions(copyOptions(inputOptions)),
                                                              outputOptions(outputOptions) {
 
 }
+
+Options::Options(const Options &other) : Options(other.fittingOptions, other.inputOptions, other.outputOptions) {
+}
+
+Options::~Options() {
+  at_color_free(fittingOptions.background_color);
+  at_color_free(inputOptions.background_color);
+}
diff --git a/src/wrapper/Options.h b/src/wrapper/Options.h
index 688c3a1..5d3e41c 100644
--- a/src/wrapper/Options.h
+++ b/src/wrapper/Options.h
@@ -12,6 +12,8 @@ public:
   Options(const at_fitting_opts_type &fittingOptions,
           const at_input_opts_type &inputOptions,
           const at_output_opts_type &outputOptions);
+  Options(const Options &other);
+  ~Options();
 
   const at_fitting_opts_type fittingOptions;
   const at_input_opts_type inputOptions;
-- 
2.43.0


From 110f3f43cfd0fbb76487ea10416390785b6965b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:05 +0000
Subject: [PATCH 100/105] fix: report every failed conversion from
 produceOutput

Messages of the reader, the tracer and the writer were ignored, as were errors
of the output file.  A file that cannot be read left the bitmap and the output
file behind.
---
 src/wrapper/autotrace.cpp | 45 ++++++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/wrapper/autotrace.cpp b/src/wrapper/autotrace.cpp
index 57c9b89..dc3d0ac 100644
--- a/src/wrapper/autotrace.cpp
+++ b/src/wrapper/autotrace.cpp
@@ -4,6 +4,16 @@
 
 #include "Autotrace.h"
 
+#include <cerrno>
+#include <cstring>
+
+static void recordFatal(const char *message, at_msg_type type, void *error) {
+  auto &fatal = *static_cast<std::string *>(error);
+  if (type == AT_MSG_FATAL && fatal.empty()) {
+    fatal = message;
+  }
+}
+
 Autotrace::Autotrace(const std::string &inputFile, const std::string &outputFile, const Options &options) : inputFile(
     inputFile), outputFilePath(outputFile), options(options) {
   autotrace_init();
@@ -25,24 +35,39 @@ nonstd::expected<void, std::string> Autotrace::produceOutput() {
     return nonstd::make_unexpected("Unable to open file " + outputFilePath);
   }
 
+  std::string error;
   const auto bitmap = at_bitmap_read(inputReader, const_cast<char *>(inputFile.c_str()),
-                                     const_cast<at_input_opts_type *>(&options.inputOptions), nullptr, nullptr);
+                                     const_cast<at_input_opts_type *>(&options.inputOptions), recordFatal, &error);
 
-    if (bitmap->bitmap == nullptr) {
-        return nonstd::make_unexpected("Unable to open file " + inputFile);
-    }
+  if (bitmap->bitmap == nullptr || !error.empty()) {
+    fclose(outputFile);
+    at_bitmap_free(bitmap);
+    return nonstd::make_unexpected("Unable to open file " + inputFile + (error.empty() ? "" : ": " + error));
+  }
 
-  const auto splines = at_splines_new_full(bitmap, const_cast<at_fitting_opts_type *>(&options.fittingOptions), nullptr,
-                                           nullptr, nullptr, nullptr, nullptr, nullptr);
+  const auto splines = at_splines_new_full(bitmap, const_cast<at_fitting_opts_type *>(&options.fittingOptions),
+                                           recordFatal, &error, nullptr, nullptr, nullptr, nullptr);
 
-  at_splines_write(outputWriter, outputFile, const_cast<char *>(outputFilePath.c_str()),
-                   const_cast<at_output_opts_type *>(&options.outputOptions), splines, nullptr, nullptr);
+  if (splines != nullptr && error.empty()) {
+    at_splines_write(outputWriter, outputFile, const_cast<char *>(outputFilePath.c_str()),
+                     const_cast<at_output_opts_type *>(&options.outputOptions), splines, recordFatal, &error);
+  }
 
-  fclose(outputFile);
+  const bool incomplete = ferror(outputFile) != 0;
+  if ((fclose(outputFile) != 0 || incomplete) && error.empty()) {
+    error = "Unable to write file " + outputFilePath + ": " + strerror(errno);
+  }
 
-  at_splines_free(splines);
+  if (splines != nullptr) {
+    at_splines_free(splines);
+  } else if (error.empty()) {
+    error = "Unable to trace " + inputFile;
+  }
   at_bitmap_free(bitmap);
 
+  if (!error.empty()) {
+    return nonstd::make_unexpected(error);
+  }
   return nonstd::expected<void, std::string>();
 }
 
-- 
2.43.0


From b819bee117f62097536edaf468d895ce91cf435b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:06 +0000
Subject: [PATCH 101/105] fix: return an error for options that are not JSON
 objects

autotraceRun() ended with an exception instead of an unsuccessful result.
---
 src/wrapper/autotraceMain.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/wrapper/autotraceMain.cpp b/src/wrapper/autotraceMain.cpp
index c6ed093..468f17b 100644
--- a/src/wrapper/autotraceMain.cpp
+++ b/src/wrapper/autotraceMain.cpp
@@ -36,18 +36,27 @@ Result autotraceRun(const uintptr_t inputBuffer, const size_t inputBufferSize,
   if (!jsonError.empty()) {
     return {false, "Fitting options json error : " + jsonError};
   }
+  if (!jsonResult.is_object()) {
+    return {false, "Fitting options are not an object"};
+  }
   FittingOptions fittingOptions{jsonResult};
 
   jsonResult = Json::parse(inputOptionsJson, jsonError, STANDARD);
   if (!jsonError.empty()) {
     return {false, "Fitting options json error : " + jsonError};
   }
+  if (!jsonResult.is_object()) {
+    return {false, "Input options are not an object"};
+  }
   InputOptions inputOptions{jsonResult};
 
   jsonResult = Json::parse(outputOptionsJson, jsonError, STANDARD);
   if (!jsonError.empty()) {
     return {false, "Fitting options json error : " + jsonError};
   }
+  if (!jsonResult.is_object()) {
+    return {false, "Output options are not an object"};
+  }
   OutputOptions outputOptions{jsonResult};
 
   std::ofstream inputFile(inputPath, std::ofstream::binary);
-- 
2.43.0


From 58e7d8b7f5fd1ef50fccd9417109e1897c0e25b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:24 +0000
Subject: [PATCH 102/105] fix: dxf: draw curves shorter than half a pixel

---
 src/output-dxf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/output-dxf.c b/src/output-dxf.c
index 2783c0b..c04b3dc 100644
--- a/src/output-dxf.c
+++ b/src/output-dxf.c
@@ -529,6 +529,8 @@ int bspline_to_lines(xypnt_head_rec * vtx_list /*  */ ,
     total_length = get_total_length(vtx_list);
     r = (spline_resolution == 0) ? sqrt(total_length) : total_length / spline_resolution;
     number_of_segments = lround(r);
+    if (number_of_segments < 1)
+      number_of_segments = 1;
     spline_step = ((double)knot[vtx_count + spline_order - 1]) / number_of_segments;
     for (knot_index = spline_order - 1; knot_index < vtx_count; knot_index++) {
       for (i = 0; i <= vtx_count + spline_order - 2; i++)
-- 
2.43.0


From 55a9d1641c1db1c75c24d45114b5f660bc00c3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:06:57 +0000
Subject: [PATCH 103/105] fix: ugs: take the right bearing from the greatest
 column of the character

The greatest column was computed from the advance width as if it were a
bearing, so that characters with a wide advance got a wrong right bearing.
---
 src/output-ugs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output-ugs.c b/src/output-ugs.c
index a477825..713fc7a 100644
--- a/src/output-ugs.c
+++ b/src/output-ugs.c
@@ -287,7 +287,7 @@ int output_ugs_writer(FILE *file, char *name, int llx, int lly, int urx, int ury
   fprintf(file, "symbol %#lx design-size %ld\n", ugs_charcode, ugs_design_pixels);
   fprintf(file, "\tadvance-width %ld\n", ugs_advance_width);
 
-  upperx = ugs_advance_width - ugs_max_col - 1;
+  upperx = ugs_max_col - 1;
   uppery = ugs_max_row;
 
   lowerx = ugs_left_bearing;
-- 
2.43.0


From 775491d102e77aa95bedb8d8367bc008a83e9060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:06:58 +0000
Subject: [PATCH 104/105] fix: bmp: find the palette size behind an array
 header

An OS/2 bitmap array has a header of 14 bytes before the file header, which
was counted as part of the palette.
---
 src/input-bmp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 595e37c..66ff413 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -148,6 +148,7 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
   Bitmap_Channel masks[4] = { { 0 } };
   struct Bitmap_File_Head_Struct Bitmap_File_Head = { { 0 } };
   struct Bitmap_Head_Struct Bitmap_Head = { 0 };
+  unsigned long HeadSize = 14;   /* of the file headers */
 
   fd = fopen(filename, "rb");
 
@@ -174,6 +175,7 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
 
   while (!strncmp(magick, "BA", 2))
   {
+	  HeadSize += 14;
 	  if (!ReadOK(fd, buffer, 12))
 	  {
 		  LOG("%s is not a valid BMP file", filename);
@@ -391,7 +393,7 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
   /* There should be some colors used! */
   
   ColormapSize =
-	  (Bitmap_File_Head.bfOffs - Bitmap_File_Head.biSize - 14) / Maps;
+	  (Bitmap_File_Head.bfOffs - Bitmap_File_Head.biSize - HeadSize) / Maps;
 
   if ((Bitmap_Head.biClrUsed == 0) &&
 	  (Bitmap_Head.biBitCnt <= 8))
-- 
2.43.0


From 932e2f3389a42bbe240d571636df93cd996de27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:43:23 +0000
Subject: [PATCH 105/105] fix: ILD writer raises its message after its frames
 are freed

A message function that writes another ILD drawing replaced the frames
of the drawing being written, which were then freed through NULL.
---
 src/output-ild.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/output-ild.c b/src/output-ild.c
index 85f33f0..f40ec93 100644
--- a/src/output-ild.c
+++ b/src/output-ild.c
@@ -973,7 +973,7 @@ void drawCubicBezier(double x1, double y1, double cx1, double cy1, double cx2, d
 }
 
 /* Parses the spline data and writes out ILDA (*.ILD) formatted file */
-static int OutputILDA(FILE * fdes, int llx, int lly, int urx, int ury, spline_list_array_type shape, at_exception_type * exp)
+static int OutputILDA(FILE * fdes, int llx, int lly, int urx, int ury, spline_list_array_type shape)
 {
   unsigned int this_list, this_spline;
   spline_list_type curr_list;
@@ -1026,10 +1026,8 @@ static int OutputILDA(FILE * fdes, int llx, int lly, int urx, int ury, spline_li
   }
 
   frameDrawFinish();
-  if (frame_point_count(drawframe) > 0xFFFF) {
-    at_exception_fatal(exp, "Output-Ild: too many points for one frame");
+  if (frame_point_count(drawframe) > 0xFFFF)
     return -1;
-  }
   writeILDA(fdes, drawsequence);
   return 0;
 }
@@ -1058,7 +1056,7 @@ int output_ild_writer(FILE *file, char *name, int llx, int lly, int urx, int ury
   anchor_thresh = 40;
 
   /* Output ILDA */
-  result = OutputILDA(file, llx, lly, urx, ury, shape, &exp);
+  result = OutputILDA(file, llx, lly, urx, ury, shape);
 
   if (result == 0 && file != stdout) {
     printf("Wrote %d frame with %d points (%d anchors", sequence_frame_count(drawsequence), frame_point_count(drawframe), inserted_anchor_points);
@@ -1072,5 +1070,9 @@ int output_ild_writer(FILE *file, char *name, int llx, int lly, int urx, int ury
   freeLaserSequence(drawsequence);
   drawsequence = NULL;
   drawframe = NULL;
+
+  /* The message function may write another drawing. */
+  if (result < 0)
+    at_exception_fatal(&exp, "Output-Ild: too many points for one frame");
   return result;
 }
-- 
2.43.0

