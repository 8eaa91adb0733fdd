From 723781f41af099be7fd3d2aec349b5bd220c89ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:41 +0000
Subject: [PATCH 001/101] fix: cwk_path_normalize in place kept wrong '..'
 segments of relative paths

---
 src/cwalk.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/cwalk.c b/src/cwalk.c
index e4c9a49..aec6baf 100755
--- a/src/cwalk.c
+++ b/src/cwalk.c
@@ -606,7 +606,9 @@ static size_t cwk_path_join_and_normalize_multiple(const char **paths,
   char *buffer, size_t buffer_size)
 {
   size_t pos;
-  bool absolute, has_segment_output;
+  size_t dropped;
+  bool absolute, has_segment_output, removed;
+  enum cwk_segment_type type;
   struct cwk_segment_joined sj;
 
   // We initialize the position after the root, which should get us started.
@@ -631,10 +633,28 @@ static size_t cwk_path_join_and_normalize_multiple(const char **paths,
   // this flag once there is some output.
   has_segment_output = false;
 
+  // Counts the normal segments dropped so far whose back segment is still to
+  // come. The segments before the current one can not be inspected for that,
+  // since the output may already have been written over them.
+  dropped = 0;
+
   do {
     // Check whether we have to drop this segment because of resolving a
     // relative path or because it is a CWK_CURRENT segment.
-    if (cwk_path_segment_will_be_removed(&sj, absolute)) {
+    type = cwk_path_get_segment_type(&sj.segment);
+    if (type == CWK_BACK && !absolute) {
+      removed = dropped > 0;
+      if (removed) {
+        --dropped;
+      }
+    } else {
+      removed = cwk_path_segment_will_be_removed(&sj, absolute);
+      if (removed && type == CWK_NORMAL) {
+        ++dropped;
+      }
+    }
+
+    if (removed) {
       continue;
     }
 
-- 
2.43.0


From b1c7877c24c3df20e129fe4e9c252f22e98832c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:10 +0000
Subject: [PATCH 002/101] fix: xarray overflowed the heap when shrinking its
 storage

---
 src/array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array.c b/src/array.c
index 79374b0..15f4bd1 100644
--- a/src/array.c
+++ b/src/array.c
@@ -169,7 +169,7 @@ size_t XArray_Realloc(xarray_t *pArr)
             return 0;
         }
 
-        size_t nCopySize = sizeof(xarray_data_t*) * pArr->nSize;
+        size_t nCopySize = sizeof(xarray_data_t*) * nUsed;
         memcpy(pData, pArr->pData, nCopySize);
 
         free(pArr->pData);
-- 
2.43.0


From ac6ba5e85e98c5c889e16710d59839cb29c20f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:45 +0000
Subject: [PATCH 003/101] fix: adding to a full fixed-size xarray wrote past
 its storage

---
 src/array.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/array.c b/src/array.c
index 15f4bd1..6dede7a 100644
--- a/src/array.c
+++ b/src/array.c
@@ -197,7 +197,10 @@ size_t XArray_CheckSpace(xarray_t *pArr)
         pArr->nAlloc = nAlloc;
     }
     else if (pArr->nUsed >= pArr->nSize)
+    {
+        if (pArr->nFixed) return 0;
         return XArray_Realloc(pArr);
+    }
 
     return pArr->pData == NULL ? 0 : 1;
 }
-- 
2.43.0


From 911a79b99c658aff8439546b47f4508dc23fa9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:14 +0000
Subject: [PATCH 004/101] fix: XArray_Delete left the freed element in the
 array

---
 src/array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array.c b/src/array.c
index 6dede7a..d5685b1 100644
--- a/src/array.c
+++ b/src/array.c
@@ -310,7 +310,7 @@ xarray_data_t* XArray_Remove(xarray_t *pArr, size_t nIndex)
 
 void XArray_Delete(xarray_t *pArr, size_t nIndex)
 {
-    xarray_data_t *pData = XArray_Get(pArr, nIndex);
+    xarray_data_t *pData = XArray_Remove(pArr, nIndex);
     if (pData != NULL) XArray_ClearData(pArr, pData);
 }
 
-- 
2.43.0


From cc503bbb54a974d6efc926f8f1be68af826e6fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:38 +0000
Subject: [PATCH 005/101] fix: untar read past the archive when an entry's size
 exceeds it

---
 src/muntar.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/muntar.c b/src/muntar.c
index 3a484c1..0bab08f 100644
--- a/src/muntar.c
+++ b/src/muntar.c
@@ -220,6 +220,11 @@ int muntar_to_path(const char *path, const uint8_t *buf,
 			const size_t namelen = strlen(header->name);
 			if(p-tpath+namelen>1023) return(MTAR_EOPENFAIL);
 			strcpy(p,header->name);
+			if(header->size > tar.max - tar.iterator.cursor) {
+				fprintf(stderr,"Truncated file in archive: %s\n",
+					header->name);
+				return(MTAR_EREADFAIL);
+			}
 			FILE *fp = fopen(tpath,"wb");
 			if(!fp) {
 				fprintf(stderr,
@@ -313,6 +318,11 @@ int mtar_next(mtar_t *tar)
 
 	if (tar->iterator.offset == UINT64_MAX) return MTAR_ENULLRECORD;
 
+	if (tar->iterator.header.size > tar->max) {
+		/* larger than the archive: don't let position wrap around */
+		err = MTAR_ESEEKFAIL;
+		goto ESCAPE;
+	}
 	position = tar->iterator.offset + 512 + tar->iterator.header.size;
 	position = (size_t) ( (uint64_t)(position + 511) & (uint64_t) (~0x01FF) );
 	err = mtar_seek(tar, position);
-- 
2.43.0


From bec4db4c573263d17048b7fc650ee7083e78f306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:38 +0000
Subject: [PATCH 006/101] fix: untar wrote outside its target directory for
 names with '..'

---
 src/muntar.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/muntar.c b/src/muntar.c
index 0bab08f..d164498 100644
--- a/src/muntar.c
+++ b/src/muntar.c
@@ -165,6 +165,19 @@ static int mtar_rewind(mtar_t *tar) {
 #define makedir(path) mkdir(path,0755)
 #endif
 
+// true if a path has a ".." component, which leads outside of the
+// directory an archive is extracted to
+static int has_parent_ref(const char *path) {
+	const char *p = path;
+	while(*p) {
+		size_t len = strcspn(p,"/\\");
+		if(len==2 && p[0]=='.' && p[1]=='.') return 1;
+		p += len;
+		if(*p) p++;
+	}
+	return 0;
+}
+
 // used by extract_assets(char *tmpdir)
 int muntar_to_path(const char *path, const uint8_t *buf,
 		  const unsigned int len) {
@@ -187,6 +200,9 @@ int muntar_to_path(const char *path, const uint8_t *buf,
 		mtar_header(&tar, &header);
 		switch(header->type) {
 		case MTAR_TDIR:
+			if(has_parent_ref(header->path)
+			   || has_parent_ref(header->name))
+				return(MTAR_EFAILURE);
 			if(header->path[0]!=0) { // subdir
 				const size_t subdirlen = strlen(header->path);
 				if(p-tpath+subdirlen>1023) return(MTAR_EOPENFAIL);
@@ -210,6 +226,9 @@ int muntar_to_path(const char *path, const uint8_t *buf,
 		mtar_header(&tar, &header);
 		switch(header->type) {
 		case MTAR_TREG:
+			if(has_parent_ref(header->path)
+			   || has_parent_ref(header->name))
+				return(MTAR_EFAILURE);
 			if(header->path[0]!=0) { // subdir
 				const size_t subdirlen = strlen(header->path);
 				if(p-tpath+subdirlen>1023) return(MTAR_EOPENFAIL);
-- 
2.43.0


From c2962cee9c2418bed6cd3761602c3d38f0448d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:38 +0000
Subject: [PATCH 007/101] fix: untar reported success after stopping at a
 corrupted header

---
 src/muntar.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/muntar.c b/src/muntar.c
index d164498..d3c0c62 100644
--- a/src/muntar.c
+++ b/src/muntar.c
@@ -216,7 +216,11 @@ int muntar_to_path(const char *path, const uint8_t *buf,
 			makedir(tpath);
 			break;
 		}
-		mtar_next(&tar);
+		res = mtar_next(&tar);
+	}
+	if(res == MTAR_EBADCHKSUM) {
+		fprintf(stderr,"Corrupted header in archive: %s\n",path);
+		return(MTAR_EBADCHKSUM);
 	}
 	mtar_rewind(&tar);
 	while(!mtar_eof(&tar)) {
-- 
2.43.0


From a1f1b79e0547b373edb2f99b91951a75312154eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:38 +0000
Subject: [PATCH 008/101] fix: untargz failed on archives compressed by more
 than ten times

---
 src/muntar.c | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/muntar.c b/src/muntar.c
index d3c0c62..26179ad 100644
--- a/src/muntar.c
+++ b/src/muntar.c
@@ -269,7 +269,7 @@ int muntar_to_path(const char *path, const uint8_t *buf,
 #if !defined(NOGUNZIP)
 // gunzip and untar all in one
 #include <tinf.h>
-#define DECOMPRESSED_SIZE_RATIO 10 // raise this on errors
+#define DEFLATE_MAX_RATIO 1032
 int muntargz_to_path(const char *path, const uint8_t *buf,
 		    const unsigned int len) {
 	if(!buf) {
@@ -283,17 +283,31 @@ int muntargz_to_path(const char *path, const uint8_t *buf,
 		return(-1);
 	}
 	int res;
-	unsigned int destlen = len*DECOMPRESSED_SIZE_RATIO;
-	uint8_t *dest = malloc(destlen);
+	unsigned int destlen;
+	// the last four bytes of a gzip file are the size of its contents,
+	// which deflate can't make more than 1032 times smaller
+	if(len<18) {
+		fprintf(stderr,"%s: not a gzip file\n",__func__);
+		return(-1);
+	}
+	destlen = (unsigned int)buf[len-4]
+		| (unsigned int)buf[len-3] << 8
+		| (unsigned int)buf[len-2] << 16
+		| (unsigned int)buf[len-1] << 24;
+	if(destlen/DEFLATE_MAX_RATIO > len) {
+		fprintf(stderr,"%s: invalid gzip size\n",__func__);
+		return(-1);
+	}
+	uint8_t *dest = malloc(destlen?destlen:1);
+	if(!dest) {
+		fprintf(stderr,"%s: out of memory\n",__func__);
+		return(-1);
+	}
 	res = tinf_gzip_uncompress(dest,&destlen,buf,len);
-	// fprintf(stdout,"Compressed source length: %u\n",len);
-	// fprintf(stdout,"Uncompressed destination length: %u\n",destlen);
-	// fprintf(stdout,"Max buffer length: %u\n",len*6);
-	// fprintf(stdout,"Multiplier ratio: %u\n",destlen/len);
 	if(res != TINF_OK) {
 		fprintf(stderr,"Error in gunzip decompression (untargz_to_path)\n");
 		free(dest);
-		exit(res);
+		return(res);
 	}
 	res = muntar_to_path(path, dest, destlen);
 	free(dest);
-- 
2.43.0


From c09976e60db2daeec14ad8e3b71bf3547dbc4ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:38 +0000
Subject: [PATCH 009/101] fix: --xtgz exited with success when the extraction
 failed

---
 src/main.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index da30183..1df7d76 100644
--- a/src/main.c
+++ b/src/main.c
@@ -265,8 +265,7 @@ int main(int argc, char **argv) {
 			  file_load(opt.arg, &len);
 		  if(!targz) exit(1);
 		  if(!len) exit(1);
-		  muntargz_to_path(".",targz,len);
-		  exit(0);
+		  exit(muntargz_to_path(".",targz,len)==0 ? 0 : 1);
 	  }
 	  else if (c == '?') _err("unknown opt: -%c\n", opt.opt? opt.opt : ':');
 	  else if (c == ':') _err("missing arg: -%c\n", opt.opt? opt.opt : ':');
-- 
2.43.0


From aeca95ba7c3ff843fc17f72881827a6c2a628f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:14 +0000
Subject: [PATCH 010/101] fix: untar ignored errors writing the extracted files

---
 src/muntar.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/muntar.c b/src/muntar.c
index 26179ad..9f57d48 100644
--- a/src/muntar.c
+++ b/src/muntar.c
@@ -256,9 +256,15 @@ int muntar_to_path(const char *path, const uint8_t *buf,
 				perror("Reason: ");
 				return(MTAR_EWRITEFAIL);
 			}
-			fwrite(&tar.buffer[tar.iterator.cursor],
-			       1,header->size,fp);
-			fclose(fp);
+			size_t written = fwrite(&tar.buffer[tar.iterator.cursor],
+						1,header->size,fp);
+			if(fclose(fp)!=0 || written!=header->size) {
+				fprintf(stderr,
+					"Error writing file: %s\n",
+					tpath);
+				perror("Reason: ");
+				return(MTAR_EWRITEFAIL);
+			}
 			break;
 		}
 		mtar_next(&tar);
-- 
2.43.0


From 619c248a05f58aebe10cf140b7236bcc9536db76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:20 +0000
Subject: [PATCH 011/101] fix: comma expression under sizeof/_Generic kept the
 type of a memory operand

---
 lib/tinycc/tccgen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 57bc493..3ec540b 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -6571,7 +6571,7 @@ ST_FUNC void gexpr(void)
         convert_parameter_type(&vtop->type);
 
         /* make builtin_constant_p((1,2)) return 0 (like on gcc) */
-        if ((vtop->r & VT_VALMASK) == VT_CONST && nocode_wanted && !CONST_WANTED)
+        if ((vtop->r & (VT_VALMASK | VT_LVAL)) == VT_CONST && nocode_wanted && !CONST_WANTED)
             gv(RC_TYPE(vtop->type.t));
     }
 }
-- 
2.43.0


From 649c770c4df637a012ab2a4fa0da7fc40f95c0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:20 +0000
Subject: [PATCH 012/101] fix: promoted unsigned bit-field narrower than int
 has type int

---
 lib/tinycc/tccgen.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 3ec540b..866d1ad 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -1838,6 +1838,9 @@ ST_FUNC int gv(int rc)
             /* NOTE: transformed to SHR if unsigned */
             gen_op(TOK_SAR);
         }
+        /* integer promotion: int can represent all values */
+        if ((type.t & VT_BTYPE) == VT_INT && bit_size < 32)
+            vtop->type.t &= ~VT_UNSIGNED;
         r = gv(rc);
     } else {
         if (is_float(vtop->type.t) && 
-- 
2.43.0


From ed8d4d3244320049d35215b2ae0c0c1c6c37226f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:20 +0000
Subject: [PATCH 013/101] fix: result of !, && and || has type int even when
 the operand was cast

---
 lib/tinycc/tccgen.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 866d1ad..ea5a113 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -1035,6 +1035,9 @@ static void gvtst_set(int inv, int t)
         gen_op(TOK_NE);
         if (vtop->r != VT_CMP) /* must be VT_CONST then */
             vset_VT_CMP(vtop->c.i != 0);
+    } else {
+        /* may have been cast to another type */
+        vtop->type.t = VT_INT;
     }
 
     p = inv ? &vtop->jfalse : &vtop->jtrue;
@@ -1077,6 +1080,8 @@ static void gen_test_zero(int op)
             vtop->jtrue = j;
             vtop->cmp_op ^= 1;
         }
+        /* may have been cast to another type */
+        vtop->type.t = VT_INT;
     } else {
         vpushi(0);
         gen_op(op);
-- 
2.43.0


From 3ebbece2c3b27103e2da30af10df0197019b2c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:14 +0000
Subject: [PATCH 014/101] fix: converting to long double clobbered a long
 double operand in st(0)

---
 lib/tinycc/x86_64-gen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/tinycc/x86_64-gen.c b/lib/tinycc/x86_64-gen.c
index 4f46efc..c4aea15 100644
--- a/lib/tinycc/x86_64-gen.c
+++ b/lib/tinycc/x86_64-gen.c
@@ -2121,7 +2121,7 @@ void gen_cvt_ftof(int t)
             o(0x5a0f); /* cvtps2pd */
             o(0xc0 + REG_VALUE(vtop->r)*9);
         } else if (tbt == VT_LDOUBLE) {
-            save_reg(RC_ST0);
+            save_reg(TREG_ST0);
             /* movss %xmm0,-0x10(%rsp) */
             o(0x110ff3);
             o(0x44 + REG_VALUE(vtop->r)*8);
@@ -2137,7 +2137,7 @@ void gen_cvt_ftof(int t)
             o(0x5a0f66); /* cvtpd2ps */
             o(0xc0 + REG_VALUE(vtop->r)*9);
         } else if (tbt == VT_LDOUBLE) {
-            save_reg(RC_ST0);
+            save_reg(TREG_ST0);
             /* movsd %xmm0,-0x10(%rsp) */
             o(0x110ff2);
             o(0x44 + REG_VALUE(vtop->r)*8);
-- 
2.43.0


From 17879d63890f72a831c7edc0d46a0c2a6b63e1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:14 +0000
Subject: [PATCH 015/101] fix: long double to integer conversion rounded
 through double

---
 lib/tinycc/x86_64-gen.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lib/tinycc/x86_64-gen.c b/lib/tinycc/x86_64-gen.c
index c4aea15..8fca21b 100644
--- a/lib/tinycc/x86_64-gen.c
+++ b/lib/tinycc/x86_64-gen.c
@@ -2174,8 +2174,19 @@ void gen_cvt_ftoi(int t)
     ft = vtop->type.t;
     bt = ft & VT_BTYPE;
     if (bt == VT_LDOUBLE) {
-        gen_cvt_ftof(VT_DOUBLE);
-        bt = VT_DOUBLE;
+        /* not via double, which would round the value first */
+        gv(RC_ST0);
+        r = REG_VALUE(get_reg(RC_INT));
+        o(0xf8247cd9); /* fnstcw -0x8(%rsp) */
+        o(0x44b70f + (r << 19)), o(0xf824); /* movzwl -0x8(%rsp), r */
+        o(0xc88166 + (r << 16)), g(0x00), g(0x0c); /* or $0xc00, r: truncate */
+        o(0x448966 + (r << 19)), o(0xfa24); /* movw r, -0x6(%rsp) */
+        o(0xfa246cd9); /* fldcw -0x6(%rsp) */
+        o(0xf0247cdf); /* fistpll -0x10(%rsp) */
+        o(0xf8246cd9); /* fldcw -0x8(%rsp) */
+        o(0x448b48 + (r << 19)), o(0xf024); /* mov -0x10(%rsp), r */
+        vtop->r = r;
+        return;
     }
 
     gv(RC_FLOAT);
-- 
2.43.0


From 3aaa58d29fe07507c04cd48694ce3bf792026edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:14 +0000
Subject: [PATCH 016/101] fix: hexadecimal floating constants lost precision
 beyond double

---
 lib/tinycc/tccpp.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index 6f2bc17..1556058 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -2252,6 +2252,9 @@ static void parse_number(const char *p)
     char *q;
     unsigned int bn[BN_SIZE];
     double d;
+#ifndef _WIN32
+    const char *p0 = p;
+#endif
 
     /* number */
     q = token_buf;
@@ -2385,6 +2388,21 @@ static void parse_number(const char *p)
                 tok = TOK_CDOUBLE;
                 tokc.d = d;
             }
+#ifndef _WIN32
+            /* ISOC99 libc: correctly rounded for any number of digits */
+            if (b == 16) {
+                if (tok == TOK_CFLOAT)
+                    tokc.f = strtof(p0, NULL);
+                else if (tok == TOK_CDOUBLE)
+                    tokc.d = strtod(p0, NULL);
+                else
+#ifdef TCC_USING_DOUBLE_FOR_LDOUBLE
+                    tokc.d = strtod(p0, NULL);
+#else
+                    tokc.ld = strtold(p0, NULL);
+#endif
+            }
+#endif
         } else {
             /* decimal floats */
             if (ch == '.') {
-- 
2.43.0


From e071a554ed0b171f48893a0301407e4457869218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:14 +0000
Subject: [PATCH 017/101] fix: folding of double constants rounded twice

---
 lib/tinycc/tccgen.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index ea5a113..186f684 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -2525,9 +2525,16 @@ static void gen_opif(int op)
         if (!(ieee_finite(f1) || !ieee_finite(f2)) && !CONST_WANTED)
             goto general_case;
         switch(op) {
-        case '+': f1 += f2; break;
-        case '-': f1 -= f2; break;
-        case '*': f1 *= f2; break;
+        /* doubles are not rounded twice: compute in their own type */
+        case '+':
+            f1 = bt == VT_DOUBLE ? (double)f1 + (double)f2 : f1 + f2;
+            break;
+        case '-':
+            f1 = bt == VT_DOUBLE ? (double)f1 - (double)f2 : f1 - f2;
+            break;
+        case '*':
+            f1 = bt == VT_DOUBLE ? (double)f1 * (double)f2 : f1 * f2;
+            break;
         case '/': 
             if (f2 == 0.0) {
                 union { float f; unsigned u; } x1, x2, y;
@@ -2546,7 +2553,7 @@ static void gen_opif(int op)
                 f1 = y.f;
                 break;
             }
-            f1 /= f2;
+            f1 = bt == VT_DOUBLE ? (double)f1 / (double)f2 : f1 / f2;
             break;
         case TOK_NEG:
             f1 = -f1;
-- 
2.43.0


From cfe522651b78dc2c0b63b03aa29fd18e3ce55867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:28 +0000
Subject: [PATCH 018/101] fix: unnamed bit-fields do not align the struct or
 union they are in

An unnamed bit-field as wide as its type (long : 64) is no VT_BITFIELD, and
unnamed bit-fields of a union took another path: both raised the alignment
of the aggregate, unlike what the psABI says and gcc and clang do.
---
 lib/tinycc/tccgen.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 186f684..c16ba01 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -4201,14 +4201,6 @@ static void struct_layout(CType *type, AttributeDef *ad)
                     c += align, bit_pos -= align * 8;
                 offset = c;
 
-		/* In PCC layout named bit-fields influence the alignment
-		   of the containing struct using the base types alignment,
-		   except for packed fields (which here have correct align).  */
-		if (f->v & SYM_FIRST_ANOM
-                    // && bit_size // ??? gcc on ARM/rpi does that
-                    )
-		    align = 1;
-
 	    } else {
 		bt = f->type.t & VT_BTYPE;
 		if ((bit_pos + bit_size > size * 8)
@@ -4238,6 +4230,14 @@ static void struct_layout(CType *type, AttributeDef *ad)
 		        | (bit_pos << VT_STRUCT_SHIFT);
 	    bit_pos += bit_size;
 	}
+	/* In PCC layout named bit-fields influence the alignment
+	   of the containing struct using the base types alignment,
+	   except for packed fields (which here have correct align).
+	   Unnamed ones do not, also those that are as wide as their
+	   type (and so have no VT_BITFIELD) and those in unions.  */
+	if (pcc && (f->v & SYM_FIRST_ANOM)
+            && (f->type.t & VT_BTYPE) != VT_STRUCT)
+	    align = 1;
 	if (align > maxalign)
 	    maxalign = align;
 
-- 
2.43.0


From b72f17a091b2ae4cc8bd1e3b12c85d1786acc8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:56 +0000
Subject: [PATCH 019/101] fix: unnamed bit-fields at the end of a struct ended
 brace elision late

In  struct { int a; int : 3; } x[2] = { 1, 2 };  the unnamed bit-field was
taken for a member still to be initialised and the list was refused with
"too many initializers".
---
 lib/tinycc/tccgen.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index c16ba01..2b4f578 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -7929,6 +7929,10 @@ static void decl_initializer(init_params *p, CType *type, unsigned long c, int f
 		        f = NULL;
 		    else
 		        f = f->next;
+		    /* unnamed bit-fields at the end take no initializer */
+		    while (f && (f->v & SYM_FIRST_ANOM) &&
+			   is_integer_btype(f->type.t & VT_BTYPE))
+		        f = f->next;
 		    if (no_oblock && f == NULL)
 		        break;
 		}
-- 
2.43.0


From 7ef483b72adba4046f611bcd637b563ad51c382b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:56 +0000
Subject: [PATCH 020/101] fix: a designator after an unfinished elided
 aggregate refers to the braces

int a[2][2] = { 1, [1] = { 3 } };  set a[0][1], and a member designator in
that place was refused.
---
 lib/tinycc/tccgen.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 2b4f578..f13a2f1 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -7940,6 +7940,11 @@ static void decl_initializer(init_params *p, CType *type, unsigned long c, int f
 		if (tok == '}')
 		    break;
 		skip(',');
+		/* a designator refers to the object the braces are for */
+		if (no_oblock && (tok == '[' || tok == '.')) {
+		    unget_tok(',');
+		    break;
+		}
 	    }
         }
         if (!no_oblock)
-- 
2.43.0


From 2a0a259466ff38636273842db239ec8329d98132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:56 +0000
Subject: [PATCH 021/101] fix: a designated member clobbered the relocations of
 the whole array element

{ [1].p = x, [1].i = 0 } computed the size of the element, not of the
member, and so dropped the address stored in another member.
---
 lib/tinycc/tccgen.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index f13a2f1..efb8e12 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -7517,6 +7517,7 @@ static int decl_designator(init_params *p, CType *type, unsigned long c,
                 *cur_field = f;
 	    type = &f->type;
             c += cumofs;
+            elem_size = 0; /* the size of this member, see below */
         }
         cur_field = NULL;
     }
-- 
2.43.0


From e6aea5aaeba83f9928527f42412350d42f6cd0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:56 +0000
Subject: [PATCH 022/101] fix: initialising a static aggregate or bit-field
 again left or dropped old data

A second list or string for the same static sub-object has to replace it
completely; the bytes of the first one remained.  A bit-field initialised
again dropped a relocation behind it.
---
 lib/tinycc/tccgen.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index efb8e12..4d68644 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -7558,8 +7558,18 @@ static int decl_designator(init_params *p, CType *type, unsigned long c,
        than once.  In that case we need to delete possibly already
        existing relocations. */
     if (!(flags & DIF_SIZE_ONLY) && c - corig < al) {
-        decl_design_delrels(p->sec, c, elem_size * nb_elems);
+        /* (a bit-field has none, but its unit may reach into what follows) */
+        if (!(type->t & VT_BITFIELD))
+            decl_design_delrels(p->sec, c, elem_size * nb_elems);
         flags &= ~DIF_CLEAR; /* mark stack dirty too */
+        /* a new list or string replaces all of the aggregate */
+        if (p->sec && !NODATA_WANTED
+            && ((type->t & VT_ARRAY) || (type->t & VT_BTYPE) == VT_STRUCT)
+            && (tok == '{' || tok == TOK_STR || tok == TOK_LSTR)
+            && !(flags & DIF_HAVE_ELEM)) {
+            init_assert(p, c + elem_size * nb_elems);
+            memset(p->sec->data + c, 0, elem_size * nb_elems);
+        }
     }
 
     decl_initializer(p, type, c, flags & ~DIF_FIRST);
-- 
2.43.0


From 1536c0a448fe6990a2d487ac715044acd759261a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:19 +0000
Subject: [PATCH 023/101] fix: -C passed the TCC state for the CJIT one and
 crashed

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 1df7d76..e265ebf 100644
--- a/src/main.c
+++ b/src/main.c
@@ -208,7 +208,7 @@ int main(int argc, char **argv) {
 		  cjit_add_library(CJIT, opt.arg);
 	  } else if (c == 'C') { // cflags compiler options
 		  if(CJIT->verbose)_err("arg cflags: %s",opt.arg);
-		  cjit_set_tcc_options(CJIT->TCC, opt.arg);
+		  cjit_set_tcc_options(CJIT, opt.arg);
 	  } else if (c == 'I') { // include paths in cflags
 		  if(CJIT->verbose)_err("arg inc: %s",opt.arg);
 		  cjit_add_include_path(CJIT, opt.arg);
-- 
2.43.0


From 9182b833dfc4a98557d741d36fef917caa91626f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:19 +0000
Subject: [PATCH 024/101] fix: app arguments after -- with no or more than one
 file

The first argument was taken to be two places after the first file, which
only holds for a single file: with more of them the last ones were not
compiled but passed to the program, with none (standard input) the first
argument was lost.
---
 src/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index e265ebf..6d5a84e 100644
--- a/src/main.c
+++ b/src/main.c
@@ -270,7 +270,7 @@ int main(int argc, char **argv) {
 	  else if (c == '?') _err("unknown opt: -%c\n", opt.opt? opt.opt : ':');
 	  else if (c == ':') _err("missing arg: -%c\n", opt.opt? opt.opt : ':');
 	  else if (c == '-') { // -- separator
-		  arg_separator = opt.ind+1; break;
+		  arg_separator = opt.i; break; // first app argument
 	  }
   }
   if(!CJIT->quiet)
@@ -299,7 +299,7 @@ int main(int argc, char **argv) {
   int left_args = arg_separator? arg_separator: argc;
 
   char *stdin_code = NULL;
-  if(opt.ind >= argc) {
+  if(opt.ind >= left_args) {
 	  // no files on commandline
 	  if(CJIT->print_status) {
 		  cjit_status(CJIT);
-- 
2.43.0


From f687ac92aa77d69bbb7996b51aa3f3d66ae7b8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:19 +0000
Subject: [PATCH 025/101] fix: app arguments that look like ignored options
 were dropped

---
 src/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.c b/src/main.c
index 6d5a84e..be0832f 100644
--- a/src/main.c
+++ b/src/main.c
@@ -413,6 +413,7 @@ char** remove_args(int* argc, char** argv,
     // Second pass: process removal patterns
     for (int i = 0; i < *argc; i++) {
         if (!keep[i]) continue;  // Already marked for removal
+        if (strcmp(argv[i], "--") == 0) break; // the rest is for the app
         for (int j = 0; j < remove_count; j++) {
             const char* arg = argv[i];
             const char* pattern = to_remove[j];
-- 
2.43.0


From d94cbca61f10e51f14e4111955907644ff20e867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:33 +0000
Subject: [PATCH 026/101] fix: -c reported success and wrote an object for a
 source that failed

---
 src/cjit.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index 329b976..6b1c74c 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -500,12 +500,16 @@ bool cjit_compile_file(CJITState *cjit, const char *path) {
 		return false;
 	}
 	setup;
-	tcc_add_file(tcc(cjit), path);
+	if(tcc_add_file(tcc(cjit), path)<0) {
+		_err("%s: error: %s",__func__, path);
+		return false;
+	}
+	int res;
 	if(cjit->output_filename) {
 		if(!cjit->quiet)
 			_err("Compiling: %s -> %s",path,
 			     cjit->output_filename);
-		tcc_output_file(tcc(cjit),
+		res = tcc_output_file(tcc(cjit),
 				cjit->output_filename);
 	} else {
 		char *ext;
@@ -520,10 +524,10 @@ bool cjit_compile_file(CJITState *cjit, const char *path) {
 		strcpy(ext,".o");
 		if(!cjit->quiet)
 			_err("Compiling: %s -> %s",path,tmp);
-		tcc_output_file(tcc(cjit),tmp);
+		res = tcc_output_file(tcc(cjit),tmp);
 		free(tmp);
 	}
-	return true;
+	return((res<0)?false:true);
 }
 
 // link all setup and create an executable file
-- 
2.43.0


From 02b58aec18807b36b1d0781291e3eab4335539a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:20 +0000
Subject: [PATCH 027/101] fix: files that cannot be read or compiled were
 skipped and the rest run

A missing or unsupported source was reported and left out, and the program
run (or the executable made) without it.
---
 src/cjit.c | 4 ++--
 src/main.c | 8 +++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index 6b1c74c..257e096 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -454,10 +454,10 @@ bool cjit_add_source(CJITState *cjit, const char *path) {
 			free(tmp);
 		}
 	}
-	tcc_compile_string(tcc(cjit),contents);
+	res = tcc_compile_string(tcc(cjit),contents);
 	free(contents);
 	debug("+S %s",path);
-	return true;
+	return((res<0)?false:true);
 }
 
 bool cjit_add_file(CJITState *cjit, const char *path) {
diff --git a/src/main.c b/src/main.c
index be0832f..b487789 100644
--- a/src/main.c
+++ b/src/main.c
@@ -134,8 +134,9 @@ int main(int argc, char **argv) {
 	  int res = 0;
 	  CJIT->output_filename = "a.out";
 	  cjit_set_output(CJIT, EXE);
-	  cjit_add_file(CJIT, argv[1]);
-	  if(cjit_link(CJIT)<0) {
+	  if(!cjit_add_file(CJIT, argv[1])) {
+		  res = 1;
+	  } else if(cjit_link(CJIT)<0) {
 		  _err("Error in linker compiling to file: %s",
 		       CJIT->output_filename);
 		  res = 1;
@@ -367,7 +368,8 @@ int main(int argc, char **argv) {
 				  goto endgame;
 			  } else free(stdin_code);
 		  } else { // load any file path
-			  cjit_add_file(CJIT, code_path);
+			  if(!cjit_add_file(CJIT, code_path))
+				  goto endgame;
 		  }
 	  }
   }
-- 
2.43.0


From 53e379f7928fc180f4b2c90d658be9358e1e84b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:30 +0000
Subject: [PATCH 028/101] fix: source names with quotes, and includes next to
 the source

Sources were passed to TCC as a string behind a #line with their path, which
breaks on a quote or backslash in it, and looked up "x.h" in the working
directory before that of the source.  TCC now opens the file itself.
---
 lib/tinycc/tccpp.c | 13 ++++++++++++-
 src/cjit.c         | 39 +++++----------------------------------
 2 files changed, 17 insertions(+), 35 deletions(-)

diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index 1556058..c517825 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -3599,6 +3599,8 @@ static void putdefs(CString *cs, const char *p)
 
 static void tcc_predefs(TCCState *s1, CString *cs, int is_asm)
 {
+    const char *p;
+
     cstr_printf(cs, "#define __TINYC__ 9%.2s\n", TCC_VERSION + 4);
     putdefs(cs, target_machine_defs);
     putdefs(cs, target_os_defs);
@@ -3643,7 +3645,16 @@ static void tcc_predefs(TCCState *s1, CString *cs, int is_asm)
 #endif
         , -1);
     }
-    cstr_printf(cs, "#define __BASE_FILE__ \"%s\"\n", file->filename);
+    cstr_printf(cs, "#define __BASE_FILE__ \"");
+    for (p = file->filename; *p; p++) {
+        if (*p == '"' || *p == '\\')
+            cstr_ccat(cs, '\\');
+        if (*p == '\n')
+            cstr_printf(cs, "\\n");
+        else
+            cstr_ccat(cs, *p);
+    }
+    cstr_printf(cs, "\"\n");
 }
 
 ST_FUNC void preprocess_start(TCCState *s1, int filetype)
diff --git a/src/cjit.c b/src/cjit.c
index 257e096..078f6a9 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -411,38 +411,6 @@ bool cjit_add_source(CJITState *cjit, const char *path) {
 		_err("Encoding is not yet supported, execution aborted.");
 		return false;
 	}
-	FILE *file = fopen(path, "rb");
-	if (!file) {
-		fail(path);
-		return false;
-	}
-	char *spath = (char*)malloc((strlen(path)+16)*sizeof(char));
-	if (!spath) {
-		fail(path);
-		fclose(file);
-		return false;
-	}
-	sprintf(spath,"#line 1 \"%s\"\n",path);
-	size_t spath_len = strlen(spath);
-	char *contents =
-		(char*)malloc
-		((spath_len + length + 1)
-		 * sizeof(char));
-	if (!contents) {
-		fail(path);
-		free(spath);
-		fclose(file);
-		return false;
-	}
-	strcpy(contents,spath);
-	free(spath);
-	if(0== fread(contents+spath_len, 1, length, file)) {
-		fail(file);
-		fclose(file);
-		return false;
-	}
-	contents[length+spath_len] = 0x0;
-	fclose(file);
 	{ // if inside a dir then add dir to includes too
 		size_t dirname;
 		cwk_path_get_dirname(path,&dirname);
@@ -454,8 +422,11 @@ bool cjit_add_source(CJITState *cjit, const char *path) {
 			free(tmp);
 		}
 	}
-	res = tcc_compile_string(tcc(cjit),contents);
-	free(contents);
+	// let TCC open the file: names may have any character, lines and
+	// "includes" are relative to it, and any extension is C source
+	tcc_set_options(tcc(cjit),"-x c");
+	res = tcc_add_file(tcc(cjit),path);
+	tcc_set_options(tcc(cjit),"-x none");
 	debug("+S %s",path);
 	return((res<0)?false:true);
 }
-- 
2.43.0


From 18dc8f9e0676d49f0c0253f9f4a50cc98954a6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:31 +0000
Subject: [PATCH 029/101] fix: source files of less than three bytes could not
 be used

---
 src/cjit.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cjit.c b/src/cjit.c
index 078f6a9..e6c1745 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -375,10 +375,12 @@ static int detect_bom(const char *filename,size_t *filesize) {
 	*filesize = st.st_size;
 	res = read(fd,bom,3);
 	close(fd);
-	if (res!=3) {
+	if (res<0) {
 		fail(filename);
 		return -1;
 	}
+	if (res<3) // too short to have one
+		return 0;
 	// _err("%s bom: %x %x %x",filename,bom[0],bom[1],bom[2]);
 	if (bom[0] == 0xFF && bom[1] == 0xFE) {
 		return 1; // UTF-16 LE
-- 
2.43.0


From 7156133644ca2b8976c0e016bc3551f757931a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:31 +0000
Subject: [PATCH 030/101] fix: -c took only .c files and other include paths
 than running does

---
 src/cjit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cjit.c b/src/cjit.c
index e6c1745..47596a1 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -473,7 +473,7 @@ bool cjit_compile_file(CJITState *cjit, const char *path) {
 		return false;
 	}
 	setup;
-	if(tcc_add_file(tcc(cjit), path)<0) {
+	if(!cjit_add_source(cjit, path)) {
 		_err("%s: error: %s",__func__, path);
 		return false;
 	}
-- 
2.43.0


From 12bbaf099c5d3f70db3908adb1c5c47c14445bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:48 +0000
Subject: [PATCH 031/101] fix: source from standard input was appended to
 uninitialised memory

The first line was strcat'ed to what malloc happened to return, and the
buffer was measured again for each line.
---
 src/file.c | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/file.c b/src/file.c
index 7b15a64..152caa0 100644
--- a/src/file.c
+++ b/src/file.c
@@ -83,27 +83,30 @@ char *load_stdin() {
 	return NULL;
 #else
 	char *code = NULL;
-	char *line = NULL;
 	size_t len = 0;
-	ssize_t rd;
+	size_t size = 0;
+	size_t rd;
 	fflush(stdout);
 	fflush(stderr);
-	while(1) {
-		rd = getline(&line, &len, stdin);
-		if(rd == -1) { // ctrl+d
-			free(line);
-			break;
+	do {
+		if(size - len < 4096) {
+			size += size + 65536;
+			char *more = realloc(code, size);
+			if (!more) {
+				fail("malloc error");
+				free(code);
+				return NULL;
+			}
+			code = more;
 		}
-		code = realloc(code, (code?strlen(code):0) + len + 1);
-		if (!code) {
-			fail("malloc error");
-			free(line);
-			return NULL;
-		}
-		strcat(code, line);
-		free(line);
-		line = NULL;
+		rd = fread(code + len, 1, size - len - 1, stdin);
+		len += rd;
+	} while(rd > 0); // ctrl+d
+	if(!len) {
+		free(code);
+		return NULL;
 	}
+	code[len] = 0x0;
 	return(code);
 #endif
 }
-- 
2.43.0


From 1d942eedfb13448518af7ecf4d31d8c64b93265b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:48 +0000
Subject: [PATCH 032/101] fix: a message longer than 2040 bytes was written
 past its buffer

---
 src/cjit.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cjit.c b/src/cjit.c
index 47596a1..966a78f 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -677,6 +677,8 @@ void _out(const char *fmt, ...) {
   va_start(args, fmt);
   int len = vsnprintf(msg, MAX_STRING, fmt, args);
   va_end(args);
+  if(len < 0) return;
+  if(len >= MAX_STRING) len = MAX_STRING-1; // truncated
   msg[len] = '\n';
   msg[len+1] = 0x0; //safety
   if(write(fileno(stdout), msg, len+1) <0)
@@ -691,6 +693,8 @@ void _err(const char *fmt, ...) {
   va_start(args, fmt);
   len = vsnprintf(msg, MAX_STRING, fmt, args);
   va_end(args);
+  if(len < 0) return;
+  if(len >= MAX_STRING) len = MAX_STRING-1; // truncated
   msg[len] = '\n';
   msg[len+1] = 0x0;
   if(write(fileno(stderr),msg,len+1) <0)
-- 
2.43.0


From 635e47d0f4fc6d0516908763a01daeea5cf77fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:14 +0000
Subject: [PATCH 033/101] fix: interrupted or concurrent runs left or used
 incomplete runtime assets

---
 src/cjit.c | 90 +++++++++++++++++++++++++++++++++++++++---------------
 src/cjit.h |  4 +++
 2 files changed, 69 insertions(+), 25 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index 966a78f..2cd02ee 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -32,9 +32,12 @@
 #include <fcntl.h> // open(2)
 #include <inttypes.h>
 #include <sys/stat.h> // fstat(2)
+#if !defined(WINDOWS)
+#include <sys/file.h> // flock(2)
+#endif
 
 #define tcc(cjit) (TCCState*)cjit->TCC
-#define setup if(!cjit->done_setup)cjit_setup(cjit)
+#define setup if(!cjit->done_setup && !cjit_setup(cjit)) return(false)
 #define debug(fmt,par) if(cjit->verbose)_err(fmt,par)
 #define add(buf,s) if(s!=NULL)XArray_AddData((xarray_t*)cjit->buf,(char*)s,strlen(s)+1); else _err("!!! NULL var added to array: %s","buf")
 
@@ -50,6 +53,49 @@ extern bool    get_winsdkpath(char *dst, size_t destlen);
 // from file.c
 extern char *new_abspath(const char *path);
 
+#if !defined(WINDOWS)
+// file created in the default assets dir after extraction is complete
+#define ASSETS_COMPLETE ".complete"
+
+// open the assets dir and lock it until extraction is complete, so
+// that processes started at the same time never use half of the assets
+static bool lock_assets_dir(CJITState *cjit, const char *dir) {
+	char mark[MAX_PATH];
+	cwk_path_join(dir,ASSETS_COMPLETE,mark,MAX_PATH);
+	if(access(mark,F_OK)==0) {
+		cjit->fresh = false;
+		return true;
+	}
+	cjit->assets_lock = open(dir,O_RDONLY|O_DIRECTORY);
+	if(cjit->assets_lock<0) {
+		fail(dir);
+		return false;
+	}
+	while(flock(cjit->assets_lock,LOCK_EX)<0) {
+		if(errno==EINTR) continue;
+		fail(dir);
+		return false;
+	}
+	// another process may have finished meanwhile
+	cjit->fresh = access(mark,F_OK)!=0;
+	return true;
+}
+#endif
+
+// extract all runtime assets, unless already found complete
+bool cjit_extract_assets(CJITState *cjit, const char *optional_path) {
+	bool res = extract_assets(cjit,optional_path);
+#if !defined(WINDOWS)
+	if(cjit->assets_lock>=0) {
+		if(res && cjit->fresh)
+			res = write_to_file(cjit->tmpdir,ASSETS_COMPLETE,"",0);
+		close(cjit->assets_lock); // also releases the lock
+		cjit->assets_lock = -1;
+	}
+#endif
+	return res;
+}
+
 // second argument is optional and if left NULL then default path is
 // used: ${TEMPDIR}/CJIT-vN.N.N
 bool cjit_mkdtemp(CJITState *cjit, const char *optional_path) {
@@ -64,18 +110,14 @@ bool cjit_mkdtemp(CJITState *cjit, const char *optional_path) {
 		}
 #else
 		struct stat info;
-		if (stat(tempDir, &info) != 0) {
-			// stat() failed; the path does not exist
-			cjit->fresh = true;
-		} else if (info.st_mode & S_IFDIR) {
-			// The path exists and is a directory
-			cjit->fresh = false;
-		} else {
-			_err("Cannot overwrite runtime include dir: %s",tempDir);
-			// The path exists but is not a directory
+		// an explicit path is always populated
+		cjit->fresh = true;
+		if (mkdir(tempDir,0755) != 0 &&
+		    (stat(tempDir, &info) != 0 || !S_ISDIR(info.st_mode))) {
+			_err("Cannot create runtime assets dir: %s",tempDir);
+			free(tempDir);
 			return(false);
 		}
-		if(cjit->fresh) mkdir(tempDir,0755);
 #endif
 	} else {
 		tempDir = malloc(MAX_PATH+1);
@@ -110,19 +152,16 @@ bool cjit_mkdtemp(CJITState *cjit, const char *optional_path) {
 		}
 #else // POSIX
 		snprintf(tempDir,259,"/tmp/cjit-%s",VERSION);
-		struct stat info;
-		if (stat(tempDir, &info) != 0) {
-			// stat() failed; the path does not exist
-			cjit->fresh = true;
-		} else if (info.st_mode & S_IFDIR) {
-			// The path exists and is a directory
-			cjit->fresh = false;
-		} else {
-			_err("Temp dir is a file, cannot overwrite: %s",tempDir);
-			// The path exists but is not a directory
+		if (mkdir(tempDir,0755) != 0 && errno != EEXIST) {
+			_err("Failed to create temporary dir: %s",tempDir);
+			free(tempDir);
+			return(false);
+		}
+		if (!lock_assets_dir(cjit,tempDir)) {
+			_err("Cannot use temporary dir: %s",tempDir);
+			free(tempDir);
 			return(false);
 		}
-		if(cjit->fresh) mkdir(tempDir,0755);
 #endif
 	}
 	cjit->tmpdir = malloc(strlen(tempDir)+1);
@@ -140,6 +179,7 @@ CJITState* cjit_new() {
 	CJITState *cjit = NULL;
 	cjit = malloc(sizeof(CJITState));
 	memset(cjit,0x0,sizeof(CJITState));
+	cjit->assets_lock = -1;
 	// quiet is by default on when cjit's output is redirected
 	// errors will still be printed on stderr
 	cjit->quiet = isatty(fileno(stdout))?false:true;
@@ -184,9 +224,9 @@ static bool cjit_setup(CJITState *cjit) {
 	}
 #if !defined(SHAREDTCC)
 	// extract all runtime assets to tmpdir
-	if(!extract_assets(cjit,NULL)) {
-		fail("error extracting assets in temp dir");
-		return(NULL);
+	if(!cjit_extract_assets(cjit,NULL)) {
+		_err("Error extracting assets in temp dir");
+		return(false);
 	}
 #endif
 	tcc_set_output_type(tcc(cjit), cjit->tcc_output);
diff --git a/src/cjit.h b/src/cjit.h
index 9533b4f..93a4678 100644
--- a/src/cjit.h
+++ b/src/cjit.h
@@ -40,6 +40,7 @@ struct CJITState {
 	bool quiet; // print less to stderr
 	bool verbose; // print more to stderr
 	bool fresh; // tempdir is freshly created and needs to be populated
+	int assets_lock; // open lock on tempdir while it is being populated
 	int tcc_output; //
 	// #define TCC_OUTPUT_MEMORY   1 /* output will be run in memory */
 	// #define TCC_OUTPUT_EXE      2 /* executable file */
@@ -96,9 +97,12 @@ void cjit_set_tcc_options(CJITState *cjit, const char *opts);
 // from embedded.c - generated at build time
 extern bool extract_assets(CJITState *CJIT, const char *optional_path);
 extern bool cjit_mkdtemp(CJITState *cjit, const char *optional_path);
+// from cjit.c
+extern bool cjit_extract_assets(CJITState *cjit, const char *optional_path);
 /////////////
 // from file.c
 extern char* file_load(const char *filename, unsigned int *len);
+extern bool write_to_file(const char *path, const char *filename, const char *buf, unsigned int len);
 
 // terminal printing functions
 extern void _out(const char *fmt, ...);
-- 
2.43.0


From 6ac7c261a6f3fe3e3726a2154ed7341df21cbc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:14 +0000
Subject: [PATCH 034/101] fix: --xass ignored failures and printed the path as
 a format

---
 src/main.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/main.c b/src/main.c
index b487789..2044c3e 100644
--- a/src/main.c
+++ b/src/main.c
@@ -248,15 +248,12 @@ int main(int argc, char **argv) {
 #endif
 #if !defined(SHAREDTCC)
 	  } else if (c == 401) { // --xass
-		  if(opt.arg) {
-			  _err("Extracting runtime assets to:",opt.arg);
-			  extract_assets(CJIT,opt.arg);
-		  } else {
-			  extract_assets(CJIT,NULL);
-		  }
-		  _out(CJIT->tmpdir);
+		  if(opt.arg)
+			  _err("Extracting runtime assets to: %s",opt.arg);
+		  res = cjit_extract_assets(CJIT,opt.arg) ?0:1;
+		  if(res==0) _out("%s",CJIT->tmpdir);
 		  cjit_free(CJIT);
-		  exit(0);
+		  exit(res);
 #endif
 	  } else if (c == 501) { // --xtgz
 		  cjit_free(CJIT);
-- 
2.43.0


From 6e895369e41954898b22cbf67afa163e8f1d1baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:20 +0000
Subject: [PATCH 035/101] fix: -g, -W and -M without a value also dropped the
 next argument

---
 src/main.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.c b/src/main.c
index 2044c3e..8b3c844 100644
--- a/src/main.c
+++ b/src/main.c
@@ -106,8 +106,11 @@ const char *ignored_args[] = {
 	"-O",
 	"-O:",
 	"-f:",
+	"-W",
 	"-W:",
+	"-M",
 	"-M:",
+	"-g",
 	"-g:"
 };
 
-- 
2.43.0


From d2fb76a09c49edcabd4cc44237ff6850cd352a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:18 +0000
Subject: [PATCH 036/101] fix: link chains and ldscripts with more than one
 library were not resolved

---
 src/elflinker.c | 114 +++++++++++++++---------------------------------
 1 file changed, 35 insertions(+), 79 deletions(-)

diff --git a/src/elflinker.c b/src/elflinker.c
index 155dd51..d4bdf39 100644
--- a/src/elflinker.c
+++ b/src/elflinker.c
@@ -132,38 +132,18 @@ int resolve_libs(CJITState *cjit) {
 	return(XArray_Used(cjit->reallibs));
 }
 
+// path of the regular file found following all links, or NULL
 static char *new_solve_symlink(const char *path) {
     struct stat statbuf;
-	char *reallib = NULL;
-	if (lstat(path, &statbuf) == -1) {
+	if (stat(path, &statbuf) == -1) {
 		// fail(path);
         return NULL;
     }
-    if (S_ISLNK(statbuf.st_mode)) {
-		int tlen = strlen(path);
-		char *tpath = malloc(tlen); // ALLOC tpath
-        ssize_t len = readlink(path, tpath, tlen-1);
-        if (len == -1) {
-			free(tpath);
-            fail(path);
-			return NULL;
-        }
-		tpath[len] = 0x0;
-		size_t rlen = tlen + len;
-		reallib = malloc(rlen+1); // ALLOC
-		cwk_path_get_dirname(path,&rlen);
-		memcpy(reallib,path,rlen);
-		strcpy(&reallib[rlen],tpath);
-		free(tpath);               // FREE tpath
-    } else if (S_ISREG(statbuf.st_mode)) {
-		reallib = malloc(strlen(path)+1); // ALLOC
-		strcpy(reallib,path);
-    }
-	if(!reallib) {
-		_err("%s: internal error: %s",__func__,path);
+    if (!S_ISREG(statbuf.st_mode)) {
+		_err("Library file not recognized: %s",path);
 		return NULL;
 	}
-	return(reallib);
+	return(realpath(path,NULL)); // ALLOC
 }
 
 static int find_library(CJITState *cjit, const char *path) {
@@ -206,8 +186,9 @@ static int find_library(CJITState *cjit, const char *path) {
 		int rr;
 		s1.libs = cjit->reallibs;
 		s1.libpaths = cjit->libpaths;
+		s1.static_link = 0;
 		rr = resolve_ldscript(&s1, reallib);
-		if(rr<1)_err("Library not found: %s",reallib);
+		if(rr!=0)_err("Error loading ldscript: %s",reallib);
 	} else {
 		XArray_AddData(cjit->reallibs,reallib,strlen(reallib));
 	}
@@ -324,7 +305,7 @@ static int ld_next(LDState *s1, char *name, int name_size)
             if (!((ch >= 'a' && ch <= 'z') ||
                   (ch >= 'A' && ch <= 'Z') ||
                   (ch >= '0' && ch <= '9') ||
-                  strchr("/.-_+=$:\\,~", ch)))
+                  strchr("/.-_+=$:\\~", ch)))
                 break;
             if ((q - name) < name_size - 1) {
                 *q++ = ch;
@@ -349,54 +330,26 @@ static int ld_add_file(LDState *s1, const char filename[]) {
 	char tryfile[PATH_MAX];
 	int libpaths_num;
 	char *lpath;
-    struct stat statbuf;
+	char *reallib = NULL;
 	if(cwk_path_is_absolute(filename)) {
-		if (lstat(filename, &statbuf) == -1) {
-			fail(filename);
-			return 0;
-		}
-		if (S_ISREG(statbuf.st_mode)) {
-			strcpy(tryfile,filename);
-		} else if (S_ISLNK(statbuf.st_mode)) {
-			ssize_t len = readlink(filename, tryfile, PATH_MAX-1);
-			if (len == -1) {
-				fail(filename);
-				return 0;
-			}
-			tryfile[len] = 0x0;
-		} else {
-			_err("Library file not recognized: %s",filename);
-			return 0;
-		}
+		reallib = new_solve_symlink(filename);
 	} else {
 		libpaths_num = XArray_Used(s1->libpaths);
 		// search in all paths if lib%s.so exists
 		// TODO: support --static here
-		for(int ii=0;ii<libpaths_num;ii++) {
+		for(int ii=0;ii<libpaths_num && !reallib;ii++) {
 			lpath = XArray_GetData(s1->libpaths,ii);
 			cwk_path_join(lpath,filename,tryfile,PATH_MAX);
-			if (lstat(tryfile, &statbuf) == -1) continue;
-			if (S_ISREG(statbuf.st_mode)) break;
-			if (S_ISLNK(statbuf.st_mode)) {
-				int tlen = strlen(tryfile)+64;
-				char *tpath = malloc(tlen); // ALLOC tpath
-				ssize_t len = readlink(tryfile, tpath, tlen-1);
-				if (len == -1) {
-					free(tpath);
-					fail(tryfile);
-					continue;
-				}
-				tpath[len] = 0x0;
-				cwk_path_join(lpath,tpath,tryfile,PATH_MAX);
-				free(tpath);
-				break;
-			}
-			// check ELF BOM in file
-			_err("Library file not recognized: %s",tryfile);
+			reallib = new_solve_symlink(tryfile);
 		}
 	}
-	XArray_AddData(s1->libs, tryfile, strlen(tryfile));
-	return 1;
+	if(!reallib) {
+		_err("Library not found: %s",filename);
+		return -1;
+	}
+	XArray_AddData(s1->libs, reallib, strlen(reallib));
+	free(reallib);
+	return 0;
 }
 
 static int tcc_error_noabort(char *msg) {
@@ -406,7 +359,7 @@ static int tcc_error_noabort(char *msg) {
 
 static int ld_add_file_list(LDState *s1, const char *cmd, int as_needed) {
     char filename[MAX_PATH], libname[MAX_PATH-8];
-    int t, group, nblibs = 0, ret = 0;
+    int t, group, nblibs = 0, ret = 0, missing = 0;
     char **libs = NULL;
     group = !strcmp(cmd, "GROUP");
     if (!as_needed)
@@ -442,13 +395,15 @@ static int ld_add_file_list(LDState *s1, const char *cmd, int as_needed) {
         }
         if (!strcmp(filename, "AS_NEEDED")) {
             ret = ld_add_file_list(s1, cmd, 1);
-            if (ret)
+            if (ret > 0)
                 goto lib_parse_error;
+            if (ret < 0)
+                missing = -1;
+            ret = 0;
         } else {
-			ret = ld_add_file(s1, filename);
-			if (ret)
-				goto lib_parse_error;
-			if (group) {
+			if (ld_add_file(s1, filename) < 0) {
+				missing = -1; // go on with the others
+			} else if (group) {
 				/* Add the filename *and* the libname to avoid future conversions */
 				dynarray_add(&libs, &nblibs, tcc_strdup(filename));
 				if (libname[0] != '\0')
@@ -469,6 +424,7 @@ static int ld_add_file_list(LDState *s1, const char *cmd, int as_needed) {
                 ld_add_file(s1, libs[i]);
         }
     }
+    ret = missing;
  lib_parse_error:
     dynarray_reset(&libs, &nblibs);
     return ret;
@@ -478,7 +434,7 @@ static int ld_add_file_list(LDState *s1, const char *cmd, int as_needed) {
 static int resolve_ldscript(LDState *s1, char *path) {
     char cmd[64];
     char filename[1024];
-    int t, ret;
+    int t, ret, missing = 0;
 	int fd = open(path, O_RDONLY | O_BINARY);
 	if(fd<0) {
 		fail(path);
@@ -490,7 +446,7 @@ static int resolve_ldscript(LDState *s1, char *path) {
         t = ld_next(s1, cmd, sizeof(cmd));
         if (t == LD_TOK_EOF) {
 			close(fd);
-            return 0;
+            return missing;
 		}
         else if (t != LD_TOK_NAME) {
 			close(fd);
@@ -499,10 +455,10 @@ static int resolve_ldscript(LDState *s1, char *path) {
         if (!strcmp(cmd, "INPUT") ||
             !strcmp(cmd, "GROUP")) {
             ret = ld_add_file_list(s1, cmd, 0);
-            if (ret) {
-				close(fd);
+            if (ret > 0)
 				break;
-			}
+            if (ret < 0)
+				missing = ret;
         } else if (!strcmp(cmd, "OUTPUT_FORMAT") ||
                    !strcmp(cmd, "TARGET")) {
             /* ignore some commands */
@@ -510,7 +466,7 @@ static int resolve_ldscript(LDState *s1, char *path) {
             if (t != '(') {
 					_err("%s: ( expected while parsing %s",
 						 __func__,path);
-					close(fd);
+					ret = -1;
 					break;
 			}
             for(;;) {
@@ -519,7 +475,7 @@ static int resolve_ldscript(LDState *s1, char *path) {
 					_err("%s: unexpected end of file in %s",
 						 __func__,path);
 					close(fd);
-					return 0;
+					return -1;
                 } else if (t == ')') {
                     break;
                 }
-- 
2.43.0


From 2b290d77cb7ffd1f14f60717ff5a5fb7029eba69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:45 +0000
Subject: [PATCH 037/101] fix: the program was run and not waited for when its
 pid file cannot be written

---
 src/cjit.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index 2cd02ee..06d919d 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -618,22 +618,25 @@ int cjit_exec(CJITState *cjit, int argc, char **argv) {
 	return(res);
 #else // we assume anything else but WINDOWS has fork()
 	pid_t pid;
+	FILE *pidfile = NULL;
+	if(cjit->write_pid) { // before anything is executed
+		pidfile = fopen(cjit->write_pid, "w");
+		if(!pidfile) {
+			fail(cjit->write_pid);
+			_err("Cannot create pid file");
+			return -1;
+		}
+	}
 	cjit->done_exec = true;
 	pid = fork();
 	if (pid == 0) {
+		if(pidfile) fclose(pidfile);
 		res = _ep(argc, argv);
 		exit(res);
 	} else {
-		if(cjit->write_pid) {
-			// pid_t pid = getpid();
-			FILE *fd = fopen(cjit->write_pid, "w");
-			if(!fd) {
-				fail(cjit->write_pid);
-				_err("Cannot create pid file");
-				return -1;
-			}
-			fprintf(fd,"%d\n",pid);
-			fclose(fd);
+		if(pidfile) {
+			fprintf(pidfile,"%d\n",pid);
+			fclose(pidfile);
 		}
 		int status;
 		int ret;
-- 
2.43.0


From 319d482ff4c9d712cb6712dbb890fae5c8825f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:06 +0000
Subject: [PATCH 038/101] fix: values of options were dropped when they look
 like an ignored option

---
 src/main.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main.c b/src/main.c
index 8b3c844..67bf32c 100644
--- a/src/main.c
+++ b/src/main.c
@@ -416,6 +416,11 @@ char** remove_args(int* argc, char** argv,
     for (int i = 0; i < *argc; i++) {
         if (!keep[i]) continue;  // Already marked for removal
         if (strcmp(argv[i], "--") == 0) break; // the rest is for the app
+        if (argv[i][0] == '-' && argv[i][1] && !argv[i][2]
+            && strchr("DLlCIepoa", argv[i][1])) {
+            i++; // the next is the value of this option
+            continue;
+        }
         for (int j = 0; j < remove_count; j++) {
             const char* arg = argv[i];
             const char* pattern = to_remove[j];
-- 
2.43.0


From b7369468a6cf4e99b0a17a32882c81e94a3f3200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:59 +0000
Subject: [PATCH 039/101] fix: -e was taken as --verb and the entry point
 ignored

---
 src/main.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main.c b/src/main.c
index 67bf32c..b4d2d8e 100644
--- a/src/main.c
+++ b/src/main.c
@@ -156,8 +156,8 @@ int main(int argc, char **argv) {
   // get the extra cflags from the CFLAGS env variable
   // they are overridden by explicit command-line options
   static ko_longopt_t longopts[] = {
-	  { "help", ko_no_argument, 100 },
-	  { "verb", ko_no_argument, 101 },
+	  { "help", ko_no_argument, 300 },
+	  { "verb", ko_no_argument, 301 },
 #if defined(SELFHOST)
 	  { "src",  ko_no_argument, 311 },
 #endif
@@ -175,11 +175,11 @@ int main(int argc, char **argv) {
 			  CJIT->quiet = true;
 	  } else if (c == 'v') {
 		  CJIT->print_status = true;
-	  } else if (c=='h' || c==100) { // help
+	  } else if (c=='h' || c==300) { // help
 		  _err(cli_help,VERSION);
 		  cjit_free(CJIT);
 		  exit(0); // print and exit
-	  } else if (c==101 ) { // verb
+	  } else if (c==301 ) { // verb
 		  CJIT->quiet = false;
 		  CJIT->verbose = true;
 	  } else if (c == 'D') { // define
-- 
2.43.0


From bdbe15aae37f2f24adf3f0604cfa0d880987f22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:52 +0000
Subject: [PATCH 040/101] fix: directories were read as empty files

---
 lib/tinycc/libtcc.c | 4 ++++
 lib/tinycc/tcc.h    | 1 +
 2 files changed, 5 insertions(+)

diff --git a/lib/tinycc/libtcc.c b/lib/tinycc/libtcc.c
index 5b6606e..6b21f44 100644
--- a/lib/tinycc/libtcc.c
+++ b/lib/tinycc/libtcc.c
@@ -710,10 +710,14 @@ ST_FUNC void tcc_close(void)
 static int _tcc_open(TCCState *s1, const char *filename)
 {
     int fd;
+    struct stat st;
     if (strcmp(filename, "-") == 0)
         fd = 0, filename = "<stdin>";
     else
         fd = open(filename, O_RDONLY | O_BINARY);
+    /* a directory opens but cannot be read */
+    if (fd > 0 && fstat(fd, &st) == 0 && (st.st_mode & S_IFMT) == S_IFDIR)
+        close(fd), fd = -1;
     if ((s1->verbose == 2 && fd >= 0) || s1->verbose == 3)
         printf("%s %*s%s\n", fd < 0 ? "nf":"->",
                (int)(s1->include_stack_ptr - s1->include_stack), "", filename);
diff --git a/lib/tinycc/tcc.h b/lib/tinycc/tcc.h
index 7bae6af..5cd7257 100644
--- a/lib/tinycc/tcc.h
+++ b/lib/tinycc/tcc.h
@@ -36,6 +36,7 @@
 #include <errno.h>
 #include <math.h>
 #include <fcntl.h>
+#include <sys/stat.h>
 #include <setjmp.h>
 #include <time.h>
 
-- 
2.43.0


From 4488346dbc428286f465c124e7e4dbccc7b30797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 041/101] fix: an enumerator could be declared twice in a block

---
 lib/tinycc/tccgen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 4d68644..521434c 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -4390,6 +4390,8 @@ static void struct_decl(CType *type, int u)
     /* we put an undefined size for struct/union */
     s = sym_push(v | SYM_STRUCT, &type1, 0, -1);
     s->r = 0; /* default alignment is zero as gcc */
+    if (u == VT_ENUM)
+        s->sym_scope = local_scope; /* also if anonymous, see sym_scope() */
 do_decl:
     type->t = s->type.t;
     type->ref = s;
-- 
2.43.0


From 32718a3b466f554baf93aff0e8e5432572e358f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 042/101] fix: 0x and 0b without digits were accepted

---
 lib/tinycc/tccpp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index c517825..bbe85cd 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -2296,6 +2296,8 @@ static void parse_number(const char *p)
         *q++ = ch;
         ch = *p++;
     }
+    if (b != 10 && q == token_buf && ch != '.')
+        tcc_error("invalid number");
     if (ch == '.' ||
         ((ch == 'e' || ch == 'E') && b == 10) ||
         ((ch == 'p' || ch == 'P') && (b == 16 || b == 2))) {
-- 
2.43.0


From 8f1550b9bd2db265a0c272f9b443864c5ca7464a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 043/101] fix: switch on a value that is not an integer was
 accepted

---
 lib/tinycc/tccgen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 521434c..aa153bf 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -7159,6 +7159,8 @@ again:
         new_scope_s(&o);
         skip('(');
         gexpr();
+        if (!is_integer_btype(vtop->type.t & VT_BTYPE))
+            tcc_error("switch value not an integer");
         skip(')');
         sw->sv = *vtop--; /* save switch value */
         a = 0;
-- 
2.43.0


From dc6df93e7cb624acefaf7f6c024ce48fdd6d9356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 044/101] fix: casts of a scalar to a structure were accepted

---
 lib/tinycc/tccgen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index aa153bf..061311e 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -3223,7 +3223,7 @@ again:
         sbt_bt = sbt & VT_BTYPE;
         if (dbt_bt == VT_VOID)
             goto done;
-        if (sbt_bt == VT_VOID) {
+        if (sbt_bt == VT_VOID || sbt_bt == VT_STRUCT || dbt_bt == VT_STRUCT) {
 error:
             cast_error(&vtop->type, type);
         }
-- 
2.43.0


From 26859d1d9d011b0655aa63344e1a33f779613e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 045/101] fix: #undef without a name took the next line

---
 lib/tinycc/tccpp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index bbe85cd..7fb655d 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -1838,6 +1838,8 @@ ST_FUNC void preprocess(int is_bof)
         pp_debug_tok = tok;
         next_nomacro();
         pp_debug_symv = tok;
+        if (tok < TOK_IDENT)
+            tcc_error("invalid macro name '%s'", get_tok_str(tok, &tokc));
         s = define_find(tok);
         /* undefine symbol by putting an invalid name */
         if (s)
-- 
2.43.0


From 192d294b041a1338f69947844f2e377f8a09e683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 046/101] fix: errors in inline assembly were reported a line
 too early

---
 lib/tinycc/libtcc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tinycc/libtcc.c b/lib/tinycc/libtcc.c
index 6b21f44..912ccf2 100644
--- a/lib/tinycc/libtcc.c
+++ b/lib/tinycc/libtcc.c
@@ -600,7 +600,7 @@ static void error1(int mode, const char *fmt, va_list ap)
             cstr_printf(&cs, "In file included from %s:%d:\n",
                 (*pf)->filename, (*pf)->line_num - 1);
         cstr_printf(&cs, "%s:%d: ",
-            f->filename, f->line_num - ((tok_flags & TOK_FLAG_BOL) && !macro_ptr));
+            f->filename, f->line_num - (f == file && (tok_flags & TOK_FLAG_BOL) && !macro_ptr));
     } else if (s1->current_filename) {
         cstr_printf(&cs, "%s: ", s1->current_filename);
     } else {
-- 
2.43.0


From 13b6bbb1d04d0eeead85796ec55a07f6bce6211d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:51 +0000
Subject: [PATCH 047/101] fix: a function of a shared library has one address
 in an executable

A pointer initialised statically held the address of the PLT entry, code
took the address of the function itself from the GOT, so the two compared
unequal. The PLT entry is now the canonical address, as with other linkers.
---
 lib/tinycc/tccelf.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index da96e3e..6d8c1ff 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -862,6 +862,9 @@ static void sort_syms(TCCState *s1, Section *s)
 /* See: https://flapenguin.me/elf-dt-gnu-hash */
 #define	ELFCLASS_BITS (PTR_SIZE * 8)
 
+/* defined symbols and canonical PLT entries (see build_got_entries) */
+#define GNU_HASHED(sym) ((sym)->st_shndx != SHN_UNDEF || (sym)->st_value)
+
 static Section *create_gnu_hash(TCCState *s1)
 {
     int nb_syms, i, ndef, nbuckets, symoffset, bloom_size, bloom_shift;
@@ -879,7 +882,7 @@ static Section *create_gnu_hash(TCCState *s1)
     ndef = 0;
     p = (ElfW(Sym) *)dynsym->data;
     for(i = 0; i < nb_syms; i++, p++)
-        ndef += p->st_shndx != SHN_UNDEF;
+        ndef += GNU_HASHED(p) != 0;
 
     /* calculate gnu hash sizes and fill header */
     nbuckets = ndef / 4 + 1;
@@ -934,7 +937,7 @@ static void update_gnu_hash(TCCState *s1, Section *gnu_hash)
     p = (ElfW(Sym) *)dynsym->data;
     q = new_syms;
     for(i = 0; i < nb_syms; i++, p++) {
-        if (p->st_shndx == SHN_UNDEF) {
+        if (!GNU_HASHED(p)) {
             old_to_new_syms[i] = q - new_syms;
             *q++ = *p;
         }
@@ -963,7 +966,7 @@ static void update_gnu_hash(TCCState *s1, Section *gnu_hash)
 
     p = (ElfW(Sym) *)dynsym->data;
     for(i = 0; i < nb_syms; i++, p++)
-        if (p->st_shndx != SHN_UNDEF) {
+        if (GNU_HASHED(p)) {
 	    int bucket = hash[i] % nbuckets;
 
 	    if (buck[bucket].first == -1)
@@ -1037,8 +1040,12 @@ ST_FUNC void relocate_syms(TCCState *s1, Section *symtab, int do_resolve)
     for_each_elem(symtab, 1, sym, ElfW(Sym)) {
         sh_num = sym->st_shndx;
         if (sh_num == SHN_UNDEF) {
-            if (do_resolve == 2) /* relocating dynsym */
+            if (do_resolve == 2) { /* relocating dynsym */
+                /* canonical PLT address, see build_got_entries() */
+                if (sym->st_value)
+                    sym->st_value += s1->plt->sh_addr;
                 continue;
+            }
             name = (char *) s1->symtab->link->data + sym->st_name;
             /* Use ld.so to resolve symbol for us (for tcc -run) */
             if (do_resolve) {
@@ -1458,8 +1465,16 @@ redo:
 
             attr = put_got_entry(s1, reloc_type, sym_index);
 
-            if (reloc_type == R_JMP_SLOT)
+            if (reloc_type == R_JMP_SLOT) {
                 rel->r_info = ELFW(R_INFO)(attr->plt_sym, type);
+                /* The PLT entry becomes the address of the function when it
+                   is used as data: let ld.so use it for the GOT too, and for
+                   other modules, so that pointers compare equal. */
+                if (code_reloc(type) == 0 && s1->dynsym && attr->dyn_index
+                    && sym->st_shndx == SHN_UNDEF)
+                    ((ElfW(Sym) *)s1->dynsym->data)[attr->dyn_index].st_value
+                        = attr->plt_offset;
+            }
         }
     }
     if (++pass < 2)
-- 
2.43.0


From 2ace54839eb9072b2c22a8b65007efca61260c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:29 +0000
Subject: [PATCH 048/101] fix: va_arg of a two-register float struct that no
 longer fits in registers

Only one register was left, so the caller passed the struct on the stack and
a later double in that register; va_arg took the register as used.
---
 lib/tinycc/lib/va_list.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/lib/tinycc/lib/va_list.c b/lib/tinycc/lib/va_list.c
index 1fb5512..11f35c0 100644
--- a/lib/tinycc/lib/va_list.c
+++ b/lib/tinycc/lib/va_list.c
@@ -40,16 +40,14 @@ void *__va_arg(__builtin_va_list ap,
         goto use_overflow_area;
 
     case __va_float_reg:
-        if (ap->fp_offset < 128 + 48) {
+        if (ap->fp_offset + size * 2 <= 128 + 48) {
             ap->fp_offset += 16;
             if (size == 8)
                 return ap->reg_save_area + ap->fp_offset - 16;
-            if (ap->fp_offset < 128 + 48) {
-                memcpy(ap->reg_save_area + ap->fp_offset - 8,
-                       ap->reg_save_area + ap->fp_offset, 8);
-                ap->fp_offset += 16;
-                return ap->reg_save_area + ap->fp_offset - 32;
-            }
+            memcpy(ap->reg_save_area + ap->fp_offset - 8,
+                   ap->reg_save_area + ap->fp_offset, 8);
+            ap->fp_offset += 16;
+            return ap->reg_save_area + ap->fp_offset - 32;
         }
         goto use_overflow_area;
 
-- 
2.43.0


From e4f70cf354c64d91e122ba5a781ee976f0679921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:29 +0000
Subject: [PATCH 049/101] fix: pass structs with arrays, unaligned members or
 long double as the x86-64 ABI says

An array member was classified as a pointer, so struct { float v[2]; } went
to integer registers; members at unaligned offsets and unions with a long
double did not force the struct into memory.
---
 lib/tinycc/x86_64-gen.c | 68 ++++++++++++++++++++++++++++-------------
 1 file changed, 47 insertions(+), 21 deletions(-)

diff --git a/lib/tinycc/x86_64-gen.c b/lib/tinycc/x86_64-gen.c
index 8fca21b..2c0632b 100644
--- a/lib/tinycc/x86_64-gen.c
+++ b/lib/tinycc/x86_64-gen.c
@@ -1092,14 +1092,30 @@ static X86_64_Mode classify_x86_64_merge(X86_64_Mode a, X86_64_Mode b)
         return x86_64_mode_sse;
 }
 
-static X86_64_Mode classify_x86_64_inner(CType *ty)
+/* Merge the class of the object 'ty' at offset 'ofs' into the classes
+   of the two eightbytes of a parameter. */
+static void classify_x86_64_inner(CType *ty, int ofs, X86_64_Mode part[2])
 {
     X86_64_Mode mode;
     Sym *f;
-    
-    switch (ty->t & VT_BTYPE) {
-    case VT_VOID: return x86_64_mode_none;
-    
+    int i, end, size, align;
+
+    size = type_size(ty, &align);
+    mode = x86_64_mode_integer;
+    end = ofs + size - 1;
+
+    if (ty->t & VT_BITFIELD) {
+        end = ofs + (BIT_POS(ty->t) + BIT_SIZE(ty->t) - 1) / 8;
+        ofs += BIT_POS(ty->t) / 8;
+    } else if (ty->t & VT_ARRAY) {
+        size = type_size(&ty->ref->type, &align);
+        for (i = 0; size && i < ty->ref->c; i++)
+            classify_x86_64_inner(&ty->ref->type, ofs + i * size, part);
+        return;
+    } else switch (ty->t & VT_BTYPE) {
+    case VT_VOID:
+        return;
+
     case VT_INT:
     case VT_BYTE:
     case VT_SHORT:
@@ -1107,29 +1123,36 @@ static X86_64_Mode classify_x86_64_inner(CType *ty)
     case VT_BOOL:
     case VT_PTR:
     case VT_FUNC:
-        return x86_64_mode_integer;
-    
+        break;
+
     case VT_FLOAT:
-    case VT_DOUBLE: return x86_64_mode_sse;
-    
-    case VT_LDOUBLE: return x86_64_mode_x87;
-      
+    case VT_DOUBLE:
+        mode = x86_64_mode_sse;
+        break;
+
+    case VT_LDOUBLE:
+        mode = x86_64_mode_x87;
+        break;
+
     case VT_STRUCT:
-        f = ty->ref;
+        for (f = ty->ref->next; f; f = f->next)
+            classify_x86_64_inner(&f->type, ofs + f->c, part);
+        return;
 
-        mode = x86_64_mode_none;
-        for (f = f->next; f; f = f->next)
-            mode = classify_x86_64_merge(mode, classify_x86_64_inner(&f->type));
-        
-        return mode;
+    default:
+        assert(0);
     }
-    assert(0);
-    return 0;
+
+    /* something with unaligned members is passed in memory */
+    if (!(ty->t & VT_BITFIELD) && (ofs & (size - 1)))
+        mode = x86_64_mode_memory;
+    for (i = ofs / 8; i <= end / 8 && i < 2; i++)
+        part[i] = classify_x86_64_merge(part[i], mode);
 }
 
 static X86_64_Mode classify_x86_64_arg(CType *ty, CType *ret, int *psize, int *palign, int *reg_count)
 {
-    X86_64_Mode mode;
+    X86_64_Mode mode, part[2] = { x86_64_mode_none, x86_64_mode_none };
     int size, align, ret_t = 0;
     
     if (ty->t & (VT_BITFIELD|VT_ARRAY)) {
@@ -1147,7 +1170,10 @@ static X86_64_Mode classify_x86_64_arg(CType *ty, CType *ret, int *psize, int *p
         if (size > 16) {
             mode = x86_64_mode_memory;
         } else {
-            mode = classify_x86_64_inner(ty);
+            classify_x86_64_inner(ty, 0, part);
+            mode = classify_x86_64_merge(part[0], part[1]);
+            if ((part[0] == x86_64_mode_x87) != (part[1] == x86_64_mode_x87))
+                mode = x86_64_mode_memory;
             switch (mode) {
             case x86_64_mode_integer:
                 if (size > 8) {
-- 
2.43.0


From 992eb2be93bf9e087ae517190e79cc658304b4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:29 +0000
Subject: [PATCH 050/101] fix: unsigned int results of foreign functions have
 undefined upper halves

Conversions to 64-bit and floating types used the whole register.
---
 lib/tinycc/x86_64-gen.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/tinycc/x86_64-gen.c b/lib/tinycc/x86_64-gen.c
index 2c0632b..43bdbde 100644
--- a/lib/tinycc/x86_64-gen.c
+++ b/lib/tinycc/x86_64-gen.c
@@ -1467,6 +1467,9 @@ void gfunc_call(int nb_args)
     if (vtop->type.ref->f.func_type != FUNC_NEW) /* implies FUNC_OLD or FUNC_ELLIPSIS */
         oad(0xb8, nb_sse_args < 8 ? nb_sse_args : 8); /* mov nb_sse_args, %eax */
     gcall_or_jmp(0);
+    /* the ABI leaves the upper half of a 32bit result undefined */
+    if ((vtop->type.ref->type.t & (VT_BTYPE | VT_UNSIGNED)) == (VT_INT | VT_UNSIGNED))
+        o(0xc089); /* mov %eax, %eax */
     if (args_size)
         gadd_sp(args_size);
     vtop--;
-- 
2.43.0


From 644597655fa13f9782e9a34419a9e6217c56314b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:33 +0000
Subject: [PATCH 051/101] fix: gotos to a label from outside and inside cleanup
 scopes

When a label was the target of a forward goto that leaves a cleanup
scope, the other forward gotos to it were not patched.
---
 lib/tinycc/tccgen.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 061311e..79b1500 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -7279,8 +7279,9 @@ again:
 		    for (pcl = s->next; pcl; pcl = pcl->prev)
 		      gsym(pcl->jnext);
 		    sym_pop(&s->next, NULL, 0);
-		} else
-		  gsym(s->jnext);
+		}
+		/* gotos from outside any cleanup scope */
+		gsym(s->jnext);
             } else {
                 s = label_push(&global_label_stack, t, LABEL_DEFINED);
             }
-- 
2.43.0


From f6c6479e7fd1b2b2d9c729be6217079f68649190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:33 +0000
Subject: [PATCH 052/101] fix: cleanup functions called on goto or scope end
 clobbered live VLAs

The stack pointer was set back before the cleanup calls, so that they
overwrote variable-length arrays which were still in scope.
---
 lib/tinycc/tccgen.c | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 79b1500..a1959a6 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -6831,6 +6831,12 @@ static void try_call_cleanup_goto(Sym *cleanupstate)
     try_call_scope_cleanup(cc);
 }
 
+static void vla_restore(int loc)
+{
+    if (loc)
+        gen_vla_sp_restore(loc);
+}
+
 /* call 'func' for each __attribute__((cleanup(func))) */
 static void block_cleanup(struct scope *o)
 {
@@ -6842,7 +6848,10 @@ static void block_cleanup(struct scope *o)
             if (!jmp)
                 jmp = gjmp(0);
             gsym(pcl->jnext);
+            /* all VLAs visible at the goto must survive the cleanup calls */
+            vla_restore(g->type.t);
             try_call_scope_cleanup(o->cl.s);
+            vla_restore(pcl->type.t);
             pcl->jnext = gjmp(0);
             if (!o->cl.n)
                 goto remove_pending;
@@ -6861,12 +6870,6 @@ static void block_cleanup(struct scope *o)
 /* ------------------------------------------------------------------------- */
 /* VLA */
 
-static void vla_restore(int loc)
-{
-    if (loc)
-        gen_vla_sp_restore(loc);
-}
-
 static void vla_leave(struct scope *o)
 {
     struct scope *c = cur_scope, *v = NULL;
@@ -6896,11 +6899,11 @@ static void new_scope(struct scope *o)
 
 static void prev_scope(struct scope *o, int is_expr)
 {
-    vla_leave(o->prev);
-
     if (o->cl.s != o->prev->cl.s)
         block_cleanup(o->prev);
 
+    vla_leave(o->prev);
+
     /* pop locally defined labels */
     label_pop(&local_label_stack, o->llstk, is_expr);
 
@@ -7225,13 +7228,13 @@ again:
         goto block_after_label;
 
     } else if (t == TOK_GOTO) {
-        vla_restore(cur_scope->vla.locorig);
         if (tok == '*' && gnu_ext) {
             /* computed goto */
             next();
             gexpr();
             if ((vtop->type.t & VT_BTYPE) != VT_PTR)
                 expect("pointer");
+            vla_restore(cur_scope->vla.locorig);
             ggoto();
 
         } else if (tok >= TOK_UIDENT) {
@@ -7245,14 +7248,16 @@ again:
 	    if (s->r & LABEL_FORWARD) {
 		/* start new goto chain for cleanups, linked via label->next */
 		if (cur_scope->cl.s && !nocode_wanted) {
-                    sym_push2(&pending_gotos, SYM_FIELD, 0, cur_scope->cl.n);
+                    sym_push2(&pending_gotos, SYM_FIELD, cur_scope->vla.loc, cur_scope->cl.n);
                     pending_gotos->prev_tok = s;
-                    s = sym_push2(&s->next, SYM_FIELD, 0, 0);
+                    s = sym_push2(&s->next, SYM_FIELD, cur_scope->vla.locorig, 0);
                     pending_gotos->next = s;
                 }
+		vla_restore(cur_scope->vla.locorig);
 		s->jnext = gjmp(s->jnext);
 	    } else {
 		try_call_cleanup_goto(s->cleanupstate);
+		vla_restore(cur_scope->vla.locorig);
 		gjmp_addr(s->jnext);
 	    }
 	    next();
-- 
2.43.0


From 569f6cbd0107635c940fdfc1293ee98dc0ff4c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:52 +0000
Subject: [PATCH 053/101] fix: convert case values to the promoted type of the
 switch value

Case values outside of the type of the switch value and negative ones
for a switch on unsigned char, short or _Bool were compared and sorted
with the wrong signedness, so that cases were not found.
---
 lib/tinycc/tccgen.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index a1959a6..f44de7d 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -6727,6 +6727,13 @@ static void gtst_addr(int t, int a)
     gsym_addr(gvtst(0, t), a);
 }
 
+/* convert a case value to the type 't' of the switch value */
+static int64_t case_value(int64_t v, int t)
+{
+    if ((t & VT_BTYPE) == VT_LLONG)
+        return v;
+    return t & VT_UNSIGNED ? (int64_t)(uint32_t)v : (int32_t)v;
+}
 static void gcase(struct case_t **base, int len, int *bsym)
 {
     struct case_t *p;
@@ -7164,6 +7171,7 @@ again:
         gexpr();
         if (!is_integer_btype(vtop->type.t & VT_BTYPE))
             tcc_error("switch value not an integer");
+        vpushi(0), gen_op('+'); /* integer promotion */
         skip(')');
         sw->sv = *vtop--; /* save switch value */
         a = 0;
@@ -7204,10 +7212,10 @@ again:
             expect("switch");
         cr = tcc_malloc(sizeof(struct case_t));
         dynarray_add(&cur_switch->p, &cur_switch->n, cr);
-        cr->v1 = cr->v2 = expr_const64();
+        cr->v1 = cr->v2 = case_value(expr_const64(), cur_switch->sv.type.t);
         if (gnu_ext && tok == TOK_DOTS) {
             next();
-            cr->v2 = expr_const64();
+            cr->v2 = case_value(expr_const64(), cur_switch->sv.type.t);
             if ((!(cur_switch->sv.type.t & VT_UNSIGNED) && cr->v2 < cr->v1)
                 || (cur_switch->sv.type.t & VT_UNSIGNED && (uint64_t)cr->v2 < (uint64_t)cr->v1))
                 tcc_warning("empty case range");
-- 
2.43.0


From 4c69300d30a6aaf1a8af68cee5b5dd3ccc070bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:33 +0000
Subject: [PATCH 054/101] fix: #if expressions are evaluated in (u)intmax_t

Values above 32 bits were rejected and intermediate results were
computed as int.
---
 lib/tinycc/tcc.h    |  1 +
 lib/tinycc/tccgen.c | 11 +++++++++--
 lib/tinycc/tccpp.c  |  8 ++++++--
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/lib/tinycc/tcc.h b/lib/tinycc/tcc.h
index 5cd7257..a8afb59 100644
--- a/lib/tinycc/tcc.h
+++ b/lib/tinycc/tcc.h
@@ -1513,6 +1513,7 @@ ST_FUNC void indir(void);
 ST_FUNC void unary(void);
 ST_FUNC void gexpr(void);
 ST_FUNC int expr_const(void);
+ST_FUNC int64_t expr_const64(void);
 #if defined CONFIG_TCC_BCHECK || defined TCC_TARGET_C67
 ST_FUNC Sym *get_sym_ref(CType *type, Section *sec, unsigned long offset, unsigned long size);
 #endif
diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index f44de7d..dffcd58 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -146,7 +146,6 @@ static int decl(int l);
 static void expr_eq(void);
 static void vpush_type_size(CType *type, int *a);
 static int is_compatible_unqualified_types(CType *type1, CType *type2);
-static inline int64_t expr_const64(void);
 static void vpush64(int ty, unsigned long long v);
 static void vpush(CType *type);
 static int gvtst(int inv, int t);
@@ -2996,6 +2995,14 @@ ST_FUNC void gen_op(int op)
     else if (TOK_ISCOND(op)) /* == != > ... */
         op_class = CMP_OP;
 
+    if (pp_expr) {
+        /* all operands in #if are of type (u)intmax_t */
+        gen_cast_s(VT_LLONG | (vtop->type.t & VT_UNSIGNED));
+        vswap();
+        gen_cast_s(VT_LLONG | (vtop->type.t & VT_UNSIGNED));
+        vswap();
+    }
+
 redo:
     t1 = vtop[-1].type.t;
     t2 = vtop[0].type.t;
@@ -6602,7 +6609,7 @@ static void expr_const1(void)
 }
 
 /* parse an integer constant and return its value. */
-static inline int64_t expr_const64(void)
+ST_FUNC int64_t expr_const64(void)
 {
     int64_t c;
     expr_const1();
diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index 7fb655d..03ddfb3 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -1519,13 +1519,13 @@ static int expr_preprocess(TCCState *s1)
     /* now evaluate C constant expression */
     begin_macro(str, 1);
     next();
-    c = expr_const();
+    c = expr_const64() != 0;
     if (tok != TOK_EOF)
         tcc_error("...");
     pp_expr = 0;
     end_macro();
     tok = t; /* restore LF or EOF */
-    return c != 0;
+    return c;
 }
 
 ST_FUNC void pp_error(CString *cs)
@@ -2518,6 +2518,10 @@ static void parse_number(const char *p)
             }
         }
 
+        /* all integers in #if are of type (u)intmax_t */
+        if (pp_expr)
+            lcount = 2;
+
         /* Determine if it needs 64 bits and/or unsigned in order to fit */
         if (ucount == 0 && b == 10) {
             if (lcount <= (LONG_SIZE == 4)) {
-- 
2.43.0


From b06b480060f6446efb3c96630d84c782035c7eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:38 +0000
Subject: [PATCH 055/101] fix: a constant NaN divided by zero is NaN

---
 lib/tinycc/tccgen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index dffcd58..44e5ebe 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -2544,7 +2544,7 @@ static void gen_opif(int op)
                 /* the run-time result of 0.0/0.0 on x87, also of other compilers
                    when used to compile the f1 /= f2 below, would be -nan */
                 x1.f = f1, x2.f = f2;
-                if (f1 == 0.0)
+                if (f1 == 0.0 || f1 != f1)
                     y.u = 0x7fc00000; /* nan */
                 else
                     y.u = 0x7f800000; /* infinity */
-- 
2.43.0


From 749642d5c7cc5dba26ca339f736dbb02637046f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:38 +0000
Subject: [PATCH 056/101] fix: -E separates a number ending in e from what
 follows

---
 lib/tinycc/tccpp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index 03ddfb3..3508f99 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -3906,7 +3906,7 @@ static void pp_debug_defines(TCCState *s1)
 /* Add a space between tokens a and b to avoid unwanted textual pasting */
 static int pp_need_space(int a, int b)
 {
-    return 'E' == a ? '+' == b || '-' == b
+    return 'E' == a ? '+' == b || '-' == b || b >= TOK_IDENT || b == TOK_PPNUM
         : '+' == a ? TOK_INC == b || '+' == b
         : '-' == a ? TOK_DEC == b || '-' == b
         : a >= TOK_IDENT || a == TOK_PPNUM ? b >= TOK_IDENT || b == TOK_PPNUM
-- 
2.43.0


From 9dbe1000d8c5a7693f3c3bf5491bee6b089742c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:21 +0000
Subject: [PATCH 057/101] fix: the operands of #line are macro expanded and its
 number is decimal

---
 lib/tinycc/tccpp.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index 3508f99..0740d0a 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -1930,23 +1930,28 @@ ST_FUNC void preprocess(int is_bof)
         }
         break;
     case TOK_LINE:
-        next_nomacro();
+        /* the operands are macro expanded and stay preprocessing tokens */
+        parse_flags &= ~(PARSE_FLAG_TOK_NUM | PARSE_FLAG_TOK_STR);
+        next();
         if (tok != TOK_PPNUM)
     _line_err:
             tcc_error("wrong #line format");
     case TOK_PPNUM:
-        parse_number(tokc.str.data);
-        n = tokc.i;
-        next_nomacro();
+        parse_flags &= ~(PARSE_FLAG_TOK_NUM | PARSE_FLAG_TOK_STR);
+        n = strtoul(tokc.str.data, NULL, 10); /* decimal, even with leading 0 */
+        next();
         if (tok != TOK_LINEFEED) {
             if (tok == TOK_PPSTR && tokc.str.data[0] == '"') {
-                tokc.str.data[tokc.str.size - 2] = 0;
-                tccpp_putfile(tokc.str.data + 1);
+                /* copy without the quotes: this may be the body of a macro */
+                pstrcpy(buf, sizeof buf, tokc.str.data + 1);
+                if (*buf)
+                    buf[strlen(buf) - 1] = 0;
+                tccpp_putfile(buf);
             } else if (parse_flags & PARSE_FLAG_ASM_FILE)
                 goto ignore;
             else
                 goto _line_err;
-            next_nomacro();
+            next();
         }
         if (file->fd > 0)
             total_lines += file->line_num - n;
-- 
2.43.0


From c22f7c56a6a7cc81d46dc085673b8ac84b163e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:48 +0000
Subject: [PATCH 058/101] fix: a line marker with a level number is not one
 line off

---
 lib/tinycc/tccpp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index 0740d0a..04d07d2 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -1953,6 +1953,8 @@ ST_FUNC void preprocess(int is_bof)
                 goto _line_err;
             next();
         }
+        if (tok != TOK_LINEFEED)
+            --n; /* the line feed after the level number is still to be read */
         if (file->fd > 0)
             total_lines += file->line_num - n;
         file->line_num = n;
-- 
2.43.0


From b82eca95239a5c97409cf6c029e9d8e6833ee404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:28 +0000
Subject: [PATCH 059/101] fix: characters that are no token of C may be
 stringised

---
 lib/tinycc/tccpp.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index 04d07d2..1976807 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -2971,7 +2971,8 @@ maybe_newline:
     default:
         if (c >= 0x80 && c <= 0xFF) /* utf8 identifiers */
 	    goto parse_ident_fast;
-        if (parse_flags & PARSE_FLAG_ASM_FILE)
+        /* any other character may be part of a macro or its arguments */
+        if (parse_flags & (PARSE_FLAG_ASM_FILE | PARSE_FLAG_ACCEPT_STRAYS))
             goto parse_simple;
         tcc_error("unrecognized character \\x%02x", c);
         break;
@@ -3522,6 +3523,9 @@ redo:
             if (t == '\\') {
                 if (!(parse_flags & PARSE_FLAG_ACCEPT_STRAYS))
                     tcc_error("stray '\\' in program");
+            } else if ((t == '`' || t == '@') && !(parse_flags
+                        & (PARSE_FLAG_ASM_FILE | PARSE_FLAG_ACCEPT_STRAYS))) {
+                tcc_error("unrecognized character \\x%02x", t);
             }
         }
         tok = t;
-- 
2.43.0


From 44c28d90793d2048bf205647b1d9f61716c47c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:37 +0000
Subject: [PATCH 060/101] fix: run constructors and destructors of the program
 and pass it the environment

---
 src/cjit.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index 06d919d..df676fe 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -565,6 +565,17 @@ int cjit_link(CJITState *cjit) {
 	return( tcc_output_file(tcc(cjit),cjit->output_filename));
 }
 
+#if !defined(WINDOWS)
+extern char **environ;
+typedef void (*init_fn)(int, char**, char**);
+typedef void (*fini_fn)(void);
+static init_fn *init_start, *init_end; // functions to run before
+static fini_fn *fini_start, *fini_end; // and after the program
+static void run_fini_array(void) {
+	while(fini_end > fini_start) (*--fini_end)();
+}
+#endif
+
 int cjit_exec(CJITState *cjit, int argc, char **argv) {
 	if(!cjit->done_setup) {
 		_err("%s: no source code found",__func__);
@@ -585,7 +596,7 @@ int cjit_exec(CJITState *cjit, int argc, char **argv) {
 		}
 	}
 	int res = 1;
-	int (*_ep)(int, char**);
+	int (*_ep)(int, char**, char**);
 	// relocate the code (link symbols)
 #if defined(SHAREDTCC)
 	if (tcc_relocate(tcc(cjit), TCC_RELOCATE_AUTO) < 0) {
@@ -614,7 +625,7 @@ int cjit_exec(CJITState *cjit, int argc, char **argv) {
 		fclose(fd);
 	}
 	cjit->done_exec = true;
-	res = _ep(argc, argv);
+	res = _ep(argc, argv, NULL);
 	return(res);
 #else // we assume anything else but WINDOWS has fork()
 	pid_t pid;
@@ -627,11 +638,18 @@ int cjit_exec(CJITState *cjit, int argc, char **argv) {
 			return -1;
 		}
 	}
+	init_start = tcc_get_symbol(tcc(cjit), "__init_array_start");
+	init_end = tcc_get_symbol(tcc(cjit), "__init_array_end");
+	fini_start = tcc_get_symbol(tcc(cjit), "__fini_array_start");
+	fini_end = tcc_get_symbol(tcc(cjit), "__fini_array_end");
 	cjit->done_exec = true;
 	pid = fork();
 	if (pid == 0) {
 		if(pidfile) fclose(pidfile);
-		res = _ep(argc, argv);
+		atexit(run_fini_array);
+		for(; init_start < init_end; init_start++)
+			(*init_start)(argc, argv, environ);
+		res = _ep(argc, argv, environ);
 		exit(res);
 	} else {
 		if(pidfile) {
-- 
2.43.0


From efe054e8bc122fd93381f76a8301fde06aab87e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:56 +0000
Subject: [PATCH 061/101] fix: weak references neither extract archive members
 nor weaken strong ones

---
 lib/tinycc/tccelf.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index 6d8c1ff..9f114b0 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -716,6 +716,9 @@ ST_FUNC int set_elf_sym(Section *s, addr_t value, unsigned long size,
             }
         } else {
             esym->st_other = other;
+            /* a weak reference does not weaken a strong one */
+            if (shndx == SHN_UNDEF && sym_bind == STB_WEAK)
+                sym_bind = ELFW(ST_BIND)(esym->st_info);
         do_patch:
             esym->st_info = ELFW(ST_INFO)(sym_bind, sym_type);
             esym->st_shndx = shndx;
@@ -3433,6 +3436,9 @@ static int tcc_load_alacarte(TCCState *s1, int fd, int size, int entrysize)
             sym = &((ElfW(Sym) *)s->data)[sym_index];
             if(sym->st_shndx != SHN_UNDEF)
                 continue;
+            /* weak references do not extract archive members */
+            if (ELFW(ST_BIND)(sym->st_info) == STB_WEAK)
+                continue;
             off = get_be(ar_index + i * entrysize, entrysize);
             len = read_ar_header(fd, off, &hdr);
             if (len <= 0 || memcmp(hdr.ar_fmag, ARFMAG, 2)) {
-- 
2.43.0


From 54926ce222e0c4bcef10018f7a173e233375b483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:56 +0000
Subject: [PATCH 062/101] fix: report 32 bit relocations that cannot reach the
 memory the program runs in

---
 lib/tinycc/tccelf.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index 9f114b0..1bf668a 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -1122,6 +1122,17 @@ static void relocate_section(TCCState *s1, Section *s, Section *sr)
             continue;
         }
         addr = s->sh_addr + rel->r_offset;
+#ifdef TCC_TARGET_X86_64
+        /* memory for running code is usually not in the low 2 GB */
+        if (s1->output_type == TCC_OUTPUT_MEMORY
+            && (s->sh_flags & SHF_EXECINSTR)
+            && ((type == R_X86_64_32 && tgt != (uint32_t)tgt)
+             || (type == R_X86_64_32S && tgt != (addr_t)(int32_t)tgt))) {
+            tcc_error_noabort("32 bit relocation out of range,"
+                " code is not position independent");
+            continue;
+        }
+#endif
         relocate(s1, rel, type, ptr, addr, tgt);
     }
 #ifndef ELF_OBJ_ONLY
-- 
2.43.0


From 181a42d4994f0bb5ab5950e8ba3eb4cbe49d2d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:56 +0000
Subject: [PATCH 063/101] fix: address of an unresolved weak function in an
 executable is zero

---
 lib/tinycc/tccelf.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index 1bf668a..4df97fc 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -1423,7 +1423,10 @@ redo:
 			/* dynsym isn't set for -run :-/  */
 			dynindex = get_sym_attr(s1, sym_index, 0)->dyn_index;
 			esym = (ElfW(Sym) *)s1->dynsym->data + dynindex;
+			/* bound ones are global, the address of an unresolved
+			   weak function is zero and not that of a PLT slot */
 			if (dynindex
+			    && ELFW(ST_BIND)(esym->st_info) != STB_WEAK
 			    && (ELFW(ST_TYPE)(esym->st_info) == STT_FUNC
 				|| (ELFW(ST_TYPE)(esym->st_info) == STT_NOTYPE
 				    && ELFW(ST_TYPE)(sym->st_info) == STT_FUNC)))
-- 
2.43.0


From 1e253a87d2c52ebc3abeb940424d7560cae60fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:56 +0000
Subject: [PATCH 064/101] fix: addend of R_X86_64_GOTPCREL relocations

---
 lib/tinycc/x86_64-link.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tinycc/x86_64-link.c b/lib/tinycc/x86_64-link.c
index 42f753c..d0da850 100644
--- a/lib/tinycc/x86_64-link.c
+++ b/lib/tinycc/x86_64-link.c
@@ -288,7 +288,7 @@ ST_FUNC void relocate(TCCState *s1, ElfW_Rel *rel, int type, unsigned char *ptr,
         case R_X86_64_GOTPCRELX:
         case R_X86_64_REX_GOTPCRELX:
             add32le(ptr, s1->got->sh_addr - addr +
-                         get_sym_attr(s1, sym_index, 0)->got_offset - 4);
+                         get_sym_attr(s1, sym_index, 0)->got_offset + rel->r_addend);
             break;
         case R_X86_64_GOTPC32:
             add32le(ptr, s1->got->sh_addr - addr + rel->r_addend);
-- 
2.43.0


From 0adddfb67c8418d7f509abf64bfe9d0fdbd6bd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:56 +0000
Subject: [PATCH 065/101] fix: linking objects with duplicate symbols fails

---
 lib/tinycc/libtcc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/libtcc.c b/lib/tinycc/libtcc.c
index 912ccf2..0c0769e 100644
--- a/lib/tinycc/libtcc.c
+++ b/lib/tinycc/libtcc.c
@@ -1029,7 +1029,7 @@ ST_FUNC int tcc_add_file_internal(TCCState *s1, const char *filename, int flags)
     s1->current_filename = filename;
     if (flags & AFF_TYPE_BIN) {
         ElfW(Ehdr) ehdr;
-        int obj_type;
+        int obj_type, nb_errors = s1->nb_errors;
 
         obj_type = tcc_object_type(fd, &ehdr);
         lseek(fd, 0, SEEK_SET);
@@ -1113,6 +1113,9 @@ check_success:
 #endif
         }
         close(fd);
+        /* symbols defined twice, for example */
+        if (ret >= 0 && s1->nb_errors > nb_errors)
+            ret = -1;
     } else {
         /* update target deps */
         dynarray_add(&s1->target_deps, &s1->nb_target_deps, tcc_strdup(filename));
-- 
2.43.0


From cd98479a5ebdfe94eda0986fc4fb947bad714af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:50 +0000
Subject: [PATCH 066/101] fix: a hidden definition takes precedence over a
 common symbol

---
 lib/tinycc/tccelf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index 4df97fc..88ba056 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -691,8 +691,6 @@ ST_FUNC int set_elf_sym(Section *s, addr_t value, unsigned long size,
                 /* weak is ignored if already global */
             } else if (sym_bind == STB_WEAK && esym_bind == STB_WEAK) {
                 /* keep first-found weak definition, ignore subsequents */
-            } else if (sym_vis == STV_HIDDEN || sym_vis == STV_INTERNAL) {
-                /* ignore hidden symbols after */
             } else if ((esym->st_shndx == SHN_COMMON
                             || esym->st_shndx == bss_section->sh_num)
                         && (shndx < SHN_LORESERVE
@@ -701,6 +699,8 @@ ST_FUNC int set_elf_sym(Section *s, addr_t value, unsigned long size,
                 goto do_patch;
             } else if (shndx == SHN_COMMON || shndx == bss_section->sh_num) {
                 /* data symbol keeps precedence over common/bss */
+            } else if (sym_vis == STV_HIDDEN || sym_vis == STV_INTERNAL) {
+                /* ignore hidden symbols after */
             } else if (s->sh_flags & SHF_DYNSYM) {
                 /* we accept that two DLL define the same symbol */
 	    } else if (esym->st_other & ST_ASM_SET) {
-- 
2.43.0


From 27a911cf508867a949ba3c0a1cb0a5982237b377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:28 +0000
Subject: [PATCH 067/101] fix: keep the names in stdatomic.h's macros out of
 the user's way

atomic_store(&x, tmp) or atomic_exchange(&x, *ptr) read the macro's own
uninitialised or unrelated local of that name.
---
 lib/tinycc/include/stdatomic.h | 36 +++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/lib/tinycc/include/stdatomic.h b/lib/tinycc/include/stdatomic.h
index 2d423d1..3b7c235 100644
--- a/lib/tinycc/include/stdatomic.h
+++ b/lib/tinycc/include/stdatomic.h
@@ -95,44 +95,44 @@ typedef struct {
     atomic_store_explicit(object, desired, __ATOMIC_RELAXED)
 
 #define atomic_store_explicit(object, desired, order)                     \
-    ({ __typeof__ (object) ptr = (object);                                \
-       __typeof__ (*ptr) tmp = (desired);                                 \
-       __atomic_store (ptr, &tmp, (order));                               \
+    ({ __typeof__ (object) __ptr = (object);                              \
+       __typeof__ (*__ptr) __tmp = (desired);                             \
+       __atomic_store (__ptr, &__tmp, (order));                           \
     })
 #define atomic_store(object, desired)                                     \
      atomic_store_explicit (object, desired, __ATOMIC_SEQ_CST)
 
 #define atomic_load_explicit(object, order)                               \
-    ({ __typeof__ (object) ptr = (object);                                \
-       __typeof__ (*ptr) tmp;                                             \
-       __atomic_load (ptr, &tmp, (order));                                \
-       tmp;                                                               \
+    ({ __typeof__ (object) __ptr = (object);                              \
+       __typeof__ (*__ptr) __tmp;                                         \
+       __atomic_load (__ptr, &__tmp, (order));                            \
+       __tmp;                                                             \
     })
 #define atomic_load(object) atomic_load_explicit (object, __ATOMIC_SEQ_CST)
 
 #define atomic_exchange_explicit(object, desired, order)                  \
-    ({ __typeof__ (object) ptr = (object);                                \
-       __typeof__ (*ptr) val = (desired);                                 \
-       __typeof__ (*ptr) tmp;                                             \
-       __atomic_exchange (ptr, &val, &tmp, (order));                      \
-       tmp;                                                               \
+    ({ __typeof__ (object) __ptr = (object);                              \
+       __typeof__ (*__ptr) __val = (desired);                             \
+       __typeof__ (*__ptr) __tmp;                                         \
+       __atomic_exchange (__ptr, &__val, &__tmp, (order));                \
+       __tmp;                                                             \
     })
 #define atomic_exchange(object, desired)                                  \
   atomic_exchange_explicit (object, desired, __ATOMIC_SEQ_CST)
 
 #define atomic_compare_exchange_strong_explicit(object, expected, desired, success, failure) \
-    ({ __typeof__ (object) ptr = (object);                                \
-       __typeof__ (*ptr) tmp = desired;                                   \
-       __atomic_compare_exchange(ptr, expected, &tmp, 0, success, failure); \
+    ({ __typeof__ (object) __ptr = (object);                              \
+       __typeof__ (*__ptr) __tmp = desired;                               \
+       __atomic_compare_exchange(__ptr, expected, &__tmp, 0, success, failure); \
     })
 #define atomic_compare_exchange_strong(object, expected, desired)         \
     atomic_compare_exchange_strong_explicit (object, expected, desired,   \
                                              __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)
 
 #define atomic_compare_exchange_weak_explicit(object, expected, desired, success, failure) \
-    ({ __typeof__ (object) ptr = (object);                                \
-       __typeof__ (*ptr) tmp = desired;                                   \
-       __atomic_compare_exchange(ptr, expected, &tmp, 1, success, failure); \
+    ({ __typeof__ (object) __ptr = (object);                              \
+       __typeof__ (*__ptr) __tmp = desired;                               \
+       __atomic_compare_exchange(__ptr, expected, &__tmp, 1, success, failure); \
     })
 #define atomic_compare_exchange_weak(object, expected, desired)           \
     atomic_compare_exchange_weak_explicit (object, expected, desired,     \
-- 
2.43.0


From c53a4bf8011e0f8c9274068b7a6d964a7529386f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:28 +0000
Subject: [PATCH 068/101] fix: atomic operations on floating-point and
 structure objects

Their values were handed to the integer helpers in the wrong registers.
---
 lib/tinycc/tccgen.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 44e5ebe..c940906 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -5343,7 +5343,7 @@ static void parse_builtin_params(int nc, const char *args)
 static void parse_atomic(int atok)
 {
     int size, align, arg, t, save = 0;
-    CType *atom, *atom_ptr, ct = {0};
+    CType *atom, *atom_ptr, ct = {0}, raw = {0};
     SValue store;
     char buf[40];
     static const char *const templates[] = {
@@ -5402,6 +5402,14 @@ static void parse_atomic(int atok)
                     && (0 == btype_size(atom->t & VT_BTYPE)
                         || (atom->t & VT_BTYPE) == VT_PTR)))
                 expect("integral or integer-sized pointer target type");
+            /* the helpers take and return the bits of any type in
+               an integer register */
+            raw = *atom;
+            if (is_float(atom->t) || (atom->t & VT_BTYPE) == VT_STRUCT) {
+                raw.ref = NULL;
+                raw.t = (size == 1 ? VT_BYTE : size == 2 ? VT_SHORT
+                       : size == 4 ? VT_INT : VT_LLONG) | VT_UNSIGNED;
+            }
             /* GCC does not care either: */
             /* if (!(atom->t & VT_ATOMIC))
                 tcc_warning("pointer target declaration is missing '_Atomic'"); */
@@ -5419,10 +5427,20 @@ static void parse_atomic(int atok)
         case 'l':
             indir();
             gen_assign_cast(atom);
+            if (raw.t != atom->t) {
+                if (!(vtop->r & VT_LVAL))
+                    tcc_error("pointer target type mismatch in argument %d", arg + 1);
+                vtop->type = raw;
+            }
             break;
         case 's':
             save = 1;
             indir();
+            if (raw.t != atom->t) {
+                if (type_size(&vtop->type, &align) != size)
+                    tcc_error("pointer target type mismatch in argument %d", arg + 1);
+                vtop->type = raw;
+            }
             store = *vtop;
             vpop();
             break;
@@ -5446,7 +5464,7 @@ static void parse_atomic(int atok)
         ct.t = VT_BOOL;
         break;
     case 'v':
-        ct = *atom;
+        ct = raw;
         break;
     }
 
-- 
2.43.0


From cb7bcf1370df476bc24b2666c20485160e00a419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:37 +0000
Subject: [PATCH 069/101] fix: the address of a string or compound literal as
 an integer initialiser

static long x = (long)"abc"; copied the text into x (and read past its
end when x is larger) instead of storing the address.
---
 lib/tinycc/tccgen.c | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index c940906..8974eb8 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -7628,7 +7628,7 @@ static int decl_designator(init_params *p, CType *type, unsigned long c,
             type = &t1;
         }
         if (p->sec)
-            vpush_ref(type, p->sec, c, elem_size);
+            vpush_ref(type, p->sec, c, elem_size), vtop->r |= VT_LVAL;
         else
 	    vset(type, VT_LOCAL|VT_LVAL, c);
         for (i = 1; i < nb_elems; i++) {
@@ -7672,7 +7672,8 @@ static void init_putv(init_params *p, CType *type, unsigned long c)
             && bt != VT_PTR
             && (bt != (PTR_SIZE == 8 ? VT_LLONG : VT_INT)
                 || (type->t & VT_BITFIELD))
-            && !((vtop->r & VT_CONST) && vtop->sym->v >= SYM_FIRST_ANOM)
+            && !((vtop->r & VT_CONST) && (vtop->r & VT_LVAL)
+                 && vtop->sym->v >= SYM_FIRST_ANOM)
             )
             tcc_error("initializer element is not computable at load time");
 
@@ -7685,19 +7686,8 @@ static void init_putv(init_params *p, CType *type, unsigned long c)
         val = vtop->c.i;
 
         /* XXX: make code faster ? */
-	if ((vtop->r & (VT_SYM|VT_CONST)) == (VT_SYM|VT_CONST) &&
-	    vtop->sym->v >= SYM_FIRST_ANOM &&
-	    /* XXX This rejects compound literals like
-	       '(void *){ptr}'.  The problem is that '&sym' is
-	       represented the same way, which would be ruled out
-	       by the SYM_FIRST_ANOM check above, but also '"string"'
-	       in 'char *p = "string"' is represented the same
-	       with the type being VT_PTR and the symbol being an
-	       anonymous one.  That is, there's no difference in vtop
-	       between '(void *){x}' and '&(void *){x}'.  Ignore
-	       pointer typed entities here.  Hopefully no real code
-	       will ever use compound literals with scalar type.  */
-	    (vtop->type.t & VT_BTYPE) != VT_PTR) {
+	if ((vtop->r & (VT_SYM|VT_CONST|VT_LVAL)) == (VT_SYM|VT_CONST|VT_LVAL) &&
+	    vtop->sym->v >= SYM_FIRST_ANOM) {
 	    /* These come from compound literals, memcpy stuff over.  */
 	    Section *ssec;
 	    ElfSym *esym;
-- 
2.43.0


From 27209309f5da6bb806b6294e45bd4a3dda73380f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:37 +0000
Subject: [PATCH 070/101] fix: reject conversions between pointers and
 floating-point types

---
 lib/tinycc/tccgen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 8974eb8..3e7b80d 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -3230,7 +3230,8 @@ again:
         sbt_bt = sbt & VT_BTYPE;
         if (dbt_bt == VT_VOID)
             goto done;
-        if (sbt_bt == VT_VOID || sbt_bt == VT_STRUCT || dbt_bt == VT_STRUCT) {
+        if (sbt_bt == VT_VOID || sbt_bt == VT_STRUCT || dbt_bt == VT_STRUCT
+            || (sf && dbt_bt == VT_PTR) || (df && sbt_bt == VT_PTR)) {
 error:
             cast_error(&vtop->type, type);
         }
-- 
2.43.0


From fbdcfecec60c79778e8ca32e1abd3b7d1977ede7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:37 +0000
Subject: [PATCH 071/101] fix: crash on __attribute__((cleanup(0)))

---
 lib/tinycc/tccgen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 3e7b80d..2e0de35 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -3882,6 +3882,8 @@ redo:
 	    Sym *s;
 
 	    skip('(');
+	    if (tok < TOK_UIDENT)
+	        expect("identifier");
 	    s = sym_find(tok);
 	    if (!s) {
 	        tcc_warning_c(warn_implicit_function_declaration)(
-- 
2.43.0


From 4676029e54ca32fd937a4160b06054f0f014dd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:37 +0000
Subject: [PATCH 072/101] fix: crash on '.' or '->' at the end of the file

---
 lib/tinycc/tccgen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 2e0de35..8989df5 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -4069,7 +4069,7 @@ static Sym * find_field (CType *type, int v, int *cumofs)
 {
     Sym *s = type->ref;
     int v1 = v | SYM_FIELD;
-    if (!(v & SYM_FIELD)) { /* top-level call */
+    if (v < 0 || !(v & SYM_FIELD)) { /* top-level call (v < 0: TOK_EOF) */
         if ((type->t & VT_BTYPE) != VT_STRUCT)
             expect("struct or union");
         if (v < TOK_UIDENT)
-- 
2.43.0


From f95bc240114d55ec1c9a860f01b527d4c86f04df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:37 +0000
Subject: [PATCH 073/101] fix: crashes on assembly directives with a number in
 place of a name

Also .align 0, which made the section shrink, and .org with a huge address.
---
 lib/tinycc/tccasm.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/lib/tinycc/tccasm.c b/lib/tinycc/tccasm.c
index e52872b..3fe7587 100644
--- a/lib/tinycc/tccasm.c
+++ b/lib/tinycc/tccasm.c
@@ -80,7 +80,11 @@ static Sym *asm_label_find(int v)
 
 static Sym *asm_label_push(int v)
 {
-    int addeddot, v2 = asm2cname(v, &addeddot);
+    int addeddot, v2;
+
+    if (v < TOK_IDENT)
+        expect("symbol name");
+    v2 = asm2cname(v, &addeddot);
     /* We always add VT_EXTERN, for sym definition that's tentative
        (for .set, removed for real defs), for mere references it's correct
        as is.  */
@@ -517,6 +521,8 @@ static void asm_parse_directive(TCCState *s1, int global)
         if (tok1 == TOK_ASMDIR_align || tok1 == TOK_ASMDIR_balign) {
             if (n < 0 || (n & (n-1)) != 0)
                 tcc_error("alignment must be a positive power of two");
+            if (n == 0)
+                n = 1;
             offset = (ind + n - 1) & -n;
             size = offset - ind;
             /* the section must have a compatible alignment */
@@ -533,6 +539,8 @@ static void asm_parse_directive(TCCState *s1, int global)
             v = asm_int_expr(s1);
         }
     zero_pad:
+        if (size < 0 || size > 0x7fffffff - ind)
+            tcc_error("section would become too large");
         if (sec->sh_type != SHT_NOBITS) {
             sec->data_offset = ind;
             ptr = section_ptr_add(sec, size);
@@ -799,7 +807,7 @@ static void asm_parse_directive(TCCState *s1, int global)
             if (tok == TOK_STR)
                 pstrcat(ident, sizeof(ident), tokc.str.data);
             else
-                pstrcat(ident, sizeof(ident), get_tok_str(tok, NULL));
+                pstrcat(ident, sizeof(ident), get_tok_str(tok, &tokc));
             tcc_warning_c(warn_unsupported)("ignoring .ident %s", ident);
             next();
         }
@@ -811,10 +819,10 @@ static void asm_parse_directive(TCCState *s1, int global)
             next();
             sym = asm_label_find(tok);
             if (!sym) {
-                tcc_error("label not found: %s", get_tok_str(tok, NULL));
+                tcc_error("label not found: %s", get_tok_str(tok, &tokc));
             }
             /* XXX .size name,label2-label1 */
-            tcc_warning_c(warn_unsupported)("ignoring .size %s,*", get_tok_str(tok, NULL));
+            tcc_warning_c(warn_unsupported)("ignoring .size %s,*", get_tok_str(tok, &tokc));
             next();
             skip(',');
             while (tok != TOK_LINEFEED && tok != ';' && tok != CH_EOF) {
@@ -836,7 +844,7 @@ static void asm_parse_directive(TCCState *s1, int global)
             } else {
                 if (tok == '@' || tok == '%')
                     next();
-                newtype = get_tok_str(tok, NULL);
+                newtype = get_tok_str(tok, &tokc);
             }
 
             if (!strcmp(newtype, "function") || !strcmp(newtype, "STT_FUNC")) {
@@ -866,7 +874,7 @@ static void asm_parse_directive(TCCState *s1, int global)
                 if (tok == TOK_STR)
                     pstrcat(sname, sizeof(sname), tokc.str.data);
                 else
-                    pstrcat(sname, sizeof(sname), get_tok_str(tok, NULL));
+                    pstrcat(sname, sizeof(sname), get_tok_str(tok, &tokc));
                 next();
             }
             if (tok == ',') {
@@ -950,16 +958,16 @@ static void asm_parse_directive(TCCState *s1, int global)
                 break;
             case TOK_ASM_arch:
                 /* TODO: unimplemented, requires extra parsing */
-                tcc_error("unimp .option '.%s'", get_tok_str(tok, NULL));
+                tcc_error("unimp .option '.%s'", get_tok_str(tok, &tokc));
                 break;
             default:
-                tcc_error("unknown .option '.%s'", get_tok_str(tok, NULL));
+                tcc_error("unknown .option '.%s'", get_tok_str(tok, &tokc));
                 break;
         }
         break;
 #endif
     default:
-        tcc_error("unknown assembler directive '.%s'", get_tok_str(tok, NULL));
+        tcc_error("unknown assembler directive '.%s'", get_tok_str(tok, &tokc));
         break;
     }
 }
-- 
2.43.0


From 066351e7bc58c3aafb14554956a8b06e68a95247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:50 +0000
Subject: [PATCH 074/101] fix: statement expressions in parameter lists at file
 scope

The scope of the previous function, which no longer exists, was used.
---
 lib/tinycc/tccgen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 8989df5..0cb6129 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -5618,7 +5618,8 @@ ST_FUNC void unary(void)
 	    int saved_nocode_wanted = nocode_wanted;
             if (CONST_WANTED && !NOEVAL_WANTED)
                 expect("constant");
-            if (0 == local_scope)
+            /* local_scope is also set in a parameter list at file scope */
+            if (0 == local_scope || !local_stack)
                 tcc_error("statement expression outside of function");
             /* save all registers */
             save_regs(0);
-- 
2.43.0


From 5939aa763b849551de8bea1d22d5f9c497519735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:50 +0000
Subject: [PATCH 075/101] fix: initialisers that read past the end of an
 anonymous object

---
 lib/tinycc/tccgen.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 0cb6129..091bdf8 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -7698,6 +7698,9 @@ static void init_putv(init_params *p, CType *type, unsigned long c)
 	    ElfW_Rel *rel;
 	    esym = elfsym(vtop->sym);
 	    ssec = tcc_state->sections[esym->st_shndx];
+	    if ((int)vtop->c.i < 0
+		|| esym->st_value + (int)vtop->c.i + size > ssec->data_offset)
+		tcc_error("initializer element is not computable at load time");
 	    memmove (ptr, ssec->data + esym->st_value + (int)vtop->c.i, size);
 	    if (ssec->reloc) {
 		/* We need to copy over all memory contents, and that
-- 
2.43.0


From 76a2d2502747ca531513b5020de30e8f8c89d69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:58 +0000
Subject: [PATCH 076/101] fix: crash on a local name that is also a run-time
 support function

---
 lib/tinycc/tccgen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 091bdf8..b446ee8 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -681,7 +681,8 @@ ST_INLN Sym *sym_find(int v)
 
 static int sym_scope(Sym *s)
 {
-  if (IS_ENUM_VAL (s->type.t))
+  /* the type of an assembler function looks like that of an enumerator */
+  if (IS_ENUM_VAL (s->type.t) && !IS_ASM_SYM(s))
     return s->type.ref->sym_scope;
   else
     return s->sym_scope;
-- 
2.43.0


From 42a02d175a96546047cb137c04d30c3010778309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:58 +0000
Subject: [PATCH 077/101] fix: concatenation of a wide and a narrow string
 literal

L"a" "b" kept the bytes of the narrow literal.
---
 lib/tinycc/tccgen.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index b446ee8..bf8faf5 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -7901,7 +7901,17 @@ static void decl_initializer(init_params *p, CType *type, unsigned long c, int f
                 else
                   len += tokc.str.size / sizeof(nwchar_t);
                 len--;
-                cstr_cat(&initstr, tokc.str.data, tokc.str.size);
+                if (tok == TOK_STR && size1 > 1) {
+                    /* L"a" "b" is the same as L"a" L"b" */
+                    for (i = 0; i < tokc.str.size; i++) {
+                        if (((unsigned char *)tokc.str.data)[i] >= 0x80)
+                            tcc_error("unhandled string literal merging");
+                        cstr_wccat(&initstr, tokc.str.data[i]);
+                    }
+                } else if (tok == TOK_LSTR && size1 == 1) {
+                    tcc_error("unhandled string literal merging");
+                } else
+                    cstr_cat(&initstr, tokc.str.data, tokc.str.size);
                 next();
             }
             if (tok != ')' && tok != '}' && tok != ',' && tok != ';'
-- 
2.43.0


From d26017704bf98f1114bdf4ed48270470110df236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:04 +0000
Subject: [PATCH 078/101] fix: non-constant floating-point conversions in
 static initialisers

The value stayed in a register of the wrong kind, and the compiler aborted.
---
 lib/tinycc/tccgen.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index bf8faf5..6bc5562 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -3306,8 +3306,14 @@ error:
         }
 
         /* cannot generate code for global or static initializers */
-        if (nocode_wanted & DATA_ONLY_WANTED)
+        if (nocode_wanted & DATA_ONLY_WANTED) {
+            if (sf || df) {
+                /* the value can't stay in a register of the other kind */
+                vtop->r = VT_LOCAL | VT_LVAL;
+                vtop->c.i = 0;
+            }
             goto done;
+        }
 
         /* non constant case: generate code */
         if (dbt == VT_BOOL) {
-- 
2.43.0


From b8e6ae86793e4bf68f6246e9fe7e64fb4761e141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:05 +0000
Subject: [PATCH 079/101] fix: reject signed and unsigned with types that are
 not integers

---
 lib/tinycc/tccgen.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 6bc5562..a4522aa 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -4878,6 +4878,10 @@ the_end:
     bt = t & (VT_BTYPE|VT_LONG);
     if (bt == VT_LONG)
         t |= LONG_SIZE == 8 ? VT_LLONG : VT_INT;
+    bt = t & VT_BTYPE;
+    if ((t & VT_DEFSIGN)
+        && bt != VT_BYTE && bt != VT_SHORT && bt != VT_INT && bt != VT_LLONG)
+        tcc_error("'signed' or 'unsigned' invalid with this type");
 #ifdef TCC_USING_DOUBLE_FOR_LDOUBLE
     if (bt == VT_LDOUBLE)
         t = (t & ~(VT_BTYPE|VT_LONG)) | (VT_DOUBLE|VT_LONG);
-- 
2.43.0


From 905b37a1091e9cb67a7aebafa4100f1749b1b34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:43 +0000
Subject: [PATCH 080/101] fix: assembler operands relative to %rip

A number without a symbol is the displacement itself, and for an
instruction with an immediate operand the distance to the next instruction
belongs into the addend of the relocation: ld ignores the section contents.
---
 lib/tinycc/i386-asm.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/lib/tinycc/i386-asm.c b/lib/tinycc/i386-asm.c
index 33783d5..0d2d5fc 100644
--- a/lib/tinycc/i386-asm.c
+++ b/lib/tinycc/i386-asm.c
@@ -547,7 +547,12 @@ static inline int asm_modrm(int reg, Operand *op)
     } else if (op->reg == -2) {
         ExprValue *pe = &op->e;
         g(0x05 + (reg << 3));
-        gen_addrpc32(pe->sym ? VT_SYM : 0, pe->sym, pe->v);
+        if (!pe->sym) {
+            /* a plain number is the displacement itself */
+            gen_le32(pe->v);
+            return 0;
+        }
+        gen_addrpc32(VT_SYM, pe->sym, pe->v);
         return ind;
 #endif
     } else {
@@ -1161,8 +1166,16 @@ again:
     }
 
     /* after immediate operands, adjust pc-relative address */
-    if (pc)
-        add32le(cur_text_section->data + pc - 4, pc - ind);
+    if (pc && pc != ind) {
+#ifdef TCC_TARGET_X86_64
+        /* in the addend of the relocation made by asm_modrm() */
+        Section *sr = cur_text_section->reloc;
+        ElfW_Rel *rel = (ElfW_Rel *)(sr->data + sr->data_offset) - 1;
+        while (rel->r_offset != pc - 4)
+            --rel;
+        rel->r_addend += pc - ind;
+#endif
+    }
 }
 
 /* return the constraint priority (we allocate first the lowest
-- 
2.43.0


From 77a1e94b5004bb5ccde876333ebcff1d33a030df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:43 +0000
Subject: [PATCH 081/101] fix: .align in code fills with nops instead of zeros

---
 lib/tinycc/tccasm.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/tinycc/tccasm.c b/lib/tinycc/tccasm.c
index 3fe7587..89e603b 100644
--- a/lib/tinycc/tccasm.c
+++ b/lib/tinycc/tccasm.c
@@ -534,6 +534,12 @@ static void asm_parse_directive(TCCState *s1, int global)
             size = n;
         }
         v = 0;
+#if defined TCC_TARGET_I386 || defined TCC_TARGET_X86_64
+        /* code may run into the padding: fill with nop */
+        if (tok1 != TOK_ASMDIR_skip && tok1 != TOK_ASMDIR_space
+            && (sec->sh_flags & SHF_EXECINSTR))
+            v = 0x90;
+#endif
         if (tok == ',') {
             next();
             v = asm_int_expr(s1);
-- 
2.43.0


From e071b51fc004e0b961c289b94dfc8ff1f17528b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:43 +0000
Subject: [PATCH 082/101] fix: encodings of pavgb, pavgw, rcpss, sldt and smsw

---
 lib/tinycc/i386-asm.h   |  6 +++---
 lib/tinycc/x86_64-asm.h | 14 +++++++++-----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/lib/tinycc/i386-asm.h b/lib/tinycc/i386-asm.h
index 0f99b28..80dbd75 100644
--- a/lib/tinycc/i386-asm.h
+++ b/lib/tinycc/i386-asm.h
@@ -468,13 +468,13 @@ ALT(DEF_ASM_OP2(movhps, 0x0f17, 0, OPC_MODRM, OPT_SSE, OPT_EA | OPT_REG32 ))
     DEF_ASM_OP2(maxps, 0x0f5f, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
     DEF_ASM_OP2(minps, 0x0f5d, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
     DEF_ASM_OP2(mulps, 0x0f59, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
-    DEF_ASM_OP2(pavgb, 0x0fe0, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
-    DEF_ASM_OP2(pavgw, 0x0fe3, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
+    DEF_ASM_OP2(pavgb, 0x0fe0, 0, OPC_MODRM, OPT_EA | OPT_MMXSSE, OPT_MMXSSE )
+    DEF_ASM_OP2(pavgw, 0x0fe3, 0, OPC_MODRM, OPT_EA | OPT_MMXSSE, OPT_MMXSSE )
     DEF_ASM_OP2(pmaxsw, 0x0fee, 0, OPC_MODRM, OPT_EA | OPT_MMXSSE, OPT_MMXSSE )
     DEF_ASM_OP2(pmaxub, 0x0fde, 0, OPC_MODRM, OPT_EA | OPT_MMXSSE, OPT_MMXSSE )
     DEF_ASM_OP2(pminsw, 0x0fea, 0, OPC_MODRM, OPT_EA | OPT_MMXSSE, OPT_MMXSSE )
     DEF_ASM_OP2(pminub, 0x0fda, 0, OPC_MODRM, OPT_EA | OPT_MMXSSE, OPT_MMXSSE )
-    DEF_ASM_OP2(rcpss, 0x0f53, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
+    DEF_ASM_OP2(rcpss, 0xf30f53, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
     DEF_ASM_OP2(rsqrtps, 0x0f52, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
     DEF_ASM_OP2(sqrtps, 0x0f51, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
     DEF_ASM_OP2(subps, 0x0f5c, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
diff --git a/lib/tinycc/x86_64-asm.h b/lib/tinycc/x86_64-asm.h
index 339e1df..485c4dd 100644
--- a/lib/tinycc/x86_64-asm.h
+++ b/lib/tinycc/x86_64-asm.h
@@ -385,8 +385,12 @@ ALT(DEF_ASM_OP2(lslw, 0x0f03, 0, OPC_MODRM | OPC_WLX, OPT_EA | OPT_REG, OPT_REG)
     DEF_ASM_OP1(sgdtq, 0x0f01, 0, OPC_MODRM, OPT_EA)
     DEF_ASM_OP1(sidt, 0x0f01, 1, OPC_MODRM, OPT_EA)
     DEF_ASM_OP1(sidtq, 0x0f01, 1, OPC_MODRM, OPT_EA)
-    DEF_ASM_OP1(sldt, 0x0f00, 0, OPC_MODRM, OPT_REG | OPT_EA)
-    DEF_ASM_OP1(smsw, 0x0f01, 4, OPC_MODRM, OPT_REG | OPT_EA)
+    DEF_ASM_OP1(sldt, 0x0f00, 0, OPC_MODRM, OPT_REG32 | OPT_EA)
+ALT(DEF_ASM_OP1(sldt, 0x660f00, 0, OPC_MODRM, OPT_REG16))
+ALT(DEF_ASM_OP1(sldt, 0x0f00, 0, OPC_MODRM | OPC_48, OPT_REG64))
+    DEF_ASM_OP1(smsw, 0x0f01, 4, OPC_MODRM, OPT_REG32 | OPT_EA)
+ALT(DEF_ASM_OP1(smsw, 0x660f01, 4, OPC_MODRM, OPT_REG16))
+ALT(DEF_ASM_OP1(smsw, 0x0f01, 4, OPC_MODRM | OPC_48, OPT_REG64))
     DEF_ASM_OP1(str, 0x0f00, 1, OPC_MODRM, OPT_REG32 | OPT_EA)
 ALT(DEF_ASM_OP1(str, 0x660f00, 1, OPC_MODRM, OPT_REG16))
 ALT(DEF_ASM_OP1(str, 0x0f00, 1, OPC_MODRM | OPC_48, OPT_REG64))
@@ -512,13 +516,13 @@ ALT(DEF_ASM_OP2(movhps, 0x0f17, 0, OPC_MODRM, OPT_SSE, OPT_EA | OPT_REG32 ))
     DEF_ASM_OP2(maxps, 0x0f5f, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
     DEF_ASM_OP2(minps, 0x0f5d, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
     DEF_ASM_OP2(mulps, 0x0f59, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
-    DEF_ASM_OP2(pavgb, 0x0fe0, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
-    DEF_ASM_OP2(pavgw, 0x0fe3, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
+    DEF_ASM_OP2(pavgb, 0x0fe0, 0, OPC_MODRM, OPT_EA | OPT_MMXSSE, OPT_MMXSSE )
+    DEF_ASM_OP2(pavgw, 0x0fe3, 0, OPC_MODRM, OPT_EA | OPT_MMXSSE, OPT_MMXSSE )
     DEF_ASM_OP2(pmaxsw, 0x0fee, 0, OPC_MODRM, OPT_EA | OPT_MMXSSE, OPT_MMXSSE )
     DEF_ASM_OP2(pmaxub, 0x0fde, 0, OPC_MODRM, OPT_EA | OPT_MMXSSE, OPT_MMXSSE )
     DEF_ASM_OP2(pminsw, 0x0fea, 0, OPC_MODRM, OPT_EA | OPT_MMXSSE, OPT_MMXSSE )
     DEF_ASM_OP2(pminub, 0x0fda, 0, OPC_MODRM, OPT_EA | OPT_MMXSSE, OPT_MMXSSE )
-    DEF_ASM_OP2(rcpss, 0x0f53, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
+    DEF_ASM_OP2(rcpss, 0xf30f53, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
     DEF_ASM_OP2(rsqrtps, 0x0f52, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
     DEF_ASM_OP2(sqrtps, 0x0f51, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
     DEF_ASM_OP2(subps, 0x0f5c, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
-- 
2.43.0


From a0491c9bbcce1db64e2680e71771746c8ea8815d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:02 +0000
Subject: [PATCH 083/101] fix: immediate operands of the assembler

Negative 16-bit operands (ret $-128, pushw $-1000) and numbers that do not fit
made wrong code, a 32-bit number was sign extended by movq to a register, an
operand that an instruction does not take was ignored, fcom without operand
was no instruction, and xchg %eax,%eax was encoded as nop, which does not
clear the upper half of the register.
---
 lib/tinycc/i386-asm.c   | 19 +++++++++++++++++--
 lib/tinycc/i386-asm.h   |  1 +
 lib/tinycc/x86_64-asm.h |  4 ++--
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/lib/tinycc/i386-asm.c b/lib/tinycc/i386-asm.c
index 0d2d5fc..27bd3e0 100644
--- a/lib/tinycc/i386-asm.c
+++ b/lib/tinycc/i386-asm.c
@@ -424,7 +424,7 @@ static void parse_operand(TCCState *s1, Operand *op)
                 op->type |= OP_IM8;
             if (op->e.v == (int8_t)op->e.v)
                 op->type |= OP_IM8S;
-            if (op->e.v == (uint16_t)op->e.v)
+            if (op->e.v == (uint16_t)op->e.v || op->e.v == (int16_t)op->e.v)
                 op->type |= OP_IM16;
 #ifdef TCC_TARGET_X86_64
             if (op->e.v != (int32_t)op->e.v && op->e.v != (uint32_t)op->e.v)
@@ -743,6 +743,14 @@ ST_FUNC void asm_opcode(TCCState *s1, int opcode)
         next();
     }
 
+#ifdef TCC_TARGET_X86_64
+    /* other instructions than this extend the sign of a 32-bit number */
+    if ((opcode == TOK_ASM_mov || opcode == TOK_ASM_movq) && nb_ops == 2
+        && (ops[1].type & OP_REG64) && (ops[0].type & OP_IM32)
+        && !ops[0].e.sym && ops[0].e.v != (int32_t)ops[0].e.v)
+        ops[0].type = OP_IM64;
+#endif
+
     s = 0; /* avoid warning */
 
 again:
@@ -854,7 +862,7 @@ again:
     next: ;
     }
     if (pa->sym == 0) {
-        if (opcode >= TOK_ASM_first && opcode <= TOK_ASM_last) {
+        if (opcode >= TOK_ASM_first && opcode <= TOK_ASM_last && nb_ops == 0) {
             int b;
             b = op0_codes[opcode - TOK_ASM_first];
             if (b & 0xff00) 
@@ -1160,6 +1168,13 @@ again:
 	    } else if (pa->op_type[i] == OPT_DISP || pa->op_type[i] == OPT_DISP8) {
                 gen_disp32(&ops[i].e);
             } else {
+                if (s == 1 && v == OP_IM32)
+                    tcc_error("immediate operand too large");
+#ifdef TCC_TARGET_X86_64
+                if (s == 3 && !ops[i].e.sym
+                    && ops[i].e.v != (int32_t)ops[i].e.v)
+                    tcc_error("immediate operand too large");
+#endif
                 gen_expr32(&ops[i].e);
             }
         }
diff --git a/lib/tinycc/i386-asm.h b/lib/tinycc/i386-asm.h
index 80dbd75..c2956c2 100644
--- a/lib/tinycc/i386-asm.h
+++ b/lib/tinycc/i386-asm.h
@@ -236,6 +236,7 @@ ALT(DEF_ASM_OP1(jo, 0x70, 0, OPC_TEST, OPT_DISP8))
      
      /* float */
      /* specific fcomp handling */
+ALT(DEF_ASM_OP0L(fcom, 0xd8d1, 0, 0))
 ALT(DEF_ASM_OP0L(fcomp, 0xd8d9, 0, 0))
 
 ALT(DEF_ASM_OP1(fadd, 0xd8c0, 0, OPC_FARITH | OPC_REG, OPT_ST))
diff --git a/lib/tinycc/x86_64-asm.h b/lib/tinycc/x86_64-asm.h
index 485c4dd..3522650 100644
--- a/lib/tinycc/x86_64-asm.h
+++ b/lib/tinycc/x86_64-asm.h
@@ -156,8 +156,7 @@ ALT(DEF_ASM_OP1(popw, 0x58, 0, OPC_REG | OPC_WLX, OPT_REG16))
 ALT(DEF_ASM_OP1(popw, 0x8f, 0, OPC_MODRM | OPC_WLX, OPT_REGW | OPT_EA))
 ALT(DEF_ASM_OP1(popw, 0x07, 0, OPC_WLX, OPT_SEG))
 
-ALT(DEF_ASM_OP2(xchgw, 0x90, 0, OPC_REG | OPC_WLX, OPT_REGW, OPT_EAX))
-ALT(DEF_ASM_OP2(xchgw, 0x90, 0, OPC_REG | OPC_WLX, OPT_EAX, OPT_REGW))
+/* not the short form 0x90+r: xchg %eax,%eax is no nop, it clears the upper half */
 ALT(DEF_ASM_OP2(xchgb, 0x86, 0, OPC_MODRM | OPC_BWLX, OPT_REG, OPT_EA | OPT_REG))
 ALT(DEF_ASM_OP2(xchgb, 0x86, 0, OPC_MODRM | OPC_BWLX, OPT_EA | OPT_REG, OPT_REG))
 
@@ -255,6 +254,7 @@ ALT(DEF_ASM_OP1(jo, 0x70, 0, OPC_TEST, OPT_DISP8))
 
      /* float */
      /* specific fcomp handling */
+ALT(DEF_ASM_OP0L(fcom, 0xd8d1, 0, 0))
 ALT(DEF_ASM_OP0L(fcomp, 0xd8d9, 0, 0))
 
 ALT(DEF_ASM_OP1(fadd, 0xd8c0, 0, OPC_FARITH | OPC_REG, OPT_ST))
-- 
2.43.0


From 568a5c236ec5f0545c7af66572553dc8c01dfb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:00 +0000
Subject: [PATCH 084/101] fix: link errors after a failed compilation were
 printed as preprocessor expression errors

---
 lib/tinycc/libtcc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tinycc/libtcc.c b/lib/tinycc/libtcc.c
index 0c0769e..c690101 100644
--- a/lib/tinycc/libtcc.c
+++ b/lib/tinycc/libtcc.c
@@ -607,7 +607,7 @@ static void error1(int mode, const char *fmt, va_list ap)
         cstr_printf(&cs, "tcc: ");
     }
     cstr_printf(&cs, mode == ERROR_WARN ? "warning: " : "error: ");
-    if (pp_expr > 1)
+    if (f && pp_expr > 1)
         pp_error(&cs); /* special handler for preprocessor expression errors */
     else
         cstr_vprintf(&cs, fmt, ap);
-- 
2.43.0


From 7e6994e2cec5c127bc29926acc421e019ea42da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:00 +0000
Subject: [PATCH 085/101] fix: the library's locks were initialised in a race

---
 lib/tinycc/tcc.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/tinycc/tcc.h b/lib/tinycc/tcc.h
index a8afb59..26105e7 100644
--- a/lib/tinycc/tcc.h
+++ b/lib/tinycc/tcc.h
@@ -1883,12 +1883,16 @@ typedef struct { int init; CRITICAL_SECTION cr; } TCCSem;
 #include <dispatch/dispatch.h>
 typedef struct { int init; dispatch_semaphore_t sem; } TCCSem;
 #else
-#include <semaphore.h>
-typedef struct { int init; sem_t sem; } TCCSem;
+#include <pthread.h>
+typedef struct { pthread_mutex_t mutex; } TCCSem;
+/* static: threads may get here for the first time at once */
+#define TCC_SEM(s) TCCSem s = { PTHREAD_MUTEX_INITIALIZER }
 #endif
 ST_FUNC void wait_sem(TCCSem *p);
 ST_FUNC void post_sem(TCCSem *p);
+#ifndef TCC_SEM
 #define TCC_SEM(s) TCCSem s
+#endif
 #define WAIT_SEM wait_sem
 #define POST_SEM post_sem
 #else
@@ -1976,13 +1980,11 @@ ST_FUNC void post_sem(TCCSem *p)
 #else
 ST_FUNC void wait_sem(TCCSem *p)
 {
-    if (!p->init)
-        sem_init(&p->sem, 0, 1), p->init = 1;
-    while (sem_wait(&p->sem) < 0 && errno == EINTR);
+    pthread_mutex_lock(&p->mutex);
 }
 ST_FUNC void post_sem(TCCSem *p)
 {
-    sem_post(&p->sem);
+    pthread_mutex_unlock(&p->mutex);
 }
 #endif
 #endif
-- 
2.43.0


From 89a0d1611544b2a9aaebe93a36baef14211b5e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:00 +0000
Subject: [PATCH 086/101] fix: use of freed debug information when compiling
 after a failure

---
 lib/tinycc/tccdbg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tinycc/tccdbg.c b/lib/tinycc/tccdbg.c
index 7760f4f..310b745 100644
--- a/lib/tinycc/tccdbg.c
+++ b/lib/tinycc/tccdbg.c
@@ -1930,7 +1930,7 @@ ST_FUNC void tcc_debug_funcend(TCCState *s1, int size)
     {
         tcc_debug_finish (s1, debug_info_root);
     }
-    debug_info_root = 0;
+    debug_info_root = debug_info = NULL;
 }
 
 
-- 
2.43.0


From 969f531b02867664f926bcc23c83f10be23dcded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:42 +0000
Subject: [PATCH 087/101] fix: cjit-ar indexed symbols of the previous object
 for one that has none

---
 src/cjit-ar.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cjit-ar.c b/src/cjit-ar.c
index bd75a0d..ff4b43e 100644
--- a/src/cjit-ar.c
+++ b/src/cjit-ar.c
@@ -220,6 +220,9 @@ finish:
         fread(buf, fsize, 1, fi);
         fclose(fi);
 
+        symtab = strtab = NULL;
+        symtabsize = 0;
+
         // elf header
         ehdr = (ElfW(Ehdr) *)buf;
         if (ehdr->e_ident[4] != ELFCLASSW)
-- 
2.43.0


From f86b33311ddceae46903a72748e785c75cc73150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:42 +0000
Subject: [PATCH 088/101] fix: cjit-ar read files that are no ELF objects as if
 they were

---
 src/cjit-ar.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cjit-ar.c b/src/cjit-ar.c
index ff4b43e..b2ce7ee 100644
--- a/src/cjit-ar.c
+++ b/src/cjit-ar.c
@@ -225,9 +225,12 @@ finish:
 
         // elf header
         ehdr = (ElfW(Ehdr) *)buf;
-        if (ehdr->e_ident[4] != ELFCLASSW)
+        if (fsize < (int)sizeof(*ehdr)
+            || memcmp(ehdr->e_ident, ELFMAG, SELFMAG)
+            || ehdr->e_ident[4] != ELFCLASSW)
         {
             fprintf(stderr, "cjit-ar: Unsupported Elf Class: %s\n", argv[i_obj]);
+            tcc_free(buf);
             goto the_end;
         }
 
-- 
2.43.0


From 2210fa88c3d85dee4b4f9f2f826b8cf20ad6ddaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:42 +0000
Subject: [PATCH 089/101] fix: cjit-ar left thread-local, indirect and unique
 symbols out of the index

---
 src/cjit-ar.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/cjit-ar.c b/src/cjit-ar.c
index b2ce7ee..55fdd14 100644
--- a/src/cjit-ar.c
+++ b/src/cjit-ar.c
@@ -263,13 +263,11 @@ finish:
             for (i = 1; i < nsym; i++)
             {
                 sym = (ElfW(Sym) *) (symtab + i * sizeof(ElfW(Sym)));
+                int bind = ELFW(ST_BIND)(sym->st_info);
                 if (sym->st_shndx &&
-                    (sym->st_info == 0x10
-                    || sym->st_info == 0x11
-                    || sym->st_info == 0x12
-                    || sym->st_info == 0x20
-                    || sym->st_info == 0x21
-                    || sym->st_info == 0x22
+                    (bind == STB_GLOBAL
+                    || bind == STB_WEAK
+                    || bind == 10 /* STB_GNU_UNIQUE */
                     )) {
                     //printf("symtab: %2Xh %4Xh %2Xh %s\n", sym->st_info, sym->st_size, sym->st_shndx, strtab + sym->st_name);
                     istrlen = strlen(strtab + sym->st_name)+1;
-- 
2.43.0


From cc4204ae2f3d8d495513410f1d35eb0087265e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:42 +0000
Subject: [PATCH 090/101] fix: cjit-ar did not align members of odd size, when
 writing and when reading

---
 src/cjit-ar.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cjit-ar.c b/src/cjit-ar.c
index 55fdd14..84369e5 100644
--- a/src/cjit-ar.c
+++ b/src/cjit-ar.c
@@ -173,6 +173,8 @@ no_ar:
 		}
 	    }
             tcc_free(buf);
+	    if (fsize & 1) // members are aligned
+		fgetc(fh);
 	}
 	ret = 0;
 finish:
@@ -297,9 +299,11 @@ finish:
         memcpy(&arhdro.ar_size, stmp, 10);
         fwrite(&arhdro, sizeof(arhdro), 1, fo);
         fwrite(buf, fsize, 1, fo);
+        if (fsize & 1) // align
+            fwrite("\n", 1, 1, fo);
         tcc_free(buf);
         i_obj++;
-        fpos += (fsize + sizeof(arhdro));
+        fpos += (fsize + (fsize & 1) + sizeof(arhdro));
     }
     hofs = 8 + sizeof(arhdr) + strpos + (funccnt+1) * sizeof(int);
     fpos = 0;
-- 
2.43.0


From 3d76f81a153db0cc69cefdbf7158822ee745e1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:42 +0000
Subject: [PATCH 091/101] fix: cjit-ar made an empty archive of objects that
 define no symbols

---
 src/cjit-ar.c | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/cjit-ar.c b/src/cjit-ar.c
index 84369e5..26ccd61 100644
--- a/src/cjit-ar.c
+++ b/src/cjit-ar.c
@@ -311,21 +311,19 @@ finish:
         hofs++, fpos = 1;
     // write header
     fwrite(ARMAG, 8, 1, fh);
-    // create an empty archive
-    if (!funccnt) {
-        ret = 0;
-        goto the_end;
+    // no index without symbols
+    if (funccnt) {
+        sprintf(stmp, "%-10d", (int)(strpos + (funccnt+1) * sizeof(int)) + fpos);
+        memcpy(&arhdr.ar_size, stmp, 10);
+        fwrite(&arhdr, sizeof(arhdr), 1, fh);
+        afpos[0] = le2belong(funccnt);
+        for (i=1; i<=funccnt; i++)
+            afpos[i] = le2belong(afpos[i] + hofs);
+        fwrite(afpos, (funccnt+1) * sizeof(int), 1, fh);
+        fwrite(anames, strpos, 1, fh);
+        if (fpos)
+            fwrite("", 1, 1, fh);
     }
-    sprintf(stmp, "%-10d", (int)(strpos + (funccnt+1) * sizeof(int)) + fpos);
-    memcpy(&arhdr.ar_size, stmp, 10);
-    fwrite(&arhdr, sizeof(arhdr), 1, fh);
-    afpos[0] = le2belong(funccnt);
-    for (i=1; i<=funccnt; i++)
-        afpos[i] = le2belong(afpos[i] + hofs);
-    fwrite(afpos, (funccnt+1) * sizeof(int), 1, fh);
-    fwrite(anames, strpos, 1, fh);
-    if (fpos)
-        fwrite("", 1, 1, fh);
     // write objects
     fseek(fo, 0, SEEK_END);
     fsize = ftell(fo);
-- 
2.43.0


From c5ab000eb2d3a3567fed25658bb32d3e37203362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:42 +0000
Subject: [PATCH 092/101] fix: cjit-ar overflowed a buffer with an archive path
 of more than 255 bytes

---
 src/cjit-ar.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cjit-ar.c b/src/cjit-ar.c
index 26ccd61..6fcf90b 100644
--- a/src/cjit-ar.c
+++ b/src/cjit-ar.c
@@ -90,7 +90,7 @@ int tcc_tool_ar(TCCState *s1, int argc, char **argv) {
     char *anames = NULL;
     int *afpos = NULL;
     int istrlen, strpos = 0, fpos = 0, funccnt = 0, funcmax, hofs;
-    char tfile[260], stmp[20];
+    char *tfile = NULL, stmp[20];
     char *file, *name;
     int ret = 2;
     const char *ops_conflict = "habdiopN";  // unsupported but destructive if ignored.
@@ -190,6 +190,7 @@ finish:
     }
     created_file = argv[i_lib];
 
+    tfile = tcc_malloc(strlen(argv[i_lib]) + sizeof ".tmp");
     sprintf(tfile, "%s.tmp", argv[i_lib]);
     if ((fo = fopen(tfile, "wb+")) == NULL)
     {
@@ -344,6 +345,8 @@ the_end:
         remove(created_file);
     if (fo)
         fclose(fo), remove(tfile);
+    if (tfile)
+        tcc_free(tfile);
     return ret;
 }
 
-- 
2.43.0


From 535decfbfce80f54e3f85b47796174ab5815d3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:42 +0000
Subject: [PATCH 093/101] fix: cjit-ar extracted and listed truncated archives
 as if they were complete

---
 src/cjit-ar.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/cjit-ar.c b/src/cjit-ar.c
index 6fcf90b..7a38c2c 100644
--- a/src/cjit-ar.c
+++ b/src/cjit-ar.c
@@ -140,7 +140,7 @@ no_ar:
             fprintf(stderr, "cjit-ar: not an ar archive %s\n", argv[i_lib]);
             goto finish;
 	}
-	while (fread(&arhdr, 1, sizeof(arhdr), fh) == sizeof(arhdr)) {
+	while ((i = fread(&arhdr, 1, sizeof(arhdr), fh)) == sizeof(arhdr)) {
 	    char *p, *e;
 
 	    if (memcmp(arhdr.ar_fmag, ARFMAG, 2))
@@ -151,8 +151,13 @@ no_ar:
 	    *e = '\0';
 	    arhdr.ar_size[sizeof arhdr.ar_size-1] = 0;
 	    fsize = atoi(arhdr.ar_size);
+	    if (fsize < 0)
+		goto no_ar;
 	    buf = tcc_malloc(fsize + 1);
-	    fread(buf, fsize, 1, fh);
+	    if (fread(buf, 1, fsize, fh) != fsize) {
+		tcc_free(buf);
+		goto no_ar;
+	    }
 	    if (strcmp(arhdr.ar_name,"/") && strcmp(arhdr.ar_name,"/SYM64/")) {
 		if (e > p && e[-1] == '/')
 		    e[-1] = '\0';
@@ -176,6 +181,8 @@ no_ar:
 	    if (fsize & 1) // members are aligned
 		fgetc(fh);
 	}
+	if (i != 0)
+	    goto no_ar;
 	ret = 0;
 finish:
 	if (fh)
-- 
2.43.0


From 2fafa2bb8d171f32cd26b31314a7999c0a720dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:42 +0000
Subject: [PATCH 094/101] fix: cjit-ar ignored errors writing the archive or
 the extracted files

---
 src/cjit-ar.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/cjit-ar.c b/src/cjit-ar.c
index 7a38c2c..60246b2 100644
--- a/src/cjit-ar.c
+++ b/src/cjit-ar.c
@@ -172,8 +172,13 @@ no_ar:
 		        tcc_free(buf);
 			goto finish;
 		    }
-		    fwrite(buf, fsize, 1, fo);
-		    fclose(fo);
+		    i = fwrite(buf, 1, fsize, fo) != fsize;
+		    if (fclose(fo) || i) {
+			fprintf(stderr, "cjit-ar: can't write file %s\n",
+				arhdr.ar_name);
+		        tcc_free(buf);
+			goto finish;
+		    }
 		    /* ignore date/uid/gid/mode */
 		}
 	    }
@@ -337,10 +342,15 @@ finish:
     fsize = ftell(fo);
     fseek(fo, 0, SEEK_SET);
     buf = tcc_malloc(fsize + 1);
-    fread(buf, fsize, 1, fo);
+    ret = 0;
+    if (fread(buf, 1, fsize, fo) != fsize || ferror(fo))
+        ret = 2;
     fwrite(buf, fsize, 1, fh);
     tcc_free(buf);
-    ret = 0;
+    if (fflush(fh) || ferror(fh))
+        ret = 2;
+    if (ret)
+        fprintf(stderr, "cjit-ar: can't write file %s\n", argv[i_lib]);
 the_end:
     if (anames)
         tcc_free(anames);
-- 
2.43.0


From 90550340a2416c8b2affc4cc9d5adace54a764a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:55 +0000
Subject: [PATCH 095/101] fix: cjit-ar compared uninitialised memory when an
 archive has less than eight bytes

---
 src/cjit-ar.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cjit-ar.c b/src/cjit-ar.c
index 60246b2..fc51d4a 100644
--- a/src/cjit-ar.c
+++ b/src/cjit-ar.c
@@ -133,8 +133,7 @@ int tcc_tool_ar(TCCState *s1, int argc, char **argv) {
             fprintf(stderr, "cjit-ar: can't open file %s\n", argv[i_lib]);
             goto finish;
         }
-        fread(stmp, 1, 8, fh);
-	if (memcmp(stmp,ARMAG,8))
+        if (fread(stmp, 1, 8, fh) != 8 || memcmp(stmp,ARMAG,8))
 	{
 no_ar:
             fprintf(stderr, "cjit-ar: not an ar archive %s\n", argv[i_lib]);
-- 
2.43.0


From 1e4ff21dd753a76b710a133979ff8739f2d38a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:53 +0000
Subject: [PATCH 096/101] fix: an error in an initialiser made later
 compilations allocate compound literals statically

---
 lib/tinycc/tccgen.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index a4522aa..5ac462c 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -421,6 +421,7 @@ ST_FUNC void tccgen_finish(TCCState *s1)
     while (cur_switch)
         end_switch();
     local_scope = 0;
+    global_expr = 0;
     loop_scope = NULL;
     all_cleanups = NULL;
     pending_gotos = NULL;
-- 
2.43.0


From b2887e2d50b3ffdb5105e3311a3362cd0d43de42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:12 +0000
Subject: [PATCH 097/101] fix: unsigned bit-fields of 32 bits declared with a
 wider type or packed were treated as signed

---
 lib/tinycc/tccgen.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 5ac462c..714992e 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -2856,6 +2856,13 @@ static int compare_types(CType *type1, CType *type2, int unqualified)
 #define CMP_OP 'C'
 #define SHIFT_OP 'S'
 
+/* unsigned type 'bt' of 'bits' bits, or a bit-field that needs all of it */
+static int is_full_unsigned(int t, int bt, int bits)
+{
+    return (t & (VT_BTYPE | VT_UNSIGNED)) == (bt | VT_UNSIGNED)
+        && (!(t & VT_BITFIELD) || BIT_SIZE(t) == bits);
+}
+
 /* Check if OP1 and OP2 can be "combined" with operation OP, the combined
    type is stored in DEST if non-null (except for pointer plus/minus) . */
 static int combine_types(CType *dest, SValue *op1, SValue *op2, int op)
@@ -2969,15 +2976,13 @@ static int combine_types(CType *dest, SValue *op1, SValue *op2, int op)
         if (bt2 == VT_LLONG)
           type.t &= t2;
         /* convert to unsigned if it does not fit in a long long */
-        if ((t1 & (VT_BTYPE | VT_UNSIGNED | VT_BITFIELD)) == (VT_LLONG | VT_UNSIGNED) ||
-            (t2 & (VT_BTYPE | VT_UNSIGNED | VT_BITFIELD)) == (VT_LLONG | VT_UNSIGNED))
+        if (is_full_unsigned(t1, VT_LLONG, 64) || is_full_unsigned(t2, VT_LLONG, 64))
           type.t |= VT_UNSIGNED;
     } else {
         /* integer operations */
         type.t = VT_INT | (VT_LONG & (t1 | t2));
         /* convert to unsigned if it does not fit in an integer */
-        if ((t1 & (VT_BTYPE | VT_UNSIGNED | VT_BITFIELD)) == (VT_INT | VT_UNSIGNED) ||
-            (t2 & (VT_BTYPE | VT_UNSIGNED | VT_BITFIELD)) == (VT_INT | VT_UNSIGNED))
+        if (is_full_unsigned(t1, VT_INT, 32) || is_full_unsigned(t2, VT_INT, 32))
           type.t |= VT_UNSIGNED;
     }
     if (dest)
@@ -4211,10 +4216,6 @@ static void struct_layout(CType *type, AttributeDef *ad)
                         goto new_field;
                 }
 
-                /* in pcc mode, long long bitfields have type int if they fit */
-                if (size == 8 && bit_size <= 32)
-                    f->type.t = (f->type.t & ~VT_BTYPE) | VT_INT, size = 4;
-
                 while (bit_pos >= align * 8)
                     c += align, bit_pos -= align * 8;
                 offset = c;
@@ -4248,6 +4249,12 @@ static void struct_layout(CType *type, AttributeDef *ad)
 		        | (bit_pos << VT_STRUCT_SHIFT);
 	    bit_pos += bit_size;
 	}
+
+	/* in pcc mode, long long bitfields have type int if they fit */
+	if (pcc && bit_size > 0 && bit_size <= 32
+            && (f->type.t & VT_BTYPE) == VT_LLONG)
+	    f->type.t = (f->type.t & ~(VT_BTYPE | VT_LONG)) | VT_INT;
+
 	/* In PCC layout named bit-fields influence the alignment
 	   of the containing struct using the base types alignment,
 	   except for packed fields (which here have correct align).
-- 
2.43.0


From 162c42c572ecafe62ab91b07ee400190927cf116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:28 +0000
Subject: [PATCH 098/101] fix: inline assembly overwrote a call-preserved
 register to store an output through a pointer

---
 lib/tinycc/i386-asm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/tinycc/i386-asm.c b/lib/tinycc/i386-asm.c
index 27bd3e0..29a3253 100644
--- a/lib/tinycc/i386-asm.c
+++ b/lib/tinycc/i386-asm.c
@@ -1666,6 +1666,8 @@ ST_FUNC void asm_gen_code(ASMOperand *operands, int nb_operands,
         if (op->reg >= 0)
             regs_allocated[op->reg] = 1;
     }
+    if (out_reg >= 0)
+        regs_allocated[out_reg] = 1;
     if (!is_output) {
         /* generate reg save code */
         for(i = 0; i < sizeof(reg_saved)/sizeof(reg_saved[0]); i++) {
-- 
2.43.0


From 751c24ed5b6d89407521f66e157dba084d40dd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:41 +0000
Subject: [PATCH 099/101] fix: inline assembly ignored the n modifier and cut
 constants to 32 bits

---
 lib/tinycc/i386-asm.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/tinycc/i386-asm.c b/lib/tinycc/i386-asm.c
index 29a3253..23bc674 100644
--- a/lib/tinycc/i386-asm.c
+++ b/lib/tinycc/i386-asm.c
@@ -1534,7 +1534,8 @@ ST_FUNC void asm_compute_constraints(ASMOperand *operands,
 ST_FUNC void subst_asm_operand(CString *add_str,
                               SValue *sv, int modifier)
 {
-    int r, reg, size, val;
+    int r, reg, size;
+    int64_t val;
 
     r = sv->r;
     if ((r & VT_VALMASK) == VT_CONST) {
@@ -1559,9 +1560,11 @@ ST_FUNC void subst_asm_operand(CString *add_str,
 	    cstr_ccat(add_str, '+');
         }
         val = sv->c.i;
+        if (PTR_SIZE == 4 || (sv->type.t & VT_BTYPE) != VT_LLONG)
+            val = (int)val;
         if (modifier == 'n')
-            val = -val;
-        cstr_printf(add_str, "%d", (int)sv->c.i);
+            val = -(uint64_t)val;
+        cstr_printf(add_str, "%lld", (long long)val);
     no_offset:;
 #ifdef TCC_TARGET_X86_64
         if (r & VT_LVAL)
-- 
2.43.0


From bb1bd9d51971409b0f6eafc8cde0837cc30ef28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:44 +0000
Subject: [PATCH 100/101] fix: inline assembly overwrote an operand register
 when loading another one through a pointer

---
 lib/tinycc/x86_64-gen.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/x86_64-gen.c b/lib/tinycc/x86_64-gen.c
index 43bdbde..11c9970 100644
--- a/lib/tinycc/x86_64-gen.c
+++ b/lib/tinycc/x86_64-gen.c
@@ -402,8 +402,10 @@ void load(int r, SValue *sv)
             v1.r = VT_LOCAL | VT_LVAL;
             v1.c.i = fc;
             fr = r;
-            if (!(reg_classes[fr] & (RC_INT|RC_R11)))
+            if (fr >= TREG_XMM0)
                 fr = get_reg(RC_INT);
+            else if ((fr & 7) == 4 || (fr & 7) == 5)
+                fr = TREG_R11; /* cannot be used as plain base register */
             load(fr, &v1);
         }
 	if (fc != sv->c.i) {
-- 
2.43.0


From 5616dc84122112d50a867f0f642ac96e55c34bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:39 +0000
Subject: [PATCH 101/101] fix: the address of an object plus a large constant
 failed to link

An address computed in code is relative to the instruction, so a constant
that alone fits 32 bits can put it out of reach: leave the addition to
run time beyond 16 MB, as gcc and clang do.
---
 lib/tinycc/tccgen.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 714992e..7e106c2 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -2441,6 +2441,12 @@ static void gen_opic(int op)
 	       larger than +-1<<31.  Don't construct such.  */
 	    if ((int)l2 != l2)
 	        goto general_case;
+	    /* In code, symbols are addressed relative to the instruction and
+	       can themselves be far away: leave room for that.  */
+	    if (PTR_SIZE == 8 && r != VT_LOCAL
+	        && !(nocode_wanted & DATA_ONLY_WANTED)
+	        && l2 + 0x1000000 > 0x2000000)
+	        goto general_case;
             vtop--;
             vtop->c.i = l2;
         } else {
-- 
2.43.0

