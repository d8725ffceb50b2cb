From c633fd7bd722b6332e77235c9725677e76dd46af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:08 +0000
Subject: [PATCH 01/37] fix: start the next uint empty when a generator output
 is used up exactly

get_uint_rand() left the word it had just returned in bits_rand[1] when the
last output was consumed completely, and added the bits of the next word on
top of it, so generators narrower than 32 bits were tested on a corrupted
stream.
---
 libdieharder/bits.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libdieharder/bits.c b/libdieharder/bits.c
index fa7c4d3..43b0663 100644
--- a/libdieharder/bits.c
+++ b/libdieharder/bits.c
@@ -995,6 +995,7 @@ unsigned int get_uint_rand(gsl_rng *gsl_rng)
   * need to start over on the next one.
   */
  if(bleft == rmax_bits){
+   bits_rand[1] = 0;   /* nothing left over: the next uint starts empty */
    bleft = bu;
  } else {
    bits_rand[1] = b_window(bits_rand[0],bu-rmax_bits,bu-bleft-1,bu-rmax_bits+bleft);
-- 
2.43.0


From d6558ea1d806128755bbb5fde2e8fe2d81ead47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:08 +0000
Subject: [PATCH 02/37] fix: cyclic tuples that start and end inside words no
 longer abort

get_ntuple_cyclic() used its terminating rule 2c even when the remaining
bits did not fit into the current output word (bs < be), which made
b_window() reject a negative offset and exit the program.
---
 libdieharder/bits.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdieharder/bits.c b/libdieharder/bits.c
index 43b0663..248b60d 100644
--- a/libdieharder/bits.c
+++ b/libdieharder/bits.c
@@ -818,10 +818,10 @@ void get_ntuple_cyclic(unsigned int *input,unsigned int ilen,
    /*
     * This rule terminates when Rule Right is getting partial lines.
     * In this case we KNOW that we must terminate with a Rule 2
-    * partial line.
+    * partial line, provided it still fits into the current output line.
     * Rule 2c
     */
-   if(bleft == br2 && br2 < bu) {
+   if(bleft == br2 && bs >= be) {
      MYDEBUG(D_BITS) {
        printf("Rule 2c: From input[%d] to output[%d] = ",i,j);
      }
-- 
2.43.0


From 48e484910dbcf8a96d733bd453274d3c4b6bdca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:10 +0000
Subject: [PATCH 03/37] fix: get_rand_bits_uint() delivers buffered bits before
 a whole output

A request for exactly rmax_bits bits skipped the bits still in the buffer,
which were then delivered after later bits of the stream.
---
 libdieharder/static_get_bits.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libdieharder/static_get_bits.c b/libdieharder/static_get_bits.c
index 6771935..caefb8e 100644
--- a/libdieharder/static_get_bits.c
+++ b/libdieharder/static_get_bits.c
@@ -96,14 +96,15 @@ and so on.  Very nice.
  /*
   * FIRST of all, if nbits == 32 and rmax_bits == 32 (or for that matter,
   * if we ever seek nbits == rmax_bits) we might as well just return the
-  * gsl rng right away and skip all the logic below.  In the particular
+  * gsl rng right away and skip all the logic below (unless there are
+  * buffered bits, which come first).  In the particular
   * case of nbits == 32 == rmax_bits, this also avoids a nasty problem
   * with bitshift operators on x86 architectures, see below.  I left a
   * local patch in below as well just to make double-dog sure that one
   * never does (uintvar << 32) for some uint variable; probably should
   * do the same for (uintvar >> 32) calls below.
   */
- if(nbits == rmax_bits){
+ if(nbits == rmax_bits && bits_left_in_bit_buffer == 0){
    return gsl_rng_get(rng);
  }
   
-- 
2.43.0


From 395cc8092703d4c78b9c8b98581c1dcc7a38fb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:38 +0000
Subject: [PATCH 04/37] fix: reseeding per test also discards bits buffered
 from the previous test

---
 dieharder/dieharder.h            | 6 ++++++
 include/dieharder/libdieharder.h | 1 +
 libdieharder/bits.c              | 6 ++++++
 libdieharder/static_get_bits.c   | 9 +++++++++
 4 files changed, 22 insertions(+)

diff --git a/dieharder/dieharder.h b/dieharder/dieharder.h
index e489b61..1b55be6 100644
--- a/dieharder/dieharder.h
+++ b/dieharder/dieharder.h
@@ -42,6 +42,12 @@ extern char generator_name[128];
  */
 #include "user_template.h"
 
+/*
+ * Whenever the UI seeds (or rewinds) a generator, bits that were drawn
+ * before must not be delivered any more, e.g. to the next test.
+ */
+#define gsl_rng_set(r,s) (gsl_rng_set((r),(s)),reset_bit_buffers())
+
 extern double rng_avg_time_nsec,rng_rands_per_second;
 extern double strategy;
 
diff --git a/include/dieharder/libdieharder.h b/include/dieharder/libdieharder.h
index 3227c23..8b93695 100644
--- a/include/dieharder/libdieharder.h
+++ b/include/dieharder/libdieharder.h
@@ -146,6 +146,7 @@
  void mybitadd(char *dst, int doffset, char *src, int soffset, int slen);
  void get_rand_pattern(void *result,unsigned int rsize,int *pattern,gsl_rng *gsl_rng);
  void reset_bit_buffers();
+ extern unsigned int bit_buffer_resets;
 
 /* Cruft
  int get_int_bit(unsigned int i, unsigned int n);
diff --git a/libdieharder/bits.c b/libdieharder/bits.c
index 248b60d..c744603 100644
--- a/libdieharder/bits.c
+++ b/libdieharder/bits.c
@@ -1418,6 +1418,11 @@ void get_rand_pattern(void *result,unsigned int rsize,int *pattern,gsl_rng *gsl_
 
 }
 
+/*
+ * Counts the calls of reset_bit_buffers().
+ */
+unsigned int bit_buffer_resets = 0;
+
 /*
  * The bits.c module doesn't malloc anything, but it does maintain some
  * static buffers that must be cleared in order to achieve consistent
@@ -1437,5 +1442,6 @@ void reset_bit_buffers()
   brindex = -1;
   iclear = -1;
   bitindex = -1;
+  bit_buffer_resets++;   /* tells get_rand_bits_uint() to drop its bits */
 
 }
diff --git a/libdieharder/static_get_bits.c b/libdieharder/static_get_bits.c
index caefb8e..cda070b 100644
--- a/libdieharder/static_get_bits.c
+++ b/libdieharder/static_get_bits.c
@@ -27,8 +27,17 @@ inline static uint get_rand_bits_uint (uint nbits, uint mask, gsl_rng *rng)
 
  static uint bit_buffer;
  static uint bits_left_in_bit_buffer = 0;
+ static uint buffer_resets = 0;
  uint bits,breturn;
 
+ /*
+  * Forget whatever was left before the last reset_bit_buffers() call.
+  */
+ if(buffer_resets != bit_buffer_resets){
+   buffer_resets = bit_buffer_resets;
+   bits_left_in_bit_buffer = 0;
+ }
+
  /*
   * If there are enough bits left in the bit buffer, shift them out into
   * bits and return.  I like to watch this happen, so I'm instrumenting
-- 
2.43.0


From 09f1f6408994ad83bed3996571b65b21673707c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:03 +0000
Subject: [PATCH 05/37] fix: get_bit() masks a single bit

2^31 does not fit into an int: the conversion is undefined, and optimising
compilers turn it into 0x7fffffff, so get_bit() tested several bits at once.
---
 libdieharder/bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/bits.c b/libdieharder/bits.c
index c744603..fb95e9e 100644
--- a/libdieharder/bits.c
+++ b/libdieharder/bits.c
@@ -291,7 +291,7 @@ int get_bit(unsigned int *rand_uint, unsigned int n)
   * the first significant/valid bit in the unsigned int.
   */
  offset = (8*sizeof(unsigned int) - rmax_bits) + n%rmax_bits;
- mask = (int)pow(2,8*sizeof(unsigned int) - 1);
+ mask = 1u << (8*sizeof(unsigned int) - 1);
  mask = mask>>offset;
  if(mask & rand_uint[index]){
    return(1);
-- 
2.43.0


From c3d0397e9c6ea792bf07a6ce4b76c7f7c93fd99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:00 +0000
Subject: [PATCH 06/37] fix: XOR generator draws each component exactly once

The first component was drawn (and XORed in) twice per output.
---
 libdieharder/rng_XOR.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/libdieharder/rng_XOR.c b/libdieharder/rng_XOR.c
index 27948d3..5aa4336 100644
--- a/libdieharder/rng_XOR.c
+++ b/libdieharder/rng_XOR.c
@@ -36,10 +36,9 @@ XOR_get (void *vstate)
  int i;
 
  /*
-  * There is always this one, or we are in deep trouble.  I am going
-  * to have to decorate this code with error checks...
+  * One output of each component, starting from zero.
   */
- state->XOR_rnd = gsl_rng_get(state->grngs[1]);
+ state->XOR_rnd = 0;
  for(i=1;i<gvcount;i++){
    state->XOR_rnd ^= gsl_rng_get(state->grngs[i]);
  }
-- 
2.43.0


From e5054178b9be2747a2130a5f1b957328ed7767b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:00 +0000
Subject: [PATCH 07/37] fix: reseeding the XOR generator frees the components
 it replaces

---
 libdieharder/rng_XOR.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libdieharder/rng_XOR.c b/libdieharder/rng_XOR.c
index 5aa4336..7150a7f 100644
--- a/libdieharder/rng_XOR.c
+++ b/libdieharder/rng_XOR.c
@@ -63,6 +63,7 @@ static void XOR_set (void *vstate, unsigned long int s) {
   * as per usual, and used (ONLY) to see the remaining generators.
   * The remaining generators.
   */
+ if(state->grngs[0]) gsl_rng_free(state->grngs[0]);
  state->grngs[0] = gsl_rng_alloc(dh_rng_types[14]);
  seed_seed = s;
  gsl_rng_set(state->grngs[0],seed_seed);
@@ -73,6 +74,7 @@ static void XOR_set (void *vstate, unsigned long int s) {
     * here or in choose_rng() to be sure that all of the rngs
     * exist.
     */
+   if(state->grngs[i]) gsl_rng_free(state->grngs[i]);
    state->grngs[i] = gsl_rng_alloc(dh_rng_types[gnumbs[i]]);
    gsl_rng_set(state->grngs[i],gsl_rng_get(state->grngs[0]));
 
-- 
2.43.0


From 79e6f4491cac19def9a924db0da5d6a90421f40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:14 +0000
Subject: [PATCH 08/37] fix: resolve and check the components of the XOR
 generator

'-g 207' alone crashed, a component given by name was silently replaced by
generator 0, and one that does not exist crashed.
---
 dieharder/choose_rng.c | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/dieharder/choose_rng.c b/dieharder/choose_rng.c
index f5d4e49..db8bd40 100644
--- a/dieharder/choose_rng.c
+++ b/dieharder/choose_rng.c
@@ -99,7 +99,7 @@ void choose_rng()
 int select_rng(int gennum,char *genname,unsigned int initial_seed)
 {
 
- int i;
+ int i,j;
 
  /*
   * REALLY out of bounds we can just test for and return an error.
@@ -166,6 +166,28 @@ int select_rng(int gennum,char *genname,unsigned int initial_seed)
    }
  }
 
+ /*
+  * The XOR supergenerator needs at least one component, and all of its
+  * components (the generators that follow it on the command line, by
+  * number or by name) have to exist.
+  */
+ if(dh_rng_types[gennum] == gsl_rng_XOR){
+   if(gvcount < 2) return(-1);
+   for(j=1;j<(int) gvcount;j++){
+     if(gnames[j][0] != 0){
+       gnumbs[j] = MAXRNGS;
+       for(i=0;i<MAXRNGS;i++){
+         if(dh_rng_types[i] && strncmp(dh_rng_types[i]->name,gnames[j],20) == 0){
+           gnumbs[j] = i;
+           break;
+         }
+       }
+     }
+     if(gnumbs[j] >= MAXRNGS || dh_rng_types[gnumbs[j]] == 0
+        || dh_rng_types[gnumbs[j]] == gsl_rng_XOR) return(-1);
+   }
+ }
+
  /*
   * If we get here, in principle the gennum is valid and the right
   * inputs are defined to run it (in the case of file_input). We therefore
-- 
2.43.0


From 57473ff77bc33bae7ae6ab6bc899da49d71a107c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:14 +0000
Subject: [PATCH 09/37] fix: report the number of the generator that is tested

The show_num field of the generator line was always 0.
---
 dieharder/choose_rng.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dieharder/choose_rng.c b/dieharder/choose_rng.c
index db8bd40..830c174 100644
--- a/dieharder/choose_rng.c
+++ b/dieharder/choose_rng.c
@@ -212,6 +212,7 @@ int select_rng(int gennum,char *genname,unsigned int initial_seed)
    fprintf(stdout,"# choose_rng(): Creating and seeding gennum %s\n",dh_rng_types[gennum]->name);
  }
  rng = gsl_rng_alloc(dh_rng_types[gennum]);
+ generator = gennum;
 
  /*
   * Here we evaluate the speed of the generator if the rate flag is set.
-- 
2.43.0


From 5fdad8addfa6548846b6f6b003a436c6ac2189f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:14 +0000
Subject: [PATCH 10/37] fix: file_input scales decimal numbers before
 truncating them

Every decimal below 1 was read as 0.
---
 libdieharder/rng_file_input.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/rng_file_input.c b/libdieharder/rng_file_input.c
index e70632a..32f973e 100644
--- a/libdieharder/rng_file_input.c
+++ b/libdieharder/rng_file_input.c
@@ -123,7 +123,7 @@ static unsigned long int file_input_get (void *vstate)
          fprintf(stderr,"Error: converting %s failed.  Exiting.\n", inbuf);
          exit(0);
        }
-       iret = (uint) f*UINT_MAX;
+       iret = (uint) (f*UINT_MAX);
        break;
      /*
       * OK, so octal is really pretty silly, but we got it.  Still uint.
-- 
2.43.0


From a878b6bbb625372beb111467c113bc82a97efa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:14 +0000
Subject: [PATCH 11/37] fix: file_input closes the file it reopens

---
 libdieharder/rng_file_input.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/rng_file_input.c b/libdieharder/rng_file_input.c
index 32f973e..97e8fbc 100644
--- a/libdieharder/rng_file_input.c
+++ b/libdieharder/rng_file_input.c
@@ -227,7 +227,7 @@ static void file_input_set (void *vstate, unsigned long int s)
    if(verbose == D_FILE_INPUT || verbose == D_ALL){
      fprintf(stdout,"# file_input(): Closing/reopening/resetting %s\n",filename);
    }
-   /* fclose(state->fp); */
+   fclose(state->fp);
    state->fp = NULL;
  }
 
-- 
2.43.0


From 9c1db5cafb5a88aac98163170f24bfa2dff3245f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:14 +0000
Subject: [PATCH 12/37] fix: file_input rejects a line without a number

sscanf() returns EOF, not 0, for a blank line: an undefined value was delivered.
---
 libdieharder/rng_file_input.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libdieharder/rng_file_input.c b/libdieharder/rng_file_input.c
index 97e8fbc..bc31b00 100644
--- a/libdieharder/rng_file_input.c
+++ b/libdieharder/rng_file_input.c
@@ -106,7 +106,7 @@ static unsigned long int file_input_get (void *vstate)
      case 'd':
      case 'i':
      case 'u':
-       if(0 == sscanf(inbuf,"%u",&iret)){
+       if(1 != sscanf(inbuf,"%u",&iret)){
          fprintf(stderr,"Error: converting %s failed.  Exiting.\n", inbuf);
          exit(0);
        }
@@ -119,7 +119,7 @@ static unsigned long int file_input_get (void *vstate)
      case 'f':
      case 'F':
      case 'g':
-       if(0 == sscanf(inbuf,"%lg",&f)){
+       if(1 != sscanf(inbuf,"%lg",&f)){
          fprintf(stderr,"Error: converting %s failed.  Exiting.\n", inbuf);
          exit(0);
        }
@@ -129,7 +129,7 @@ static unsigned long int file_input_get (void *vstate)
       * OK, so octal is really pretty silly, but we got it.  Still uint.
       */
      case 'o':
-       if(0 == sscanf(inbuf,"%o",&iret)){
+       if(1 != sscanf(inbuf,"%o",&iret)){
          fprintf(stderr,"Error: converting %s failed.  Exiting.\n", inbuf);
          exit(0);
        }
@@ -138,13 +138,13 @@ static unsigned long int file_input_get (void *vstate)
       * hexadecimal is silly too, but we got it.  uint, of course.
       */
      case 'x':
-       if(0 == sscanf(inbuf,"%x",&iret)){
+       if(1 != sscanf(inbuf,"%x",&iret)){
          fprintf(stderr,"Error: converting %s failed.  Exiting.\n", inbuf);
          exit(0);
        }
        break;
      case 'X':
-       if(0 == sscanf(inbuf,"%X",&iret)){
+       if(1 != sscanf(inbuf,"%X",&iret)){
          fprintf(stderr,"Error: converting %s failed.  Exiting.\n", inbuf);
          exit(0);
        }
-- 
2.43.0


From 9614489e3639bc305a4b33a2c3b805ff08331cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:49 +0000
Subject: [PATCH 13/37] fix: file_input refuses a header that lacks one of its
 fields

Three lines were enough, even if one field was given twice and another not at all.
---
 libdieharder/rng_file_input.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libdieharder/rng_file_input.c b/libdieharder/rng_file_input.c
index bc31b00..f4daaa7 100644
--- a/libdieharder/rng_file_input.c
+++ b/libdieharder/rng_file_input.c
@@ -286,11 +286,11 @@ static void file_input_set (void *vstate, unsigned long int s)
  }
 
  /*
-  * We MUST have precisely three data lines at the beginning after
-  * any comments.
+  * We MUST have the three data lines type, count and numbit at the
+  * beginning after any comments (a bit of cnt for each of them).
   */
  cnt = 0;
- while(cnt < 3){
+ while(cnt != 7){
    if(state->fp != NULL) {
      if(fgets(inbuf,K,state->fp) == 0){
        fprintf(stderr,"# file_input(): Error: EOF on %s\n",filename);
@@ -318,7 +318,7 @@ static void file_input_set (void *vstate, unsigned long int s)
      }
      if(strncmp(splitbuf[0],"type",4) == 0){
        filetype = splitbuf[1][0];
-       cnt++;
+       cnt |= 1;
        if(verbose){
          fprintf(stdout,"# file_input(): cnt = %d\n",cnt);
          fprintf(stdout,"# file_input(): filenumtype set to %c\n",filetype);
@@ -327,7 +327,7 @@ static void file_input_set (void *vstate, unsigned long int s)
      if(strncmp(splitbuf[0],"count",5) == 0){
        state->flen = atoi(splitbuf[1]);
        filecount = state->flen;
-       cnt++;
+       cnt |= 2;
        if(verbose){ 
          fprintf(stdout,"# file_input(): cnt = %d\n",cnt);
          fprintf(stdout,"# file_input(): state->flen set to %lu\n",state->flen);
@@ -335,7 +335,7 @@ static void file_input_set (void *vstate, unsigned long int s)
      }
      if(strncmp(splitbuf[0],"numbit",6) == 0){
        filenumbits = atoi(splitbuf[1]);
-       cnt++;
+       cnt |= 4;
        if(verbose){ 
          fprintf(stdout,"# file_input(): cnt = %d\n",cnt);
          fprintf(stdout,"# file_input(): filenumbits set to %i\n",filenumbits);
-- 
2.43.0


From 37d52b49eeb5cbb4d1bd8f67a95cc4986143e84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:49 +0000
Subject: [PATCH 14/37] fix: do not cut file names off after 128 characters

---
 dieharder/parsecl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dieharder/parsecl.c b/dieharder/parsecl.c
index f93b946..8881c1c 100644
--- a/dieharder/parsecl.c
+++ b/dieharder/parsecl.c
@@ -137,7 +137,7 @@ void parsecl(int argc, char **argv)
        show_flags = 1;
        break;
      case 'f':
-       strncpy(filename,optarg,128);
+       strncpy(filename,optarg,sizeof(filename)-1);
        fromfile = 1;
        break;
      /*
-- 
2.43.0


From a5059360f55c89af711ca14ceba2ac49bd2c0c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:49 +0000
Subject: [PATCH 15/37] fix: accept -D file_rng_stat by its name

---
 dieharder/output.h  | 2 +-
 dieharder/parsecl.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dieharder/output.h b/dieharder/output.h
index 92c815f..d7c2f09 100644
--- a/dieharder/output.h
+++ b/dieharder/output.h
@@ -26,7 +26,7 @@
    TFILE_RNG_STAT = 131072
  } Table;
 
-#define TCNT 18
+#define TCNT 19
 
  /*
   * These should have a maximum length one can use in strncmp().
diff --git a/dieharder/parsecl.c b/dieharder/parsecl.c
index 8881c1c..d56c57b 100644
--- a/dieharder/parsecl.c
+++ b/dieharder/parsecl.c
@@ -309,7 +309,7 @@ void parsecl(int argc, char **argv)
      fprintf(stdout," Flag\t    Flag Name\n");
      fprintf(stdout,"=======================\n");
      fprintf(stdout,"%5d\t%15s\n",0,table_fields[0]);
-     for(i=0;i<TCNT;i++){
+     for(i=0;i<TCNT-1;i++){
        fprintf(stdout,"%5d\t%15s\n",(int)pow(2,i),table_fields[i+1]);
      }
      Exit(0);
-- 
2.43.0


From 58b444aff91b6b0f88bd9fccc583265795a51a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:04 +0000
Subject: [PATCH 16/37] fix: the raw file generator takes the file's length for
 every instance, not only the first

---
 libdieharder/rng_file_input_raw.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/libdieharder/rng_file_input_raw.c b/libdieharder/rng_file_input_raw.c
index 2e0e87d..0797d39 100644
--- a/libdieharder/rng_file_input_raw.c
+++ b/libdieharder/rng_file_input_raw.c
@@ -127,6 +127,14 @@ static void file_input_raw_set (void *vstate, unsigned long int s)
     * correctly opens later.
     */
    state->fp = NULL;
+   first = 0;
+ }
+
+ /*
+  * Every generator needs the length of its own file whenever it is going
+  * to open it.
+  */
+ if(state->fp == NULL || s){
 
    if(stat(filename, &sbuf)){
      if(errno == EBADF){
@@ -162,11 +170,6 @@ static void file_input_raw_set (void *vstate, unsigned long int s)
        */
      state->flen = 0;
    }
-
-   /*
-    * This segment is executed only one time when the file is FIRST opened.
-    */
-   first = 0;
  }
 
  /*
-- 
2.43.0


From 736e9a518e3af3e35faa6e08645034752774a40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:04 +0000
Subject: [PATCH 17/37] fix: a formatted input file whose count is not a
 positive number is refused

---
 libdieharder/rng_file_input.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libdieharder/rng_file_input.c b/libdieharder/rng_file_input.c
index f4daaa7..892f500 100644
--- a/libdieharder/rng_file_input.c
+++ b/libdieharder/rng_file_input.c
@@ -327,6 +327,10 @@ static void file_input_set (void *vstate, unsigned long int s)
      if(strncmp(splitbuf[0],"count",5) == 0){
        state->flen = atoi(splitbuf[1]);
        filecount = state->flen;
+       if(state->flen < 1){
+         fprintf(stderr,"# file_input(): Error: count has to be a positive number\n");
+         exit(0);
+       }
        cnt |= 2;
        if(verbose){ 
          fprintf(stdout,"# file_input(): cnt = %d\n",cnt);
-- 
2.43.0


From 6cb36b75bb18ee3d26a23c33e360421262415dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:04 +0000
Subject: [PATCH 18/37] fix: -o with a file generator is refused instead of
 overwriting its input file

---
 dieharder/choose_rng.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dieharder/choose_rng.c b/dieharder/choose_rng.c
index 830c174..47ca21b 100644
--- a/dieharder/choose_rng.c
+++ b/dieharder/choose_rng.c
@@ -164,6 +164,10 @@ int select_rng(int gennum,char *genname,unsigned int initial_seed)
      fprintf(stderr,"Error: gennum %s uses file input but no filename has been specified",dh_rng_types[gennum]->name);
      return(-1);
    }
+   if(output_file){
+     fprintf(stderr,"Error: gennum %s reads the file that -o would overwrite\n",dh_rng_types[gennum]->name);
+     return(-1);
+   }
  }
 
  /*
@@ -185,6 +189,7 @@ int select_rng(int gennum,char *genname,unsigned int initial_seed)
      }
      if(gnumbs[j] >= MAXRNGS || dh_rng_types[gnumbs[j]] == 0
         || dh_rng_types[gnumbs[j]] == gsl_rng_XOR) return(-1);
+     if(output_file && strncmp("file_input",dh_rng_types[gnumbs[j]]->name,10) == 0) return(-1);
    }
  }
 
-- 
2.43.0


From 6ec95f5e7d457f2851b0102b4d92ecb35199ea54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:34 +0000
Subject: [PATCH 19/37] fix: a generator is selected by its whole number or
 whole name only

---
 dieharder/choose_rng.c |  4 ++--
 dieharder/parsecl.c    | 17 +++++++++++++----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/dieharder/choose_rng.c b/dieharder/choose_rng.c
index 47ca21b..240c059 100644
--- a/dieharder/choose_rng.c
+++ b/dieharder/choose_rng.c
@@ -122,7 +122,7 @@ int select_rng(int gennum,char *genname,unsigned int initial_seed)
    gennum = -1;
    for(i=0;i<1000;i++){
      if(dh_rng_types[i]){
-       if(strncmp(dh_rng_types[i]->name,gnames[0],20) == 0){
+       if(strcmp(dh_rng_types[i]->name,gnames[0]) == 0){
          gennum = i;
          break;
        }
@@ -181,7 +181,7 @@ int select_rng(int gennum,char *genname,unsigned int initial_seed)
      if(gnames[j][0] != 0){
        gnumbs[j] = MAXRNGS;
        for(i=0;i<MAXRNGS;i++){
-         if(dh_rng_types[i] && strncmp(dh_rng_types[i]->name,gnames[j],20) == 0){
+         if(dh_rng_types[i] && strcmp(dh_rng_types[i]->name,gnames[j]) == 0){
            gnumbs[j] = i;
            break;
          }
diff --git a/dieharder/parsecl.c b/dieharder/parsecl.c
index d56c57b..97f1b52 100644
--- a/dieharder/parsecl.c
+++ b/dieharder/parsecl.c
@@ -38,7 +38,8 @@ void parsecl(int argc, char **argv)
 
  int i,c,errflg=0;
  int itmp;
- int tflag_tmp = 0,dtest_tmp,gen_tmp=17;
+ int tflag_tmp = 0,dtest_tmp;
+ long gen_tmp=17;
  extern char *optarg;
  extern int optind, opterr, optopt;
  char *endptr;
@@ -151,10 +152,18 @@ void parsecl(int argc, char **argv)
       * by the choose_rng function later.
       */
      case 'g':
+       if(gvcount >= GVECMAX){
+         fprintf(stderr,"Error: at most %d generators can be given.\n",GVECMAX);
+         exit(1);
+       }
+       /*
+        * A number is a number from end to end; everything else is a name.
+        */
        gen_tmp =  strtol(optarg,&endptr,10);
-       /* printf("optarg = %s, dtest_tmp = %d endptr = %s\n",optarg,dtest_tmp,endptr); */
-       if(strncmp(optarg,endptr,1) == 0){
-         strncpy(gnames[gvcount],optarg,128);
+       if(endptr == optarg || *endptr != 0){
+         strncpy(gnames[gvcount],optarg,127);
+       } else if(gen_tmp < 0 || gen_tmp >= MAXRNGS){
+         gnumbs[gvcount] = MAXRNGS;
        } else {
          gnumbs[gvcount] = gen_tmp;
        }
-- 
2.43.0


From 67b7e8bbd6a0bd1ca50cbecd6eaf470055d109d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:42 +0000
Subject: [PATCH 20/37] fix: every ca generator has its own automaton and takes
 the seed it is given

---
 libdieharder/rng_ca.c | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/libdieharder/rng_ca.c b/libdieharder/rng_ca.c
index 1c8da8f..fd69b14 100644
--- a/libdieharder/rng_ca.c
+++ b/libdieharder/rng_ca.c
@@ -40,20 +40,19 @@ static unsigned long int ca_get (void *vstate);
 static double ca_get_double (void *vstate);
 static void ca_set (void *vstate, unsigned long int s);
 
+#define CA_WIDTH 2056   // width in cells of cellular automaton
+#define RULESIZE 511    // amount of elements in rule table
+
+/*
+ * Every generator has an automaton of its own.
+ */
 typedef struct
   {
-    FILE *fp;
+    unsigned int config[CA_WIDTH/sizeof(unsigned int)];  // the cells
+    unsigned int current;                                // current cell
   }
 ca_state_t;
 
-#define CA_WIDTH 2056   // width in cells of cellular automaton
-#define RULESIZE 511    // amount of elements in rule table
-
-static unsigned char init_config[CA_WIDTH];  // initial configuration of CA
-static unsigned char * first_cell;           // leftmost cell
-static unsigned char * last_cell;            // rightmost cell
-static unsigned char * cell_d;               // current cell
-
 unsigned int rule[RULESIZE] = {
    100,75,16,3,229,51,197,118,24,62,198,11,141,152,241,188,2,17,71,47,179,177,126,231,202,243,59,25,77,196,30,134,
    199,163,34,216,21,84,37,182,224,186,64,79,225,45,143,20,48,147,209,221,125,29,99,12,46,190,102,220,80,215,242,
@@ -83,9 +82,12 @@ ca_get (void *vstate)
    * cell addresses (these cells and cell_d serve as pointers to the 4
    * bytes of the next integer)
    */
+  ca_state_t *state = (ca_state_t *) vstate;
+  unsigned char * first_cell = (unsigned char *) state->config;
   unsigned char * cell_a;
   unsigned char * cell_b;
   unsigned char * cell_c;
+  unsigned char * cell_d = first_cell + state->current;
 
   /* set cell addresses using address of current cell (cell_d) */
   cell_c = cell_d - 1; 
@@ -103,11 +105,11 @@ ca_get (void *vstate)
    */
   if (cell_a == first_cell) {
     *cell_a = rule[*cell_a]; 
-    cell_d = last_cell; 
+    state->current = CA_WIDTH - 1;
     return( *((unsigned int *)cell_a) ); 
   } else { 
     *cell_a = rule[*(cell_a - 1) + *cell_a];
-    cell_d -= 4; 
+    state->current -= 4;
     return( *((unsigned int *)cell_a) ); 
   }
 
@@ -123,8 +125,9 @@ static void
 ca_set (void *vstate, unsigned long int s) {
 
   /* Initialize automaton using specified seed. */
-  ca_state_t *state __attribute__((unused)) = (ca_state_t *) vstate;
-
+  ca_state_t *state = (ca_state_t *) vstate;
+  unsigned char *init_config = (unsigned char *) state->config;
+  unsigned long int seed = s;
 
   int i;
 
@@ -142,15 +145,11 @@ ca_set (void *vstate, unsigned long int s) {
   for (i = 0; i < CA_WIDTH - 4; i++)
     init_config[i] = (unsigned char) ( seed >> (i % 32) );
 
-  /* define addresses of first_cell and last_cell */
-  first_cell = init_config;
-  last_cell = init_config + CA_WIDTH - 1;
-
   /*
-   * set address of current cell to last_cell (automaton is updated right
+   * set current cell to the last cell (automaton is updated right
    * to left)
    */
-  cell_d = last_cell;
+  state->current = CA_WIDTH - 1;
 
   /* evolve automaton before returning integers */
   for (i = 0 ; i < ( (CA_WIDTH * CA_WIDTH) / 4.0); i++)
-- 
2.43.0


From ea204e30ca0f2a163a9d8b7998eb2aceabb91236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:42 +0000
Subject: [PATCH 21/37] fix: every uvag generator has its own state and its
 seeding depends on the seed alone

---
 libdieharder/rng_uvag.c | 52 +++++++++++++++++------------------------
 1 file changed, 21 insertions(+), 31 deletions(-)

diff --git a/libdieharder/rng_uvag.c b/libdieharder/rng_uvag.c
index 7f77436..e8d6951 100644
--- a/libdieharder/rng_uvag.c
+++ b/libdieharder/rng_uvag.c
@@ -73,12 +73,6 @@ static unsigned long int uvag_get (void *vstate);
 static double uvag_get_double (void *vstate);
 static void uvag_set (void *vstate, unsigned long int s);
 
-typedef struct
-  {
-  int i;
-  }
-uvag_state_t;
-
 /*
  * UVAG specific defines.
  *
@@ -92,12 +86,14 @@ uvag_state_t;
 #define WORD sizeof(TYPE)
 
 /*
- * Global variables and data for UVAG
+ * Variables and data for UVAG, of every generator its own
  */
-
-TYPE *rp;
-TYPE rndint;
-unsigned char sindex, svec[255 + WORD];  /* 256 overlapping TYPE seeds */
+typedef struct
+  {
+  TYPE rndint;
+  unsigned char sindex, svec[255 + WORD];  /* 256 overlapping TYPE seeds */
+  }
+uvag_state_t;
 
 static inline unsigned long int
 uvag_get (void *vstate)
@@ -106,9 +102,12 @@ uvag_get (void *vstate)
   /*
    * Returns a 32-bit unsigned integer produced by the UVAG
    */
-  rp = (TYPE *)(svec + svec[sindex+=1]);
-  rndint += *rp += rndint;
-  return rndint;
+  uvag_state_t *state = (uvag_state_t *) vstate;
+  TYPE *rp;
+
+  rp = (TYPE *)(state->svec + state->svec[state->sindex+=1]);
+  state->rndint += *rp += state->rndint;
+  return state->rndint;
 
 }
 
@@ -121,10 +120,10 @@ uvag_get_double (void *vstate)
 static void uvag_set (void *vstate, unsigned long int s) {
 
  /* Initialize automaton using specified seed. */
- uvag_state_t *state __attribute__((unused)) = (uvag_state_t *) vstate;
+ uvag_state_t *state = (uvag_state_t *) vstate;
  
- uint i, array_len = 255 + WORD, tot, seed_seed, tmp8;
- unsigned char key[256], *kp, temp;
+ uint i, array_len = 255 + WORD, tot, seed_seed, tmp = 0;
+ unsigned char key[256], *kp, temp, *svec = state->svec;
  gsl_rng *seed_rng;    /* random number generator used to seed uvag */
 
  /*
@@ -146,27 +145,18 @@ static void uvag_set (void *vstate, unsigned long int s) {
  seed_rng = gsl_rng_alloc(dh_rng_types[14]);
  seed_seed = s;
  gsl_rng_set(seed_rng,seed_seed);
- random_max = gsl_rng_max(seed_rng);
- rmax = random_max;
- rmax_bits = 0;
- rmax_mask = 0;
- while(rmax){
-   rmax >>= 1;
-   rmax_mask = rmax_mask << 1;
-   rmax_mask++;
-   rmax_bits++;
- }
  for(i=0;i<256;i++){
    /* if(i%32 == 0) printf("\n"); */
-   get_rand_bits(&tmp8,sizeof(uint),8,seed_rng);
+   if(i%4 == 0) tmp = gsl_rng_get(seed_rng);
    if(i!=255){
-     key[i] = tmp8;
+     key[i] = tmp >> (8*(i%4));
    } else {
      key[i] = 0;
    }
    /* printf("%02x",key[i]); */
  }
  /* printf("\n"); */
+ gsl_rng_free(seed_rng);
 
  kp = key;
  tot = 0;
@@ -190,8 +180,8 @@ static void uvag_set (void *vstate, unsigned long int s) {
  printf("\n");
  */
 
- sindex = 0;
- rndint = 0;
+ state->sindex = 0;
+ state->rndint = 0;
 
 }
 
-- 
2.43.0


From df80fc267a16e1192ba31214e43a578d8917b507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:42 +0000
Subject: [PATCH 22/37] fix: kiss and superkiss free the generator they seed
 from

---
 libdieharder/rng_kiss.c      | 1 +
 libdieharder/rng_superkiss.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/libdieharder/rng_kiss.c b/libdieharder/rng_kiss.c
index 9e761ad..28d58d7 100644
--- a/libdieharder/rng_kiss.c
+++ b/libdieharder/rng_kiss.c
@@ -95,6 +95,7 @@ kiss_set (void *vstate, unsigned long int s)
  state->c = gsl_rng_get(seed_rng) % 698769068 + 1;
  /* printf("x = %10u y = %10u z = %10u c = %10u\n",
          state->x,state->y,state->z,state->c); */
+ gsl_rng_free(seed_rng);
  return;
 
 }
diff --git a/libdieharder/rng_superkiss.c b/libdieharder/rng_superkiss.c
index 92159ed..f2bcfda 100644
--- a/libdieharder/rng_superkiss.c
+++ b/libdieharder/rng_superkiss.c
@@ -109,6 +109,7 @@ static void superkiss_set (void *vstate, unsigned long int s)
  for(i = 0;i < SUPERKISS_QMAX;i++){
    state->Q[i] = gsl_rng_get(seed_rng);
  }
+ gsl_rng_free(seed_rng);
  state->indx=SUPERKISS_QMAX;
  state->carry=362436;
  state->xcng=1236789;
-- 
2.43.0


From 54f3a808768e35b25a1a342576c75a3954844365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:57 +0000
Subject: [PATCH 23/37] fix: superkiss returns 32 bits

---
 libdieharder/rng_superkiss.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/rng_superkiss.c b/libdieharder/rng_superkiss.c
index f2bcfda..1fad898 100644
--- a/libdieharder/rng_superkiss.c
+++ b/libdieharder/rng_superkiss.c
@@ -75,7 +75,7 @@ superkiss_get (void *vstate)
  state->xs ^= state->xs>>17;
  state->xs ^= state->xs>>5;
 
- return ( state->indx < SUPERKISS_QMAX ? state->Q[state->indx++] : superkiss_refill(vstate)) + state->xcng + state->xs;
+ return (unsigned int)(( state->indx < SUPERKISS_QMAX ? state->Q[state->indx++] : superkiss_refill(vstate)) + state->xcng + state->xs);
 
 }
 
-- 
2.43.0


From 49c9bff403ab15b6457059e022028f54dff7cd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:57 +0000
Subject: [PATCH 24/37] fix: the /dev generators return 32 bits and close the
 device before opening it again

---
 libdieharder/rng_dev_arandom.c | 3 ++-
 libdieharder/rng_dev_random.c  | 3 ++-
 libdieharder/rng_dev_urandom.c | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/libdieharder/rng_dev_arandom.c b/libdieharder/rng_dev_arandom.c
index 226e362..011dbe0 100644
--- a/libdieharder/rng_dev_arandom.c
+++ b/libdieharder/rng_dev_arandom.c
@@ -21,7 +21,7 @@ static unsigned long int
 dev_arandom_get (void *vstate)
 {
   dev_arandom_state_t *state = (dev_arandom_state_t *) vstate;
-  unsigned long int j;
+  unsigned int j;
 
   if(state->fp != NULL) {
     fread(&j,sizeof(j),1,state->fp);
@@ -44,6 +44,7 @@ dev_arandom_set (void *vstate, unsigned long int s)
 {
   dev_arandom_state_t *state = (dev_arandom_state_t *) vstate;
 
+ if(state->fp != NULL) fclose(state->fp);
  if ((state->fp = fopen("/dev/arandom","r")) == NULL) {
    fprintf(stderr,"Error: Cannot open /dev/arandom, exiting.\n");
    fprintf(stderr,"/dev/arandom may only be available on BSD systems.\n");
diff --git a/libdieharder/rng_dev_random.c b/libdieharder/rng_dev_random.c
index ed4335c..933c923 100644
--- a/libdieharder/rng_dev_random.c
+++ b/libdieharder/rng_dev_random.c
@@ -21,7 +21,7 @@ static unsigned long int
 dev_random_get (void *vstate)
 {
   dev_random_state_t *state = (dev_random_state_t *) vstate;
-  unsigned long int j;
+  unsigned int j;
 
   if(state->fp != NULL) {
     fread(&j,sizeof(j),1,state->fp);
@@ -44,6 +44,7 @@ dev_random_set (void *vstate, unsigned long int s)
 {
   dev_random_state_t *state = (dev_random_state_t *) vstate;
 
+ if(state->fp != NULL) fclose(state->fp);
  if ((state->fp = fopen("/dev/random","r")) == NULL) {
    fprintf(stderr,"Error: Cannot open /dev/random, exiting.\n");
    fprintf(stderr,"/dev/random may only be available on Linux systems.\n");
diff --git a/libdieharder/rng_dev_urandom.c b/libdieharder/rng_dev_urandom.c
index e4933c5..36669f2 100644
--- a/libdieharder/rng_dev_urandom.c
+++ b/libdieharder/rng_dev_urandom.c
@@ -21,7 +21,7 @@ static unsigned long int
 dev_urandom_get (void *vstate)
 {
   dev_urandom_state_t *state = (dev_urandom_state_t *) vstate;
-  unsigned long int j;
+  unsigned int j;
 
   if(state->fp != NULL) {
     fread(&j,sizeof(j),1,state->fp);
@@ -44,6 +44,7 @@ dev_urandom_set (void *vstate, unsigned long int s)
 {
   dev_urandom_state_t *state = (dev_urandom_state_t *) vstate;
 
+ if(state->fp != NULL) fclose(state->fp);
  if ((state->fp = fopen("/dev/urandom","r")) == NULL) {
    fprintf(stderr,"Error: Cannot open /dev/urandom, exiting.\n");
    fprintf(stderr,"/dev/urandom may only be available on Linux systems.\n");
-- 
2.43.0


From 64056acff1f9063b0f4dd2c30dc03298a62b50dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:11 +0000
Subject: [PATCH 25/37] fix: every R generator has its own seed vector

---
 libdieharder/rngs_gnu_r.c | 55 +++++++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 17 deletions(-)

diff --git a/libdieharder/rngs_gnu_r.c b/libdieharder/rngs_gnu_r.c
index a33d6ad..e509ed8 100644
--- a/libdieharder/rngs_gnu_r.c
+++ b/libdieharder/rngs_gnu_r.c
@@ -144,24 +144,29 @@ typedef struct {
 } RNGTAB;
 
 #ifdef DIEHARDER
-typedef RNGTAB r_rng_tab_t;
+/* Each generator has a seed vector of its own; r_rng_use() below makes it
+ * the one that the code from R works on. */
+typedef struct {
+    RNGtype kind;
+    Int32 i_seed[625];
+} r_rng_tab_t;
 
 #define TAOCP_MAX    0x3fffffffUL	/* cf GSL sources */
 #define TAOCP2_MAX   (1L<<30)-1L	/* cf GSL sources */
 #endif
 
-static Int32 dummyvec[625];	/* s/dummy/dummyvec/ */
+static Int32 *dummyvec;	/* the seed vector in use; s/dummy/dummyvec/ */
 static
 RNGTAB RNG_Table[] =
 {
 /* kind Nkind	  name	           n_seed      i_seed */
-    { 0, 0, "Wichmann-Hill", 	        3,	dummyvec},
-    { 1, 0, "Marsaglia-MultiCarry",	2,	dummyvec},
-    { 2, 0, "Super-Duper",		2,	dummyvec},
-    { 3, 0, "Mersenne-Twister",	    1+624,	dummyvec},
-    { 4, 0, "Knuth-TAOCP",          1+100,	dummyvec},
-    { 5, 0, "User-supplied",            0,	dummyvec},
-    { 6, 0, "Knuth-TAOCP-2002",     1+100,	dummyvec},
+    { 0, 0, "Wichmann-Hill", 	        3,	NULL},
+    { 1, 0, "Marsaglia-MultiCarry",	2,	NULL},
+    { 2, 0, "Super-Duper",		2,	NULL},
+    { 3, 0, "Mersenne-Twister",	    1+624,	NULL},
+    { 4, 0, "Knuth-TAOCP",          1+100,	NULL},
+    { 5, 0, "User-supplied",            0,	NULL},
+    { 6, 0, "Knuth-TAOCP-2002",     1+100,	NULL},
 };
 
 
@@ -371,6 +376,16 @@ static void Randomize(RNGtype kind)
 /* function needed by dieharder follow below */
 #ifdef DIEHARDER
 
+/* make the generator's own seed vector the one in use */
+static void
+r_rng_use (r_rng_tab_t *state)
+{
+  RNG_kind = state->kind;
+  dummyvec = state->i_seed;
+  RNG_Table[RNG_kind].i_seed = dummyvec;
+  RNG_Table[KNUTH_TAOCP].i_seed = dummyvec;	/* see KT_pos */
+}
+
 /* ------------------------------------------------ GNU R generic getters */
 static unsigned long int
 r_rng_get (void *vstate)
@@ -383,7 +398,7 @@ static double
 r_rng_get_double (void *vstate)
     {
   r_rng_tab_t *state = (r_rng_tab_t *) vstate;
-  RNG_kind = state->kind;
+  r_rng_use(state);
   double u = unif_rand();
   return(u);
     }
@@ -393,7 +408,8 @@ static void
 r_wichmann_hill_set (void *vstate, unsigned long int s)
 {
   r_rng_tab_t *state = (r_rng_tab_t *) vstate;
-  *state = RNG_Table[WICHMANN_HILL];
+  state->kind = WICHMANN_HILL;
+  r_rng_use(state);
   RNGtype kind = state->kind;  
   Int32 seed = s;  /* FIXME: casting down from long seed to unsigned int */
     RNG_Init(kind, seed);
@@ -416,7 +432,8 @@ static void
 r_marsaglia_mc_set (void *vstate, unsigned long int s)
 {
   r_rng_tab_t *state = (r_rng_tab_t *) vstate;
-  *state = RNG_Table[MARSAGLIA_MULTICARRY];
+  state->kind = MARSAGLIA_MULTICARRY;
+  r_rng_use(state);
   RNGtype kind = state->kind;  
   Int32 seed = s;  /* FIXME: casting down from long seed to unsigned int */
   RNG_Init(kind, seed);
@@ -439,7 +456,8 @@ static void
 r_super_duper_set (void *vstate, unsigned long int s)
 {
   r_rng_tab_t *state = (r_rng_tab_t *) vstate;
-  *state = RNG_Table[SUPER_DUPER];
+  state->kind = SUPER_DUPER;
+  r_rng_use(state);
   RNGtype kind = state->kind;  
   Int32 seed = s;  /* FIXME: casting down from long seed to unsigned int */
   RNG_Init(kind, seed);
@@ -462,7 +480,8 @@ static void
 r_mersenne_twister_set (void *vstate, unsigned long int s)
 {
   r_rng_tab_t *state = (r_rng_tab_t *) vstate;
-  *state = RNG_Table[MERSENNE_TWISTER];
+  state->kind = MERSENNE_TWISTER;
+  r_rng_use(state);
   RNGtype kind = state->kind;  
   Int32 seed = s;  /* FIXME: casting down from long seed to unsigned int */
   RNG_Init(kind, seed);
@@ -485,7 +504,8 @@ static void
 r_knuth_taocp_set (void *vstate, unsigned long int s)
 {
   r_rng_tab_t *state = (r_rng_tab_t *) vstate;
-  *state = RNG_Table[KNUTH_TAOCP];
+  state->kind = KNUTH_TAOCP;
+  r_rng_use(state);
   RNGtype kind = state->kind;  
   Int32 seed = s;  /* FIXME: casting down from long seed to unsigned int */
   RNG_Init(kind, seed);
@@ -515,7 +535,8 @@ static void
 r_knuth_taocp2_set (void *vstate, unsigned long int s)
 {
   r_rng_tab_t *state = (r_rng_tab_t *) vstate;
-  *state = RNG_Table[KNUTH_TAOCP2];
+  state->kind = KNUTH_TAOCP2;
+  r_rng_use(state);
   RNGtype kind = state->kind;  
   Int32 seed = s;  /* FIXME: casting down from long seed to unsigned int */
   RNG_Init(kind, seed);
@@ -776,7 +797,7 @@ void seed_out(long *ignored)
 #define TEMPERING_SHIFT_T(y)  (y << 15)
 #define TEMPERING_SHIFT_L(y)  (y >> 18)
 
-static Int32 *mt = dummyvec+1; /* the array for the state vector  */
+#define mt (dummyvec+1) /* the array for the state vector  */
 static int mti=N+1; /* mti==N+1 means mt[N] is not initialized */
 
 /* Initializing the array with a seed */
-- 
2.43.0


From efd2b70c41f44e41f9b2c03bc1efbf26eb37a28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:09 +0000
Subject: [PATCH 26/37] fix: binary_rank left the pivot column uneliminated in
 matrices wider than a word

---
 libdieharder/rank.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdieharder/rank.c b/libdieharder/rank.c
index d114a6a..72902ac 100644
--- a/libdieharder/rank.c
+++ b/libdieharder/rank.c
@@ -160,14 +160,14 @@ int binary_rank(uint **mtx,int mrows,int ncols)
           * we use exclusive or to eliminate the
           * rest of the column.
           */
-         n = uint_col_max - col_ind;
+         n = uint_col_max;
          if(verbose == D_BRANK || verbose == D_ALL){
            printf("eliminating against row %2d = ",i);
            dumpbits(&mtx[i][col_ind],32);
            printf("eliminating row %2d, before = ",k);
            dumpbits(&mtx[k][col_ind],32);
          }
-         while (n >= 0){
+         while (n >= col_ind){
            if(verbose == D_BRANK || verbose == D_ALL){
              printf("xoring column = %2d\n",n);
 	   }
-- 
2.43.0


From 9e13355edcb119bc22da7ff7cf9e528526de2fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:10 +0000
Subject: [PATCH 27/37] fix: the asymptotic KS p-value of a nearly even set was
 up to 2

---
 libdieharder/kstest.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libdieharder/kstest.c b/libdieharder/kstest.c
index aa02cc3..656526d 100644
--- a/libdieharder/kstest.c
+++ b/libdieharder/kstest.c
@@ -145,6 +145,12 @@ double q_ks(double x)
  double qsum;
  double kappa;
 
+ /*
+  * The series below does not converge in its 99 terms for small x, where
+  * the probability is 1 to double precision.
+  */
+ if(x < 0.18) return(1.0);
+
  kappa = -2.0*x*x;
  sign = -1;
  qsum = 0.0;
-- 
2.43.0


From 8c5fc368c18d734be629387717f42935eef34634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:10 +0000
Subject: [PATCH 28/37] fix: Kuiper p-values left [0,1] for small counts and
 never ended without deviation

---
 libdieharder/kstest.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libdieharder/kstest.c b/libdieharder/kstest.c
index 656526d..ffc3415 100644
--- a/libdieharder/kstest.c
+++ b/libdieharder/kstest.c
@@ -431,6 +431,12 @@ double q_ks_kuiper(double x,int count)
  uint m,msq;
  double xsq,preturn,q,q_last,p,p_last;
 
+ /*
+  * The sums below do not converge for x near 0 (never, for x = 0), where
+  * the probability is 1 to double precision.
+  */
+ if(x < 0.3) return(1.0);
+
  /*
   * OK, Numerical Recipes screwed us even in terms of the algorithm.
   * This one includes BOTH terms.
@@ -465,6 +471,10 @@ double q_ks_kuiper(double x,int count)
 
  preturn = q - p;
 
+ /* For small counts the expansion can leave [0,1]. */
+ if(preturn < 0.0) preturn = 0.0;
+ if(preturn > 1.0) preturn = 1.0;
+
  if(verbose == D_KSTEST || verbose == D_ALL){
    printf("Q_ks yields preturn = %f:  q = %f  p = %f\n",preturn,q,p);
  }
-- 
2.43.0


From 20bdfc744af2ea6d5ffe0fa886ca3dc6f99c720a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:10 +0000
Subject: [PATCH 29/37] fix: the exact KS p-value could be below 0 by rounding

---
 libdieharder/kstest.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libdieharder/kstest.c b/libdieharder/kstest.c
index ffc3415..a0af0fd 100644
--- a/libdieharder/kstest.c
+++ b/libdieharder/kstest.c
@@ -335,6 +335,7 @@ double p_ks_new(int n,double d)
   /* printf("I'll bet this is it: s = %16.8e  eQ = %d\n",s,eQ); */
   s*=pow(10.,eQ);
   s = 1.0 - s;
+  if(s < 0.0) s = 0.0;  /* rounding */
   free(H);
   free(Q);
   return s;
-- 
2.43.0


From 3a3e7342eb32d5b596144b765e998eef3183f8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:10 +0000
Subject: [PATCH 30/37] fix: debugging text in the report of tests with 10400
 p-values

---
 libdieharder/kstest.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/libdieharder/kstest.c b/libdieharder/kstest.c
index a0af0fd..aba6e3e 100644
--- a/libdieharder/kstest.c
+++ b/libdieharder/kstest.c
@@ -277,7 +277,6 @@ double p_ks_new(int n,double d)
    */
   s=d*d*n;
   if(ks_test != 2 && ( s>7.24 || ( s>3.76 && n>99 ))) {
-    if(n == 10400) printf("Returning the easy way\n");
     return 2.0*exp(-(2.000071+.331/sqrt(n)+1.409/n)*s);
   }
 
-- 
2.43.0


From 6aefcef640844ba204d4ee6aa62a0e8023a1552c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:09 +0000
Subject: [PATCH 31/37] fix: sts_runs gave a constant stream an undefined
 p-value, reported as PASSED

---
 libdieharder/sts_runs.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libdieharder/sts_runs.c b/libdieharder/sts_runs.c
index 8c1a1f6..457eaea 100644
--- a/libdieharder/sts_runs.c
+++ b/libdieharder/sts_runs.c
@@ -110,7 +110,15 @@ int sts_runs(Test **test, int irun)
    printf(" p = %f c00 = %f c01 = %f c10 = %f c11 = %f\n",pones,c00,c01,c10,c11);
  }
 
- Xtest_eval(&ptest);
+ /*
+  * A constant stream has no runs to speak of and no deviation to measure
+  * them by; it must not end up as an undefined p-value (that passes).
+  */
+ if(ptest.sigma > 0.0){
+   Xtest_eval(&ptest);
+ } else {
+   ptest.pvalue = 0.0;
+ }
  test[0]->pvalues[irun] = ptest.pvalue;
 
  MYDEBUG(D_STS_RUNS) {
-- 
2.43.0


From 3fca3531b6dab5f7031212ec05a832bf4ca902fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:23 +0000
Subject: [PATCH 32/37] fix: words seen a multiple of 256 times counted as
 missing in bitstream and dna

---
 libdieharder/diehard_bitstream.c | 4 ++--
 libdieharder/diehard_dna.c       | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libdieharder/diehard_bitstream.c b/libdieharder/diehard_bitstream.c
index 2038366..d007104 100644
--- a/libdieharder/diehard_bitstream.c
+++ b/libdieharder/diehard_bitstream.c
@@ -169,7 +169,7 @@ int diehard_bitstream(Test **test, int irun)
        dumpuintbits(&w20, 1);
        printf("\n");
      }
-     w[w20]++;
+     w[w20] = 1;
 
    } else {
 
@@ -235,7 +235,7 @@ int diehard_bitstream(Test **test, int irun)
          printf("\n");
        }
      }
-     w[w20]++;
+     w[w20] = 1;
 
    }
  }
diff --git a/libdieharder/diehard_dna.c b/libdieharder/diehard_dna.c
index 98d0db7..9293e4f 100644
--- a/libdieharder/diehard_dna.c
+++ b/libdieharder/diehard_dna.c
@@ -166,7 +166,7 @@ int diehard_dna(Test **test, int irun)
    q = get_bit_ntuple_from_uint(q0,2,mask,boffset);
    r = get_bit_ntuple_from_uint(r0,2,mask,boffset);
    /* printf("%u:   %u  %u  %u  %u  %u\n",t,i,j,k,l,boffset); */
-   w[i][j][k][l][m][n][o][p][q][r]++;
+   w[i][j][k][l][m][n][o][p][q][r] = 1;
    boffset++;
  }
 
-- 
2.43.0


From 5470a87f3c5175535a06b5359e66fdefff02e57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:34 +0000
Subject: [PATCH 33/37] fix: bitstream read beyond its bits for large sample
 counts

---
 libdieharder/diehard_bitstream.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libdieharder/diehard_bitstream.c b/libdieharder/diehard_bitstream.c
index d007104..ae8773d 100644
--- a/libdieharder/diehard_bitstream.c
+++ b/libdieharder/diehard_bitstream.c
@@ -44,7 +44,7 @@
 int diehard_bitstream(Test **test, int irun)
 {
 
- uint i,j,t,boffset,coffset;
+ uint i,j,t,boffset,coffset,nuints;
  Xtest ptest;
  char *w;
  uint *bitstream,w20,wscratch,newbyte;
@@ -80,12 +80,15 @@ int diehard_bitstream(Test **test, int irun)
  ptest.y = 141909;
  if(overlap){
    ptest.sigma = 428.0;
-   bitstream = (uint *)malloc(BS_OVERLAP*sizeof(uint));
-   for(i = 0; i < BS_OVERLAP; i++){
+   /* more samples than usual need more bits */
+   nuints = test[0]->tsamples/32 + 2;
+   if(nuints < BS_OVERLAP) nuints = BS_OVERLAP;
+   bitstream = (uint *)malloc(nuints*sizeof(uint));
+   for(i = 0; i < nuints; i++){
      bitstream[i] = get_rand_bits_uint(32,0xffffffff,rng);
    }
    MYDEBUG(D_DIEHARD_BITSTREAM) {
-     printf("# diehard_bitstream: Filled bitstream with %u rands for overlapping\n",BS_OVERLAP);
+     printf("# diehard_bitstream: Filled bitstream with %u rands for overlapping\n",nuints);
      printf("# diehard_bitstream: samples.  Target is mean 141909, sigma = 428.\n");
    }
  } else {
-- 
2.43.0


From d7dd305e06f6dd68168e832247c90999ac95c6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:41 +0000
Subject: [PATCH 34/37] fix: birthdays compared an interval beyond the end of
 its list

---
 libdieharder/diehard_birthdays.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libdieharder/diehard_birthdays.c b/libdieharder/diehard_birthdays.c
index 9fc8e3e..1f856ea 100644
--- a/libdieharder/diehard_birthdays.c
+++ b/libdieharder/diehard_birthdays.c
@@ -185,7 +185,7 @@ int diehard_birthdays(Test **test, int irun)
    k = 0;
    for(m=0;m<nms-1;m++){
      mnext = m+1;
-     while(intervals[m] == intervals[mnext]){
+     while(mnext < nms && intervals[m] == intervals[mnext]){
        /* There is at least one repeat of this interval */
        if(mnext == m+1){
          /* increment the count of repeated intervals */
-- 
2.43.0


From 2ef3e2da82453f50e36c5165498c3a3a6ff6296e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:41 +0000
Subject: [PATCH 35/37] fix: dab_dct with fewer than 4 samples divided by zero

---
 libdieharder/dab_dct.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libdieharder/dab_dct.c b/libdieharder/dab_dct.c
index 54b5508..2a89a0c 100644
--- a/libdieharder/dab_dct.c
+++ b/libdieharder/dab_dct.c
@@ -84,6 +84,7 @@ int dab_dct(Test **test,int irun)
  unsigned int i, j;
  unsigned int len = (ntuple == 0) ? 256 : ntuple;
  int rotAmount = 0;
+ unsigned int quarter = (test[0]->tsamples < 4) ? 1 : test[0]->tsamples / 4;
  unsigned int v = 1<<(rmax_bits-1);
  double mean = (double) len * (v - 0.5);
 
@@ -132,7 +133,7 @@ int dab_dct(Test **test,int irun)
    /* Change the rotation amount after each quarter of the samples
     * have been used.
     */
-   if (j != 0 && (j % (test[0]->tsamples / 4) == 0)) {
+   if (j != 0 && (j % quarter == 0)) {
      rotAmount += rmax_bits/4;
    }
 
-- 
2.43.0


From ee2f11cc6696e34e298a964bc20eb3fa5b443622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:41 +0000
Subject: [PATCH 36/37] fix: dab_filltree counted beyond its table for trees of
 more than 20 values

---
 libdieharder/dab_filltree.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libdieharder/dab_filltree.c b/libdieharder/dab_filltree.c
index a377c3d..eac5619 100644
--- a/libdieharder/dab_filltree.c
+++ b/libdieharder/dab_filltree.c
@@ -49,9 +49,11 @@ int dab_filltree(Test **test,int irun) {
  unsigned int rotAmount = 0;
  double *positionCounts;
 
- counts = (double *) malloc(sizeof(double) * target);
- expected = (double *) malloc(sizeof(double) * target);
- memset(counts, 0, sizeof(double) * target);
+ /* A tree may take up to size * 2 values. */
+ unsigned int space = (size * 2 > target) ? size * 2 : target;
+ counts = (double *) malloc(sizeof(double) * space);
+ expected = (double *) malloc(sizeof(double) * space);
+ memset(counts, 0, sizeof(double) * space);
 
  positionCounts = (double *) malloc(sizeof(double) * size/2);
  memset(positionCounts, 0, sizeof(double) * size/2);
-- 
2.43.0


From 60a1fb20fc30cdeeec39441b720bb0166ebae112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:41 +0000
Subject: [PATCH 37/37] fix: dab_birthdays1 skipped the interval after a
 repeated one and read beyond the list

---
 libdieharder/dab_birthdays1.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libdieharder/dab_birthdays1.c b/libdieharder/dab_birthdays1.c
index 3eb8b2f..cda7a1d 100644
--- a/libdieharder/dab_birthdays1.c
+++ b/libdieharder/dab_birthdays1.c
@@ -170,7 +170,7 @@ int dab_birthdays1(Test **test, int irun)
    k = 0;
    for(m=0;m<nms-1;m++){
      mnext = m+1;
-     while(intervals[m] == intervals[mnext]){
+     while(mnext < nms && intervals[m] == intervals[mnext]){
        /* There is at least one repeat of this interval */
        if(mnext == m+1){
          /* increment the count of repeated intervals */
@@ -185,7 +185,7 @@ int dab_birthdays1(Test **test, int irun)
      /*
       * Skip all the rest that were identical.
       */
-     if(mnext != m+1) m = mnext;
+     if(mnext != m+1) m = mnext - 1;
    }
 
    /*
-- 
2.43.0

