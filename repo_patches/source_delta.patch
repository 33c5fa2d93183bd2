From bfb9e49d4eeed60c5c195e02d1f89de3f28c3287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:37 +0000
Subject: [PATCH 01/47] fix: rpa_recordtree_copy copies the requested tree, not
 the first records of the array

---
 rpa/rparecord.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpa/rparecord.c b/rpa/rparecord.c
index fa4f1c9..ca4d13c 100644
--- a/rpa/rparecord.c
+++ b/rpa/rparecord.c
@@ -193,7 +193,7 @@ long rpa_recordtree_copy(rarray_t *dst, rarray_t *src, long rec)
 	size = rpa_recordtree_size(src, rec);
 
 	for (i = 0; i < size; i++) {
-		prec = rpa_record_get(src, i);
+		prec = rpa_record_get(src, rec + i);
 		r_array_add(dst, prec);
 	}
 	return size;
-- 
2.43.0


From 2b7d968cb1aa749fa6fc615be0d6ef1c8ffd8296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:37 +0000
Subject: [PATCH 02/47] fix: left recursion normalization keeps the record tree
 nested

Records of a right operand that is itself left recursive were moved in front
of the left operand, the scan could run past the end of the array, records the
array held before the parse were moved or changed, and a debug line went to
stdout.
---
 rpa/rpastat.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/rpa/rpastat.c b/rpa/rpastat.c
index 6e7f10f..a7e1fdf 100644
--- a/rpa/rpastat.c
+++ b/rpa/rpastat.c
@@ -146,13 +146,13 @@ long rpa_stat_exec(rpastat_t *stat, rvm_asmins_t *prog, ruword off, unsigned int
 	return ret;
 }
 
-static void rpa_stat_normalizeleftrecursion(rpastat_t *stat, rarray_t *records)
+static void rpa_stat_normalizeleftrecursion(rpastat_t *stat, rarray_t *records, long first)
 {
-	rparecord_t *srec, *erec;
+	rparecord_t *srec, *erec, *strayrec;
 	long i, temp_start, strayrecs_start, strayrecs_size, strayrecs_end;
 	long size = r_array_length(records);
 
-	for (i = 1; i < size; i++) {
+	for (i = first + 1; i < size; i++) {
 		srec = (rparecord_t *) r_array_slot(records, i);
 		if ((srec->usertype & RPA_LOOP_PATH) && (srec->type & RPA_RECORD_START)) {
 			erec = rpa_record_get(records, i - 1);
@@ -160,23 +160,32 @@ static void rpa_stat_normalizeleftrecursion(rpastat_t *stat, rarray_t *records)
 				long ssize = 0, j;
 				strayrecs_end = i - 1;
 				strayrecs_start = rpa_recordtree_get(records, strayrecs_end, RPA_RECORD_START);
-				for (temp_start = rpa_recordtree_prev(records, strayrecs_start, RPA_RECORD_START); temp_start >= 0;
+				for (temp_start = rpa_recordtree_prev(records, strayrecs_start, RPA_RECORD_START); temp_start >= first;
 					temp_start = rpa_recordtree_prev(records, strayrecs_start, RPA_RECORD_START)) {
 					erec = rpa_record_get(records, temp_start);
 					if (erec && (erec->input >= srec->input) && (erec->input + erec->inputsiz <= srec->input + srec->inputsiz)) {
 						strayrecs_start = temp_start;
-						r_printf("----> strayrecs_start = %ld\n", strayrecs_start);
 						continue;
 					}
 					break;
 				}
 				strayrecs_size = strayrecs_end - strayrecs_start + 1;
 
-				for (j = 0; j < size; j++) {
+				/*
+				 * Only the records of the recursion that produced the stray
+				 * records enclose them. What follows might be left recursive
+				 * too, but it is on the right hand side.
+				 */
+				strayrec = (rparecord_t *) r_array_slot(records, strayrecs_start);
+				for (j = 0; i + j < size; j++) {
 					srec = (rparecord_t *) r_array_slot(records, i + j);
 					if (!(srec->usertype & RPA_LOOP_PATH) || !(srec->type & RPA_RECORD_START)) {
 						break;
 					}
+					erec = (rparecord_t *) r_array_slot(records, strayrecs_end);
+					if (strayrec->input < srec->input || erec->input + erec->inputsiz > srec->input + srec->inputsiz) {
+						break;
+					}
 					ssize++;
 				}
 				r_array_setlength(records, size + ssize);
@@ -190,7 +199,7 @@ static void rpa_stat_normalizeleftrecursion(rpastat_t *stat, rarray_t *records)
 
 	}
 
-	for (i = 0; i < size; i++) {
+	for (i = first; i < size; i++) {
 		erec = (rparecord_t *) r_array_slot(records, i);
 		erec->usertype = 0;
 	}
@@ -202,6 +211,7 @@ static long rpa_stat_exec_rid(rpastat_t *stat, rparule_t rid, unsigned int encod
 	long topsiz = 0;
 	rpainput_t *ptp;
 	long offset;
+	long first = records ? (long)r_array_length(records) : 0;
 	rvm_asmins_t *exec;
 
 
@@ -222,7 +232,7 @@ static long rpa_stat_exec_rid(rpastat_t *stat, rparule_t rid, unsigned int encod
 		return 0;
 	ptp = &stat->instack[topsiz];
 	if (records)
-		rpa_stat_normalizeleftrecursion(stat, records);
+		rpa_stat_normalizeleftrecursion(stat, records, first);
 	return (long)(ptp->input - input);
 }
 
-- 
2.43.0


From 4e717e9f84519987372c8ae12c64fab8e472b279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:51 +0000
Subject: [PATCH 03/47] fix: a VM execution error ends the execution instead of
 the process

RVM_ABORT asserted, so running out of VM stack (a deep enough input, or a
small stack passed to rpa_stat_create) aborted the calling process instead of
being returned as an error.
---
 rvm/rvmcpu.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rvm/rvmcpu.h b/rvm/rvmcpu.h
index 26fe889..224f205 100644
--- a/rvm/rvmcpu.h
+++ b/rvm/rvmcpu.h
@@ -417,7 +417,7 @@ enum {
 };
 
 #define RVM_STACK_CHUNK 256
-#define RVM_ABORT(__cpu__, __e__) do { __cpu__->error = (__e__); (__cpu__)->abort = 1; R_ASSERT(0); return; } while (0)
+#define RVM_ABORT(__cpu__, __e__) do { __cpu__->error = (__e__); (__cpu__)->abort = 1; return; } while (0)
 #define BIT(__shiftby__) (1 << (__shiftby__))
 #define BITR(__f__, __l__, __r__) (((__r__) >= (__f__) && (__r__) <= (__l__)) ? BIT(__r__) : 0)
 #define BITS(__f__, __l__)  (BITR(__f__, __l__, R0)) | (BITR(__f__, __l__, R1)) | (BITR(__f__, __l__, R2)) | (BITR(__f__, __l__, R3)) | \
-- 
2.43.0


From 558875b33f68247284b80afdcbbcc4ce339b745a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:51 +0000
Subject: [PATCH 04/47] fix: a failed parse, match or scan always sets the
 error code

VM errors (such as running out of stack) and invalid input ranges returned -1
with the last error still RPA_E_NONE; an invalid range was executed anyway.
---
 rpa/rpastat.c | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/rpa/rpastat.c b/rpa/rpastat.c
index a7e1fdf..222cc94 100644
--- a/rpa/rpastat.c
+++ b/rpa/rpastat.c
@@ -118,7 +118,11 @@ long rpa_stat_exec(rpastat_t *stat, rvm_asmins_t *prog, ruword off, unsigned int
 		return -1;
 	}
 	rpa_stat_cacheinvalidate(stat);
-	rpa_stat_init(stat, encoding, input, start, end, records);
+	if (rpa_stat_init(stat, encoding, input, start, end, records) < 0) {
+		r_memset(&stat->err, 0, sizeof(stat->err));
+		RPA_STAT_SETERROR_CODE(stat, RPA_E_INVALIDINPUT);
+		return -1;
+	}
 
 	if (stat->debug) {
 		ret = rvm_cpu_exec_debug(stat->cpu, prog, off);
@@ -126,16 +130,11 @@ long rpa_stat_exec(rpastat_t *stat, rvm_asmins_t *prog, ruword off, unsigned int
 		ret = rvm_cpu_exec(stat->cpu, prog, off);
 	}
 	if (ret < 0) {
-		if (!stat->cpu->error) {
-			if (stat->cpu->error) {
-				RPA_STAT_SETERROR_CODE(stat, stat->cpu->error);
-			} else {
-				/*
-				 * We should never get to here. Error have to be more
-				 * specific and set at the places they are detected.
-				 */
-				RPA_STAT_SETERROR_CODE(stat, RPA_E_EXECUTION);
-			}
+		/*
+		 * More specific errors are set at the places they are detected.
+		 */
+		if (!stat->err.code) {
+			RPA_STAT_SETERROR_CODE(stat, (stat->cpu->error == RVM_E_USERABORT) ? RPA_E_USERABORT : RPA_E_EXECUTION);
 		}
 		return -1;
 	}
-- 
2.43.0


From a1c33d8183f746666275c62528ba40e029248f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:03 +0000
Subject: [PATCH 05/47] fix: rpa_stat_abort is not lost while an execution
 starts or between scan positions

The request was kept only in the cpu's abort and error words, which the next
rvm_cpu_exec clears, and it wrote the context's error record from the calling
thread. It could be lost entirely (also between two positions of a scan) or
end the operation with no error code.
---
 rpa/rpastat.c     | 29 +++++++++++++++++++++++------
 rpa/rpastatpriv.h |  1 +
 rpa/rpavm.c       |  2 ++
 rvm/rvmcpu.c      | 10 ++++++++--
 rvm/rvmcpu.h      |  1 +
 5 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/rpa/rpastat.c b/rpa/rpastat.c
index 222cc94..c08ac1c 100644
--- a/rpa/rpastat.c
+++ b/rpa/rpastat.c
@@ -110,13 +110,10 @@ void rpa_stat_cacheinvalidate(rpastat_t *stat)
 }
 
 
-long rpa_stat_exec(rpastat_t *stat, rvm_asmins_t *prog, ruword off, unsigned int encoding, const char *input, const char *start, const char *end, rarray_t *records)
+static long rpa_stat_exec_once(rpastat_t *stat, rvm_asmins_t *prog, ruword off, unsigned int encoding, const char *input, const char *start, const char *end, rarray_t *records)
 {
 	long ret;
 
-	if (!stat) {
-		return -1;
-	}
 	rpa_stat_cacheinvalidate(stat);
 	if (rpa_stat_init(stat, encoding, input, start, end, records) < 0) {
 		r_memset(&stat->err, 0, sizeof(stat->err));
@@ -138,6 +135,10 @@ long rpa_stat_exec(rpastat_t *stat, rvm_asmins_t *prog, ruword off, unsigned int
 		}
 		return -1;
 	}
+	if (stat->userabort) {
+		RPA_STAT_SETERROR_CODE(stat, RPA_E_USERABORT);
+		return -1;
+	}
 	ret = (long)RVM_CPUREG_GETL(stat->cpu, R0);
 	if (ret < 0) {
 		return 0;
@@ -145,6 +146,16 @@ long rpa_stat_exec(rpastat_t *stat, rvm_asmins_t *prog, ruword off, unsigned int
 	return ret;
 }
 
+
+long rpa_stat_exec(rpastat_t *stat, rvm_asmins_t *prog, ruword off, unsigned int encoding, const char *input, const char *start, const char *end, rarray_t *records)
+{
+	if (!stat) {
+		return -1;
+	}
+	stat->userabort = FALSE;
+	return rpa_stat_exec_once(stat, prog, off, encoding, input, start, end, records);
+}
+
 static void rpa_stat_normalizeleftrecursion(rpastat_t *stat, rarray_t *records, long first)
 {
 	rparecord_t *srec, *erec, *strayrec;
@@ -255,8 +266,9 @@ long rpa_stat_scan(rpastat_t *stat, rparule_t rid, unsigned int encoding, const
 		return -1;
 	}
 
+	stat->userabort = FALSE;
 	while (input < end) {
-		topsiz = rpa_stat_exec(stat, exec, offset, encoding, input, start, end, NULL);
+		topsiz = rpa_stat_exec_once(stat, exec, offset, encoding, input, start, end, NULL);
 		if (topsiz < 0) {
 			if (rpa_stat_lasterror(stat) != RPA_E_RULEABORT) {
 				return -1;
@@ -296,7 +308,12 @@ int rpa_stat_abort(rpastat_t *stat)
 	if (!stat) {
 		return -1;
 	}
-	RPA_STAT_SETERROR_CODE(stat, RPA_E_USERABORT);
+	/*
+	 * This is usually called from another thread. The flag outlives the
+	 * (re)initialization of the cpu, so an abort is not lost while the
+	 * execution is being set up or between two positions of a scan.
+	 */
+	stat->userabort = TRUE;
 	rvm_cpu_abort(stat->cpu);
 	return 0;
 }
diff --git a/rpa/rpastatpriv.h b/rpa/rpastatpriv.h
index 731c5f4..0c15169 100644
--- a/rpa/rpastatpriv.h
+++ b/rpa/rpastatpriv.h
@@ -51,6 +51,7 @@ struct rpastat_s {
 	rpa_errinfo_t err;
 	unsigned int encoding;
 	unsigned int debug;
+	volatile rboolean userabort;	/* Set by rpa_stat_abort */
 	rarray_t *records;
 	rpainput_t *instackbuffer;
 	rpainput_t *instack;			/* instack = &instackbuffer[1]; This allows R_TOP = -1, without any additional checks */
diff --git a/rpa/rpavm.c b/rpa/rpavm.c
index 43b9bd3..c9c42a6 100644
--- a/rpa/rpavm.c
+++ b/rpa/rpavm.c
@@ -29,6 +29,8 @@ static void rpavm_swi_shift(rvmcpu_t *cpu, rvm_asmins_t *ins)
 	rpastat_t *stat = (rpastat_t *)cpu->userdata1;
 	rword top = RVM_CPUREG_GETL(cpu, R_TOP);
 
+	if (stat->userabort)
+		rvm_cpu_abort(cpu);
 	if ((top = rpa_stat_shift(stat, (long)top)) >= 0)
 		RVM_CPUREG_SETL(cpu, R_TOP, top);
 }
diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index b95b6ed..b9cd455 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -1470,6 +1470,8 @@ skipexec:
 #endif
 		RVM_REG_INCIP(regpc, 1);
 	} while (!cpu->abort);
+	if (cpu->abort == RVM_CPU_USERABORT)
+		cpu->error = RVM_E_USERABORT;
 	if (cpu->error)
 		return -1;
 	return 0;
@@ -1529,6 +1531,8 @@ skipexec:
 #endif
 		RVM_REG_INCIP(regpc, 1);
 	} while (!cpu->abort);
+	if (cpu->abort == RVM_CPU_USERABORT)
+		cpu->error = RVM_E_USERABORT;
 	if (cpu->error)
 		return -1;
 	return 0;
@@ -1595,8 +1599,10 @@ int rvm_cpu_abort(rvmcpu_t *cpu)
 {
 	if (!cpu)
 		return -1;
-	cpu->error = RVM_E_USERABORT;
-	cpu->abort = 1;
+	/*
+	 * One word is the whole request: the executing thread derives the error from it.
+	 */
+	cpu->abort = RVM_CPU_USERABORT;
 	return 0;
 }
 
diff --git a/rvm/rvmcpu.h b/rvm/rvmcpu.h
index 224f205..48bea4e 100644
--- a/rvm/rvmcpu.h
+++ b/rvm/rvmcpu.h
@@ -417,6 +417,7 @@ enum {
 };
 
 #define RVM_STACK_CHUNK 256
+#define RVM_CPU_USERABORT 2
 #define RVM_ABORT(__cpu__, __e__) do { __cpu__->error = (__e__); (__cpu__)->abort = 1; return; } while (0)
 #define BIT(__shiftby__) (1 << (__shiftby__))
 #define BITR(__f__, __l__, __r__) (((__r__) >= (__f__) && (__r__) <= (__l__)) ? BIT(__r__) : 0)
-- 
2.43.0


From 798092f77d6634101e353f73d922b271306d59fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:48 +0000
Subject: [PATCH 06/47] fix: rpa_dbex_load and rpa_dbex_name report every
 failure

---
 rpa/rpadbex.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index 83347c6..51cc7b7 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -1443,7 +1443,7 @@ long rpa_dbex_load(rpadbex_t *dbex, const char *rules, unsigned long size)
 	r_array_add(dbex->text, &text);
 	r_array_setlength(dbex->temprecords, 0);
 	if ((ret = rpa_parser_load(dbex->pa, text, size, dbex->temprecords)) < 0) {
-
+		RPA_DBEX_SETERRINFO_CODE(dbex, rpa_stat_lasterror(dbex->pa->stat));
 		return -1;
 	}
 	if (ret != (long)size) {
@@ -1770,8 +1770,10 @@ const char *rpa_dbex_name(rpadbex_t *dbex, rparule_t rid)
 		RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_NOTCLOSED);
 		return NULL;
 	}
-	if (rid >= (rparule_t)r_array_length(dbex->rules->members))
+	if (rid < 0 || rid >= (rparule_t)r_array_length(dbex->rules->members)) {
+		RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_NOTFOUND);
 		return NULL;
+	}
 	name = r_array_index(dbex->rules->names, rid, rstr_t*);
 	return name->str;
 }
-- 
2.43.0


From 4a7561e46f4087a85963dfe92db33e4809f13430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 07/47] fix: rpa_stat_create fails cleanly when the stack
 cannot be allocated

---
 rpa/rpastat.c | 2 +-
 rpa/rpavm.c   | 5 ++++-
 rvm/rvmcpu.c  | 6 ++++++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/rpa/rpastat.c b/rpa/rpastat.c
index c08ac1c..d105aa7 100644
--- a/rpa/rpastat.c
+++ b/rpa/rpastat.c
@@ -33,11 +33,11 @@ rpastat_t *rpa_stat_create(rpadbex_t *dbex, unsigned long stacksize)
 	if (stacksize == 0)
 		stacksize = RPA_DEFAULT_STACKSIZE;
 	stat->cpu = rpavm_cpu_create(stacksize);
-	stat->cache = rpa_cache_create();
 	if (!stat->cpu) {
 		r_free(stat);
 		return NULL;
 	}
+	stat->cache = rpa_cache_create();
 	stat->dbex = dbex;
 	stat->cpu->userdata1 = stat;
 	return stat;
diff --git a/rpa/rpavm.c b/rpa/rpavm.c
index c9c42a6..f98149d 100644
--- a/rpa/rpavm.c
+++ b/rpa/rpavm.c
@@ -486,8 +486,11 @@ static rvm_switable_t rpavm_swi_table[] = {
 rvmcpu_t *rpavm_cpu_create(unsigned long stacksize)
 {
 	rvmcpu_t *cpu = rvm_cpu_create(stacksize);
-	int tableid = rvm_cpu_addswitable(cpu, "rpavm_swi_table", rpavm_swi_table);
+	int tableid;
 
+	if (!cpu)
+		return NULL;
+	tableid = rvm_cpu_addswitable(cpu, "rpavm_swi_table", rpavm_swi_table);
 	if (tableid != RPAVM_SWI_TABLEID) {
 		rpavm_cpu_destroy(cpu);
 		return NULL;
diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index b9cd455..52d39a9 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -1302,6 +1302,8 @@ rvmcpu_t *rvm_cpu_create(unsigned long stacksize)
 {
 	rvmcpu_t *cpu;
 
+	if (stacksize > ((ruword)-1) / sizeof(rvmreg_t))
+		return ((void*)0);
 	cpu = (rvmcpu_t *)r_malloc(sizeof(*cpu));
 	if (!cpu)
 		return ((void*)0);
@@ -1311,6 +1313,10 @@ rvmcpu_t *rvm_cpu_create(unsigned long stacksize)
 	cpu->stack = r_malloc(stacksize * sizeof(rvmreg_t));
 	cpu->data = r_carray_create(sizeof(rvmreg_t));
 	cpu->gc = r_gc_create();
+	if (!cpu->stack) {
+		rvm_cpu_destroy(cpu);
+		return ((void*)0);
+	}
 
 	rvm_cpu_setophandler(cpu, RVM_EXT, "EXT", rvm_op_exit);
 	rvm_cpu_setophandler(cpu, RVM_ABORT, "ABORT", rvm_op_abort);
-- 
2.43.0


From 08b3b2858af2b40bddf57e2a5fa9915141312104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:41 +0000
Subject: [PATCH 08/47] fix: rules loaded after a compile or close do not see
 stale bitmaps and loop marks

---
 rpa/rpadbex.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index 51cc7b7..a558ad8 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -1220,6 +1220,13 @@ static void rpa_dbex_buildloopinfo(rpadbex_t *dbex)
 	rharray_t *rules = dbex->rules;
 	rpa_ruleinfo_t *info;
 
+	/*
+	 * The loops depend on all rules, forget what was found out before more
+	 * rules were loaded.
+	 */
+	for (i = 0; i < r_array_length(dbex->records); i++)
+		((rparecord_t *)r_array_slot(dbex->records, i))->usertype &= ~(RPA_LOOP_PATH | RPA_NONLOOP_PATH);
+
 	for (i = 0; i < r_array_length(rules->members); i++) {
 		if ((info = (rpa_ruleinfo_t *)r_harray_get(rules, i)) != NULL)
 			rpa_parseinfo_marklooppath(dbex, info->startrec);
@@ -1924,6 +1931,7 @@ int rpa_dbex_compile(rpadbex_t *dbex)
 {
 	rparule_t rid;
 	rvm_codelabel_t *labelerr;
+	unsigned long i;
 
 	if (!dbex)
 		return -1;
@@ -1938,6 +1946,11 @@ int rpa_dbex_compile(rpadbex_t *dbex)
 		rpa_compiler_destroy(dbex->co);
 	dbex->co = rpa_compiler_create();
 	rpa_dbex_setemit(dbex, TRUE);
+	/*
+	 * The bitmaps of a previous compilation don't know the rules loaded since then.
+	 */
+	for (i = 0; i < r_array_length(dbex->records); i++)
+		RPA_BITMAP_SETVAL(RPA_RECORD2BITMAP((rparecord_t *)r_array_slot(dbex->records, i)), 0);
 
 	for (rid = rpa_dbex_first(dbex); rid >= 0; rid = rpa_dbex_next(dbex, rid)) {
 		if (rpa_dbex_compile_rule(dbex, rid) < 0) {
-- 
2.43.0


From f9ccca440b32eba6c585732a7fd549b65a329543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:59 +0000
Subject: [PATCH 09/47] fix: the debug allocator reports failed allocations
 instead of writing through NULL

---
 rlib/rmem.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rlib/rmem.c b/rlib/rmem.c
index 1d5a496..e9c90cf 100644
--- a/rlib/rmem.c
+++ b/rlib/rmem.c
@@ -64,8 +64,12 @@ static rpointer r_dbg_calloc(size_t nmemb, size_t size)
 {
 	ruword *mem = NULL;
 
+	if (size == 0)
+		size = 1;
 	nmemb += (size < sizeof(ruword)) ? sizeof(ruword) : 1;
 	mem = (ruword*)calloc(nmemb, size);
+	if (!mem)
+		return NULL;
 	*((ruword*)mem) = size * nmemb;
 	r_spinlock_lock(&g_lock);
 	g_allocmem += size * nmemb;
@@ -82,6 +86,8 @@ static rpointer r_dbg_malloc(size_t size)
 	ruword *mem = NULL;
 	size += sizeof(ruword);
 	mem = (ruword*)malloc((size));
+	if (!mem)
+		return NULL;
 	*((ruword*)mem) = size;
 	r_spinlock_lock(&g_lock);
 	g_allocmem += size;
@@ -114,13 +120,13 @@ static rpointer r_dbg_realloc(rpointer ptr, size_t size)
 	if (!ptr)
 		return r_malloc(size);
 	csize = *mem;
-	r_spinlock_lock(&g_lock);
-	g_allocmem -= csize;
-	r_spinlock_unlock(&g_lock);
 	size += sizeof(ruword);
 	mem = (ruword*)realloc((void*)mem, (size));
+	if (!mem)
+		return NULL;
 	*mem = size;
 	r_spinlock_lock(&g_lock);
+	g_allocmem -= csize;
 	g_allocmem += size;
 	if (g_maxmem < g_allocmem)
 		g_maxmem = g_allocmem;
-- 
2.43.0


From a0b8cd31d3fefe231d6780d1046aa3edf27f1a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:05 +0000
Subject: [PATCH 10/47] fix: malformed expressions are rejected instead of
 crashing the regex compiler

---
 rex/rexcompiler.c | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index 8e465c6..fe940aa 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -64,6 +64,21 @@ void rex_compiler_destroy(rexcompiler_t *co)
 }
 
 
+/*
+ * The tokens are wide chars, don't use them as an index in the ctype tables.
+ */
+static int rex_compiler_isdigit(int c)
+{
+	return (c >= '0' && c <= '9') ? 1 : 0;
+}
+
+
+static int rex_compiler_isxdigit(int c)
+{
+	return (rex_compiler_isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) ? 1 : 0;
+}
+
+
 static int rex_compiler_isspace(int c)
 {
 	return isspace(c);
@@ -226,10 +241,10 @@ int rex_compiler_numerictoken(rexcompiler_t *co, rexdb_t *rexdb)
 		} else {
 			base = 8;
 		}
-	} else if (!isdigit(co->token)) {
+	} else if (!rex_compiler_isdigit(co->token)) {
 		return -1;
 	}
-	while ((base == 16 && isxdigit(co->token)) || (base == 8 && isdigit(co->token) && co->token != '8' && co->token != '9') || isdigit(co->token)) {
+	while ((base == 16 && rex_compiler_isxdigit(co->token)) || (base == 8 && rex_compiler_isdigit(co->token) && co->token != '8' && co->token != '9') || rex_compiler_isdigit(co->token)) {
 		if (i >= REX_CONV_BUFSIZE)
 			return -1;
 		convbuf[i++] = co->token;
@@ -344,6 +359,8 @@ static int rex_compiler_factor(rexcompiler_t *co, rexdb_t *rexdb)
 	} else {
 		srcstate = rex_db_getstate(rexdb, rex_db_createstate(rexdb, REX_STATETYPE_NONE));
 		rex_compiler_adjustescapedtoken(co);
+		if (co->token == REX_TOKEN_EOF)
+			return -1;
 		rex_state_addtransition(srcstate, co->token, co->token, -1);
 		frag = rex_fragment_create(srcstate);
 		FPUSH(co, frag);
@@ -361,9 +378,9 @@ static int rex_compiler_parsecount(rexcompiler_t *co, rexdb_t *rexdb)
 	int i = 0;
 
 	rex_compiler_getnbtok(co);		/* eat '{' */
-	if (!isdigit(co->token))
+	if (!rex_compiler_isdigit(co->token))
 		return -1;
-	for (i = 0; isdigit(co->token); i++) {
+	for (i = 0; rex_compiler_isdigit(co->token); i++) {
 		if (i >= REX_CONV_BUFSIZE)
 			return -1;
 		convbuf[i] = co->token;
@@ -379,8 +396,8 @@ static int rex_compiler_parsecount(rexcompiler_t *co, rexdb_t *rexdb)
 	if (co->token == ',') {
 		rex_compiler_getnbtok(co);		/* eat ',' */
 		co->tocount = (size_t)-1;
-		if (isdigit(co->token)) {
-			for (i = 0; isdigit(co->token); i++) {
+		if (rex_compiler_isdigit(co->token)) {
+			for (i = 0; rex_compiler_isdigit(co->token); i++) {
 				if (i >= REX_CONV_BUFSIZE)
 					return -1;
 				convbuf[i] = co->token;
@@ -467,7 +484,6 @@ static int rex_compiler_qfactor(rexcompiler_t *co, rexdb_t *rexdb)
 			}
 			r_array_setlength(rexdb->states, nstates);
 			srcstate = rex_db_getstate(rexdb, rex_db_createstate(rexdb, REX_STATETYPE_NONE));
-			rex_compiler_adjustescapedtoken(co);
 			rex_state_addtransition_e(srcstate, -1);
 			frag = rex_fragment_create(srcstate);
 			FPUSH(co, frag);
@@ -531,7 +547,7 @@ static int rex_compiler_catexpression(rexcompiler_t *co, rexdb_t *rexdb)
 		case REX_TOKEN_EOF:
 		case '|':
 		case ')':
-			return 0;
+			return nfactors ? 0 : -1;
 		}
 		if (rex_compiler_qfactor(co, rexdb) < 0)
 			return -1;
@@ -590,6 +606,8 @@ long rex_compiler_expression(rexcompiler_t *co, rexdb_t *rexdb, const char *str,
 	rex_compiler_getnbtok(co);
 	if (rex_compiler_altexpression(co, rexdb) < 0)
 		goto error;
+	if (co->token != REX_TOKEN_EOF)
+		goto error;
 	frag1 = FPOP(co);
 	frag2 = rex_fragment_create(rex_db_getstate(rexdb, rex_db_createstate(rexdb, REX_STATETYPE_ACCEPT)));
 	rex_state_setuserdata(REX_FRAG_STATE(frag2), userdata);
-- 
2.43.0


From fc60f94662d5e193bd72f39dbfb6959b3d7bc4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:05 +0000
Subject: [PATCH 11/47] fix: the fragment replaced by a zero count is destroyed

---
 rex/rexcompiler.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index fe940aa..3f8ac5e 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -478,6 +478,7 @@ static int rex_compiler_qfactor(rexcompiler_t *co, rexdb_t *rexdb)
 			 * Special case
 			 */
 			frag = FPOP(co);
+			rex_fragment_destroy(frag);
 			for (i = nstates; i < r_array_length(rexdb->states); i++) {
 				srcstate = rex_db_getstate(rexdb, i);
 				rex_state_destroy(srcstate);
-- 
2.43.0


From 51d69a966a70fde381ea984c98595120eecca6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:06 +0000
Subject: [PATCH 12/47] fix: rex_regex_create returns NULL for a rejected
 expression

---
 rex/rexregex.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rex/rexregex.c b/rex/rexregex.c
index a2fb8fa..ff3f00d 100644
--- a/rex/rexregex.c
+++ b/rex/rexregex.c
@@ -81,8 +81,9 @@ rexregex_t *rex_regex_create(const char *str, unsigned int size)
 	rexregex_t *regex;
 
 	regex = (rexregex_t*)r_object_create(sizeof(*regex));
-	rex_regex_init((robject_t*)regex, R_OBJECT_REXREGEX, rex_regex_cleanup, NULL, str, size);
-	return regex;
+	if (!regex)
+		return NULL;
+	return (rexregex_t*)rex_regex_init((robject_t*)regex, R_OBJECT_REXREGEX, rex_regex_cleanup, NULL, str, size);
 }
 
 
-- 
2.43.0


From 48b8ef897dcda70ff44ce239941eb864da648042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:30 +0000
Subject: [PATCH 13/47] fix: the directory walk stays inside its buffers when
 the start directory cannot be opened or a path is too long

---
 rexgrep/unix/fsenum.c | 7 +++++--
 rpagrep/unix/fsenum.c | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/rexgrep/unix/fsenum.c b/rexgrep/unix/fsenum.c
index 0c98d5d..fd1b8e9 100644
--- a/rexgrep/unix/fsenum.c
+++ b/rexgrep/unix/fsenum.c
@@ -90,6 +90,9 @@ int fse_next_file(fs_enum_ptr pFSE)
 	struct stat st;
 	struct dirent *pDE;
 
+	if (pFSE->iDirOffset < 0)
+		return -1;
+
 	while (fRet)
 	{
 		if ((pDE = readdir(pFSE->kDIRS[pFSE->iDirOffset])) == NULL)
@@ -171,7 +174,7 @@ static int fsePushDir(fs_enum_ptr pFSE, const char *pszDir)
 	float fCurSlice = (pFSE->iDirOffset < 0) ? 100.0 : pFSE->kProgSlice[pFSE->iDirOffset];
 
 	if (pFSE->iDirOffset >= (int) (sizeof(pFSE->kDIRS)/sizeof(pFSE->kDIRS[0]) - 1) ||
-		strlen(pszDir) >= sizeof(pFSE->szCurDir)/sizeof(pFSE->szCurDir[0]) - strlen(pFSE->szCurDir) )
+		strlen(pszDir) + 1 >= sizeof(pFSE->szCurDir)/sizeof(pFSE->szCurDir[0]) - strlen(pFSE->szCurDir) )
 	{
 		/* No more space */
 		return -1;
@@ -229,7 +232,7 @@ static int fsePopDir(fs_enum_ptr pFSE)
 		*pszEnd = '\0';
 		if (pFSE->iDirOffset >= 0)
 		{
-			if (*(pszEnd - 1) == CH_SLASH)
+			if (pszEnd > pFSE->szCurDir && *(pszEnd - 1) == CH_SLASH)
 				break;
 		}
 
diff --git a/rpagrep/unix/fsenum.c b/rpagrep/unix/fsenum.c
index 0c98d5d..fd1b8e9 100644
--- a/rpagrep/unix/fsenum.c
+++ b/rpagrep/unix/fsenum.c
@@ -90,6 +90,9 @@ int fse_next_file(fs_enum_ptr pFSE)
 	struct stat st;
 	struct dirent *pDE;
 
+	if (pFSE->iDirOffset < 0)
+		return -1;
+
 	while (fRet)
 	{
 		if ((pDE = readdir(pFSE->kDIRS[pFSE->iDirOffset])) == NULL)
@@ -171,7 +174,7 @@ static int fsePushDir(fs_enum_ptr pFSE, const char *pszDir)
 	float fCurSlice = (pFSE->iDirOffset < 0) ? 100.0 : pFSE->kProgSlice[pFSE->iDirOffset];
 
 	if (pFSE->iDirOffset >= (int) (sizeof(pFSE->kDIRS)/sizeof(pFSE->kDIRS[0]) - 1) ||
-		strlen(pszDir) >= sizeof(pFSE->szCurDir)/sizeof(pFSE->szCurDir[0]) - strlen(pFSE->szCurDir) )
+		strlen(pszDir) + 1 >= sizeof(pFSE->szCurDir)/sizeof(pFSE->szCurDir[0]) - strlen(pFSE->szCurDir) )
 	{
 		/* No more space */
 		return -1;
@@ -229,7 +232,7 @@ static int fsePopDir(fs_enum_ptr pFSE)
 		*pszEnd = '\0';
 		if (pFSE->iDirOffset >= 0)
 		{
-			if (*(pszEnd - 1) == CH_SLASH)
+			if (pszEnd > pFSE->szCurDir && *(pszEnd - 1) == CH_SLASH)
 				break;
 		}
 
-- 
2.43.0


From 8f5902fa59eccd92de3a86a82e46347c0d0ef79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:30 +0000
Subject: [PATCH 14/47] fix: the directory walk visits directories whose name
 begins with a dot

---
 rexgrep/unix/fsenum.c | 4 +---
 rpagrep/unix/fsenum.c | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/rexgrep/unix/fsenum.c b/rexgrep/unix/fsenum.c
index fd1b8e9..67d27f9 100644
--- a/rexgrep/unix/fsenum.c
+++ b/rexgrep/unix/fsenum.c
@@ -158,9 +158,7 @@ float fse_progress(fs_enum_ptr pFSE)
 
 static int fseDotDir(const char * pszDirName)
 {
-	if (pszDirName[0] != '.' && (pszDirName[1] != '.' || pszDirName[1] != '\0'))
-		return 0;
-	return 1;
+	return (strcmp(pszDirName, ".") == 0 || strcmp(pszDirName, "..") == 0) ? 1 : 0;
 }
 
 
diff --git a/rpagrep/unix/fsenum.c b/rpagrep/unix/fsenum.c
index fd1b8e9..67d27f9 100644
--- a/rpagrep/unix/fsenum.c
+++ b/rpagrep/unix/fsenum.c
@@ -158,9 +158,7 @@ float fse_progress(fs_enum_ptr pFSE)
 
 static int fseDotDir(const char * pszDirName)
 {
-	if (pszDirName[0] != '.' && (pszDirName[1] != '.' || pszDirName[1] != '\0'))
-		return 0;
-	return 1;
+	return (strcmp(pszDirName, ".") == 0 || strcmp(pszDirName, "..") == 0) ? 1 : 0;
 }
 
 
-- 
2.43.0


From a595d68c70ff9ebdb3e225f723860ea903cf520a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:33 +0000
Subject: [PATCH 15/47] fix: the command line tools do not use their context
 after destroying it

---
 rexcc/rexccmain.c           | 4 +++-
 rexgrep/rexgrep-main.c      | 5 +++--
 rpagrep/unix/rpagrep-main.c | 3 ++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/rexcc/rexccmain.c b/rexcc/rexccmain.c
index 4ba073e..2899977 100644
--- a/rexcc/rexccmain.c
+++ b/rexcc/rexccmain.c
@@ -100,6 +100,7 @@ int main(int argc, const char *argv[])
 	rexcc_t *pCC;
 	int i, ret = 0, dumponly = 0;
 	int withsubstates = 0;
+	int showtime;
 	FILE *devnull = NULL;
 	rexdb_t *tempdb = NULL;
 	FILE *cfile = stdout;
@@ -203,8 +204,9 @@ int main(int argc, const char *argv[])
 	}
 
 end:
+	showtime = pCC->showtime;
 	rex_cc_destroy(pCC);
-	if (pCC->showtime) {
+	if (showtime) {
 		fprintf(stdout, "memory: %ld KB (leaked %ld Bytes)\n", (long)r_debug_get_maxmem()/1024, (long)r_debug_get_allocmem());
 	}
 	if (devnull)
diff --git a/rexgrep/rexgrep-main.c b/rexgrep/rexgrep-main.c
index 95b9715..b1d7d28 100644
--- a/rexgrep/rexgrep-main.c
+++ b/rexgrep/rexgrep-main.c
@@ -110,7 +110,7 @@ rbuffer_t *grep_buffer_loadfile(FILE *pFile)
 
 int main(int argc, const char *argv[])
 {
-	int ret, scanned = 0, i;
+	int ret, scanned = 0, showtime, i;
 	rexgrep_t *pGrep;
 	rarray_t *buffers;
 	const char *binfile = NULL;
@@ -376,9 +376,10 @@ end:
 					(unsigned long long) 1000 * sckb / milsec);
 		}
 	}
+	showtime = pGrep->showtime;
 	rex_grep_destroy(pGrep);
 #ifdef R_DEBUG_MEMALLOC
-	if (pGrep->showtime) {
+	if (showtime) {
 		fprintf(stdout, "\tMemory Allocator: %ld KB (leaked %ld Bytes)\n", (long)r_debug_get_maxmem() / 1024, (long)r_debug_get_allocmem());
 	}
 #endif
diff --git a/rpagrep/unix/rpagrep-main.c b/rpagrep/unix/rpagrep-main.c
index 921ed4d..be1abfe 100644
--- a/rpagrep/unix/rpagrep-main.c
+++ b/rpagrep/unix/rpagrep-main.c
@@ -313,8 +313,9 @@ end:
 
 	if (devnull)
 		fclose(devnull);
+	ret = pGrep->ret;
 	rpa_grep_destroy(pGrep);
-	return pGrep->ret;
+	return ret;
 
 error:
 	if (devnull)
-- 
2.43.0


From 62307d9d2e6468f3670428af78a5cde204f10d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:51 +0000
Subject: [PATCH 16/47] fix: rexcc reports unreadable input, syntax errors and
 failed output with a non-zero exit

---
 rexcc/rexcc.c     | 28 ++++++++++++++--------------
 rexcc/rexccmain.c | 38 +++++++++++++++++++++++++++-----------
 2 files changed, 41 insertions(+), 25 deletions(-)

diff --git a/rexcc/rexcc.c b/rexcc/rexcc.c
index 9e800b1..9f402e6 100644
--- a/rexcc/rexcc.c
+++ b/rexcc/rexcc.c
@@ -475,24 +475,24 @@ int rex_cc_load_buffer(rexcc_t *pCC, rbuffer_t *text)
 	pCC->input = text->s;
 	pCC->end = text->s + text->size;
 	r_array_setlength(pCC->parseinfo, 0);
-	if (rex_cc_parse(pCC) == 0) {
-		for (i = 0; i < r_array_length(pCC->parseinfo); i++) {
-			pi = (struct parseinfo_s *)r_array_slot(pCC->parseinfo, i);
-			if (rex_cc_load_pattern(pCC, &pi->regex, i) < 0) {
-				fprintf(stdout, "Line %d, (%s) Syntax error: ", rex_cc_getlineno(pCC, pi->id.s), "Error");
-				fwrite(pi->id.s, 1, pi->id.size, stdout);
-				fprintf(stdout, "  ");
-				fwrite(pi->regex.s, 1, pi->regex.size, stdout);
-				fprintf(stdout, "\n");
-				return -1;
-			}
-#if 0
+	if (rex_cc_parse(pCC) < 0)
+		return -1;
+	for (i = 0; i < r_array_length(pCC->parseinfo); i++) {
+		pi = (struct parseinfo_s *)r_array_slot(pCC->parseinfo, i);
+		if (rex_cc_load_pattern(pCC, &pi->regex, i) < 0) {
+			fprintf(stdout, "Line %d, (%s) Syntax error: ", rex_cc_getlineno(pCC, pi->id.s), "Error");
 			fwrite(pi->id.s, 1, pi->id.size, stdout);
-			fprintf(stdout, " : ");
+			fprintf(stdout, "  ");
 			fwrite(pi->regex.s, 1, pi->regex.size, stdout);
 			fprintf(stdout, "\n");
-#endif
+			return -1;
 		}
+#if 0
+		fwrite(pi->id.s, 1, pi->id.size, stdout);
+		fprintf(stdout, " : ");
+		fwrite(pi->regex.s, 1, pi->regex.size, stdout);
+		fprintf(stdout, "\n");
+#endif
 	}
 	return 0;
 }
diff --git a/rexcc/rexccmain.c b/rexcc/rexccmain.c
index 2899977..7a4b0d5 100644
--- a/rexcc/rexccmain.c
+++ b/rexcc/rexccmain.c
@@ -165,14 +165,17 @@ int main(int argc, const char *argv[])
 			rbuffer_t *text = rex_buffer_map_file(argv[i]);
 			if (text) {
 				if (rex_cc_load_buffer(pCC, text) < 0) {
-					/*
-					 * Error
-					 */
-				}
-				if (pCC->startuid >= 0) {
+					fprintf(stderr, "Failed to load file: %s\n", argv[i]);
+					ret = 2;
+				} else if (pCC->startuid < 0) {
+					fprintf(stderr, "No tokens in file: %s\n", argv[i]);
+					ret = 2;
+				} else {
 					tempdb = rex_db_createdfa(pCC->nfa, pCC->startuid);
 					pCC->dfa = rex_db_todfa(tempdb, withsubstates);
 					rex_db_destroy(tempdb);
+					if (!pCC->dfa)
+						ret = 2;
 					if (pCC->dfa && !dumponly)
 						rex_cc_output(pCC, cfile);
 					if (dumponly == 3) {
@@ -181,15 +184,20 @@ int main(int argc, const char *argv[])
 				}
 				r_buffer_destroy(text);
 			} else {
-				/*
-				 * Error
-				 */
+				fprintf(stderr, "Failed to read file: %s\n", argv[i]);
+				ret = 2;
 			}
 			break;
 		} else if (argv[i][1] == 'o'){
 			++i;
 		}
 	}
+	if (i >= argc) {
+		fprintf(stderr, "No input file.\n");
+		ret = 2;
+	}
+	if (ret)
+		goto end;
 	if (dumponly == 1) {
 		for (i = 0; i < (int)pCC->dfa->nstates; i++) {
 			rex_dfa_dumpstate(pCC->dfa, i);
@@ -211,16 +219,24 @@ end:
 	}
 	if (devnull)
 		fclose(devnull);
-	if (cfile)
-		fclose(cfile);
+	if (ferror(stdout) || fflush(stdout) != 0)
+		ret = 2;
+	if (cfile && cfile != stdout) {
+		if (ferror(cfile))
+			ret = 2;
+		if (fclose(cfile) != 0)
+			ret = 2;
+	}
 	if (hfile)
 		fclose(hfile);
+	if (ret == 2)
+		fprintf(stderr, "Failed to generate the output.\n");
 	return ret;
 
 error:
 	if (devnull)
 		fclose(devnull);
-	if (cfile)
+	if (cfile && cfile != stdout)
 		fclose(cfile);
 	if (hfile)
 		fclose(hfile);
-- 
2.43.0


From 9c6e18d9fbe634f810f9313e73d9853c4b3ee3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:33 +0000
Subject: [PATCH 17/47] fix: an interrupted read of standard input does not
 discard the input

---
 rexgrep/rexgrep-main.c | 10 +++++++---
 rpagrep/rpagrep.c      | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/rexgrep/rexgrep-main.c b/rexgrep/rexgrep-main.c
index b1d7d28..0f91f8a 100644
--- a/rexgrep/rexgrep-main.c
+++ b/rexgrep/rexgrep-main.c
@@ -23,6 +23,7 @@
 #include <stdlib.h>
 #include <stdio.h>
 #include <time.h>
+#include <errno.h>
 #include "rlib/rmem.h"
 #include "rlib/rarray.h"
 #include "rex/rexdfaconv.h"
@@ -90,9 +91,12 @@ rbuffer_t *grep_buffer_loadfile(FILE *pFile)
 			}
 		}
 		ret = (long)fread(&buf->s[inputsize], 1, memchunk - 1, pFile);
-		if ((ret <= 0) && ferror(pFile)) {
-			r_buffer_destroy(buf);
-			return (void*)0;
+		if (ferror(pFile)) {
+			if (errno != EINTR) {
+				r_buffer_destroy(buf);
+				return (void*)0;
+			}
+			clearerr(pFile);
 		}
 		inputsize += ret;
 		buf->s[inputsize] = '\0';
diff --git a/rpagrep/rpagrep.c b/rpagrep/rpagrep.c
index 85cd361..7bb5b87 100644
--- a/rpagrep/rpagrep.c
+++ b/rpagrep/rpagrep.c
@@ -23,6 +23,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <time.h>
+#include <errno.h>
 
 #include "rpagrep.h"
 #include "rpagreputf.h"
@@ -484,9 +485,12 @@ rpa_buffer_t *rpa_buffer_loadfile(FILE *pFile)
 			}
 		}
 		ret = (long)fread(&buf->s[inputsize], 1, memchunk - 1, pFile);
-		if ((ret <= 0) && ferror(pFile)) {
-			rpa_buffer_destroy(buf);
-			return (void*)0;
+		if (ferror(pFile)) {
+			if (errno != EINTR) {
+				rpa_buffer_destroy(buf);
+				return (void*)0;
+			}
+			clearerr(pFile);
 		}
 		inputsize += ret;
 		buf->s[inputsize] = '\0';
-- 
2.43.0


From ee4bb965d49d665a4b48bdfa83b182ab3bcc8c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:23 +0000
Subject: [PATCH 18/47] fix: rpagrep stays inside its input and its records and
 releases them

---
 rpagrep/rpagrep.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/rpagrep/rpagrep.c b/rpagrep/rpagrep.c
index 7bb5b87..a52aa20 100644
--- a/rpagrep/rpagrep.c
+++ b/rpagrep/rpagrep.c
@@ -240,10 +240,11 @@ void dump_ast_records(rarray_t *records)
 	long i = 0;
 	rparecord_t *prec = NULL;
 
-	prec = (rparecord_t *)r_array_slot(records, i);
-	while (prec->type & (RPA_RECORD_START | RPA_RECORD_END)) {
+	for (i = 0; i < r_array_length(records); i++) {
+		prec = (rparecord_t *)r_array_slot(records, i);
+		if (!(prec->type & (RPA_RECORD_START | RPA_RECORD_END)))
+			break;
 		rpa_record_dump(records, i, 0);
-		prec = (rparecord_t *)r_array_slot(records, ++i);
 	}
 }
 
@@ -258,8 +259,10 @@ int rpa_grep_parse(rpa_grep_t *pGrep, const char* buffer, unsigned long size)
 	const char *input = buffer, *start = buffer, *end = buffer + size;
 
 	hStat = rpa_stat_create(pGrep->hDbex, 0);
-	if (!hStat)
+	if (!hStat) {
+		rpa_records_destroy(records);
 		return -1;
+	}
 	rpa_stat_cachedisable(hStat, pGrep->disablecache);
 	hStat->debug = pGrep->execdebug;
 	ret = rpa_stat_parse(hStat, pGrep->hPattern, pGrep->encoding, input, start, end, records);
@@ -375,13 +378,15 @@ int rpa_grep_scan_lines(rpa_grep_t *pGrep, const char* buffer, unsigned long siz
 	
 again:
 	if (pGrep->encoding == RPA_ENCODING_UTF16LE || pGrep->encoding == RPA_ENCODING_ICASE_UTF16LE) {
-		for (lend = lstart; lend < end; lend += sizeof(unsigned short)) {
+		for (lend = lstart; lend + 1 < end; lend += sizeof(unsigned short)) {
 			if (*((unsigned short*)lend) == L'\n') {
 				++lines;
 				lend += sizeof(unsigned short);
 				break;
 			}
 		}
+		if (lend + 1 == end)
+			lend = end;
 	} else {
 		for (lend = lstart; lend < end; lend += sizeof(unsigned char)) {
 			if (*((unsigned char*)lend) == '\n') {
@@ -391,8 +396,10 @@ again:
 			}
 		}
 	}
-	if (!lines)
+	if (!lines) {
+		rpa_stat_destroy(hStat);
 		return 0;
+	}
 	ret = rpa_stat_scan(hStat, pGrep->hPattern, pGrep->encoding, lstart, lstart, lend, &matched);
 	if (ret > 0) {
 		rpa_grep_matchfound(pGrep);
-- 
2.43.0


From 2b18f53fb2760a86a908f0fdd7f65c7f5391b783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:42 +0000
Subject: [PATCH 19/47] fix: rexgrep reports a failed save and rejects damaged
 automaton files

---
 rexgrep/rexgrep-main.c | 86 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 73 insertions(+), 13 deletions(-)

diff --git a/rexgrep/rexgrep-main.c b/rexgrep/rexgrep-main.c
index 0f91f8a..5da264d 100644
--- a/rexgrep/rexgrep-main.c
+++ b/rexgrep/rexgrep-main.c
@@ -107,6 +107,55 @@ rbuffer_t *grep_buffer_loadfile(FILE *pFile)
 }
 
 
+/*
+ * The size of the file described by the header.
+ */
+static unsigned long long rexgrep_dfa_filesize(const rexdfa_t *dfa)
+{
+	return (unsigned long long)sizeof(*dfa) + (unsigned long long)dfa->nstates * sizeof(rexdfs_t) +
+			(unsigned long long)dfa->ntrans * sizeof(rexdft_t) + (unsigned long long)dfa->naccsubstates * sizeof(rexdfss_t) +
+			(unsigned long long)dfa->nsubstates * sizeof(rexdfss_t) + dfa->hsize;
+}
+
+
+static int rexgrep_dfa_checkheader(const rexdfa_t *dfa, FILE *pfile)
+{
+	long size;
+
+	if (dfa->nstates <= REX_DFA_STARTSTATE || dfa->ntrans == 0)
+		return -1;
+	if (dfa->hbytes != REX_HASH_BYTES || dfa->hbits != REX_HASH_BITS || dfa->hsize != REX_DFA_HASHSIZE(REX_HASH_BYTES, REX_HASH_BITS) >> 3)
+		return -1;
+	if (fseek(pfile, 0, SEEK_END) != 0 || (size = ftell(pfile)) < 0 || fseek(pfile, sizeof(*dfa), SEEK_SET) != 0)
+		return -1;
+	return (rexgrep_dfa_filesize(dfa) == (unsigned long long)size) ? 0 : -1;
+}
+
+
+/*
+ * Check that all offsets stay inside the tables and that every state has a transition for every input.
+ */
+static int rexgrep_dfa_checktables(const rexdfa_t *dfa)
+{
+	unsigned long i;
+
+	for (i = 0; i < dfa->nstates; i++) {
+		const rexdfs_t *s = &dfa->states[i];
+		if (s->ntrans == 0 || s->trans >= dfa->ntrans || s->ntrans > dfa->ntrans - s->trans || dfa->trans[s->trans].lowin != REX_CHAR_MIN)
+			return -1;
+		if (s->accsubstates > dfa->naccsubstates || s->naccsubstates > dfa->naccsubstates - s->accsubstates)
+			return -1;
+		if (s->substates > dfa->nsubstates || s->nsubstates > dfa->nsubstates - s->substates)
+			return -1;
+	}
+	for (i = 0; i < dfa->ntrans; i++) {
+		if (dfa->trans[i].state >= dfa->nstates)
+			return -1;
+	}
+	return 0;
+}
+
+
 #define REXGREP_BINOP_NONE 0
 #define REXGREP_BINOP_READ 1
 #define REXGREP_BINOP_WRITE 2
@@ -238,16 +287,18 @@ int main(int argc, const char *argv[])
 			goto error;
 		}
 		if (fread(&dfa, sizeof(dfa), 1, pfile) != 1)
-			goto error;
+			goto binerror;
+		if (rexgrep_dfa_checkheader(&dfa, pfile) < 0)
+			goto binerror;
 		pGrep->dfa = rex_dfa_create(dfa.nstates, dfa.ntrans, dfa.naccsubstates, dfa.nsubstates);
 		if (fread(pGrep->dfa->states, sizeof(*dfa.states), dfa.nstates, pfile) != dfa.nstates)
-			goto error;
+			goto binerror;
 		if (fread(pGrep->dfa->trans, sizeof(*dfa.trans), dfa.ntrans, pfile) != dfa.ntrans)
-			goto error;
+			goto binerror;
 		if (fread(pGrep->dfa->accsubstates, sizeof(*dfa.accsubstates), dfa.naccsubstates, pfile) != dfa.naccsubstates)
-			goto error;
+			goto binerror;
 		if (fread(pGrep->dfa->substates, sizeof(*dfa.substates), dfa.nsubstates, pfile) != dfa.nsubstates)
-			goto error;
+			goto binerror;
 		pGrep->dfa->hbytes = dfa.hbytes;
 		pGrep->dfa->hbits = dfa.hbits;
 		pGrep->dfa->hsize = dfa.hsize;
@@ -258,7 +309,13 @@ int main(int argc, const char *argv[])
 		if (pGrep->dfa->hsize) {
 			pGrep->dfa->bits = (unsigned char*)r_malloc(pGrep->dfa->hsize);
 			if (fread(pGrep->dfa->bits, 1, dfa.hsize, pfile) != dfa.hsize)
-				goto error;
+				goto binerror;
+		}
+		if (rexgrep_dfa_checktables(pGrep->dfa) < 0) {
+binerror:
+			fprintf(stderr, "Not a valid binary file: %s\n", binfile);
+			fclose(pfile);
+			goto error;
 		}
 		fclose(pfile);
 	}
@@ -298,17 +355,20 @@ int main(int argc, const char *argv[])
 			fprintf(stderr, "Failed to create file: %s\n", binfile);
 			goto error;
 		}
-		fwrite(&dfa, sizeof(dfa), 1, pfile);
+		ret = (fwrite(&dfa, sizeof(dfa), 1, pfile) == 1);
 		dfa.states = pGrep->dfa->states;
 		dfa.trans = pGrep->dfa->trans;
 		dfa.accsubstates = pGrep->dfa->accsubstates;
 		dfa.substates = pGrep->dfa->substates;
-		fwrite(dfa.states, sizeof(*dfa.states), dfa.nstates, pfile);
-		fwrite(dfa.trans, sizeof(*dfa.trans), dfa.ntrans, pfile);
-		fwrite(dfa.accsubstates, sizeof(*dfa.accsubstates), dfa.naccsubstates, pfile);
-		fwrite(dfa.substates, sizeof(*dfa.substates), dfa.nsubstates, pfile);
-		fwrite(dfa.bits, 1, dfa.hsize, pfile);
-		fclose(pfile);
+		ret = ret && fwrite(dfa.states, sizeof(*dfa.states), dfa.nstates, pfile) == dfa.nstates;
+		ret = ret && fwrite(dfa.trans, sizeof(*dfa.trans), dfa.ntrans, pfile) == dfa.ntrans;
+		ret = ret && fwrite(dfa.accsubstates, sizeof(*dfa.accsubstates), dfa.naccsubstates, pfile) == dfa.naccsubstates;
+		ret = ret && fwrite(dfa.substates, sizeof(*dfa.substates), dfa.nsubstates, pfile) == dfa.nsubstates;
+		ret = ret && fwrite(dfa.bits, 1, dfa.hsize, pfile) == dfa.hsize;
+		if (fclose(pfile) != 0 || !ret) {
+			fprintf(stderr, "Failed to write file: %s\n", binfile);
+			goto error;
+		}
 		goto end;
 	}
 	if (!pGrep->dfa && pGrep->usedfa)
-- 
2.43.0


From 405e1b22deced1ce0216b9034aac1ab7b0e16bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 20/47] fix: rexjson.c: value ranges cover exactly the value's
 text

The size of an object or array was taken from the offset of the following
token, so it included trailing white space and, at the end of the buffer,
missed the closing bracket; error offsets of an unrecognised character were
those of the previous token.
---
 rexjson/rexjson.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/rexjson/rexjson.c b/rexjson/rexjson.c
index 89babab..b61e789 100644
--- a/rexjson/rexjson.c
+++ b/rexjson/rexjson.c
@@ -50,6 +50,7 @@ static void rexjson_get_token(rexjson_t *ctx)
 	int size = ctx->bufsize - ctx->offset;
 
 	ctx->token_str = buffer;
+	ctx->token_offset = ctx->offset;
 	ctx->token_size = 0;
 	ctx->token_id = -1;
 	for (i = 0; i < size; i++) {
@@ -68,10 +69,7 @@ static void rexjson_get_token(rexjson_t *ctx)
 			ctx->token_id = (int) acc_ss->userdata;
 		}
 	}
-	if (ctx->token_size > 0) {
-		ctx->token_offset = ctx->offset;
-		ctx->offset += ctx->token_size;
-	}
+	ctx->offset += ctx->token_size;
 }
 
 static void rexjson_next_token(rexjson_t *ctx)
@@ -130,7 +128,7 @@ static ssize_t rexjson_parse_namevalue(rexjson_t* ctx)
 
 static ssize_t rexjson_parse_object(rexjson_t* ctx)
 {
-	size_t cur_offset = ctx->token_offset;
+	size_t cur_offset = ctx->token_offset, end_offset;
 	rexjson_record_t *record = rexjson_record_current(ctx);
 
 	if (rexjson_parse_token(ctx, TOKEN_LEFTCB) < 0)
@@ -145,17 +143,18 @@ static ssize_t rexjson_parse_object(rexjson_t* ctx)
 				return -1;
 		}
 	}
+	end_offset = ctx->token_offset + ctx->token_size;
 	if (rexjson_parse_token(ctx, TOKEN_RIGHTCB) < 0)
 		return -1;
 	record->value = cur_offset;
-	record->valuesize = ctx->token_offset - cur_offset;
+	record->valuesize = end_offset - cur_offset;
 	record->valtype = REXJSON_VALUE_OBJECT;
-	return (ctx->token_offset - cur_offset);
+	return (end_offset - cur_offset);
 }
 
 static ssize_t rexjson_parse_array(rexjson_t* ctx)
 {
-	size_t cur_offset = ctx->token_offset;
+	size_t cur_offset = ctx->token_offset, end_offset;
 	rexjson_record_t *record = rexjson_record_current(ctx);
 
 	if (rexjson_parse_token(ctx, TOKEN_LEFTSB) < 0)
@@ -170,12 +169,13 @@ static ssize_t rexjson_parse_array(rexjson_t* ctx)
 				return -1;
 		}
 	}
+	end_offset = ctx->token_offset + ctx->token_size;
 	if (rexjson_parse_token(ctx, TOKEN_RIGHTSB) < 0)
 		return -1;
 	record->value = cur_offset;
-	record->valuesize = ctx->token_offset - cur_offset;
+	record->valuesize = end_offset - cur_offset;
 	record->valtype = REXJSON_VALUE_ARRAY;
-	return (ctx->token_offset - cur_offset);
+	return (end_offset - cur_offset);
 }
 
 
-- 
2.43.0


From da36796929d9d1794fc660e347ac3c4a4e7f569d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 21/47] fix: rexjson.c: terminate the record list

rexjson_dump_records and rexjson_recordtree_next stop at an unused record;
without one they walked into whatever the caller's array held before.
---
 rexjson/rexjson.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rexjson/rexjson.c b/rexjson/rexjson.c
index b61e789..9c049a7 100644
--- a/rexjson/rexjson.c
+++ b/rexjson/rexjson.c
@@ -333,9 +333,17 @@ void rexjson_dump_records(FILE *file, rexjson_record_t* recs, size_t recsize, co
 
 ssize_t rexjson_parse_buffer(rexjson_t *ctx, rexjson_record_t* recs, size_t recsize, const char* buffer, size_t bufsize, size_t maxlevels)
 {
+	ssize_t ret;
+
 	rexjson_init(ctx, recs, recsize, buffer, bufsize, maxlevels);
 	rexjson_next_token(ctx);
-	return rexjson_parse_value(ctx);
+	ret = rexjson_parse_value(ctx);
+	/*
+	 * Terminate the list, the array may still hold records from its previous use.
+	 */
+	if (ctx->top < ctx->stacksize)
+		memset(&ctx->stack[ctx->top], 0, sizeof(rexjson_record_t));
+	return ret;
 }
 
 static ssize_t rexjson_recordtree_end(rexjson_record_t* recs, size_t recsize, ssize_t rec_index)
-- 
2.43.0


From 52e993e4e2be7c3d67683aea03e0d882990c1675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 22/47] fix: rexjson++: read streams without put-back and
 report failed reads

The reader took characters and gave back the one too many. A stream that
cannot take it back (an unbuffered one, or one at the start of a buffer)
failed there, so a complete document was rejected depending on how it was
delivered. Characters consumed past the last complete token were dropped
silently (1. was read as 1), and a stream failing in a number looked like its
end.
---
 rexjson/rexjson++.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index 247b397..1e6b0e3 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -576,21 +576,30 @@ void input::get_token()
 {
 	rexdfss_t *acc_ss = NULL;
 	rexuint_t nstate = REX_DFA_STARTSTATE;
+	size_t consumed = 0;
 	char ch = 0;
 
 	loctok_.clear();
 	token_.clear();
 	token_id_ = 0;
 	while (is_) {
-		++offset_;
-		ch = is_.get();
+		/*
+		 * Look before consuming. Not every stream can take characters back.
+		 */
+		int next = is_.peek();
+		if (next == std::istream::traits_type::eof()) {
+			if (is_.bad())
+				throw std::runtime_error("Error while reading from the stream");
+			break;
+		}
+		ch = std::istream::traits_type::to_char_type(next);
 		loctok_ += ch;
 		REX_DFA_NEXT(dfa, nstate, ch, &nstate);
-		if (nstate == REX_DFA_DEADSTATE) {
-			is_.unget();
-			--offset_;
+		if (nstate == REX_DFA_DEADSTATE)
 			break;
-		}
+		is_.ignore();
+		++offset_;
+		++consumed;
 		if (ch == '\n') {
 			errline_++;
 			errpos_ = 1;
@@ -607,6 +616,11 @@ void input::get_token()
 			token_ = loctok_;
 		}
 	}
+	/*
+	 * Characters consumed past the token are lost, it isn't followed by what comes next.
+	 */
+	if (consumed > token_.length())
+		token_id_ = 0;
 }
 
 void input::read_steam(value& v, size_t maxlevels)
-- 
2.43.0


From 7062303977a02f48c2f0b86e57d81ec1b5e06195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 23/47] fix: rexjson++: a failed read leaves the value as it
 was

It left the part read before the error, which read_no_throw callers see.
---
 rexjson/rexjson++.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index 1e6b0e3..5266ca5 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -629,9 +629,11 @@ void input::read_steam(value& v, size_t maxlevels)
 	offset_ = 0;
 	errline_ = 1;
 	errpos_ = 1;
-	v.destroy();
+	value result;
 	next_token();
-	parse_value(v);
+	parse_value(result);
+	v.destroy();
+	v.move(result);
 }
 
 void input::next_token()
-- 
2.43.0


From 5f2d526a469f0dd2034420481e9dd8df3f2f1444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 24/47] fix: rexjson++: strings and names survive writing and
 reading

Backslashes, control characters and quotes in names were written unescaped,
so what was written read back differently or not at all.
---
 rexjson/rexjson++.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index 5266ca5..76b9876 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -48,13 +48,12 @@ std::string value::get_typename(unsigned int type)
 	return ret;
 }
 
-static void escape_str_val(const value& v, std::ostream& os)
+static void escape_str(const std::string& s, std::ostream& os)
 {
-	for (std::string::const_iterator it = v.get_str().begin(); it != v.get_str().end(); it++) {
-		if (*it == '\\' && (it + 1) != v.get_str().end()) {
-			os << *it++;
-			os << *it;
-		} else if (*it == '"') {
+	static const char hex[] = "0123456789abcdef";
+
+	for (std::string::const_iterator it = s.begin(); it != s.end(); it++) {
+		if (*it == '\\' || *it == '"') {
 			os << '\\' << *it;
 		} else if (*it == '\b') {
 			os << "\\b";
@@ -66,6 +65,8 @@ static void escape_str_val(const value& v, std::ostream& os)
 			os << "\\r";
 		} else if (*it == '\t') {
 			os << "\\t";
+		} else if (*it >= 0 && *it < 0x20) {
+			os << "\\u00" << hex[*it >> 4] << hex[*it & 0xf];
 		} else {
 			os << *it;
 		}
@@ -495,7 +496,9 @@ void output::write_stream_namevalue(const std::string& n, const value& v, std::o
 	std::string indent(level * tabsize_, ' ');
 	if (pretty_)
 		os << indent;
-	os << '"' << n << '"';
+	os << '"';
+	escape_str(n, os);
+	os << '"';
 	if (pretty_)
 		os << ' ';
 	os << ":";
@@ -532,7 +535,7 @@ void output::write_stream(const value& v, std::ostream& os, size_t level)
 		}
 	} else if (v.value_type_ == str_type) {
 		os << '"';
-		escape_str_val(v, os);
+		escape_str(v.get_str(), os);
 		os << '"';
 	} else if (v.value_type_ == obj_type) {
 		size_t elems = 0;
@@ -661,7 +664,7 @@ void input::parse_name(std::string &str)
 {
 	if (token_id_ != TOKEN_STRING)
 		error_unexpectedtoken();
-	str = (token_.length() > 2) ? token_.substr(1, token_.length() - 2) : std::string();
+	str = (token_.length() > 2) ? unescape_str(token_.substr(1, token_.length() - 2)) : std::string();
 	next_token();
 }
 
-- 
2.43.0


From 902beed4670989792c25d95aef844c891850e08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 25/47] fix: rexjson++: write NaN and negative infinity as null

They were written as nan and -inf, which is not JSON and cannot be read back.
---
 rexjson/rexjson++.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index 76b9876..6da7fe3 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -18,8 +18,8 @@
 
 #include <sstream>
 #include <stdexcept>
+#include <cmath>
 #include <cstdlib>
-#include <limits>
 #include "rexjson++.h"
 #include "rexjsondfa.h"
 
@@ -526,7 +526,7 @@ void output::write_stream(const value& v, std::ostream& os, size_t level)
 	} else if (v.value_type_ == int_type) {
 		os << v.get_int64();
 	} else if (v.value_type_ == real_type) {
-		if (v.get_real() != std::numeric_limits<double>::infinity() && v.get_real() != std::numeric_limits<double>::quiet_NaN()) {
+		if (std::isfinite(v.get_real())) {
 			os.precision(precision_);
 			os.setf(std::ios::fixed, std:: ios::floatfield);
 			os << v.get_real();
-- 
2.43.0


From 267cfb1fe7458a7bbc426aedf541c6a2b5cbcdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 26/47] fix: rpcserver: replies to requests with invalid params
 carry the request's id

---
 rexjsonrpc/rpcserver.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rexjsonrpc/rpcserver.h b/rexjsonrpc/rpcserver.h
index 030a979..3005148 100644
--- a/rexjsonrpc/rpcserver.h
+++ b/rexjsonrpc/rpcserver.h
@@ -420,14 +420,14 @@ public:
 		try {
 			if (val.get_type() != rexjson::obj_type)
 				throw create_rpc_error(RPC_PARSE_ERROR, "top-level object parse error");
+			rexjson::object::const_iterator id_it = val.get_obj().find("id");
+			if (id_it != val.get_obj().end())
+				id = id_it->second;
 			rexjson::object::const_iterator params_it = val.get_obj().find("params");
 			if (params_it != val.get_obj().end() && params_it->second.type() != rexjson::array_type)
 				throw create_rpc_error(RPC_INVALID_REQUEST, "params must be an array");
 			if (params_it != val.get_obj().end())
 				params = params_it->second.get_array();
-			rexjson::object::const_iterator id_it = val.get_obj().find("id");
-			if (id_it != val.get_obj().end())
-				id = id_it->second;
 			rexjson::object::const_iterator method_it = val.get_obj().find("method");
 			if (method_it == val.get_obj().end())
 				throw create_rpc_error(RPC_INVALID_REQUEST, "missing method");
-- 
2.43.0


From d13630fdf5a53525a952b97c86518cc6e60d1e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 27/47] fix: rpcserver: reply with an error whatever type a
 handler throws

---
 rexjsonrpc/rpcserver.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rexjsonrpc/rpcserver.h b/rexjsonrpc/rpcserver.h
index 3005148..7b7b511 100644
--- a/rexjsonrpc/rpcserver.h
+++ b/rexjsonrpc/rpcserver.h
@@ -439,6 +439,8 @@ public:
 			errobj["message"] = e.what();
 			errobj["code"] = RPC_MISC_ERROR;
 			error = errobj;
+		} catch (...) {
+			error = create_rpc_error(RPC_MISC_ERROR, "unknown exception");
 		}
 		ret["result"] = result;
 		ret["id"] = id;
-- 
2.43.0


From 71986e93e6fb55955f4f974294f099e41256d369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 28/47] fix: rexjson++: assignment and move keep values valid

Assignment released the old content and set the new type before allocating
the copy: when the allocation failed the value had a type without content,
and assigning a part of a value to the value itself copied freed memory.
Moving into a value that had content leaked it.
---
 rexjson/rexjson++.cpp | 43 +++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index 6da7fe3..819c223 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -18,6 +18,7 @@
 
 #include <sstream>
 #include <stdexcept>
+#include <utility>
 #include <cmath>
 #include <cstdlib>
 #include "rexjson++.h"
@@ -149,10 +150,15 @@ void value::destroy()
 
 void value::move(value& v)
 {
-	value_type_ = v.value_type_;
-	store_ = v.store_;
-	v.value_type_ = null_type;
-	v.store_.v_null_ = NULL;
+	value tmp;
+
+	/*
+	 * v may be a part of this value, take its content out before releasing the old one.
+	 */
+	std::swap(tmp.value_type_, v.value_type_);
+	std::swap(tmp.store_, v.store_);
+	std::swap(value_type_, tmp.value_type_);
+	std::swap(store_, tmp.store_);
 }
 
 value::value(const value& v)
@@ -346,10 +352,11 @@ void value::check_type(value_type vtype) const
 
 value& value::operator=(const char* v)
 {
+	std::string *tmp = new std::string(v);
+
 	destroy();
-	check_type(null_type);
 	value_type_ = str_type;
-	store_.v_string_ = new std::string(v);
+	store_.v_string_ = tmp;
 	return *this;
 }
 
@@ -417,18 +424,23 @@ value& value::operator=(const array& v)
 
 value& value::operator=(const value& v)
 {
+	value tmp;
+
 	if (&v == this)
 		return *this;
-	destroy();
-	value_type_ = v.value_type_;
-	if (get_type() == str_type)
-		store_.v_string_ = new std::string(*v.store_.v_string_);
-	else if (get_type() == array_type)
-		store_.v_array_ = new array(*v.store_.v_array_);
-	else if (get_type() == obj_type)
-		store_.v_object_ =  new object(*v.store_.v_object_);
+	/*
+	 * Copy first: the copy may fail and v may be a part of this value.
+	 */
+	if (v.get_type() == str_type)
+		tmp.store_.v_string_ = new std::string(*v.store_.v_string_);
+	else if (v.get_type() == array_type)
+		tmp.store_.v_array_ = new array(*v.store_.v_array_);
+	else if (v.get_type() == obj_type)
+		tmp.store_.v_object_ =  new object(*v.store_.v_object_);
 	else
-		store_ = v.store_;
+		tmp.store_ = v.store_;
+	tmp.value_type_ = v.value_type_;
+	move(tmp);
 	return *this;
 }
 
@@ -635,7 +647,6 @@ void input::read_steam(value& v, size_t maxlevels)
 	value result;
 	next_token();
 	parse_value(result);
-	v.destroy();
 	v.move(result);
 }
 
-- 
2.43.0


From 17743a664ed9ca4e4213513ef7265f43e83315fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:07 +0000
Subject: [PATCH 29/47] fix: rexjsonrpc: copying and assigning empty or nested
 properties

---
 rexjsonrpc/property.cpp | 14 ++++++++++----
 rexjsonrpc/property.h   |  2 +-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/rexjsonrpc/property.cpp b/rexjsonrpc/property.cpp
index 2657849..1a39c84 100644
--- a/rexjsonrpc/property.cpp
+++ b/rexjsonrpc/property.cpp
@@ -35,7 +35,7 @@ property::property()
 
 property::property(const property& v)
 {
-	object_ = v.object_->duplicate();
+	object_ = v.object_ ? v.object_->duplicate() : nullptr;
 }
 
 property::property(property&& v)
@@ -73,8 +73,13 @@ property& property::operator[](const std::string& name)
 
 property& property::operator=(const property& v)
 {
-	delete(object_);
-	object_ = v.object_->duplicate();
+	/*
+	 * Copy first: the copy may fail and v may be a part of this property.
+	 */
+	iproperty_object* object = v.object_ ? v.object_->duplicate() : nullptr;
+
+	delete object_;
+	object_ = object;
 	return *this;
 }
 
@@ -98,6 +103,7 @@ rexjson::value property::get_prop()
 
 property_access property::access() const
 {
+	check_object();
 	return object_->access();
 }
 
@@ -107,7 +113,7 @@ void property::enumerate_children(const std::string& path, const enumarate_child
 	object_->enumarate_children(*this, path, callback);
 }
 
-void property::check_object()
+void property::check_object() const
 {
 	if (!object_)
 		throw std::runtime_error("Invalid property");
diff --git a/rexjsonrpc/property.h b/rexjsonrpc/property.h
index 5271f64..f4c34ea 100644
--- a/rexjsonrpc/property.h
+++ b/rexjsonrpc/property.h
@@ -349,7 +349,7 @@ public:
 	rexjson::value get_prop();
 	property_access access() const;
 	void enumerate_children(const std::string& path, const enumarate_children_callback& callback);
-	void check_object();
+	void check_object() const;
 	rexjson::value to_json();
 
 
-- 
2.43.0


From 92d9d7165e2e76acdf109dd9256b2a7199d60226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:07 +0000
Subject: [PATCH 30/47] fix: rexjsonrpc: a failed set leaves a property range
 as it was

---
 rexjsonrpc/property.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/rexjsonrpc/property.h b/rexjsonrpc/property.h
index f4c34ea..d41576f 100644
--- a/rexjsonrpc/property.h
+++ b/rexjsonrpc/property.h
@@ -23,7 +23,9 @@
 #define RPCPROPERTY_H_
 
 #include <assert.h>
+#include <algorithm>
 #include <functional>
+#include <vector>
 #include "rexjson/rexjson++.h"
 
 namespace rexjson {
@@ -282,14 +284,16 @@ public:
 		if ((base::access_ & property_access::writeonly) == 0)
 			throw std::runtime_error("No write access");
 		base::check_hook_(val);
-		size_t i = 0;
 		const rexjson::array& a = val.get_array();
-		for (auto v : a) {
-			if (i >= size_)
-				throw std::range_error("The array of values passed is of bigger size than the property range.");
-			base::set_prop_impl(base::propaddr_ + i, v);
-			++i;
-		}
+		if (a.size() > size_)
+			throw std::range_error("The array of values passed is of bigger size than the property range.");
+		/*
+		 * Convert all of the values first, a bad one must not leave the range partially set.
+		 */
+		std::vector<T> tmp(base::propaddr_, base::propaddr_ + a.size());
+		for (size_t i = 0; i < a.size(); i++)
+			base::set_prop_impl(&tmp[i], a[i]);
+		std::swap_ranges(tmp.begin(), tmp.end(), base::propaddr_);
 		base::modified_hook_(base::ctx_);
 	}
 
-- 
2.43.0


From c8c782d383440c7ec35d4b6801d7042b8f495eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:17 +0000
Subject: [PATCH 31/47] fix: rexjson++: report running out of memory instead of
 truncating strings

---
 rexjson/rexjson++.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index 819c223..75c5db5 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -78,6 +78,7 @@ static std::string unescape_str(const std::string& s)
 {
 	std::ostringstream os;
 
+	os.exceptions(std::ios::badbit);
 	for (std::string::const_iterator it = s.begin(); it < s.end(); it++) {
 		if (*it == '\\' && (it + 1) < s.end() && *(it + 1) == '"') {
 			os << '"';
@@ -315,6 +316,8 @@ array& value::get_array()
 std::string value::to_string() const
 {
 	std::ostringstream os;
+
+	os.exceptions(std::ios::badbit);
 	if (value_type_ == null_type)
 		os << "null";
 	else if (value_type_ == bool_type)
@@ -499,6 +502,8 @@ void output::write(const value& v, std::ostream& os)
 std::string output::write(const value& v)
 {
 	std::stringstream os;
+
+	os.exceptions(std::ios::badbit);
 	write_stream(v, os, 0);
 	return os.str();
 }
-- 
2.43.0


From 296f4b265b76d5a5c5a3b32b0bd719627a1601be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 32/47] fix: rexjsonrpc: a write-only property range can't be
 read

---
 rexjsonrpc/property.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rexjsonrpc/property.h b/rexjsonrpc/property.h
index d41576f..e54f9af 100644
--- a/rexjsonrpc/property.h
+++ b/rexjsonrpc/property.h
@@ -299,6 +299,8 @@ public:
 
 	virtual rexjson::value get_prop() override
 	{
+		if ((base::access_ & property_access::readonly) == 0)
+			throw std::runtime_error("No read access");
 		rexjson::array ret;
 		for (size_t i = 0; i < size_; i++) {
 			ret.push_back(base::get_prop_impl(base::propaddr_ + i));
-- 
2.43.0


From 4ae192bacdff8a8ed6b7c129406d630129b79da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:00 +0000
Subject: [PATCH 33/47] fix: a scan over no input doesn't report the error of
 the operation before

---
 rpa/rpastat.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rpa/rpastat.c b/rpa/rpastat.c
index d105aa7..dbaad65 100644
--- a/rpa/rpastat.c
+++ b/rpa/rpastat.c
@@ -266,6 +266,10 @@ long rpa_stat_scan(rpastat_t *stat, rparule_t rid, unsigned int encoding, const
 		return -1;
 	}
 
+	/*
+	 * There might be no position to execute at.
+	 */
+	r_memset(&stat->err, 0, sizeof(stat->err));
 	stat->userabort = FALSE;
 	while (input < end) {
 		topsiz = rpa_stat_exec_once(stat, exec, offset, encoding, input, start, end, NULL);
-- 
2.43.0


From cdfe5b7a8a0bd1b40f9a1c0d42535ed21fe9c9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:56 +0000
Subject: [PATCH 34/47] fix: a directive has no executable code

---
 rpa/rpadbex.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index a558ad8..ee7e024 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -1999,8 +1999,11 @@ long rpa_dbex_executableoffset(rpadbex_t *dbex, rparule_t rid)
 		RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_NOTCOMPILED);
 		return -1;
 	}
+	/*
+	 * The directives are listed among the rules, but there is no code for them.
+	 */
 	info = (rpa_ruleinfo_t *)r_harray_get(dbex->rules, rid);
-	if (!info) {
+	if (!info || info->type == RPA_RULEINFO_DIRECTIVE) {
 		RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_NOTFOUND);
 		return -1;
 	}
-- 
2.43.0


From 879e144ac0077c02f6d3b38c2054e11b746276e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:47 +0000
Subject: [PATCH 35/47] fix: an entry without code doesn't report the details
 of an earlier error

---
 rpa/rpastat.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rpa/rpastat.c b/rpa/rpastat.c
index dbaad65..06501f4 100644
--- a/rpa/rpastat.c
+++ b/rpa/rpastat.c
@@ -224,7 +224,7 @@ static long rpa_stat_exec_rid(rpastat_t *stat, rparule_t rid, unsigned int encod
 	long first = records ? (long)r_array_length(records) : 0;
 	rvm_asmins_t *exec;
 
-
+	r_memset(&stat->err, 0, sizeof(stat->err));
 	exec = rpa_dbex_executable(stat->dbex);
 	if (!exec) {
 		RPA_STAT_SETERROR_CODE(stat, RPA_E_EXECUTION);
@@ -255,6 +255,10 @@ long rpa_stat_scan(rpastat_t *stat, rparule_t rid, unsigned int encoding, const
 	long offset;
 	rvm_asmins_t *exec;
 
+	/*
+	 * There might be nothing to execute, or no position to execute at.
+	 */
+	r_memset(&stat->err, 0, sizeof(stat->err));
 	exec = rpa_dbex_executable(stat->dbex);
 	if (!exec) {
 		RPA_STAT_SETERROR_CODE(stat, RPA_E_EXECUTION);
@@ -266,10 +270,6 @@ long rpa_stat_scan(rpastat_t *stat, rparule_t rid, unsigned int encoding, const
 		return -1;
 	}
 
-	/*
-	 * There might be no position to execute at.
-	 */
-	r_memset(&stat->err, 0, sizeof(stat->err));
 	stat->userabort = FALSE;
 	while (input < end) {
 		topsiz = rpa_stat_exec_once(stat, exec, offset, encoding, input, start, end, NULL);
-- 
2.43.0


From 82d867af4e2623f90041e22be6b7468f89a415a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:26 +0000
Subject: [PATCH 36/47] fix: dumping states doesn't classify characters outside
 the ctype range

---
 rex/rexdb.c         | 4 ++--
 rex/rexdfa.c        | 4 ++--
 rex/rexdfa.h        | 3 +++
 rex/rextransition.c | 4 ++--
 4 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/rex/rexdb.c b/rex/rexdb.c
index e6c9886..bcc407e 100644
--- a/rex/rexdb.c
+++ b/rex/rexdb.c
@@ -258,12 +258,12 @@ void rex_db_dumpstate(rexdb_t *rexdb, size_t uid)
 		if (t->type == REX_TRANSITION_EMPTY) {
 			fprintf(stdout, "    epsilon -> %ld\n", t->dstuid);
 		} else if (t->lowin != t->highin) {
-			if (isprint(t->lowin) && !isspace(t->lowin) && isprint(t->highin) && !isspace(t->highin))
+			if (REX_CHAR_ISVISIBLE(t->lowin) && REX_CHAR_ISVISIBLE(t->highin))
 				n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "        [%c - %c] ", t->lowin, t->highin);
 			else
 				n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "        [0x%X - 0x%X] ", t->lowin, t->highin);
 		} else {
-			if (isprint(t->lowin) && !isspace(t->lowin))
+			if (REX_CHAR_ISVISIBLE(t->lowin))
 				n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "        '%c' ", t->lowin);
 			else
 				n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "        0x%X ", t->lowin);
diff --git a/rex/rexdfa.c b/rex/rexdfa.c
index 301c839..1695d5c 100644
--- a/rex/rexdfa.c
+++ b/rex/rexdfa.c
@@ -218,12 +218,12 @@ void rex_dfa_dumpstate(rexdfa_t *dfa, rexuint_t nstate)
 		t = &dfa->trans[s->trans + index];
 		n = 0;
 		if (t->lowin != t->highin) {
-			if (isprint(t->lowin) && !isspace(t->lowin) && isprint(t->highin) && !isspace(t->highin) && !r_strchr("[]-^", t->lowin) && !r_strchr("[]-^", t->highin))
+			if (REX_CHAR_ISVISIBLE(t->lowin) && REX_CHAR_ISVISIBLE(t->highin) && !r_strchr("[]-^", t->lowin) && !r_strchr("[]-^", t->highin))
 				n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "    [%c - %c] ", t->lowin, t->highin);
 			else
 				n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "    [0x%X - 0x%X] ", t->lowin, t->highin);
 		} else {
-			if (isprint(t->lowin) && !isspace(t->lowin))
+			if (REX_CHAR_ISVISIBLE(t->lowin))
 				n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "    '%c' ", t->lowin);
 			else
 				n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "    0x%X ", t->lowin);
diff --git a/rex/rexdfa.h b/rex/rexdfa.h
index db7a17e..9fd37d9 100644
--- a/rex/rexdfa.h
+++ b/rex/rexdfa.h
@@ -45,6 +45,9 @@ extern "C" {
 #define REX_BITARRAY_SET(__arr__, __entry__) do { ((unsigned char*)__arr__)[((unsigned int)(__entry__))>>3] |= (1 << (((unsigned int)(__entry__)) & 0x7)); } while (0)
 #define REX_BITARRAY_CLR(__arr__, __entry__) do { ((unsigned char*)__arr__)[((unsigned int)(__entry__))>>3] &= ~(1 << (((unsigned int)(__entry__)) & 0x7)); } while (0)
 
+/* The ctype functions are defined only for the values of an unsigned char */
+#define REX_CHAR_ISVISIBLE(__c__) ((__c__) <= 0xFF && isprint((int)(__c__)) && !isspace((int)(__c__)))
+
 
 rexdfa_t *rex_dfa_create(rexuint_t nstates, rexuint_t ntrans, rexuint_t naccsubstates, rexuint_t nsubstates);
 void rex_dfa_destroy(rexdfa_t *dfa);
diff --git a/rex/rextransition.c b/rex/rextransition.c
index 5d73f7c..58ea7a9 100644
--- a/rex/rextransition.c
+++ b/rex/rextransition.c
@@ -195,12 +195,12 @@ void rex_transitions_dump(rarray_t *trans)
 		if (t->type == REX_TRANSITION_EMPTY) {
 			fprintf(stdout, "    epsilon -> %ld\n", t->dstuid);
 		} else if (t->lowin != t->highin) {
-			if (isprint(t->lowin) && !isspace(t->lowin) && isprint(t->highin) && !isspace(t->highin))
+			if (REX_CHAR_ISVISIBLE(t->lowin) && REX_CHAR_ISVISIBLE(t->highin))
 				n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "        [%c - %c] ", t->lowin, t->highin);
 			else
 				n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "        [0x%X - 0x%X] ", t->lowin, t->highin);
 		} else {
-			if (isprint(t->lowin) && !isspace(t->lowin))
+			if (REX_CHAR_ISVISIBLE(t->lowin))
 				n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "        '%c' ", t->lowin);
 			else
 				n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "        0x%X ", t->lowin);
-- 
2.43.0


From f69253e7e849d126bad828f6d8daa5785d846517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:26 +0000
Subject: [PATCH 37/47] fix: a rule name may have any length

---
 rpa/rpacompiler.c | 23 ++++++++++-------------
 rpa/rpacompiler.h |  2 --
 2 files changed, 10 insertions(+), 15 deletions(-)

diff --git a/rpa/rpacompiler.c b/rpa/rpacompiler.c
index 5fd7847..9c87cee 100644
--- a/rpa/rpacompiler.c
+++ b/rpa/rpacompiler.c
@@ -308,27 +308,24 @@ void rpa_compiler_rulepref_set_s(rpa_compiler_t *co, const char *name, long rule
 }
 
 
-#define RPA_RULEBLOB_SIZE (RPA_RULENAME_MAXSIZE + sizeof(rpa_ruledata_t) + 2*sizeof(unsigned long))
-
 long rpa_compiler_addblob(rpa_compiler_t *co, long ruleid, long ruleuid, unsigned long flags, const char *name, unsigned long namesize)
 {
-	char blob[RPA_RULEBLOB_SIZE];
-	char *ptr;
-	rpa_ruledata_t *pblob = (rpa_ruledata_t *)blob;
+	unsigned long blobsize = sizeof(rpa_ruledata_t) + namesize + 1;
+	rpa_ruledata_t *pblob = (rpa_ruledata_t *)r_zmalloc(blobsize);
+	long dataidx;
 
-	if (namesize >= RPA_RULENAME_MAXSIZE)
+	if (!pblob)
 		return -1;
-	r_memset(pblob, 0, RPA_RULEBLOB_SIZE);
-	ptr = blob + sizeof(rpa_ruledata_t);
-	pblob->name = (unsigned long)(ptr - blob);
+	pblob->name = sizeof(rpa_ruledata_t);
 	pblob->ruleid = ruleid;
 	pblob->ruleuid = ruleuid;
 	pblob->flags = flags;
 	pblob->namesize = namesize;
-	r_strncpy(ptr, name, namesize);
-	ptr += namesize;
-	pblob->size = (long)(ptr - blob + 1);
-	return rvm_codegen_adddata_s(co->cg, NULL, pblob, pblob->size);
+	r_memcpy((char *)pblob + pblob->name, name, namesize);
+	pblob->size = (long)blobsize;
+	dataidx = rvm_codegen_adddata_s(co->cg, NULL, pblob, pblob->size);
+	r_free(pblob);
+	return dataidx;
 }
 
 
diff --git a/rpa/rpacompiler.h b/rpa/rpacompiler.h
index bc3cfea..6e918ef 100644
--- a/rpa/rpacompiler.h
+++ b/rpa/rpacompiler.h
@@ -30,8 +30,6 @@
 extern "C" {
 #endif
 
-#define RPA_RULENAME_MAXSIZE 256
-
 
 #define RPA_COMPILER_CURRENTEXP(__co__) ((rpa_ruledef_t*)r_array_lastslot((__co__)->expressions))
 
-- 
2.43.0


From 279cdf262be8983e88914909212ee776e8f38cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:26 +0000
Subject: [PATCH 38/47] fix: dumping a record handles long rule names and
 checks the index

---
 rpa/rparecord.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rpa/rparecord.c b/rpa/rparecord.c
index ca4d13c..172e257 100644
--- a/rpa/rparecord.c
+++ b/rpa/rparecord.c
@@ -356,7 +356,7 @@ void rpa_record_dump(rarray_t *records, long rec, int wantuserdata)
 	int n = 0, size;
 	char optc = ' ';
 
-	if (rec < 0 || rec >= (long)records->alloc_size)
+	if (rec < 0 || rec >= (long)r_array_length(records))
 		return;
 	prec = (rparecord_t *)r_array_slot(records, rec);
 	if (prec->type & RPA_RECORD_END) {
@@ -384,6 +384,8 @@ void rpa_record_dump(rarray_t *records, long rec, int wantuserdata)
 	if (prec->type & RPA_RECORD_END)
 		n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "END   ");
 	n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "%s ", prec->rule);
+	if (n > bufsize)
+		n = bufsize;
 
 	r_memset(buf + n, ' ', bufsize - n);
 	n = 90;
-- 
2.43.0


From b20164dd1ee887e9265b5e0befffa315bb32ada7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:43 +0000
Subject: [PATCH 39/47] fix: tracing a compilation doesn't need a cpu to name
 the instructions

---
 rvm/rvmcpu.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index 52d39a9..3b0a50c 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -1017,7 +1017,11 @@ int rvm_asm_dump_pi_to_str(rvmcpu_t *vm, rvm_asmins_t *pi, char *str, unsigned i
 		if ((ret = rvm_snprintf(str, sz, "%16s   ", szSwi)) < 0)
 			return ret;
 	} else {
-		if ((ret = rvm_snprintf(str, sz, "%16s   ", vm->ops[pi->opcode].name)) < 0)
+		char szOp[32];
+		r_memset(szOp, 0, sizeof(szOp));
+		if (!vm)
+			rvm_snprintf(szOp, sizeof(szOp) - 1, "OPCODE(%d)", pi->opcode);
+		if ((ret = rvm_snprintf(str, sz, "%16s   ", vm ? vm->ops[pi->opcode].name : szOp)) < 0)
 			return ret;
 	}
 	str += ret;
-- 
2.43.0


From 74b23592e9b8010cb63c08f1949e0ed730ca3f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:44 +0000
Subject: [PATCH 40/47] fix: listing the uids of a database that isn't closed
 leaked a buffer

---
 rpa/rpadbex.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index ee7e024..5690ba1 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -1677,7 +1677,7 @@ int rpa_dbex_dumpuids(rpadbex_t *dbex)
 	unsigned long i;
 	long rec;
 	rpa_ruleinfo_t *info;
-	char *buffer = r_zmalloc(32 * sizeof(char));
+	char *buffer;
 
 	if (!dbex)
 		return -1;
@@ -1685,6 +1685,7 @@ int rpa_dbex_dumpuids(rpadbex_t *dbex)
 		RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_NOTCLOSED);
 		return -1;
 	}
+	buffer = r_zmalloc(32 * sizeof(char));
 	for (i = 0; i < r_array_length(dbex->rules->names); i++) {
 		info = (rpa_ruleinfo_t *)r_harray_get(dbex->rules, i);
 		if (info->type == RPA_RULEINFO_DIRECTIVE) {
-- 
2.43.0


From 27dae8bdb8a31012365116a9f253c0207a7cc043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:50 +0000
Subject: [PATCH 41/47] fix: JSON escapes beyond ASCII were decoded to reversed
 bytes

---
 rexjson/rexjson++.cpp | 46 ++++++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index 75c5db5..af5014b 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -74,6 +74,26 @@ static void escape_str(const std::string& s, std::ostream& os)
 	}
 }
 
+static void put_utf8(unsigned int wc, std::ostream& os)
+{
+	if (wc <= 0x007F) {
+		os << static_cast<char>(wc);
+		return;
+	}
+	if (wc <= 0x07FF) {
+		os << static_cast<char>(0xc0 | (wc >> 6));
+	} else {
+		if (wc <= 0xFFFF) {
+			os << static_cast<char>(0xe0 | (wc >> 12));
+		} else {
+			os << static_cast<char>(0xf0 | (wc >> 18));
+			os << static_cast<char>(0x80 | ((wc >> 12) & 0x3f));
+		}
+		os << static_cast<char>(0x80 | ((wc >> 6) & 0x3f));
+	}
+	os << static_cast<char>(0x80 | (wc & 0x3f));
+}
+
 static std::string unescape_str(const std::string& s)
 {
 	std::ostringstream os;
@@ -107,25 +127,15 @@ static std::string unescape_str(const std::string& s)
 		} else if (*it == '\\' && (it + 5) < s.end() && *(it + 1) == 'u') {
 			std::string ustr(it + 2, it + 6);
 			unsigned int wc = static_cast<unsigned int>(std::strtol(ustr.c_str(), NULL, 16));
-			unsigned int count = 0;
-			if (wc <= 0x007F)
-				count = 1;
-			else if (wc <= 0x07FF)
-				count = 2;
-			else if (wc <= 0xFFFF)
-				count = 3;
-			switch (count) {
-				case 3:
-					os << static_cast<unsigned char>(0x80 | (wc & 0x3f));
-					wc = wc >> 6;
-					wc |= 0x800;
-				case 2:
-					os << static_cast<unsigned char>(0x80 | (wc & 0x3f));
-					wc = wc >> 6;
-					wc |= 0xc0;
-				case 1:
-					os << static_cast<unsigned char>(wc);
+			if ((wc & 0xfc00) == 0xd800 && (it + 11) < s.end() && *(it + 6) == '\\' && *(it + 7) == 'u') {
+				std::string lowstr(it + 8, it + 12);
+				unsigned int low = static_cast<unsigned int>(std::strtol(lowstr.c_str(), NULL, 16));
+				if ((low & 0xfc00) == 0xdc00) {
+					wc = 0x10000 + ((wc & 0x3ff) << 10) + (low & 0x3ff);
+					it += 6;
+				}
 			}
+			put_utf8(wc, os);
 			it += 5;
 		} else if (*it == '\\' && (it + 1) < s.end()) {
 			os << *it++;
-- 
2.43.0


From e6a2f5a6e4709af8ae703caa9cbad1d907cc85e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:59 +0000
Subject: [PATCH 42/47] fix: a group or negation in front of a self-reference
 is not left recursion

---
 rpa/rpadbex.c | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index 5690ba1..271a258 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -1118,6 +1118,39 @@ void rpa_dbex_destroy(rpadbex_t *dbex)
 }
 
 
+/*
+ * Is this element of a sequence always at least one character long? The rules and the alternatives never
+ * match an empty string.
+ */
+static int rpa_parseinfo_consumes(rpadbex_t *dbex, long rec)
+{
+	long i;
+	rparecord_t *prec = (rparecord_t *)r_array_slot(dbex->records, rec);
+
+	if (prec->usertype & RPA_MATCH_OPTIONAL)
+		return 0;
+	switch (prec->ruleuid) {
+	case RPA_PRODUCTION_AREF:
+	case RPA_PRODUCTION_CREF:
+	case RPA_PRODUCTION_CHAR:
+	case RPA_PRODUCTION_CLS:
+	case RPA_PRODUCTION_SPECIALCHAR:
+	case RPA_PRODUCTION_NOTOP:
+	case RPA_PRODUCTION_OROP:
+		return 1;
+	case RPA_PRODUCTION_BRACKETEXP:
+	case RPA_PRODUCTION_ANCHOROP:
+	case RPA_PRODUCTION_MINOP:
+	case RPA_PRODUCTION_REQOP:
+		for (i = rpa_recordtree_firstchild(dbex->records, rec, RPA_RECORD_START); i >= 0; i = rpa_recordtree_next(dbex->records, i, RPA_RECORD_START))
+			if (rpa_parseinfo_consumes(dbex, i))
+				return 1;
+		break;
+	}
+	return 0;
+}
+
+
 static int rpa_parseinfo_loopdetect_do(rpadbex_t *dbex, long parent, long loopto, int inderction)
 {
 	unsigned long namesiz;
@@ -1165,8 +1198,7 @@ static int rpa_parseinfo_loopdetect_do(rpadbex_t *dbex, long parent, long loopto
 				break;
 		}
 
-		if ((prec->usertype & RPA_MATCH_OPTIONAL) == 0 && (prec->ruleuid == RPA_PRODUCTION_CREF || prec->ruleuid == RPA_PRODUCTION_AREF ||
-				prec->ruleuid == RPA_PRODUCTION_CHAR || prec->ruleuid == RPA_PRODUCTION_CLS || prec->ruleuid == RPA_PRODUCTION_SPECIALCHAR))
+		if (prec->ruleuid != RPA_PRODUCTION_REQOP && rpa_parseinfo_consumes(dbex, i))
 			break;
 
 	}
-- 
2.43.0


From f8f257650af861d62f7886429625ed7e6083676f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:58 +0000
Subject: [PATCH 43/47] fix: left recursion continued behind the start of its
 rule

---
 rpa/rpacompiler.c | 4 ++++
 rpa/rpadbex.c     | 2 ++
 rpa/rpavm.h       | 1 +
 3 files changed, 7 insertions(+)

diff --git a/rpa/rpacompiler.c b/rpa/rpacompiler.c
index 9c87cee..2b80448 100644
--- a/rpa/rpacompiler.c
+++ b/rpa/rpacompiler.c
@@ -361,8 +361,10 @@ int rpa_compiler_loop_begin(rpa_compiler_t *co, const char *name, unsigned int n
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_CLR, R3, XX, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_CLR, R0, XX, XX, 0));
 	exp.loopidx = rpa_codegen_add_numlabel_s(co->cg, "__loop", exp.start);
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_PUSH, R_LTP, XX, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_PUSHM, DA, XX, XX, BIT(R_REC)|BIT(R_LOO)|BIT(R_TOP)|BIT(LR)));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_PUSH, R0, XX, XX, 0));
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R_LTP, R_TOP, XX, 0));		// The only place where the loop may continue
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R_LOO, R3, XX, 0));
 	if (exp.rulepref && (exp.rulepref->flags & RPA_RFLAG_EMITRECORD)) {
 		rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BLOB, exp.dataidx, rvm_asm(RPA_EMITSTART, DA, R_TOP, XX, 0));
@@ -385,6 +387,7 @@ int rpa_compiler_loop_end(rpa_compiler_t *co)
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R3, R_LOO, XX, 0));		// Save LOO to R3 before restoring the old one
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, R0, XX, XX, 0));		// Pop the accumulated ret, although ignored here
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_POPM, DA, XX, XX, BIT(R1)|BIT(R_LOO)|BIT(R_OTP)|BIT(LR)));
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, R_LTP, XX, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_SUBS, R0, R_TOP, R_OTP, 0));
 	rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BRANCH, exp.failidx, rvm_asm(RVM_BEQ, DA, XX, XX, 0));	// ------------- R_TOP is the same
 	if (exp.rulepref && (exp.rulepref->flags & RPA_RFLAG_EMITRECORD)) {                                            //       |
@@ -405,6 +408,7 @@ int rpa_compiler_loop_end(rpa_compiler_t *co)
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R3, R_LOO, XX, 0));		// Save LOO to R3 before restoring the old one
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, R0, XX, XX, 0));		// Pop the accumulated ret, use it to save the status for return
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_POPM, DA, XX, XX, BIT(R_REC)|BIT(R_LOO)|BIT(R_TOP)|BIT(LR)));
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, R_LTP, XX, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_CMP, R0, DA, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_BGRE, DA, XX, XX, 3));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOVS, R0, DA, XX, -1));
diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index 271a258..83b37cf 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -976,6 +976,8 @@ static void rpa_dbex_rh_loopref(rpadbex_t *dbex, rparecord_t *prec)
 	 * RPA_MATCH_MULTIPLE
 	 */
 	rpa_compiler_exp_begin(dbex->co, (prec->usertype & RPA_MATCH_OPTIONAL), 0);
+	rvm_codegen_addins(dbex->co->cg, rvm_asm(RVM_CMP, R_TOP, R_LTP, XX, 0));
+	rvm_codegen_addins(dbex->co->cg, rvm_asm(RVM_BNEQ, DA, XX, XX, 3));
 	rvm_codegen_addins(dbex->co->cg, rvm_asm(RVM_CMP, R_LOO, DA, XX, 0));
 	rvm_codegen_addins(dbex->co->cg, rvm_asm(RVM_BGRE, DA, XX, XX, 3));
 	rvm_codegen_addins(dbex->co->cg, rvm_asm(RVM_MOVS, R0, DA, XX, -1));
diff --git a/rpa/rpavm.h b/rpa/rpavm.h
index e120b6d..082af16 100644
--- a/rpa/rpavm.h
+++ b/rpa/rpavm.h
@@ -43,6 +43,7 @@ extern "C" {
 #define RPA_RFLAG_ABORTONFAIL (1 << 2)
 #define RPA_RFLAG_LEFTRECURSION (1<<3)
 
+#define R_LTP (TP - 4)
 #define R_REC (TP - 3)
 #define R_LOO (TP - 2)
 #define R_OTP (TP - 1)
-- 
2.43.0


From 05cfa0514a8ed58111fe1c5fc349be5685e372ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:07 +0000
Subject: [PATCH 44/47] fix: left recursion that does not extend the match
 looped forever

---
 rpa/rpacompiler.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rpa/rpacompiler.c b/rpa/rpacompiler.c
index 2b80448..5f7f0a4 100644
--- a/rpa/rpacompiler.c
+++ b/rpa/rpacompiler.c
@@ -385,7 +385,10 @@ int rpa_compiler_loop_end(rpa_compiler_t *co)
 	rpa_ruledef_t exp = r_array_pop(co->expressions, rpa_ruledef_t);
 
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R3, R_LOO, XX, 0));		// Save LOO to R3 before restoring the old one
-	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, R0, XX, XX, 0));		// Pop the accumulated ret, although ignored here
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, R0, XX, XX, 0));		// Pop the accumulated ret
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_SUB, R1, R_TOP, R_LTP, 0));
+	rvm_codegen_addins(co->cg, rvm_asm(RVM_CMP, R1, R0, XX, 0));
+	rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BRANCH, exp.successidx, rvm_asm(RVM_BLEQ, DA, XX, XX, 0));	// This pass didn't get any further
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_POPM, DA, XX, XX, BIT(R1)|BIT(R_LOO)|BIT(R_OTP)|BIT(LR)));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, R_LTP, XX, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_SUBS, R0, R_TOP, R_OTP, 0));
@@ -407,6 +410,7 @@ int rpa_compiler_loop_end(rpa_compiler_t *co)
 	rvm_codegen_redefinelabel_default(co->cg, exp.endidx);
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R3, R_LOO, XX, 0));		// Save LOO to R3 before restoring the old one
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, R0, XX, XX, 0));		// Pop the accumulated ret, use it to save the status for return
+	rvm_codegen_redefinelabel_default(co->cg, exp.successidx);
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_POPM, DA, XX, XX, BIT(R_REC)|BIT(R_LOO)|BIT(R_TOP)|BIT(LR)));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_POP, R_LTP, XX, XX, 0));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_CMP, R0, DA, XX, 0));
-- 
2.43.0


From b84ae33f2522eb2393300be774dbcb88d7c47a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:26 +0000
Subject: [PATCH 45/47] fix: counts inside of a counted group overwrote its own
 count

Every repetition of the factor is compiled again from its text, which
parses the counts in it into the same fields.
---
 rex/rexcompiler.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index 3f8ac5e..22cca56 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -424,6 +424,7 @@ static int rex_compiler_qfactor(rexcompiler_t *co, rexdb_t *rexdb)
 	const char *fstart, *fend;
 	rexstate_t *srcstate;
 	size_t nstates, i;
+	size_t fromcount, tocount;
 
 	if (strchr("{}*?+]\n\r)", co->token)) {
 		/*
@@ -459,21 +460,26 @@ static int rex_compiler_qfactor(rexcompiler_t *co, rexdb_t *rexdb)
 	case '{':
 		if (rex_compiler_parsecount(co, rexdb) < 0)
 			return -1;
-		if (co->fromcount > co->tocount)
+		/*
+		 * Compiling the factor again overwrites the counts, if there are counts in it.
+		 */
+		fromcount = co->fromcount;
+		tocount = co->tocount;
+		if (fromcount > tocount)
 			return -1;
-		if (co->fromcount == 0 && co->tocount == (size_t)-1) {
+		if (fromcount == 0 && tocount == (size_t)-1) {
 			frag = FPOP(co);
 			frag = rex_fragment_mop(rexdb, frag);
 			FPUSH(co, frag);
 			break;
 		}
-		if (co->fromcount == 1 && co->tocount == (size_t)-1) {
+		if (fromcount == 1 && tocount == (size_t)-1) {
 			frag = FPOP(co);
 			frag = rex_fragment_mul(rexdb, frag);
 			FPUSH(co, frag);
 			break;
 		}
-		if (co->fromcount == 0 && co->tocount == 0) {
+		if (fromcount == 0 && tocount == 0) {
 			/*
 			 * Special case
 			 */
@@ -490,7 +496,7 @@ static int rex_compiler_qfactor(rexcompiler_t *co, rexdb_t *rexdb)
 			FPUSH(co, frag);
 			break;
 		}
-		if (co->fromcount == 0) {
+		if (fromcount == 0) {
 			frag = FPOP(co);
 			frag = rex_fragment_opt(rexdb, frag);
 			FPUSH(co, frag);
@@ -502,21 +508,21 @@ static int rex_compiler_qfactor(rexcompiler_t *co, rexdb_t *rexdb)
 			const char *saved_ptr = co->ptr;
 			const char *saved_tokenptr = co->tokenptr;
 			int saved_token = co->token;
-			for (count = 1; count < co->tocount; count++) {
+			for (count = 1; count < tocount; count++) {
 				co->start = fstart;
 				co->end = fend;
 				co->ptr = fstart;
 				rex_compiler_getnbtok(co);
 				rex_compiler_catexpression(co, rexdb);
 				frag2 = FPOP(co);
-				if (co->tocount == (size_t)-1 && count >= co->fromcount) {
+				if (tocount == (size_t)-1 && count >= fromcount) {
 					frag2 = rex_fragment_mop(rexdb, frag2);
 					frag1 = FPOP(co);
 					frag1 = rex_fragment_cat(rexdb, frag1, frag2);
 					FPUSH(co, frag1);
 					break;
 				}
-				if (count >= co->fromcount) {
+				if (count >= fromcount) {
 					frag2 = rex_fragment_opt(rexdb, frag2);
 				}
 				frag1 = FPOP(co);
-- 
2.43.0


From 87c1f18047d509b06836b0e2e898f2778eb6101b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:36 +0000
Subject: [PATCH 46/47] fix: bitmaps of left recursive rules missed characters

The references on a loop path were left out of the first characters, so
a rule with indirect, optional or grouped left recursion refused inputs
it accepts without the bitmaps. Go over the rules until nothing changes.
---
 rpa/rpabitmap.c   |  2 +-
 rpa/rpadbex.c     | 33 +++++++++++++++++++++++++--------
 rpa/rpadbexpriv.h |  1 +
 3 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/rpa/rpabitmap.c b/rpa/rpabitmap.c
index 0f6eae8..0961e8f 100644
--- a/rpa/rpabitmap.c
+++ b/rpa/rpabitmap.c
@@ -265,7 +265,7 @@ static long rpa_bitmap_set_numrng(rarray_t *records, rparecord_t *record, long r
 static long rpa_bitmap_set_ref(rarray_t *records, rparecord_t *record, long rec, rpointer userdata)
 {
 	rpa_bitmapcompiler_t *bc = (rpa_bitmapcompiler_t*)userdata;
-	if ((record->type & RPA_RECORD_END) && (record->usertype & RPA_LOOP_PATH) == 0) {
+	if (record->type & RPA_RECORD_END) {
 		long child = rpa_recordtree_firstchild(records, rec, RPA_RECORD_END);
 		if (child >= 0) {
 			rparecord_t *childrecord = rpa_record_get(records, child);
diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index 83b37cf..4484b95 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -65,8 +65,6 @@ static void rpa_dbex_buildbitmapinfo_for_rule(rpadbex_t *dbex, rparule_t rid)
 	bc.dbex = dbex;
 	if ((info = (rpa_ruleinfo_t *)r_harray_get(rules, rid)) != NULL) {
 		rpa_rulepref_t *rulepref = rpa_compiler_rulepref_lookup_s(dbex->co, rpa_dbex_name(dbex, rid));
-		rparecord_t *record = rpa_record_get(dbex->records, info->startrec);
-		RPA_BITMAP_SETALL(RPA_RECORD2BITMAP(record));
 		rpa_recordtree_walk(dbex->records, info->startrec, 0, rpa_bitmap_set, (rpointer)&bc);
 		if (rulepref && (rulepref->flags & RPA_RFLAG_ABORTONFAIL))
 			rpa_dbex_bitmapinfo_set_all(dbex, rid);
@@ -80,12 +78,11 @@ ruword rpa_dbex_getrulebitmap(rpadbex_t *dbex, rparule_t rid)
 	rharray_t *rules = dbex->rules;
 	rpa_ruleinfo_t *info;
 
+	if (!dbex->bitmapinfo)
+		rpa_dbex_buildbitmapinfo(dbex);
 	if ((info = (rpa_ruleinfo_t *)r_harray_get(rules, rid)) != NULL) {
 		rparecord_t *record = rpa_record_get(dbex->records, info->startrec);
 		if (record) {
-			if (!RPA_BITMAP_GETVAL(RPA_RECORD2BITMAP(record))) {
-				rpa_dbex_buildbitmapinfo_for_rule(dbex, rid);
-			}
 			bitmap = RPA_BITMAP_GETVAL(RPA_RECORD2BITMAP(record));
 		}
 	}
@@ -108,11 +105,24 @@ static void rpa_dbex_bitmapinfo_set_all(rpadbex_t *dbex, rparule_t rid)
 static void rpa_dbex_buildbitmapinfo(rpadbex_t *dbex)
 {
 	unsigned int i;
+	ruword bitmap;
+	int changed;
 	rharray_t *rules = dbex->rules;
 
-	for (i = 0; i < r_array_length(rules->members); i++) {
-		rpa_dbex_getrulebitmap(dbex, i);
-	}
+	/*
+	 * From here on rpa_dbex_getrulebitmap returns what is known so far. The rules refer to each
+	 * other, so go over them until nothing changes.
+	 */
+	dbex->bitmapinfo = 1;
+	do {
+		changed = 0;
+		for (i = 0; i < r_array_length(rules->members); i++) {
+			bitmap = rpa_dbex_getrulebitmap(dbex, i);
+			rpa_dbex_buildbitmapinfo_for_rule(dbex, i);
+			if (rpa_dbex_getrulebitmap(dbex, i) != bitmap)
+				changed = 1;
+		}
+	} while (changed);
 }
 
 
@@ -1459,6 +1469,7 @@ void rpa_dbex_close(rpadbex_t *dbex)
 		return;
 	rpa_dbex_buildruleinfo(dbex);
 	rpa_dbex_buildloopinfo(dbex);
+	dbex->bitmapinfo = 0;
 //	if (dbex->bitmap)
 //		rpa_dbex_buildbitmapinfo(dbex);
 }
@@ -1956,6 +1967,11 @@ static int rpa_dbex_compile_rule(rpadbex_t *dbex, rparule_t rid)
 		rpa_dbex_getrulebitmap(dbex, rid);
 	if (rpa_dbex_playrecord(dbex, info->startrec) < 0)
 		return -1;
+	/*
+	 * The directives change the bitmaps of the rules
+	 */
+	if (info->type == RPA_RULEINFO_DIRECTIVE)
+		dbex->bitmapinfo = 0;
 	info->codeoff = codeoff;
 	info->codesiz = rvm_codegen_getcodesize(dbex->co->cg) - codeoff;
 	return 0;
@@ -1986,6 +2002,7 @@ int rpa_dbex_compile(rpadbex_t *dbex)
 	 */
 	for (i = 0; i < r_array_length(dbex->records); i++)
 		RPA_BITMAP_SETVAL(RPA_RECORD2BITMAP((rparecord_t *)r_array_slot(dbex->records, i)), 0);
+	dbex->bitmapinfo = 0;
 
 	for (rid = rpa_dbex_first(dbex); rid >= 0; rid = rpa_dbex_next(dbex, rid)) {
 		if (rpa_dbex_compile_rule(dbex, rid) < 0) {
diff --git a/rpa/rpadbexpriv.h b/rpa/rpadbexpriv.h
index 8eadaa7..69ded57 100644
--- a/rpa/rpadbexpriv.h
+++ b/rpa/rpadbexpriv.h
@@ -67,6 +67,7 @@ struct rpadbex_s {
 	unsigned long debug:1;
 	unsigned long compiled:1;
 	unsigned long bitmap:1;
+	unsigned long bitmapinfo:1;
 };
 
 int rpa_record2long(rparecord_t *prec, ruint32 *num);
-- 
2.43.0


From 10daa3f305708c7c3325a220122f7a77370a4b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:47 +0000
Subject: [PATCH 47/47] fix: rules that abort on fail did not abort at the end
 of the input

The bitmap check fails there before the rule is tried.
---
 rpa/rpabitmap.h   | 5 +++++
 rpa/rpacompiler.c | 8 ++++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/rpa/rpabitmap.h b/rpa/rpabitmap.h
index 7bb3efe..4a3fce9 100644
--- a/rpa/rpabitmap.h
+++ b/rpa/rpabitmap.h
@@ -43,6 +43,11 @@ typedef ruword rpabitmap_t;
 #define RPA_BITMAP_ORBITS(__pbmp1__, __pbmp2__) do { *(__pbmp1__) |= *(__pbmp2__); } while (0)
 #define RPA_BITMAP_SETVAL(__pbmp__, __v__) do { *(__pbmp__) = __v__; } while (0)
 #define RPA_BITMAP_GETVAL(__pbmp__) *(__pbmp__)
+/*
+ * Zero means unknown. A bitmap with all bits set must not filter anything, not even the end of the input: the rules
+ * that abort on fail have to be tried there too.
+ */
+#define RPA_BITMAP_FILTERS(__b__) ((__b__) && (__b__) != (rpabitmap_t)-1)
 
 
 //#define RPA_BITMAP_SETBIT(__r__, __b__) do { (__r__)->userdata |= ((ruword)1) << (__b__); } while (0)
diff --git a/rpa/rpacompiler.c b/rpa/rpacompiler.c
index 5f7f0a4..49a605f 100644
--- a/rpa/rpacompiler.c
+++ b/rpa/rpacompiler.c
@@ -446,7 +446,7 @@ int rpa_compiler_rule_begin(rpa_compiler_t *co, const char *name, unsigned int n
 	exp.endidx = rpa_codegen_invalid_add_numlabel_s(co->cg, "__end", exp.start);
 	exp.dataidx = rpa_compiler_addblob(co, ruleid, ruleuid, flags, name, namesize);
 	exp.bitmap = bitmap;
-	if (exp.bitmap) {
+	if (RPA_BITMAP_FILTERS(exp.bitmap)) {
 		rvm_codegen_addins(co->cg, rvm_asm(RPA_MATCHBITMAP, DA, XX, XX, exp.bitmap));
 		rvm_codegen_addins(co->cg, rvm_asm(RVM_BXLES, LR, XX, XX, 0));
 	}
@@ -589,7 +589,7 @@ int rpa_compiler_exp_begin(rpa_compiler_t *co, unsigned int flags, rpabitmap_t b
 	exp.startidx = rpa_codegen_add_numlabel_s(co->cg, "__begin", exp.start);
 	exp.endidx = rpa_codegen_invalid_add_numlabel_s(co->cg, "__end", exp.start);
 	exp.bitmap = bitmap;
-	if (exp.bitmap) {
+	if (RPA_BITMAP_FILTERS(exp.bitmap)) {
 		rvm_codegen_addins(co->cg, rvm_asm(RPA_MATCHBITMAP, DA, XX, XX, exp.bitmap));
 		rvm_codegen_addins(co->cg, rvm_asm(RVM_BXLES, LR, XX, XX, 0));
 	}
@@ -633,7 +633,7 @@ int rpa_compiler_altexp_begin(rpa_compiler_t *co, unsigned int flags, rpabitmap_
 	exp.startidx = rpa_codegen_add_numlabel_s(co->cg, "__begin", exp.start);
 	exp.endidx = rpa_codegen_invalid_add_numlabel_s(co->cg, "__end", exp.start);
 	exp.bitmap = bitmap;
-	if (exp.bitmap) {
+	if (RPA_BITMAP_FILTERS(exp.bitmap)) {
 		rvm_codegen_addins(co->cg, rvm_asm(RPA_MATCHBITMAP, DA, XX, XX, exp.bitmap));
 		rvm_codegen_addins(co->cg, rvm_asm(RVM_BXLES, LR, XX, XX, 0));
 	}
@@ -676,7 +676,7 @@ int rpa_compiler_branch_begin(rpa_compiler_t *co, unsigned int flags, rpabitmap_
 	exp.startidx = rpa_codegen_add_numlabel_s(co->cg, "__begin", exp.start);
 	exp.endidx = rpa_codegen_invalid_add_numlabel_s(co->cg, "__end", exp.start);
 	exp.bitmap = bitmap;
-	if (exp.bitmap) {
+	if (RPA_BITMAP_FILTERS(exp.bitmap)) {
 		rvm_codegen_addins(co->cg, rvm_asm(RPA_MATCHBITMAP, DA, XX, XX, exp.bitmap));
 		rvm_codegen_addins(co->cg, rvm_asm(RVM_BXLES, LR, XX, XX, 0));
 	}
-- 
2.43.0

