From 1259e6d91216e9917ad4ad1ee91a9de41e94244d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:36 +0000
Subject: [PATCH 01/30] fix: avoid signed overflow when writing a 31-bit field
 in setbitu

---
 src/bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bits.c b/src/bits.c
index 3853567..6d0a8d8 100644
--- a/src/bits.c
+++ b/src/bits.c
@@ -179,7 +179,7 @@ void setbitu(u8 *buff, u32 pos, u32 len, u32 data) {
   shift = count - shift;
 
   /* mask of bits to take from 'data' */
-  u32 data_mask = (len == 32 ? ~0 : ((1 << len) - 1));
+  u32 data_mask = (len == 32 ? ~0 : ((UINT32_C(1) << len) - 1));
   /* in case 'data' has more bits than specified in 'len' */
   data &= data_mask;
 
-- 
2.43.0


From 999febc242756c9a8d06e0e09c3124460f24ad35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:22 +0000
Subject: [PATCH 02/30] fix: do not let bit and byte stream bounds checks wrap
 at 32 bits

---
 include/swiftnav/bitstream.h  | 4 ++--
 include/swiftnav/bytestream.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/swiftnav/bitstream.h b/include/swiftnav/bitstream.h
index 1644d4b..5a33363 100644
--- a/include/swiftnav/bitstream.h
+++ b/include/swiftnav/bitstream.h
@@ -26,7 +26,7 @@ typedef struct swiftnav_out_bitstream {
 
 static inline bool swiftnav_in_bitstream_would_overflow(
     const swiftnav_in_bitstream_t *buf, u32 pos, u32 len) {
-  return (buf->offset + pos + len) > buf->len;
+  return ((u64)buf->offset + pos + len) > buf->len;
 }
 
 static inline void swiftnav_in_bitstream_init(swiftnav_in_bitstream_t *buf,
@@ -88,7 +88,7 @@ static inline u32 swiftnav_in_bitstream_remaining(
 
 static inline bool swiftnav_out_bitstream_would_overflow(
     const swiftnav_out_bitstream_t *buf, u32 pos, u32 len) {
-  return (buf->offset + pos + len) > buf->len;
+  return ((u64)buf->offset + pos + len) > buf->len;
 }
 static inline void swiftnav_out_bitstream_init(swiftnav_out_bitstream_t *buf,
                                                uint8_t *data,
diff --git a/include/swiftnav/bytestream.h b/include/swiftnav/bytestream.h
index f2e5648..56fcf2c 100644
--- a/include/swiftnav/bytestream.h
+++ b/include/swiftnav/bytestream.h
@@ -20,7 +20,7 @@ typedef struct swiftnav_bytestream {
 
 static inline bool swiftnav_bytestream_would_overflow(
     const swiftnav_bytestream_t *buf, u32 index, u32 len) {
-  return (buf->offset + index + len) > buf->len;
+  return ((u64)buf->offset + index + len) > buf->len;
 }
 
 static inline void swiftnav_bytestream_init(swiftnav_bytestream_t *buf,
-- 
2.43.0


From 4de67b24736bcb690e494aac103899f383166a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:37 +0000
Subject: [PATCH 03/30] fix: crc24q_bits read one byte past a message of whole
 bytes

---
 src/edc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/edc.c b/src/edc.c
index 79445f6..1485569 100644
--- a/src/edc.c
+++ b/src/edc.c
@@ -109,7 +109,11 @@ u32 crc24q_bits(u32 crc, const u8 *buf, u32 n_bits, bool invert) {
     b = (acc >> shift) & 0xFFu;
     crc = ((crc << 8) & 0xFFFFFFu) ^ crc24qtab[((crc >> 16) ^ b) & 0xFFu];
   }
-  acc = (acc << 8) | *buf;
+  acc = acc << 8;
+  if (n_bits % 8 != 0) {
+    /* the message does not end on a byte boundary */
+    acc |= *buf;
+  }
   if (invert) {
     acc ^= 0xFFu;
   }
-- 
2.43.0


From e327b7478148a3b93e6acc147f619ac691a2bebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:40 +0000
Subject: [PATCH 04/30] fix: remove_element overran its arrays when the element
 is larger than all

---
 src/set.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/set.c b/src/set.c
index eb39851..894f4bb 100644
--- a/src/set.c
+++ b/src/set.c
@@ -226,6 +226,12 @@ u32 remove_element(
    * This element will be removed.
    * If b is larger than all of as, the last element of as will be removed. */
   u32 index = insertion_index(na, sa, as, b, cmp);
+  if (na == 0) {
+    return 0;
+  }
+  if (index == na) {
+    index = na - 1;
+  }
 
   memcpy(a_out, as, index * sa);
   memcpy((char *)a_out + index * sa,
-- 
2.43.0


From cd8c31a079fbf65975390a324ce68b416c5be39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:09 +0000
Subject: [PATCH 05/30] fix: handle NULL callbacks and repeated registration of
 a status report node

---
 src/subsystem_status_report.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/subsystem_status_report.c b/src/subsystem_status_report.c
index 7ed377e..8c293dc 100644
--- a/src/subsystem_status_report.c
+++ b/src/subsystem_status_report.c
@@ -20,17 +20,27 @@ void swiftnav_subsystem_status_report_callback_register(
     swiftnav_subsystem_status_report_callback_node_t* callback_node,
     pfn_subsystem_status_report callback,
     void* context) {
-  callback_node->callback = callback;
-  callback_node->context = context;
-  callback_node->next = NULL;
+  if (callback == NULL) {
+    swiftnav_subsystem_status_report_callback_deregister(callback_node);
+    return;
+  }
 
   swiftnav_subsystem_status_report_callback_node_t* previous = NULL;
   swiftnav_subsystem_status_report_callback_node_t* current =
       root_callback_node;
 
-  for (; current != NULL; previous = current, current = current->next) {
+  for (; current != NULL && current != callback_node;
+       previous = current, current = current->next) {
   }
 
+  callback_node->callback = callback;
+  callback_node->context = context;
+  if (current == callback_node) {
+    /* already registered, its callback has been replaced */
+    return;
+  }
+  callback_node->next = NULL;
+
   if (previous != NULL) {
     previous->next = callback_node;
   } else {
-- 
2.43.0


From 318b9a57bda96db6f8f996de8d58260527a8eafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:13 +0000
Subject: [PATCH 06/30] fix: do not index the signal tables with an invalid
 code or constellation

---
 src/signal.c | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/signal.c b/src/signal.c
index 38478b0..75b04cd 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -918,7 +918,8 @@ static const char *sub_constellation_table[SUB_CONSTELLATION_COUNT] = {
     [SUB_CONSTELLATION_GAL] = "GAL"};
 
 const char *constellation_to_string(const constellation_t cons) {
-  return constellation_table[cons];
+  return constellation_valid(cons) ? constellation_table[cons]
+                                   : "Invalid constellation";
 }
 
 constellation_t constellation_string_to_enum(const char *constellation_string) {
@@ -931,7 +932,8 @@ constellation_t constellation_string_to_enum(const char *constellation_string) {
 }
 
 const char *sub_constellation_to_string(const sub_constellation_t sub_cons) {
-  return sub_constellation_table[sub_cons];
+  const bool valid = (sub_cons >= 0) && (sub_cons < SUB_CONSTELLATION_COUNT);
+  return valid ? sub_constellation_table[sub_cons] : "Invalid constellation";
 }
 
 sub_constellation_t sub_constellation_string_to_enum(
@@ -1149,6 +1151,9 @@ u16 sid_to_code_index(gnss_signal_t sid) {
  * \return Constellation to which sid belongs.
  */
 constellation_t sid_to_constellation(gnss_signal_t sid) {
+  if (!code_valid(sid.code)) {
+    return CONSTELLATION_INVALID;
+  }
   return code_table[sid.code].constellation;
 }
 
@@ -1288,7 +1293,9 @@ bool code_requires_decoder(code_t code) {
   return code_table[code].requires_data_decoder;
 }
 
-const char *code_to_string(const code_t code) { return code_table[code].str; }
+const char *code_to_string(const code_t code) {
+  return code_valid(code) ? code_table[code].str : "Invalid code";
+}
 
 /**
  * Returns number of SV belongs to a constellation
@@ -1333,7 +1340,8 @@ float code_to_phase_alignment(code_t code) {
  * \return  True if this is a GPS signal.
  */
 bool is_gps(const code_t code) {
-  return (CONSTELLATION_GPS == code_table[code].constellation);
+  return code_valid(code) &&
+         (CONSTELLATION_GPS == code_table[code].constellation);
 }
 
 /** Is this an SBAS signal?
@@ -1342,7 +1350,8 @@ bool is_gps(const code_t code) {
  * \return  True if this is an SBAS signal.
  */
 bool is_sbas(const code_t code) {
-  return (CONSTELLATION_SBAS == code_table[code].constellation);
+  return code_valid(code) &&
+         (CONSTELLATION_SBAS == code_table[code].constellation);
 }
 
 /** Is this a GLO signal?
@@ -1351,7 +1360,8 @@ bool is_sbas(const code_t code) {
  * \return  True if this is a GLO signal.
  */
 bool is_glo(const code_t code) {
-  return (CONSTELLATION_GLO == code_table[code].constellation);
+  return code_valid(code) &&
+         (CONSTELLATION_GLO == code_table[code].constellation);
 }
 
 /** Is this a BDS2 signal?
@@ -1360,7 +1370,8 @@ bool is_glo(const code_t code) {
  * \return  True if this is a Beidou generation 2 signal.
  */
 bool is_bds2(const code_t code) {
-  return (CONSTELLATION_BDS == code_table[code].constellation);
+  return code_valid(code) &&
+         (CONSTELLATION_BDS == code_table[code].constellation);
 }
 
 /** Is this a Galileo signal?
@@ -1369,7 +1380,8 @@ bool is_bds2(const code_t code) {
  * \return  True if this is a Galileo signal.
  */
 bool is_gal(const code_t code) {
-  return (CONSTELLATION_GAL == code_table[code].constellation);
+  return code_valid(code) &&
+         (CONSTELLATION_GAL == code_table[code].constellation);
 }
 
 /** Is this a QZSS signal?
@@ -1378,7 +1390,8 @@ bool is_gal(const code_t code) {
  * \return  True if this is a QZSS signal.
  */
 bool is_qzss(const code_t code) {
-  return (CONSTELLATION_QZS == code_table[code].constellation);
+  return code_valid(code) &&
+         (CONSTELLATION_QZS == code_table[code].constellation);
 }
 
 /** Return signal count for a signal code */
-- 
2.43.0


From c857e1262e3ab17e877f908fcaf61d496d7e6e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:30 +0000
Subject: [PATCH 07/30] fix: compute week seconds in time_t so late weeks do
 not overflow int

---
 src/gnss_time.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index 7d59b34..fe6f415 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -50,7 +50,7 @@ bool unix_time_valid(const time_t *t) {
  */
 bool unix_time_valid_with_wn_ref(const time_t *t, u16 wn_ref) {
   return (isfinite((float)*t) && ((*t) >= 0) &&
-          ((*t) > (wn_ref * WEEK_SECS) + GPS_EPOCH));
+          ((*t) > ((time_t)wn_ref * WEEK_SECS) + GPS_EPOCH));
 }
 
 /** Tell whether a `gps_time_t` struct is valid and within current GPS week
@@ -310,7 +310,7 @@ time_t gps2time(const gps_time_t *t_gps) {
 
   time_t t = (time_t)(GPS_EPOCH - get_gps_utc_offset(t_gps, NULL));
 
-  t += WEEK_SECS * t_gps->wn;
+  t += (time_t)WEEK_SECS * t_gps->wn;
   t += (s32)t_gps->tow;
 
   return t;
@@ -326,7 +326,7 @@ gps_time_t time2gps_t(const time_t t_unix) {
   assert(unix_time_valid(&t_unix));
   gps_time_t t_gps;
   t_gps.wn = (s16)((t_unix - GPS_EPOCH) / WEEK_SECS);
-  t_gps.tow = t_unix - GPS_EPOCH - WEEK_SECS * t_gps.wn;
+  t_gps.tow = t_unix - GPS_EPOCH - (time_t)WEEK_SECS * t_gps.wn;
   assert(gps_time_valid(&t_gps));
   return t_gps;
 }
-- 
2.43.0


From 940b35ed9b28bf600ba2cc5d2689bc4db8fcd2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:11 +0000
Subject: [PATCH 08/30] fix: do not loop forever when normalizing a time that
 is infinite or huge

---
 src/gnss_time.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index fe6f415..5c5c878 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -74,6 +74,16 @@ bool gps_current_time_valid_with_wn_ref(const gps_time_t *t, u16 wn_ref) {
   return gps_time_valid(t) && t->wn >= wn_ref && t->wn < (wn_ref + 1023);
 }
 
+/** Tell whether a number of seconds spans few enough weeks that wrapping it one
+ * week at a time terminates with a week number that fits in an s16.
+ *
+ * \param secs number of seconds
+ * \return false if secs is not finite or spans too many weeks
+ */
+static bool seconds_can_be_wrapped(double secs) {
+  return fabs(secs) <= (double)WEEK_SECS * UINT16_MAX;
+}
+
 /** Normalize a `gps_time_t` GPS time struct in place.
  * Ensures that the time of week is greater than zero and less than one week by
  * wrapping and adjusting the week number accordingly.
@@ -82,7 +92,7 @@ bool gps_current_time_valid_with_wn_ref(const gps_time_t *t, u16 wn_ref) {
  * \return true on success, false otherwise
  */
 bool normalize_gps_time_safe(gps_time_t *t) {
-  if (t->wn < WN_UNKNOWN) {
+  if (t->wn < WN_UNKNOWN || !seconds_can_be_wrapped(t->tow)) {
     return false;
   }
 
@@ -124,6 +134,10 @@ void normalize_gps_time(gps_time_t *t) {
  * \param t GPS time struct.
  */
 void unsafe_normalize_gps_time(gps_time_t *t) {
+  if (!seconds_can_be_wrapped(t->tow)) {
+    return;
+  }
+
   while (t->tow < 0) {
     t->tow += WEEK_SECS;
     t->wn -= 1;
@@ -159,6 +173,10 @@ static double sign(double value) {
  * \param dt Time duration struct.
  */
 void normalize_gps_time_duration(gps_time_duration_t *dt) {
+  if (!seconds_can_be_wrapped(dt->seconds)) {
+    return;
+  }
+
   /* For negative durations */
   while (dt->seconds <= -WEEK_SECS) {
     dt->seconds += WEEK_SECS;
-- 
2.43.0


From b6c5eba4420823fb20825a770f7aca3aaf08fe8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:44 +0000
Subject: [PATCH 09/30] fix: no leap second is in progress when the UTC
 parameters announce none

---
 src/gnss_time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index 5c5c878..311eace 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -1098,7 +1098,7 @@ bool is_leap_second_event(const gps_time_t *t, const utc_params_t *p) {
      * the (positive) leap second event */
     double dt = gpsdifftime(t, &p->t_lse);
 
-    if (dt >= 0.0 && dt < 1.0) {
+    if (p->dt_lsf > p->dt_ls && dt >= 0.0 && dt < 1.0) {
       /* time is during the leap second event */
       return true;
     }
-- 
2.43.0


From 021892b2ecb295034ac429af2866cbf201c3e940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:12 +0000
Subject: [PATCH 10/30] fix: rounding no longer puts UTC midnight before the
 leap second event

---
 src/gnss_time.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index 311eace..707b614 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -19,6 +19,9 @@
 #include <swiftnav/constants.h>
 #include <swiftnav/gnss_time.h>
 
+/** Rounding allowance when locating UTC midnight from UTC parameters [s] */
+#define UTC_LEAP_ROUNDING 1e-6
+
 /** \defgroup time Time functions
  * Functions to handle GPS and UTC time values.
  * \{ */
@@ -1062,8 +1065,11 @@ double get_utc_gps_offset(const gps_time_t *utc_time, const utc_params_t *p) {
     /* The polynomial UTC to GPS correction */
     double dt_utc = p->a0 + p->a1 * dt + p->a2 * dt * dt;
 
-    /* the new UTC offset takes effect after the leap second event */
-    if (gpsdifftime(utc_time, &p->t_lse) >= -p->dt_ls - dt_utc) {
+    /* the new UTC offset takes effect after the leap second event, that is at
+     * UTC midnight. Allow for rounding so that midnight itself is never taken to
+     * be before the event. */
+    if (gpsdifftime(utc_time, &p->t_lse) >=
+        -p->dt_ls - dt_utc - UTC_LEAP_ROUNDING) {
       dt_utc += (double)p->dt_lsf;
     } else {
       dt_utc += (double)p->dt_ls;
-- 
2.43.0


From 51fb3a4c4919944024b7d388e2b4f43a52f58e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:32 +0000
Subject: [PATCH 11/30] fix: rounding no longer makes gps2utc abort at a leap
 second from UTC parameters

---
 src/gnss_time.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index 707b614..1d91c42 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -225,6 +225,11 @@ void gps2utc(const gps_time_t *t, utc_tm *u, const utc_params_t *p) {
      * subtract one second from time for now to make the conversion
      * into yyyy/mm/dd HH:MM:SS.sssss format, and add it back later */
     tow_utc = tow_utc - 1;
+
+    /* rounding must not move the time out of the last second of the day */
+    double day_end = DAY_SECS * round(tow_utc / DAY_SECS);
+    tow_utc = fmax(tow_utc, day_end - 1.0);
+    tow_utc = fmin(tow_utc, day_end - 1e-9);
   }
 
   gps_time_t t_u = {.wn = t->wn, .tow = tow_utc};
-- 
2.43.0


From 15e77a6325656ddb1f9e57ba82d13315b16f8c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 12/30] fix: refuse GLONASS day number zero, whose reference
 time cannot be resolved

---
 src/decode_glo.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decode_glo.c b/src/decode_glo.c
index a384346..9d279bb 100644
--- a/src/decode_glo.c
+++ b/src/decode_glo.c
@@ -41,6 +41,7 @@ enum glo_sv_model { SV_GLONASS, SV_GLONASS_M };
 #define GLO_GAMMA_MAX 9.313225746154785e-10 /* 2^(-30)[unitless] */
 #define GLO_TAU_MAX_S 0.001953125           /* 2^(-9)[s] */
 #define GLO_D_TAU_MAX_S 13.97e-9            /* [s] */
+#define GLO_NT_MIN_DAYS 1                   /* [days] */
 #define GLO_NT_MAX_DAYS 1461                /* [days] */
 
 /* ICD L1,L2 GLONASS edition 5.1 2008 Table 4.9 */
@@ -472,7 +473,7 @@ bool decode_glo_string_4(const glo_string_t *string,
 
   /*extract Nt*/
   u16 nt_days = (u16)extract_word_glo(string, 16, 11);
-  if (GLO_NT_MAX_DAYS < nt_days) {
+  if ((nt_days < GLO_NT_MIN_DAYS) || (GLO_NT_MAX_DAYS < nt_days)) {
     log_debug_sid(eph->sid, "GLO-NAV-ERR: nt=%" PRIu16 " days", nt_days);
     return false;
   }
-- 
2.43.0


From d120940582475e687c47615cee522fbe44cc906c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 13/30] fix: forget the previous health of a GLONASS ephemeris
 when decoding a new one

---
 src/ephemeris.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index b872a7e..a73b69a 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -1723,6 +1723,7 @@ void decode_glo_ephemeris(const glo_string_t strings[5],
   eph->toe = GPS_TIME_UNKNOWN;
   eph->sid = sid;
   eph->valid = 0;
+  eph->health_bits = 0;
 
   glo_time_t tk;
   glo_time_t toe;
-- 
2.43.0


From abab7f5e189a2c3918ac55aa61988ec48777b197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:48 +0000
Subject: [PATCH 14/30] fix: signs of two terms of the Kepler orbit
 acceleration

---
 src/ephemeris.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index a73b69a..e36036d 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -446,7 +446,7 @@ static s8 calc_sat_state_kepler(const ephemeris_t *e,
   } while (fabs(ea - ea_old) > 1.0E-14);
 
   double ea_dot = ma_dot / temp;
-  double ea_acc = ea_dot * ea_dot * ecc * sin(ea) / temp;
+  double ea_acc = -ea_dot * ea_dot * ecc * sin(ea) / temp;
 
   /* Begin calc for True Anomaly and Argument of Latitude */
   double temp2 = sqrt(1.0 - ecc * ecc);
@@ -473,7 +473,7 @@ static s8 calc_sat_state_kepler(const ephemeris_t *e,
   /* Calculate the radius correction */
   double dr = (k->crs * sin2al + k->crc * cos2al);
   double dr_dot = 2 * al_dot * (k->crs * cos2al - k->crc * sin2al);
-  double dr_acc = 4 * al_dot_sqr * dr + al_acc / al_dot * dr_dot;
+  double dr_acc = -4 * al_dot_sqr * dr + al_acc / al_dot * dr_dot;
 
   /* Calculate corrected radius based on argument of latitude. */
   double r = a * temp + k->crc * cos2al + k->crs * sin2al;
-- 
2.43.0


From 9e3aff74d52980b04935d5a7e50e6501f0f3f38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:12 +0000
Subject: [PATCH 15/30] fix: velocity and acceleration of BeiDou geostationary
 satellites

---
 src/ephemeris.c | 51 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index e36036d..b6b0bcb 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -543,23 +543,6 @@ static s8 calc_sat_state_kepler(const ephemeris_t *e,
   pos[1] = x * sin(om) + y * cos(inc) * cos(om);
   pos[2] = y * sin(inc);
 
-  /* transform GEO user-defined inertial system to BDCS, similar applies to
-   * velocity and acceleration */
-  if (orbit_type == GEO) {
-    double pos_bds[3];
-    double sin_ome = sin(BDS2_OMEGAE_DOT * dt);
-    double cos_ome = cos(BDS2_OMEGAE_DOT * dt);
-    pos_bds[0] = pos[0] * cos_ome + pos[1] * sin_ome * COS_5 +
-                 pos[2] * sin_ome * (-SIN_5);
-    pos_bds[1] = -pos[0] * sin_ome + pos[1] * cos_ome * COS_5 +
-                 pos[2] * cos_ome * (-SIN_5);
-    pos_bds[2] = -pos[1] * (-SIN_5) + pos[2] * COS_5;
-
-    pos[0] = pos_bds[0];
-    pos[1] = pos_bds[1];
-    pos[2] = pos_bds[2];
-  }
-
   /* Compute the satellite's velocity in Earth-Centered Earth-Fixed
    * coordiates. */
   temp = y_dot * cos(inc) - y * sin(inc) * inc_dot;
@@ -581,6 +564,40 @@ static s8 calc_sat_state_kepler(const ephemeris_t *e,
   acc[2] = sin(inc) * (-y * inc_dot * inc_dot + y_acc) +
            cos(inc) * (y * inc_acc + 2 * inc_dot * y_dot);
 
+  /* transform GEO user-defined inertial system to BDCS, the rotation angle
+   * being a function of time */
+  if (orbit_type == GEO) {
+    double sin_ome = sin(BDS2_OMEGAE_DOT * dt);
+    double cos_ome = cos(BDS2_OMEGAE_DOT * dt);
+
+    /* position, velocity and acceleration tilted by -5 degrees */
+    double p[3] = {pos[0],
+                   pos[1] * COS_5 - pos[2] * SIN_5,
+                   pos[1] * SIN_5 + pos[2] * COS_5};
+    double v[3] = {vel[0],
+                   vel[1] * COS_5 - vel[2] * SIN_5,
+                   vel[1] * SIN_5 + vel[2] * COS_5};
+    double w[3] = {acc[0],
+                   acc[1] * COS_5 - acc[2] * SIN_5,
+                   acc[1] * SIN_5 + acc[2] * COS_5};
+
+    /* express the velocity and acceleration relative to the rotating frame */
+    w[0] += BDS2_OMEGAE_DOT * (2 * v[1] - BDS2_OMEGAE_DOT * p[0]);
+    w[1] += BDS2_OMEGAE_DOT * (-2 * v[0] - BDS2_OMEGAE_DOT * p[1]);
+    v[0] += BDS2_OMEGAE_DOT * p[1];
+    v[1] -= BDS2_OMEGAE_DOT * p[0];
+
+    pos[0] = p[0] * cos_ome + p[1] * sin_ome;
+    pos[1] = -p[0] * sin_ome + p[1] * cos_ome;
+    pos[2] = p[2];
+    vel[0] = v[0] * cos_ome + v[1] * sin_ome;
+    vel[1] = -v[0] * sin_ome + v[1] * cos_ome;
+    vel[2] = v[2];
+    acc[0] = w[0] * cos_ome + w[1] * sin_ome;
+    acc[1] = -w[0] * sin_ome + w[1] * cos_ome;
+    acc[2] = w[2];
+  }
+
   return 0;
 }
 
-- 
2.43.0


From a61d34f85a846d44845bed5ae8332fb23d61b667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:11 +0000
Subject: [PATCH 16/30] fix: out of bounds table read for URA index 16

---
 src/ephemeris.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index b6b0bcb..0cbfa7f 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -1185,7 +1185,7 @@ static const float gps_ura_values[URA_VALUE_TABLE_LEN] = {
  */
 float decode_ura_index(const u8 index) {
   /* Invalid index */
-  if (URA_VALUE_TABLE_LEN < index) {
+  if (URA_VALUE_TABLE_LEN <= index) {
     return INVALID_URA_VALUE;
   }
 
-- 
2.43.0


From 553760eb5a8ee6a4a6e5246f6c2bc64ce0fd7c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:11 +0000
Subject: [PATCH 17/30] fix: overflow when encoding lock times over 49 days

---
 src/nav_meas.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nav_meas.c b/src/nav_meas.c
index 7ce44c8..21137de 100644
--- a/src/nav_meas.c
+++ b/src/nav_meas.c
@@ -148,7 +148,7 @@ u8 encode_lock_time(double nm_lock_time) {
 
   /* Convert to milliseconds */
   u32 ms_lock_time;
-  if (nm_lock_time < UINT32_MAX) {
+  if (nm_lock_time * SECS_MS < UINT32_MAX) {
     ms_lock_time = (u32)(nm_lock_time * SECS_MS);
   } else {
     ms_lock_time = UINT32_MAX;
-- 
2.43.0


From 7203774aa9e3e08506ab55a92ed7c40ea6da6b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:11 +0000
Subject: [PATCH 18/30] fix: lock times of exactly 2^n ms were encoded one step
 too low

---
 src/nav_meas.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nav_meas.c b/src/nav_meas.c
index 21137de..d3689b2 100644
--- a/src/nav_meas.c
+++ b/src/nav_meas.c
@@ -158,7 +158,7 @@ u8 encode_lock_time(double nm_lock_time) {
     return 0;
   }
   for (u8 i = 0; i < 16; i++) {
-    if (ms_lock_time > (1u << (i + 5))) {
+    if (ms_lock_time >= (1u << (i + 5))) {
       continue;
     }
     return i;
-- 
2.43.0


From b31599ad6b9328485e199df33667d9aef190d79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:25 +0000
Subject: [PATCH 19/30] fix: subtract the receiver velocity in calc_sat_doppler

---
 src/ephemeris.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index 0cbfa7f..e15562f 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -825,7 +825,7 @@ s8 calc_sat_doppler(const ephemeris_t *e,
   vector_subtract(3, sat_pos, ref_pos, vec_ref_sat_pos);
 
   /* Find the velocity diff between receiver and satellite. */
-  vector_add(3, sat_vel, ref_vel, vec_ref_sat_vel);
+  vector_subtract(3, sat_vel, ref_vel, vec_ref_sat_vel);
 
   /* Find the satellite - receiver velocity projected on the line of sight
    * vector from the reference position to the satellite. */
-- 
2.43.0


From b7081a0ccd47bc8318be4b786fcde4977a10a8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:52 +0000
Subject: [PATCH 20/30] fix: off-diagonal sums and inverse indexing in
 matrix_atwaiat

---
 src/linear_algebra.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linear_algebra.c b/src/linear_algebra.c
index e2ab958..aef2729 100644
--- a/src/linear_algebra.c
+++ b/src/linear_algebra.c
@@ -720,7 +720,7 @@ inline int matrix_atwaiat(
       } else {
         /* Otherwise, assign both off-diagonal elements at once. */
         for (k = 0; k < n; k++) {
-          c[m * i + j] = c[m * j + i] = w[k] * a[m * k + j] * a[m * k + i];
+          c[m * i + j] += w[k] * a[m * k + j] * a[m * k + i];
         }
         c[m * j + i] = c[m * i + j];
       }
@@ -734,7 +734,7 @@ inline int matrix_atwaiat(
       for (j = 0; j < n; j++) {
         b[n * i + j] = 0;
         for (k = 0; k < m; k++) {
-          b[n * i + j] += inv[n * i + k] * a[m * j + k];
+          b[n * i + j] += inv[m * i + k] * a[m * j + k];
         }
       }
     }
-- 
2.43.0


From 588f3f2ccab620224b810d62bca07d28e8b0ea24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:38 +0000
Subject: [PATCH 21/30] fix: matrix_atawati and matrix_ataati compute the
 least-norm pseudo-inverse for wide matrices

---
 src/linear_algebra.c | 40 +++++++++++++++-------------------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/src/linear_algebra.c b/src/linear_algebra.c
index aef2729..dcbf93f 100644
--- a/src/linear_algebra.c
+++ b/src/linear_algebra.c
@@ -758,7 +758,7 @@ inline int matrix_atwaiat(
  *  \param w            Diagonal vector of weighting matrix
  *  \param b            Output matrix
  *
- *  \return     -1 if n <= m or singular; 0 otherwise
+ *  \return     -1 if n >= m or singular; 0 otherwise
  */
 inline int matrix_atawati(
     u32 n, u32 m, const double *a, const double *w, double *b) {
@@ -767,43 +767,33 @@ inline int matrix_atawati(
   assert(n > 0 && m > 0);
 
   /* Check to make sure we're doing the right operation */
-  if (n <= m) {
+  if (n >= m) {
     return -1;
   }
 
-  LSN_NEW_ARRAY(c, m * m, double);
-  LSN_NEW_ARRAY(inv, m * m, double);
+  LSN_NEW_ARRAY(c, n * n, double);
+  LSN_NEW_ARRAY(inv, n * n, double);
 
-  /* TODO(MP) -- implement! */
   /* The resulting matrix is symmetric, so compute both halves at
    * once */
-  for (i = 0; i < m; i++) {
-    for (j = i; j < m; j++) {
-      c[m * i + j] = 0;
-      if (i == j) {
-        /* If this is a diagonal element, just sum the squares of the
-         * column of A weighted by the weighting vector. */
-        for (k = 0; k < n; k++) {
-          c[m * i + j] += w[k] * a[m * k + j] * a[m * k + j];
-        }
-      } else {
-        /* Otherwise, assign both off-diagonal elements at once. */
-        for (k = 0; k < n; k++) {
-          c[m * i + j] = c[m * j + i] = w[k] * a[m * k + j] * a[m * k + i];
-        }
-        c[m * j + i] = c[m * i + j];
+  for (i = 0; i < n; i++) {
+    for (j = i; j < n; j++) {
+      c[n * i + j] = 0;
+      for (k = 0; k < m; k++) {
+        c[n * i + j] += w[k] * a[m * i + k] * a[m * j + k];
       }
+      c[n * j + i] = c[n * i + j];
     }
   }
 
-  int res = matrix_inverse(m, c, inv);
+  int res = matrix_inverse(n, c, inv);
 
   if (0 == res) {
     for (i = 0; i < m; i++) {
       for (j = 0; j < n; j++) {
         b[n * i + j] = 0;
-        for (k = 0; k < m; k++) {
-          b[n * i + j] += inv[n * i + k] * a[m * j + k];
+        for (k = 0; k < n; k++) {
+          b[n * i + j] += a[m * k + i] * inv[n * k + j];
         }
       }
     }
@@ -853,8 +843,8 @@ inline int matrix_ataiat(u32 n, u32 m, const double *a, double *b) {
 inline int matrix_ataati(u32 n, u32 m, const double *a, double *b) {
   u32 i = 0;
   int res = 0;
-  LSN_NEW_ARRAY(w, n, double);
-  for (i = 0; i < n; i++) {
+  LSN_NEW_ARRAY(w, m, double);
+  for (i = 0; i < m; i++) {
     w[i] = 1;
   }
   res = matrix_atawati(n, m, a, w, b);
-- 
2.43.0


From 24e3f47cb97737621f37cda8865295a6765c77d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:59 +0000
Subject: [PATCH 22/30] fix: apply the BeiDou B1 group delay to every B1C code

Only the B1C data component used TGD1; the pilot and combined codes fell
through to the B2 delay.
---
 src/ephemeris.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index e15562f..2899c24 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -2085,7 +2085,8 @@ s8 get_tgd_correction(const ephemeris_t *eph,
       // As BeiDou CNAV ephemeris is not yet available, use BeiDou B1i group
       // delay for B1C. It is not a perfect way and there may still be a meter
       // level error.
-      if (CODE_BDS2_B1 == sid->code || CODE_BDS3_B1CI == sid->code) {
+      if (CODE_BDS2_B1 == sid->code || CODE_BDS3_B1CI == sid->code ||
+          CODE_BDS3_B1CQ == sid->code || CODE_BDS3_B1CX == sid->code) {
         *tgd = eph->data.kepler.tgd.bds_s[0];
       } else if (CODE_BDS3_B3I == sid->code || CODE_BDS3_B3Q == sid->code ||
                  CODE_BDS3_B3X == sid->code) {
-- 
2.43.0


From 207700feb0d9ea31f56e569e8b38ac6e6b0c2cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:00 +0000
Subject: [PATCH 23/30] fix: compare ephemeris rates finely enough to see one
 broadcast step

ephemeris_equal used an absolute tolerance of 1e-12 for every field, which is
larger than one broadcast step of dn, omegadot, inc_dot, af1, af2, the SBAS
clock drift and the GLONASS gamma (af2 never mattered at all), so ephemerides
that differ only there compared equal.
---
 src/ephemeris.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index 2899c24..55d653f 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -1761,6 +1761,12 @@ void decode_glo_ephemeris(const glo_string_t strings[5],
   eph->source = EPH_SOURCE_GLO_FDMA;
 }
 
+/* The broadcast steps of the rates below are smaller than FLOAT_EQUALITY_EPS,
+ * so these are compared to half the finest step any navigation message uses:
+ * dn, omegadot, inc_dot 2^-44 semi-circles/s, af1 2^-50 s/s, af2 2^-66 s/s^2,
+ * SBAS a_gf1 and GLONASS gamma 2^-40. */
+#define KEPLER_RATE_EQUALITY_EPS (C_1_2P46 * M_PI * 2)
+
 static bool ephemeris_xyz_equal(const ephemeris_xyz_t *a,
                                 const ephemeris_xyz_t *b) {
   return fabs(a->pos[0] - b->pos[0]) < FLOAT_EQUALITY_EPS &&
@@ -1773,7 +1779,7 @@ static bool ephemeris_xyz_equal(const ephemeris_xyz_t *a,
          fabs(a->acc[1] - b->acc[1]) < FLOAT_EQUALITY_EPS &&
          fabs(a->acc[2] - b->acc[2]) < FLOAT_EQUALITY_EPS &&
          fabs(a->a_gf0 - b->a_gf0) < FLOAT_EQUALITY_EPS &&
-         fabs(a->a_gf1 - b->a_gf1) < FLOAT_EQUALITY_EPS;
+         fabs(a->a_gf1 - b->a_gf1) < C_1_2P40 / 2;
 }
 
 static bool ephemeris_kepler_equal(const constellation_t constel,
@@ -1818,25 +1824,25 @@ static bool ephemeris_kepler_equal(const constellation_t constel,
          fabs(a->cus - b->cus) < FLOAT_EQUALITY_EPS &&
          fabs(a->cic - b->cic) < FLOAT_EQUALITY_EPS &&
          fabs(a->cis - b->cis) < FLOAT_EQUALITY_EPS &&
-         fabs(a->dn - b->dn) < FLOAT_EQUALITY_EPS &&
+         fabs(a->dn - b->dn) < KEPLER_RATE_EQUALITY_EPS &&
          fabs(a->m0 - b->m0) < FLOAT_EQUALITY_EPS &&
          fabs(a->ecc - b->ecc) < FLOAT_EQUALITY_EPS &&
          fabs(a->sqrta - b->sqrta) < FLOAT_EQUALITY_EPS &&
          fabs(a->omega0 - b->omega0) < FLOAT_EQUALITY_EPS &&
-         fabs(a->omegadot - b->omegadot) < FLOAT_EQUALITY_EPS &&
+         fabs(a->omegadot - b->omegadot) < KEPLER_RATE_EQUALITY_EPS &&
          fabs(a->w - b->w) < FLOAT_EQUALITY_EPS &&
          fabs(a->inc - b->inc) < FLOAT_EQUALITY_EPS &&
-         fabs(a->inc_dot - b->inc_dot) < FLOAT_EQUALITY_EPS &&
+         fabs(a->inc_dot - b->inc_dot) < KEPLER_RATE_EQUALITY_EPS &&
          fabs(a->af0 - b->af0) < FLOAT_EQUALITY_EPS &&
-         fabs(a->af1 - b->af1) < FLOAT_EQUALITY_EPS &&
-         fabs(a->af2 - b->af2) < FLOAT_EQUALITY_EPS &&
+         fabs(a->af1 - b->af1) < C_1_2P51 &&
+         fabs(a->af2 - b->af2) < C_1_2P66 / 2 &&
          fabs(a->toc.tow - b->toc.tow) < FLOAT_EQUALITY_EPS &&
          a->toc.wn == b->toc.wn && a->iodc == b->iodc && a->iode == b->iode;
 }
 
 static bool ephemeris_glo_equal(const ephemeris_glo_t *a,
                                 const ephemeris_glo_t *b) {
-  return fabs(a->gamma - b->gamma) < FLOAT_EQUALITY_EPS &&
+  return fabs(a->gamma - b->gamma) < C_1_2P40 / 2 &&
          fabs(a->tau - b->tau) < FLOAT_EQUALITY_EPS &&
          fabs(a->d_tau - b->d_tau) < FLOAT_EQUALITY_EPS &&
          fabs(a->pos[0] - b->pos[0]) < FLOAT_EQUALITY_EPS &&
-- 
2.43.0


From 22eb22c127208e8952f7aec27ab7529ea9757957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:18 +0000
Subject: [PATCH 24/30] fix: mark the solution invalid when there are too few
 measurements

The insufficient-measurements path returned before soln->valid was cleared,
so a caller reusing its solution kept the previous valid flag; a stale
velocity_valid survived every failure to converge.
---
 src/single_epoch_solver.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/single_epoch_solver.c b/src/single_epoch_solver.c
index 53c6229..319ab53 100644
--- a/src/single_epoch_solver.c
+++ b/src/single_epoch_solver.c
@@ -1399,6 +1399,11 @@ static s8 calc_PVT_pred_internal(const u8 n_meas,
 
   s8 raim_flag = PVT_CONVERGED_RAIM_OK;
 
+  soln->valid = 0;
+  soln->velocity_valid = 0;
+  soln->n_sats_used = 0;
+  soln->n_sigs_used = 0;
+
   if (n_states > sid_set_get_sat_count(&sids_used)) {
     raim_flag = PVT_INSUFFICENT_MEAS;
   }
@@ -1408,10 +1413,6 @@ static s8 calc_PVT_pred_internal(const u8 n_meas,
   lsq_data_t lsq_data;
 
   if (raim_flag >= PVT_CONVERGED_RAIM_OK) {
-    soln->valid = 0;
-    soln->n_sats_used = 0;
-    soln->n_sigs_used = 0;
-
     /* Set up the working data for LSQ iterations */
     assert(MAX_CHANNELS >= n_processed_meas_used);
 
-- 
2.43.0


From b4bcec3c30d90ea86cceeb23649a03447f0270cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:39 +0000
Subject: [PATCH 25/30] fix: report no velocity when measured Dopplers are
 missing

With velocity requested and a measurement carrying only a computed Doppler,
the velocity solver gave up but the solution was still marked velocity_valid,
its covariance came from uninitialised memory and the residual check used
uninitialised Doppler residuals. The drift variance was uninitialised too
whenever velocity was disabled.
---
 src/single_epoch_solver.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/single_epoch_solver.c b/src/single_epoch_solver.c
index 319ab53..d083e9a 100644
--- a/src/single_epoch_solver.c
+++ b/src/single_epoch_solver.c
@@ -1335,7 +1335,7 @@ static s8 calc_PVT_pred_internal(const u8 n_meas,
                                  const navigation_measurement_t **nav_meas,
                                  const gps_time_t *tor,
                                  const bool disable_raim,
-                                 const bool disable_velocity,
+                                 bool disable_velocity,
                                  const obs_mask_config_t *obs_mask_config,
                                  sat_sel_predicate pred,
                                  gnss_solution *soln,
@@ -1395,6 +1395,12 @@ static s8 calc_PVT_pred_internal(const u8 n_meas,
       assert(
           "SPP velocity requested but not all measurements have valid Doppler");
     }
+
+    /* the velocity solver needs the measured Doppler of every signal */
+    if (!(processed_nav_meas_ptrs[i]->flags &
+          NAV_MEAS_FLAG_MEAS_DOPPLER_VALID)) {
+      disable_velocity = true;
+    }
   }
 
   s8 raim_flag = PVT_CONVERGED_RAIM_OK;
@@ -1411,6 +1417,7 @@ static s8 calc_PVT_pred_internal(const u8 n_meas,
   gnss_sid_set_t removed_sids;
   sid_set_init(&removed_sids);
   lsq_data_t lsq_data;
+  memset(&lsq_data, 0, sizeof(lsq_data));
 
   if (raim_flag >= PVT_CONVERGED_RAIM_OK) {
     /* Set up the working data for LSQ iterations */
-- 
2.43.0


From e3a2e3370b9a57ad9bc72e648cc07fd6f5af9402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:35 +0000
Subject: [PATCH 26/30] fix: refuse singular geometries in the position solver

With five or more unknowns an undetected singular system gave a correction of
NaN, which passed for a converged one, and an undefined GDOP passed the GDOP
limit, so a valid solution full of NaN was reported (or the time normalisation
asserted).
---
 src/single_epoch_solver.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/single_epoch_solver.c b/src/single_epoch_solver.c
index d083e9a..4733fc1 100644
--- a/src/single_epoch_solver.c
+++ b/src/single_epoch_solver.c
@@ -543,6 +543,12 @@ static s8 pvt_solve(const u8 n_used,
     return -1;
   }
 
+  /* A singular geometry that the solver did not notice gives no correction */
+  if (!isfinite(vector_norm(n_states, correction))) {
+    log_warn("Singular system, n_used = %u", n_used);
+    return -1;
+  }
+
   /* Increment the state estimate by the new corrections */
   for (u8 i = 0; i < n_states; i++) {
     lsq_data->rx_state[i] += correction[i];
@@ -589,8 +595,8 @@ static s8 pvt_solve(const u8 n_used,
 }
 
 static s8 filter_solution(gnss_solution *soln, dops_t *dops) {
-  if (dops->gdop > 20.0) {
-    /* GDOP is too high to yield a good solution. */
+  if (!(dops->gdop <= 20.0)) {
+    /* GDOP is too high, or undefined, to yield a good solution. */
     return PVT_PDOP_TOO_HIGH;
   }
 
-- 
2.43.0


From 2ad75e986f8af6369bf9075c1da6c6be27f2601c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:29 +0000
Subject: [PATCH 27/30] fix: glo2gps converts the days after the non-leap year
 2100 one day early

The day number within the four-year cycle was split into years assuming a leap
year at the start of every cycle, which gps2glo does not assume.
---
 src/gnss_time.c | 25 +++++--------------------
 1 file changed, 5 insertions(+), 20 deletions(-)

diff --git a/src/gnss_time.c b/src/gnss_time.c
index 1d91c42..c9b4a1d 100644
--- a/src/gnss_time.c
+++ b/src/gnss_time.c
@@ -543,8 +543,6 @@ u16 gps_adjust_week_cycle256(u16 wn_raw, u16 wn_ref) {
  */
 
 gps_time_t glo2gps(const glo_time_t *glo_t, const utc_params_t *utc_params) {
-  u8 year_of_cycle = 0;
-  u16 day_of_year = 0;
   u32 glo_year = 0;
   gps_time_t gps_t = GPS_TIME_UNKNOWN;
 
@@ -552,29 +550,16 @@ gps_time_t glo2gps(const glo_time_t *glo_t, const utc_params_t *utc_params) {
     return GPS_TIME_UNKNOWN;
   }
 
-  if (glo_t->nt < GLO_NT_0_FLOOR) {
-    return GPS_TIME_UNKNOWN;
-  }
-  if (glo_t->nt <= GLO_NT_0_CEILING) {
-    year_of_cycle = 1;
-    day_of_year = glo_t->nt;
-  } else if (glo_t->nt <= GLO_NT_1_CEILING) {
-    year_of_cycle = 2;
-    day_of_year = glo_t->nt - LEAP_YEAR_DAYS;
-  } else if (glo_t->nt <= GLO_NT_2_CEILING) {
-    year_of_cycle = 3;
-    day_of_year = glo_t->nt - LEAP_YEAR_DAYS - YEAR_DAYS;
-  } else if (glo_t->nt <= GLO_NT_3_CEILING) {
-    year_of_cycle = 4;
-    day_of_year = glo_t->nt - LEAP_YEAR_DAYS - YEAR_DAYS * 2;
-  } else {
+  if (glo_t->nt < GLO_NT_0_FLOOR || glo_t->nt > GLO_NT_3_CEILING) {
     return GPS_TIME_UNKNOWN;
   }
 
-  glo_year = GLO_EPOCH_YEAR + 4 * (glo_t->n4 - 1) + (year_of_cycle - 1);
+  /* the day number counts from the start of the four-year cycle, whose first
+   * year need not be a leap year (2100) */
+  glo_year = GLO_EPOCH_YEAR + 4 * (glo_t->n4 - 1);
 
   /* Calculate days since GPS epoch */
-  s64 days_gps_epoch = YEAR_1980_GPS_DAYS + day_of_year - 1;
+  s64 days_gps_epoch = YEAR_1980_GPS_DAYS + glo_t->nt - 1;
   u32 y = GPS_EPOCH_YEAR;
   while (++y < glo_year) {
     days_gps_epoch += is_leap_year(y) ? LEAP_YEAR_DAYS : YEAR_DAYS;
-- 
2.43.0


From 94dc555f064998ea850202e15d5d31bd54262a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:25 +0000
Subject: [PATCH 28/30] fix: report failure when a satellite state is not
 finite

---
 src/ephemeris.c | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index 55d653f..7b61bec 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -679,6 +679,19 @@ s8 calc_sat_state_orbit_type(const ephemeris_t *e,
       e, t, orbit_type, pos, vel, acc, clock_err, clock_rate_err);
 }
 
+static bool sat_state_finite(const double pos[3],
+                             const double vel[3],
+                             const double acc[3],
+                             double clock_err,
+                             double clock_rate_err) {
+  for (u8 i = 0; i < 3; i++) {
+    if (!isfinite(pos[i]) || !isfinite(vel[i]) || !isfinite(acc[i])) {
+      return false;
+    }
+  }
+  return isfinite(clock_err) && isfinite(clock_rate_err);
+}
+
 /** Calculate satellite position, velocity and clock offset from ephemeris
  * without ephemeris validity check.
  *
@@ -714,23 +727,36 @@ s8 calc_sat_state_n(const ephemeris_t *e,
   assert(clock_rate_err != NULL);
   assert(e != NULL);
 
+  s8 ret = -1;
   switch (sid_to_constellation(e->sid)) {
     case CONSTELLATION_GPS:
     case CONSTELLATION_BDS:
     case CONSTELLATION_GAL:
     case CONSTELLATION_QZS:
-      return calc_sat_state_kepler(
+      ret = calc_sat_state_kepler(
           e, t, orbit_type, pos, vel, acc, clock_err, clock_rate_err);
+      break;
     case CONSTELLATION_SBAS:
-      return calc_sat_state_xyz(e, t, pos, vel, acc, clock_err, clock_rate_err);
+      ret = calc_sat_state_xyz(e, t, pos, vel, acc, clock_err, clock_rate_err);
+      break;
     case CONSTELLATION_GLO:
-      return calc_sat_state_glo(e, t, pos, vel, acc, clock_err, clock_rate_err);
+      ret = calc_sat_state_glo(e, t, pos, vel, acc, clock_err, clock_rate_err);
+      break;
     case CONSTELLATION_INVALID:
     case CONSTELLATION_COUNT:
     default:
       assert(!"Unsupported constellation");
       return -1;
   }
+
+  /* An orbit through the center of the Earth, e.g. from an all-zero navigation
+   * message, has no usable state */
+  if (ret == 0 &&
+      !sat_state_finite(pos, vel, acc, *clock_err, *clock_rate_err)) {
+    return -1;
+  }
+
+  return ret;
 }
 
 /** Calculate the azimuth and elevation of a satellite from a reference
-- 
2.43.0


From d6c3ef33ec446d8a10f3a7b18604d69fb2415102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 29/30] fix: count the BeiDou time of ephemeris within the BDT
 week

A BeiDou ephemeris whose time of ephemeris is in the last 14 s of the BDT
week has a GPS time of week below 14 s, which made the satellite position
wrong by 7.02 revolutions, i.e. thousands of kilometres.
---
 src/ephemeris.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ephemeris.c b/src/ephemeris.c
index 7b61bec..adfcae9 100644
--- a/src/ephemeris.c
+++ b/src/ephemeris.c
@@ -511,6 +511,7 @@ static s8 calc_sat_state_kepler(const ephemeris_t *e,
   /* Corrected longitude of ascenting node. */
   double om_dot;
   double om;
+  double toe_sow;
   switch (sid_to_constellation(e->sid)) {
     case CONSTELLATION_GPS:
     case CONSTELLATION_QZS:
@@ -524,8 +525,13 @@ static s8 calc_sat_state_kepler(const ephemeris_t *e,
       } else {
         om_dot = k->omegadot - BDS2_OMEGAE_DOT;
       }
-      om = k->omega0 + dt * om_dot -
-           BDS2_OMEGAE_DOT * (e->toe.tow - BDS_SECOND_TO_GPS_SECOND);
+      /* Time of ephemeris in seconds of the BDT week, which starts 14 seconds
+       * after the GPS week */
+      toe_sow = e->toe.tow - BDS_SECOND_TO_GPS_SECOND;
+      if (toe_sow < 0) {
+        toe_sow += WEEK_SECS;
+      }
+      om = k->omega0 + dt * om_dot - BDS2_OMEGAE_DOT * toe_sow;
       break;
     case CONSTELLATION_SBAS:
     case CONSTELLATION_GLO:
-- 
2.43.0


From 0edad9170429bbd179438fdc6b758cdcc5567838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:17 +0000
Subject: [PATCH 30/30] fix: define the QZSS L2CL code period that two macros
 use

---
 include/swiftnav/constants.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/swiftnav/constants.h b/include/swiftnav/constants.h
index 72b200f..b59057f 100644
--- a/include/swiftnav/constants.h
+++ b/include/swiftnav/constants.h
@@ -624,6 +624,9 @@ extern "C" {
 /** QZSS L1 C/A pseudosymbol length [ms] */
 #define QZS_L1CA_PSYMBOL_LENGTH_MS 1
 
+/** QZSS L2 CL PRN period in ms */
+#define QZS_L2CL_PRN_PERIOD_MS 1500
+
 /** QZSS L2 CL PRN start interval in ms */
 #define QZS_L2CL_PRN_START_INTERVAL_MS 20
 
-- 
2.43.0

