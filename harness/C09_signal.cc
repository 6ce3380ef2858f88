/* C09: signal identity, ordering, hashing and naming.
 * MC-lang: cxx
 * MC-flavours: san opt
 * MC-END
 */
#include "mc.h"
extern "C" {
#include <swiftnav/glo_map.h>
}
#include <swiftnav/signal.h>

/* signal definitions: name, constellation, carrier in units of 1.023 MHz (0:
 * GLONASS, by channel), chips, chip rate in 1.023 MHz, direct acquisition,
 * code period ms, largest satellite Doppler Hz, phase alignment cycles, needs
 * a decoder, number of signals */
struct def { const char *name; int cons; double freq; unsigned chips; double rate; int acq; unsigned per; double dop; double ph; int dec; unsigned nsig; };
static const def T[] = {
    {"GPS L1CA", 0, 1540, 1023, 1, 1, 1, 4200, 0, 1, 32},
    {"GPS L2CM", 0, 1200, 20460, 1, 0, 20, 3272.7273, -0.25, 1, 32},
    {"SBAS L1", 1, 1540, 1023, 1, 1, 1, 210, 0, 1, 19},
    {"GLO L1OF", 2, 0, 511, 0.511 / 1.023, 1, 1, 4820, 0, 1, 14},
    {"GLO L2OF", 2, 0, 511, 0.511 / 1.023, 0, 1, 3748.8889, 0, 1, 14},
    {"GPS L1P", 0, 1540, 0, 0, 0, 0, 4200, 0.25, 0, 32},
    {"GPS L2P", 0, 1200, 0, 0, 0, 0, 3272.7273, 0, 0, 32},
    {"GPS L2CL", 0, 1200, 1534500, 1, 0, 1500, 3272.7273, -0.25, 0, 32},
    {"GPS L2C", 0, 1200, 0, 0, 0, 0, 3272.7273, -0.25, 0, 32},
    {"GPS L5I", 0, 1150, 10230, 10, 0, 1, 3136.3635, 0, 0, 32},
    {"GPS L5Q", 0, 1150, 0, 0, 0, 0, 3136.3635, -0.25, 0, 32},
    {"GPS L5", 0, 1150, 0, 0, 0, 0, 3136.3635, 0, 0, 32},
    {"BDS B1", 3, 1526, 2046, 2, 1, 1, 4200, 0, 1, 64},
    {"BDS B2", 3, 1180, 2046, 2, 0, 1, 3247.7065, 0, 1, 64},
    {"GAL E1B", 5, 1540, 4092, 1, 1, 4, 4000, 0, 1, 36},
    {"GAL E1C", 5, 1540, 0, 0, 0, 0, 4000, 0.5, 0, 36},
    {"GAL E1", 5, 1540, 0, 0, 0, 0, 4000, 0, 0, 36},
    {"GAL E6B", 5, 1250, 5115, 5, 0, 1, 3246.7532, 0, 1, 36},
    {"GAL E6C", 5, 1250, 0, 0, 0, 0, 3246.7532, -0.5, 0, 36},
    {"GAL E6", 5, 1250, 0, 0, 0, 0, 3246.7532, 0, 0, 36},
    {"GAL E5bI", 5, 1180, 10230, 10, 0, 1, 3064.9351, 0, 1, 36},
    {"GAL E5bQ", 5, 1180, 0, 0, 0, 0, 3064.9351, -0.25, 0, 36},
    {"GAL E5b", 5, 1180, 0, 0, 0, 0, 3064.9351, 0, 0, 36},
    {"GAL E8I", 5, 1165, 0, 0, 0, 0, 3025.9741, 0, 0, 36},
    {"GAL E8Q", 5, 1165, 0, 0, 0, 0, 3025.9741, -0.25, 0, 36},
    {"GAL E8", 5, 1165, 0, 0, 0, 0, 3025.9741, 0, 0, 36},
    {"GAL E5aI", 5, 1150, 10230, 10, 0, 1, 2987.0129, 0, 1, 36},
    {"GAL E5aQ", 5, 1150, 0, 0, 0, 0, 2987.0129, -0.25, 0, 36},
    {"GAL E5a", 5, 1150, 0, 0, 0, 0, 2987.0129, 0, 0, 36},
    {"GLO L1P", 2, 0, 0, 0, 0, 0, 4820, 0.25, 0, 14},
    {"GLO L2P", 2, 0, 0, 0, 0, 0, 3748.8889, 0.25, 0, 14},
    {"QZS L1CA", 4, 1540, 1023, 1, 1, 1, 1200, 0, 1, 10},
    {"QZS L1CI", 4, 1540, 10230, 1, 0, 10, 4200, 0, 0, 10},
    {"QZS L1CQ", 4, 1540, 0, 0, 0, 0, 4200, 0.25, 0, 10},
    {"QZS L1CX", 4, 1540, 0, 0, 0, 0, 4200, 0.25, 0, 10},
    {"QZS L2CM", 4, 1200, 20460, 1, 0, 20, 935.0649, 0, 0, 10},
    {"QZS L2CL", 4, 1200, 1534500, 1, 0, 1500, 935.0649, 0, 0, 10},
    {"QZS L2C", 4, 1200, 0, 0, 0, 0, 935.0649, 0, 0, 10},
    {"QZS L5I", 4, 1150, 10230, 10, 0, 1, 896.1039, 0, 0, 10},
    {"QZS L5Q", 4, 1150, 0, 0, 0, 0, 896.1039, -0.25, 0, 10},
    {"QZS L5", 4, 1150, 0, 0, 0, 0, 896.1039, 0, 0, 10},
    {"SBAS L5I", 1, 1150, 10230, 10, 0, 1, 156.8182, 0, 1, 19},
    {"SBAS L5Q", 1, 1150, 10230, 10, 0, 1, 156.8182, -0.25, 0, 19},
    {"SBAS L5", 1, 1150, 10230, 10, 0, 1, 156.8182, 0, 0, 19},
    {"BDS3 B1CI", 3, 1540, 10230, 1, 0, 10, 4200, 0, 0, 64},
    {"BDS3 B1CQ", 3, 1540, 0, 0, 0, 0, 4200, 0, 0, 64},
    {"BDS3 B1C", 3, 1540, 0, 0, 0, 0, 4200, 0, 0, 64},
    {"BDS3 B5I", 3, 1150, 10230, 10, 0, 1, 3165.1377, 0, 0, 64},
    {"BDS3 B5Q", 3, 1150, 0, 0, 0, 0, 3165.1377, 0, 0, 64},
    {"BDS3 B5", 3, 1150, 0, 0, 0, 0, 3165.1377, 0, 0, 64},
    {"BDS3 B7I", 3, 1180, 10230, 10, 0, 1, 3247.7065, 0, 0, 64},
    {"BDS3 B7Q", 3, 1180, 0, 0, 0, 0, 3247.7065, -0.25, 0, 64},
    {"BDS3 B7", 3, 1180, 10230, 10, 0, 1, 3247.7065, 0, 0, 64},
    {"BDS3 B3I", 3, 1240, 10230, 10, 0, 1, 3412.844, 0, 0, 64},
    {"BDS3 B3Q", 3, 1240, 0, 0, 0, 0, 3412.844, -0.25, 0, 64},
    {"BDS3 B3", 3, 1240, 0, 0, 0, 0, 3412.844, 0, 0, 64},
    {"GPS L1CI", 0, 1540, 10230, 1, 0, 10, 4200, 0.25, 0, 32},
    {"GPS L1CQ", 0, 1540, 0, 0, 0, 0, 4200, 0.25, 0, 32},
    {"GPS L1C", 0, 1540, 0, 0, 0, 0, 4200, 0.25, 0, 32},
    {"GPS AUX", 0, 1540, 1023, 1, 0, 1, 4200, 0, 0, 32},
    {"SBAS AUX", 1, 1540, 1023, 1, 0, 1, 210, 0, 0, 19},
    {"GAL AUX", 5, 1540, 4092, 1, 0, 4, 4000, 0, 0, 36},
    {"QZS AUX", 4, 1540, 1023, 1, 0, 1, 1200, 0, 0, 10},
    {"BDS AUX", 3, 1526, 2046, 2, 0, 1, 4200, 0, 0, 64},
};
static const struct { char ch; const char *str; int first, n, l1, l5; } K[6] = {
    {'G', "GPS", 1, 32, CODE_GPS_L1CA, CODE_GPS_L5I}, {'S', "SBAS", 120, 19, CODE_SBAS_L1CA, CODE_INVALID},
    {'R', "GLO", 1, 28, CODE_GLO_L1OF, CODE_INVALID}, {'C', "BDS", 1, 64, CODE_BDS2_B1, CODE_BDS3_B5I},
    {'J', "QZS", 193, 10, CODE_QZS_L1CA, CODE_QZS_L5I}, {'E', "GAL", 1, 36, CODE_GAL_E1B, CODE_GAL_E5I}};
static gnss_signal_t SID(int code, int sat) { return construct_sid((code_t)code, (u16)sat); }

static void codes(void) {
  for (int c = 0; c < CODE_COUNT; c++) {
    if (!mc_mine()) continue;
    MC_POINT("code %d", c);
    const def &d = T[c];
    code_t code = (code_t)c;
    MC_CHECK(sizeof T / sizeof T[0] == CODE_COUNT, "count", "number of codes changed");
    MC_CHECK(code_valid(code), "code-valid", "code not valid");
    MC_CHECK(!strcmp(code_to_string(code), d.name), "name", "code name %s", code_to_string(code));
    MC_CHECK(code_string_to_enum(d.name) == code, "name-back", "code of %s is %d", d.name, code_string_to_enum(d.name));
    MC_CHECK(code_to_constellation(code) == d.cons, "constellation", "constellation %d", code_to_constellation(code));
    MC_CHECK(is_gps(code) == (d.cons == 0) && is_sbas(code) == (d.cons == 1) && is_glo(code) == (d.cons == 2) && is_bds2(code) == (d.cons == 3) &&
                 is_qzss(code) == (d.cons == 4) && is_gal(code) == (d.cons == 5), "classify", "classification predicates disagree");
    MC_CHECK(code_to_chip_count(code) == d.chips && mc_close(code_to_chip_rate(code), d.rate * 1.023e6, 1e-3, 0) && code_to_prn_period_ms(code) == d.per,
             "chips", "chips %u rate %g period %u", code_to_chip_count(code), code_to_chip_rate(code), code_to_prn_period_ms(code));
    MC_CHECK(mc_close(d.chips, code_to_chip_rate(code) * code_to_prn_period_ms(code) * 1e-3, 1e-6, 0), "chip-period", "chips per period inconsistent");
    MC_CHECK(code_requires_direct_acq(code) == (d.acq != 0) && code_requires_decoder(code) == (d.dec != 0), "requires", "acquisition/decoder flags");
    MC_CHECK(mc_close(code_to_sv_doppler_max(code), d.dop, 1e-3, 1e-6) && code_to_sv_doppler_min(code) == -code_to_sv_doppler_max(code), "doppler", "Doppler range %g", code_to_sv_doppler_max(code));
    MC_CHECK(mc_close(code_to_phase_alignment(code), d.ph, 1e-9, 0), "phase", "phase alignment %g", code_to_phase_alignment(code));
    MC_CHECK(code_to_sig_count(code) == d.nsig, "sigcount", "signal count %u", code_to_sig_count(code));
    MC_CHECK(constellation_to_sat_count(code_to_constellation(code)) == K[d.cons].n, "satcount", "satellite count");
    mc_calls(20);
    for (int s = 0; s < 65536; s++) {
      MC_POINT("code %d satellite %d", c, s);
      gnss_signal_t sid = SID(c, s);
      int idx = s - K[d.cons].first;
      bool v = idx >= 0 && idx < K[d.cons].n;
      MC_CHECK(sid.code == code && sid.sat == s, "construct", "construct_sid");
      MC_CHECK(sid_valid(sid) == v, "valid", "validity, expected %d", v);
      MC_CHECK(sid_to_constellation(sid) == d.cons, "sid-constellation", "constellation of the id");
      MC_CHECK(sid_hash(sid) == ((uint32_t)d.cons << 24 | (uint32_t)c << 16 | (uint32_t)s), "hash", "hash %x", sid_hash(sid));
      if (v) {
        MC_CHECK(sid_to_code_index(sid) == idx, "index", "code index %u", sid_to_code_index(sid));
        gnss_signal_t b = sid_from_code_index(code, (u16)idx);
        MC_CHECK(b.code == code && b.sat == s && sid_is_equal(b, sid), "index-back", "id from index");
        MC_CHECK(sid_to_l1_code(sid) == K[d.cons].l1 && sid_to_l5_code(sid) == K[d.cons].l5, "l1l5", "L1/L5 code");
        mc_calls(4);
        if (d.freq > 0) {
          MC_CHECK(mc_close(sid_to_carr_freq(sid), d.freq * 1.023e6, 1e-3, 0), "freq", "carrier %.3f", sid_to_carr_freq(sid));
          MC_CHECK(mc_close(sid_to_lambda(sid), 299792458. / (d.freq * 1.023e6), 1e-12, 0), "lambda", "wavelength %.12f", sid_to_lambda(sid));
        } else
          for (u16 f = 1; f <= 14; f++) {
            glo_map_set_slot_id(f, (u16)s);
            bool l1 = c == CODE_GLO_L1OF || c == CODE_GLO_L1P, fdma = c == CODE_GLO_L1OF || c == CODE_GLO_L2OF;
            double hz = (l1 ? 1602e6 : 1246e6) + (fdma ? (f - 8) * (l1 ? 562500. : 437500.) : 0);
            MC_CHECK(mc_close(sid_to_carr_freq(sid), hz, 1e-3, 0), "freq-glo", "carrier %.3f channel %d", sid_to_carr_freq(sid), f - 8);
            MC_CHECK(mc_close(sid_to_lambda(sid), 299792458. / hz, 1e-12, 0), "lambda-glo", "wavelength channel %d", f - 8);
          }
      }
      mc_calls(4);
    }
    mc_outcome((uint64_t)c);
  }
}
static void names(void) {
  char want[64];
  for (int c = -3; c <= CODE_COUNT + 2; c++) {
    if (!mc_mine()) continue;
    bool v = c >= 0 && c < CODE_COUNT;
    for (int s = 0; s < 65536; s++) {
      MC_POINT("string of code %d satellite %d", c, s);
      const char *nm = v ? T[c].name : "?";
      snprintf(want, sizeof want, "%s %d", nm, s);
      if (strlen(want) >= SID_STR_LEN_MAX) continue;
      char *buf = (char *)malloc(SID_STR_LEN_MAX);
      memset(buf, 'x', SID_STR_LEN_MAX);
      int n = sid_to_string(buf, SID_STR_LEN_MAX, SID(c, s));
      MC_CHECK(n == (int)strlen(want) && memchr(buf, 0, SID_STR_LEN_MAX) && !strcmp(buf, want), "string", "got %.16s", buf);
      free(buf);
      /* longer suffixes */
      snprintf(want, sizeof want, "%s%s%d", nm, " ab", s);
      if (strlen(want) < SID_STR_LEN_MAX && s < 300) {
        char *b2 = (char *)malloc(strlen(want) + 1);
        n = sat_code_to_string(b2, 3, " ab", (u16)s, (code_t)c);
        MC_CHECK(n == (int)strlen(want) && !memcmp(b2, want, (size_t)n + 1), "string-suffix", "wrong string");
        free(b2);
      }
      mc_calls(1);
    }
    mc_outcome((uint64_t)(c + 5));
  }
  /* names: every table string, every one-character mutation and truncation */
  static const char *sub[] = {"GPS", "SBAS", "GLO", "BDS2", "BDS3", "QZS", "GAL"};
  static const int subc[] = {0, 1, 2, 3, 3, 4, 5};
  static const char *cn[] = {"GPS", "SBAS", "GLO", "BDS", "QZS", "GAL"};
  const char *all[96];
  int na = 0;
  for (int i = 0; i < CODE_COUNT; i++) all[na++] = T[i].name;
  for (int i = 0; i < 7; i++) all[na++] = sub[i];
  for (int i = 0; i < 6; i++) all[na++] = cn[i];
  all[na++] = "";
  all[na++] = "Invalid code";
  for (int i = 0; i < na; i++) {
    if (!mc_mine()) continue;
    for (int pos = -1; pos <= (int)strlen(all[i]); pos++)
      for (int mod = 0; mod < 6; mod++) {
        char b[64];
        strcpy(b, all[i]);
        int l = (int)strlen(b);
        if (pos >= 0) {
          if (mod == 0) b[pos] = 0;
          else if (mod == 1 && pos < l) b[pos] ^= 0x20;
          else if (mod == 2 && pos < l) b[pos]++;
          else if (mod == 3) memmove(b + pos + 1, b + pos, (size_t)(l - pos) + 1), b[pos] = ' ';
          else if (mod == 4 && pos < l) memmove(b + pos, b + pos + 1, (size_t)(l - pos));
          else if (mod == 5 && pos + 1 < l) { char t = b[pos]; b[pos] = b[pos + 1]; b[pos + 1] = t; }
          else continue;
        } else if (mod) continue;
        char *e = strdup(b); /* exact allocation: no read past the terminator */
        MC_POINT("name %d edit %d at %d", i, mod, pos);
        int wc = CODE_INVALID, wk = CONSTELLATION_INVALID, ws = SUB_CONSTELLATION_INVALID;
        for (int j = CODE_COUNT - 1; j >= 0; j--)
          if (!strcmp(b, T[j].name)) wc = j;
        for (int j = 0; j < 6; j++)
          if (!strcmp(b, cn[j])) wk = j;
        for (int j = 0; j < 7; j++)
          if (!strcmp(b, sub[j])) ws = j;
        MC_CHECK(code_string_to_enum(e) == wc, "code-parse", "\"%s\" parsed as code %d", b, code_string_to_enum(e));
        MC_CHECK(constellation_string_to_enum(e) == wk, "cons-parse", "\"%s\" parsed as constellation %d", b, constellation_string_to_enum(e));
        MC_CHECK(sub_constellation_string_to_enum(e) == ws, "sub-parse", "\"%s\" parsed as sub constellation %d", b, sub_constellation_string_to_enum(e));
        free(e);
        mc_calls(3);
      }
  }
  if (!mc_mine()) return;
  for (int k = -2; k < 8; k++) {
    MC_POINT("constellation %d", k);
    bool v = k >= 0 && k < 6;
    MC_CHECK(constellation_valid((constellation_t)k) == v, "cons-valid", "validity");
    const char *s = constellation_to_string((constellation_t)k), *t = sub_constellation_to_string((sub_constellation_t)k);
    MC_CHECK(s && t && strlen(s) < 64 && strlen(t) < 64, "cons-name", "no name");
    if (v) MC_CHECK(!strcmp(s, cn[k]), "cons-name", "name %s", s);
    else MC_CHECK(constellation_string_to_enum(s) == CONSTELLATION_INVALID, "cons-bad-name", "an invalid constellation has the name %s", s);
    if (k >= 0 && k < 7) {
      MC_CHECK(!strcmp(t, sub[k]), "sub-name", "name %s", t);
      MC_CHECK(sub_constellation_to_constellation((sub_constellation_t)k) == subc[k], "sub-cons", "constellation of a sub constellation");
    } else
      MC_CHECK(sub_constellation_string_to_enum(t) == SUB_CONSTELLATION_INVALID, "sub-bad-name", "an invalid sub constellation has the name %s", t);
    MC_CHECK(constellation_to_l1_code((constellation_t)k) == (v ? K[k].l1 : CODE_INVALID), "l1", "L1 code");
    MC_CHECK(constellation_to_l5_code((constellation_t)k) == (v ? K[k].l5 : CODE_INVALID), "l5", "L5 code");
    MC_CHECK(constellation_to_char((constellation_t)k) == (v ? K[k].ch : '?'), "char", "letter");
  }
  for (int ch = -128; ch < 256; ch++) {
    MC_POINT("letter %d", ch);
    int w = CONSTELLATION_INVALID;
    for (int k = 0; k < 6; k++)
      if ((char)ch == K[k].ch) w = k;
    MC_CHECK(char_to_constellation((char)ch) == w, "char-back", "constellation of a letter");
  }
}
static void invalid(void) {
  static const int bad[] = {-1, -2, -128, CODE_COUNT, CODE_COUNT + 1, 100, 127};
  for (int i = 0; i < 7; i++)
    for (int s = 0; s < 256; s++) {
      if (!mc_mine()) continue;
      code_t c = (code_t)bad[i];
      MC_POINT("invalid code %d satellite %d", bad[i], s);
      MC_CHECK(!code_valid(c) && !sid_valid(SID(c, s)), "inv-valid", "an invalid code is valid");
      MC_CHECK(!is_gps(c) && !is_sbas(c) && !is_glo(c) && !is_bds2(c) && !is_gal(c) && !is_qzss(c), "inv-class", "an invalid code is classified");
      MC_CHECK(sid_to_constellation(SID(c, s)) == CONSTELLATION_INVALID, "inv-cons", "constellation of an invalid code");
      MC_CHECK(sid_to_l1_code(SID(c, s)) == CODE_INVALID && sid_to_l5_code(SID(c, s)) == CODE_INVALID, "inv-l1", "L1/L5 code of an invalid code");
      const char *n = code_to_string(c);
      MC_CHECK(n && strlen(n) < 64 && code_string_to_enum(n) == CODE_INVALID, "inv-name", "name of an invalid code");
      for (int k = 0; k < CODE_COUNT; k++)
        for (int t = 0; t < 256; t++)
          MC_CHECK(!sid_is_equal(SID(c, s), SID(k, t)) && SID(c, s) != SID(k, t), "inv-equal", "equal to code %d satellite %d", k, t);
      MC_CHECK(sid_is_equal(SID(c, s), SID(c, s)), "inv-self", "not equal to itself");
      mc_calls(12);
    }
}
static void order(void) {
  /* ids: all codes with satellites around every range edge and 16 bit edges */
  static const int sats[] = {0, 1, 2, 32, 33, 64, 120, 138, 193, 202, 255, 256, 257, 32767, 32768, 65535};
  enum { N = CODE_COUNT * 16 };
  static gnss_signal_t v[N];
  for (int i = 0; i < N; i++) v[i] = SID(i / 16, sats[i % 16]);
  for (int i = 0; i < N; i++) {
    if (!mc_mine()) continue;
    for (int j = 0; j < N; j++) {
      MC_POINT("order of code %d sat %d and code %d sat %d", v[i].code, v[i].sat, v[j].code, v[j].sat);
      int ci = T[v[i].code].cons, cj = T[v[j].code].cons;
      int w = ci != cj ? (ci < cj ? -1 : 1) : v[i].code != v[j].code ? (v[i].code < v[j].code ? -1 : 1) : v[i].sat != v[j].sat ? (v[i].sat < v[j].sat ? -1 : 1) : 0;
      int r = sid_compare(v[i], v[j]), q = cmp_sid_sid(&v[i], &v[j]);
      MC_CHECK((r > 0) - (r < 0) == w, "compare", "comparison %d, expected %d", r, w);
      MC_CHECK((q > 0) - (q < 0) == w, "compare-ptr", "comparison %d, expected %d", q, w);
      MC_CHECK(sid_is_equal(v[i], v[j]) == (w == 0), "equal", "equality");
      MC_CHECK((v[i] == v[j]) == (w == 0) && (v[i] != v[j]) == (w != 0) && (v[i] < v[j]) == (w < 0) && (v[i] > v[j]) == (w > 0) &&
                   (v[i] <= v[j]) == (w <= 0) && (v[i] >= v[j]) == (w >= 0), "operators", "operators disagree with the order");
      MC_CHECK((sid_hash(v[i]) == sid_hash(v[j])) == (w == 0), "hash-distinct", "hash collision");
      mc_calls(10);
    }
    mc_outcome((uint64_t)i);
  }
}
static void sbas(void) {
  static const int prn[4][3] = {{131, 133, 138}, {123, 126, 136}, {127, 128, 0}, {129, 137, 0}};
  for (int c = 0; c < CODE_COUNT; c++) {
    if (T[c].cons != 1 || !mc_mine()) continue;
    for (int s = 120; s < 139; s++) {
      MC_POINT("SBAS system of code %d satellite %d", c, s);
      int w = SBAS_NONE;
      for (int k = 0; k < 4; k++)
        for (int i = 0; i < 3; i++)
          if (prn[k][i] == s) w = k;
      MC_CHECK(get_sbas_system(SID(c, s)) == w, "sbas", "system %d, expected %d", get_sbas_system(SID(c, s)), w);
      mc_calls(1);
    }
    for (int k = 0; k < 4; k++) {
      MC_POINT("SBAS satellites of system %d", k);
      const u8 *l = get_sbas_prn_list((sbas_system_t)k);
      for (int i = 0; i < 3; i++) MC_CHECK(l[i] == prn[k][i], "sbas-list", "satellite %d", l[i]);
    }
  }
}
MC_SPACES({"codes", "every code x every 16 bit satellite number: properties, validity, index maps, frequency (all 14 GLONASS channels), hash", codes, 0},
          {"names", "every code (and out-of-range ones) x every satellite number to string; every name, truncation and one-character edit parsed", names, 0},
          {"invalid", "out-of-range codes x 256 satellites, compared with every code x 256 satellites", invalid, 0},
          {"order", "every pair of 1024 ids (all codes x 16 edge satellite numbers)", order, 0},
          {"sbas", "every SBAS code x every valid satellite", sbas, 0})
