"""Source of properties.jsonl and MANIFEST.json (see gen.py).

P(id, title, statement, over, text, why, files, mech, technique, note)
"""
PROPS = []
NOT_CLAIMED = {}


def P(id, title, statement, over, text, why, files, mech, technique, note):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=statement, over=over,
                      text=text, why=why, files=files, mech=mech,
                      technique=technique, note=note))


EXH = "explicit enumeration of every point of a bounded input space on the real code, compared with a reference model"
SEQ = "exhaustive exploration of every operation history up to a depth on the real code, compared step by step with a reference model"

P("C01", "The byte FIFO is loss-free between one writer and one reader",
  "When one thread only writes and one other thread only reads, peeks or removes, every byte the writer was told was accepted is delivered to the reader exactly once, in order and with its value, whatever the interleaving of the two threads' memory accesses. Neither side ever touches memory outside the buffer and the other side never sees a length larger than what has been completely stored.",
  ["schedules"], "all interleavings of shared-memory accesses of one producer call sequence and one consumer call sequence (bounded lengths, sizes 2, 4 and 8, every starting position and counter wrap)",
  "there are no tests of the FIFO at all, and no test could reach a chosen interleaving of two threads",
  ["src/fifo_byte.c", "include/swiftnav/fifo_byte.h"],
  [("write: copy then publish", "fifo_write in src/fifo_byte.c"), ("read: copy then release", "fifo_read, fifo_remove in src/fifo_byte.c")],
  "stateless exploration of all thread interleavings of the real code at memory-access granularity under a controlled scheduler, against a FIFO model",
  "preemption at every shared access, full interleavings up to small call lengths; sequentially consistent memory only")

P("C02", "The byte FIFO behaves as a bounded queue for every operation history",
  "For any sequence of write, read, peek and remove calls, with any lengths and any number of bytes already passed through, each call transfers exactly as many bytes as a bounded queue of the given size would, and reports that count. Bytes come out in the order and with the values they went in, peek changes nothing, length plus free space always equals the size, and only memory inside the buffer and the caller's stated lengths is touched.",
  ["histories"], "every history up to depth d over all lengths 0..size+2 for sizes 1..16, every cursor position, cursors close to the 32-bit wrap",
  "the repository has no FIFO test",
  ["src/fifo_byte.c"], [("fill level arithmetic on free-running indices", "fifo_length, fifo_space"), ("split copies at the wrap", "fifo_write, fifo_peek")],
  SEQ, "sizes up to 16 (64 in thorough), all reachable states; size must be a power of two")

P("C03", "Bit-field reads and writes are exact and touch nothing else",
  "For every bit position and width, reading an unsigned or signed field from a byte buffer returns exactly the big-endian bits stored there (sign extended for signed reads), and writing a field stores exactly the value's low bits, so that reading it back returns it, while every other bit of the buffer keeps its value. Bit copies and shifts between buffers move exactly the requested bits, bit counting, parity and byte-order helpers agree with their mathematical definition, and no byte outside the ones holding the field is accessed.",
  ["inputs"], "all positions 0..127, all widths 1..64, a data alphabet of boundary patterns and every single-bit pattern, all copy offsets and shift amounts",
  "existing tests sample a few dozen position/width/value triples; the guarantee is over all of them",
  ["src/bits.c", "include/swiftnav/bits.h"], [("field extraction and insertion", "getbitu, getbits, setbitu, setbitul, setbits in src/bits.c"), ("bit moves", "bitcopy, bitshl in src/bits.c")],
  EXH, "all positions/widths; data values from an alphabet (patterns, walking ones/zeros)")

P("C04", "Bit and byte streams never read outside their payload",
  "A bit stream or byte stream over a payload of given length returns a value only when all requested bits or bytes at the current position plus offset lie inside the payload; otherwise it reports failure and leaves the position unchanged. A successful get followed by a remove consumes exactly the requested amount, and the values delivered are those of the payload in the stream's byte order.",
  ["histories", "inputs"], "every history of get, remove, peek and strided operations up to a depth on payloads of 0..12 bytes, all positions and widths, and offsets up to the 32-bit boundary",
  "no test checks the stream layer on its own; decoders only use a few offsets",
  ["include/swiftnav/bitstream.h", "include/swiftnav/bytestream.h"], [("overflow predicate and cursor", "bitstream_would_overflow, bitstream_remove"), ("byte stream", "bytestream_would_overflow, bytestream_get_*")],
  SEQ, "payloads up to 12 bytes, all positions; extreme 32-bit offsets from an alphabet")

P("C05", "CRC-24Q is the standard code and detects its guaranteed error patterns",
  "The byte-wise checksum equals the 24-bit Qualcomm polynomial remainder of the message for every message and starting value, and checksumming a message in any split of consecutive chunks gives the same result as in one go. The bit-wise variant equals the remainder of the message zero-padded on the left to whole bytes, for every number of bits and with optional inversion, and never reads beyond the message. Every one-bit and two-bit error and every burst of at most 24 bits in a frame changes the checksum.",
  ["inputs"], "all 256x256 table pairs, all chunkings, all bit lengths 0..256, all 1- and 2-bit error positions and all bursts up to 24 bits in bounded frames",
  "tests check a handful of reference messages",
  ["src/edc.c"], [("byte CRC", "crc24q in src/edc.c"), ("bit CRC", "crc24q_bits in src/edc.c")],
  EXH, "frames up to 256 bits; linearity gives the rest")

P("C06", "Bounded copy and string length never exceed the stated bounds",
  "A checked copy whose pointers are valid, whose count fits the destination and whose regions do not overlap copies exactly the requested bytes and reports success. Any other call reports the matching error and writes nothing at all, whatever the sizes and overlap. The bounded string length returns the position of the first terminator within the bound, or the bound, without reading further, and array searches report exactly whether the value is present.",
  ["inputs"], "every combination of destination size, count and overlap offset up to 24 bytes, null pointers included",
  "no test covers these",
  ["src/memcpy_s.c", "include/swiftnav/swift_strnlen.h", "include/swiftnav/array_tools.h"], [("checked copy", "memcpy_s/MEMCPY_S in src/memcpy_s.c"), ("bounded length", "swift_strnlen")],
  EXH, "sizes up to 24")

P("C07", "Sorted-array set operations compute exact intersections and removals",
  "For any two sorted duplicate-free arrays the intersection returns the number of common elements and stores, in order, the matching elements (or indexes) of each array in the corresponding output, writing nothing else. Set recognition accepts exactly the strictly increasing arrays. Inserting puts an element at its sorted position and removing takes out exactly one element, the first that is not less than the given one or the last when all are less, keeping all the others in order.",
  ["inputs"], "all pairs of subsets of an 8-element universe with payload bytes, element sizes 1..8; all arrays of up to 6 elements for set recognition",
  "tests check a few pairs; removal and insertion have no tests",
  ["src/set.c", "include/swiftnav/set.h"], [("merge intersection", "intersection, intersection_map in src/set.c"), ("insert/remove", "insertion_index, insert_element, remove_element in src/set.c"), ("recognition", "is_set, is_sid_set in src/set.c")],
  EXH, "universe of 8 (10 thorough)")

P("C08", "Satellite-signal id sets are exact sets",
  "After any history of additions and removals a signal-id set contains exactly the ids whose last operation was an addition, whatever the order and repetition. The signal count is the number of distinct ids contained and the satellite count is the number of distinct satellites per constellation over all their codes. Adding or removing one id never affects another.",
  ["histories"], "every history of additions and removals over alphabets that collide in satellite number, code and constellation, up to a depth, plus every (code, satellite) id alone and every pair",
  "tests insert a handful of ids",
  ["src/sid_set.c"], [("bitmap per code", "sid_set_add, sid_set_remove, sid_set_contains, sid_set_get_sat_count, sid_set_get_sig_count in src/sid_set.c")],
  SEQ, "all ids and all ordered pairs; histories of depth 4 over colliding alphabets")

P("C09", "Signal identity, ordering, hashing and naming are consistent",
  "Across every code and every satellite number, validity, constellation, carrier frequency, chip, period and Doppler properties agree with the signal definition of each GNSS, invalid codes belong to no constellation, and the map between the ids of a code and their indexes is one-to-one. Signal ids are totally ordered by the comparison functions, comparison returns equality only for identical ids, distinct valid ids have distinct hashes, and codes and constellations convert to their names and back; the SBAS system and satellite lists are those of the SBAS definition. No lookup, including with invalid values, reads outside its tables.",
  ["inputs"], "all codes from invalid to count, all 65536 satellite numbers, all triples of a colliding subset for transitivity, all strings of the tables and their mutations",
  "tests check a few codes and do not pass invalid values",
  ["src/signal.c", "include/swiftnav/signal.h"], [("code table", "code_to_constellation, sid_to_carr_freq, code_to_chip_count ... in src/signal.c"), ("identity", "sid_valid, sid_compare, sid_hash, sid_to_code_index in src/signal.c"), ("names", "code_to_string, sid_to_string, code_string_to_enum in src/signal.c")],
  EXH, "all codes x all u16 satellites")

P("C10", "The GLONASS slot map is a consistent partial map under every history",
  "After any history of setting, clearing and clearing all slot entries, a slot's frequency channel is reported valid exactly when it was set more recently than cleared and then has the last value set; settings outside the slot or channel range change nothing, and a query for the slots using a channel returns the lowest one or two such slots with their count. GLONASS frequencies derived from the map agree with it. Each single change takes the lock once and releases it once, and the map changes only while the lock is held.",
  ["histories"], "breadth-first search of all reachable map states over 3 slots and 3 channels, plus every slot and channel alone",
  "tests use one fixed history",
  ["src/glo_map.c"], [("slot table", "glo_map_set_slot_id, glo_map_clear_slot_id, glo_map_clear_all, glo_map_get_fcn, glo_map_get_slot_id, glo_map_valid in src/glo_map.c"), ("lock hooks", "the weak lock/unlock functions called in src/glo_map.c")],
  SEQ, "3 slots x 3 channels state space, depth 6")

P("C11", "The subsystem status registry reports to every registered listener",
  "Each status report reaches every listener registered at that moment exactly once, in registration order, with the reported values and the listener's own context unchanged, for any order of registration, removal, reset and reporting. Registering a listener again replaces its callback and context without duplicating it, registering it without a callback removes it, a listener removed during a report is not reached by it afterwards, and reporting with no listener is harmless.",
  ["histories"], "every history of register/deregister/reset/report operations up to depth 6 over several listeners, with reentrant actions from inside a callback",
  "tests register and report once",
  ["src/subsystem_status_report.c"], [("linked list of listeners", "swiftnav_subsystem_status_report_callback_register, _deregister, _reset, swiftnav_send_subsystem_status_report in src/subsystem_status_report.c")],
  SEQ, "4 listeners, depth 6")

P("C12", "Log messages reach the active sink completely formatted",
  "Every log call reaches the currently installed implementation exactly once, with its level, its arguments in order and, for detailed calls, its file and line; messages about a signal start with its name; replacing or removing the implementation takes effect for the next message and removal restores the default, which writes level name and message to standard error as one line. Level names exist for each level, path shortening gives the file's base name, and rate-limited logging passes a message exactly when its interval has elapsed.",
  ["histories"], "every history of install/remove/log operations up to depth 5 over 3 implementations and all levels",
  "tests check a few messages",
  ["src/logging.c", "src/logging_common.c"], [("dispatch", "logging_set_implementation in src/logging.c, log_*/detailed_log_* macros in include/swiftnav/logging.h"), ("default sink", "src/logging_common.c")],
  SEQ, "depth 5")

P("C13", "Satellite health verdicts follow the broadcast health word",
  "For every health word and every signal, the health functions give the verdict defined by the respective interface specification: a summary bit set marks the navigation data of that satellite bad for the signals carrying that message, and the signal code's health bits mark that signal bad for exactly the codes they cover. The ephemeris verdict combines the constellation's own health word rule with the broadcast accuracy, and the rules of different constellations are never mixed up.",
  ["inputs"], "all codes x all health words of each constellation",
  "tests check selected words per code",
  ["src/shm.c"], [("health tables", "check_6bit_health_word, check_8bit_health_word, check_alma_page25_health_word, check_nav_dhi, shm_gps_decode_shi_ephemeris in src/shm.c"), ("ephemeris verdict", "ephemeris_healthy in src/ephemeris.c")],
  EXH, "all codes, all words")

P("C14", "GPS time arithmetic is exact and normalised",
  "Adding seconds to a GPS time and differencing two GPS times are inverse to within a nanosecond at any week, normalisation yields a time of week inside the week denoting the same instant, and the validity predicate accepts exactly known weeks with an in-range time of week. Differences are antisymmetric and additive, comparison predicates agree with the sign of the difference, and rounding and flooring to an epoch grid give a grid instant that is nearest, respectively not later.",
  ["inputs"], "all products of boundary weeks, boundary times of week (each side of each edge) and offsets up to several weeks; all rates up to 1000 Hz",
  "tests check sampled pairs",
  ["src/gnss_time.c", "include/swiftnav/gnss_time.h"], [("normalisation", "normalize_gps_time, unsafe_normalize_gps_time"), ("difference and add", "gpsdifftime, add_secs"), ("grid", "round_to_epoch, floor_to_epoch")],
  EXH, "boundary alphabets")

P("C15", "Week-number ambiguity is resolved to the one candidate nearest the reference",
  "Given a truncated week number and a reference week, the resolved full week is congruent to the truncated number modulo the rollover and lies in the window beginning at the reference. Matching a time of week to a reference time returns the same time of week in the week that brings it nearest the reference, for every position in the week; exactly half a week either side is acceptable.",
  ["inputs"], "all truncated weeks x all reference weeks for 8-bit and 10-bit numbers; all boundary times of week x reference times",
  "tests check a few weeks",
  ["src/gnss_time.c"], [("rollover", "gps_adjust_week_cycle, gps_adjust_week_cycle256"), ("week matching", "gps_time_match_weeks")],
  EXH, "complete for 10-bit weeks and references up to 4096")

P("C16", "GPS, UTC and calendar conversions agree with the Gregorian calendar",
  "Converting an instant between GPS time, UTC calendar date, modified Julian date and unix time gives the date of the proleptic Gregorian calendar with the leap seconds in force, and the round trip returns the same instant to within the resolution of the form used (a few microseconds up to 2099, 12 microseconds after). Every inserted leap second makes UTC show second 60 exactly once, the offset changes only at an event, and calendar fields are always in range. Day of year, sidereal time and time validity agree with their definitions.",
  ["inputs"], "every day from 1980 through 2099, each leap event second by second, boundary times of day, with table leap seconds and with supplied parameters",
  "tests sample some dates and leap events",
  ["src/gnss_time.c", "include/swiftnav/leap_seconds.h"], [("UTC conversion", "gps2utc, utc2gps, get_gps_utc_offset, get_utc_gps_offset, is_leap_second_event in src/gnss_time.c"), ("calendar", "make_utc_tm, mjd2date, date2mjd, gps2mjd, gps2date, utc2date, gps2doy, utc2gmst ... in src/gnss_time.c")],
  EXH, "every day 1980..2099, sub-second alphabet")

P("C17", "GLONASS time converts to and from GPS time consistently",
  "A GLONASS day/four-year time converts to the GPS instant given by the Moscow-time calendar and the leap seconds, and converting back returns the same GLONASS fields. Invalid GLONASS times yield the unknown time.",
  ["inputs"], "every day of every four-year interval 1996..2099 x boundary times of day, including leap seconds, with built-in and supplied leap-second parameters",
  "tests sample dates",
  ["src/gnss_time.c"], [("GLONASS conversion", "glo2gps, gps2glo in src/gnss_time.c")],
  EXH, "every day 1996..2099")

P("C18", "UTC parameter decoding accepts exactly the valid subframe and is exact",
  "Decoding the UTC page yields exactly the scaled values of the broadcast fields, with the reference and leap-event weeks resolved to full weeks, and rejects pages of another type. With the decoded parameters the GPS-UTC offset before and after the effectivity instant is the broadcast old and new value.",
  ["inputs"], "each field over its whole bit range (all others at alphabet values), all data id / page combinations",
  "tests decode one page",
  ["src/gnss_time.c"], [("decode", "decode_utc_parameters")],
  EXH, "each bit field complete, pairs of fields at boundaries")

P("C19", "GPS ephemeris decoding is exact and identifies the right subframes",
  "Decoding the three GPS (or QZSS) ephemeris subframes yields, for every value of every broadcast field, exactly the interface-defined scaled value in the right element, with signs, weeks and reference times resolved and the fit interval and accuracy translated, and marks the result invalid when the subframes do not belong together. A change of one field's bits never changes an unrelated element.",
  ["inputs"], "for each field, walking ones, all-zero, all-one, sign patterns and (for short fields) all values over two backgrounds",
  "tests decode one frame set",
  ["src/ephemeris.c"], [("decode", "decode_ephemeris, decode_ephemeris_with_wn_ref in src/ephemeris.c")],
  EXH, "per-field exhaustive up to 16 bits, patterns above")

P("C20", "Galileo ephemeris decoding is exact and refuses times it cannot resolve",
  "Decoding the Galileo I/NAV words yields, for every value of every broadcast field, exactly the interface-defined scaled value in the right element, with the reference times resolved to the week nearest the broadcast time; pages whose times cannot be so resolved are refused. The result is marked valid only when the signals' health flags say usable, and a change of one field's bits never changes an unrelated element.",
  ["inputs"], "per-field value patterns over two backgrounds, all week and time-of-week combinations near the boundaries",
  "tests decode one set",
  ["src/ephemeris.c"], [("decode", "decode_gal_ephemeris, decode_gal_ephemeris_safe in src/ephemeris.c")],
  EXH, "per-field exhaustive up to 16 bits, patterns above")

P("C21", "BeiDou ephemeris decoding is exact",
  "Decoding the BeiDou D1 subframes yields, for every value of every broadcast field (including fields split over words), exactly the interface-defined scaled value in the right element, including the conversion from BeiDou to GPS time and the ionosphere parameters. A change of one field's bits never changes an unrelated element.",
  ["inputs"], "per-field value patterns over two backgrounds",
  "tests decode one set",
  ["src/ephemeris.c"], [("decode", "decode_bds_d1_ephemeris in src/ephemeris.c"), ("ionosphere", "decode_bds_d1_iono in src/ionosphere.c")],
  EXH, "per-field exhaustive up to 16 bits, patterns above")

P("C22", "GLONASS string error detection corrects single errors and flags double errors",
  "For every GLONASS navigation string with valid check bits the check reports no error; with any single data-bit error it reports exactly the position to correct; a single check-bit error is reported as harmless, except that of the overall parity bit which the interface specification counts as uncorrectable; and every double error is reported as uncorrectable. No corrupted string of those classes is ever accepted as correct, and whatever the errors the reported position lies inside the string.",
  ["inputs"], "all 85 single-bit errors and all 3570 double-bit errors over a set of strings including all 76 unit data words",
  "tests check single errors of one string",
  ["src/decode_glo.c"], [("Hamming check", "error_detection_glo in src/decode_glo.c")],
  EXH, "complete by linearity over unit strings")

P("C23", "GLONASS ephemeris decoding is exact and refuses unusable strings",
  "Decoding the five GLONASS immediate data strings yields, for every value of every broadcast field, exactly the interface-defined scaled value in the right element with sign-magnitude signs, and the frame and reference times as GPS times with leap seconds applied. A string with wrong check bits, the wrong string number or an out-of-range value is refused. The ephemeris is marked valid only when all five strings of that set are accepted, and healthy only when neither health flag of that set is raised.",
  ["inputs"], "per-field value patterns over two backgrounds; every string in every position; every subset of refused strings; health flag combinations; day and interval boundaries",
  "tests decode one frame in order",
  ["src/decode_glo.c"], [("strings", "decode_glo_string_1 ... decode_glo_string_5, extract_word_glo in src/decode_glo.c"), ("ephemeris", "decode_glo_ephemeris in src/ephemeris.c")],
  EXH, "fields exhaustive up to 16 bits, pairs of boundary values")

P("C24", "GPS almanac decoding and almanac satellite positions are exact",
  "Decoding almanac, almanac-week and health pages yields exactly the interface-defined scaled values and health of the right satellites, and pages of another type are rejected. Satellite states computed from a healthy almanac inside its period agree with an independent evaluation of the almanac equations and are refused outside the period. An almanac is usable exactly within half its fit interval of its reference time, and its health verdict follows the broadcast health bits.",
  ["inputs"], "per-field patterns; every health position; reference and query times on all sides of each boundary",
  "tests use one almanac",
  ["src/almanac.c"], [("decode", "almanac_decode, almanac_decode_week, almanac_decode_health in src/almanac.c"), ("orbit", "calc_sat_state_almanac in src/almanac.c"), ("gate", "almanac_valid, almanac_healthy in src/almanac.c")],
  EXH, "per-field exhaustive up to 16 bits")

P("C25", "An ephemeris is used only inside its validity period and when healthy",
  "An ephemeris counts as usable at an instant exactly when it is flagged valid, has a positive fit interval and known reference time, is healthy, and the instant lies within half the fit interval either side of its reference time (GPS, QZSS, GLONASS), within one fit interval after it (Galileo, BeiDou), or at any time (SBAS). The detailed status names the first reason it is not usable in the documented order: missing, flagged invalid, unknown week, no fit interval, unhealthy, inconsistent issue of data, too old.",
  ["inputs"], "products of valid flag, health, accuracy, fit interval, reference week/time and instants on each side of each boundary, per constellation",
  "tests check some boundaries",
  ["src/ephemeris.c"], [("validity gate", "ephemeris_valid, ephemeris_valid_detailed, get_ephemeris_status_t, ephemeris_params_valid in src/ephemeris.c")],
  EXH, "boundary products")

P("C26", "Satellite states from an ephemeris match the interface-specified orbit model",
  "Position, velocity, acceleration and clock correction computed from an ephemeris agree with an independent evaluation of the constellation's broadcast orbit algorithm at every instant of the validity period, velocity and acceleration are the time derivatives of position, and the state varies continuously across week and reference-time boundaries. States are refused outside the validity period.",
  ["inputs"], "grid of orbital elements at their range edges x instants over the validity period for GPS, QZSS, Galileo, BeiDou (medium and geostationary), GLONASS and SBAS",
  "tests check a few ephemerides",
  ["src/ephemeris.c"], [("Kepler", "calc_sat_state_kepler in src/ephemeris.c"), ("GLONASS integration", "calc_sat_state_glo in src/ephemeris.c"), ("SBAS polynomial", "calc_sat_state_xyz in src/ephemeris.c"), ("entry points", "calc_sat_state, calc_sat_state_n, calc_sat_state_orbit_type in src/ephemeris.c")],
  EXH, "element corner grid; tolerance 1 mm")

P("C27", "Accuracy and fit-interval codes translate as the specifications define",
  "Each broadcast accuracy index translates to the accuracy its interface specification defines for that constellation, undefined indexes translate to the invalid value (Galileo's spare ones to 6.0 m), and encoding an accuracy returns the smallest index whose accuracy is not exceeded, or the undefined index when it is negative or too large. Fit intervals follow the flag and issue of data rules.",
  ["inputs"], "all 256 index values and all table values and their floating neighbours",
  "there are no tests of these",
  ["src/ephemeris.c"], [("URA", "decode_ura_index, encode_ura, decode_sisa_index, decode_bds_ura_index in src/ephemeris.c"), ("fit interval", "decode_fit_interval in src/ephemeris.c")],
  EXH, "complete")

P("C28", "Measurement records are compared, validated and corrected consistently",
  "The lock-time code decodes to the lower bound of the interval encoded, encoding is monotone and the round trip never overstates the lock time; measurements are ordered by signal id and equality agrees on every field. A pseudorange counts as valid exactly when its code is flagged valid and it is not excluded by integrity monitoring. Satellite clock corrections shift pseudorange, carrier and Doppler by the amounts the satellite clock state defines at that signal's frequency and are linear in it.",
  ["inputs"], "all lock-time codes and boundary times, all flag bytes, every record field mutated alone, clock states from an alphabet",
  "tests check some lock-time values and flags",
  ["src/nav_meas.c", "include/swiftnav/nav_meas.h"], [("lock time", "encode_lock_time, decode_lock_time in src/nav_meas.c"), ("corrections", "nav_meas_cor_sat_clk_on_pseudorange, _carrier_phase, _measured_doppler in src/nav_meas.c"), ("comparison and flags", "nav_meas_cmp, nav_meas_equal, measurement_std_equal, pseudorange_valid in src/nav_meas.c")],
  EXH, "complete for codes and flags")

P("C29", "Ionospheric corrections follow the broadcast Klobuchar model",
  "The ionospheric delay equals the broadcast single-layer model for every receiver position, satellite direction and time, is never below its night-time floor and is periodic over days. Decoding the GPS ionosphere page or BeiDou subframe 1 yields exactly the scaled values of the eight coefficients; other GPS pages are rejected.",
  ["inputs"], "product grid of latitude, longitude, azimuth, elevation, time and coefficient sets; each coefficient over all 256 codes",
  "tests check 4 points",
  ["src/ionosphere.c"], [("Klobuchar", "calc_ionosphere in src/ionosphere.c"), ("decode", "decode_iono_parameters, decode_bds_d1_iono in src/ionosphere.c")],
  EXH, "grid")

P("C30", "The tropospheric correction is a bounded, smooth function of geometry",
  "The tropospheric delay equals an independent evaluation of the UNB3m model, is finite and positive below 11 km and zero above, decreases as elevation rises and (at elevations above 15 degrees) as height rises, and is symmetric as the model specifies between hemispheres shifted by half a year. Heights below sea level count as sea level and elevations below the model's minimum are treated as the minimum, so it stays bounded everywhere.",
  ["inputs"], "product grid of day of year, latitude, height and elevation",
  "tests check a few points",
  ["src/troposphere.c"], [("UNB3m", "calc_troposphere")],
  EXH, "grid")

P("C31", "Coordinate transforms are exact inverses on the WGS84 ellipsoid",
  "Geodetic and Earth-centred coordinates convert to each other as the WGS84 ellipsoid defines, round trips return the same point to within a millimetre from 5000 km below to 100 000 km above the surface including the poles and the antimeridian, and angles stay in range. Rotations to local frames are orthonormal and agree with the azimuth and elevation definitions; matrices and vectors transform consistently.",
  ["inputs"], "product grid of latitudes, longitudes (including poles, antimeridian, neighbours) and heights",
  "tests sample random points",
  ["src/coord_system.c"], [("ellipsoid", "wgsllh2ecef, wgsecef2llh in src/coord_system.c"), ("local frames", "wgsecef2ned, wgsecef2ned_d, wgsned2ecef, wgsned2ecef_d, ecef2ned_matrix, wgsecef2azel in src/coord_system.c")],
  EXH, "grid with edges")

P("C32", "A position solution solves the measured geometry or is reported unusable",
  "Whenever the position solver reports success, position, receiver clock, velocity and their covariances satisfy the measurement equations of the selected measurements to the noise put in, and every reported flag, count and dilution describes that solution. Too few satellites, dilution of precision that is undefined or above 20, a height outside -1 km to 1000 km or a speed of 514.4 m/s or more give the documented failure code and never a solution marked valid; velocity is marked valid only when every used measurement has a measured Doppler. Only measurements admitted by the selection strategy and signal strength mask are used, and a weaker, lower, unlocked or just reacquired measurement weighs less.",
  ["inputs", "configurations"], "constellation mixes, subsets of up to 8 satellites, receiver positions, clock offsets, velocity on/off and code type mixes",
  "tests run a handful of scenarios",
  ["src/single_epoch_solver.c"], [("solver", "calc_PVT, calc_PVT_pred in src/single_epoch_solver.c"), ("checks", "the dilution, height and speed filter in src/single_epoch_solver.c")],
  EXH, "bounded scenario products on synthetic exact measurements")

P("C33", "A single faulty measurement is excluded or the solution refused",
  "With enough redundancy, one faulty pseudorange or Doppler of a large size leads to a repaired solution in which exactly that signal is excluded, whichever satellite it is, and the solution is that of the remaining measurements; with a failed check and too little redundancy to repair, the solver reports failure. Without a fault nothing is excluded, and disabling the check, or having no redundancy to check, is reported as unchecked. Whatever the faults, an accepted checked solution leaves no large residual in the measurements it used.",
  ["fault_sequences"], "every faulty satellite and pair of satellites x fault sizes x constellation subsets x check on/off x redundancy",
  "tests inject one fault",
  ["src/single_epoch_solver.c"], [("residual check and repair", "calc_PVT and its RAIM helpers in src/single_epoch_solver.c")],
  "exhaustive single-fault injection into the real solver against an expected-outcome model", "all satellites, fault sizes from an alphabet")

P("C34", "Dense linear algebra routines satisfy their defining equations",
  "Multiplication, addition, transposition, triangular products, vector operations, solving, inversion, UDU and QR decompositions, weighted least squares and pseudo-inverses return results that satisfy their defining equations for every well-conditioned input, and singular systems are reported rather than solved. Only the output and its stated extent are written.",
  ["inputs"], "all matrices with entries in {-1,0,1} (or {-2..2}) of sizes up to 3x3, structured larger ones, all shapes up to 6",
  "tests use random well-conditioned matrices and do not touch pseudo-inverses",
  ["src/linear_algebra.c"], [("inverse and solving", "matrix_inverse, qrsolve, qrdecomp, matrix_udu, matrix_wlsq_solve in src/linear_algebra.c"), ("products", "matrix_multiply, matrix_triu, matrix_transpose, vector_* ... in src/linear_algebra.c"), ("pseudo-inverse", "matrix_pseudoinverse, matrix_atwaiat, matrix_atawati, matrix_ataiat, matrix_ataati in src/linear_algebra.c")],
  EXH, "complete for small integer matrices")

P("C35", "GLONASS code-phase bias records compare and difference as defined",
  "The GLONASS bias of a signal relative to a base receiver is that signal's own bias minus the base's: the civil-signal bias when its flag is set, otherwise the precise-signal bias of the same band when that flag is set, otherwise zero, and zero for every other signal. Two bias records are equal exactly when their masks and all four biases agree. A set of flags counts as set only when every requested bit is set.",
  ["inputs"], "all 256 masks on both sides, all signal codes, an alphabet of bias values in every field",
  "there are no tests of this component",
  ["src/glonass_phase_biases.c", "include/swiftnav/glonass_phase_biases.h"], [("bias records", "glonass_biases_are_equal, is_bias_mask_flag_set, get_glonass_bias in src/glonass_phase_biases.c")],
  EXH, "all codes and masks, alphabet of biases")

P("C36", "The geoid model interpolates inside its grid everywhere on Earth",
  "The geoid offset at every latitude and longitude is the bicubic interpolation of the surrounding EGM2008 one-degree grid values (bilinear in the outermost rows), returns the grid value at every grid node, and changes by at most centimetres over a very small step, also across cell edges, the antimeridian and near the poles. Longitudes that differ by a full turn give the same offset, positions outside the valid latitude and longitude range give zero, and nothing outside the model is ever read.",
  ["inputs"], "every grid node, every cell centre and cell edge, floating neighbours of all edges, longitudes in both conventions",
  "tests check some places within tolerance",
  ["src/geoid_model.c"], [("interpolation", "get_geoid_offset in src/geoid_model.c")],
  EXH, "all nodes and cells")

P("C37", "BeiDou issue-of-data derivation is a fixed function of the ephemeris data",
  "The derived BeiDou issue of data equals the 24-bit checksum of the eighteen broadcast orbit and clock parameters packed at their broadcast scales and widths in the defined order, and changes when any packed parameter changes by one broadcast step. It does not depend on reference times, health, group delays or any other element, nor on uninitialised memory.",
  ["inputs"], "every packed field mutated over its bits",
  "tests check one value",
  ["src/ephemeris.c"], [("packing and checksum", "get_bds2_iod_crc in src/ephemeris.c")],
  EXH, "walking bit per packed field")

P("C38", "Group-delay corrections are those of the signal's constellation and code",
  "The group delay for a signal is exactly the one its interface specification gives for that code and the ephemeris' broadcast values: for GPS and QZSS the first value scaled by the squared frequency ratio to L1, with L5 using its own; for Galileo the first value for E5a and the second for all others, scaled likewise; for BeiDou the first for B1, zero for B3 and the second for others; for GLONASS zero on L1 and the L2 difference on L2. The correction is linear in the broadcast value and does not depend on anything else.",
  ["inputs"], "all codes x alphabet of broadcast values",
  "tests check few codes",
  ["src/ephemeris.c", "src/nav_meas.c"], [("TGD", "get_tgd_correction in src/ephemeris.c")],
  EXH, "all codes")

P("C39", "Record equality compares every field that carries meaning",
  "Ephemeris, almanac and ionosphere records compare equal to a copy of themselves, and changing any one element that carries broadcast data of either record by one broadcast step makes them unequal, in both argument orders. Derived values of an ephemeris (fit interval, accuracy and source) do not take part in its comparison, while those of an almanac do. Equality is reflexive, symmetric and independent of padding bytes and of the members of other constellations.",
  ["inputs"], "every field of every record type and constellation changed alone and in pairs, padding randomised",
  "tests mutate some fields",
  ["src/ephemeris.c", "src/almanac.c", "src/ionosphere.c"], [("equality", "ephemeris_equal in src/ephemeris.c, almanac_equal in src/almanac.c, operator== in include/swiftnav/ionosphere.h")],
  EXH, "all fields")

P("C40", "Azimuth, elevation and Doppler agree with the satellite geometry",
  "Azimuth, elevation and Doppler computed from an ephemeris or almanac equal the values derived from the independently evaluated satellite state and the receiver position, azimuth lies in the full circle and elevation within a quarter circle, and failure to compute the state is reported. Doppler is the range rate over the signal's wavelength, positive while the satellite recedes, with the receiver's own velocity taken into account.",
  ["inputs"], "grid of receivers x satellites x instants",
  "tests check few points",
  ["src/ephemeris.c", "src/almanac.c"], [("geometry", "calc_sat_az_el, calc_sat_doppler in src/ephemeris.c; calc_sat_az_el_almanac, calc_sat_doppler_almanac in src/almanac.c")],
  EXH, "grid")

P("C41", "A result depends on the arguments alone, not on earlier calls",
  "Every function gives the identical result for identical arguments wherever the call stands in a history of calls to itself and to any other functions, and whatever the output variables held before; only the registered GLONASS slot map and log handler are state. What is passed in to be read (const) is not modified.",
  ["histories"], "all histories to a depth over calls of the whole interface, with every single element of the arguments changed",
  "tests call each function in a fixed order",
  ["src/ephemeris.c", "src/single_epoch_solver.c", "src/gnss_time.c", "src/ionosphere.c", "src/troposphere.c", "src/coord_system.c", "src/linear_algebra.c", "src/almanac.c", "src/decode_glo.c", "src/geoid_model.c", "src/nav_meas.c"],
  [("all functions", "src/*.c and inline functions of include/swiftnav")],
  EXH, "pairs and triples of 171 calls; every element of the arguments changed alone")
P("C42", "Any received bits are decoded and used harmlessly",
  "Whatever bits a satellite broadcasts in ephemeris, almanac, UTC or ionosphere messages, decoding them and using what was decoded neither crashes, hangs, trips an assertion nor has undefined behaviour. Satellite states, azimuth, elevation, Doppler, group delay, ionosphere delay and UTC conversions that report success are finite and in range, and come only from an ephemeris that is valid at that time.",
  ["inputs"], "all small sets of message words over bit patterns, the other words over backgrounds, for every message type",
  "tests decode a few recorded messages, all sound",
  ["src/ephemeris.c", "src/almanac.c", "src/decode_glo.c", "src/gnss_time.c", "src/ionosphere.c"],
  [("decode_* functions", "src/ephemeris.c, src/decode_glo.c, src/almanac.c, src/gnss_time.c, src/ionosphere.c"), ("calc_sat_state_n", "src/ephemeris.c"), ("gps2utc", "src/gnss_time.c")],
  EXH, "pairs and triples of words of each message over 6 to 12 patterns and 4 backgrounds; pairs of record parameters at extremes")

P("C43", "Constants and elementary helpers agree with their definitions",
  "Every physical constant, carrier frequency, wavelength, chip count, code period and binary scale factor has its published value and can be used. The minimum, maximum, absolute value, sign, clamped difference, every-n-th-time, array size, array search and byte order helpers and the comparison of floating numbers (equal when closer than 1e-12) give what their names say for every operand, also inside larger expressions.",
  ["inputs"], "all constants; all pairs over corner operands of each type; all positions in arrays of every size",
  "tests check the array search and little else",
  ["include/swiftnav/constants.h", "include/swiftnav/common.h", "include/swiftnav/float_equality.h", "include/swiftnav/array_tools.h", "include/swiftnav/bits.h"],
  [("constants", "include/swiftnav/constants.h"), ("MIN, MAX, ABS, SIGN, CLAMP_DIFF, DO_EVERY", "include/swiftnav/common.h"), ("double_equal", "include/swiftnav/float_equality.h")],
  EXH, "all constants, all pairs of corner operands")
P("C44", "Calls may overlap: a call interrupted by another gives its own result",
  "A call that is interrupted at any point of its execution by another call, of the same or of any other function, with the same or with other arguments, as by another thread or an interrupt, gives what it gives alone, and so does the interrupting call. Excepted are only changes of the state that is shared by design: a FIFO, the GLONASS slot map (which its lock callbacks protect), the registry of status callbacks and the log handler.",
  ["schedules"], "all schedules of two calls with one preemption, at every machine instruction executed, over calls of the whole interface",
  "tests make one call at a time",
  ["src/ephemeris.c", "src/single_epoch_solver.c", "src/gnss_time.c", "src/ionosphere.c", "src/troposphere.c", "src/coord_system.c", "src/linear_algebra.c", "src/almanac.c", "src/decode_glo.c", "src/geoid_model.c", "src/nav_meas.c", "src/signal.c", "src/set.c", "src/sid_set.c"],
  [("all functions", "src/*.c and inline functions of include/swiftnav")],
  EXH, "one preemption at every instruction of 171 calls")
