#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe or ["NmeaParser::parse_sentence (public API)"], "hook_needed": None}})

FRAG = {"name": "saved_fragments", "meaning": "pending AIS fragments and GSV parts", "where": "src/lib.rs NmeaParser"}
VSD = {"name": "saved_vsds", "meaning": "pending type 24 halves by MMSI", "where": "src/lib.rs NmeaParser"}
AIS = "src/ais/"; GN = "src/gnss/"

p("C01", "Parsing is total: any string, in any state, returns promptly without panic",
  "For every input string (any Unicode text, any truncation or corruption of a valid sentence, any AIS payload content, any numeric or time field content, at any clock time) and in every parser state, parsing returns either a result or an error: it never panics (also not with integer-overflow checks on), aborts or hangs. The work and memory of one call are bounded by the size of the input and of the state kept for its own message, not by numbers written in the input.",
  ["inputs", "histories"], "all strings over a sharp alphabet up to a length, all 1- and 2-point edits and truncations of a corpus of valid sentences, all message types x payload lengths x fill, all time/date field values, in empty and populated parser states",
  "The unit tests feed about 20 well-formed sentences and one bad checksum; none is malformed, truncated, non-ASCII or carries an impossible date.",
  ["src/lib.rs", "src/util.rs", "src/gnss/gsv.rs", AIS+"vdm_t4.rs"],
  [("sentence header slicing", "src/lib.rs parse_sentence"), ("parse_payload, parse_hhmmss, parse_yymmdd_hhmmss, pick_eta", "src/util.rs"), ("GSV part loop", "src/gnss/gsv.rs handle")], [FRAG, VSD])

p("C02", "A wrong checksum is always rejected, a right or absent one never is",
  "A printable-ASCII sentence that ends in '*' followed by one or more non-blank characters that are not exactly the two-digit hexadecimal XOR of everything between its first character and that '*' is rejected with the corrupted-sentence error, whatever its type (lower-case digits left open). If the two upper-case digits equal that XOR, or there is no '*' at all, the sentence is never rejected as corrupted, and both forms give the same result.",
  ["inputs"], "all 256 checksum values and non-hex suffixes on every corpus sentence, and every single-character substitution, deletion and adjacent transposition of each with the old checksum kept",
  "One sentence with one wrong checksum value and one sentence without checksum are tested.",
  ["src/lib.rs"], [("checksum computation and comparison", "src/lib.rs parse_sentence")])

p("C03", "A rejected sentence leaves no trace in the parser",
  "A sentence rejected on its own account (wrong checksum, malformed header, counts or numeric fields, unsupported sentence or message type, invalid payload characters in a single-part message) changes nothing: every later sentence gives exactly the result it would have given had the rejected one never been seen. In particular multi-part messages under assembly survive it, and its content never shows up in a later result.",
  ["histories", "inputs"], "every history over the multi-part alphabet in the bounded state space, with every rejected sentence of a menu tried in every reachable state and followed by every continuation",
  "No test feeds a rejected sentence and then goes on using the parser.",
  ["src/lib.rs", "src/gnss/gsv.rs", AIS+"vdm_t24.rs"], [("early error returns before any state change", "src/lib.rs parse_sentence, src/gnss/gsv.rs handle")], [FRAG, VSD])

p("C04", "Two-part AIS messages are assembled exactly, in order, once",
  "A two-part AIS message gives its result exactly when the second of its two parts arrives, in either order of arrival, and that result equals the one of the same message sent in a single sentence (part 1 followed by part 2, wherever it is split). Parts are combined only if talker, sentence type (own or other vessel), sequential message id and radio channel agree; if a part is repeated before its mate arrives the latest copy counts, and a part is used for at most one result. Any number of messages may be pending at the same time, interleaved in any way.",
  ["histories", "inputs"], "all reachable states of a slot model over keys that pairwise differ in one component, all fragment events in each, plus every message id, every split point, and up to hundreds of simultaneously pending messages",
  "Two tests feed the two parts of one message (one of them also reversed); no interleaving, repetition, other key or other split.",
  ["src/lib.rs", "src/util.rs"], [("make_fragment_key", "src/util.rs"), ("fragment store and pull", "src/lib.rs parse_sentence VDM/VDO arm")], [FRAG])

p("C05", "Satellite-view groups are delivered complete, in part order, once",
  "A group of N satellite-view sentences (GSV, N from 1 up) of one talker gives its result exactly when all parts 1..N of that talker and N have arrived, in any order; until then each gives the incomplete answer. The result lists the satellites of parts 1..N in part order and in the order within each part, every numeric value as written and absent or unreadable values as absent, attributed to the talker's system; a repeated part is replaced by its latest copy, parts of other talkers or of groups of another size never contribute, and after delivery nothing of the group is used again. A part numbered 0 or above N, or a group of 0 parts, is rejected.",
  ["histories", "inputs"], "all reachable states of a slot model over two talkers and group sizes 1..3, every part event in each; all arrival orders up to 5 parts, all group sizes to 255",
  "One test feeds one 3-part group in ascending order from one talker.",
  ["src/gnss/gsv.rs"], [("make_gsv_key, found_count loop", "src/gnss/gsv.rs")], [FRAG])

p("C06", "A class B static report is delivered only from both halves of one vessel",
  "For AIS static data reports (type 24) the result is delivered exactly when the second of the two different halves (part A: name; part B: type, call sign, vendor, dimensions) of the same MMSI arrives, in either order; until then the answer is incomplete. The result carries the name of that vessel's latest part A and all other fields of its latest part B, never data of another vessel; a repeated half replaces the stored one, each half is used at most once, and part numbers other than A and B are rejected without touching what is pending.",
  ["histories"], "all reachable states of a slot model over several MMSIs, halves and content variants, every event in each; the halves sent whole or in two fragments; up to hundreds of vessels pending",
  "One test sends part A then part B of one vessel.",
  [AIS+"vdm_t24.rs", "src/lib.rs"], [("pull_vsd / push_vsd pairing and merge", AIS+"vdm_t24.rs handle")], [VSD])

p("C07", "Results depend only on the sentence and its own message's parts",
  "Within one parser, a sentence that is a complete message by itself is answered immediately and always with the same result, whatever was parsed before. Unrelated traffic of any kind (other talkers, message ids, channels, vessels, sentence types, valid or not) interleaved with the parts of a multi-part message never changes, delays, completes or loses it.",
  ["histories"], "all sentence sequences up to a depth over an alphabet with every supported sentence type, with populated and with empty fields, and all reachable states of the product of the fragment, satellite-group and static-half models",
  "Every test uses a fresh parser for one message; no test sends two different kinds of sentences to one parser.",
  ["src/lib.rs", GN+"gsv.rs", AIS+"vdm_t24.rs"], [("keys of the shared fragment store", "src/util.rs make_fragment_key, src/gnss/gsv.rs make_gsv_key"), ("no cached values between sentences", "src/lib.rs")], [FRAG, VSD])

p("C08", "Parsers are independent, deterministic and not tied to a thread",
  "Two parsers fed with any interleaving of two streams each answer exactly as if the other did not exist, whether they live on the same thread or on different ones. A parser that is moved between threads between any two sentences answers as if it had stayed on one, and feeding the same sequence to a new parser gives the same answers again.",
  ["schedules", "histories"], "all sentence-level interleavings of two bounded streams over two parsers, all assignments of the calls to two threads, all bounded histories repeated",
  "No test uses two parsers or more than one thread on a parser.",
  ["src/lib.rs"], [("all state is owned by the parser value; no globals", "src/lib.rs NmeaParser")], [FRAG, VSD])

p("C09", "AIS payload armouring is decoded exactly and invalid characters are refused",
  "Every one of the 64 payload characters ('0' to 'W' and '`' to 'w') stands for its six bits, most significant first, at every position of a payload of any length, and no character changes the value of bits other than its own. A complete payload that contains any other character is answered with an error, never with data.",
  ["inputs"], "every 6-bit symbol at every payload position over several backgrounds, every pair of adjacent symbols, every non-armour character at every position, single- and two-part",
  "One test decodes six characters; invalid characters are not tested.",
  ["src/util.rs", "src/lib.rs"], [("parse_payload", "src/util.rs")])

p("C10", "AIS positions are the transmitted coordinates, or absent when flagged so",
  "In every position-carrying AIS message (types 1, 2, 3, 4, 9, 18, 21, 27) latitude and longitude are the two's-complement value of the message's own latitude and longitude bits in 1/10000 minute (1/10 minute in type 27), north and east positive, and are absent exactly for the not-available codes 91 and 181 degrees. They depend on no other bit, and the generic position accessor gives the same values as the fields.",
  ["inputs"], "full-width value enumeration windows of both coordinates in every message type over several backgrounds, and all boundary-value triples of fields",
  "Each message type is tested with one position; not-available codes, field extremes and the accessor are never tested, and type 27 is tested with impossible values.",
  ["src/ais/vdm_t1t2t3.rs", "src/ais/vdm_t4.rs", "src/ais/vdm_t9.rs", "src/ais/vdm_t18.rs", "src/ais/vdm_t21.rs", "src/ais/vdm_t27.rs", "src/util.rs"],
  [("pick_i64 with offset, width, scale and sentinel per type", "src/ais/*.rs"), ("LatLon impls", "src/ais/*.rs")])

p("C11", "AIS speed, course, heading, altitude and turn rate follow their codes",
  "Speed over ground, course, true heading and (type 9) altitude in AIS messages 1, 2, 3, 9, 18 and 27 are the unsigned value of their bits in the standard's units and are absent exactly for the not-available code (speed 1023, or 63 in type 27; course 3600, or 511 in type 27; heading 511; altitude 4095). Turn rate in types 1-3 is the square of code/4.733 degrees per minute with the sign of the code for codes -126..126 and absent otherwise; its direction is -1, 0 or 1 by the sign of the code (0 for -1..1) and absent only for code -128.",
  ["inputs"], "every value of every one of these fields in every message type over several backgrounds, and all boundary-value triples of fields",
  "One value per field is tested, turn rate only 0 and absent.",
  ["src/ais/vdm_t1t2t3.rs", "src/ais/vdm_t9.rs", "src/ais/vdm_t18.rs", "src/ais/vdm_t27.rs"],
  [("per-field decode expressions", "src/ais/*.rs handle")])

p("C12", "Every AIS message is routed and attributed to the right station and vessel",
  "An AIS message gives the kind of result its 6-bit message type calls for (1, 2, 3, 18, 27 dynamic data; 5, 24 static data; 4 base station; 6 addressed binary; 9 SAR aircraft; 10 UTC inquiry; 21 aid to navigation), and every other type, including 0 and 28-63, the unsupported error. All 30 bits of every MMSI and of the IMO number are reported exactly, the mothership MMSI only for auxiliary craft (98...), the AIS class is A for types 1-3, 5, 27 and B for 18, 24, the own-vessel flag is true exactly for VDO, and the station is the one of the talker of the sentence.",
  ["inputs"], "all 64 message types x all talkers x VDM/VDO x 1 and 2 parts, and value windows over all MMSI bits in every type and background",
  "Each message type is tested with one MMSI, talker AI, VDM only; the class, station, own-vessel flag and unsupported types are not tested.",
  ["src/lib.rs", "src/ais/mod.rs", "src/ais/*.rs"], [("message type dispatch, station match", "src/lib.rs parse_sentence"), ("handle functions", "src/ais/*.rs")])

p("C13", "AIS text fields are the transmitted six-bit characters",
  "Call sign, vessel name, destination, vendor id and aid-to-navigation name (including its extension) are the transmitted six-bit characters in order: codes 1-31 are '@'+code, 32-63 the ASCII character of that code, code 0 ends the text, and trailing blanks are dropped while leading and inner ones stay. A text has at most the field's length (7, 20, 20, 3 and 20+14 characters) whatever follows it in the payload, and an empty call sign, vessel name or destination is absent.",
  ["inputs"], "every character code at every position, every adjacent pair, all words over {end mark, blank, letter, digit} of the short fields and all with few deviations of the long ones",
  "A handful of names is tested; no full-length, blank, leading-blank or over-long text.",
  ["src/util.rs", "src/ais/vdm_t5.rs", "src/ais/vdm_t24.rs", "src/ais/vdm_t21.rs"], [("pick_string", "src/util.rs"), ("field offsets and lengths", "src/ais/vdm_t5.rs, vdm_t21.rs, vdm_t24.rs")])

p("C14", "AIS code lists map every code to its documented meaning",
  "Navigation status, ship type, cargo type, position fix type, aid-to-navigation type, positioning-system status and special manoeuvre are the documented meaning of the transmitted code for every code value: tankers are 80-89, other ships 90-99, cargo categories the last digit of 1x, 2x, 4x, 6x-9x, manoeuvre 1 is not engaged and 2 engaged, second codes 61-63 manual, dead reckoning and inoperative. Reserved and undefined codes map to the documented default or to absent, never to another meaning.",
  ["inputs"], "every value of every code field in every message type that has it, over several backgrounds, and all boundary-value triples of fields",
  "One code per field is tested.",
  ["src/ais/mod.rs", "src/ais/vdm_t21.rs", "src/ais/vdm_t1t2t3.rs"], [("NavigationStatus, ShipType, CargoType, PositionFixType, NavAidType constructors", "src/ais/mod.rs, src/ais/vdm_t21.rs")])

p("C15", "AIS flags, dimensions and other plain numbers are their own bits",
  "Every flag and plain unsigned number of an AIS message (position accuracy, RAIM, class B display/DSC/band/message 22/mode, DTE, assigned, off-position, virtual aid, retransmit, current-GNSS; dimensions, draught, UTC second, radio status, regional, AIS version, sequence number, DAC, FID, equipment model and serial) is the value of exactly its own bits at the standard's position, with the documented polarity, in every message type that has it. No other bit of the message influences it; for auxiliary craft the class B dimensions are absent.",
  ["inputs"], "every value of every field up to 20 bits in every message type over several backgrounds, and all boundary-value triples of fields",
  "One or two values per field are tested and half of the flags not at all.",
  ["src/ais/*.rs", "src/util.rs"], [("pick_u64 with offset and width per field", "src/ais/*.rs"), ("pick_u64", "src/util.rs")])

p("C16", "AIS dates and times are real moments, with the right year",
  "A base station report's timestamp is the transmitted UTC date and time, and absent if these do not name a real moment. A vessel's ETA is the transmitted month, day, hour and minute in UTC in the current year, or in the next year if that moment of the current year is past or does not exist; it is absent if all four are not-available or no such moment exists, missing parts are filled from the current date or with the end of the day or hour, and it depends on no other field.",
  ["inputs", "configurations"], "all month/day/hour/minute combinations of ETA and all date and all time-of-day codes of base stations, at a menu of clock readings around year ends, leap days and month ends",
  "One ETA and one base station time are tested, the year of the ETA not at all, and the clock is not controlled.",
  ["src/util.rs", "src/ais/vdm_t4.rs", "src/ais/vdm_t5.rs"], [("pick_eta", "src/util.rs"), ("timestamp", "src/ais/vdm_t4.rs handle")])

p("C17", "GNSS positions are the written degrees and minutes with the right sign",
  "The latitude (DDMM.M...) and longitude (DDDMM.M...) of GGA, RMC and GLL sentences are degrees plus minutes/60 for any number of minute decimals, negative for S and W and positive for N and E, and absent if the field is empty. A field that does not start with that many digits and a decimal minute is rejected, the two coordinates never influence each other or other fields, and the generic position accessor gives the same values as the fields.",
  ["inputs"], "all whole degree and minute values x fraction menu x hemisphere in each of the three sentence types, and a menu of malformed fields",
  "Three positions are tested in GGA and one each in GLL; none in RMC.",
  ["src/util.rs", "src/gnss/gga.rs", "src/gnss/rmc.rs", "src/gnss/gll.rs"], [("parse_latitude_ddmm_mmm, parse_longitude_dddmm_mmm", "src/util.rs"), ("field numbers", "src/gnss/*.rs")])

p("C18", "GNSS fields carry exactly what their own field says, or are absent",
  "Every numeric and status field of GGA, RMC, GSA, VTG, GLL (quality, satellites, DOPs, altitude, geoid separation, DGPS age and station, speed, bearing, magnetic variation with west negative, modes, active satellite numbers in order, courses, FAA mode A/D/E/N/S, validity) is the value written in its own field and absent if that field is empty or missing at the end of the sentence. Anything that is not a plain decimal number of the field's range is never turned into a number: GGA, RMC, GSA and GLL are rejected and VTG shows the field as absent; unknown status letters are rejected in RMC and GSA and absent in GLL and VTG.",
  ["inputs"], "for every sentence type all single fields over a large value menu, all pairs and triples of fields over a small one, and all truncations at field boundaries",
  "One full and one empty sentence per type are tested; no malformed, missing or boundary values.",
  ["src/gnss/*.rs", "src/util.rs"], [("pick_number_field", "src/util.rs"), ("handle functions, FaaMode::new, GgaQualityIndicator::new", "src/gnss/*.rs")])

p("C19", "GNSS times are the written UTC time on the right date, or absent",
  "The time of GGA and GLL is the written HHMMSS (any fraction dropped) on the current UTC date, and that of RMC the written HHMMSS on the written DDMMYY in the current century. A missing, short or non-numeric time or date, or one that names no real moment, gives an absent time and nothing else of the sentence is lost.",
  ["inputs", "configurations"], "all 10^6 HHMMSS and all 10^6 DDMMYY digit strings, truncations and non-digit menus, at a menu of clock readings including leap days, year ends and century ends",
  "Three valid times and two valid dates are tested at the real clock.",
  ["src/util.rs", "src/gnss/gga.rs", "src/gnss/gll.rs", "src/gnss/rmc.rs"], [("parse_hhmmss, parse_yymmdd_hhmmss", "src/util.rs")])

p("C20", "Sentences are recognised by talker and formatter alone",
  "Exactly the formatters GGA, RMC, GSA, GSV, VTG, GLL after '$' plus a two-letter talker, and VDM, VDO after '!' plus a two-letter talker, are parsed, each into its own kind of result; every other header (including proprietary, short, long or wrong-delimiter ones) gives an error and a sentence without any comma is invalid. The navigation system of the result is the talker's (GN, GP, GL, GA, BD, GI, QZ, anything else 'other'), and the talker changes nothing else.",
  ["inputs"], "all three-letter formatters with both delimiters, all two-character talkers with every supported formatter, all headers of 0 to 8 characters over a sharp alphabet",
  "Four talkers and the supported formatters are tested once each; unsupported headers not at all.",
  ["src/lib.rs", "src/gnss/mod.rs"], [("talker match and sentence type dispatch", "src/lib.rs parse_sentence")])

p("C21", "The flag state of a vessel follows the ITU country table for every MMSI",
  "For every MMSI the country of a vessel is the ISO 3166 code of the state to which the ITU assigned the identification digits MID (first three of nine digits), and absent if they are not assigned or the number is not an individual ship's. Only these three digits decide.",
  ["inputs"], "all 2^32 values of the MMSI",
  "Fourteen MMSI numbers are tested.",
  ["src/ais/mod.rs", "mid-to-iso3166.py"], [("VesselStaticData::country", "src/ais/mod.rs")], observe=["VesselStaticData::country (public API)"])

p("C22", "Nothing is retained from answered or rejected sentences",
  "The memory a parser retains depends only on the parts of multi-part messages that still wait for their counterparts: repeating any sequence of sentences any number of times does not make it grow. After a message was delivered or rejected none of its text or data is kept, so a stream of complete and rejected messages with ever new ids, vessels and talkers retains nothing.",
  ["histories"], "all bounded histories over the full alphabet repeated many times, and long streams with ever-changing message ids, MMSIs and talkers, with live heap bytes counted by the allocator",
  "The tests look at the number of stored entries after one message of two kinds.",
  ["src/lib.rs", "src/gnss/gsv.rs", AIS+"vdm_t24.rs"], [("removal of parts on delivery, rejection before storing", "src/lib.rs, src/gnss/gsv.rs")], [FRAG, VSD],
  observe=["live heap bytes of a parser between calls"])

p("C23", "Displayed texts name the decoded meaning",
  "The text a user displays for a decoded code (ship type, cargo type, position fix type, aid-to-navigation type, positioning system status, AIS class, station, navigation system, GGA quality, fix mode, FAA mode) names exactly the meaning that the transmitted code has: it contains the words of that meaning, and two different meanings of a list never show the same text (apart from the reserved, spare/local, safe water and special mark codes, which the lists name alike). Displaying never fails and depends on nothing but the code.",
  ["inputs"], "every code of every list in every message type and sentence that carries it, from transmission to text, over several backgrounds and all talkers",
  "No displayed text is tested.",
  ["src/ais/mod.rs", "src/ais/vdm_t21.rs", "src/gnss/mod.rs", "src/gnss/gga.rs", "src/gnss/gsa.rs"], [("Display implementations of the code enumerations", "src/ais/mod.rs, src/ais/vdm_t21.rs, src/gnss/*.rs")], observe=["Display of the code enumerations in results (public API)"])

p("C24", "The kind of an error tells why a sentence was rejected",
  "CorruptedSentence is returned exactly for sentences whose checksum is wrong, whatever else is wrong with them; UnsupportedSentenceType for well-formed headers of sentences and for AIS message types the crate does not support, whatever their content; InvalidSentence for everything else that is rejected (no comma, malformed counts, part numbers, payload characters, GNSS fields, static report parts that do not exist). Every error carries a non-empty text which is its to_string().",
  ["inputs"], "all unknown three-letter formatters, all talkers, all AIS message types x lengths x forms, malformed counts and part numbers, all pairs of rejected GNSS fields, each also with a right and a wrong checksum",
  "Three error kinds are tested with one sentence each.",
  ["src/error.rs", "src/lib.rs", "src/gnss/*.rs", "src/ais/*.rs"], [("ParseError and its constructors", "src/error.rs, src/lib.rs parse_sentence, handle functions")], observe=["kind and text of ParseError"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
