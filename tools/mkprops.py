#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the wording)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))
LIB, ATT, MED, ADR, NET, ANO, ERR = ("src/lib.rs", "src/attribute_type.rs", "src/media_type.rs",
    "src/address.rs", "src/network.rs", "src/anonymizer.rs", "src/error.rs")

p("S01", "Parsing is total: every text gets a session or an error, never a crash",
  "For every text and both strictness settings, parsing a session description, a single line or a single attribute terminates and returns a value or an error; it never panics, overflows or hangs. Whatever value is returned can be printed, cloned and anonymized without a panic either.",
  ["inputs"], "all UTF-8 texts (any length, any characters, any line ends), both strictness settings",
  "The input space is unbounded; the tests hold a few hundred well-behaved strings and no non-ASCII or truncated text at most positions.",
  [LIB, ATT, MED, ADR, NET], [("description reader", "src/lib.rs parse_sdp"), ("line reader", "src/lib.rs parse_sdp_line"), ("attribute readers", "src/attribute_type.rs parse_*")],
  ["parse_sdp", "parse_sdp_line", "SdpAttribute::from_str", "Display", "masked_clone"])
p("S02", "Unsupported lines: a warning in lenient mode, a rejection in strict mode",
  "A well-formed but unsupported line never makes a lenient parse fail: it is skipped and recorded as a warning, and the session is the one the remaining lines describe. In strict mode a description with at least one unsupported line is rejected as unsupported, naming the first such line, even if other lines are malformed; without unsupported lines the two modes give identical results.",
  ["inputs", "configurations"], "all descriptions, both strictness settings",
  "Tests check a handful of descriptions in one mode; the relation between the modes ranges over all mixes of good, malformed and unsupported lines.",
  [LIB], [("warning collection and strict mode", "src/lib.rs parse_sdp")], ["parse_sdp(.., true)", "parse_sdp(.., false)", "SdpSession::warnings"],
  [("warnings", "unsupported lines met so far", "src/lib.rs parse_sdp")])
p("S03", "Diagnostics name the right line: class, physical line number and verbatim text",
  "When lines are malformed, the reported error is about the last malformed line, and every reported error or warning about a line carries that line's own text verbatim and its zero-based physical line number, counting blank and skipped lines. Warnings come in line order, one per unsupported line; structural errors about a misplaced line carry that line's physical number.",
  ["inputs"], "all descriptions with any arrangement of good, blank, malformed, unsupported and misplaced lines",
  "Tests never compare line numbers or texts of diagnostics; positions and mixes are combinatorial.",
  [LIB, ERR, MED], [("line numbering", "src/lib.rs parse_sdp"), ("error construction", "src/lib.rs parse_sdp_line"), ("media assembly errors", "src/media_type.rs parse_media_vector")], ["SdpParserError::{Line,Unsupported,Sequence}", "SdpSession::warnings"])
p("S04", "Every line lands in the section it was written in, in order, none lost",
  "In an accepted description every supported attribute and bandwidth line before the first media line belongs to the session and every later one to the nearest preceding supported media section, in the order written, with the value it was written with; media sections appear in order. The only lines that leave no trace are a DTLS-message attribute inside a media section and session-level connection or timing lines replaced by a later one of the same kind.",
  ["inputs"], "all accepted descriptions: any number and order of session lines, media sections and lines in them",
  "Tests look at a few attributes of a few documents; attribution and order range over every arrangement of lines.",
  [LIB, MED], [("session assembly", "src/lib.rs parse_sdp_vector, parse_session_vector"), ("media assembly", "src/media_type.rs parse_media_vector")], ["SdpSession fields", "SdpMedia getters"])
p("S05", "The skeleton is enforced: v=, o=, s= first, nothing session-only inside media",
  "A description is accepted only if its first three supported lines are version, origin and session name in that order, there are at least four supported lines, and no further version, origin or session-name line occurs. Inside a media section a timing line or a second connection line is rejected; blank lines never matter.",
  ["inputs"], "all sequences of lines",
  "Tests try a few wrong orders; the property is over all orders and repetitions.",
  [LIB, MED], [("skeleton", "src/lib.rs parse_sdp_vector"), ("media assembly", "src/media_type.rs parse_media_vector")], ["parse_sdp"])
p("S06", "An attribute is only ever stored at a level where it is allowed",
  "Each attribute kind has a fixed set of levels (session, media or both); no parsed session and no session or media section built through the API ever holds an attribute at a level where it is not allowed. Adding one, or setting one, fails and leaves the object exactly as it was; allowed ones are always accepted.",
  ["inputs", "histories"], "all attribute kinds at both levels, in every parsed text and after every sequence of builder calls",
  "Tests check a few kinds at one level each; the table has 43 kinds x 2 levels x parse/build paths, and failed additions are not followed by an inspection of the object.",
  [ATT, LIB, MED], [("level tables", "src/attribute_type.rs allowed_at_session_level, allowed_at_media_level"), ("guarded additions", "src/lib.rs add_attribute; src/media_type.rs add_attribute, set_attribute")], ["parse_sdp", "SdpSession::add_attribute", "SdpMedia::{add_attribute,set_attribute}"])
p("S07", "Session-wide constraints hold in every accepted description",
  "An accepted description has a timing line; has a connection at session level or one in every media section (vacuously if there are none); does not define header-extension maps both at session level and in a media section; and every media section with rtcp-mux-only also has rtcp-mux. A description that violates one of these is rejected, and one that satisfies them all is not rejected on their account.",
  ["inputs"], "all descriptions with any number of media sections",
  "Tests have one example per rule with one or two media sections; the rules quantify over all sections and positions.",
  [LIB], [("session checks", "src/lib.rs sanity_check_sdp_session")], ["parse_sdp"])
p("S08", "RID and simulcast references are always resolved within their media section",
  "In every accepted description, every payload type listed by a rid is a format of that media section, and every rid named by any simulcast attribute (paused or not, in any alternative) is declared by a rid of the same direction in the same media section. Descriptions with a dangling reference are rejected and fully resolved ones are not rejected on that account.",
  ["inputs"], "all media sections with any number of rids and simulcast attributes, numeric and textual format lists, both directions",
  "Tests use one simulcast attribute and few rids; the rule is over all combinations.",
  [LIB, ATT], [("reference checks", "src/lib.rs sanity_check_sdp_session")], ["parse_sdp"])
p("S09", "Media lines are read exactly: kind, port, transport and format list",
  "A media line is accepted exactly when it has a supported kind (audio, video, application), a 16-bit port with optional count, a supported transport and at least one format, where audio/video formats are usable RTP payload type numbers; matching of kind and transport ignores case. The parsed kind, port, count, transport and formats are those written, in order; unsupported kinds or transports are unsupported, everything else malformed.",
  ["inputs"], "all media lines",
  "Tests sample a few dozen lines; ports, counts, payload types and token layouts are unbounded.",
  [MED], [("media line reader", "src/media_type.rs parse_media")], ["parse_sdp_line", "SdpMediaLine"])
p("S10", "Version, origin, name, timing, connection and bandwidth lines are read exactly",
  "Each of these lines is accepted exactly when it has the fields its grammar requires, in range (64-bit ids and times, 8-bit TTL, 32-bit counts and rates, address matching the declared address type), with network and address type matched ignoring case. The parsed value has exactly the written fields; unknown bandwidth types keep their name, the session name keeps its text.",
  ["inputs"], "all such lines",
  "Tests sample a few lines of each type.",
  [LIB, NET, ADR], [("line readers", "src/lib.rs parse_version, parse_origin, parse_connection, parse_bandwidth, parse_timing, parse_session")], ["parse_sdp_line", "SdpType"])
p("S11", "Addresses are classified and printed canonically wherever they occur",
  "Wherever an address occurs (origin, connection, rtcp, candidate, related and remote candidate address), a valid IPv4 or IPv6 literal is that IP address, any other valid host name is kept as a lower-cased name, and anything else makes the line malformed; under a declared address type a literal of the other family is rejected. Printing gives the canonical spelling, which reads back as the same address.",
  ["inputs"], "all address texts in all address positions",
  "Tests use a few literals; IPv6 compression forms, octet bounds and host-name spellings are unbounded.",
  [ADR, NET, LIB, ATT], [("address reader", "src/address.rs"), ("uses", "src/lib.rs, src/attribute_type.rs parse_candidate, parse_remote_candidates, parse_rtcp")], ["Address", "ExplicitlyTypedAddress", "parse_sdp_line"])
p("S12", "The attribute vocabulary is exact: own kind per name, bare flags, rest warns",
  "Each supported attribute name, in any letter case, is recognized as its own kind and no other; flag attributes are accepted only without a value, valued attributes are never accepted with an empty or missing value, and every other name is unsupported rather than malformed. Every attribute kind prints under the name it is read from.",
  ["inputs"], "all attribute lines",
  "Tests cover most names once; case variants, near-miss names and empty values are not enumerated.",
  [ATT, LIB], [("name dispatch", "src/attribute_type.rs SdpAttribute::from_str"), ("names", "src/attribute_type.rs SdpAttributeType Display")], ["parse_sdp_line", "SdpAttribute::from_str", "Display"])
p("S13", "ICE and DTLS attributes are read exactly",
  "Candidate, remote-candidates, ice-ufrag, ice-pwd, ice-options, ice-pacing, fingerprint, setup and dtls-message attributes are accepted exactly when their required fields are present and in range, keep every written field and extension (in any order and letter case of keywords), and reject missing, extra or out-of-range fields. A fingerprint always has the number of bytes its hash prescribes; unknown hashes are unsupported.",
  ["inputs"], "all values of these attributes",
  "Tests sample a few candidates and fingerprints; extension orders, repetition and bounds are unbounded.",
  [ATT], [("readers", "src/attribute_type.rs parse_candidate, parse_remote_candidates, parse_fingerprint, parse_setup, parse_ice_options, parse_ice_pacing, parse_dtls_message")], ["parse_sdp_line", "SdpAttribute"])
p("S14", "Format parameters are read exactly, in any order and combination",
  "A format-parameter attribute is read into exactly the parameters written, whatever their order, letter case of names and blanks after separators: known parameters are range-checked and set, unlisted ones keep their defaults, unknown ones are preserved verbatim and in order, and RTX time requires an apt. Encoding lists (with '/') and DTMF tone lists are recognized as such (a malformed tone list counts as the default 0-15), out-of-range or valueless parameters are malformed, and a missing parameter part is unsupported.",
  ["inputs"], "all fmtp values: any subset, order and repetition of parameters",
  "Tests try about two dozen strings; parameters combine freely (22 known names, unknown ones, blanks, order).",
  [ATT], [("fmtp reader", "src/attribute_type.rs parse_fmtp")], ["parse_sdp_line", "SdpAttributeFmtp"])
p("S15", "Codec, feedback, SCTP and packet-time attributes are read exactly",
  "rtpmap, rtcp-fb, rtcp, sctpmap, sctp-port, max-message-size, ptime and maxptime attributes are accepted exactly when their fields are present and in range, and yield exactly those fields. Feedback types and parameters outside the supported table are unsupported, not malformed, and a supported feedback type keeps its parameter and any extra text.",
  ["inputs"], "all values of these attributes",
  "Tests sample each; combinations of type, parameter, extra and bounds are not enumerated.",
  [ATT], [("readers", "src/attribute_type.rs parse_rtpmap, parse_rtcp_fb, parse_rtcp, parse_sctpmap, parse_sctp_port")], ["parse_sdp_line", "SdpAttribute"])
p("S16", "Identification attributes are read exactly",
  "ssrc, ssrc-group, msid, msid-semantic, group, mid, label, identity and extmap attributes keep exactly the identifiers, semantics, tags, directions, values and trailing extension text written, in order. Missing or out-of-range fields are malformed; unknown group or ssrc-group semantics are unsupported.",
  ["inputs"], "all values of these attributes",
  "Tests sample each; list lengths, separators inside values and bounds are unbounded.",
  [ATT], [("readers", "src/attribute_type.rs parse_ssrc, parse_ssrc_group, parse_msid, parse_msid_semantic, parse_group, parse_extmap")], ["parse_sdp_line", "SdpAttribute"])
p("S17", "RID and simulcast attributes are read exactly",
  "A rid yields its id, direction, payload types, numeric restrictions, dependencies and unknown restrictions exactly as written, and a simulcast yields for each direction its streams in order, each with its alternatives in order and their paused marks, in both the current and the legacy 'rid=' spelling and in either direction order. A direction listed twice, a missing list or a malformed number is rejected.",
  ["inputs"], "all rid and simulcast values",
  "Tests sample a few; nesting, order and paused marks combine freely.",
  [ATT], [("readers", "src/attribute_type.rs parse_rid, parse_simulcast")], ["parse_sdp_line", "SdpAttributeRid", "SdpAttributeSimulcast"])
p("S18", "Image attributes and frame rates are read exactly",
  "An image attribute yields per direction either the wildcard or the list of sets written, each with its x and y ranges or values, sample and picture aspect ratios and preference; increasing bounds are enforced on aspect ratios, and a direction listed twice, missing x or y, or malformed numbers are rejected. A frame rate is accepted exactly when it is a finite non-zero decimal.",
  ["inputs"], "all imageattr and framerate values",
  "Tests sample about a dozen strings of a nested grammar.",
  [ATT], [("readers", "src/attribute_type.rs parse_image_attr and helpers, parse_framerate")], ["parse_sdp_line", "SdpAttributeImageAttr"])
p("S19", "Every numeric field accepts exactly its range and keeps the value",
  "For every numeric field of every line and attribute, the values inside its documented range are accepted and come back as the same number, and values outside it (one past either end, negative, empty, non-decimal, wider than the type) make the line malformed; no value wraps, saturates or is truncated.",
  ["inputs"], "every numeric field x all values of its type and neighbouring types",
  "Tests check a few bounds for a few fields; there are about seventy numeric fields.",
  [ATT, LIB, MED], [("numeric readers", "src/attribute_type.rs, src/lib.rs, src/media_type.rs")], ["parse_sdp_line"])
p("S20", "Print and re-parse gives back the same session",
  "Printing an accepted session and parsing the printed text strictly succeeds without warnings and gives the same session: the same sections, lines, order and values in every field (a format-parameter attribute holding only defaults, which has no printed form, aside). This also holds for every media section, line and attribute on its own.",
  ["inputs"], "all accepted sessions",
  "Tests round-trip about a hundred single lines and almost no whole sessions; every field of every kind and every combination must survive.",
  [LIB, MED, ATT], [("printers", "Display impls in src/lib.rs, src/media_type.rs, src/attribute_type.rs, src/address.rs"), ("readers", "parse_sdp")], ["Display", "parse_sdp"])
p("S21", "Printed text is canonical and stable",
  "The printed text of a session consists of CRLF-terminated lines in RFC order (v, o, s, t, b, c, attributes, then each media section as m, b, c, attributes) with no blank or value-less lines, in one canonical spelling determined by the values. Printing, parsing and printing again is byte-identical.",
  ["inputs"], "all accepted sessions",
  "Tests compare a few single-line spellings; line order and byte stability of whole sessions are not tested.",
  [LIB, MED, ATT], [("printers", "Display impls")], ["Display"])
p("S22", "A media section's attribute list behaves as an ordered multiset with set-by-kind",
  "For every sequence of operations on a media section, adding appends, setting removes all attributes of that kind and appends the new one, removing removes exactly the attributes of that kind, and queries return the first or all attributes of a kind in order; other attributes, their order and all other fields stay untouched. Port, bandwidth and connection updates change just that item.",
  ["histories"], "all sequences of builder operations on a media section",
  "Tests perform one or two operations on one object; the property is over all histories.",
  [MED], [("attribute list operations", "src/media_type.rs SdpMedia")], ["SdpMedia API"],
  [("attribute", "ordered attribute list", "src/media_type.rs SdpMedia")])
p("S23", "Codec and data-channel operations keep formats and attributes consistent",
  "Adding a codec appends its payload type to the format list and its rtpmap to the attributes; removing codecs empties the format list (keeping its kind) and removes exactly the codec attributes (rtpmap, fmtp, rtcp-fb, sctpmap, sctp-port). Adding a data channel turns the section into an application section with exactly one format and the attribute form its transport calls for, replacing an earlier one, and sets the maximum message size only when it is non-zero.",
  ["histories"], "all interleavings of codec, data-channel and attribute operations on sections of every transport",
  "Tests try each operation once on a fresh section.",
  [MED], [("codec operations", "src/media_type.rs add_codec, remove_codecs, add_datachannel")], ["SdpMedia API"],
  [("media.formats", "payload types / formats", "src/media_type.rs SdpMediaLine"), ("attribute", "ordered attribute list", "src/media_type.rs SdpMedia")])
p("S24", "Sessions built through the API print to text that parses back to them",
  "For every sequence of session-building calls, the session holds exactly what was added, in order, with connection and timing replaced by the latest setting, and its queries return the first attribute of a kind. If the built session satisfies the session-wide constraints and each of its media sections is writable (a 16-bit port and at least one format its kind can read), its printed text is accepted and parses back to the same session.",
  ["histories"], "all sequences of session-builder calls",
  "Tests build one or two sessions; the property is over all histories and their printed texts.",
  [LIB, MED], [("session builder", "src/lib.rs SdpSession::{new,set_connection,add_bandwidth,set_timing,add_attribute,extend_media,add_media,get_attribute}")], ["SdpSession API", "Display", "parse_sdp"],
  [("SdpSession", "the session under construction", "src/lib.rs")])
p("S25", "One anonymizer always masks the same value the same way",
  "Within one anonymizer, each occurrence of the same value of the same category (host, IP, port, origin user, ICE user, ICE password, fingerprint, CNAME) gets the same mask, wherever it occurs, in whichever session, and however many other values were masked in between. Masking the same session twice with one anonymizer gives equal results.",
  ["histories"], "all histories of masking operations and sessions on one anonymizer",
  "Tests mask a few values once or twice on a fresh anonymizer.",
  [ANO, LIB, MED, ATT], [("memo tables", "src/anonymizer.rs StatefulSdpAnonymizer")], ["masked_clone", "mask_*"],
  [("memo tables", "value -> mask per category", "src/anonymizer.rs")])
p("S26", "Masks are distinct per value and keep kind and form",
  "Within one anonymizer, different values of one category get different masks, for any number of values. A masked value keeps its kind: IPv4 stays IPv4, IPv6 stays IPv6, host names stay host names with their declared address type, optional fields stay present or absent.",
  ["histories"], "all histories of masking operations, of any length",
  "Collisions need hundreds of distinct values or particular histories; tests use a handful.",
  [ANO, ATT, LIB], [("counters", "src/anonymizer.rs")], ["mask_*", "masked_clone"],
  [("counters", "next mask per category", "src/anonymizer.rs")])
p("S27", "No sensitive value survives anonymization",
  "In an anonymized session every origin user name and address, connection address (session and media), candidate address, port, related address and port and user fragment, remote-candidate address and port, rtcp address, ICE user fragment and password, certificate fingerprint and ssrc CNAME value is a mask produced by the anonymizer, at session level and in every media section. None of the original values is carried over in those places (a value that happens to equal a generated mask aside), and no diagnostic quoting the original text is.",
  ["inputs", "histories"], "all sessions, all attribute combinations, any anonymizer history",
  "Tests look at selected fields of one session.",
  [ANO, LIB, MED, ATT], [("masked_clone", "src/lib.rs, src/media_type.rs, src/attribute_type.rs")], ["masked_clone"])
p("S28", "Anonymization changes nothing but the sensitive values",
  "Apart from the masked values, an anonymized session equals the original: the same version, origin ids, name, timing, bandwidth, TTL and counts, attributes in the same order with the same remaining fields, the same media sections in order. The diagnostics of the original parse are not part of it. The original session is unchanged.",
  ["inputs", "histories"], "all sessions",
  "Tests compare a few fields of one session; omissions (e.g. of media sections) go unnoticed.",
  [LIB, MED, ATT, ANO], [("masked_clone", "src/lib.rs, src/media_type.rs, src/attribute_type.rs")], ["masked_clone"])
p("S29", "Results depend only on the input: no hidden state, any order, any thread",
  "Parsing, printing and anonymizing with a fresh anonymizer are functions of their input: repeating them, interleaving them with other calls (including failing ones) and running them from several threads at once gives identical results. Distinct anonymizers do not influence each other.",
  ["histories", "schedules"], "all call histories and thread interleavings",
  "Tests call each function once per input on one thread.",
  [LIB, ATT, MED, ANO], [("pure functions, no globals", "src/*.rs")], ["parse_sdp", "Display", "masked_clone"])
p("S30", "The serialized view of a session agrees with the session",
  "With serialization enabled, every accepted session and every error serializes without failure, and the serialized view contains the same sections, attributes, order and field values as the session's programmatic view; serialized diagnostics carry their class, message, line text and line number. Enabling serialization changes no parsing or printing result.",
  ["inputs", "configurations"], "all accepted sessions and all errors, feature on",
  "Serialization is compiled out of the tests.",
  [LIB, ATT, MED, ERR, ADR], [("Serialize derives", "cfg_attr(feature = \"serialize\")"), ("error serializer", "src/error.rs")], ["serde_json::to_value"])

ids = [x["id"] for x in P]
assert len(set(ids)) == len(ids)
for x in P:
    assert len(x["title"]) <= 80, (x["id"], x["title"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
