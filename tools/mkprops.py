import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=mech,where=', '.join(files))],observe_at=[observe],hook_needed=None)))
ALL=["encoder.go","decoder.go","sections.go","properties.go","params.go","types.go","sections_alarm.go"]
p("C01","Encoding then decoding returns the same calendar",
 "Whenever encoding a calendar succeeds, decoding the bytes written succeeds and yields an equal calendar: the same components, properties, parameters and values, with repeated items in the same order. Only what the format cannot carry may differ: fractions of a second, an empty optional parameter versus an absent one, a false RSVP versus an absent one, and the zone of a time whose zone has no name (its instant must survive).",
 ["inputs"],"for all calendar objects built from any combination of components, optional/repeated properties, parameters and typed values that Encode accepts",
 "Tests round-trip a handful of fixed calendars; most of the several hundred field/parameter/value-type combinations, and all pairs of them, are never encoded and decoded together.",
 ALL+["folder.go","unfolder.go","tokeniser.go"],"Exported encode writes each set field through generated per-property encoders; decode parses content lines back through generated per-section dispatch tables.","Encode output bytes and the calendar returned by Decode on them")
p("C02","Decoding, encoding and decoding again is stable",
 "Whenever decoding accepts a text whose values are all within the ranges of the format, encoding the result succeeds, decoding that output gives an equal calendar, and encoding once more gives byte-identical output.",
 ["inputs"],"for all iCalendar texts Decode accepts, including non-canonical spellings (case, quoting, folding, parameter order, equivalent escapes)",
 "Existing tests never feed decoded results back into the encoder, so values that decode to something the encoder refuses or rewrites are never seen.",
 ALL,"Decoded values carry locations, pointers and normalised strings into the validators and encoders.","Encode result for the calendar Decode returned, and its second decode/encode")
p("C03","Decoding any byte stream terminates with a calendar or an error",
 "For every sequence of input bytes, decoding returns after finitely many steps with either a non-nil calendar and no error or a nil calendar and an error; it never panics, loops forever or consumes memory without bound.",
 ["inputs"],"for all input byte strings, from arbitrary short strings over the structural alphabet to every small edit of complete calendars",
 "Panics and hangs sit on malformed inputs (truncated components, odd escapes, odd numbers) that example-based tests do not contain.",
 ["decoder.go","tokeniser.go","unfolder.go","sections.go","sections_alarm.go","types.go","params.go","properties.go"],"Hand written scanners index into strings and loop until a delimiter; section decoders loop until END.","return, panic or non-return of Decode")
p("C04","Decoding does not depend on how the reader chunks its data",
 "The result of decoding depends only on the bytes the reader delivers: splitting the same bytes into reads of any sizes, including one byte at a time, empty reads, reads that return data together with end-of-file, or reads ending inside a line fold, gives the same calendar or fails just the same.",
 ["inputs","fault_sequences"],"for all input texts and all ways a reader may split them into successive reads",
 "Tests decode from in-memory strings delivered in one read, so state carried between reads and buffer-boundary behaviour is never exercised.",
 ["unfolder.go","tokeniser.go","decoder.go"],"A stateful reader removes line folds while copying between fixed-size buffers.","calendar/error returned by Decode for each read schedule")
p("C05","Encoded output is folded legally and folds never change content",
 "Every line written is at most 75 octets long excluding its CRLF, ends in CRLF, and never splits a UTF-8 character; joining continuation lines gives back exactly the logical lines. When decoding, a line may be continued at any position by CRLF followed by one space or tab without changing the decoded calendar, and a CRLF not followed by one of these ends the line.",
 ["inputs"],"for all values of every length and UTF-8 width mix, and all fold positions in the input",
 "Tests check two fixed strings; the interesting cases are every length modulo 75 combined with 1 to 4 byte characters at the boundary and every position of the fold.",
 ["folder.go","unfolder.go","encoder.go","decoder.go"],"The writer tracks the octets on the current line across writes; the reader strips fold sequences.","physical lines in Encode output; Decode of re-folded text")
p("C06","Truncated input or a failing reader never yields a calendar",
 "If the data ends, or the reader returns an error, anywhere before the line that ends the calendar component is complete, decoding returns an error and no calendar; once that line has been delivered, ending the data there or anywhere after it does not change the outcome.",
 ["inputs","fault_sequences"],"for all calendar texts, all truncation points and all points at which the reader fails",
 "Failure at each individual byte offset of each kind of component is never tried by tests.",
 ["decoder.go","sections.go","sections_alarm.go","unfolder.go","tokeniser.go"],"Each section decoder must treat the end of tokens as an error until its own END is seen.","Decode's (calendar, error) pair")
p("C07","A failing writer stops encoding and its error is returned",
 "If the writer fails at any call, encoding returns that very error and makes no further calls to the writer, and what the writer accepted is a prefix of the complete output; if no call fails, encoding returns no error and the bytes do not depend on the writer.",
 ["inputs","fault_sequences"],"for all calendars, all write calls and all partial write lengths at which the writer may fail",
 "No existing test uses a failing writer.",
 ["encoder.go","folder.go"],"The folding writer remembers the first error and suppresses later writes.","error returned by Encode, sequence of Write calls seen by the writer")
p("C08","Encoding refuses invalid calendars before writing anything",
 "Encoding succeeds exactly when the calendar is representable: required times set and in years 0 to 9999, exactly one value form set where a property allows several, text and parameters free of control characters, numbers finite and in range, recurrence parts in range, period end after its start, and the relationships between properties respected (mutually exclusive, dependent, and at-least-one sub-component). When encoding reports an error, not a single byte has been written.",
 ["inputs"],"for all calendar objects with any combination of valid and invalid field values in any component",
 "Only decode-side errors are exercised by tests; validation of constructed objects is essentially untested.",
 ["encoder.go","sections.go","properties.go","params.go","types.go","sections_alarm.go"],"A validation pass over every component, property, parameter and value runs before the first write.","error from Encode and number of bytes written")
p("C09","Components nest and close exactly as written",
 "Each BEGIN opens a component that is closed by an END of the same name, every component is attached to the enclosing component that contains it in order of appearance, and a missing, extra or mismatched END is an error. Components of unknown kinds, or known kinds in the wrong place, are skipped together with everything nested in them and do not disturb what surrounds them.",
 ["inputs"],"for all trees of known, unknown and misplaced components up to a nesting depth and size, with all single mismatches",
 "Tests contain a few flat well-formed examples; nested unknown components and mismatches at each level are not covered.",
 ["sections.go","decoder.go","sections_alarm.go"],"Recursive section decoders consume tokens until their END; an ignoring decoder skips unknown components.","component lists in the calendar returned by Decode")
p("C10","Decoding enforces how often and together properties may occur",
 "Decoding rejects a component that lacks a required property, repeats a property that may occur only once, contains two mutually exclusive properties, or contains one whose companion is missing; properties that may repeat are all kept in order. Otherwise the order of properties within a component does not affect the result.",
 ["inputs"],"for all components and all multisets and orders of their properties up to a size bound",
 "There are several hundred (component, property, count) combinations; tests cover a few of them.",
 ["sections.go","sections_alarm.go"],"Generated section decoders track which fields were seen and check relationships after END.","Decode acceptance and the populated fields")
p("C11","Every name and keyword is the standard one, in both directions",
 "Each component, property, parameter and enumerated keyword is written under its standard iCalendar name, in the component it belongs to, and is recognised under that name when read, so that data exchanged with other software lands in the matching field. An unrecognised keyword is an error for enumerated properties and the unknown value for extensible enumerated parameters.",
 ["inputs"],"for all (component, property, parameter, keyword) entries of the vocabulary",
 "A name misspelt consistently in the encoder and decoder, or only in one component, round-trips in a self-test; only comparison with an independent table reveals it.",
 ["sections.go","properties.go","params.go","sections_alarm.go"],"Generated switch statements map names and keywords to fields and constants.","Encode output tokens and Decode field placement")
p("C12","Content lines are split into name, parameters and value as specified",
 "A content line is a name of letters, digits and hyphens, optional parameters each with one or more comma separated values that are plain or double-quoted, a colon, and a value running to CRLF; delimiters inside quotes or inside the value have no effect. Lines that do not have this shape, or contain control characters other than tab, make decoding fail wherever they occur.",
 ["inputs"],"for all content lines up to a length over the delimiter alphabet",
 "The grammar has many short boundary strings (empty names, empty values, stray quotes, bare CR or LF) that tests do not enumerate.",
 ["tokeniser.go","sections.go"],"A state-machine tokeniser emits name, parameter and value tokens.","acceptance by Decode and the parameter/value data in the decoded fields")
p("C13","Text values survive escaping exactly",
 "Any text without control characters (line feed and tab allowed) is written with backslash, comma, semicolon and line feed escaped and read back identically, lists of texts keep their elements and boundaries, and both spellings of an escaped line feed are understood. An unescaped semicolon, or an unescaped comma in a single-valued text, is rejected. A text ending in a lone backslash is never read with characters it does not contain.",
 ["inputs"],"for all texts and text lists up to a length over an alphabet of specials, letters and multi-byte characters",
 "Escaping errors depend on adjacency of special characters, which fixed examples cover sparsely.",
 ["types.go","properties.go"],"Character-wise escaper and unescaper.","value bytes in Encode output and text fields from Decode")
p("C14","Parameter values survive quoting and caret escaping exactly",
 "Any parameter text without control characters (line feed and tab allowed) is written quoted when it must be, with caret, double quote and line feed caret-escaped, and is read back identically; an unrecognised caret sequence is kept literally and lists keep their elements. Parameters that must be quoted are rejected when not, and a recognised parameter given twice, or with several values where one is allowed, is rejected.",
 ["inputs"],"for all parameters of all properties and all values up to a length over the special alphabet",
 "Each parameter has its own generated codec, and the failing inputs involve specials that no test contains.",
 ["params.go","properties.go","tokeniser.go"],"Per-parameter quoting, RFC 6868 caret encoding and decoding.","parameter text in Encode output and parameter fields from Decode")
p("C15","Dates and times keep their meaning and zone",
 "A date-time is read and written as UTC, as floating local time, or as local time in a named zone with exactly the calendar fields of its textual form, and a date as exactly its year, month and day; each survives both directions unchanged. Strings that are not a real date or time of the right shape, and unknown zone names, are rejected.",
 ["inputs"],"for all dates and times over field boundaries, in UTC, floating and named zones, in every property that carries them",
 "Tests cover a few instants, all in one zone configuration.",
 ["types.go","properties.go"],"Conversion between time values with a location and basic-format strings with a zone parameter.","time fields from Decode and value strings from Encode")
p("C16","Recurrence rules keep every part and reject bad ones",
 "A recurrence rule is read with exactly the frequency, limit, interval, by-lists (in order, with sign) and week start it spells, in any order of parts, and is written so that reading gives the same rule. A rule with a missing or unknown frequency, unknown or repeated part, both a count and an end, or any list element outside its range is rejected.",
 ["inputs"],"for all rules over subsets of parts, every element value of each by-list including both sides of every bound, and part orders",
 "There are 14 parts with separate range checks and encodings; tests touch single values of them.",
 ["types.go"],"Hand-written parser, validator and encoder for the rule's parts.","recurrence fields from Decode, rule string from Encode")
p("C17","Durations and periods keep sign, units and bounds",
 "A duration is read as exactly the sign, weeks, days, hours, minutes and seconds it spells and is written so that reading gives back the same amounts; a period keeps its start and its end or duration. Malformed durations, durations mixing weeks with other units, negative period durations and malformed periods are rejected.",
 ["inputs"],"for all combinations of signs and zero/non-zero/extreme unit values, and all short strings over the duration alphabet",
 "The encoder has nested special cases for zero units; the combinations are not covered by tests.",
 ["types.go","properties.go"],"Ordered unit parser and encoder with elision of zero units.","duration and period fields from Decode, strings from Encode")
p("C18","Offsets, numbers, coordinates, booleans, URIs and binary data survive",
 "UTC offsets, integers, coordinate pairs, booleans, URIs, calendar addresses and inline binary data are each read as exactly the value they spell and written so that reading gives it back exactly, over their whole range. Out-of-range, malformed or wrongly typed values (such as an offset of minus zero or binary data without its encoding) are rejected.",
 ["inputs"],"for all values over range boundaries (all offsets in seconds, all byte strings up to a length, integer extremes) in every property that carries them",
 "Tests check a few literal values per type.",
 ["types.go","properties.go","params.go"],"Scalar parsers and formatters.","scalar fields from Decode, strings from Encode")
p("C19","Names and keywords are matched regardless of letter case",
 "Changing the letter case of any component name (in BEGIN and END), property name, parameter name, or enumerated property or parameter keyword leaves the result of decoding unchanged.",
 ["inputs"],"for all names and keywords in the vocabulary in every position, and all sets of letters whose case is flipped up to a bound",
 "Tests use upper case only.",
 ["decoder.go","sections.go","sections_alarm.go","properties.go","params.go"],"Names are upper-cased before table look-up.","calendar returned by Decode")
p("C20","Calls do not interfere, mutate their input or share results",
 "Encoding never modifies the calendar it is given, its output is a function of the calendar alone, and every calendar returned by decoding is independent of the input buffer and of every other result. Any number of decodes and encodes, repeated in sequence or running concurrently (including concurrent encodes of one shared calendar), give exactly the results each gives when run alone.",
 ["inputs","histories","schedules"],"for all sequences and all interleavings of a small number of concurrent calls",
 "Shared scratch state shows only under particular interleavings or call orders; tests run each call once.",
 ["encoder.go","decoder.go","folder.go","unfolder.go","params.go","types.go"],"All state is per call (tokeniser, folder) except package-level constants and a compiled pattern.","bytes and calendars of concurrent calls compared with solo runs")
p("C21","The value-type parameter selects how a value is read",
 "A property that allows several value types is read as the type its VALUE parameter names and as its default type when there is none, only that one form is set in the result, and when writing, exactly the non-default types are announced. A VALUE that names an unknown type or one the property does not allow is rejected, and so is a value that does not match the announced type.",
 ["inputs"],"for all properties with alternative types, all VALUE names, and values of every type",
 "The cross product of properties, announced types and actual value shapes is not covered.",
 ["properties.go","params.go"],"Generated decoders pick a value decoder from the VALUE parameter.","which alternative is set after Decode; VALUE in Encode output")
p("C22","Unknown properties and parameters are ignored without side effects",
 "Inserting any well-formed property of an unknown name, or any parameter of an unknown name on any property, at any position in an acceptable calendar leaves the decoded calendar unchanged.",
 ["inputs"],"for all insertion points in all components and properties, and a set of awkward unknown lines and parameters",
 "Extensions are rare in tests; the interesting ones carry quotes, folded lines and delimiters.",
 ["sections.go","properties.go","tokeniser.go"],"Dispatch tables fall through for unknown names; unknown parameters are collected but unused.","calendar returned by Decode with and without the insertion")
p("C23","An alarm's action determines its kind",
 "An alarm is read as the kind its single ACTION property names, wherever in the alarm that property stands, with all properties of that kind; it is written with the ACTION matching its kind. An alarm with no ACTION or more than one, or lacking what its kind requires, is rejected, in events and to-dos alike.",
 ["inputs"],"for all alarm kinds, positions and spellings of the action property, and subsets of alarm properties",
 "Tests include two alarms with the action first.",
 ["sections_alarm.go","sections.go"],"Alarm lines are buffered until END, then replayed into the decoder for the action found.","dynamic kind and fields of decoded alarms; ACTION line in Encode output")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
