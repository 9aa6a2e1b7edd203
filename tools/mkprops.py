#!/usr/bin/env python3
"""Writes ../properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
D="dash7/src/"
WIRE=[D+"app/action.rs",D+"app/command.rs",D+"app/operation/mod.rs",D+"app/query.rs",D+"app/interface.rs",D+"app/interface_final.rs",D+"data/mod.rs",D+"file/mod.rs",D+"link/mod.rs",D+"link/frame.rs",D+"network/mod.rs",D+"network/addressee.rs",D+"network/network.rs",D+"physical/mod.rs",D+"session/mod.rs",D+"session/interface_final.rs",D+"transport/mod.rs"]
p("C01","Encoding what was decoded reproduces the message",
  "For every message, frame, operand, query, interface configuration or status and system file that the library can decode, encoding the decoded value succeeds and yields the same bits that were decoded, field for field. Only reserved bits (written as zero) and alternative spellings of one number or text (a length in more bytes than needed, a compressed integer with another exponent, text padding) may differ, and those decode again to an equal value.",
  ["inputs","configurations"],"every byte string accepted by a decoder, for each wire type and protocol variant",
  "The tests round-trip a few dozen hand-written values; a field dropped, swapped or written under the wrong condition only shows for values the tests do not sample.",
  WIRE+[D+"utils.rs"],[("derived and hand-written readers and writers of each type",D+"app/operation/mod.rs"),("length-prefixed payload writers",D+"utils.rs")],"bytes produced by encoding a decoded value")
p("C02","Every field sits at its place in the variant's wire layout",
  "In each protocol variant, every field of every wire type is read from and written to one fixed place: its order, width in bits, byte order, the reserved padding around it, the condition under which it is present, and the count that governs repeated data all follow that variant's layout. A change of the layout of one type or variant is never a side effect of a change elsewhere.",
  ["inputs","configurations"],"every wire type, every alternative of it, each protocol variant",
  "A consistent change of reader and writer passes every round-trip test; fixed byte vectors exist for a minority of the types and alternatives, and for few values of each.",
  WIRE,[("field attributes and readers",D+"app/query.rs"),("per-variant fields",D+"network/addressee.rs")],"decoded field values and encoded bytes")
p("C03","Each wire code means the same thing in both directions",
  "Every code on the wire (action opcodes, interface types, file identifiers, query and status kinds, address, security, channel, retry, response and error codes) selects exactly one alternative when decoding, and encoding that alternative writes that code again. A code without assigned meaning is refused when decoding, unless the type has a catch-all alternative, in which case it lands there. The code an alternative reports for itself is the code it is encoded with.",
  ["inputs","configurations"],"every value of every code field, each protocol variant",
  "The tests use a handful of the codes; swapped or duplicated codes, and unassigned codes, are not sampled.",
  WIRE,[("opcode dispatch",D+"app/action.rs"),("enumeration identifiers",D+"session/mod.rs"),("file identifiers",D+"file/mod.rs")],"decoded alternative, encoded code")
p("C04","Decoding never panics",
  "Decoding any byte string as any wire type, starting at any of the eight bit positions of the first byte and with any context values, returns a value or an error. It never panics, overflows, or indexes out of bounds.",
  ["inputs","configurations"],"all byte strings, bit offsets 0 to 7, all context values, each protocol variant",
  "The tests decode well-formed input only.",
  WIRE+[D+"types.rs",D+"utils.rs",D+"app/operation/length.rs"],[("length and compressed integer arithmetic",D+"types.rs"),("remainder computation",D+"utils.rs"),("code conversions",D+"file/mod.rs")],"absence of a panic")
p("C05","Encoding and constructing never panic, and refuse what does not fit",
  "Encoding any value of a wire type, updating it, and calling any constructor, conversion or accessor with any arguments returns normally or with an error, and never panics. A field value that does not fit its place on the wire is refused with an error, never truncated to a different value.",
  ["inputs","configurations"],"all field values and constructor arguments, each protocol variant",
  "The tests encode in-range values only.",
  WIRE+[D+"types.rs",D+"utils.rs",D+"app/operation/length.rs"],[("length and compressed integer writers",D+"app/operation/length.rs"),("constructors and conversions",D+"app/operation/mod.rs")],"absence of a panic, error result")
p("C06","Lengths are encoded in the shortest form and decoded exactly",
  "A length up to 2^30-1 is encoded as a two-bit count of extra bytes followed by the value in 6, 14, 22 or 30 bits, most significant first, with the smallest count that fits, and decodes to the same number. Any larger length is refused with an error. Decoding accepts every count and yields exactly the bits that follow it.",
  ["inputs"],"all 2^32 lengths, all 4 size classes",
  "The tests use a few small lengths; the boundaries of the size classes and the over-range values are not covered.",
  [D+"app/operation/length.rs"],[("length reader and writer",D+"app/operation/length.rs")],"encoded bytes, decoded number")
p("C07","Compressed integers round as requested, exactly",
  "A compressed integer with exponent e and mantissa m stands for m times 4 to the power e, and decompressing yields exactly that, or an error naming the component that is out of range (exponent over 7, mantissa over 31). Compressing a value up to 507904 uses the smallest exponent that can hold it and rounds down, or up if asked, to the nearest representable value; larger values are refused by compressing, by checked construction and by encoding.",
  ["inputs"],"all 2^32 values with both rounding modes, all 2^16 exponent and mantissa pairs",
  "The tests check five decompressions and four encodings; rounding up is never tested.",
  [D+"types.rs"],[("compress, decompress, range check, reader and writer",D+"types.rs")],"results of compressing and decompressing, encoded byte")
p("C08","A length prefix states exactly the payload that follows",
  "Wherever a payload is preceded by its length (file data, interface status, interface final status, transmission status), the encoded length is the number of payload bytes that immediately follow it, for every payload. When decoding, a payload of unspecified type is exactly the announced number of bytes.",
  ["inputs","configurations"],"every payload, each protocol variant",
  "The tests cover a few payloads, all shorter than 64 bytes.",
  [D+"utils.rs",D+"app/operation/mod.rs",D+"app/interface_final.rs",D+"file/mod.rs",D+"session/mod.rs"],[("length-prefixed writers",D+"utils.rs"),("length-prefixed readers",D+"app/interface_final.rs")],"encoded bytes")
p("C09","Every failure reaches the caller",
  "If reading, seeking, writing, flushing, converting or validating fails at any point while a value is decoded or encoded, the operation as a whole returns an error. No failure is dropped, replaced by a default, or turned into a successful result.",
  ["inputs","fault_sequences"],"every fallible step on every path of every decoder and encoder",
  "The tests never make a step fail.",
  WIRE+[D+"utils.rs",D+"types.rs"],[("fallible calls in readers and writers",D+"utils.rs")],"result of the decode or encode call")
p("C10","The encoding does not depend on the host",
  "Every number wider than one byte is read and written with a byte order fixed by the protocol, never with that of the machine the library runs on, and no other property of the host takes part in an encoding.",
  ["configurations","inputs"],"every multi-byte field of every wire type",
  "The tests run on a little-endian machine only.",
  WIRE,[("byte order of multi-byte fields",D+"link/frame.rs")],"encoded bytes")
p("C11","A failed array decode drops what it built, once, and nothing else",
  "When decoding a fixed-size array fails part-way, exactly the elements decoded so far are dropped, each once; when it succeeds, all elements are handed to the caller and none is dropped. Uninitialised memory is never read, dropped or returned, and the library performs no other unchecked memory operation.",
  ["inputs","fault_sequences"],"failure at every element, every array size in use; every unsafe operation in the library",
  "The tests decode arrays of plain data and never fail part-way, so a wrong drop is invisible.",
  [D+"utils.rs",D+"link/mod.rs"],[("array reader and its drop guard",D+"utils.rs")],"values dropped, memory read")
p("C12","The library only computes",
  "Decoding, encoding, constructing, inspecting and formatting values has no effect besides the returned value and the stream it was given: nothing is printed or logged, no file, environment variable, clock, random source, thread or process is used, and no state is kept between calls. Equal inputs therefore always give equal outputs.",
  ["inputs","histories"],"every function of the library, every sequence of calls",
  "The tests do not observe side effects.",
  WIRE+[D+"utils.rs",D+"types.rs"],[("call graph of the library",D+"lib.rs")],"side effects")
p("C13","The reported remainder is exactly the undecoded input",
  "Decoding from bytes with a starting bit offset returns, besides the value, the input from the first bit that was not decoded, and decoding from a stream returns the number of bits used. Decoding a whole slice succeeds only if the value uses up all of it; any byte left over is refused as an error.",
  ["inputs","configurations"],"every input and bit offset 0 to 7 of every decoding entry point",
  "The tests decode exact input and check the remainder only in that case.",
  [D+"utils.rs",D+"app/action.rs",D+"app/command.rs",D+"file/mod.rs"],[("remainder computation",D+"utils.rs"),("opcode look-ahead",D+"app/action.rs"),("end-of-input test",D+"app/command.rs")],"returned remainder, returned error")
p("C14","A command is its actions, in order, up to its end",
  "Decoding a command yields the actions in the order in which they are encoded, and stops exactly when the input is used up, when the given non-zero length is reached, or after an indirect forward; the first undecodable action makes the whole command fail. Encoding a command writes all of its actions, once each and in order, and nothing else.",
  ["inputs","histories"],"every sequence of actions and every length limit",
  "The tests decode five commands, none of which ends in a long operand, contains an undecodable action or continues past an indirect forward.",
  [D+"app/command.rs"],[("command reader loop",D+"app/command.rs"),("command writer loop",D+"app/command.rs")],"decoded list of actions, encoded bytes")
p("C15","Command look-ups return the first matching action",
  "A command's request tag, response tag, their identifiers and its interface status are those of the first action of that kind, or absent if there is none; its tag identifier is the request's, else the response's. It is a last response exactly when its first response tag marks the end of the packet, and its actions without interface status are all other actions, in order.",
  ["inputs"],"every sequence of actions",
  "No test calls these look-ups.",
  [D+"app/command.rs"],[("look-ups on commands",D+"app/command.rs")],"returned values")
p("C16","Constructed values describe themselves correctly",
  "A value built by a constructor or conversion carries every argument in the field it is named for, and its derived parts (presence flags, counts, selectors, opcodes, kinds) agree with the payload it was given. Encoding such a value therefore yields bytes that decode to an equal value.",
  ["inputs","configurations"],"all constructor arguments, each protocol variant",
  "The tests construct a few values per type.",
  [D+"network/addressee.rs",D+"app/query.rs",D+"app/operation/mod.rs",D+"app/interface_final.rs",D+"file/phy_status.rs",D+"link/mod.rs",D+"physical/mod.rs"],[("constructors and conversions",D+"app/query.rs")],"fields of the constructed value")
p("C17","Decoding terminates and is bounded by its input",
  "Every decoder and encoder terminates on every input: no wire type contains itself, every loop over input consumes at least one byte of it per round, and every other loop is over a finite collection or a fixed range.",
  ["inputs","configurations"],"every loop and call cycle reachable from a decoder or encoder",
  "Termination on all inputs cannot be sampled.",
  WIRE+[D+"utils.rs",D+"types.rs"],[("command reader loop",D+"app/command.rs"),("text padding loop",D+"utils.rs")],"termination")
p("C18","The command line tool decodes what it is told and reports failure",
  "The command line tool hands the given bytes to the decoder of the requested kind (for a system file: of the requested file), prints the result on success, and ends with a failure status if the text is not hexadecimal or the bytes do not decode. Without a requested kind it tries all kinds in a fixed order, prints the first that decodes, and fails if none does.",
  ["inputs"],"every combination of kind, file identifier and input",
  "The tool has no tests.",
  ["dash7-cli/src/parse.rs","dash7-cli/src/main.rs"],[("kind dispatch","dash7-cli/src/parse.rs")],"printed output, exit status")
p("C19","Status codes and named constants keep their meaning",
  "A status code is an error exactly when it is 0x80 or above, and every named status code, opcode and limit keeps its protocol value. Distinct names of one group have distinct values.",
  ["inputs","configurations"],"all 256 status codes, all named constants",
  "No test classifies status codes; the constants are used symbolically on both sides of the tests.",
  [D+"app/operation/mod.rs",D+"app/action.rs",D+"types.rs"],[("status classification",D+"app/operation/mod.rs"),("named opcodes",D+"app/action.rs")],"returned classification, constant values")
p("C20","Exactly one protocol variant is built, and each one builds",
  "Every advertised protocol version builds on its own, in the library and in the command line tool; selecting none, or versions of two different variants or of one variant together, is refused at compile time. What is specific to one variant exists in that variant only.",
  ["configurations"],"every feature selection",
  "The tests build three of the selections.",
  [D+"lib.rs","dash7/Cargo.toml","dash7-cli/Cargo.toml"],[("feature exclusion",D+"lib.rs")],"result of building")
p("C21","Fixed-width text is padded, stripped and bounded",
  "A fixed-width text field always takes its full width on the wire: the text, then zero bytes; text that is too long is cut at that width and never shifts the fields after it. Decoding takes exactly that width, strips the trailing zero bytes, and refuses bytes that are not valid text.",
  ["inputs"],"every text, every field width in use",
  "The tests use one text that fills its field exactly.",
  [D+"utils.rs",D+"file/firmware_version.rs"],[("fixed-width text reader and writer",D+"utils.rs")],"encoded bytes, decoded text")
p("C22","Updating a value makes it self-consistent",
  "Updating a value sets the flags, counts and selectors which the library keeps itself (mask presence, lengths of masks and values, list sizes, address and security kinds, presence of an overriding configuration, kind of a transmission status) from the fields they describe, changes nothing else, and reports an error when a count does not fit its field.",
  ["inputs","histories"],"every value reachable by changing public fields",
  "No test updates a value.",
  [D+"app/query.rs",D+"network/addressee.rs",D+"app/operation/mod.rs",D+"file/phy_status.rs",D+"app/interface_final.rs"],[("update rules of fields",D+"app/query.rs")],"fields after updating")
p("C23","A printed command shows everything in it",
  "The text form of a command names its tag if it has one, states whether it is executing, completed or completed with an error according to its response tag, lists every other action in order, and ends with its interface status if it has one; the text form of an interface status shows each of its fields with its own value.",
  ["inputs"],"every command and interface status",
  "No test formats a command.",
  [D+"app/command.rs",D+"session/mod.rs"],[("text form of commands",D+"app/command.rs"),("text form of interface status",D+"session/mod.rs")],"formatted text")
p("C24","A system file's declared identifier and size are those of its data",
  "The identifier a system file type declares is the one that selects it when file data is decoded, and the size it declares is the number of bytes of its encoding. An access profile file reports the specifier of the file it is.",
  ["configurations","inputs"],"every system file type that declares them, every access profile",
  "No test uses the declared identifiers and sizes.",
  [D+"file/mod.rs",D+"file/access_profile.rs",D+"file/firmware_version.rs"],[("declared identifiers and sizes",D+"file/access_profile.rs")],"declared constants")
p("C25","Values compare and copy structurally",
  "Two values of a wire type are equal exactly when they have the same alternative and all of their fields are equal; a clone equals its original in every field; and a type's default value is the same in every build of a variant.",
  ["inputs","configurations"],"all pairs of values of every wire type",
  "The tests compare equal values and rarely unequal ones; a field left out of a comparison makes tests pass that should fail.",
  WIRE+[D+"types.rs",D+"app/operation/length.rs"],[("equality and cloning of wire types",D+"app/operation/mod.rs")],"results of comparing and cloning")
p("C26","Memory used by decoding is bounded by the input",
  "The memory allocated while decoding is at most proportional to the size of the input, whatever counts and lengths the input announces.",
  ["inputs"],"all byte strings",
  "The tests decode well-formed input only.",
  [D+"file/mod.rs",D+"app/query.rs"],[("counted payloads",D+"app/query.rs")],"allocated memory")
p("C27","The layouts conform to the published DASH7 documents",
  "Each variant's layouts and codes are those of the document it names (DASH7 specification 1.2, Sub-IoT 0.x, Wizzilab 5.3).",
  ["inputs","configurations"],"every wire type",
  "The tests restate the author's reading of the documents.",
  WIRE,[("all layouts",D+"lib.rs")],"interoperability with devices")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
