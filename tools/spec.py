#!/usr/bin/env python3
"""The one source of properties.jsonl, checks.json and MANIFEST.json: run it to rewrite them."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


# How many times the cases the harness asks for are run per process: what fits in some 15 s
SCALE = dict(C01=20, C02=7, C03=9, C04=9, C05=2, C06=8, C07=9, C08=4, C09=6, C10=10, C11=16, C12=6, C13=20, C14=6, C15=4, C18=3, C21=13, C22=4, C23=5, C25=2, C27=2, C29=5, C30=11, C31=3, C33=18, C34=20, C36=4)


def prop(id, title, statement, over, text, why, files, mech, rule, technique, note, observe=(), state=(), **conf):
    conf.setdefault("scale", SCALE.get(id, 1))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  rule=rule, technique=technique, note=note, observe=list(observe), state=list(state), conf=conf))


def m(name, where):
    return {"name": name, "where": where}


TRUST = " Trusted: the Go toolchain, rapid, and the reference tables and encoders in harness/ref, written from the field layout in saratoga.json."

prop("C01", "A data frame delivers session, offset, timestamp and payload byte for byte",
     "For every session number, offset, payload (empty ones too), descriptor, timestamp type and combination of flags, a data frame that is built and encoded has the documented wire layout, and the receiver that decodes those bytes gets exactly the session, offset, timestamp, payload and header flags the sender put in. This holds also for frames made, or decoded, in one that was used before.",
     ["inputs", "configurations"], "all field values x all descriptors x all flag combinations x all timestamp types, made from a flag list, from a header word, or by another implementation",
     "data_test.go builds one frame and does not compare the payload it gets back.",
     ["data/data.go", "sarflags/sarflags.go", "timestamp/timestamp.go"], [m("New/Make/Encode/Decode", "data/data.go"), m("flag table and Set/GetStr", "sarflags/sarflags.go")],
     "A case is a flag list or header word with a session, an offset biased to the limits of the descriptor and a payload of biased length. It is non-trivial when payload and offset are both non-zero.",
     "property-based testing: round trip and differential against a reference encoder (rapid)",
     "Generated frames from three sources (flag list, header word, foreign bytes) compared byte for byte with an independent encoder and decoded into fresh and used frames." + TRUST,
     observe=["bytes of Encode", "fields after Decode"], pkg="c01")

prop("C02", "A status frame delivers progress, in-response-to and every hole in order",
     "For every session, progress, in-response-to and list of holes that the descriptor can hold, a status frame that is built and encoded has the documented wire layout (timestamp when asked for, holes in order), and decoding it gives exactly those values, holes and flags. Making one, or decoding, in a frame that held other holes leaves none of the old ones.",
     ["inputs", "configurations"], "all numbers within the descriptor x hole lists of any length x all flag combinations and timestamp types",
     "status_test.go makes one frame with two holes.",
     ["status/status.go", "holes/holes.go", "sarflags/sarflags.go"], [m("New/Make/Encode/Decode", "status/status.go")],
     "A case is a flag list or header word with session, progress, in-response-to and up to dozens of holes. It is non-trivial when it has holes.",
     "property-based testing: round trip and differential against a reference encoder (rapid)",
     "As C01, for status frames." + TRUST, observe=["bytes of Encode", "fields after Decode"], pkg="c02")

prop("C03", "A request frame delivers the file name and the authentication bytes unchanged",
     "For every session, file name without NUL, authentication field of any bytes and combination of flags, a request frame that is built and encoded has the documented wire layout, and decoding it gives exactly that session, name, authentication and header. This holds also for frames made, or decoded, in one that was used before.",
     ["inputs", "configurations"], "all names without NUL x all authentication bytes (with NULs, empty) x all flag combinations",
     "request_test.go builds one frame without authentication bytes.",
     ["request/request.go", "sarflags/sarflags.go"], [m("New/Make/Encode/Decode", "request/request.go")],
     "A case is a flag list or header word with a session, a name (biased to odd bytes and UTF-8) and authentication bytes. It is non-trivial when the name is not empty.",
     "property-based testing: round trip and differential against a reference encoder (rapid)",
     "As C01, for request frames." + TRUST, observe=["bytes of Encode", "fields after Decode"], pkg="c03")

prop("C04", "A beacon advertises identity, willingness and free space truthfully",
     "For every endpoint identifier, free space and combination of flags, a beacon carries the identifier unchanged and, if free space is advertised, the number of kilobytes it was given (or, for zero, what the file system has) in a field just wide enough for it; without it, none. Encoded it has the documented wire layout, and decoding it gives the same values and flags, also in a beacon used before.",
     ["inputs", "configurations"], "all free space values x identifiers x flag combinations",
     "The beacon package has no test.",
     ["beacon/beacon.go", "sarsys/sys_linux.go", "sarflags/sarflags.go"], [m("New/Make/Encode/Decode", "beacon/beacon.go"), m("free space of the file system", "sarsys/sys_linux.go")],
     "A case is a flag list, a header word or foreign bytes with free space biased to the limits of the widths and an identifier. It is non-trivial when the identifier is not empty (foreign: and space is advertised).",
     "property-based testing: round trip and differential against a reference encoder (rapid)",
     "As C01, for beacons; the value the file system gives is compared with statfs within 4 GB." + TRUST, observe=["bytes of Encode", "fields after Decode"], pkg="c04")

prop("C05", "The metadata of a file tells the truth about it, on both ends",
     "For every file, directory or pipe in the saratoga directory, the metadata frame made for it carries its size in a field just wide enough, its modification and change times, its name as asked for, the properties it has and the checksum of its content of the type asked for; what cannot be described as asked (missing, a link, of another kind) is refused. Encoded it has the documented layout, and decoding it gives the same values, also in a frame used before.",
     ["inputs", "configurations"], "all contents, sizes up to beyond 4 GiB, names, kinds, checksum types and flag combinations",
     "metadata_test.go describes one file and looks at no value.",
     ["metadata/metadata.go", "dirent/dirent.go", "fileio/fileio.go", "fileio/checksum.go"], [m("New/Make/Encode/Decode", "metadata/metadata.go"), m("New", "dirent/dirent.go")],
     "A case makes a file (or sparse file, directory, pipe, link, or nothing) in a scratch saratoga directory and asks for its metadata. It is non-trivial when there is something in it to describe.",
     "property-based testing: generated files against lstat, reference checksums and a reference encoder (rapid)",
     "Real files in a scratch directory; the frame is compared with lstat and independent checksums, byte for byte." + TRUST, observe=["bytes of Encode", "fields after Decode"], pkg="c05")

prop("C06", "A directory entry delivers properties, size, times and path unchanged",
     "For every size, modification and change time, path of 1 to 1024 bytes without NUL and property, a directory entry that is encoded has the documented layout and decodes to exactly those values; the entry made for something in the saratoga directory says what the file system says of it.",
     ["inputs"], "all sizes x times x paths x properties x descriptors",
     "The dirent package has no test.",
     ["dirent/dirent.go", "fileio/fileio.go", "timestamp/timestamp.go"], [m("New/Encode/Decode", "dirent/dirent.go")],
     "A case is a directory entry by its fields, or a file to make one for. It is non-trivial when it has a path and a size, or describes a file.",
     "property-based testing: round trip and differential against a reference encoder and lstat (rapid)",
     "As C05, for single entries." + TRUST, observe=["bytes of Encode", "fields after Decode"], pkg="c06")

prop("C07", "A timestamp keeps its instant to the precision of its type, through the wire",
     "For every instant its type can hold, a timestamp keeps the seconds and, if the type has them, the nanoseconds; written it is 16 bytes in the documented layout, and reading them gives the same type and instant, which print as that instant in UTC. An instant the type cannot hold, an unknown type and bytes cut short are refused; a timestamp of the current time is of the moment it was asked for. One made or read in a timestamp used before keeps nothing of what that was.",
     ["inputs"], "all timestamp types x instants biased to the limits of the fields",
     "timestamp_test.go tries the current time only.",
     ["timestamp/timestamp.go"], [m("New/Now/Encode/Decode/Get", "timestamp/timestamp.go")],
     "A case is a type and an instant, or the bytes of a timestamp. It is non-trivial when the type has a meaning of its own.",
     "property-based testing: round trip and differential against a reference encoder (rapid)",
     "Instants biased to both ends of every field." + TRUST, pkg="c07")

prop("C08", "Whatever bytes arrive, decoding gives a frame that can be shown, or an error",
     "For every sequence of bytes, decoding it as any kind of frame neither crashes nor hangs nor ends the process nor changes the bytes: it gives an error if the bytes cannot be that frame (cut short, a number in an unsupported width, a timestamp of unknown type), and otherwise a frame that can be printed. A complete well-formed frame is never refused.",
     ["inputs", "histories"], "all byte strings, decoded as each of the frame kinds, also after another frame",
     "The tests decode nothing but what they encoded themselves.",
     ["beacon/beacon.go", "request/request.go", "metadata/metadata.go", "data/data.go", "status/status.go", "dirent/dirent.go", "timestamp/timestamp.go", "frames/frames.go"],
     [m("Decode/Print/ShortPrint of each frame", "*/*.go")],
     "A case is a kind and bytes: a well-formed frame, one cut short, extended, spliced with another, with bits flipped, or noise. It is non-trivial when it is accepted, or refused at 8 bytes or more.",
     "structure-aware fuzzing with an acceptance oracle (rapid)",
     "Mutated and random byte strings; crash, exit, hang and wrong acceptance are failures." + TRUST, pkg="c08")

prop("C09", "What was accepted off the network can be sent on without changing its meaning",
     "For every sequence of bytes accepted as some frame, encoding the decoded frame gives bytes which decode to the same meaning, and encoding again gives the same bytes; encoding does not change the frame. For requests and beacons the bytes are the ones that came in.",
     ["inputs"], "all byte strings that are accepted, as each of the frame kinds",
     "The tests decode nothing but what they encoded themselves.",
     ["beacon/beacon.go", "request/request.go", "metadata/metadata.go", "data/data.go", "status/status.go", "dirent/dirent.go", "timestamp/timestamp.go"],
     [m("Encode/Decode of each frame", "*/*.go")],
     "A case is a kind and bytes, made as for C08. It is non-trivial when the bytes are accepted.",
     "metamorphic fuzzing: decode, encode, decode is the identity (rapid)",
     "Mutated frames of all kinds; the meaning is compared field by field." + TRUST, pkg="c09")

prop("C10", "A number the descriptor cannot hold is refused, never cut to fit",
     "Encoding a frame in which an offset, progress, hole, free space or file size does not fit the width its header gives, or a path is over 1024 bytes, or the width is the unsupported 128 bits, fails with an error; one in which everything fits is encoded, and arrives with the same numbers.",
     ["inputs", "configurations"], "all numbers x all widths x all frames with a width",
     "The tests use numbers that fit.",
     ["data/data.go", "status/status.go", "beacon/beacon.go", "dirent/dirent.go", "metadata/metadata.go"], [m("Encode of each frame", "*/*.go")],
     "A case is a frame with numbers around the limit of its width. It is non-trivial when something does not fit.",
     "property-based testing: generated boundary values against the width table (rapid)",
     "Numbers biased to each limit, both sides of it." + TRUST, pkg="c10")

prop("C11", "Header fields are independent: setting one changes its bits and no others",
     "After any history of setting header fields to their named values, each field reads back the value set last and all other bits are as they were, at the bit positions of the configuration; setting several at once is the same as one by one. An unknown field or value is refused with an error, changes nothing and does not end the process; the same goes for directory entry and timestamp headers.",
     ["histories", "configurations"], "all sequences of fields and values, valid and not, from all starting words",
     "There is no test of the flags.",
     ["sarflags/sarflags.go"], [m("Set/SetA/Get/GetStr/Name and the D and T forms", "sarflags/sarflags.go")],
     "A case is a starting word and a history of settings. It is non-trivial when at least two of them are valid.",
     "model-based testing: histories against a table of bit fields (rapid)",
     "The model is the bit table written down independently." + TRUST, pkg="c11")

prop("C12", "Flag lists say what was last set, and frames get the global settings that apply",
     "After any history of adding and replacing flags, a flag list holds each flag once with the value set last, and asking for a flag gives that value or nothing; an invalid flag or value changes nothing. The list for a frame type has exactly the global settings that apply to the frame, and the frame made with it has them in its header.",
     ["histories", "configurations"], "all histories of adds and replaces of valid and invalid flags, in both flag alphabets; all global settings, some missing",
     "There is no test of the flag lists.",
     ["sarflags/sarflags.go"], [m("AddFlag/ReplaceFlag/FlagValue/Setglobal", "sarflags/sarflags.go")],
     "A case is a history of adds and replaces, or a set of global settings and a frame type. It is non-trivial when a flag is replaced or a second one added, or some setting applies.",
     "model-based testing: histories against a map (rapid)",
     "Adding a flag that is in the list already is outside of the domain (ReplaceFlag is for that)." + TRUST, pkg="c12")

prop("C13", "The record of received pieces is exact: fills and holes partition the file",
     "After any history of received pieces [start,end) in any order, with overlaps, repeats and touching ends, the record lists exactly the bytes received as sorted, disjoint, merged ranges, and the holes are exactly the gaps before the last byte received. The order the pieces came in makes no difference, and asking for holes changes nothing.",
     ["histories"], "all histories of pieces, in all orders",
     "The holes package has no test.",
     ["holes/holes.go"], [m("Add/Getholes/Lenholes", "holes/holes.go")],
     "A case is a set of points at scales up to 2^57 and a history of pieces between them. It is non-trivial when there was a hole at some time.",
     "model-based testing: histories against a bit set, and permutation as a metamorphic relation (rapid)",
     "Every step is compared with a set model." + TRUST, pkg="c13")

prop("C14", "Bytes written at an offset are the bytes read there, and nothing else moves",
     "For any history of writes and reads at any offsets (also beyond 4 GiB), a read gives the bytes last written there, fewer at the end of the file and an error after it; the file has exactly what was written and zeros between. A write or read that cannot be done (offset beyond what files can have, device full, file closed, missing or open for sending) gives an error.",
     ["histories", "fault_sequences"], "all histories of writes, reads and reopening; faults of the device and the handle",
     "fileio_test.go writes and reads once at offset zero.",
     ["fileio/fileio.go"], [m("FileWrite/FileRead", "fileio/fileio.go")],
     "A case is a base offset and a history of writes and reads, or a fault and a write. It is non-trivial when something written is read, or a fault is injected.",
     "model-based testing: histories against a byte array, with injected faults (rapid)",
     "Real files in a scratch directory; /dev/full is the full device." + TRUST, pkg="c14")

prop("C15", "Receiving never touches a file that is there; sending never changes one",
     "Opening a file to receive makes a new empty one (for getdir a directory its owner can use) and fails if anything of that name is there, whatever kind; of several receivers of one name at once, one gets it. Opening one to send gives its content and no way to change it, and fails if it is not there; removing removes just what was named; nothing else in the directory changes.",
     ["histories", "schedules"], "all histories of opening, writing, closing, removing and of others making files; concurrent opens of one name",
     "fileio_test.go opens one file each way.",
     ["fileio/fileio.go"], [m("FileOpen/FileRm/FileDelete/FileExists/FileMeta", "fileio/fileio.go")],
     "A case is a history of operations in a scratch directory, or a set of opens at once. It is non-trivial when an open meets a file that is there, something is removed, or opens run at once.",
     "model-based testing: histories against a model file system; concurrent opens (rapid)",
     "The whole directory is compared with the model after each step. Concurrent opens are repeated, not enumerated." + TRUST, pkg="c15", retries=2000)

prop("C16", "No name a peer can send reaches anything outside the saratoga directory",
     "For every file name, however it is written (.., absolute, doubled slashes) and however the saratoga directory is configured, no request or file operation reads, describes, creates, changes or removes anything outside the saratoga directory, or the directory itself; a name that leads out is treated as not being there. A name that stays inside works however it is written.",
     ["inputs", "configurations"], "all names x all operations x ways to write the saratoga directory",
     "The tests use plain names of files that are there.",
     ["fileio/fileio.go", "fileio/checksum.go", "trans/trans.go", "metadata/metadata.go", "dirent/dirent.go"], [m("file access below the saratoga directory", "fileio/fileio.go")],
     "A case is a history of operations and requests with names made of path pieces. It is non-trivial when some name leads out.",
     "property-based testing: generated names in an arena, invariant over the whole arena (rapid)",
     "Runs as an unprivileged user in a scratch arena; names have at most four '..' so that they stay in it. Links inside the directory that point out are outside of the domain (a peer cannot make them)." + TRUST, pkg="c16", sarnet=True, unpriv=True)

prop("C17", "The checksum of a file is that of all its bytes, of the type asked for",
     "For every file content and each of none, crc32, md5 and sha1, the checksum is the standard one over the whole file, as long as the header field for it says, and changes when any bit of the file does; an unknown type or a missing file is an error, and the file stays as it is and is not left open.",
     ["inputs"], "all contents and lengths around block sizes x all checksum types",
     "No test compares a checksum with a known one.",
     ["fileio/checksum.go"], [m("Checksum", "fileio/checksum.go")],
     "A case is a file of generated length and content and a type. It is non-trivial when there is a checksum of at least a byte.",
     "property-based testing: differential against reference checksums, single bit flips (rapid)",
     "CRC-32 is computed bit by bit here, md5 and sha1 with the standard library." + TRUST, pkg="c17")

prop("C18", "A file cut into data frames arrives whole over a lossy, reordering link",
     "For every file, frame size and sequence of loss, duplication and reordering, a sender that answers each reported hole and a receiver that writes each piece at its offset end with the same file at the receiver: same bytes, same length, and a checksum that matches the metadata frame. At no time does the receiver report as received what it has not, or as missing what it has.",
     ["inputs", "fault_sequences", "histories"], "all files x frame sizes x descriptors x histories of loss, duplication and reordering",
     "No test transfers anything.",
     ["data/data.go", "status/status.go", "metadata/metadata.go", "holes/holes.go", "fileio/fileio.go", "fileio/checksum.go"], [m("frames, holes and files together", "data, status, metadata, holes, fileio")],
     "A case is a file, a frame size, flags, and the fate of each frame (lost, doubled, late). It is non-trivial when something is lost.",
     "model-based testing: simulated transfers with generated link faults (rapid)",
     "The loops of sender and receiver are the check's own (the repository's are unfinished); everything they are made of is the repository's." + TRUST, pkg="c18")

prop("C19", "The table of peers says of each address what its last beacon said, once",
     "After any history of beacons from any addresses, also arriving at once, there is exactly one entry for each address, with the willingness, free space, identifier and descriptor of its latest beacon; each beacon is reported as news just when the peer is new or says something else than before. A beacon from one peer does not change what is known of another.",
     ["histories", "schedules"], "all histories of beacons from a set of addresses; concurrent beacons",
     "No test touches the peers.",
     ["beacon/beacon.go"], [m("NewPeer and the lock of the table", "beacon/beacon.go")],
     "A case is a history of beacons, or several at once. It is non-trivial when an address is heard again, or beacons come at once.",
     "model-based testing: histories against a map; concurrent histories under the race detector (rapid)",
     "Concurrent runs are repeated under the race detector, not enumerated." + TRUST, pkg="c19", sarnet=True, race=True, retries=60)

prop("C20", "A request is answered once, with the right code, and does just what it asked",
     "Every request gets exactly one status, to the peer and session it came from, with the error code its content calls for: bad requests, unwilling peers, files missing or in the way, sessions in use for something else. A delete removes just that file; any other request changes no file; an accepted one is one transfer of that peer and session, also when it is sent again or several come at once.",
     ["histories", "schedules", "inputs"], "all histories of requests from several peers with any header; concurrent requests for one session",
     "No test makes a request to anything.",
     ["trans/trans.go", "fileio/fileio.go", "status/status.go"], [m("AddRxTran", "trans/trans.go")],
     "A case is a history of requests with generated headers, names, sessions and peers, some sent again, or several at once. It is non-trivial when some request is not merely bad.",
     "model-based testing: histories against a model of directory and transfers; concurrent requests under the race detector (rapid)",
     "Files are in a scratch directory; runs unprivileged." + TRUST, pkg="c20", sarnet=True, race=True, unpriv=True, retries=60)

import spec2  # noqa: E402,F401

NA = spec2.NA


def write(name, text):
    with open(os.path.join(HERE, name), "w") as f:
        f.write(text)


def main():
    write("properties.jsonl", "".join(json.dumps(dict(
        id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
        anchors=dict(files=p["files"], mechanism=p["mech"], state=p["state"], observe_at=p["observe"], hook_needed=None)), ensure_ascii=False) + "\n" for p in P + spec2.UNCLAIMED))
    write("checks.json", json.dumps({p["id"]: dict(p["conf"], rule=p["rule"]) for p in P}, indent=1) + "\n")
    write("MANIFEST.json", json.dumps(dict(
        version=1, setup_cmd="./setup",
        checks=[dict(property=p["id"], quick_cmd="./check " + p["id"], thorough_cmd="VERIF_TIER=thorough ./check %s --thorough" % p["id"],
                     evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level="exploration", level_note=p["note"]) for p in P],
        not_applicable=NA, notes="No hooks in /repo: harnesses use the packages from outside, in-package tests go in through an overlay. See DESIGN.md."), indent=1) + "\n")


if __name__ == "__main__":
    main()
