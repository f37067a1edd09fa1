"""More of spec.py."""
import __main__ as s

m, TRUST = s.m, s.TRUST

s.prop("C21", "The listener hands on every readable frame and answers every broken one",
     "Of any sequence of datagrams from any peers, each that is a readable frame of version 1 is handed on once, in order, unchanged and with the address it came from; a broken data, metadata or status frame, or one of another version, is answered with one bad-packet status to its sender, for its session. Datagrams too short, too long, of unknown kind, broken beacons and broken requests are dropped, and none of them stops the listener; it ends, with an error, just when its socket does.",
     ["histories", "inputs"], "all sequences of datagrams, well formed, cut, damaged, too long, from several peers over IPv4 and IPv6",
     "No test receives anything from a socket.",
     ["saratoga/saratoga.go", "sarflags/sarflags.go"], [m("listen", "saratoga/saratoga.go")],
     "A case is up to eight datagrams from two senders, sent over the loopback to the listener. It is non-trivial when at least two things are to be handed on or answered.",
     "model-based testing: generated datagrams through a real socket against a model of the listener (rapid)",
     "In-package test through an overlay; the listener runs with real sockets on the loopback. What is done with the frames handed on is another matter (C19, C20)." + TRUST,
     inpkg="github.com/charlesetsmith/saratoga/saratoga", overlay={"saratoga/zz_verif_test.go": "c21/listen_verif_test.go"}, sarnet=True, retries=10)

s.prop("C22", "The configuration file decides every setting, and a broken one is refused",
     "For every well-formed configuration file, each setting and each table of flags is as the file says, the saratoga directory as the environment says if it does; a file that cannot be read, is cut short, has a setting of the wrong type or names a value its flag does not have gives an error and no crash. Reading another file afterwards gives what that one says.",
     ["configurations", "histories"], "all configuration files: settings, flag tables, broken in generated ways; sequences of files",
     "No test reads but the shipped file, and none looks at what was read.",
     ["sarflags/sarflags.go", "saratoga/saratoga.json"], [m("ReadConfig", "sarflags/sarflags.go")],
     "A case is a sequence of generated files, some broken. It is non-trivial when the settings differ from the shipped ones or a file is broken.",
     "property-based testing: generated configuration files against what was generated (rapid)",
     "Files are made in a scratch directory." + TRUST, pkg="c22")

s.prop("C23", "A copy of the settings has all of them, and changing one leaves the other",
     "For all settings, a copy of them is equal in every part, and after any history of changes to either, the other is as it was; copying changes nothing, and settings without any flags are refused.",
     ["inputs", "histories"], "all settings x all histories of changes to original and copy",
     "No test copies settings.",
     ["sarflags/sarflags.go"], [m("CopyCliflags", "sarflags/sarflags.go")],
     "A case is a set of settings and a history of changes to the two. It is non-trivial when there is a change.",
     "model-based testing: histories of edits to original and copy against separate models (rapid)",
     "The fields are found by reflection." + TRUST, pkg="c23")

s.prop("C24", "A command changes the setting it names to what it says, and nothing else",
     "After any sequence of command lines, each setting (flags, beacon count and interval, timeouts, timestamp and time zone) is what the last valid command for it said, and all others are as they were; a line with an unknown value, a missing or a surplus word changes nothing. A setting asked for is shown as it is, and the new ones are those of the transfers started later, also when lines are run at once.",
     ["histories", "schedules"], "all sequences of command lines, valid and not; lines run at once with transfers started meanwhile",
     "No test runs a command.",
     ["sarwin/sarwin.go", "sarflags/sarflags.go"], [m("Run and the commands", "sarwin/sarwin.go"), m("CopyCliflags", "sarflags/sarflags.go")],
     "A case is a sequence of command lines, or lines run at once. It is non-trivial when a setting changes, or lines run at once.",
     "model-based testing: command histories against a map of the settings; concurrent ones under the race detector (rapid)",
     "The commands run with a screen that is not shown. Numbers in unusual writings and switching off a timeout are not judged." + TRUST, pkg="c24", sarnet=True, race=True, retries=60)

s.prop("C25", "Nothing that is typed stops the node, and it shows the peers it knows",
     "Every line typed is either run or refused as an unknown command and comes to an end without a crash, whatever its words are. The peers command shows each known peer once, with its identifier, willingness, descriptor and free space.",
     ["inputs", "histories"], "all lines of commands and arbitrary words; all tables of peers",
     "No test runs a command.",
     ["sarwin/sarwin.go", "beacon/beacon.go"], [m("Run and the commands", "sarwin/sarwin.go")],
     "A case is a sequence of lines, or a table of peers. It is non-trivial when a line is a command with words, or there are peers.",
     "fuzzing: generated command lines for crashes and hangs; tables of peers against what is shown (rapid)",
     "Exit is left out, as are lines that look up a name in the network and those that would wait for a peer (get, take, getdir); put, putblind, give and delete are started and have to come to an end." + TRUST, pkg="c25", sarnet=True)

s.prop("C26", "The beacon command sends each address its beacons, and what they say is so",
     "For every list of words given to the beacon command, each valid address among them is sent as many beacons as are set, an interval apart, with the flags that are set, this node's address and process as identifier, and the space that is free if that is to be told; \"v4\" and \"v6\" stand for the multicast address set for them, and words that are no address are passed over. Asking about beacons names the multicasts switched on and not off since, that and switching them off sends none, and lines run at once each send theirs.",
     ["histories", "schedules", "configurations"], "all settings x all lines of addresses and other words, one after the other or at once",
     "No test sends a beacon.",
     ["sarwin/sarwin.go", "sarnet/sarnet.go", "beacon/beacon.go"], [m("cmdBeacon/sendbeacons", "sarwin/sarwin.go")],
     "A case is a list of lines with settings for each. It is non-trivial when two or more beacons are due, or lines run at once.",
     "model-based testing: command lines against the datagrams that arrive on the loopback (rapid, race detector)",
     "Receivers are at loopback addresses of the process alone, also those of the multicasts; names are left out. Few cases have an interval, as they take seconds." + TRUST, pkg="c26", sarnet=True, race=True, retries=30)

s.prop("C27", "There is one transfer for each file and peer, found by its session until removed",
     "After any history of starting and removing transfers, the table holds exactly those started and not removed, each with a session of its own, connected to its peer, and found by peer and session; one is refused just when the peer and file have one already, its kind is unknown, or the file to be received is there or the one to be sent is not, and then leaves no connection open. Received metadata gives a transfer its size and entry, starting one does not change files that are there, and all this holds when they are started and removed at once.",
     ["histories", "schedules"], "all histories of starts, removals and lookups over peers and files that come and go; several at once",
     "No test starts a transfer.",
     ["sarwin/sarwin.go"], [m("NewInitiator/Lookup/Match/Remove/Change", "sarwin/sarwin.go")],
     "A case is a history of operations, or several at once. It is non-trivial when a transfer is started and another operation refused or removed one.",
     "model-based testing: histories against a model of table and directory; concurrent ones under the race detector (rapid)",
     "Real sockets on the loopback, files in a scratch directory. What a transfer that is found says later is not judged when others are removed at once." + TRUST, pkg="c27", sarnet=True, race=True, retries=60)

s.prop("C28", "The statuses of a transfer name every hole once, in frames that fit the MTU",
     "For all that was received of a file and every MTU and descriptor, the statuses sent name all holes before and between what was received exactly once and in order, with the session, progress and flags of the transfer, each frame within the MTU and said to be complete just when it is the only one; a status with an error is one frame without holes. When a frame cannot be sent, has no room for a hole, or a number does not fit the descriptor, no success is reported.",
     ["inputs", "histories"], "all sets of received parts x flags x MTUs x progress, with and without a working connection",
     "No test sends the status of a transfer.",
     ["sarwin/sarwin.go", "holes/holes.go", "status/status.go"], [m("WriteStatus/stpaylen", "sarwin/sarwin.go")],
     "A case is a set of fills, flags, an MTU and a connection. It is non-trivial when two or more holes have to be told.",
     "property-based testing: statuses received on the loopback against a model of holes and frames (rapid)",
     "Flags are name=value pairs; the type of the timestamp is the default." + TRUST, pkg="c28", sarnet=True)

s.prop("C29", "Every written address is read as what it is, with the port of Saratoga",
     "For every IPv4 and IPv6 address in every form of writing, with or without a zone, reading it gives that address with port 7542, and it is shown as address and port; what is no address and no name gives an error. Taking an address off a list leaves exactly the others, in order, however often it is on it, and the list it was taken off as it was.",
     ["inputs"], "all addresses in all forms; texts that are none; all lists of addresses, zones among them",
     "No test reads an address.",
     ["sarnet/sarnet.go"], [m("UDPAddress/UDPinfo/RemoveUDPAddrValue", "sarnet/sarnet.go")],
     "A case is an address or a list and an address. It is non-trivial when the text is an address, or some but not all of the list is to be removed.",
     "property-based testing: addresses written out from their bytes, lists against a model (rapid)",
     "Names are left out, as there is no network to look them up." + TRUST, pkg="c29", sarnet=True)

s.prop("C30", "Frames own what they carry: nothing done later to a buffer reaches them",
     "A frame that was built or decoded, a packet made of it to be handed on, and bytes encoded from it stay as they are, whatever is done afterwards to the buffer it was decoded from, to the data it was built from, to other encodings of it, or to the frame itself by decoding another one into it or making another one in it. What is done to the frame does not change the data of the caller either.",
     ["histories"], "all sequences of frames received through one buffer and decoded into used frames; all data of callers",
     "No test uses a buffer or a frame twice.",
     ["data/data.go", "status/status.go", "request/request.go", "beacon/beacon.go", "metadata/metadata.go", "dirent/dirent.go"], [m("New/Make/Decode/Encode/Val", "*/*.go")],
     "A case is a sequence of frames through one buffer and two frames, or a frame built of data that is overwritten. It is non-trivial when two frames are accepted, or there is data.",
     "metamorphic testing: frames through a shared buffer against frames decoded alone (rapid)",
     "The fields of a packet may share memory with the frame it was made of; only decoding into the frame again and making another one in it are judged." + TRUST, pkg="c30")

s.prop("C31", "What is shown of a frame is what it says",
     "For every frame, the long and the short description show its header word, session, numbers, name, timestamp, checksum and identifier as they are, the long one each flag of the header with the name of its value and every hole in order, the short one how many there are. Showing a frame does not change it.",
     ["inputs"], "all well-formed frames and directory entries",
     "The tests print frames and do not look.",
     ["data/data.go", "status/status.go", "request/request.go", "beacon/beacon.go", "metadata/metadata.go", "dirent/dirent.go"], [m("Print/ShortPrint", "*/*.go")],
     "A case is a well-formed frame of generated fields; each is non-trivial.",
     "property-based testing: descriptions searched for each value, named by a reference table (rapid)",
     "That the values are shown is judged, not the layout around them." + TRUST, pkg="c31")

s.prop("C33", "Sending puts exactly the encoding on the wire, once, to the right peer",
     "For every sequence of frames and peers, over sockets that are connected and ones that are not, each peer receives exactly the encodings of the frames sent to it, one datagram each, in order and from the socket used. A frame that cannot be encoded and a socket that is closed give an error and nothing is sent; sending does not change the frame.",
     ["histories", "fault_sequences"], "all sequences of frames, peers and sockets, with frames that cannot be encoded and closed sockets",
     "No test sends anything.",
     ["data/data.go", "status/status.go", "request/request.go", "beacon/beacon.go", "metadata/metadata.go"], [m("Send", "*/*.go")],
     "A case is up to five frames sent to three receivers over the loopback. It is non-trivial when there are two or more.",
     "property-based testing: real sockets on the loopback against the list of encodings (rapid)",
     "Beacons are sent over connected sockets only. A mark sent behind them tells when all has arrived." + TRUST, pkg="c33", retries=10)

s.prop("C34", "No frame is made of flags that do not exist or do not apply to it",
     "For every kind of frame and every list of flags of which one, wherever it stands, has an unknown name, belongs to another kind of frame, or has a value the flag cannot have, making the frame fails with an error and no crash; without that one it is made.",
     ["inputs", "configurations"], "all kinds of frames x lists of valid flags x one invalid one x its place",
     "No test gives an invalid flag.",
     ["data/data.go", "status/status.go", "request/request.go", "beacon/beacon.go", "metadata/metadata.go", "dirent/dirent.go", "sarflags/sarflags.go"], [m("New", "*/*.go")],
     "A case is a kind, a list of valid flags, an invalid one and its place. It is non-trivial when there are valid ones too.",
     "property-based testing: generated flag lists with one planted fault (rapid)",
     "Entries that are no name=value pair are outside of the domain, as are version and frame type." + TRUST, pkg="c34")

NA = []
UNCLAIMED = []

s.prop("C32", "The line that is run is the line that is shown, however it was edited",
     "For every sequence of keys, pasted lines and every prompt, however long the line, a typed character takes the place of the one at the cursor, backspace takes away the one before it, neither touches a prompt, and enter runs and remembers exactly what is shown after the prompt of the line the cursor is in, nothing if that is empty, and opens a new line after the last one. Keys pressed in the other windows change no line and run nothing; the packet window is in front of the messages exactly while it is switched on.",
     ["inputs", "histories"], "all sequences of keys over several lines and windows; prompts and characters of all kinds; lines that scroll",
     "No test presses a key.",
     ["sarwin/sarwin.go"], [m("GetLine/BackSpace/CursorLeft/CursorRight/CursorUp/CursorDown/prompt/switchView/Layout", "sarwin/sarwin.go")],
     "A case is a prompt and a sequence of keys and texts. It is non-trivial when a line is run and there was a correction.",
     "model-based testing: keys pressed on a terminal against a model of the lines (rapid)",
     "A terminal of its own and the real main loop of the window library; each key is drawn before the next one, pasted lines apart." + TRUST, pkg="c32", sarnet=True, retries=10)

s.prop("C35", "Asked for transfers, help or a clear window, the node shows just that",
     "For every set of transfers, each command that lists them shows exactly those of the kind asked for, each once with kind, peer and file. Help and usage show the text the configuration has for each command, a command with ? its own; what is printed is in its window once, and clearing takes it out of the windows named and no others, also when lines are run at once.",
     ["inputs", "schedules"], "all sets of transfers x listing commands; all texts of commands; all sequences of windows to clear; lines run at once",
     "No test runs a command.",
     ["sarwin/sarwin.go"], [m("Info/cmdTran/cmdHelp/cmdUsage/cmdClear/Clearwin/prhelp/prusage", "sarwin/sarwin.go")],
     "A case is a set of transfers and lines, texts and a line, or what is printed and a clear command. It is non-trivial when some but not all transfers are asked for, one command is asked about, something was printed, or lines run at once.",
     "property-based testing: what is shown in the windows against sets of transfers and texts; lines at once under the race detector (rapid)",
     "The windows are those of the library, undrawn. The command cancel, which is not written yet, is left out, and the order of lines, as they are printed at once." + TRUST, pkg="c35", sarnet=True, race=True, retries=30)

s.prop("C36", "What is said of a file or a disk is what the system says of it",
     "For every file, directory, pipe, socket and link in the saratoga directory, its description has the name, kind, size, permissions, owner, group, times and, for a link, the origin that it has. Size, free, available and used space of a file system are those of the system, and its usage is the part in use.",
     ["inputs", "configurations"], "all kinds of entries x sizes x permissions x owners x times to the nanosecond; several file systems",
     "No test looks at the description of a file.",
     ["fileio/fileio.go", "sarsys/sys_linux.go"], [m("FileMeta", "fileio/fileio.go"), m("NewTime/GetOwnerAndGroup/DiskUsage", "sarsys/sys_linux.go")],
     "A case is an entry made with generated properties, or a file system; all are non-trivial but file systems without blocks.",
     "property-based testing: entries made with known properties, and the system's own figures (rapid)",
     "Figures of a file system that changes while it is asked are asked for again." + TRUST, pkg="c36")

s.prop("C37", "A running node does with each datagram what it has to, and runs on",
     "Whatever datagrams reach a running node over IPv4 and IPv6, from several peers at once, it keeps running, and then knows exactly the peers whose beacons came, as they last said, has exactly the transfers that were validly asked for, and has lost exactly the files it was validly asked to delete.",
     ["histories", "schedules", "inputs"], "all sequences of bursts of datagrams of all kinds, well formed and broken, over both families",
     "No test starts the program.",
     ["saratoga/saratoga.go", "trans/trans.go", "beacon/beacon.go"], [m("main and listen", "saratoga/saratoga.go")],
     "A case is up to four bursts of up to eight datagrams sent to the running program. It is non-trivial when a beacon or a request is among them.",
     "model-based testing: bursts of datagrams to the running program against a model of its tables and files (rapid)",
     "The program's own main runs, on a terminal nobody looks at, with its sockets on the loopback interface and its directory in scratch. Within a burst, requests have sessions and names of their own. The program does not send its answers yet, so none are judged here; see C20 and C21 for those." + TRUST,
     inpkg="github.com/charlesetsmith/saratoga/saratoga", overlay={"saratoga/zz_verif_test.go": "c37/main_verif_test.go", "saratoga/zz_verif_prop_test.go": "c37/prop_verif_test.go"}, sarnet=True, retries=10)

s.prop("C38", "A node on a terminal does what is typed until told to exit, and cleans up",
     "Whatever lines are typed on its terminal, at any speed and wider than its window, and however the terminal is resized, a node goes on, runs each line, sends its beacons and shows its peers, until exit, quit or ^C; it then ends, with the status asked for. When it ends, could not start or cannot go on as a listener fails, the terminal has the modes and the screen it had before, and in those two cases it says why and has status 1.",
     ["histories", "configurations", "schedules"], "all sequences of lines, corrections, resizes, beacons and requests of peers; all ways to exit; configurations and command lines that cannot work; sockets that fail",
     "No test starts the program.",
     ["saratoga/saratoga.go", "sarwin/sarwin.go"], [m("main", "saratoga/saratoga.go"), m("Layout/prompt/GetLine/cmdExit", "sarwin/sarwin.go")],
     "A case is a terminal, up to ten things done to it, and how the node is told to exit; or why it cannot start. It is non-trivial when beacons, peers or deletions are asked for, a socket fails, or it cannot start.",
     "model-based testing: a process and a terminal for each case, typed on and read as an emulator does, and the beacons that arrive (rapid)",
     "The program's own main runs in a child; its terminal is a pty. Beacons asked for are typed again twice before their lack is a failure, as lines run at once. Corrections are typed when the prompt is shown; peers are looked for on terminals of 130 by 40 and more. The status after ^C is not judged." + TRUST,
     inpkg="github.com/charlesetsmith/saratoga/saratoga", overlay={"saratoga/zz_verif_test.go": "c38/term_verif_test.go", "saratoga/zz_verif_prop_test.go": "c38/prop_verif_test.go"}, sarnet=True, scale=3, retries=10)

s.prop("C39", "What arrives at a node, and what comes of it, is shown to its user",
     "Whatever datagrams reach a running node, its packet window lists each that can be read, as what it is, and nothing that did not come; its error window names the sender of each that cannot, once, and has one line for each request that is refused. Its messages tell once of each beacon that is news and of each request that is granted, with the address it came from, and show the answer to each request and to each broken frame that gets one, with its session and error code, over the kind of network it came by.",
     ["histories", "schedules", "inputs"], "all sequences of bursts of datagrams of all kinds, well formed, repeated and broken, over both families",
     "No test starts the program, or looks at a window.",
     ["saratoga/saratoga.go", "trans/trans.go", "beacon/beacon.go"], [m("main and listen", "saratoga/saratoga.go"), m("AddRxTran", "trans/trans.go"), m("fprintln", "sarwin/sarwin.go")],
     "A case is up to four bursts of up to sixteen datagrams sent to the running program. It is non-trivial when one of them can be read.",
     "model-based testing: the windows of the running program against a model of what came (rapid)",
     "As C37, with a copy of the library of the windows that tells what the program made of it, and else is the same. The order of what is shown is not judged, nor what else is; a frame may be listed again by who reads it, and frames with text that is not plain ASCII are left out." + TRUST,
     inpkg="github.com/charlesetsmith/saratoga/saratoga", overlay={"saratoga/zz_verif_test.go": "c37/main_verif_test.go", "saratoga/zz_verif_prop_test.go": "c39/shown_verif_test.go"}, sarnet=True, gocui=True, retries=10)
s.prop("C40", "The windows share any terminal, and show what is printed in its colour",
     "In a terminal of any size that has space for them, and after every resize, the command, error and message windows lie beside each other, the packet window before the messages while it is switched on, and the one that keys go to is marked. What is printed to a window is drawn in it whole, wrapped at its edge, in the colour asked for or in white on red if there is none such, and what came last of the messages and errors is in view, also after the window was cleared or scrolled. The line that is typed is in view up to the cursor.",
     ["histories", "inputs"], "all sequences of prints, clears, keys and resizes, in terminals of all sizes, for all colours and texts",
     "No test draws a window.",
     ["sarwin/sarwin.go"], [m("Layout and resized", "sarwin/sarwin.go"), m("setcolour and fprintf", "sarwin/sarwin.go"), m("Clearwin", "sarwin/sarwin.go"), m("CursorDown and gotolastrow", "sarwin/sarwin.go")],
     "A case is up to fourteen prints, bursts of them, clears, keys, lines typed and resizes. It is non-trivial when something is printed and three things are done.",
     "model-based testing: the cells the terminal is given against a model of what was printed (rapid)",
     "As C32, with a terminal of its own that is resized; the cells are read from the library that draws them. A terminal under 16 columns or rows has to be survived alone, windows of less than three rows show what they can, and the packet window, which does not scroll by itself, is judged while all of it fits. What is printed comes one after the other: the library takes what is printed at once in any order." + TRUST,
     pkg="c40", sarnet=True, retries=10, scale=2)

s.prop("C41", "What a node says of itself when it starts is so",
     "However its directory is named, in the environment or the configuration, and on whatever interface it runs, a node that starts says which directory it has, as an absolute name, and the space that is left to it there. It says the interface, with its MTU, flags and all of its addresses and no others, the groups and the port its listeners have, the limits of its numbers and its largest descriptor, and it prompts as its configuration has it.",
     ["configurations"], "all directories, named in all ways; all interfaces; all prompts",
     "No test starts the program.",
     ["saratoga/saratoga.go", "sarflags/sarflags.go"], [m("main", "saratoga/saratoga.go"), m("ReadConfig", "sarflags/sarflags.go"), m("UDPinfo", "sarnet/sarnet.go")],
     "A case is a directory of up to three levels and how it is named, an interface, a prompt and a terminal. It is non-trivial when one of them is unusual: not absolute, not of the environment, with percent signs or levels, another interface or prompt.",
     "differential testing: what the terminal of the running program shows against what the system says (rapid)",
     "As C38, on terminals that have space for all that is said. The interfaces are those of the machine that both groups can be joined on, which may be the loopback alone; space may differ by 512 MB as others write; of the groups those that come and go with other nodes may be shown or not." + TRUST,
     inpkg="github.com/charlesetsmith/saratoga/saratoga", overlay={"saratoga/zz_verif_test.go": "c38/term_verif_test.go", "saratoga/zz_verif_prop_test.go": "c41/said_verif_test.go"}, sarnet=True, scale=8, retries=10)
