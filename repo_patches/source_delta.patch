From 6e32b34240e176a16c06b93dcd04990676a0bebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:33 +0000
Subject: [PATCH 01/67] fix: sarflags: report unknown field values and options
 to the caller instead of killing the process

A header field with no named value (reachable from any received frame) or an
unknown flag name called log.Fatalln, so one datagram ended the node. The error
returns that were already written behind log.Fatalln are now reached, and the
name lookups return "".
---
 sarflags/sarflags.go | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/sarflags/sarflags.go b/sarflags/sarflags.go
index ad05a5b..bef504c 100644
--- a/sarflags/sarflags.go
+++ b/sarflags/sarflags.go
@@ -688,8 +688,7 @@ func GetStr(curflag uint32, field string) string {
 			return k
 		}
 	}
-	log.Fatalln("GetStr fail Invalid field", field, "in Flag", curflag)
-	return ""
+	return "" // No option has that value
 }
 
 // Set - Given a current header and bitfield name with a new value return the revised header
@@ -697,21 +696,18 @@ func GetStr(curflag uint32, field string) string {
 func Set(curflag uint32, field string, flagname string) (uint32, error) {
 	fl, ok := Flags[field]
 	if !ok {
-		log.Fatalln("Set lookup fail Invalid Flag", field)
 		e := "invalid Flag: " + field
 		return curflag, errors.New(e)
 	}
 
 	if !Good(field) {
 		e := "Set - Invalid Field:" + field + ":"
-		log.Fatalln(e)
 		return curflag, errors.New(e)
 	}
 	// Get the value of the flag
 	newval, ok := Flags[field].Options[flagname]
 	if !ok {
 		e := "Set lookup fail Invalid flagname" + flagname + "in DFlag" + field
-		log.Fatalln(e)
 		return curflag, errors.New(e)
 	}
 
@@ -749,8 +745,7 @@ func Name(curflag uint32, field string) string {
 			return k
 		}
 	}
-	log.Fatalln("Name out of range")
-	return ""
+	return "" // No option has that value
 }
 
 // Fields - return a slice of flag fields that are used by frametype
@@ -809,8 +804,7 @@ func GetDStr(curflag uint16, field string) string {
 			return ki
 		}
 	}
-	log.Fatalln("GetDStr fail Invalid field", field, "in DFlag:", curflag)
-	return ""
+	return "" // No option has that value
 }
 
 // SetD - Given a current header and bitfield name with a new value return the revised header
@@ -818,14 +812,12 @@ func SetD(curflag uint16, field string, flagname string) (uint16, error) {
 
 	if !GoodD(field) {
 		e := "Invalid Date Field:" + field + ":"
-		log.Fatalln(e)
 		return curflag, errors.New(e)
 	}
 	// Get the value of the flag
 	newval, ok := DirentFlags[field].Options[flagname]
 	if !ok {
 		e := "SetD lookup fail Invalid flagname" + flagname + "in DFlag" + field
-		log.Fatalln(e)
 		return curflag, errors.New(e)
 	}
 
@@ -873,8 +865,7 @@ func NameD(curdflag uint16, field string) string {
 			return ki
 		}
 	}
-	log.Fatalln("NameD out of range")
-	return ""
+	return "" // No option has that value
 }
 
 // GoodD -- Is this a valid Descriptor Flag
@@ -954,8 +945,7 @@ func GetTStr(curflag uint8) string {
 			return ki
 		}
 	}
-	log.Fatalln("GetTStr fail Invalid Tflag:", curflag)
-	return ""
+	return "" // No option has that value
 }
 
 // SetT Given a current header and bitfield name with a new value return the revised header
@@ -963,7 +953,6 @@ func SetT(curflag uint8, flagname string) (uint8, error) {
 
 	newval, found := TimeStamps.Options[flagname]
 	if !found {
-		log.Fatalln("SetT lookup fail Invalid flagname", flagname, "in TFlag")
 		e := "invalid TFlag: " + flagname
 		return curflag, errors.New(e)
 	}
@@ -987,8 +976,7 @@ func NameT(curtflag uint8) string {
 			return ki
 		}
 	}
-	log.Fatalln("NameT out of range")
-	return ""
+	return "" // No option has that value
 }
 
 // FrameT - return a slice of flag names that are used by Timeinfo
-- 
2.43.0


From 198b9a2f59965bc8eabbb1e1e68fbc186301ffc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:57 +0000
Subject: [PATCH 02/67] fix: sarflags: flag list helpers accept an empty list
 and refuse an unknown flag

ReplaceFlag and ReplaceFlagD indexed past the end of an empty flag list, AddFlag
and AddFlagD ended the process on an unknown flag, and FlagValue paniced on an
entry without a value.
---
 sarflags/sarflags.go | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/sarflags/sarflags.go b/sarflags/sarflags.go
index bef504c..a23001c 100644
--- a/sarflags/sarflags.go
+++ b/sarflags/sarflags.go
@@ -585,7 +585,7 @@ func AddFlag(curflag string, flag string, option string) string {
 		}
 		return newflags
 	}
-	log.Fatalln("Invalid Flag:", flag, "or option:", option)
+	log.Println("Invalid Flag:", flag, "or option:", option)
 	return curflag
 }
 
@@ -596,9 +596,9 @@ func FlagValue(flags, flag string) string {
 	// Grab the flags and set the frame header
 	flagslice := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flagslice {
-		f := strings.Split(flagslice[fl], "=") // f[0]=name f[1]=val
-		if f[0] == flag {
-			return f[1]
+		name, val, _ := strings.Cut(flagslice[fl], "=")
+		if name == flag {
+			return val
 		}
 	}
 	return ""
@@ -610,14 +610,22 @@ func ReplaceFlag(flags, value, option string) string {
 	var newflags string
 	var replaced bool
 
+	if !Valid(value, option) {
+		log.Println("Invalid Flag:", value, "or option:", option)
+		return flags
+	}
 	for _, flag := range strings.Split(flags, ",") {
-		if strings.Split(flag, "=")[0] == value {
+		name, val, _ := strings.Cut(flag, "=")
+		if name == "" {
+			continue // No flags set yet
+		}
+		if name == value {
 			replaced = true
 			// We are replacing this current flags value with a new one
 			newflags = AddFlag(newflags, value, option)
 		} else {
 			// Just add the current flag to the list
-			newflags = AddFlag(newflags, strings.Split(flag, "=")[0], strings.Split(flag, "=")[1])
+			newflags = AddFlag(newflags, name, val)
 		}
 	}
 	if !replaced { // We are adding this flag as it does not currently exist
@@ -894,7 +902,7 @@ func AddFlagD(curflag string, flag string, option string) string {
 		}
 		return newflags
 	}
-	log.Fatalln("Invalid Directory Flag:", flag, "or option:", option)
+	log.Println("Invalid Directory Flag:", flag, "or option:", option)
 	return curflag
 }
 
@@ -903,14 +911,22 @@ func ReplaceFlagD(flags, value, option string) string {
 	var newflags string
 	var replaced bool
 
+	if !ValidD(value, option) {
+		log.Println("Invalid Flag:", value, "or option:", option)
+		return flags
+	}
 	for _, flag := range strings.Split(flags, ",") {
-		if strings.Split(flag, "=")[0] == value {
+		name, val, _ := strings.Cut(flag, "=")
+		if name == "" {
+			continue // No flags set yet
+		}
+		if name == value {
 			replaced = true
 			// We are replacing this current flags value with a new one
 			newflags = AddFlagD(newflags, value, option)
 		} else {
 			// Just add the current flag to the list
-			newflags = AddFlagD(newflags, strings.Split(flag, "=")[0], strings.Split(flag, "=")[1])
+			newflags = AddFlagD(newflags, name, val)
 		}
 	}
 	if !replaced { // We are adding this flag as it does not currently exist
-- 
2.43.0


From 70d7f46ab24e4ba5c35c44ac0d5a5f57fa337036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:59 +0000
Subject: [PATCH 03/67] fix: sarflags: CopyCliflags copies the IPv6 multicast
 address and the beacon count

---
 sarflags/sarflags.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sarflags/sarflags.go b/sarflags/sarflags.go
index a23001c..62cf8f4 100644
--- a/sarflags/sarflags.go
+++ b/sarflags/sarflags.go
@@ -638,7 +638,7 @@ func ReplaceFlag(flags, value, option string) string {
 func (s *Cliflags) CopyCliflags() (*Cliflags, error) {
 	d := new(Cliflags)
 	d.V4Multicast = s.V4Multicast
-	d.V6Multicast = s.V4Multicast
+	d.V6Multicast = s.V6Multicast
 	d.Port = s.Port
 	d.Timestamp = s.Timestamp
 	d.Timezone = s.Timezone
@@ -646,6 +646,7 @@ func (s *Cliflags) CopyCliflags() (*Cliflags, error) {
 	d.Ppad = s.Ppad
 	d.Sardir = s.Sardir
 	d.Buffersize = s.Buffersize
+	d.Bcount = s.Bcount
 	// Copy the various Timeouts
 	d.Timeout.Binterval = s.Timeout.Binterval
 	d.Timeout.Metadata = s.Timeout.Metadata
-- 
2.43.0


From ee496d4c588b7391b103a3f787ef24cb8d183488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:01 +0000
Subject: [PATCH 04/67] fix: sarflags: ReadConfig returns an error for an
 unreadable or wrongly typed config

It paniced on a value of the wrong JSON type, and on os.Args[1] when the file
could not be read by a program started without arguments.
---
 sarflags/sarflags.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sarflags/sarflags.go b/sarflags/sarflags.go
index 62cf8f4..9142876 100644
--- a/sarflags/sarflags.go
+++ b/sarflags/sarflags.go
@@ -319,8 +319,13 @@ func getmaxdesc() (desc string, err error) {
 
 // Read  in the JSON Config data
 // Set values to the filled out Cliflags structure in *Cliflags
-func (c *Cliflags) ReadConfig(fname string) error {
-	var err error
+func (c *Cliflags) ReadConfig(fname string) (err error) {
+	// A value of the wrong JSON type is an error in the config file
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("invalid value in saratoga config file %s: %v", fname, r)
+		}
+	}()
 
 	// var cmu sync.Mutex
 	Flags = make(map[string]Flagtype)             // Setup the Flags global map
@@ -335,13 +340,13 @@ func (c *Cliflags) ReadConfig(fname string) error {
 
 	var confdata []byte
 	if confdata, err = os.ReadFile(fname); err != nil {
-		fmt.Println("Cannot open the saratoga config file", os.Args[1], ":", err)
+		fmt.Println("Cannot open the saratoga config file", fname, ":", err)
 		return err
 	}
 
 	var sarconfdata map[string]interface{}
 	if err = json.Unmarshal([]byte(confdata), &sarconfdata); err != nil {
-		fmt.Println("Cannot Unmarshal json from saratoga config file", os.Args[1], ":", err)
+		fmt.Println("Cannot Unmarshal json from saratoga config file", fname, ":", err)
 		return err
 	}
 	// Lock them up while we are changing the values
-- 
2.43.0


From 5b68bc1f5f2acbee4bc9b4123f7a7d9e4793040a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:53 +0000
Subject: [PATCH 05/67] fix: timestamp: posix32_32 and posix64_32 keep the
 instant they are given

UnixNano wraps after 2262 and gives a negative fraction before 1970, so the
seconds and nanoseconds stored were not those of the time passed in.
---
 timestamp/timestamp.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/timestamp/timestamp.go b/timestamp/timestamp.go
index 13a8f19..e79b451 100644
--- a/timestamp/timestamp.go
+++ b/timestamp/timestamp.go
@@ -51,19 +51,17 @@ func (t *Timestamp) New(flag string, ts time.Time) error {
 		t.nsecs = 0
 		t.local = ""
 	case "posix32_32":
-		nsecs := ts.UnixNano()
-		t.secs = uint64(nsecs / 1e9)
+		t.secs = uint64(ts.Unix())
 		t.ttype = flag
-		t.nsecs = uint64(nsecs % 1e9)
+		t.nsecs = uint64(ts.Nanosecond())
 		if t.secs > sarflags.MaxUint32 {
 			return errors.New("posix32_32:Seconds exceed 32 bits")
 		}
 		t.local = ""
 	case "posix64_32":
-		nsecs := ts.UnixNano()
-		t.secs = uint64(nsecs / 1e9)
+		t.secs = uint64(ts.Unix())
 		t.ttype = flag
-		t.nsecs = uint64(nsecs % 1e9)
+		t.nsecs = uint64(ts.Nanosecond())
 		if t.nsecs > sarflags.MaxUint32 {
 			return errors.New("posix64_32:Remainder exceed 32 bits")
 		}
-- 
2.43.0


From debbcfe8ce7d3079110e95ac87d15da8c8b512cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:55 +0000
Subject: [PATCH 06/67] fix: timestamp: Get accepts the local timestamp Put
 writes and refuses a short one

A localinterp timestamp could be sent but never received, and a buffer shorter
than its type needs caused a panic.
---
 timestamp/timestamp.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/timestamp/timestamp.go b/timestamp/timestamp.go
index e79b451..c5af84d 100644
--- a/timestamp/timestamp.go
+++ b/timestamp/timestamp.go
@@ -127,8 +127,25 @@ func (t *Timestamp) Now(flag string) error {
 // Get -- Get  timestamp from buffer
 func (t *Timestamp) Get(tstamp []byte) error {
 
+	if len(tstamp) < 1 {
+		return errors.New("timestamp.Get: Timestamp too short")
+	}
 	t.header = tstamp[0]
 	ttype := sarflags.GetTStr(t.header)
+	need := 1 // How many bytes this type of timestamp uses
+	switch ttype {
+	case "posix32", "epoch2000_32":
+		need = 5
+	case "posix64", "posix32_32":
+		need = 9
+	case "posix64_32":
+		need = 13
+	case "localinterp":
+		need = 15
+	}
+	if len(tstamp) < need {
+		return errors.New("timestamp.Get: Timestamp too short")
+	}
 	switch ttype {
 	case "posix32":
 		t.secs = uint64(binary.BigEndian.Uint32(tstamp[1:5]))
@@ -155,10 +172,15 @@ func (t *Timestamp) Get(tstamp []byte) error {
 		t.nsecs = 0
 		t.local = ""
 		t.ttype = ttype
+	case "localinterp":
+		t.secs = 0
+		t.nsecs = 0
+		t.local = strings.TrimRight(string(tstamp[1:15]), "\x00")
+		t.ttype = ttype
 	default:
 		t.secs = 0
 		t.nsecs = 0
-		t.local = string(tstamp[1:15])
+		t.local = ""
 		t.ttype = ttype
 		e := "timestamp.Get: Invalid Timestamp type:" + ttype
 		return errors.New(e)
-- 
2.43.0


From 19b40b7a6fec5d69aa7f96aec42c71709ed45cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:26 +0000
Subject: [PATCH 07/67] fix: dirent: encode sizes of 4 GiB and more with a 64
 bit descriptor

---
 dirent/dirent.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/dirent/dirent.go b/dirent/dirent.go
index 202aa6b..6dba710 100644
--- a/dirent/dirent.go
+++ b/dirent/dirent.go
@@ -172,10 +172,6 @@ func (d *DirEnt) Encode() ([]byte, error) {
 		}
 		binary.BigEndian.PutUint32(frame[pos:pos+dsize], uint32(d.Size))
 	case 8:
-		if d.Size > sarflags.MaxUint32 { // This should never happen!!!!
-			e := fmt.Sprintf("Descriptor d64 too small for file size %d", d.Size)
-			return nil, errors.New(e)
-		}
 		binary.BigEndian.PutUint64(frame[pos:pos+dsize], uint64(d.Size))
 	default:
 		e := fmt.Sprintf("Malformed Directory Entry Invalid descriptor size %d", d.Size)
-- 
2.43.0


From 07c16f88127da05f11250c2fcf2e0947a662b5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:28 +0000
Subject: [PATCH 08/67] fix: dirent: decode refuses short entries and keeps the
 bytes of the path

Entries with a 32 or 64 bit descriptor shorter than their fixed part caused a
panic, and each path byte of 0x80 or more was turned into two.
---
 dirent/dirent.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/dirent/dirent.go b/dirent/dirent.go
index 6dba710..59e533d 100644
--- a/dirent/dirent.go
+++ b/dirent/dirent.go
@@ -3,6 +3,7 @@
 package dirent
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -205,10 +206,16 @@ func (d *DirEnt) Decode(frame []byte) error {
 		pos += dsize
 	case "d32":
 		dsize := 4
+		if len(frame) < pos+dsize+8 {
+			return errors.New("DirEntGet - Entry too short")
+		}
 		d.Size = uint64(binary.BigEndian.Uint32(frame[pos : pos+dsize]))
 		pos += dsize
 	case "d64":
 		dsize := 8
+		if len(frame) < pos+dsize+8 {
+			return errors.New("DirEntGet - Entry too short")
+		}
 		d.Size = uint64(binary.BigEndian.Uint64(frame[pos : pos+dsize]))
 		pos += dsize
 	default:
@@ -233,12 +240,11 @@ func (d *DirEnt) Decode(frame []byte) error {
 	pos += 4
 	// fmt.Printf("Ctime:%s\n", d.ctime.Print())
 
-	d.Path = ""
-	for i := range frame[pos:] { // Path is null terminated string
-		if frame[pos+i] == '\x00' { // Hit null
-			break
-		}
-		d.Path += string(frame[pos+i])
+	// Path is null terminated string
+	if end := bytes.IndexByte(frame[pos:], '\x00'); end >= 0 {
+		d.Path = string(frame[pos : pos+end])
+	} else {
+		d.Path = string(frame[pos:])
 	}
 	// fmt.Printf("Path:<%s>\n", d.path)
 	return nil
-- 
2.43.0


From 38bb1480fec3708163b6420d4ab1c535a1a444e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:29 +0000
Subject: [PATCH 09/67] fix: data: the transfer type given to New is set in the
 header

---
 data/data.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/data/data.go b/data/data.go
index 8db2b11..2594254 100644
--- a/data/data.go
+++ b/data/data.go
@@ -72,6 +72,9 @@ func (d *Data) New(flags string, info interface{}) error {
 			if f[1] == "bundle" {
 				return errors.New("bundle transfers not supported")
 			}
+			if d.Header, err = sarflags.Set(d.Header, f[0], f[1]); err != nil {
+				return err
+			}
 		case "reqtstamp":
 			switch f[1] {
 			case "no":
-- 
2.43.0


From bab5642e64e9ed9ae337a854844e3c4278522f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:30 +0000
Subject: [PATCH 10/67] fix: data: decode refuses short frames and accepts an
 empty payload in every form

A frame shorter than its timestamp and offset caused a panic. An empty payload,
which Encode writes, was refused for 16 bit descriptors with a timestamp only.
---
 data/data.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/data/data.go b/data/data.go
index 2594254..c8c0de7 100644
--- a/data/data.go
+++ b/data/data.go
@@ -159,6 +159,23 @@ func (d *Data) Decode(frame []byte) error {
 	}
 	d.Header = binary.BigEndian.Uint32(frame[:4])
 	d.Session = binary.BigEndian.Uint32(frame[4:8])
+
+	need := 8 // Header + Session + Timestamp + Offset
+	if sarflags.GetStr(d.Header, "reqtstamp") == "yes" {
+		need += 16
+	}
+	switch sarflags.GetStr(d.Header, "descriptor") {
+	case "d16":
+		need += 2
+	case "d32":
+		need += 4
+	case "d64":
+		need += 8
+	}
+	if len(frame) < need {
+		return errors.New("data.Get - data frame too short")
+	}
+
 	if sarflags.GetStr(d.Header, "reqtstamp") == "yes" {
 		if err := d.Tstamp.Get(frame[8:24]); err != nil {
 			return err
@@ -168,9 +185,6 @@ func (d *Data) Decode(frame []byte) error {
 			d.Offset = uint64(binary.BigEndian.Uint16(frame[24:26])) // 2 bytes
 			d.Payload = make([]byte, len(frame[26:]))
 			copy(d.Payload, frame[26:])
-			if len(d.Payload) == 0 {
-				return errors.New("length of data payload is 0")
-			}
 		case "d32":
 			d.Offset = uint64(binary.BigEndian.Uint32(frame[24:28])) // 4 bytes
 			d.Payload = make([]byte, len(frame[28:]))
-- 
2.43.0


From 23691df06ad3eeb8a5c77735a9c0ed5d30be2ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:31 +0000
Subject: [PATCH 11/67] fix: data: refuse to encode an offset the descriptor
 cannot hold

It was truncated silently, so the payload went to another place in the file.
---
 data/data.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/data/data.go b/data/data.go
index c8c0de7..21e6663 100644
--- a/data/data.go
+++ b/data/data.go
@@ -241,8 +241,14 @@ func (d *Data) Encode() ([]byte, error) {
 
 	switch sarflags.GetStr(d.Header, "descriptor") { // Offset
 	case "d16":
+		if d.Offset > sarflags.MaxUint16 {
+			return nil, fmt.Errorf("descriptor d16 too small for offset %d", d.Offset)
+		}
 		framelen += 2
 	case "d32":
+		if d.Offset > sarflags.MaxUint32 {
+			return nil, fmt.Errorf("descriptor d32 too small for offset %d", d.Offset)
+		}
 		framelen += 4
 	case "d64":
 		framelen += 8
-- 
2.43.0


From 78b42b7b5c9acb7234311dc9f7acf29f37b9e747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:12 +0000
Subject: [PATCH 12/67] fix: status: encode the timestamp of a frame that
 carries one

The space was reserved but the timestamp was never written, so progress, in
response to and the holes were decoded from the wrong place.
---
 status/status.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/status/status.go b/status/status.go
index 092f335..dd777a1 100644
--- a/status/status.go
+++ b/status/status.go
@@ -154,6 +154,7 @@ func (s Status) Encode() ([]byte, error) {
 
 	if sarflags.GetStr(s.Header, "reqtstamp") == "yes" {
 		framelen += 16 // Timestamp
+		havetstamp = true
 	}
 
 	var dsize int
-- 
2.43.0


From 23a1328ca7a8b254ce41cf935c6cf52ba95f252a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:13 +0000
Subject: [PATCH 13/67] fix: status: Make sets the timestamp when the header
 asks for one

As data frames do: the frame was sent with a timestamp of no type that no
receiver accepts.
---
 status/status.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/status/status.go b/status/status.go
index dd777a1..c001734 100644
--- a/status/status.go
+++ b/status/status.go
@@ -130,6 +130,11 @@ func (s *Status) Make(header uint32, info interface{}) error {
 	}
 
 	s.Header = header
+	if sarflags.GetStr(s.Header, "reqtstamp") == "yes" {
+		if err = s.Tstamp.Now("posix32"); err != nil {
+			return err
+		}
+	}
 	e := reflect.ValueOf(info).Elem()
 	s.Session = uint32(e.FieldByName("Session").Uint())
 	s.Progress = e.FieldByName("Progress").Uint()
-- 
2.43.0


From 4bd15c8ee7931363c9a6cf918aec152092a7caab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:15 +0000
Subject: [PATCH 14/67] fix: status: decode refuses short frames and starts
 from no holes

A frame shorter than its timestamp, progress and in response to caused a panic,
and decoding into a used frame added to the holes it had before.
---
 status/status.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/status/status.go b/status/status.go
index c001734..f82dba9 100644
--- a/status/status.go
+++ b/status/status.go
@@ -248,6 +248,24 @@ func (s *Status) Decode(frame []byte) error {
 	}
 	s.Header = binary.BigEndian.Uint32(frame[:4])
 	s.Session = binary.BigEndian.Uint32(frame[4:8])
+
+	need := 8 // Header + Session + Timestamp + Progress + Inrespto
+	if sarflags.GetStr(s.Header, "reqtstamp") == "yes" {
+		need += 16
+	}
+	switch sarflags.GetStr(s.Header, "descriptor") {
+	case "d16":
+		need += 4
+	case "d32":
+		need += 8
+	case "d64":
+		need += 16
+	}
+	if len(frame) < need {
+		return errors.New("status frame too short")
+	}
+	s.Holes = nil
+
 	pos := 8
 	if sarflags.GetStr(s.Header, "reqtstamp") == "yes" {
 		var err error
-- 
2.43.0


From ae9e27f42590c04e58efd5b8641d2a8978b896d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:16 +0000
Subject: [PATCH 15/67] fix: status: refuse to encode offsets the descriptor
 cannot hold

Progress, in response to and holes were truncated silently.
---
 status/status.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/status/status.go b/status/status.go
index f82dba9..3b5e146 100644
--- a/status/status.go
+++ b/status/status.go
@@ -163,20 +163,32 @@ func (s Status) Encode() ([]byte, error) {
 	}
 
 	var dsize int
+	var dmax uint64 // Largest value the descriptor can hold
 
 	switch sarflags.GetStr(s.Header, "descriptor") { // Offset
 	case "d16":
 		dsize = 2
+		dmax = sarflags.MaxUint16
 	case "d32":
 		dsize = 4
+		dmax = sarflags.MaxUint32
 	case "d64":
 		dsize = 8
+		dmax = sarflags.MaxUint64
 	case "d128":
 		return nil, errors.New("d128 not supported in status")
 		// dsize = 16
 	default:
 		return nil, errors.New("invalid descriptor in status")
 	}
+	if s.Progress > dmax || s.Inrespto > dmax {
+		return nil, errors.New("descriptor too small for progress or in response to in status")
+	}
+	for i := range s.Holes {
+		if uint64(s.Holes[i].Start) > dmax || uint64(s.Holes[i].End) > dmax {
+			return nil, errors.New("descriptor too small for hole in status")
+		}
+	}
 	framelen += (dsize*2 + (dsize * len(s.Holes) * 2)) // progress + inrespto + holes
 	frame := make([]byte, framelen)
 
-- 
2.43.0


From ea79b311bdd3a9cf53c151704c8bf7765ac4f972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:18 +0000
Subject: [PATCH 16/67] fix: request: New and Make keep the authentication
 bytes

They were copied into an empty slice, so a request never carried them. Make
also paniced on every call as it dereferenced the info twice.
---
 request/request.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/request/request.go b/request/request.go
index 93f9536..ee13ea9 100644
--- a/request/request.go
+++ b/request/request.go
@@ -71,7 +71,7 @@ func (r *Request) New(flags string, info interface{}) error {
 	e := reflect.ValueOf(info).Elem()
 	r.Session = uint32(e.FieldByName("Session").Uint())
 	r.Fname = e.FieldByName("Fname").String()
-	copy(r.Auth, e.FieldByName("Auth").Bytes())
+	r.Auth = append([]byte(nil), e.FieldByName("Auth").Bytes()...)
 
 	return nil
 }
@@ -93,9 +93,9 @@ func (r *Request) Make(header uint32, info interface{}) error {
 	r.Header = header
 
 	e := reflect.ValueOf(info).Elem()
-	r.Session = uint32(e.Elem().FieldByName("Session").Uint())
+	r.Session = uint32(e.FieldByName("Session").Uint())
 	r.Fname = e.FieldByName("Fname").String()
-	copy(r.Auth, e.FieldByName("Auth").Bytes())
+	r.Auth = append([]byte(nil), e.FieldByName("Auth").Bytes()...)
 
 	return nil
 }
-- 
2.43.0


From 14fea47687dc879530b0bdd67f0a42166ee78712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:19 +0000
Subject: [PATCH 17/67] fix: request: decode keeps the bytes of the file name
 and needs its null

A name with no null caused a panic, each byte of 0x80 or more was turned into
two and so shifted the authentication field, and decoding into a used request
added to the name it had before.
---
 request/request.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/request/request.go b/request/request.go
index ee13ea9..cc044c4 100644
--- a/request/request.go
+++ b/request/request.go
@@ -3,6 +3,7 @@
 package request
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -126,14 +127,13 @@ func (r *Request) Decode(frame []byte) error {
 	}
 	r.Header = binary.BigEndian.Uint32(frame[:4])
 	r.Session = binary.BigEndian.Uint32(frame[4:8])
-	pos := 8
-	for i := range frame[8:] { // Filename in frame is null terminated string
-		if frame[pos+i] == '\x00' { // Hit null
-			break
-		}
-		r.Fname += string(frame[pos+i])
+	// Filename in frame is null terminated string
+	flen := bytes.IndexByte(frame[8:], '\x00')
+	if flen < 0 {
+		return errors.New("request.Decode - filename is not null terminated")
 	}
-	pos = 8 + 1 + len(r.Fname)
+	r.Fname = string(frame[8 : 8+flen])
+	pos := 8 + 1 + flen
 	if pos == len(frame) { // No following auth field
 		r.Auth = nil
 		return nil
-- 
2.43.0


From 821b906a866e427a6040c215767e39ff493fdd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:21 +0000
Subject: [PATCH 18/67] fix: beacon: decode refuses short frames instead of
 panicking

---
 beacon/beacon.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/beacon/beacon.go b/beacon/beacon.go
index edca92d..525b677 100644
--- a/beacon/beacon.go
+++ b/beacon/beacon.go
@@ -247,8 +247,23 @@ func (b Beacon) Encode() ([]byte, error) {
 // Get -- Decode Beacon byte slice frame into Beacon struct
 func (b *Beacon) Decode(frame []byte) error {
 
+	if len(frame) < 4 {
+		return errors.New("beacon frame too short")
+	}
 	b.Header = binary.BigEndian.Uint32(frame[:4])
 	if sarflags.GetStr(b.Header, "freespace") == "yes" {
+		need := 4 // Header + Freespace
+		switch sarflags.GetStr(b.Header, "freespaced") {
+		case "d16":
+			need += 2
+		case "d32":
+			need += 4
+		case "d64":
+			need += 8
+		}
+		if len(frame) < need {
+			return errors.New("beacon frame too short")
+		}
 		switch sarflags.GetStr(b.Header, "freespaced") {
 		case "d16":
 			b.Freespace = uint64(binary.BigEndian.Uint16(frame[4:6]))
-- 
2.43.0


From 38176ef455b8fee70738d9efe984c32b9d6523c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:22 +0000
Subject: [PATCH 19/67] fix: beacon: refuse to encode free space the descriptor
 cannot hold

It was truncated silently.
---
 beacon/beacon.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/beacon/beacon.go b/beacon/beacon.go
index 525b677..fe4b426 100644
--- a/beacon/beacon.go
+++ b/beacon/beacon.go
@@ -205,8 +205,14 @@ func (b Beacon) Encode() ([]byte, error) {
 	if sarflags.GetStr(b.Header, "freespace") == "yes" {
 		switch sarflags.GetStr(b.Header, "freespaced") {
 		case "d16":
+			if b.Freespace > sarflags.MaxUint16 {
+				return nil, errors.New("descriptor d16 too small for freespace in beacon")
+			}
 			framelen += 2
 		case "d32":
+			if b.Freespace > sarflags.MaxUint32 {
+				return nil, errors.New("descriptor d32 too small for freespace in beacon")
+			}
 			framelen += 4
 		case "d64":
 			framelen += 8
-- 
2.43.0


From d29daf93676489b79b30d72bfddc2ecc0200ad76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:23 +0000
Subject: [PATCH 20/67] fix: beacon: look a peer up under the lock that
 protects the peers

Two beacons of one new peer handled at the same time were both added.
---
 beacon/beacon.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/beacon/beacon.go b/beacon/beacon.go
index fe4b426..edad0fe 100644
--- a/beacon/beacon.go
+++ b/beacon/beacon.go
@@ -366,11 +366,11 @@ func NewPeer(b *Beacon, from *net.UDPAddr) bool {
 	if from == nil {
 		return false
 	}
+	pmu.Lock()
+	defer pmu.Unlock()
 	// Scan through existing Peers and change if the peer exists
 	for p := range Peers {
 		if Peers[p].Addr == from.IP.String() { // Source Ip Address matches existing Peer
-			pmu.Lock()
-			defer pmu.Unlock()
 			// Has anything changed since the last beacon for this peer ?
 			if Peers[p].Freespace != b.Freespace ||
 				Peers[p].Eid != b.Eid ||
@@ -399,8 +399,6 @@ func NewPeer(b *Beacon, from *net.UDPAddr) bool {
 	newp.Cantx = sarflags.GetStr(b.Header, "txwilling")
 	newp.Created.Now("posix32_32")
 	newp.Updated = newp.Created
-	pmu.Lock()
-	defer pmu.Unlock()
 	Peers = append(Peers, *newp)
 	return true
 }
-- 
2.43.0


From 190059f1d9e44cf541ea4bd6e9a3995e717d1e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:24 +0000
Subject: [PATCH 21/67] fix: metadata: describe the file named, with its
 modification time

New and Make gave the change time as the modification time, and Make took the
session for the file name so could never describe a file.
---
 metadata/metadata.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index a350420..01dd4c9 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -164,7 +164,7 @@ func (m *MetaData) New(flags string, info interface{}) error {
 	m.Dir.Header = d.Header
 	m.Dir.Size = d.Size
 	m.Dir.Ctime = d.Ctime
-	m.Dir.Mtime = d.Ctime
+	m.Dir.Mtime = d.Mtime
 	m.Dir.Path = d.Path
 
 	// Checksum calculation
@@ -203,7 +203,7 @@ func (m *MetaData) Make(header uint32, info interface{}) error {
 	var fname string
 	e := reflect.ValueOf(info).Elem()
 	m.Session = uint32(e.FieldByName("Session").Uint())
-	fname = e.FieldByName("Session").String()
+	fname = e.FieldByName("Fname").String()
 	var direntflags string
 	if direntflags, err = statfile(fname, m.Header); err != nil {
 		return err
@@ -217,7 +217,7 @@ func (m *MetaData) Make(header uint32, info interface{}) error {
 	m.Dir.Header = d.Header
 	m.Dir.Size = d.Size
 	m.Dir.Ctime = d.Ctime
-	m.Dir.Mtime = d.Ctime
+	m.Dir.Mtime = d.Mtime
 	m.Dir.Path = d.Path
 
 	// Make sure we dont try and calc a checksum of a named pipe "stream" (it will wait forever)
-- 
2.43.0


From 6dceff50e2b636923a670a2ac721bb47a7a26f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:26 +0000
Subject: [PATCH 22/67] fix: metadata: report a directory entry that cannot be
 encoded or a short frame

Encode dropped the error and sent a frame with no directory entry; decode
paniced on a frame shorter than its checksum.
---
 metadata/metadata.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 01dd4c9..415b3a5 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -244,7 +244,10 @@ func (m *MetaData) Encode() ([]byte, error) {
 	// Create the frame slice
 	framelen := 4 + 4 // Header + Session
 	framelen += len(m.Checksum)
-	de, _ := m.Dir.Encode()
+	de, err := m.Dir.Encode()
+	if err != nil {
+		return nil, err
+	}
 	framelen += len(de)
 
 	frame := make([]byte, framelen)
@@ -277,6 +280,9 @@ func (m *MetaData) Decode(frame []byte) (err error) {
 
 	// Checksum
 	csuml := int(sarflags.Get(m.Header, "csumlen")) * 4
+	if len(frame) < pos+csuml {
+		return errors.New("MetaDataGet - Frame too short")
+	}
 	m.Checksum = make([]byte, csuml)
 	copy(m.Checksum, frame[pos:pos+csuml])
 	pos += csuml
-- 
2.43.0


From 2f978c7455e45ef50b880b48deb5c33cec730e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:27 +0000
Subject: [PATCH 23/67] fix: fileio: FileOpen looks for the file where it opens
 it

The saratoga directory was added twice when looking for an existing file, so a
get overwrote one and a put never found one. The create is exclusive so that
nothing that appears in between is overwritten either.
---
 fileio/fileio.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index a81ce17..95c32ab 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -35,16 +35,16 @@ func FileOpen(fname string, ttype string) (*os.File, error) {
 	case "get", "take": // We are getting a remote file
 		// Open up to write to a local file
 		// Dont stomp on any existing file
-		if FileExists(fullname) {
+		if FileExists(fname) {
 			return nil, fmt.Errorf("file already exists:  %s", fullname)
 		}
 		// Create the file
-		if fp, err = os.Create(fullname); err == nil {
+		if fp, err = os.OpenFile(fullname, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0666); err == nil {
 			return fp, nil
 		}
 		return nil, err
 	case "getdir": // We are getting all the files from a remote directory
-		if FileExists(fullname) {
+		if FileExists(fname) {
 			return nil, fmt.Errorf("directory already exists: %s", fullname)
 		}
 		// Create the Directory
@@ -59,7 +59,7 @@ func FileOpen(fname string, ttype string) (*os.File, error) {
 		return nil, err
 	case "put", "give": // We are putting a local file to a remote system
 		// Open up to read from the local file
-		if !FileExists(fullname) {
+		if !FileExists(fname) {
 			return nil, fmt.Errorf("file does not exist: %s", fullname)
 		}
 		if fp, err = os.Open(fullname); err == nil {
-- 
2.43.0


From d037ef8f9c7decdc0237908db1cff367e98ef7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:29 +0000
Subject: [PATCH 24/67] fix: fileio: FileDelete removes the file that is open

It added the saratoga directory to a name that has it and removed nothing.
---
 fileio/fileio.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index 95c32ab..9f29348 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -146,9 +146,9 @@ func FileRm(fname string) error {
 func FileDelete(fp *os.File) error {
 
 	if fp != nil {
-		fname := fp.Name()
+		fullname := fp.Name() // Already has the saratoga directory in it
 		FileClose(fp)
-		return FileRm(fname)
+		return os.Remove(fullname)
 	}
 	return fmt.Errorf("no existing open file to delete")
 }
-- 
2.43.0


From a30a7eec47204a4eeef4c59176f37380fb026903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:30 +0000
Subject: [PATCH 25/67] fix: fileio: FileMeta does not panic on links that lead
 nowhere or names it cannot stat

The target of a relative link was looked up from the working directory.
---
 fileio/fileio.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index 9f29348..535ca84 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -177,20 +177,20 @@ func FileMeta(filePath string) (*FileMetaData, error) {
 	var err error
 	var info os.FileInfo
 	fullname := Sardir() + "/" + filePath
-	if info, err = os.Lstat(fullname); os.IsNotExist(err) {
+	if info, err = os.Lstat(fullname); err != nil {
 		return nil, err
 	}
 	// Symbolic Links and Named Pipes are treated as "special files"
 	if info.Mode()&os.ModeSymlink == os.ModeSymlink {
 		fs.IsSymLink = true
-		fs.Origin, _ = os.Readlink(fs.Path)
 		var patherr error
 		if fs.Origin, patherr = os.Readlink(fullname); patherr != nil {
 			return nil, patherr
 		}
-		origstat, _ := os.Lstat(fs.Origin)
 		// Yes we can be a symbolic link to a directory so both are true
-		fs.IsDir = origstat.IsDir()
+		if origstat, staterr := os.Stat(fullname); staterr == nil {
+			fs.IsDir = origstat.IsDir()
+		}
 	} else {
 		fs.IsDir = info.IsDir()
 	}
-- 
2.43.0


From f73a01c469c1af9df6a04224aea19f932c0788e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:32 +0000
Subject: [PATCH 26/67] fix: fileio: keep file operations inside the saratoga
 directory

File names come from the remote peer: one with .. in it reached, and with a
delete request removed, any file the node can write to.
---
 fileio/fileio.go | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index 535ca84..8fbfe87 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -4,6 +4,7 @@ package fileio
 import (
 	"fmt"
 	"os"
+	"path/filepath"
 	"time"
 
 	"github.com/charlesetsmith/saratoga/sarflags"
@@ -15,10 +16,22 @@ func Sardir() string {
 	return sarflags.Cliflag.Sardir
 }
 
+// Full name of a file in the saratoga directory, names that lead out of it are refused
+// as they come from the remote peer
+func sarpath(fname string) (string, error) {
+	if !filepath.IsLocal("./" + fname) {
+		return "", fmt.Errorf("file is outside of the saratoga directory: %s", fname)
+	}
+	return Sardir() + "/" + fname, nil
+}
+
 // Check to see if a file or directory exists on our local system
 // no named pipes or symbolic links supported at this time
 func FileExists(fname string) bool {
-	fullname := Sardir() + "/" + fname
+	fullname, err := sarpath(fname)
+	if err != nil {
+		return false
+	}
 	fileinfo, err := os.Stat(fullname)
 	if err == nil && (fileinfo.Mode().IsDir() || fileinfo.Mode().IsRegular()) {
 		return true
@@ -30,7 +43,10 @@ func FileExists(fname string) bool {
 func FileOpen(fname string, ttype string) (*os.File, error) {
 	var err error
 	var fp *os.File
-	fullname := Sardir() + "/" + fname
+	var fullname string
+	if fullname, err = sarpath(fname); err != nil {
+		return nil, err
+	}
 	switch ttype {
 	case "get", "take": // We are getting a remote file
 		// Open up to write to a local file
@@ -138,7 +154,13 @@ func FileClose(fp *os.File) error {
 
 // Just Zap the file
 func FileRm(fname string) error {
-	fullname := Sardir() + "/" + fname
+	fullname, err := sarpath(fname)
+	if err != nil {
+		return err
+	}
+	if filepath.Clean("./"+fname) == "." {
+		return fmt.Errorf("will not remove the saratoga directory")
+	}
 	return os.Remove(fullname)
 }
 
@@ -176,7 +198,10 @@ func FileMeta(filePath string) (*FileMetaData, error) {
 
 	var err error
 	var info os.FileInfo
-	fullname := Sardir() + "/" + filePath
+	var fullname string
+	if fullname, err = sarpath(filePath); err != nil {
+		return nil, err
+	}
 	if info, err = os.Lstat(fullname); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 0f540ea812831df2e23def4958e6081de4290298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:17 +0000
Subject: [PATCH 27/67] fix: trans: take the type of a received request from
 its reqtype field

There is no field "request" nor a timestamp type "epoch_2000_32", so no request
was ever acted upon.
---
 trans/trans.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trans/trans.go b/trans/trans.go
index ebb2117..5ac2640 100644
--- a/trans/trans.go
+++ b/trans/trans.go
@@ -48,7 +48,7 @@ var Transfers = []Transfer{}
 // Create the transfer associated with the received request
 // Send status frame back via the tx channel upon failure or success
 func AddRxTran(g *gocui.Gui, r *request.Request, from *net.UDPAddr, tx chan interface{}) bool {
-	ttype := sarflags.GetStr(r.Header, "request")
+	ttype := sarflags.GetStr(r.Header, "reqtype")
 
 	// If a bad version received then send back a Status errcode to the initiator
 	var st status.Status
@@ -203,7 +203,7 @@ func AddRxTran(g *gocui.Gui, r *request.Request, from *net.UDPAddr, tx chan inte
 		tx <- st.Val(from)
 		return false
 	}
-	timetype := "epoch_2000_32"
+	timetype := "epoch2000_32"
 	ts := new(timestamp.Timestamp)
 	ts.Now(timetype)
 	dent := new(dirent.DirEnt)
-- 
2.43.0


From 74bd7c07524db9c14cd69956ecc3537a47f13403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:18 +0000
Subject: [PATCH 28/67] fix: trans: answer a request with the session it was
 made for

The status was sent with session 0, which the peer cannot match to its request.
---
 trans/trans.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trans/trans.go b/trans/trans.go
index 5ac2640..3c253df 100644
--- a/trans/trans.go
+++ b/trans/trans.go
@@ -52,7 +52,7 @@ func AddRxTran(g *gocui.Gui, r *request.Request, from *net.UDPAddr, tx chan inte
 
 	// If a bad version received then send back a Status errcode to the initiator
 	var st status.Status
-	sinfo := status.Sinfo{Session: 0, Progress: 0, Inrespto: 0, Holes: nil}
+	sinfo := status.Sinfo{Session: r.Session, Progress: 0, Inrespto: 0, Holes: nil}
 
 	if sarflags.GetStr(r.Header, "version") != "v1" {
 		if st.New("errcode=badrequest", &sinfo) != nil {
-- 
2.43.0


From 58b7b280cbb2f6dc5d6904c734b9fe344e901754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:19 +0000
Subject: [PATCH 29/67] fix: trans: a request repeated for a session does not
 start a second transfer

Session and peer are the key of a transfer, but each copy of a request that
arrived added another entry with the same key.
---
 trans/trans.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/trans/trans.go b/trans/trans.go
index 3c253df..5edcc88 100644
--- a/trans/trans.go
+++ b/trans/trans.go
@@ -208,8 +208,6 @@ func AddRxTran(g *gocui.Gui, r *request.Request, from *net.UDPAddr, tx chan inte
 	ts.Now(timetype)
 	dent := new(dirent.DirEnt)
 
-	// Do some error checking to see that the transfer is not already underway
-
 	// Initialise the Transfer with the information we have in the request
 	t := Transfer{Peer: *from, Session: r.Session, Ttype: ttype,
 		Filename: r.Fname,
@@ -219,15 +217,28 @@ func AddRxTran(g *gocui.Gui, r *request.Request, from *net.UDPAddr, tx chan inte
 		Data: nil, Dcount: 0,
 		Progress: 0, Inrespto: 0, CurFills: nil}
 
-	// Add the transfer to our current slice
+	// Add the transfer to our current slice unless it is already underway
+	errcode := "success"
+	added := true
 	Trmu.Lock()
-	Transfers = append(Transfers, t)
+	for i := range Transfers {
+		if Transfers[i].Session == t.Session && Transfers[i].Peer.String() == t.Peer.String() {
+			added = false
+			if Transfers[i].Ttype != t.Ttype || Transfers[i].Filename != t.Filename {
+				errcode = "badrequest" // Session is in use for another transfer
+			}
+			break
+		}
+	}
+	if added {
+		Transfers = append(Transfers, t)
+	}
 	Trmu.Unlock()
-	// Create STATUS and set errcode to "success"
-	if st.New("errcode=success", &sinfo) != nil {
-		sarwin.ErrPrintln(g, "red_black", "Cannot create success status")
+	// Create STATUS and set errcode
+	if st.New("errcode="+errcode, &sinfo) != nil {
+		sarwin.ErrPrintln(g, "red_black", "Cannot create ", errcode, " status")
 		return false
 	}
 	tx <- st.Val(from)
-	return true
+	return added
 }
-- 
2.43.0


From fd1a9d713ec195885ab5c3c42331c7824763eec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:20 +0000
Subject: [PATCH 30/67] fix: saratoga: handling a request does not block the
 main loop for ever

The status for a request is sent on a channel that only the main loop reads, and
the main loop was the one sending it, so the node stopped at the first request.
---
 saratoga/saratoga.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/saratoga/saratoga.go b/saratoga/saratoga.go
index 28ec1ed..892354c 100644
--- a/saratoga/saratoga.go
+++ b/saratoga/saratoga.go
@@ -627,9 +627,12 @@ func main() {
 				pkt := rxv4.(request.Packet)
 				sarwin.PacketPrintln(g, "white_black", "Rx", pkt.Info.ShortPrint())
 				// We have received a request to send or receive a file or dir
-				if trans.AddRxTran(g, &pkt.Info, &pkt.Addr, txv4frame) {
-					sarwin.MsgPrintln(g, "yellow_black", "New transfer request from ", pkt.Addr.String())
-				}
+				// It sends its status on a channel we read here so it can not be called from here
+				go func() {
+					if trans.AddRxTran(g, &pkt.Info, &pkt.Addr, txv4frame) {
+						sarwin.MsgPrintln(g, "yellow_black", "New transfer request from ", pkt.Addr.String())
+					}
+				}()
 			case status.Packet:
 				sarwin.MsgPrintln(g, "white_black", "Received v4 Saratoga STATUS Frame")
 				pkt := rxv4.(status.Packet)
@@ -659,9 +662,12 @@ func main() {
 				sarwin.MsgPrintln(g, "white_black", "Received v6 Saratoga REQUEST Frame")
 				pkt := rxv6.(request.Packet)
 				sarwin.PacketPrintln(g, "white_black", "Rx", pkt.Info.ShortPrint())
-				if trans.AddRxTran(g, &pkt.Info, &pkt.Addr, txv6frame) {
-					sarwin.MsgPrintln(g, "yellow_black", "New transfer request from ", pkt.Addr.String())
-				}
+				// It sends its status on a channel we read here so it can not be called from here
+				go func() {
+					if trans.AddRxTran(g, &pkt.Info, &pkt.Addr, txv6frame) {
+						sarwin.MsgPrintln(g, "yellow_black", "New transfer request from ", pkt.Addr.String())
+					}
+				}()
 			case status.Packet:
 				sarwin.MsgPrintln(g, "white_black", "Received v6 Saratoga STATUS Frame")
 				pkt := rxv6.(status.Packet)
-- 
2.43.0


From c8d41bc67dca2449abddcfce265623b9fa6d77f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:51 +0000
Subject: [PATCH 31/67] fix: send data, metadata, request and status frames on
 connected sockets

Transfers dial their peer, and WriteTo always fails on a connected socket.
---
 data/data.go         | 7 ++++++-
 metadata/metadata.go | 7 ++++++-
 request/request.go   | 7 ++++++-
 status/status.go     | 7 ++++++-
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/data/data.go b/data/data.go
index 21e6663..5b258e2 100644
--- a/data/data.go
+++ b/data/data.go
@@ -327,7 +327,12 @@ func (d Data) Send(conn *net.UDPConn, to *net.UDPAddr) error {
 	if buf, err = d.Encode(); err != nil {
 		return err
 	}
-	if wlen, err = conn.WriteTo(buf, to); err != nil {
+	if conn.RemoteAddr() != nil { // Already connected to the peer
+		wlen, err = conn.Write(buf)
+	} else {
+		wlen, err = conn.WriteTo(buf, to)
+	}
+	if err != nil {
 		return err
 	}
 	if wlen != len(buf) {
diff --git a/metadata/metadata.go b/metadata/metadata.go
index 415b3a5..1c7a28b 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -330,7 +330,12 @@ func (m MetaData) Send(conn *net.UDPConn, to *net.UDPAddr) error {
 	if buf, err = m.Encode(); err != nil {
 		return err
 	}
-	if wlen, err = conn.WriteTo(buf, to); err != nil {
+	if conn.RemoteAddr() != nil { // Already connected to the peer
+		wlen, err = conn.Write(buf)
+	} else {
+		wlen, err = conn.WriteTo(buf, to)
+	}
+	if err != nil {
 		return err
 	}
 	if wlen != len(buf) {
diff --git a/request/request.go b/request/request.go
index cc044c4..24f7a64 100644
--- a/request/request.go
+++ b/request/request.go
@@ -176,7 +176,12 @@ func (r Request) Send(conn *net.UDPConn, to *net.UDPAddr) error {
 	if buf, err = r.Encode(); err != nil {
 		return err
 	}
-	if wlen, err = conn.WriteTo(buf, to); err != nil {
+	if conn.RemoteAddr() != nil { // Already connected to the peer
+		wlen, err = conn.Write(buf)
+	} else {
+		wlen, err = conn.WriteTo(buf, to)
+	}
+	if err != nil {
 		return err
 	}
 	if wlen != len(buf) {
diff --git a/status/status.go b/status/status.go
index 3b5e146..8a7250f 100644
--- a/status/status.go
+++ b/status/status.go
@@ -400,7 +400,12 @@ func (s Status) Send(conn *net.UDPConn, to *net.UDPAddr) error {
 	if buf, err = s.Encode(); err != nil {
 		return err
 	}
-	if wlen, err = conn.WriteTo(buf, to); err != nil {
+	if conn.RemoteAddr() != nil { // Already connected to the peer
+		wlen, err = conn.Write(buf)
+	} else {
+		wlen, err = conn.WriteTo(buf, to)
+	}
+	if err != nil {
 		return err
 	}
 	if wlen != len(buf) {
-- 
2.43.0


From 28bd086c2e26e6564e9dfa2dec6feb0d0a479a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:52 +0000
Subject: [PATCH 32/67] fix: sarwin: Lookup returns the transfer itself, Match
 skips those with no connection

Lookup returned a copy, so what was learnt about a transfer was lost.
---
 sarwin/sarwin.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 8589490..9af2a85 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -896,12 +896,13 @@ var Transfers = []Transfer{}
 
 // Lookup - Return a pointer to the transfer if we find it in Transfers, nil otherwise
 func Lookup(direction bool, session uint32, peer string) *Transfer {
-	for _, t := range Transfers {
+	for i := range Transfers {
+		t := &Transfers[i]
 		// Check if direction (Initiator or Responder), session # and IP address match in our current
 		// list of transfers (if so then return a pointer to it)
 
 		if direction == t.Direction && session == t.Session && t.Peer.String() == peer {
-			return &t
+			return t
 		}
 	}
 	return nil
@@ -910,7 +911,7 @@ func Lookup(direction bool, session uint32, peer string) *Transfer {
 // Lookup a host & session and return transfer pointer or nil if it does not exist
 func Match(addr string, session uint32) *Transfer {
 	for i := len(Transfers) - 1; i >= 0; i-- {
-		if addr == Transfers[i].Conn.RemoteAddr().String() && session == Transfers[i].Session {
+		if Transfers[i].Conn != nil && addr == Transfers[i].Conn.RemoteAddr().String() && session == Transfers[i].Session {
 			return &Transfers[i]
 		}
 	}
-- 
2.43.0


From a223fb2dc8aa5652b609646de45a5ba5e59fec6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:54 +0000
Subject: [PATCH 33/67] fix: sarwin: Remove removes the transfer it is called
 for

It removed the last transfer in the list, whichever that was.
---
 sarwin/sarwin.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 9af2a85..3605268 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1217,9 +1217,14 @@ func (t *Transfer) Change(g *gocui.Gui, m metadata.MetaData) error {
 func (t *Transfer) Remove() error {
 	Trmu.Lock()
 	defer Trmu.Unlock()
+	return t.remove()
+}
 
+// remove - Remove a Transfer from the Transfers, Trmu has to be locked
+func (t *Transfer) remove() error {
 	for i := len(Transfers) - 1; i >= 0; i-- {
-		if Lookup(t.Direction, t.Session, t.Peer.String()) != nil {
+		if Transfers[i].Direction == t.Direction && Transfers[i].Session == t.Session &&
+			Transfers[i].Peer.String() == t.Peer.String() {
 			Transfers = append(Transfers[:i], Transfers[i+1:]...)
 			return nil
 		}
-- 
2.43.0


From 5c06dfcb214d6e42f24f7bcde1f2532dbe764d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:56 +0000
Subject: [PATCH 34/67] fix: sarwin: only start a transfer that can be carried
 out, once

A get of an existing file was refused only when another transfer was running,
a transfer whose peer or file could not be opened was added all the same, and
two commands at the same time could both start one transfer. A putblind opens
its file as a put does.
---
 fileio/fileio.go |  2 +-
 sarwin/sarwin.go | 28 ++++++++++++++++------------
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index 8fbfe87..da3f823 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -73,7 +73,7 @@ func FileOpen(fname string, ttype string) (*os.File, error) {
 			}
 		}
 		return nil, err
-	case "put", "give": // We are putting a local file to a remote system
+	case "put", "putblind", "give": // We are putting a local file to a remote system
 		// Open up to read from the local file
 		if !FileExists(fname) {
 			return nil, fmt.Errorf("file does not exist: %s", fullname)
diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 3605268..72f7bd7 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -921,24 +921,29 @@ func Match(addr string, session uint32) *Transfer {
 // CNew - Add a new transfer to the Transfers list
 func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c *sarflags.Cliflags) (*Transfer, error) {
 	// screen.Fprintln(g,  "red_black", "Addtran for ", ip.String(), " ", fname, " ", flags)
+
+	// Lock it as we are going to add a new transfer slice
+	Trmu.Lock()
+	defer Trmu.Unlock()
+
+	// If the file currently exists on our system and we try to "get" it then we won;t allow that
+	// We cant overwrite an existing file on our system
+	if fileio.FileExists(fname) && (ttype == "get" || ttype == "take" || ttype == "getdir") {
+		emsg := fmt.Sprintf("File %s already exists, cannot overwrite", fname)
+		ErrPrintln(g, "red_black", emsg)
+		return nil, errors.New(emsg)
+	}
 	for _, i := range Transfers { // Don't add duplicates (ie dont try act on same fname)
 		// Make sure we have connections to all the current Transfers
 		if i.Conn == nil {
 			emsg := "No connection exists to peer: " + peer.String()
 			ErrPrintln(g, "red_black", emsg)
 			// Remove the transfer as we have no connection to a peer
-			if err := i.Remove(); err != nil {
+			if err := i.remove(); err != nil {
 				ErrPrintln(g, "red_black", "Can't remove transfer of", i.Session)
 			}
 			return nil, errors.New(emsg)
 		}
-		// If the file currently exists on our system and we try to "get" it then we won;t allow that
-		// We cant overwrite an existing file on our system
-		if fileio.FileExists(fname) && (ttype == "get" || ttype == "getdelete" || ttype == "getdir") {
-			emsg := fmt.Sprintf("File %s already exists, cannot overwrite", fname)
-			ErrPrintln(g, "red_black", emsg)
-			return nil, errors.New(emsg)
-		}
 		// We do not allow duplicate transfers of a file to the same peer
 		if fname == i.Filename && peer.String() == i.Peer.String() {
 			emsg := fmt.Sprintf("Initiator %s to %s currently in progress",
@@ -949,10 +954,6 @@ func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c
 	}
 
 	// OK lets create the transfer
-
-	// Lock it as we are going to add a new transfer slice
-	Trmu.Lock()
-	defer Trmu.Unlock()
 	t := new(Transfer)
 	t.Direction = Initiator
 	t.Ttype = ttype
@@ -964,12 +965,15 @@ func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c
 	// Dial the peer to create the connection
 	if t.Conn, err = net.DialUDP("udp", nil, peer); err != nil {
 		ErrPrintln(g, "red_black", "Cannot dial peer "+peer.String()+" "+err.Error())
+		return nil, err
 	}
 
 	// Open up the local for i/o
 	t.Filename = fname
 	if t.Fp, err = fileio.FileOpen(t.Filename, t.Ttype); err != nil {
 		ErrPrintln(g, "red_black", err)
+		t.Conn.Close()
+		return nil, err
 	}
 	if t.Filemeta, err = fileio.FileMeta(fname); err != nil {
 		ErrPrintln(g, "red_black", err)
-- 
2.43.0


From 7bf8a5ae14117e4430477e97e7b26c259c12fc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:57 +0000
Subject: [PATCH 35/67] fix: sarwin: WriteStatus spreads the holes over the
 status frames

Every frame was sent with all of the holes, so none of them fitted the MTU, an
error status carried holes, and flags without a descriptor divided by zero.
---
 sarwin/sarwin.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 72f7bd7..eb11b9c 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -810,7 +810,7 @@ func maxpaylen(flags string) int {
 
 // Work out the maximum payload in status.Status frame given flags
 func stpaylen(flags string) int {
-	var hsize int
+	var hsize int = 4 // The descriptor is d16 if not given
 	var plen int
 
 	plen = sarflags.Mtu() - 60 - 8 // 60 for IP header, 8 for UDP header
@@ -1148,6 +1148,11 @@ func (t *Transfer) WriteStatus(g *gocui.Gui, sflags string) string {
 	MsgPrintln(g, "cyan_black", "Responder Assemble & Send status to ", t.Peer.String())
 	var maxholes = stpaylen(sflags) // Work out maximum # holes we can put in a single status frame
 
+	if maxholes < 1 {
+		ErrPrintln(g, "red_black", "MTU is too small for a status")
+		return "badstatus"
+	}
+
 	errf := sarflags.FlagValue(sflags, "errcode")
 	var lasthole int
 	h := t.Curfills.Getholes()
@@ -1161,8 +1166,7 @@ func (t *Transfer) WriteStatus(g *gocui.Gui, sflags string) string {
 		framecnt = 1
 		flags = sarflags.ReplaceFlag(sflags, "allholes", "yes")
 	} else {
-		h := t.Curfills.Getholes()
-		framecnt = len(h)/maxholes + 1
+		framecnt = (lasthole + maxholes - 1) / maxholes
 		flags = sarflags.ReplaceFlag(sflags, "allholes", "no")
 	}
 
@@ -1175,8 +1179,7 @@ func (t *Transfer) WriteStatus(g *gocui.Gui, sflags string) string {
 		}
 
 		var st status.Status
-		h := t.Curfills.Getholes()
-		sinfo := status.Sinfo{Session: t.Session, Progress: t.Progress, Inrespto: t.Inrespto, Holes: h}
+		sinfo := status.Sinfo{Session: t.Session, Progress: t.Progress, Inrespto: t.Inrespto, Holes: h[starthole:endhole]}
 		if st.New(flags, &sinfo) != nil {
 			ErrPrintln(g, "red_black", "Cannot asemble status")
 			return "badstatus"
-- 
2.43.0


From 8bacf07f5c850f9ae3486b5511f6ce2fd25f60fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:59 +0000
Subject: [PATCH 36/67] fix: sarwin: a blank command line does nothing instead
 of panicking

---
 sarwin/sarwin.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index eb11b9c..2a80dbd 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -585,7 +585,7 @@ func GetLine(g *gocui.Gui, v *gocui.View) error {
 		line, _ := v.Line(cy)
 
 		command := strings.SplitN(line, ":", 2)
-		if command[1] == "" { // We have just hit enter - do nothing
+		if len(command) < 2 || command[1] == "" { // We have just hit enter - do nothing
 			return nil
 		}
 		// Save the command into history
@@ -2518,6 +2518,9 @@ func Run(g *gocui.Gui, name string) bool {
 	// Get rid of leading and trailing whitespace
 	s := strings.TrimSpace(name)
 	vals := strings.Fields(s)
+	if len(vals) == 0 { // Nothing but whitespace
+		return true
+	}
 	// Lookup the cmd and index func to run via cmdhandler map
 	for key := range sarflags.Commands {
 		if key == vals[0] {
-- 
2.43.0


From 42098b01ff23fbb3bbd723b7ff97202acafb1d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:00 +0000
Subject: [PATCH 37/67] fix: sarwin: txwilling on and off set values the flag
 has

The values "on" and "off" do not exist, so no beacon could be made after the
command. The metadata timeout shown depended on the request timeout.
---
 sarwin/sarwin.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 2a80dbd..5c3c52b 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -2224,7 +2224,7 @@ func cmdTimeout(g *gocui.Gui, args []string) {
 				MsgPrintln(g, "green_black", "request:", sarflags.Cliflag.Timeout.Request, " sec")
 			}
 		case "metadata":
-			if sarflags.Cliflag.Timeout.Request == 0 {
+			if sarflags.Cliflag.Timeout.Metadata == 0 {
 				MsgPrintln(g, "green_black", "metadata:No Timeout")
 			} else {
 				MsgPrintln(g, "green_black", "metadata:", sarflags.Cliflag.Timeout.Metadata, " sec")
@@ -2433,10 +2433,10 @@ func cmdTxwilling(g *gocui.Gui, args []string) {
 			MsgPrintln(g, "green_black", prusage("txwilling"))
 			return
 		case "on":
-			sarflags.Cliflag.Global["txwilling"] = "on"
+			sarflags.Cliflag.Global["txwilling"] = "yes"
 			return
 		case "off":
-			sarflags.Cliflag.Global["txwilling"] = "off"
+			sarflags.Cliflag.Global["txwilling"] = "no"
 			return
 		case "capable":
 			sarflags.Cliflag.Global["txwilling"] = "capable"
-- 
2.43.0


From 7338be9d8454b6e4556d79cd496739ccf2771158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:01 +0000
Subject: [PATCH 38/67] fix: sarwin: beacon with several addresses sends to the
 first as well

---
 sarwin/sarwin.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 5c3c52b..ba0cb23 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1360,8 +1360,11 @@ func cmdBeacon(g *gocui.Gui, args []string) {
 			return
 		}
 	}
-	for i := 2; i < len(args); i++ {
+	for i := 1; i < len(args); i++ {
 		if args[1] == "off" {
+			if i == 1 {
+				continue
+			}
 			if addr, err := sarnet.UDPAddress(args[i]); err == nil {
 				clibeacon.hosts = sarnet.RemoveUDPAddrValue(clibeacon.hosts, addr)
 				continue
-- 
2.43.0


From ca33a7524df10e50f97570a02b4f454173a6b035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:26 +0000
Subject: [PATCH 39/67] fix: answer a truncated data frame with its session

---
 saratoga/saratoga.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/saratoga/saratoga.go b/saratoga/saratoga.go
index 892354c..26a9909 100644
--- a/saratoga/saratoga.go
+++ b/saratoga/saratoga.go
@@ -289,17 +289,18 @@ func listen(g *gocui.Gui, conn *net.UDPConn, rx chan interface{}, tx chan interf
 			var rxerr error
 			sarwin.MsgPrintln(g, "white_black", "Data frame length is:", len(framebuf))
 			if rxerr = d.Decode(framebuf); rxerr != nil {
+				session := binary.BigEndian.Uint32(framebuf[4:8])
 				// Bad Packet send back a Status to the sender with current offset and session
 				var st status.Status
 				stheader := "descriptor=" + sarflags.GetStr(header, "descriptor") +
 					",metadatarecvd=no,allholes=yes,reqholes=requested,errcode=badpacket"
-				sinfo := status.Sinfo{Session: d.Session, Progress: d.Offset, Inrespto: 0, Holes: nil}
+				sinfo := status.Sinfo{Session: session, Progress: d.Offset, Inrespto: 0, Holes: nil}
 				if st.New(stheader, &sinfo) != nil {
 					sarwin.ErrPrintln(g, "red_black", "Cannot create badpacket status")
 					continue
 				}
 				sarwin.ErrPrintln(g, "red_black", "Bad Data:", rxerr, " from ",
-					sarnet.UDPinfo(remoteAddr), " session ", d.Session)
+					sarnet.UDPinfo(remoteAddr), " session ", session)
 				// Send a badpacket status back to the sender
 				tx <- st.Val(remoteAddr)
 				continue
-- 
2.43.0


From c8fca2afdc31d65312713aa62492db47ded5c1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:43 +0000
Subject: [PATCH 40/67] fix: sarwin: a transfer copies the settings while no
 command changes them

The map of settings was copied without its lock, so a command that sets one
at the same time ended the node. As a transfer has to wait for the lock now,
it is no longer kept for as long as beacons are sent.
---
 sarwin/sarwin.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index ba0cb23..3874ccd 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -695,7 +695,7 @@ func appendunique(slice []string, i string) []string {
 /* ********************************************************************************* */
 
 // All of the different command line input handlers
-// Send count beacons to host
+// Send count beacons to host, sarflags.Climu has to be locked
 func sendbeacons(g *gocui.Gui, clib Beaconcmd, addr *net.UDPAddr) {
 	// We have a hostname maybe with multiple addresses
 	var err error
@@ -709,6 +709,10 @@ func sendbeacons(g *gocui.Gui, clib Beaconcmd, addr *net.UDPAddr) {
 	}
 	defer conn.Close()
 
+	// We have all we need of the settings, don't keep them locked for as long as we send
+	sarflags.Climu.Unlock()
+	defer sarflags.Climu.Lock()
+
 	MsgPrintln(g, "cyan_black", "Sending beacon to ", addr.String())
 	eid := fmt.Sprintf("%s-%d", conn.LocalAddr().String(), os.Getpid())
 	binfo := beacon.Binfo{Freespace: 0, Eid: eid} // We work out the Freespace in txb.New
@@ -922,6 +926,15 @@ func Match(addr string, session uint32) *Transfer {
 func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c *sarflags.Cliflags) (*Transfer, error) {
 	// screen.Fprintln(g,  "red_black", "Addtran for ", ip.String(), " ", fname, " ", flags)
 
+	// Copy the flags for the transfer while no command changes them
+	sarflags.Climu.Lock()
+	flags, err := c.CopyCliflags()
+	sarflags.Climu.Unlock()
+	if err != nil {
+		ErrPrintln(g, "red_black", err)
+		return nil, err
+	}
+
 	// Lock it as we are going to add a new transfer slice
 	Trmu.Lock()
 	defer Trmu.Unlock()
@@ -957,11 +970,10 @@ func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c
 	t := new(Transfer)
 	t.Direction = Initiator
 	t.Ttype = ttype
-	t.Tstamptype = c.Timestamp
+	t.Tstamptype = flags.Timestamp
 	t.Session = newsession()
 	t.Peer = peer
 
-	var err error
 	// Dial the peer to create the connection
 	if t.Conn, err = net.DialUDP("udp", nil, peer); err != nil {
 		ErrPrintln(g, "red_black", "Cannot dial peer "+peer.String()+" "+err.Error())
@@ -979,10 +991,7 @@ func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c
 		ErrPrintln(g, "red_black", err)
 	}
 
-	// Copy the FLAGS to t.cliflags
-	if t.Cliflags, err = c.CopyCliflags(); err != nil {
-		panic(err)
-	}
+	t.Cliflags = flags
 	msg := fmt.Sprintf("Initiator Added %s Transfer to %s %s",
 		t.Ttype, t.Peer.String(), t.Filename)
 	Transfers = append(Transfers, *t)
-- 
2.43.0


From 1b02ac9a118dc85ce2498642809ca762e0ea8898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:43 +0000
Subject: [PATCH 41/67] fix: sarwin: the commands that show and remove
 transfers lock them

Showing them while one is removed indexed past the end, and a remove at the
same time as another could remove the wrong one.
---
 sarwin/sarwin.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 3874ccd..256e313 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1103,11 +1103,13 @@ func NewResponder(g *gocui.Gui, r request.Request, peer string) error {
 func Info(g *gocui.Gui, ttype string) {
 	var tinfo []Transfer
 
+	Trmu.Lock()
 	for i := range Transfers {
 		if ttype == "" || Transfers[i].Ttype == ttype {
 			tinfo = append(tinfo, Transfers[i])
 		}
 	}
+	Trmu.Unlock()
 	if len(tinfo) > 0 {
 		var maxaddrlen, maxfname int // Work out the width for the table
 		for key := range tinfo {
@@ -2118,8 +2120,10 @@ func cmdRmtran(g *gocui.Gui, args []string) {
 		addr := args[2]
 		// We are unsigned so Atoi does not cut it
 		if session, err := strconv.ParseUint(args[3], 10, 32); err == nil {
+			Trmu.Lock()
+			defer Trmu.Unlock()
 			if t := Match(addr, uint32(session)); t != nil {
-				if err := t.Remove(); err != nil {
+				if err := t.remove(); err != nil {
 					MsgPrintln(g, "red_black", err.Error())
 				}
 				return
-- 
2.43.0


From 94e28709cef8915454071f7d7dcf536ee86f1aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:05 +0000
Subject: [PATCH 42/67] fix: sarwin: peers are shown from a copy taken under
 their lock

A beacon received while they were shown changed them half way.
---
 beacon/beacon.go |  7 +++++++
 sarwin/sarwin.go | 47 ++++++++++++++++++++++++-----------------------
 2 files changed, 31 insertions(+), 23 deletions(-)

diff --git a/beacon/beacon.go b/beacon/beacon.go
index edad0fe..49d7024 100644
--- a/beacon/beacon.go
+++ b/beacon/beacon.go
@@ -361,6 +361,13 @@ var pmu sync.Mutex // Protect Peers
 // Peers - Slices of unique Peer information learned from beacons
 var Peers []Peer
 
+// CurPeers - Copy of the peer information, that beacons received meanwhile do not change
+func CurPeers() []Peer {
+	pmu.Lock()
+	defer pmu.Unlock()
+	return append([]Peer(nil), Peers...)
+}
+
 // NewPeer - Add/Change peer info from received beacon
 func NewPeer(b *Beacon, from *net.UDPAddr) bool {
 	if from == nil {
diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 256e313..903867c 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1832,31 +1832,32 @@ func cmdLs(g *gocui.Gui, args []string) {
 func cmdPeers(g *gocui.Gui, args []string) {
 	switch len(args) {
 	case 1:
-		if len(beacon.Peers) == 0 {
+		peers := beacon.CurPeers()
+		if len(peers) == 0 {
 			MsgPrintln(g, "green_black", "No Peers")
 			return
 		}
 		// Table format
 		// Work out the max length of each field
 		var addrlen, eidlen, dcrelen, dmodlen, cantxlen, canrxlen int
-		for p := range beacon.Peers {
-			if len(beacon.Peers[p].Addr) > addrlen {
-				addrlen = len(beacon.Peers[p].Addr)
+		for p := range peers {
+			if len(peers[p].Addr) > addrlen {
+				addrlen = len(peers[p].Addr)
 			}
-			if len(beacon.Peers[p].Eid) > eidlen {
-				eidlen = len(beacon.Peers[p].Eid)
+			if len(peers[p].Eid) > eidlen {
+				eidlen = len(peers[p].Eid)
 			}
-			if len(beacon.Peers[p].Canrx) > canrxlen {
-				canrxlen = len(beacon.Peers[p].Canrx)
+			if len(peers[p].Canrx) > canrxlen {
+				canrxlen = len(peers[p].Canrx)
 			}
-			if len(beacon.Peers[p].Cantx) > cantxlen {
-				cantxlen = len(beacon.Peers[p].Cantx)
+			if len(peers[p].Cantx) > cantxlen {
+				cantxlen = len(peers[p].Cantx)
 			}
-			if len(beacon.Peers[p].Created.Print()) > dcrelen {
-				dcrelen = len(beacon.Peers[p].Created.Print())
+			if len(peers[p].Created.Print()) > dcrelen {
+				dcrelen = len(peers[p].Created.Print())
 			}
-			if len(beacon.Peers[p].Created.Print()) > dmodlen {
-				dmodlen = len(beacon.Peers[p].Updated.Print())
+			if len(peers[p].Created.Print()) > dmodlen {
+				dmodlen = len(peers[p].Updated.Print())
 			}
 		}
 		if eidlen < 3 {
@@ -1878,15 +1879,15 @@ func cmdPeers(g *gocui.Gui, args []string) {
 		sfmt := fmt.Sprintf("|%%%ds|%%6s|%%%ds|%%3s|%%%ds|%%%ds|%%%ds|%%%ds|\n",
 			addrlen, eidlen, canrxlen, cantxlen, dcrelen, dmodlen)
 		var sslice sort.StringSlice
-		for key := range beacon.Peers {
-			pinfo := fmt.Sprintf(sfmt, beacon.Peers[key].Addr,
-				strconv.Itoa(int(beacon.Peers[key].Freespace/1024/1024)),
-				beacon.Peers[key].Eid,
-				beacon.Peers[key].Maxdesc,
-				beacon.Peers[key].Canrx,
-				beacon.Peers[key].Cantx,
-				beacon.Peers[key].Created.Print(),
-				beacon.Peers[key].Updated.Print())
+		for key := range peers {
+			pinfo := fmt.Sprintf(sfmt, peers[key].Addr,
+				strconv.Itoa(int(peers[key].Freespace/1024/1024)),
+				peers[key].Eid,
+				peers[key].Maxdesc,
+				peers[key].Canrx,
+				peers[key].Cantx,
+				peers[key].Created.Print(),
+				peers[key].Updated.Print())
 			sslice = append(sslice, pinfo)
 		}
 		sort.Sort(sslice)
-- 
2.43.0


From 570f38c7fd09cf9a28e3b817799042789ade5100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:50 +0000
Subject: [PATCH 43/67] fix: sarwin: count characters, not bytes, on the
 command line

With a prompt or a line that is not ASCII the cursor was put behind the end of it, and what
was typed there began with NUL characters, so that it was no command.
---
 sarwin/sarwin.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 903867c..4e18b49 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -16,6 +16,7 @@ import (
 	"strings"
 	"sync"
 	"time"
+	"unicode/utf8"
 
 	"github.com/jroimartin/gocui"
 
@@ -448,8 +449,9 @@ func CursorRight(g *gocui.Gui, v *gocui.View) error {
 	case "cmd":
 		cx, cy := v.Cursor()
 		line, _ := v.Line(cy)
-		if cx >= len(line)-1 { // We are at the end of line do nothing
-			v.SetCursor(len(line), cy)
+		linelen := utf8.RuneCountInString(line)
+		if cx >= linelen-1 { // We are at the end of line do nothing
+			v.SetCursor(linelen, cy)
 			return nil
 		}
 		// Move forward a character
@@ -509,7 +511,7 @@ func CursorUp(g *gocui.Gui, v *gocui.View) error {
 
 // Return the length of the prompt
 func promptlen(v Cmdinfo) int {
-	return len(v.Prompt) + len(strconv.Itoa(v.Curline)) + v.Ppad
+	return utf8.RuneCountInString(v.Prompt) + len(strconv.Itoa(v.Curline)) + v.Ppad
 }
 
 // Cprompt - Command line prompt
-- 
2.43.0


From 3ecd879170cb3a3ed459b856c63f81b84c7501e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:50 +0000
Subject: [PATCH 44/67] fix: sarwin: run the line that is shown

Cells the cursor had skipped over were shown as spaces and run as NUL characters, and of a
line with a prompt that has a colon in it part of the prompt was run.
---
 sarwin/sarwin.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 4e18b49..0f39cd8 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -586,7 +586,11 @@ func GetLine(g *gocui.Gui, v *gocui.View) error {
 		// Get the line
 		line, _ := v.Line(cy)
 
-		command := strings.SplitN(line, ":", 2)
+		// Cells that were skipped over are shown as spaces so that is what they are
+		line = strings.Replace(line, "\x00", " ", -1)
+
+		// The prompt itself may have a : in it
+		command := strings.SplitN(strings.TrimPrefix(line, Cinfo.Prompt), ":", 2)
 		if len(command) < 2 || command[1] == "" { // We have just hit enter - do nothing
 			return nil
 		}
-- 
2.43.0


From aec86c3f49c01567df2316fb49ea8276e594773b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:19 +0000
Subject: [PATCH 45/67] fix: sarwin: list the take, give and delete transfers
 when asked for them

The commands take, give and delete listed transfers of kinds that none has, and tran refused
take and give, which its usage offers.
---
 sarwin/sarwin.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 0f39cd8..8cc29db 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -857,7 +857,7 @@ func stpaylen(flags string) int {
 }
 
 // Ttypes - Transfer types
-var Ttypes = []string{"get", "getrm", "getdir", "put", "putblind", "putrm", "rm", "rmdir"}
+var Ttypes = []string{"get", "take", "getdir", "put", "putblind", "give", "delete", "rm", "rmdir"}
 
 // Transfer direction we are an initiator of a transfer or a respondant to a request for a transfer
 const Initiator bool = true
@@ -1662,7 +1662,7 @@ func cmdGetdir(g *gocui.Gui, args []string) {
 func cmdTake(g *gocui.Gui, args []string) {
 	switch len(args) {
 	case 1:
-		Info(g, "getrm")
+		Info(g, "take")
 		return
 	case 2:
 		if args[1] == "?" {
@@ -2006,7 +2006,7 @@ func cmdGive(g *gocui.Gui, args []string) {
 
 	switch len(args) {
 	case 1:
-		Info(g, "putrm")
+		Info(g, "give")
 		return
 	case 2:
 		if args[1] == "?" {
@@ -2075,7 +2075,7 @@ func cmdDelete(g *gocui.Gui, args []string) {
 
 	switch len(args) {
 	case 1:
-		Info(g, "rm")
+		Info(g, "delete")
 		return
 	case 2:
 		if args[1] == "?" {
-- 
2.43.0


From b7cec7e7f9968b84a02ad2d5691d5d084ad93068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:41 +0000
Subject: [PATCH 46/67] fix: sarwin: clear windows in the main loop

The clear command changed the windows and which of them is current while the main loop and
other commands used them.
---
 sarwin/sarwin.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 8cc29db..43b124f 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -106,16 +106,15 @@ type Cmdinfo struct {
 // Clear a window
 func Clearwin(g *gocui.Gui, win string) {
 
-	var newview *gocui.View
-
-	curview := g.CurrentView()
-	curname := curview.Name()
-	// x, y := curview.Cursor()
 	if win == "msg" || win == "err" || win == "packet" {
-		newview, _ = g.SetCurrentView(win)
-		newview.Clear()
-		newview.SetCursor(0, 0)
-		g.SetCurrentView(curname)
+		// Commands run at once so leave it to the main loop to change the view
+		g.Update(func(g *gocui.Gui) error {
+			if v, err := g.View(win); err == nil {
+				v.Clear()
+				v.SetCursor(0, 0)
+			}
+			return nil
+		})
 	}
 }
 
-- 
2.43.0


From fdbec4ff1153b98b8274d323c565211b742a0e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:38 +0000
Subject: [PATCH 47/67] fix: a flag without a value is refused instead of
 ending the program

New of the frames and of directory entries, and the size of a status, looked at
the value of name=value without there being one.
---
 beacon/beacon.go     | 3 +++
 data/data.go         | 3 +++
 dirent/dirent.go     | 3 +++
 metadata/metadata.go | 3 +++
 request/request.go   | 3 +++
 sarwin/sarwin.go     | 3 +++
 status/status.go     | 3 +++
 7 files changed, 21 insertions(+)

diff --git a/beacon/beacon.go b/beacon/beacon.go
index 49d7024..c6d6471 100644
--- a/beacon/beacon.go
+++ b/beacon/beacon.go
@@ -58,6 +58,9 @@ func (b *Beacon) New(flags string, info interface{}) error {
 	flag := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flag {
 		f := strings.Split(flag[fl], "=") // f[0]=name f[1]=val
+		if len(f) < 2 {
+			f = append(f, "") // No flag has an empty value
+		}
 
 		switch f[0] {
 		case "descriptor", "stream", "txwilling", "rxwilling", "udplite", "freespace":
diff --git a/data/data.go b/data/data.go
index 5b258e2..406d46a 100644
--- a/data/data.go
+++ b/data/data.go
@@ -63,6 +63,9 @@ func (d *Data) New(flags string, info interface{}) error {
 	flag := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flag {
 		f := strings.Split(flag[fl], "=") // f[0]=name f[1]=val
+		if len(f) < 2 {
+			f = append(f, "") // No flag has an empty value
+		}
 		switch f[0] {
 		case "version", "descriptor", "reqstatus", "eod":
 			if d.Header, err = sarflags.Set(d.Header, f[0], f[1]); err != nil {
diff --git a/dirent/dirent.go b/dirent/dirent.go
index 59e533d..6326ef4 100644
--- a/dirent/dirent.go
+++ b/dirent/dirent.go
@@ -87,6 +87,9 @@ func (d *DirEnt) New(flags string, path string) error {
 	flag := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flag {
 		f := strings.Split(flag[fl], "=") // f[0]=name f[1]=val
+		if len(f) < 2 {
+			f = append(f, "") // No flag has an empty value
+		}
 		switch f[0] {
 		case "descriptor", "property":
 			if d.Header, err = sarflags.SetD(d.Header, f[0], f[1]); err != nil {
diff --git a/metadata/metadata.go b/metadata/metadata.go
index 1c7a28b..602f3ef 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -126,6 +126,9 @@ func (m *MetaData) New(flags string, info interface{}) error {
 	flag := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flag {
 		f := strings.Split(flag[fl], "=") // f[0]=name f[1]=val
+		if len(f) < 2 {
+			f = append(f, "") // No flag has an empty value
+		}
 		switch f[0] {
 		case "descriptor", "progress", "transfer", "reliability":
 			if m.Header, err = sarflags.Set(m.Header, f[0], f[1]); err != nil {
diff --git a/request/request.go b/request/request.go
index 24f7a64..966353b 100644
--- a/request/request.go
+++ b/request/request.go
@@ -59,6 +59,9 @@ func (r *Request) New(flags string, info interface{}) error {
 	flag := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flag {
 		f := strings.Split(flag[fl], "=") // f[0]=name f[1]=val
+		if len(f) < 2 {
+			f = append(f, "") // No flag has an empty value
+		}
 		switch f[0] {
 		case "frametype", "version", "descriptor", "stream", "txwilling",
 			"rxwilling", "fileordir", "reqtype", "udplite":
diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 43b124f..41cb96c 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -830,6 +830,9 @@ func stpaylen(flags string) int {
 	flag := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flag {
 		f := strings.Split(flag[fl], "=") // f[0]=name f[1]=val
+		if len(f) < 2 {
+			f = append(f, "") // No flag has an empty value
+		}
 		switch f[0] {
 		case "descriptor":
 			switch f[1] {
diff --git a/status/status.go b/status/status.go
index 8a7250f..f7cf0f9 100644
--- a/status/status.go
+++ b/status/status.go
@@ -74,6 +74,9 @@ func (s *Status) New(flags string, info interface{}) error {
 	flag := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flag {
 		f := strings.Split(flag[fl], "=") // f[0]=name f[1]=val
+		if len(f) < 2 {
+			f = append(f, "") // No flag has an empty value
+		}
 		switch f[0] {
 		case "descriptor", "stream", "metadatarecvd", "allholes", "reqholes", "errcode":
 			if s.Header, err = sarflags.Set(s.Header, f[0], f[1]); err != nil {
-- 
2.43.0


From 6e30bfda57d250eb76d3f739dc8a8e2b008d44c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:15 +0000
Subject: [PATCH 48/67] fix: sarwin: put, putblind, give and delete come to an
 end

Do waited for ever on a nil channel, and the command for what Do never sent, so the
transfer stayed in the table for good. It now reports that transfers are not done yet,
which the commands handle already.
---
 sarwin/sarwin.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 41cb96c..3996950 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1280,10 +1280,7 @@ func (t *Transfer) Print() string {
 func (t *Transfer) Do(g *gocui.Gui, e chan error) {
 	MsgPrintln(g, "Doing command - Well actually not doing it!!!!!")
 	ErrPrintln(g, "red_black", "Charles write some code to Do a transfer!!!!")
-	if e != nil {
-		e = nil
-	}
-	<-e
+	e <- errors.New("transfers are not done yet")
 }
 
 /* ************************************************************************************ */
-- 
2.43.0


From dafd9f14919e65a5342f163dd8277b9bfec91538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:06 +0000
Subject: [PATCH 49/67] fix: fileio: a directory made for getdir can be used

FileOpen for getdir made the directory with no permission bits, so nobody but root could go into it: the call failed and left an unusable directory behind.
---
 fileio/fileio.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index da3f823..0940735 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -66,7 +66,7 @@ func FileOpen(fname string, ttype string) (*os.File, error) {
 		// Create the Directory
 		// BUT THEN WHAT DO WE DO!!!!
 		// LOTS CODE TO WRITE HERE
-		err = os.Mkdir(fullname, os.ModeDir)
+		err = os.Mkdir(fullname, 0777)
 		if err == nil {
 			if err = os.Chdir(fullname); err != nil {
 				return nil, err
-- 
2.43.0


From d93aa2700055f3c98cfa5375f1876267c9d27fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:22 +0000
Subject: [PATCH 50/67] fix: sarnet: a socket for multicasts can be closed
 while it is read

SetMulticastLoop took the descriptor with Fd, which makes the socket a blocking one: closing it, and with it the listener, then waited for a datagram to arrive, and a read held up the runtime's stops of the world (the node froze until the next datagram). It also left the duplicate descriptor open.
---
 sarnet/sarnet.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sarnet/sarnet.go b/sarnet/sarnet.go
index fa011c0..b0af75f 100644
--- a/sarnet/sarnet.go
+++ b/sarnet/sarnet.go
@@ -100,8 +100,13 @@ func OutboundIP(typ string) net.IP {
 
 // SetMulticastLoop - Set the Multicast Loopback address OK for Rx Multicasts
 func SetMulticastLoop(conn net.PacketConn) error {
-	file, _ := conn.(*net.UDPConn).File()
+	file, err := conn.(*net.UDPConn).File()
+	if err != nil {
+		return err
+	}
+	defer file.Close()
 	fd := int(file.Fd())
+	defer syscall.SetNonblock(fd, true) // Fd made the socket, that conn uses too, a blocking one
 	addr := conn.LocalAddr().String()
 	if isIPv4(addr) {
 		if err := syscall.SetsockoptInt(fd, syscall.IPPROTO_IP, syscall.IP_MULTICAST_LOOP, 1); err != nil {
-- 
2.43.0


From 694b8b3d35d66e29f181864441a3d6b26f1be07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:33 +0000
Subject: [PATCH 51/67] fix: status: a frame made in one used before has no
 holes of the old

Holes were appended to those the struct had.
---
 status/status.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/status/status.go b/status/status.go
index f7cf0f9..beb6ad6 100644
--- a/status/status.go
+++ b/status/status.go
@@ -109,6 +109,7 @@ func (s *Status) New(flags string, info interface{}) error {
 	s.Session = uint32(e.FieldByName("Session").Uint())
 	s.Progress = e.FieldByName("Progress").Uint()
 	s.Inrespto = e.FieldByName("Inrespto").Uint()
+	s.Holes = nil
 	for i := 0; i < e.FieldByName("Holes").Len(); i++ {
 		var h holes.Hole
 		// Get the Start and End from within the Holes Structure
@@ -142,6 +143,7 @@ func (s *Status) Make(header uint32, info interface{}) error {
 	s.Session = uint32(e.FieldByName("Session").Uint())
 	s.Progress = e.FieldByName("Progress").Uint()
 	s.Inrespto = e.FieldByName("Inrespto").Uint()
+	s.Holes = nil
 	for i := 0; i < e.FieldByName("Holes").Len(); i++ {
 		var h holes.Hole
 		// Get the Start and End from within the Holes Structure
-- 
2.43.0


From 8e46e7c74e4237d1053308551e640489af41a829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:33 +0000
Subject: [PATCH 52/67] fix: metadata: no checksum is left from the frame's use
 before

A frame made with no checksum in a struct which had one kept the old one.
---
 metadata/metadata.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 602f3ef..417f851 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -182,6 +182,8 @@ func (m *MetaData) New(flags string, info interface{}) error {
 		if csumlen > 0 {
 			m.Checksum = make([]byte, len(checksum))
 			copy(m.Checksum, checksum)
+		} else {
+			m.Checksum = nil
 		}
 	} else {
 		m.Checksum = nil
@@ -234,6 +236,8 @@ func (m *MetaData) Make(header uint32, info interface{}) error {
 		if csumlen > 0 {
 			m.Checksum = make([]byte, len(checksum))
 			copy(m.Checksum, checksum)
+		} else {
+			m.Checksum = nil
 		}
 	} else {
 		m.Checksum = nil
-- 
2.43.0


From 9f3689d9dc232b7ab30db916f42e990e62ea0eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:33 +0000
Subject: [PATCH 53/67] fix: timestamp: a local timestamp has no seconds left
 from before

A local timestamp made in one used before kept its seconds and nanoseconds, and was written with them.
---
 timestamp/timestamp.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/timestamp/timestamp.go b/timestamp/timestamp.go
index c5af84d..a78e601 100644
--- a/timestamp/timestamp.go
+++ b/timestamp/timestamp.go
@@ -78,6 +78,8 @@ func (t *Timestamp) New(flag string, ts time.Time) error {
 		t.nsecs = 0
 		t.local = ""
 	default: // localinterp Dont know this timestamp type so whatever is in flag is used
+		t.secs = 0
+		t.nsecs = 0
 		t.local = flag
 		t.ttype = flag
 	}
-- 
2.43.0


From defed3c65ceaef106fdb6c2bc3b6473087b2df3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:33 +0000
Subject: [PATCH 54/67] fix: sarwin: beacon off turns the multicast beacons off

'beacon off' cleared the hosts and left the v4 and v6 beacons on, to be sent to again by the next beacon command.
---
 sarwin/sarwin.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 3996950..2d0d6d8 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1342,6 +1342,8 @@ func cmdBeacon(g *gocui.Gui, args []string) {
 			MsgPrintln(g, "green_black", "Beacons Disabled")
 			// remove and disable all beacons
 			clibeacon.hosts = nil
+			clibeacon.v4mcast = false
+			clibeacon.v6mcast = false
 			return
 		case "v4": // beacon v4
 			// V4 Multicast
-- 
2.43.0


From 578c30282029616afccf06720b0026d1a6895371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:33 +0000
Subject: [PATCH 55/67] fix: sarwin: ls answers as its usage says

It took every line for one with too many words, 'ls' being one of them.
---
 sarwin/sarwin.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 2d0d6d8..37bdae1 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1822,12 +1822,11 @@ func cmdHome(g *gocui.Gui, args []string) {
 }
 
 func cmdLs(g *gocui.Gui, args []string) {
-	if len(args) != 0 {
+	if len(args) > 3 {
 		ErrPrintln(g, "red_bblack", prusage("ls"))
 		return
 	}
-	switch args[1] {
-	case "?":
+	if len(args) == 2 && args[1] == "?" {
 		MsgPrintln(g, "magenta_black", prhelp("ls"))
 		MsgPrintln(g, "green_black", prusage("ls"))
 		return
-- 
2.43.0


From 5663f68a505dfe7e9afe3c7f570a1e83652578c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:06 +0000
Subject: [PATCH 56/67] fix: saratoga: the terminal is given back when the node
 cannot go on

log.Fatal does not run the deferred g.Close, so the terminal was left without echo, in its other screen, and the reason not seen.
---
 saratoga/saratoga.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/saratoga/saratoga.go b/saratoga/saratoga.go
index 26a9909..ca5b91f 100644
--- a/saratoga/saratoga.go
+++ b/saratoga/saratoga.go
@@ -500,11 +500,13 @@ func main() {
 	// Get Host Interfaces & Address's
 	ifis, ierr := net.Interfaces()
 	if ierr != nil {
+		g.Close()
 		fmt.Println(ierr.Error())
 		log.Fatal(ierr)
 	}
 	g.SetManagerFunc(sarwin.Layout)
 	if err := sarwin.Keybindings(g); err != nil {
+		g.Close()
 		log.Panicln(err)
 	}
 
@@ -537,10 +539,12 @@ func main() {
 	// Set up for Listen to Multicast v6
 	v6mcastcon, err := net.ListenMulticastUDP("udp6", iface, &v6mcastaddr)
 	if err != nil {
+		g.Close()
 		log.Println("Saratoga Unable to Listen on IPv6 Multicast ", v6mcastaddr.IP, " ", v6mcastaddr.Port)
 		log.Fatal(err)
 	}
 	if err := sarnet.SetMulticastLoop(v6mcastcon); err != nil {
+		g.Close()
 		log.Fatal(err)
 	}
 
@@ -553,10 +557,12 @@ func main() {
 	// Set up for Listen to Multicast v4
 	v4mcastcon, err := net.ListenMulticastUDP("udp4", iface, &v4mcastaddr)
 	if err != nil {
+		g.Close()
 		log.Println("Saratoga Unable to Listen on IPv4 Multicast ", v4mcastaddr.IP, " ", v4mcastaddr.Port)
 		log.Fatal(err)
 	}
 	if err := sarnet.SetMulticastLoop(v4mcastcon); err != nil {
+		g.Close()
 		log.Fatal(err)
 	}
 
@@ -731,6 +737,7 @@ func main() {
 		case v6err := <-v6listenquit:
 			log.Fatal("Saratoga v6 listener has quit with error:", v6err)
 		case err := <-errflag:
+			g.Close() // Give the terminal back
 			if err != nil {
 				log.Fatal("Mainloop has quit with error:", err.Error())
 			}
-- 
2.43.0


From 844781ee793aa61bf2eb788996dd7c61c8404fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:06 +0000
Subject: [PATCH 57/67] fix: sarwin: exit ends saratoga, with the level asked
 for

'exit 0', 'exit 1' and the same of quit said good bye and did nothing else, 'exit' ended with level 1 whatever went before.
---
 saratoga/saratoga.go |  3 +++
 sarwin/sarwin.go     | 24 ++++++++++++------------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/saratoga/saratoga.go b/saratoga/saratoga.go
index ca5b91f..0094100 100644
--- a/saratoga/saratoga.go
+++ b/saratoga/saratoga.go
@@ -738,6 +738,9 @@ func main() {
 			log.Fatal("Saratoga v6 listener has quit with error:", v6err)
 		case err := <-errflag:
 			g.Close() // Give the terminal back
+			if err == gocui.ErrQuit && sarwin.Cexit >= 0 {
+				os.Exit(sarwin.Cexit)
+			}
 			if err != nil {
 				log.Fatal("Mainloop has quit with error:", err.Error())
 			}
diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 37bdae1..3787bbc 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -596,12 +596,6 @@ func GetLine(g *gocui.Gui, v *gocui.View) error {
 		// Save the command into history
 		Cinfo.Commands = append(Cinfo.Commands, command[1])
 
-		if command[1] == "exit" || command[1] == "quit" {
-			// Sarwg.Wait()
-			err := Quit(g, v)
-			// THIS IS A KLUDGE FIX IT WITH A CHANNEL
-			log.Fatal("\nGocui Exit. Bye!\n", err)
-		}
 		// RUN THE COMMAND ENTERED!!!
 		Run(g, command[1])
 		prompt(g, v)
@@ -1534,12 +1528,20 @@ func cmdDescriptor(g *gocui.Gui, args []string) {
 // Cexit = Exit level to quit from saratoga
 var Cexit = -1
 
+// leave - End the main loop, saratoga exits with level
+func leave(g *gocui.Gui, level int) {
+	MsgPrintln(g, "green_black", "Good Bye!")
+	g.Update(func(g *gocui.Gui) error {
+		Cexit = level
+		return gocui.ErrQuit
+	})
+}
+
 // cmdExit -- Quit saratoga
 func cmdExit(g *gocui.Gui, args []string) {
 	switch len(args) {
 	case 1: // exit 0
-		Cexit = 0
-		MsgPrintln(g, "green_black", "Good Bye!")
+		leave(g, 0)
 		return
 	case 2:
 		switch args[1] {
@@ -1547,11 +1549,9 @@ func cmdExit(g *gocui.Gui, args []string) {
 			MsgPrintln(g, "magenta_black", prhelp("exit"))
 			MsgPrintln(g, "green_black", prusage("exit"))
 		case "0": // exit 0
-			Cexit = 0
-			MsgPrintln(g, "green_black", "Good Bye!")
+			leave(g, 0)
 		case "1": // exit 1
-			Cexit = 1
-			MsgPrintln(g, "green_black", "Good Bye!")
+			leave(g, 1)
 		default: // Help
 			ErrPrintln(g, "red_black", prusage("exit"))
 		}
-- 
2.43.0


From 3daf9fcc40f142b125323b1ea74deb5af3e79a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:06 +0000
Subject: [PATCH 58/67] fix: sarwin: what is typed ahead comes after the prompt

The prompt was left to the main loop to print later. Characters typed before it did came in front of it, and the line was not run.
---
 sarwin/sarwin.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 3787bbc..2b95f75 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -517,6 +517,7 @@ func promptlen(v Cmdinfo) int {
 // var Cprompt = "saratoga" // If not set in saratoga.json set it to saratoga
 
 // Display the prompt
+// This is called in the main loop, what is typed next has to come after it so write to the view now
 func prompt(g *gocui.Gui, v *gocui.View) {
 	if g == nil || v == nil || v.Name() != "cmd" {
 		log.Fatal("prompt must be in cmd view")
@@ -525,21 +526,21 @@ func prompt(g *gocui.Gui, v *gocui.View) {
 	_, cy := v.Cursor()
 	// Only display it if it is on the next new line
 	if oy+cy == Cinfo.Curline {
+		ViewMu.Lock()
+		defer ViewMu.Unlock()
 		if FirstPass { // Just the prompt no precedin \n as we are the first line
-			CmdPrintf(g, "yellow_black", "%s[%d]:", Cinfo.Prompt, Cinfo.Curline)
+			fmt.Fprintf(v, "%s%s[%d]:%s", setcolour("yellow_black"), Cinfo.Prompt, Cinfo.Curline, setcolour("off"))
 			v.SetCursor(promptlen(Cinfo), cy)
 			return
 		}
 		// End the last command by going to new lin \n then put up the new prompt
 		Cinfo.Curline++
-		CmdPrintf(g, "yellow_black", "\n%s[%d]:", Cinfo.Prompt, Cinfo.Curline)
-		_, cy := v.Cursor()
-		v.SetCursor(promptlen(Cinfo), cy)
+		fmt.Fprintf(v, "%s\n%s[%d]:%s", setcolour("yellow_black"), Cinfo.Prompt, Cinfo.Curline, setcolour("off"))
 		if err := CursorDown(g, v); err != nil {
 			ErrPrintln(g, "red_black", "Cannot move to next line")
 		}
 		_, cy = v.Cursor()
-		v.SetCursor(promptlen(Cinfo), cy+1)
+		v.SetCursor(promptlen(Cinfo), cy)
 	}
 }
 
-- 
2.43.0


From 3158514ef2c2b520e114c94bc18e482a37f35e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:06 +0000
Subject: [PATCH 59/67] fix: sarwin: saratoga goes on in a small terminal

A terminal made smaller than about 12 lines or 16 columns has no space for a view, which ended the main loop and all the transfers.
---
 sarwin/sarwin.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 2b95f75..6908783 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -165,6 +165,7 @@ func PacketPrintln(g *gocui.Gui, colour string, args ...interface{}) {
 var FirstPass = true
 
 func Layout(g *gocui.Gui) error {
+	const minsize = 16 // Smallest terminal that has space for all of the views
 	var err error
 	var cmd *gocui.View
 	var msg *gocui.View
@@ -174,6 +175,13 @@ func Layout(g *gocui.Gui) error {
 
 	// Maximum size of x and y
 	maxx, maxy := g.Size()
+	// A view needs some space so in a terminal smaller than this part of them is not seen
+	if maxx < minsize {
+		maxx = minsize
+	}
+	if maxy < minsize {
+		maxy = minsize
+	}
 	// This is the command line input view -- cli inputs and return messages go here
 	if cmd, err = g.SetView("cmd", 0, maxy-(maxy/ratio)+1, maxx/2-1, maxy-1); err != nil {
 		if err != gocui.ErrUnknownView {
-- 
2.43.0


From 2dd9d6afdb5527382f083728338a7298154685d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:06 +0000
Subject: [PATCH 60/67] fix: sarwin: views show their end and commands are
 taken after a resize

A view kept what it had scrolled to in a smaller one, so it showed nothing, and the cursor stayed where it was put then: no line typed was run.
---
 sarwin/sarwin.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 6908783..bb7a45a 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -241,6 +241,12 @@ func Layout(g *gocui.Gui) error {
 		msg.Autoscroll = true
 	}
 
+	// What was scrolled to is of no use in views of another size
+	if maxx != lastx || maxy != lasty {
+		lastx, lasty = maxx, maxy
+		resized(g)
+	}
+
 	// Display the prompt without the \n first time around
 	if FirstPass {
 		g.Cursor = true
@@ -260,6 +266,32 @@ func Layout(g *gocui.Gui) error {
 	return nil
 }
 
+// Size of the terminal the views were last laid out for
+var lastx, lasty int
+
+// The size of the views has changed. Show them from the start, Autoscroll then moves them to their end,
+// and put the cursor at the end of the last line of the cmd view.
+func resized(g *gocui.Gui) {
+	for _, v := range g.Views() {
+		v.SetOrigin(0, 0)
+	}
+	v, err := g.View("cmd")
+	if err != nil {
+		return
+	}
+	lines := v.BufferLines()
+	if len(lines) == 0 {
+		return
+	}
+	_, height := v.Size()
+	cy := len(lines) - 1
+	if cy >= height {
+		v.SetOrigin(0, cy-height+1)
+		cy = height - 1
+	}
+	v.SetCursor(utf8.RuneCountInString(lines[len(lines)-1]), cy)
+}
+
 // Does the foreground colour exist in our map of fg colours
 func fgexists(col string) bool {
 	for c := range fg {
-- 
2.43.0


From 11342bfec82f16886f3ded7cdb017036fd7936ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:06 +0000
Subject: [PATCH 61/67] fix: sarwin: a command can be wider than its window

The view wrapped it to several rows. None of them is the line with the prompt, so it was not run, nor any after it.
---
 sarwin/sarwin.go | 65 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 45 insertions(+), 20 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index bb7a45a..a0a1739 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -193,7 +193,8 @@ func Layout(g *gocui.Gui) error {
 		cmd.FgColor = gocui.ColorGreen
 		cmd.Editable = true
 		cmd.Overwrite = true
-		cmd.Wrap = true
+		cmd.Wrap = false // A line is one line however long it is
+		cmd.Editor = gocui.EditorFunc(editLine)
 		cmd.Autoscroll = true
 	}
 	// This is the error msg view -- errors go here
@@ -289,7 +290,8 @@ func resized(g *gocui.Gui) {
 		v.SetOrigin(0, cy-height+1)
 		cy = height - 1
 	}
-	v.SetCursor(utf8.RuneCountInString(lines[len(lines)-1]), cy)
+	v.SetCursor(0, cy)
+	setcolumn(v, utf8.RuneCountInString(lines[len(lines)-1]))
 }
 
 // Does the foreground colour exist in our map of fg colours
@@ -447,16 +449,45 @@ func switchView(g *gocui.Gui, v *gocui.View) error {
 	return nil
 }
 
+// The column in its line that the cursor is in
+func column(v *gocui.View) int {
+	ox, _ := v.Origin()
+	cx, _ := v.Cursor()
+	return ox + cx
+}
+
+// Put the cursor in column x of its line, with as much of the start of the line in view as there is space for
+func setcolumn(v *gocui.View, x int) {
+	_, oy := v.Origin()
+	_, cy := v.Cursor()
+	ox := 0
+	if width, _ := v.Size(); width > 0 && x >= width {
+		ox = x - width + 1
+	}
+	v.SetOrigin(ox, oy)
+	v.SetCursor(x-ox, cy)
+}
+
+// Characters typed in the cmd view
+func editLine(v *gocui.View, key gocui.Key, ch rune, mod gocui.Modifier) {
+	x := column(v)
+	gocui.DefaultEditor.Edit(v, key, ch, mod)
+	if (ch != 0 && mod == 0) || key == gocui.KeySpace {
+		setcolumn(v, x+1)
+	}
+}
+
 // Backspace or Delete
 func BackSpace(g *gocui.Gui, v *gocui.View) error {
 	switch v.Name() {
 	case "cmd":
-		cx, _ := v.Cursor()
-		if cx <= promptlen(Cinfo) { // Dont move we are at the prompt
+		x := column(v)
+		if x <= promptlen(Cinfo) { // Dont move we are at the prompt
 			return nil
 		}
 		// Delete rune backwards
 		v.EditDelete(true)
+		setcolumn(v, x-1)
 	case "msg", "err", "packet":
 		return nil
 	}
@@ -467,15 +498,12 @@ func BackSpace(g *gocui.Gui, v *gocui.View) error {
 func CursorLeft(g *gocui.Gui, v *gocui.View) error {
 	switch v.Name() {
 	case "cmd":
-		cx, cy := v.Cursor()
-		if cx <= promptlen(Cinfo) { // Dont move we are at the prompt
+		x := column(v)
+		if x <= promptlen(Cinfo) { // Dont move we are at the prompt
 			return nil
 		}
 		// Move back a character
-		if err := v.SetCursor(cx-1, cy); err != nil {
-			return nil
-			// ErrPrintln(g, "white_black", v.Name(), "LeftArrow:", "cx=", cx, "cy=", cy, "error=", err)
-		}
+		setcolumn(v, x-1)
 	case "msg", "packet", "err":
 		return nil
 	}
@@ -486,18 +514,16 @@ func CursorLeft(g *gocui.Gui, v *gocui.View) error {
 func CursorRight(g *gocui.Gui, v *gocui.View) error {
 	switch v.Name() {
 	case "cmd":
-		cx, cy := v.Cursor()
+		_, cy := v.Cursor()
 		line, _ := v.Line(cy)
 		linelen := utf8.RuneCountInString(line)
-		if cx >= linelen-1 { // We are at the end of line do nothing
-			v.SetCursor(linelen, cy)
+		x := column(v)
+		if x >= linelen-1 { // We are at the end of line do nothing
+			setcolumn(v, linelen)
 			return nil
 		}
 		// Move forward a character
-		if err := v.SetCursor(cx+1, cy); err != nil {
-			return nil
-			// ErrPrintln(g, "white_red", "RightArrow:", "cx=", cx, "cy=", cy, "error=", err)
-		}
+		setcolumn(v, x+1)
 	case "msg", "packet", "err":
 		return nil
 	}
@@ -570,7 +596,7 @@ func prompt(g *gocui.Gui, v *gocui.View) {
 		defer ViewMu.Unlock()
 		if FirstPass { // Just the prompt no precedin \n as we are the first line
 			fmt.Fprintf(v, "%s%s[%d]:%s", setcolour("yellow_black"), Cinfo.Prompt, Cinfo.Curline, setcolour("off"))
-			v.SetCursor(promptlen(Cinfo), cy)
+			setcolumn(v, promptlen(Cinfo))
 			return
 		}
 		// End the last command by going to new lin \n then put up the new prompt
@@ -579,8 +605,7 @@ func prompt(g *gocui.Gui, v *gocui.View) {
 		if err := CursorDown(g, v); err != nil {
 			ErrPrintln(g, "red_black", "Cannot move to next line")
 		}
-		_, cy = v.Cursor()
-		v.SetCursor(promptlen(Cinfo), cy)
+		setcolumn(v, promptlen(Cinfo))
 	}
 }
 
-- 
2.43.0


From cb5f32dff77c2634a52e8ab79af63fecf8d67c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:57 +0000
Subject: [PATCH 62/67] fix: sarwin: what is printed after a clear is in view

---
 sarwin/sarwin.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index a0a1739..8c31f29 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -112,6 +112,7 @@ func Clearwin(g *gocui.Gui, win string) {
 			if v, err := g.View(win); err == nil {
 				v.Clear()
 				v.SetCursor(0, 0)
+				v.SetOrigin(0, 0) // What comes next is at its start
 			}
 			return nil
 		})
-- 
2.43.0


From 23a6362745cbf39f893eb2d3065bf6ecdbfa4709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:57 +0000
Subject: [PATCH 63/67] fix: sarwin: down does not move a view past its end

---
 sarwin/sarwin.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 8c31f29..3891cc9 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -535,8 +535,8 @@ func CursorRight(g *gocui.Gui, v *gocui.View) error {
 func CursorDown(g *gocui.Gui, v *gocui.View) error {
 	ox, oy := v.Origin()
 	cx, cy := v.Cursor()
-	// Don't move down if we are at the last line in current views Bufferlines
-	if oy+cy == len(v.BufferLines())-1 {
+	// Don't move down if we are at the last line in current views Bufferlines, or past it as in a view that was empty
+	if oy+cy >= len(v.BufferLines())-1 {
 		//ErrPrintf(g, "white_black", "%s Down oy=%d cy=%d lines=%d\n",
 		//	v.Name(), oy, cy, len(v.BufferLines()))
 		return nil
-- 
2.43.0


From d7108ffd3b9a4562f4d57f38b42494e267f84ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:12 +0000
Subject: [PATCH 64/67] fix: saratoga: a node that is not started as it has to
 be has status 1

---
 saratoga/saratoga.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/saratoga/saratoga.go b/saratoga/saratoga.go
index 0094100..9bc1b8c 100644
--- a/saratoga/saratoga.go
+++ b/saratoga/saratoga.go
@@ -442,7 +442,7 @@ func main() {
 	if len(os.Args) != 3 {
 		fmt.Println("usage:saratoga <config> <iface>")
 		fmt.Println("e.g.: go run saratoga.go saratoga.json en0 (Interface says where to listen for multicast joins")
-		return
+		os.Exit(1)
 	}
 
 	argnumb := 1
@@ -455,7 +455,7 @@ func main() {
 	// Read in JSON config file and parse it into the Config structure.
 	if err = Cmdptr.ReadConfig(os.Args[argnumb]); err != nil {
 		fmt.Println("Cannot open saratoga config file we have a Readconf error ", os.Args[argnumb], " ", err)
-		return
+		os.Exit(1)
 	}
 
 	// Grab my process ID
-- 
2.43.0


From fff6cbe965f7e7d3494bb25f7739ae72ad05da26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:12 +0000
Subject: [PATCH 65/67] fix: saratoga: say why there is no user interface

---
 saratoga/saratoga.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/saratoga/saratoga.go b/saratoga/saratoga.go
index 9bc1b8c..8935e24 100644
--- a/saratoga/saratoga.go
+++ b/saratoga/saratoga.go
@@ -492,8 +492,8 @@ func main() {
 	// Set up the gocui interface and start the mainloop
 	g, gerr := gocui.NewGui(gocui.OutputNormal)
 	if gerr != nil {
-		fmt.Printf("Cannot run gocui user interface")
-		log.Fatal(err)
+		fmt.Println("Cannot run gocui user interface")
+		log.Fatal(gerr)
 	}
 	defer g.Close()
 
-- 
2.43.0


From f251f8dad5ca1b761ccc10a667a4a8ac1ef77d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:12 +0000
Subject: [PATCH 66/67] fix: saratoga: the terminal is given back when a
 listener fails

---
 saratoga/saratoga.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/saratoga/saratoga.go b/saratoga/saratoga.go
index 8935e24..756938b 100644
--- a/saratoga/saratoga.go
+++ b/saratoga/saratoga.go
@@ -733,8 +733,10 @@ func main() {
 				sarwin.ErrPrintln(g, "blue_black", "Need to send v6 Saratoga INVALID Frame")
 			}
 		case v4err := <-v4listenquit:
+			g.Close() // Give the terminal back
 			log.Fatal("Saratoga v4 listener has quit with error:", v4err)
 		case v6err := <-v6listenquit:
+			g.Close() // Give the terminal back
 			log.Fatal("Saratoga v6 listener has quit with error:", v6err)
 		case err := <-errflag:
 			g.Close() // Give the terminal back
-- 
2.43.0


From 5e4cbae80ae022dde9ac097c90b621e11f6357a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:25 +0000
Subject: [PATCH 67/67] fix: saratoga: the working directory can be named from
 where the node is started

---
 saratoga/saratoga.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/saratoga/saratoga.go b/saratoga/saratoga.go
index 756938b..f8e1195 100644
--- a/saratoga/saratoga.go
+++ b/saratoga/saratoga.go
@@ -9,6 +9,7 @@ import (
 	"log"
 	"net"
 	"os"
+	"path/filepath"
 	"strings"
 	"syscall"
 
@@ -467,10 +468,15 @@ func main() {
 	sarwin.Cinfo.Prompt = Cmdptr.Prompt
 	sarwin.Cinfo.Ppad = Cmdptr.Ppad
 
-	// Move to saratoga working directory
+	// Move to saratoga working directory, which is what it was from where we are now
+	sardir, err := filepath.Abs(Cmdptr.Sardir)
+	if err != nil {
+		log.Fatal(err)
+	}
 	if err = os.Chdir(Cmdptr.Sardir); err != nil {
 		log.Fatal(fmt.Errorf("no such directory SARDIR=%s", Cmdptr.Sardir))
 	}
+	Cmdptr.Sardir = sardir
 
 	var fs syscall.Statfs_t
 	if err = syscall.Statfs(Cmdptr.Sardir, &fs); err != nil {
-- 
2.43.0

