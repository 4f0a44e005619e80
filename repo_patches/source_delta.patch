From e37129d6052ca941f2b14575c704882db96e2575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:41 +0000
Subject: [PATCH 1/9] fix: accept RFC 2141 namespace identifiers that merely
 start with "u"

The look-ahead meant to reject an identifier equal to "urn" only tested that
the byte three positions after its initial "u" is a colon, so it also rejected
"urn:usa:x", "urn:uk-:x", "urn:u:x:y", "urn:uu::x" and the like.
---
 machine.go    | 5 +++--
 machine.go.rl | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/machine.go b/machine.go
index aec1ba6..393916f 100644
--- a/machine.go
+++ b/machine.go
@@ -2,6 +2,7 @@ package urn
 
 import (
 	"fmt"
+	"strings"
 
 	scimschema "github.com/leodido/go-urn/scim/schema"
 )
@@ -4359,8 +4360,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		if m.parsingMode != RFC8141Only {
 			// Throw an error when:
 			// - we are entering here matching the the prefix in the namespace identifier part
-			// - looking ahead (3 chars) we find a colon
-			if pos := m.p + 3; pos < m.pe && m.data[pos] == 58 && output.prefix != "" {
+			// - looking ahead we find exactly the prefix (whatever case) followed by a colon
+			if pos := m.p + 3; pos < m.pe && m.data[pos] == 58 && output.prefix != "" && strings.EqualFold(string(m.data[m.p:pos]), "urn") {
 				m.err = fmt.Errorf(errNoUrnWithinID, pos)
 				(m.p)--
 
diff --git a/machine.go.rl b/machine.go.rl
index 0a17421..09be846 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -2,6 +2,7 @@ package urn
 
 import (
     "fmt"
+    "strings"
 
     scimschema "github.com/leodido/go-urn/scim/schema"
 )
@@ -49,8 +50,8 @@ action throw_pre_urn_err {
     if m.parsingMode != RFC8141Only {
         // Throw an error when:
         // - we are entering here matching the the prefix in the namespace identifier part
-        // - looking ahead (3 chars) we find a colon
-        if pos := m.p + 3; pos < m.pe && m.data[pos] == 58 && output.prefix != "" {
+        // - looking ahead we find exactly the prefix (whatever case) followed by a colon
+        if pos := m.p + 3; pos < m.pe && m.data[pos] == 58 && output.prefix != "" && strings.EqualFold(string(m.data[m.p:pos]), "urn") {
             m.err = fmt.Errorf(errNoUrnWithinID, pos)
             fhold;
             fgoto fail;
-- 
2.43.0


From 997c3b330010238c33161a557d905009f484509b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:55 +0000
Subject: [PATCH 2/9] fix: report an error for malformed RFC 8141 components

A lone "?" after the specific string and a bad byte in the f-component stopped
the machine without any error: the machine returned neither a URN nor an error,
and Parse returned a nil URN with ok set to true.
---
 machine.go    | 5 +++++
 machine.go.rl | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/machine.go b/machine.go
index 393916f..b7e90cd 100644
--- a/machine.go
+++ b/machine.go
@@ -25,6 +25,7 @@ var (
 	err8141QComponentStart = "expecting only one q-component (starting with the ?= sequence) [col %d]"
 	err8141MalformedRComp  = "expecting a non-empty r-component containing alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] but not at its beginning) [col %d]"
 	err8141MalformedQComp  = "expecting a non-empty q-component containing alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] but not at its beginning) [col %d]"
+	err8141Components      = "expecting only well-formed r-component, q-component, and f-component after the specific string [col %d]"
 )
 var _toStateActions []byte = []byte{
 	0, 0, 0, 0, 0, 0, 0, 0,
@@ -5027,6 +5028,10 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 	}
 
 	if m.cs < firstFinal || m.cs == enFail {
+		if m.err == nil {
+			// No error action covers what follows a complete specific string
+			m.err = fmt.Errorf(err8141Components, m.p)
+		}
 		return nil, m.err
 	}
 
diff --git a/machine.go.rl b/machine.go.rl
index 09be846..39fb40d 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -25,6 +25,7 @@ var (
     err8141QComponentStart = "expecting only one q-component (starting with the ?= sequence) [col %d]"
     err8141MalformedRComp  = "expecting a non-empty r-component containing alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] but not at its beginning) [col %d]"
     err8141MalformedQComp  = "expecting a non-empty q-component containing alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] but not at its beginning) [col %d]"
+    err8141Components      = "expecting only well-formed r-component, q-component, and f-component after the specific string [col %d]"
 )
 
 %%{
@@ -367,6 +368,10 @@ func (m *machine) Parse(input []byte) (*URN, error) {
     %% write exec;
 
     if m.cs < first_final || m.cs == en_fail {
+        if m.err == nil {
+            // No error action covers what follows a complete specific string
+            m.err = fmt.Errorf(err8141Components, m.p)
+        }
         return nil, m.err
     }
 
-- 
2.43.0


From 3352e011ec80288f3a225fc4e5820c17245008f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:08 +0000
Subject: [PATCH 3/9] fix: make the Default parsing mode parse

WithParsingMode(Default), or any value that is not a parsing mode, left a new
machine without an entry state (it rejected every input) and a reused machine
with the grammar of its previous mode but the error handling of none.
---
 machine.go    | 4 ++++
 machine.go.rl | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/machine.go b/machine.go
index b7e90cd..de18520 100644
--- a/machine.go
+++ b/machine.go
@@ -5047,6 +5047,10 @@ func (m *machine) WithParsingMode(x ParsingMode) {
 		m.startParsingAt = enRfc8141Only
 	case RFC7643Only:
 		m.startParsingAt = enScimOnly
+	default:
+		// Default, and any value that is not a parsing mode
+		m.parsingMode = DefaultParsingMode
+		m.startParsingAt = enMain
 	}
 	m.parsingModeSet = true
 }
diff --git a/machine.go.rl b/machine.go.rl
index 39fb40d..cdd3536 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -387,6 +387,10 @@ func (m *machine) WithParsingMode(x ParsingMode) {
             m.startParsingAt = en_rfc8141_only
         case RFC7643Only:
             m.startParsingAt = en_scim_only
+        default:
+            // Default, and any value that is not a parsing mode
+            m.parsingMode = DefaultParsingMode
+            m.startParsingAt = en_main
     }
     m.parsingModeSet = true
 }
\ No newline at end of file
-- 
2.43.0


From eaea81dfe119df16e19d32540d7e84cb753746a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:11 +0000
Subject: [PATCH 4/9] fix: never write to the input while parsing

The normalized specific string was made by lowering the hex letters inside the
input and restoring them afterwards: a data race, and wrong results, for
machines that parse the same bytes concurrently, and a fault for inputs in
read-only memory.
---
 machine.go    | 60 +++++++++++++--------------------------------------
 machine.go.rl | 20 +++++++++--------
 2 files changed, 26 insertions(+), 54 deletions(-)

diff --git a/machine.go b/machine.go
index de18520..d300f84 100644
--- a/machine.go
+++ b/machine.go
@@ -136,6 +136,16 @@ func (m *machine) text() []byte {
 	return m.data[m.pb:m.p]
 }
 
+// lowerAt returns s with the upper case letters at the given positions lowered.
+func lowerAt(s string, positions []int) string {
+	res := []byte(s)
+	for _, i := range positions {
+		res[i] = res[i] + 32
+	}
+
+	return string(res)
+}
+
 // Parse parses the input byte array as a RFC 2141 or RFC7643 string.
 func (m *machine) Parse(input []byte) (*URN, error) {
 	m.data = input
@@ -4172,15 +4182,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 	f38:
 
 		output.SS = string(m.text())
-		// Iterate upper letters lowering them
-		for _, i := range output.tolower {
-			m.data[m.pb+i] = m.data[m.pb+i] + 32
-		}
-		output.norm = string(m.text())
-		// Revert the buffer to the original
-		for _, i := range output.tolower {
-			m.data[m.pb+i] = m.data[m.pb+i] - 32
-		}
+		output.norm = lowerAt(output.SS, output.tolower)
 
 		goto _again
 	f0:
@@ -4747,30 +4749,14 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 			case 34:
 
 				output.SS = string(m.text())
-				// Iterate upper letters lowering them
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] + 32
-				}
-				output.norm = string(m.text())
-				// Revert the buffer to the original
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] - 32
-				}
+				output.norm = lowerAt(output.SS, output.tolower)
 
 				output.kind = RFC2141
 
 			case 38:
 
 				output.SS = string(m.text())
-				// Iterate upper letters lowering them
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] + 32
-				}
-				output.norm = string(m.text())
-				// Revert the buffer to the original
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] - 32
-				}
+				output.norm = lowerAt(output.SS, output.tolower)
 
 				output.kind = RFC8141
 
@@ -4959,15 +4945,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				output.scim.Name = string(m.data[output.scim.pos:m.p])
 
 				output.SS = string(m.text())
-				// Iterate upper letters lowering them
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] + 32
-				}
-				output.norm = string(m.text())
-				// Revert the buffer to the original
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] - 32
-				}
+				output.norm = lowerAt(output.SS, output.tolower)
 
 				output.kind = RFC7643
 
@@ -4976,15 +4954,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				output.scim.Other = string(m.data[output.scim.pos:m.p])
 
 				output.SS = string(m.text())
-				// Iterate upper letters lowering them
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] + 32
-				}
-				output.norm = string(m.text())
-				// Revert the buffer to the original
-				for _, i := range output.tolower {
-					m.data[m.pb+i] = m.data[m.pb+i] - 32
-				}
+				output.norm = lowerAt(output.SS, output.tolower)
 
 				output.kind = RFC7643
 
diff --git a/machine.go.rl b/machine.go.rl
index cdd3536..ebdfa4a 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -66,15 +66,7 @@ action set_nid {
 
 action set_nss {
     output.SS = string(m.text())
-    // Iterate upper letters lowering them
-    for _, i := range output.tolower {
-        m.data[m.pb+i] = m.data[m.pb+i] + 32
-    }
-    output.norm = string(m.text())
-    // Revert the buffer to the original
-    for _, i := range output.tolower {
-        m.data[m.pb+i] = m.data[m.pb+i] - 32
-    }
+    output.norm = lowerAt(output.SS, output.tolower)
 }
 
 action err_pre {
@@ -352,6 +344,16 @@ func (m *machine) text() []byte {
     return m.data[m.pb:m.p]
 }
 
+// lowerAt returns s with the upper case letters at the given positions lowered.
+func lowerAt(s string, positions []int) string {
+    res := []byte(s)
+    for _, i := range positions {
+        res[i] = res[i] + 32
+    }
+
+    return string(res)
+}
+
 // Parse parses the input byte array as a RFC 2141 or RFC7643 string.
 func (m *machine) Parse(input []byte) (*URN, error) {
     m.data = input
-- 
2.43.0


From e6f0c1d6bf8a5ef4d711db8148c5b2230cffe148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:28 +0000
Subject: [PATCH 5/9] fix: normalize URNs that do not come straight from the
 parser

Only the parser set the normalized specific string, so normalizing a
normalized URN, or one built from its ID and SS, gave an empty specific string
(and one whose SS was assigned after parsing gave the former SS), and Equal
ignored the specific strings of all such URNs.
---
 machine.go    |  5 +++++
 machine.go.rl |  1 +
 urn.go        | 29 ++++++++++++++++++++++++++++-
 3 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/machine.go b/machine.go
index d300f84..7fcc341 100644
--- a/machine.go
+++ b/machine.go
@@ -4183,6 +4183,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 
 		output.SS = string(m.text())
 		output.norm = lowerAt(output.SS, output.tolower)
+		output.normOf = output.SS
 
 		goto _again
 	f0:
@@ -4750,6 +4751,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 
 				output.SS = string(m.text())
 				output.norm = lowerAt(output.SS, output.tolower)
+				output.normOf = output.SS
 
 				output.kind = RFC2141
 
@@ -4757,6 +4759,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 
 				output.SS = string(m.text())
 				output.norm = lowerAt(output.SS, output.tolower)
+				output.normOf = output.SS
 
 				output.kind = RFC8141
 
@@ -4946,6 +4949,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 
 				output.SS = string(m.text())
 				output.norm = lowerAt(output.SS, output.tolower)
+				output.normOf = output.SS
 
 				output.kind = RFC7643
 
@@ -4955,6 +4959,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 
 				output.SS = string(m.text())
 				output.norm = lowerAt(output.SS, output.tolower)
+				output.normOf = output.SS
 
 				output.kind = RFC7643
 
diff --git a/machine.go.rl b/machine.go.rl
index ebdfa4a..cf2abdf 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -67,6 +67,7 @@ action set_nid {
 action set_nss {
     output.SS = string(m.text())
     output.norm = lowerAt(output.SS, output.tolower)
+    output.normOf = output.SS
 }
 
 action err_pre {
diff --git a/urn.go b/urn.go
index 894d625..2b2c882 100644
--- a/urn.go
+++ b/urn.go
@@ -20,6 +20,7 @@ type URN struct {
 	ID         string // Namespace identifier (NID)
 	SS         string // Namespace specific string (NSS)
 	norm       string // Normalized namespace specific string
+	normOf     string // Namespace specific string norm was computed from
 	kind       Kind
 	scim       *SCIM
 	rComponent string // RFC8141
@@ -30,14 +31,40 @@ type URN struct {
 	tolower    []int
 }
 
+// lowerHex lowercases the <hex> tokens of a namespace specific string.
+func lowerHex(ss string) string {
+	res := []byte(ss)
+	for i := 0; i+2 < len(res); i++ {
+		if res[i] != '%' {
+			continue
+		}
+		for end := i + 2; i < end; {
+			i++
+			if res[i] >= 'A' && res[i] <= 'Z' {
+				res[i] += 'a' - 'A'
+			}
+		}
+	}
+
+	return string(res)
+}
+
 // Normalize turns the receiving URN into its norm version.
 //
 // Which means: lowercase prefix, lowercase namespace identifier, and immutate namespace specific string chars (except <hex> tokens which are lowercased).
 func (u *URN) Normalize() *URN {
+	ss := u.norm
+	if u.normOf != u.SS {
+		// SS does not come from the parser
+		ss = lowerHex(u.SS)
+	}
+
 	return &URN{
 		prefix: "urn",
 		ID:     strings.ToLower(u.ID),
-		SS:     u.norm,
+		SS:     ss,
+		norm:   ss,
+		normOf: ss,
 		// rComponent: u.rComponent,
 		// qComponent: u.qComponent,
 		// fComponent: u.fComponent,
-- 
2.43.0


From 7ab6fe1e9bb196b715f26d391b4cd27de06fef67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:44 +0000
Subject: [PATCH 6/9] fix: make Equal independent of the parsing mode

The RFC 7643 mode splits the same text differently than the others do (its ID
is ietf:params:scim), so a SCIM URN was not Equal to the very same URN parsed
as RFC 2141 or RFC 8141.
---
 urn.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/urn.go b/urn.go
index 2b2c882..f8d6487 100644
--- a/urn.go
+++ b/urn.go
@@ -79,7 +79,8 @@ func (u *URN) Equal(x *URN) bool {
 	nu := u.Normalize()
 	nx := x.Normalize()
 
-	return nu.prefix == nx.prefix && nu.ID == nx.ID && nu.SS == nx.SS
+	// Compare the text: parsing modes can split the same one differently (SCIM)
+	return nu.prefix == nx.prefix && nu.ID+":"+nu.SS == nx.ID+":"+nx.SS
 }
 
 // String reassembles the URN into a valid URN string.
-- 
2.43.0


From f0723203085cde78cf470131cd76decaa8e39e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:44 +0000
Subject: [PATCH 7/9] fix: marshal a zero URN8141 to the empty string instead
 of panicking

As a zero URN does: a struct with a URN8141 field that was never set could not
be marshalled.
---
 urn8141.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/urn8141.go b/urn8141.go
index da4dd06..46e166b 100644
--- a/urn8141.go
+++ b/urn8141.go
@@ -12,6 +12,10 @@ type URN8141 struct {
 }
 
 func (u URN8141) MarshalJSON() ([]byte, error) {
+	if u.URN == nil {
+		return json.Marshal("")
+	}
+
 	return json.Marshal(u.String())
 }
 
-- 
2.43.0


From 3bd3667b3f5494ffc8cd27e4b96a9d224250dc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 8/9] fix: keep the prefix when the identifier starts with it
 too

An identifier like urn-7 in RFC 8141 mode overwrote the prefix of the URN
with the first three bytes of the identifier, so that URN:urn-7:x was
reassembled as urn:urn-7:x.
---
 machine.go    | 5 ++++-
 machine.go.rl | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/machine.go b/machine.go
index 7fcc341..a35d215 100644
--- a/machine.go
+++ b/machine.go
@@ -4171,7 +4171,10 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		goto _again
 	f2:
 
-		output.prefix = string(m.text())
+		// Only once: identifiers starting with the prefix string match pre too
+		if output.prefix == "" {
+			output.prefix = string(m.text())
+		}
 
 		goto _again
 	f6:
diff --git a/machine.go.rl b/machine.go.rl
index cf2abdf..8c653c6 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -44,7 +44,10 @@ action tolower {
 }
 
 action set_pre {
-    output.prefix = string(m.text())
+    // Only once: identifiers starting with the prefix string match pre too
+    if output.prefix == "" {
+        output.prefix = string(m.text())
+    }
 }
 
 action throw_pre_urn_err {
-- 
2.43.0


From 6b0f69c0ef1ff3af71dca0992ebed430890fb439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:01 +0000
Subject: [PATCH 9/9] fix: parse r-components in linear time

Every question mark of an r-component may end it, and at each the whole
component so far was copied. Copy it once, when parsing has succeeded.
---
 machine.go    | 14 ++++++++++----
 machine.go.rl |  5 ++++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/machine.go b/machine.go
index a35d215..e934562 100644
--- a/machine.go
+++ b/machine.go
@@ -158,6 +158,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 	output := &URN{
 		tolower: []int{},
 	}
+	var rComponent []byte
 	{
 		if (m.p) == (m.pe) {
 			goto _testEof
@@ -4308,7 +4309,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		goto _again
 	f42:
 
-		output.rComponent = string(m.text())
+		// Every question mark may end it: only the last time is final
+		rComponent = m.text()
 
 		goto _again
 	f48:
@@ -4552,7 +4554,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		}
 		output.rStart = true
 
-		output.rComponent = string(m.text())
+		// Every question mark may end it: only the last time is final
+		rComponent = m.text()
 
 		goto _again
 	f31:
@@ -4899,7 +4902,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 
 			case 42:
 
-				output.rComponent = string(m.text())
+				// Every question mark may end it: only the last time is final
+				rComponent = m.text()
 
 				output.kind = RFC8141
 
@@ -4978,7 +4982,8 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 				}
 				output.rStart = true
 
-				output.rComponent = string(m.text())
+				// Every question mark may end it: only the last time is final
+				rComponent = m.text()
 
 				output.kind = RFC8141
 
@@ -5012,6 +5017,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
 		}
 		return nil, m.err
 	}
+	output.rComponent = string(rComponent)
 
 	return output, nil
 }
diff --git a/machine.go.rl b/machine.go.rl
index 8c653c6..5d20e01 100644
--- a/machine.go.rl
+++ b/machine.go.rl
@@ -212,7 +212,8 @@ action rfc8141_type {
 }
 
 action set_r_component {
-    output.rComponent = string(m.text())
+    // Every question mark may end it: only the last time is final
+    rComponent = m.text()
 }
 
 action set_q_component {
@@ -370,6 +371,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
     output := &URN{
         tolower: []int{},
     }
+    var rComponent []byte
 
     %% write exec;
 
@@ -380,6 +382,7 @@ func (m *machine) Parse(input []byte) (*URN, error) {
         }
         return nil, m.err
     }
+    output.rComponent = string(rComponent)
 
     return output, nil
 }
-- 
2.43.0

