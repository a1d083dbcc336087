From aa7b346099489ae8ef4e0cb3bb5c727aba633b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:05:49 +0000
Subject: [PATCH 01/28] fix: RFC 6868 caret escapes in parameter values

encode6868 never advanced past a character needing an escape, so encoding
a parameter containing ^, a double quote or a newline looped forever.
decode6868 left the escaped character in the token and returned the wrong
character for an unknown escape.
---
 genParams.sh | 5 ++++-
 params.go    | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/genParams.sh b/genParams.sh
index 5c0ab1f..2ac02e7 100755
--- a/genParams.sh
+++ b/genParams.sh
@@ -343,7 +343,7 @@ Loop:
 			break Loop
 		case '^':
 			t.Accept("^")
-			switch t.Next() {
+			switch c := t.Next(); c {
 			case -1:
 				d = append(d, '^')
 				break Loop
@@ -358,6 +358,7 @@ Loop:
 				l := utf8.EncodeRune(ru[:], c)
 				d = append(d, ru[:l]...)
 			}
+			t.Get()
 		}
 	}
 	return string(d)
@@ -380,6 +381,8 @@ Loop:
 		case '"':
 			d = append(d, '^', '\'')
 		}
+		t.Next()
+		t.Get()
 	}
 	return d
 }
diff --git a/params.go b/params.go
index f5d83ba..5cb997f 100644
--- a/params.go
+++ b/params.go
@@ -1194,7 +1194,7 @@ Loop:
 			break Loop
 		case '^':
 			t.Accept("^")
-			switch t.Next() {
+			switch c := t.Next(); c {
 			case -1:
 				d = append(d, '^')
 				break Loop
@@ -1209,6 +1209,7 @@ Loop:
 				l := utf8.EncodeRune(ru[:], c)
 				d = append(d, ru[:l]...)
 			}
+			t.Get()
 		}
 	}
 	return string(d)
@@ -1231,6 +1232,8 @@ Loop:
 		case '"':
 			d = append(d, '^', '\'')
 		}
+		t.Next()
+		t.Get()
 	}
 	return d
 }
-- 
2.43.0


From 40e0db97952bc2ebee1c56bd06bbf9838943c140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:06:06 +0000
Subject: [PATCH 02/28] fix: quote URI and address parameter values when
 encoding

ALTREP, URI, DELEGATED-FROM and DELEGATED-TO values have to be quoted,
and the decoder insists on it, but the encoder wrote them bare.
---
 genParams.sh | 14 ++++++++++++--
 params.go    | 24 ++++++++++++++++--------
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/genParams.sh b/genParams.sh
index 2ac02e7..d017818 100755
--- a/genParams.sh
+++ b/genParams.sh
@@ -143,7 +143,11 @@ source "comments.sh";
 			if [ ! -z "$vType" ]; then
 				echo "$indent	var q $vType";
 				echo;
-				echo "$indent	if err := q.decode(nil, ${vName}.Data); err != nil {";
+				if $doubleQuote; then
+					echo "$indent	if err := q.decode(nil, decode6868(${vName}.Data)); err != nil {";
+				else
+					echo "$indent	if err := q.decode(nil, ${vName}.Data); err != nil {";
+				fi;
 				echo "$indent		return fmt.Errorf(errDecodingType, c$type, err)";
 				echo "$indent	}";
 				echo;
@@ -232,7 +236,13 @@ source "comments.sh";
 			if [ ! -z "$vType" ]; then
 				echo "$indent	q := $vType($vName)";
 				echo;
-				echo "$indent	q.encode(w)";
+				if $doubleQuote; then
+					echo "$indent	w.WriteString(\"\\\"\")";
+					echo "$indent	w.Write(encode6868(q.String()))";
+					echo "$indent	w.WriteString(\"\\\"\")";
+				else
+					echo "$indent	q.encode(w)";
+				fi;
 			elif [ ${#choices[@]} -eq 1 ]; then
 				echo "$indent	w.WriteString(\"${choices[0]}\")";
 				freeChoice=true;
diff --git a/params.go b/params.go
index 5cb997f..017f548 100644
--- a/params.go
+++ b/params.go
@@ -26,7 +26,7 @@ func (t *ParamAlternativeRepresentation) decode(vs []parser.Token) error {
 
 	var q URI
 
-	if err := q.decode(nil, vs[0].Data); err != nil {
+	if err := q.decode(nil, decode6868(vs[0].Data)); err != nil {
 		return fmt.Errorf(errDecodingType, cAlternativeRepresentation, err)
 	}
 
@@ -44,7 +44,9 @@ func (t ParamAlternativeRepresentation) encode(w writer) {
 
 	q := URI(t)
 
-	q.encode(w)
+	w.WriteString("\"")
+	w.Write(encode6868(q.String()))
+	w.WriteString("\"")
 }
 
 func (t ParamAlternativeRepresentation) valid() error {
@@ -170,7 +172,7 @@ func (t *ParamDelegator) decode(vs []parser.Token) error {
 
 		var q CalendarAddress
 
-		if err := q.decode(nil, v.Data); err != nil {
+		if err := q.decode(nil, decode6868(v.Data)); err != nil {
 			return fmt.Errorf(errDecodingType, cDelegator, err)
 		}
 
@@ -194,7 +196,9 @@ func (t ParamDelegator) encode(w writer) {
 
 		q := CalendarAddress(v)
 
-		q.encode(w)
+		w.WriteString("\"")
+		w.Write(encode6868(q.String()))
+		w.WriteString("\"")
 	}
 }
 
@@ -219,7 +223,7 @@ func (t *ParamDelagatee) decode(vs []parser.Token) error {
 
 		var q CalendarAddress
 
-		if err := q.decode(nil, v.Data); err != nil {
+		if err := q.decode(nil, decode6868(v.Data)); err != nil {
 			return fmt.Errorf(errDecodingType, cDelagatee, err)
 		}
 
@@ -243,7 +247,9 @@ func (t ParamDelagatee) encode(w writer) {
 
 		q := CalendarAddress(v)
 
-		q.encode(w)
+		w.WriteString("\"")
+		w.Write(encode6868(q.String()))
+		w.WriteString("\"")
 	}
 }
 
@@ -1066,7 +1072,7 @@ func (t *ParamURI) decode(vs []parser.Token) error {
 
 	var q URI
 
-	if err := q.decode(nil, vs[0].Data); err != nil {
+	if err := q.decode(nil, decode6868(vs[0].Data)); err != nil {
 		return fmt.Errorf(errDecodingType, cURI, err)
 	}
 
@@ -1084,7 +1090,9 @@ func (t ParamURI) encode(w writer) {
 
 	q := URI(t)
 
-	q.encode(w)
+	w.WriteString("\"")
+	w.Write(encode6868(q.String()))
+	w.WriteString("\"")
 }
 
 func (t ParamURI) valid() error {
-- 
2.43.0


From 71888b45940343c771f5fcb81a0a0d1365fab69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:06:48 +0000
Subject: [PATCH 03/28] fix: decode the LAST-MODIFIED property

Components looked for LAST-MOD, so LAST-MODIFIED was ignored when decoding
although that is the name the encoder writes.
---
 sections.gen | 8 ++++----
 sections.go  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/sections.gen b/sections.gen
index dba53b9..89d40dd 100644
--- a/sections.gen
+++ b/sections.gen
@@ -14,7 +14,7 @@ VEVENT
 	CREATED
 	DESCRIPTION
 	GEO
-	LAST-MOD
+	LAST-MOD#LAST-MODIFIED
 	LOCATION
 	ORGANIZER
 	PRIORITY
@@ -48,7 +48,7 @@ VTODO
 	DESCRIPTION
 	DTSTART
 	GEO
-	LAST-MOD
+	LAST-MOD#LAST-MODIFIED
 	LOCATION
 	ORGANIZER
 	PERCENT-COMPLETE
@@ -79,7 +79,7 @@ VJOURNAL
 	CLASS
 	CREATED
 	DTSTART
-	LAST-MOD
+	LAST-MOD#LAST-MODIFIED
 	ORGANIZER
 	RECURRENCE-ID
 	SEQUENCE
@@ -112,7 +112,7 @@ VFREEBUSY
 	*REQUEST-STATUS
 VTIMEZONE
 	!TZID
-	LAST-MOD
+	LAST-MOD#LAST-MODIFIED
 	TZURL
 	*BEGIN:STANDARD
 	*BEGIN:DAYLIGHT
diff --git a/sections.go b/sections.go
index 741a87a..deddf38 100644
--- a/sections.go
+++ b/sections.go
@@ -327,7 +327,7 @@ Loop:
 			if err := s.Geo.decode(params, value); err != nil {
 				return fmt.Errorf(errDecodingProp, cEvent, cGeo, err)
 			}
-		case "LAST-MOD":
+		case "LAST-MODIFIED":
 			if s.LastModified != nil {
 				return fmt.Errorf(errMultiple, cEvent, cLastModified)
 			}
@@ -1013,7 +1013,7 @@ Loop:
 			if err := s.Geo.decode(params, value); err != nil {
 				return fmt.Errorf(errDecodingProp, cTodo, cGeo, err)
 			}
-		case "LAST-MOD":
+		case "LAST-MODIFIED":
 			if s.LastModified != nil {
 				return fmt.Errorf(errMultiple, cTodo, cLastModified)
 			}
@@ -1648,7 +1648,7 @@ Loop:
 			if err := s.DateTimeStart.decode(params, value); err != nil {
 				return fmt.Errorf(errDecodingProp, cJournal, cDateTimeStart, err)
 			}
-		case "LAST-MOD":
+		case "LAST-MODIFIED":
 			if s.LastModified != nil {
 				return fmt.Errorf(errMultiple, cJournal, cLastModified)
 			}
@@ -2398,7 +2398,7 @@ Loop:
 			if err := s.TimezoneID.decode(params, value); err != nil {
 				return fmt.Errorf(errDecodingProp, cTimezone, cTimezoneID, err)
 			}
-		case "LAST-MOD":
+		case "LAST-MODIFIED":
 			if s.LastModified != nil {
 				return fmt.Errorf(errMultiple, cTimezone, cLastModified)
 			}
-- 
2.43.0


From 23f73d33543d2c1f6fdb61d36548b869ff99f6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:06:51 +0000
Subject: [PATCH 04/28] fix: compare component names in END lines without
 regard to case

BEGIN accepts a component name in any case, but END only accepted upper
case for known components and the spelling in upper case for components
nested in unknown ones.
---
 genSections.sh |  6 +++---
 sections.go    | 28 ++++++++++++++--------------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/genSections.sh b/genSections.sh
index 1ef7da9..51b0311 100755
--- a/genSections.sh
+++ b/genSections.sh
@@ -190,9 +190,9 @@ function printSection() {
 	done;
 	echo "		case \"END\":";
 	if [ "${sectionName:0:6}" = "VALARM" ]; then
-		echo "			if value != \"VALARM\" {";
+		echo "			if strings.ToUpper(value) != \"VALARM\" {";
 	else
-		echo "			if value != \"$sectionName\" {";
+		echo "			if strings.ToUpper(value) != \"$sectionName\" {";
 	fi;
 	echo "				return fmt.Errorf(errDecodingType, c$sName, ErrInvalidEnd)";
 	echo "			}";
@@ -444,7 +444,7 @@ func decodeDummy(t tokeniser, n string) error {
 
 		switch strings.ToUpper(p.Data[0].Data) {
 		case "BEGIN":
-			if err := decodeDummy(t, p.Data[len(p.Data)-1].Data); err != nil {
+			if err := decodeDummy(t, strings.ToUpper(p.Data[len(p.Data)-1].Data)); err != nil {
 				return err
 			}
 		case "END":
diff --git a/sections.go b/sections.go
index deddf38..4335fb7 100644
--- a/sections.go
+++ b/sections.go
@@ -106,7 +106,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cCalendar, cProductID, err)
 			}
 		case "END":
-			if value != "VCALENDAR" {
+			if strings.ToUpper(value) != "VCALENDAR" {
 				return fmt.Errorf(errDecodingType, cCalendar, ErrInvalidEnd)
 			}
 
@@ -538,7 +538,7 @@ Loop:
 
 			s.RecurrenceDateTimes = append(s.RecurrenceDateTimes, e)
 		case "END":
-			if value != "VEVENT" {
+			if strings.ToUpper(value) != "VEVENT" {
 				return fmt.Errorf(errDecodingType, cEvent, ErrInvalidEnd)
 			}
 
@@ -1214,7 +1214,7 @@ Loop:
 
 			s.RecurrenceDateTimes = append(s.RecurrenceDateTimes, e)
 		case "END":
-			if value != "VTODO" {
+			if strings.ToUpper(value) != "VTODO" {
 				return fmt.Errorf(errDecodingType, cTodo, ErrInvalidEnd)
 			}
 
@@ -1817,7 +1817,7 @@ Loop:
 
 			s.RecurrenceDateTimes = append(s.RecurrenceDateTimes, e)
 		case "END":
-			if value != "VJOURNAL" {
+			if strings.ToUpper(value) != "VJOURNAL" {
 				return fmt.Errorf(errDecodingType, cJournal, ErrInvalidEnd)
 			}
 
@@ -2215,7 +2215,7 @@ Loop:
 
 			s.RequestStatus = append(s.RequestStatus, e)
 		case "END":
-			if value != "VFREEBUSY" {
+			if strings.ToUpper(value) != "VFREEBUSY" {
 				return fmt.Errorf(errDecodingType, cFreeBusy, ErrInvalidEnd)
 			}
 
@@ -2419,7 +2419,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cTimezone, cTimezoneURL, err)
 			}
 		case "END":
-			if value != "VTIMEZONE" {
+			if strings.ToUpper(value) != "VTIMEZONE" {
 				return fmt.Errorf(errDecodingType, cTimezone, ErrInvalidEnd)
 			}
 
@@ -2592,7 +2592,7 @@ Loop:
 
 			s.TimezoneName = append(s.TimezoneName, e)
 		case "END":
-			if value != "STANDARD" {
+			if strings.ToUpper(value) != "STANDARD" {
 				return fmt.Errorf(errDecodingType, cStandard, ErrInvalidEnd)
 			}
 
@@ -2771,7 +2771,7 @@ Loop:
 
 			s.TimezoneName = append(s.TimezoneName, e)
 		case "END":
-			if value != "DAYLIGHT" {
+			if strings.ToUpper(value) != "DAYLIGHT" {
 				return fmt.Errorf(errDecodingType, cDaylight, ErrInvalidEnd)
 			}
 
@@ -3014,7 +3014,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cAlarmAudio, cDefaultAlarm, err)
 			}
 		case "END":
-			if value != "VALARM" {
+			if strings.ToUpper(value) != "VALARM" {
 				return fmt.Errorf(errDecodingType, cAlarmAudio, ErrInvalidEnd)
 			}
 
@@ -3331,7 +3331,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cAlarmDisplay, cDefaultAlarm, err)
 			}
 		case "END":
-			if value != "VALARM" {
+			if strings.ToUpper(value) != "VALARM" {
 				return fmt.Errorf(errDecodingType, cAlarmDisplay, ErrInvalidEnd)
 			}
 
@@ -3665,7 +3665,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cAlarmEmail, cDefaultAlarm, err)
 			}
 		case "END":
-			if value != "VALARM" {
+			if strings.ToUpper(value) != "VALARM" {
 				return fmt.Errorf(errDecodingType, cAlarmEmail, ErrInvalidEnd)
 			}
 
@@ -3985,7 +3985,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cAlarmURI, cDefaultAlarm, err)
 			}
 		case "END":
-			if value != "VALARM" {
+			if strings.ToUpper(value) != "VALARM" {
 				return fmt.Errorf(errDecodingType, cAlarmURI, ErrInvalidEnd)
 			}
 
@@ -4155,7 +4155,7 @@ Loop:
 				}
 			}
 		case "END":
-			if value != "VALARM" {
+			if strings.ToUpper(value) != "VALARM" {
 				return fmt.Errorf(errDecodingType, cAlarmNone, ErrInvalidEnd)
 			}
 
@@ -4184,7 +4184,7 @@ func decodeDummy(t tokeniser, n string) error {
 
 		switch strings.ToUpper(p.Data[0].Data) {
 		case "BEGIN":
-			if err := decodeDummy(t, p.Data[len(p.Data)-1].Data); err != nil {
+			if err := decodeDummy(t, strings.ToUpper(p.Data[len(p.Data)-1].Data)); err != nil {
 				return err
 			}
 		case "END":
-- 
2.43.0


From f9640c4422711dd58cdf16160e1088d34c9e4a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:06:55 +0000
Subject: [PATCH 05/28] fix: do not recurse for nested unknown components

Skipping an unknown component used one stack frame per nesting level, so
deeply nested input could exhaust the stack and kill the process.
---
 genSections.sh | 16 +++++++++-------
 sections.go    | 16 +++++++++-------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/genSections.sh b/genSections.sh
index 51b0311..749a196 100755
--- a/genSections.sh
+++ b/genSections.sh
@@ -434,7 +434,9 @@ OFS="$IFS";
 	cat <<HEREDOC
 // decodeDummy reads unknown sections, discarding the data.
 func decodeDummy(t tokeniser, n string) error {
-	for {
+	open := []string{n}
+
+	for len(open) > 0 {
 		p, err := t.GetPhrase()
 		if err != nil {
 			return err
@@ -444,17 +446,17 @@ func decodeDummy(t tokeniser, n string) error {
 
 		switch strings.ToUpper(p.Data[0].Data) {
 		case "BEGIN":
-			if err := decodeDummy(t, strings.ToUpper(p.Data[len(p.Data)-1].Data)); err != nil {
-				return err
-			}
+			open = append(open, strings.ToUpper(p.Data[len(p.Data)-1].Data))
 		case "END":
-			if strings.ToUpper(p.Data[len(p.Data)-1].Data) == n {
-				return nil
+			if strings.ToUpper(p.Data[len(p.Data)-1].Data) != open[len(open)-1] {
+				return ErrInvalidEnd
 			}
 
-			return ErrInvalidEnd
+			open = open[:len(open)-1]
 		}
 	}
+
+	return nil
 }
 
 // Errors.
diff --git a/sections.go b/sections.go
index 4335fb7..828aa26 100644
--- a/sections.go
+++ b/sections.go
@@ -4174,7 +4174,9 @@ func (s *AlarmNone) valid() error {
 
 // decodeDummy reads unknown sections, discarding the data.
 func decodeDummy(t tokeniser, n string) error {
-	for {
+	open := []string{n}
+
+	for len(open) > 0 {
 		p, err := t.GetPhrase()
 		if err != nil {
 			return err
@@ -4184,17 +4186,17 @@ func decodeDummy(t tokeniser, n string) error {
 
 		switch strings.ToUpper(p.Data[0].Data) {
 		case "BEGIN":
-			if err := decodeDummy(t, strings.ToUpper(p.Data[len(p.Data)-1].Data)); err != nil {
-				return err
-			}
+			open = append(open, strings.ToUpper(p.Data[len(p.Data)-1].Data))
 		case "END":
-			if strings.ToUpper(p.Data[len(p.Data)-1].Data) == n {
-				return nil
+			if strings.ToUpper(p.Data[len(p.Data)-1].Data) != open[len(open)-1] {
+				return ErrInvalidEnd
 			}
 
-			return ErrInvalidEnd
+			open = open[:len(open)-1]
 		}
 	}
+
+	return nil
 }
 
 // Errors.
-- 
2.43.0


From b8c8856540ad32162d498943c744353b3484f787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:07:11 +0000
Subject: [PATCH 06/28] fix: require both or neither of DURATION and REPEAT in
 alarms

The check in EMAIL and URI alarms was inverted: it rejected alarms with
both or neither and accepted those with only one of them.
---
 genSections.sh | 2 +-
 sections.go    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/genSections.sh b/genSections.sh
index 749a196..78cc094 100755
--- a/genSections.sh
+++ b/genSections.sh
@@ -244,7 +244,7 @@ function printSection() {
 					echo -n " &&";
 				fi;
 				if $first; then
-					echo -n " t == (s.$(getName "$r") == nil)";
+					echo -n " t != (s.$(getName "$r") == nil)";
 					second=true;
 				else
 					echo -n " t := s.$(getName "$r") == nil;";
diff --git a/sections.go b/sections.go
index 828aa26..b869e84 100644
--- a/sections.go
+++ b/sections.go
@@ -3681,7 +3681,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmEmail, ErrRequirementNotMet)
 	}
 
-	if t := s.Duration == nil; t == (s.Repeat == nil) {
+	if t := s.Duration == nil; t != (s.Repeat == nil) {
 		return fmt.Errorf(errDecodingType, cAlarmEmail, ErrRequirementNotMet)
 	}
 
@@ -4001,7 +4001,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmURI, ErrRequirementNotMet)
 	}
 
-	if t := s.Duration == nil; t == (s.Repeat == nil) {
+	if t := s.Duration == nil; t != (s.Repeat == nil) {
 		return fmt.Errorf(errDecodingType, cAlarmURI, ErrRequirementNotMet)
 	}
 
-- 
2.43.0


From 18b46b399f1fce46329b8b5cb13ba9b772423436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:07:27 +0000
Subject: [PATCH 07/28] fix: check property relationships before encoding

Rules such as DTEND excluding DURATION, or a timezone needing at least one
observance, were only checked when decoding. Encode wrote calendars that
Decode then refused.
---
 genSections.sh | 138 +++++++++++++++++++++++++++++--------------------
 sections.go    |  50 ++++++++++++++++--
 2 files changed, 126 insertions(+), 62 deletions(-)

diff --git a/genSections.sh b/genSections.sh
index 78cc094..0de155a 100755
--- a/genSections.sh
+++ b/genSections.sh
@@ -17,6 +17,85 @@ function addToSection() {
 	fi;
 }
 
+# absent and present print the conditions for a field of the current section
+# being unset or set.
+function absent() {
+	local name="$(getName "$1")";
+	local tline;
+	for tline in "${currSection[@]}"; do
+		local aline=( $tline ); # 0:name 1:KEYWORD 2:required 3:multiple 4:section
+		if [ "${aline[0]}" = "$name" ] && ${aline[3]}; then
+			echo -n "len(s.$name) == 0";
+			return;
+		fi;
+	done;
+	echo -n "s.$name == nil";
+}
+
+function present() {
+	absent "$1" | sed -e 's/==/!=/';
+}
+
+function printRequirements() {
+	for req in "${requirements[@]}"; do
+		first=false;
+		declare second=false;
+		echo -n "	if";
+		reqs=( $req );
+		typ=${reqs[0]};
+		reqs[0]="";
+		reqs=( ${reqs[@]} );
+		if [ "$typ" = "AND" ]; then
+			for r in ${reqs[@]}; do
+				if $second; then
+					echo -n " &&";
+				fi;
+				if $first; then
+					echo -n " t != ($(absent "$r"))";
+					second=true;
+				else
+					echo -n " t := $(absent "$r");";
+					first=true;
+				fi;
+			done;
+		elif [ "$typ" = "OR" ]; then
+			for r in ${reqs[@]}; do
+				if $first; then
+					echo -n " &&";
+				fi;
+				first=true;
+				echo -n " $(absent "$r")";
+			done;
+		elif [ "$typ" = "ONE" ]; then
+			for r in ${reqs[@]}; do
+				if $first; then
+					echo -n " &&";
+				fi;
+				first=true;
+				echo -n " $(present "$r")";
+			done;
+		elif [ "$typ" = "ERGO" ]; then
+			for r in ${reqs[@]}; do
+				if $second; then
+					echo -n " || ";
+				fi;
+				if $first; then
+					echo -n "$(absent "$r")";
+					second=true;
+				else
+					echo -n " $(present "$r") && (";
+					first=true;
+				fi;
+			done;
+			echo -n ")";
+		fi;
+		echo " {";
+		echo "		return fmt.Errorf($1, c$sName, ErrRequirementNotMet)";
+		echo "	}";
+		echo;
+	done;
+}
+
 function printSection() {
 	declare sName="$(getName $sectionName)";
 
@@ -230,63 +309,7 @@ function printSection() {
 	fi;
 
 	# check other requirements
-	for req in "${requirements[@]}"; do
-		first=false;
-		declare second=false;
-		echo -n "	if";
-		reqs=( $req );
-		typ=${reqs[0]};
-		reqs[0]="";
-		reqs=( ${reqs[@]} );
-		if [ "$typ" = "AND" ]; then
-			for r in ${reqs[@]}; do
-				if $second; then
-					echo -n " &&";
-				fi;
-				if $first; then
-					echo -n " t != (s.$(getName "$r") == nil)";
-					second=true;
-				else
-					echo -n " t := s.$(getName "$r") == nil;";
-					first=true;
-				fi;
-			done;
-		elif [ "$typ" = "OR" ]; then
-			for r in ${reqs[@]}; do
-				if $first; then
-					echo -n " &&";
-				fi;
-				first=true;
-				echo -n " s.$(getName "$r") == nil";
-			done;
-		elif [ "$typ" = "ONE" ]; then
-			for r in ${reqs[@]}; do
-				if $first; then
-					echo -n " &&";
-				fi;
-				first=true;
-				echo -n " s.$(getName "$r") != nil";
-			done;
-		elif [ "$typ" = "ERGO" ]; then
-			for r in ${reqs[@]}; do
-				if $second; then
-					echo -n " || ";
-				fi;
-				if $first; then
-					echo -n "s.$(getName "$r") == nil";
-					second=true;
-				else
-					echo -n " s.$(getName "$r") != nil && (";
-					first=true;
-				fi;
-			done;
-			echo -n ")";
-		fi;
-		echo " {";
-		echo "		return fmt.Errorf(errDecodingType, c$sName, ErrRequirementNotMet)";
-		echo "	}";
-		echo;
-	done;
+	printRequirements errDecodingType;
 
 	# end of decoder
 	echo "	return nil";
@@ -358,6 +381,7 @@ function printSection() {
 		fi;
 		echo;
 	done;
+	printRequirements errValidatingType;
 	echo "	return nil";
 	echo "}";
 	echo;
diff --git a/sections.go b/sections.go
index b869e84..85af7e9 100644
--- a/sections.go
+++ b/sections.go
@@ -864,6 +864,10 @@ func (s *Event) valid() error {
 		}
 	}
 
+	if s.DateTimeEnd != nil && s.Duration != nil {
+		return fmt.Errorf(errValidatingType, cEvent, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -1544,6 +1548,14 @@ func (s *Todo) valid() error {
 		}
 	}
 
+	if s.Duration != nil && (s.DateTimeStart == nil) {
+		return fmt.Errorf(errValidatingType, cTodo, ErrRequirementNotMet)
+	}
+
+	if s.Due != nil && s.Duration != nil {
+		return fmt.Errorf(errValidatingType, cTodo, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -2431,7 +2443,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cTimezone, ErrMissingRequired)
 	}
 
-	if s.Standard == nil && s.Daylight == nil {
+	if len(s.Standard) == 0 && len(s.Daylight) == 0 {
 		return fmt.Errorf(errDecodingType, cTimezone, ErrRequirementNotMet)
 	}
 
@@ -2490,6 +2502,10 @@ func (s *Timezone) valid() error {
 		}
 	}
 
+	if len(s.Standard) == 0 && len(s.Daylight) == 0 {
+		return fmt.Errorf(errValidatingType, cTimezone, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -3026,7 +3042,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmAudio, ErrMissingRequired)
 	}
 
-	if s.GeoLocation != nil && (s.Proximity == nil) {
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
 		return fmt.Errorf(errDecodingType, cAlarmAudio, ErrRequirementNotMet)
 	}
 
@@ -3163,6 +3179,10 @@ func (s *AlarmAudio) valid() error {
 		}
 	}
 
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmAudio, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -3343,7 +3363,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmDisplay, ErrMissingRequired)
 	}
 
-	if s.GeoLocation != nil && (s.Proximity == nil) {
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
 		return fmt.Errorf(errDecodingType, cAlarmDisplay, ErrRequirementNotMet)
 	}
 
@@ -3475,6 +3495,10 @@ func (s *AlarmDisplay) valid() error {
 		}
 	}
 
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmDisplay, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -3677,7 +3701,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmEmail, ErrMissingRequired)
 	}
 
-	if s.GeoLocation != nil && (s.Proximity == nil) {
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
 		return fmt.Errorf(errDecodingType, cAlarmEmail, ErrRequirementNotMet)
 	}
 
@@ -3828,6 +3852,14 @@ func (s *AlarmEmail) valid() error {
 		}
 	}
 
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmEmail, ErrRequirementNotMet)
+	}
+
+	if t := s.Duration == nil; t != (s.Repeat == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmEmail, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -3997,7 +4029,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmURI, ErrMissingRequired)
 	}
 
-	if s.GeoLocation != nil && (s.Proximity == nil) {
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
 		return fmt.Errorf(errDecodingType, cAlarmURI, ErrRequirementNotMet)
 	}
 
@@ -4128,6 +4160,14 @@ func (s *AlarmURI) valid() error {
 		}
 	}
 
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmURI, ErrRequirementNotMet)
+	}
+
+	if t := s.Duration == nil; t != (s.Repeat == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmURI, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 1b2d1b75b5da84a8f5879d59e3f31356ae31b017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:07:29 +0000
Subject: [PATCH 08/28] fix: return an error for input ending inside an alarm

Decoding panicked when the input stopped between the BEGIN and END lines
of a VALARM.
---
 sections_alarm.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sections_alarm.go b/sections_alarm.go
index 4944994..ec8cd84 100644
--- a/sections_alarm.go
+++ b/sections_alarm.go
@@ -43,6 +43,8 @@ Loop:
 		ph, err := t.GetPhrase()
 		if err != nil {
 			return err
+		} else if ph.Type == parser.PhraseDone {
+			return io.ErrUnexpectedEOF
 		}
 
 		pt = append(pt, ph)
-- 
2.43.0


From 528ab13ed2e66065e4bedd98668370a0fcc0a0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:07:30 +0000
Subject: [PATCH 09/28] fix: read alarms without regard to the case of names

The names BEGIN, END and ACTION and the action itself were only recognised
in upper case inside VALARM.
---
 sections_alarm.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sections_alarm.go b/sections_alarm.go
index ec8cd84..97f4f02 100644
--- a/sections_alarm.go
+++ b/sections_alarm.go
@@ -3,6 +3,7 @@ package ics
 import (
 	"errors"
 	"io"
+	"strings"
 
 	"vimagination.zapto.org/parser"
 )
@@ -49,7 +50,7 @@ Loop:
 
 		pt = append(pt, ph)
 
-		switch ph.Data[0].Data {
+		switch strings.ToUpper(ph.Data[0].Data) {
 		case "BEGIN":
 			return ErrInvalidStructure
 		case "ACTION":
@@ -57,7 +58,7 @@ Loop:
 				return ErrInvalidStructure
 			}
 
-			switch ph.Data[len(ph.Data)-1].Data {
+			switch strings.ToUpper(ph.Data[len(ph.Data)-1].Data) {
 			case "AUDIO":
 				a.AlarmType = new(AlarmAudio)
 			case "DISPLAY":
-- 
2.43.0


From 00195fb80008e1452f3426fd888a61522edfbec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:07:32 +0000
Subject: [PATCH 10/28] fix: accept finite numbers and refuse the others when
 encoding

The validity check of Float and TFloat was inverted, so no calendar with a
GEO property could be encoded.
---
 types.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/types.go b/types.go
index da1d385..c25cc50 100644
--- a/types.go
+++ b/types.go
@@ -421,7 +421,7 @@ func (f Float) encode(w writer) {
 func (f Float) valid() error {
 	d := float64(f)
 
-	if !math.IsNaN(d) && !math.IsInf(d, 0) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return ErrInvalidFloat
 	}
 
@@ -463,13 +463,13 @@ func (t TFloat) encode(w writer) {
 func (t TFloat) valid() error {
 	d := float64(t[0])
 
-	if !math.IsNaN(d) && !math.IsInf(d, 0) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return ErrInvalidFloat
 	}
 
 	d = float64(t[1])
 
-	if !math.IsNaN(d) && !math.IsInf(d, 0) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return ErrInvalidFloat
 	}
 
-- 
2.43.0


From 41f53e91d21bbd836b10ef5735a3c1afd5bb0ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:08:08 +0000
Subject: [PATCH 11/28] fix: unfold lines wherever the input happens to be
 split

Folds were missed, data was lost and reading could loop forever depending
on how the underlying reader split the input around a fold. Folds using a
tab were not recognised at all.
---
 unfolder.go | 97 ++++++++++++++++++-----------------------------------
 1 file changed, 32 insertions(+), 65 deletions(-)

diff --git a/unfolder.go b/unfolder.go
index 70fa7b3..7d689dc 100644
--- a/unfolder.go
+++ b/unfolder.go
@@ -1,83 +1,50 @@
 package ics
 
 import (
-	"bytes"
+	"bufio"
 	"io"
 )
 
 type unfolder struct {
-	r      io.Reader
-	bufLen int
-	buf    [2]byte
+	r   io.Reader
+	buf *bufio.Reader
+	err error
 }
 
 func (u *unfolder) Read(p []byte) (int, error) {
-	var (
-		m, n int
-		err  error
-	)
-	q := p
-	if u.bufLen > 0 {
-		n = copy(p, u.buf[:u.bufLen])
-		if n > 0 {
-			u.buf[0] = u.buf[1]
-			u.bufLen -= n
-			p = p[n:]
-			m += n
-		}
+	if u.buf == nil {
+		u.buf = bufio.NewReader(u.r)
 	}
-	for len(p) > 0 && err == nil {
-		n, err = u.r.Read(p)
-		m += n
-		p = p[:n]
-		var toRead int
-		for {
-			pos := bytes.Index(p, eol[:])
-			if pos == -1 {
+
+	n := 0
+
+	for n < len(p) {
+		if u.err == nil && u.buf.Buffered() < len(eol) {
+			if n > 0 {
 				break
 			}
-			copy(p[pos:], p[pos+3:])
-			p = p[pos:]
-			toRead += 3
+
+			_, u.err = u.buf.Peek(len(eol))
 		}
-		p = p[len(p)-toRead:]
-		m -= toRead
-	}
-	q = q[:m]
-	for err == nil {
-		if lq := len(q); lq > 0 && q[lq-1] == '\r' {
-			u.bufLen, err = u.r.Read(u.buf[:])
-			if u.bufLen < 2 {
-				break
-			}
-			if u.buf[0] == '\n' && u.buf[1] == ' ' {
-				m--
-				if err == nil {
-					n, err = u.r.Read(q[lq-1:])
-					m += n
-					u.bufLen = 0
-				}
-			} else {
-				break
-			}
-		} else if lq > 1 && q[lq-2] == '\r' && q[lq-1] == '\n' {
-			u.bufLen, err = u.r.Read(u.buf[:1])
-			if u.bufLen < 1 {
-				break
-			}
-			if u.buf[0] == ' ' {
-				m -= 2
-				if err == nil {
-					n, err = u.Read(q[lq-2:])
-					m += n
-					u.bufLen = 0
-				}
-			} else {
-				break
-			}
+
+		l := u.buf.Buffered()
+		if l == 0 {
+			return n, u.err
+		} else if l > len(eol) {
+			l = len(eol)
+		}
+
+		b, _ := u.buf.Peek(l)
+
+		if l == len(eol) && b[0] == '\r' && b[1] == '\n' && (b[2] == ' ' || b[2] == '\t') {
+			u.buf.Discard(l)
 		} else {
-			break
+			p[n] = b[0]
+			n++
+
+			u.buf.Discard(1)
 		}
 	}
-	return m, err
+
+	return n, nil
 }
-- 
2.43.0


From 02ac556918d06395dbb30a6489777f36d28b2e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:08:25 +0000
Subject: [PATCH 12/28] fix: reject a BYDAY of a plus sign and a single digit

Decoding a recurrence rule with BYDAY=+5 panicked.
---
 types.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/types.go b/types.go
index c25cc50..0137dc8 100644
--- a/types.go
+++ b/types.go
@@ -788,10 +788,10 @@ func (r *Recur) decode(params map[string]string, data string) error {
 					neg = true
 					numCheck = false
 					day = day[1:]
+				}
 
-					if len(day) < 2 {
-						return ErrInvalidRecur
-					}
+				if len(day) < 2 {
+					return ErrInvalidRecur
 				}
 
 				var num int8
-- 
2.43.0


From f490b2aab9c23a5eaa8b3014c2a6dcd4207189f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:08:27 +0000
Subject: [PATCH 13/28] fix: refuse to encode recurrence rules the decoder
 rejects

A BYDAY occurrence beyond 53 was written although it cannot be read back,
and UNTIL was silently dropped when COUNT was also set.
---
 types.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/types.go b/types.go
index 0137dc8..e7f8f70 100644
--- a/types.go
+++ b/types.go
@@ -1167,6 +1167,10 @@ func (r *Recur) valid() error {
 		return ErrInvalidRecurFrequency
 	}
 
+	if r.Count != 0 && !r.Until.IsZero() {
+		return ErrInvalidRecur
+	}
+
 	for _, second := range r.BySecond {
 		if second > 60 {
 			return ErrInvalidRecurBySecond
@@ -1191,6 +1195,10 @@ func (r *Recur) valid() error {
 		default:
 			return ErrInvalidRecurByDay
 		}
+
+		if day.Occurrence > 53 || day.Occurrence < -53 {
+			return ErrInvalidRecurByDay
+		}
 	}
 
 	for _, monthDay := range r.ByMonthDay {
-- 
2.43.0


From 6bc6824e387520e51d671ef65358ed7c03ec0d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:09:16 +0000
Subject: [PATCH 14/28] fix: encode times in zones without a name as UTC

They were written as local times with an empty TZID parameter, which reads
back as a different moment. Other zone names are now written like any TZID
parameter, quoted if necessary.
---
 types.go | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/types.go b/types.go
index e7f8f70..431d19a 100644
--- a/types.go
+++ b/types.go
@@ -195,14 +195,15 @@ func (d DateTime) aencode(w writer) {
 
 func (d DateTime) encode(w writer) {
 	b := make([]byte, 0, 16)
+	t := namedTime(d.Time)
 
-	switch d.Location() {
+	switch t.Location() {
 	case time.UTC:
-		b = d.AppendFormat(b, dateTimeFormat)
+		b = t.AppendFormat(b, dateTimeFormat)
 	case time.Local:
-		b = d.AppendFormat(b, dateTimeFormat[:15])
+		b = t.AppendFormat(b, dateTimeFormat[:15])
 	default:
-		b = d.AppendFormat(b, dateTimeFormat[:15])
+		b = t.AppendFormat(b, dateTimeFormat[:15])
 	}
 
 	w.Write(b)
@@ -1423,14 +1424,15 @@ func (t Time) aencode(w writer) {
 
 func (t Time) encode(w writer) {
 	b := make([]byte, 0, 7)
+	nt := namedTime(t.Time)
 
-	switch t.Location() {
+	switch nt.Location() {
 	case time.UTC:
-		b = t.AppendFormat(b, dateTimeFormat[9:])
+		b = nt.AppendFormat(b, dateTimeFormat[9:])
 	case time.Local:
-		b = t.AppendFormat(b, dateTimeFormat[9:15])
+		b = nt.AppendFormat(b, dateTimeFormat[9:15])
 	default:
-		b = t.AppendFormat(b, dateTimeFormat[9:15])
+		b = nt.AppendFormat(b, dateTimeFormat[9:15])
 	}
 
 	w.Write(b)
@@ -1574,12 +1576,21 @@ func (UTCOffset) valid() error {
 }
 
 func writeTimezone(w writer, t time.Time) {
-	switch l := t.Location(); l {
+	switch l := namedTime(t).Location(); l {
 	case time.UTC, time.Local:
 	default:
-		w.WriteString(";TZID=")
-		w.WriteString(l.String())
+		ParamTimezoneID(l.String()).encode(w)
+	}
+}
+
+// namedTime returns the time in UTC if it is in a zone without a name, which
+// cannot be referred to by a TZID parameter.
+func namedTime(t time.Time) time.Time {
+	if t.Location().String() == "" {
+		return t.UTC()
 	}
+
+	return t
 }
 
 // Errors.
-- 
2.43.0


From 19449bbd7f9dde9c872c4deec6b719306da8202f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:09:18 +0000
Subject: [PATCH 15/28] fix: compare the zones of a period by name

Every decoded TZID makes a new Location, so a decoded period with a TZID
and an explicit end could not be encoded again.
---
 types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 431d19a..dfc8051 100644
--- a/types.go
+++ b/types.go
@@ -555,7 +555,7 @@ func (p Period) valid() error {
 		if p.Duration.Negative {
 			return ErrInvalidPeriodDuration
 		}
-	} else if !p.End.After(p.Start.Time) || p.Start.Location() != p.End.Location() {
+	} else if !p.End.After(p.Start.Time) || p.Start.Location().String() != p.End.Location().String() {
 		return ErrInvalidPeriodEnd
 	}
 
-- 
2.43.0


From 97af271ce5beb22dcbfd831d89863bc3f92d2b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:09:20 +0000
Subject: [PATCH 16/28] fix: refuse to encode times that cannot be represented

Years outside 0 to 9999 do not fit the four digit form, and a zone name
with control characters breaks the content line.
---
 types.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/types.go b/types.go
index dfc8051..506dcd0 100644
--- a/types.go
+++ b/types.go
@@ -143,13 +143,20 @@ func (d Date) encode(w writer) {
 }
 
 func (d Date) valid() error {
-	if d.IsZero() {
+	if d.IsZero() || !validYear(d.Time) {
 		return ErrInvalidTime
 	}
 
 	return nil
 }
 
+// validYear returns whether the year can be written with four digits.
+func validYear(t time.Time) bool {
+	y := t.Year()
+
+	return y >= 0 && y <= 9999
+}
+
 // DateTime is a Calendar Date and Time.
 type DateTime struct {
 	time.Time
@@ -210,7 +217,7 @@ func (d DateTime) encode(w writer) {
 }
 
 func (d DateTime) valid() error {
-	if d.IsZero() {
+	if d.IsZero() || !validYear(namedTime(d.Time)) || strings.ContainsAny(d.Location().String(), nonsafeChars[:31]) {
 		return ErrInvalidTime
 	}
 
@@ -549,13 +556,13 @@ func (p Period) encode(w writer) {
 }
 
 func (p Period) valid() error {
-	if p.Start.IsZero() {
+	if p.Start.valid() != nil {
 		return ErrInvalidPeriodStart
 	} else if p.End.IsZero() {
 		if p.Duration.Negative {
 			return ErrInvalidPeriodDuration
 		}
-	} else if !p.End.After(p.Start.Time) || p.Start.Location().String() != p.End.Location().String() {
+	} else if p.End.valid() != nil || !p.End.After(p.Start.Time) || p.Start.Location().String() != p.End.Location().String() {
 		return ErrInvalidPeriodEnd
 	}
 
@@ -1168,8 +1175,12 @@ func (r *Recur) valid() error {
 		return ErrInvalidRecurFrequency
 	}
 
-	if r.Count != 0 && !r.Until.IsZero() {
-		return ErrInvalidRecur
+	if !r.Until.IsZero() {
+		if r.Count != 0 {
+			return ErrInvalidRecur
+		} else if err := (DateTime{r.Until}).valid(); err != nil {
+			return err
+		}
 	}
 
 	for _, second := range r.BySecond {
-- 
2.43.0


From cf6eb709ca241929eaee3f6fef53ee6b7d1daefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:09:40 +0000
Subject: [PATCH 17/28] fix: refuse to encode durations of weeks with other
 units

Weeks cannot be combined with other units, so the encoder dropped the
others without notice.
---
 types.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index 506dcd0..1c00428 100644
--- a/types.go
+++ b/types.go
@@ -399,7 +399,11 @@ func (d Duration) encode(w writer) {
 	w.Write(data)
 }
 
-func (Duration) valid() error {
+func (d Duration) valid() error {
+	if d.Weeks != 0 && (d.Days != 0 || d.Hours != 0 || d.Minutes != 0 || d.Seconds != 0) {
+		return ErrInvalidDuration
+	}
+
 	return nil
 }
 
@@ -559,7 +563,7 @@ func (p Period) valid() error {
 	if p.Start.valid() != nil {
 		return ErrInvalidPeriodStart
 	} else if p.End.IsZero() {
-		if p.Duration.Negative {
+		if p.Duration.Negative || p.Duration.valid() != nil {
 			return ErrInvalidPeriodDuration
 		}
 	} else if p.End.valid() != nil || !p.End.After(p.Start.Time) || p.Start.Location().String() != p.End.Location().String() {
-- 
2.43.0


From 1ce596bf485dbedfedc02b3c3c0d9ebdeba38cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:09:42 +0000
Subject: [PATCH 18/28] fix: refuse to encode offsets of a hundred hours or
 more

The hours were replaced by zero or truncated, giving a wrong offset.
---
 types.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 1c00428..9bdbfc0 100644
--- a/types.go
+++ b/types.go
@@ -1586,7 +1586,11 @@ func (u UTCOffset) encode(w writer) {
 	w.Write(b)
 }
 
-func (UTCOffset) valid() error {
+func (u UTCOffset) valid() error {
+	if u <= -100*3600 || u >= 100*3600 {
+		return ErrInvalidOffset
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 89d017179824ae19c56122273232474aeaaadf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:09:44 +0000
Subject: [PATCH 19/28] fix: refuse to encode URIs with control characters

An opaque or query part with a line break ended the content line, so the
rest of the value was read as further properties.
---
 types.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/types.go b/types.go
index 9bdbfc0..72c9091 100644
--- a/types.go
+++ b/types.go
@@ -111,7 +111,16 @@ func (c CalendarAddress) encode(w writer) {
 	w.WriteString(c.URL.String())
 }
 
-func (CalendarAddress) valid() error {
+func (c CalendarAddress) valid() error {
+	return validURL(&c.URL)
+}
+
+// validURL checks that the URL can be written to a single content line.
+func validURL(u *url.URL) error {
+	if strings.ContainsAny(u.String(), nonsafeChars[:32]) {
+		return ErrInvalidURI
+	}
+
 	return nil
 }
 
@@ -1486,8 +1495,8 @@ func (u URI) encode(w writer) {
 	w.WriteString(u.URL.String())
 }
 
-func (URI) valid() error {
-	return nil
+func (u URI) valid() error {
+	return validURL(&u.URL)
 }
 
 // UTCOffset contains the offset from UTC to local time.
@@ -1620,6 +1629,7 @@ var (
 	ErrInvalidText            = errors.New("invalid encoded text")
 	ErrInvalidBoolean         = errors.New("invalid Boolean")
 	ErrInvalidOffset          = errors.New("invalid UTC Offset")
+	ErrInvalidURI             = errors.New("invalid URI")
 	ErrInvalidRecur           = errors.New("invalid Recur")
 	ErrInvalidTime            = errors.New("invalid Time")
 	ErrInvalidFloat           = errors.New("invalid float")
-- 
2.43.0


From 7366bf0d96dc5b9ff6a5808fd74e3ef7a73a60ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:10:07 +0000
Subject: [PATCH 20/28] fix: treat FMTTYPE like the other text parameters

Control characters in the value were written as they are, breaking the
content line, and caret escapes were written but not read.
---
 genParams.sh | 8 +++++---
 params.go    | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/genParams.sh b/genParams.sh
index d017818..28218c2 100755
--- a/genParams.sh
+++ b/genParams.sh
@@ -189,11 +189,13 @@ source "comments.sh";
 						echo "	*t = Param$type(decode6868(${vName}.Data))";
 					fi;
 				else
-					echo "$indent	if !regex${type}.MatchString(${vName}.Data) {";
+					echo "$indent	s := decode6868(${vName}.Data)";
+					echo;
+					echo "$indent	if !regex${type}.MatchString(s) {";
 					echo "$indent		return fmt.Errorf(errDecodingType, c$type, ErrInvalidParam)";
 					echo "$indent	}";
 					echo;
-					echo "$indent	*t = Param$type(${vName}.Data)";
+					echo "$indent	*t = Param$type(s)";
 				fi;
 			fi;
 			if $multiple; then
@@ -316,7 +318,7 @@ source "comments.sh";
 					echo "$indent		return fmt.Errorf(errValidatingType, c$type, ErrInvalidValue)";
 					echo "$indent	}";
 				elif [ ! -z "$regex" ]; then
-					echo "$indent	if !regex${type}.Match([]byte($vName)) {";
+					echo "$indent	if !regex${type}.MatchString(string($vName)) || strings.ContainsAny(string($vName), nonsafeChars[:31]) {";
 					echo "$indent		return fmt.Errorf(errValidatingType, c$type, ErrInvalidValue)";
 					echo "$indent	}";
 				else
diff --git a/params.go b/params.go
index 017f548..8278e9e 100644
--- a/params.go
+++ b/params.go
@@ -373,11 +373,13 @@ func (t *ParamFormatType) decode(vs []parser.Token) error {
 		return fmt.Errorf(errDecodingType, cFormatType, ErrInvalidParam)
 	}
 
-	if !regexFormatType.MatchString(vs[0].Data) {
+	s := decode6868(vs[0].Data)
+
+	if !regexFormatType.MatchString(s) {
 		return fmt.Errorf(errDecodingType, cFormatType, ErrInvalidParam)
 	}
 
-	*t = ParamFormatType(vs[0].Data)
+	*t = ParamFormatType(s)
 
 	return nil
 }
@@ -399,7 +401,7 @@ func (t ParamFormatType) encode(w writer) {
 }
 
 func (t ParamFormatType) valid() error {
-	if !regexFormatType.Match([]byte(t)) {
+	if !regexFormatType.MatchString(string(t)) || strings.ContainsAny(string(t), nonsafeChars[:31]) {
 		return fmt.Errorf(errValidatingType, cFormatType, ErrInvalidValue)
 	}
 
-- 
2.43.0


From 6716c4ced323b298205ae7c01a437f588539b99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:10:09 +0000
Subject: [PATCH 21/28] fix: do not append a replacement character to text
 ending in a backslash

---
 types.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/types.go b/types.go
index 72c9091..a9ac8ca 100644
--- a/types.go
+++ b/types.go
@@ -1303,6 +1303,8 @@ Loop:
 				d = append(d, ',')
 			case 'N', 'n':
 				d = append(d, '\n')
+			case -1:
+				d = append(d, '\\')
 			default:
 				d = append(d, '\\')
 				l := utf8.EncodeRune(ru[:], c)
-- 
2.43.0


From f4e00d3acf9ad3fb54ef9d8f5181ee544286447d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:10:12 +0000
Subject: [PATCH 22/28] fix: read ENCODING and boolean values without regard to
 case

---
 types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index a9ac8ca..4151c7f 100644
--- a/types.go
+++ b/types.go
@@ -20,7 +20,7 @@ const dateTimeFormat = "20060102T150405Z"
 type Binary []byte
 
 func (b *Binary) decode(params map[string]string, data string) error {
-	if params["ENCODING"] != "BASE64" {
+	if strings.ToUpper(params["ENCODING"]) != "BASE64" {
 		return ErrInvalidEncoding
 	}
 
@@ -54,7 +54,7 @@ func (Binary) valid() error {
 type Boolean bool
 
 func (b *Boolean) decode(_ map[string]string, data string) error {
-	cb, err := strconv.ParseBool(data)
+	cb, err := strconv.ParseBool(strings.ToUpper(data))
 	*b = Boolean(cb)
 
 	if err != nil {
-- 
2.43.0


From 67ab39b4e96820ccb43546306169157bf3a2214a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:10:28 +0000
Subject: [PATCH 23/28] fix: reject parameters without a name

---
 tokeniser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tokeniser.go b/tokeniser.go
index 262fe04..4e5be11 100644
--- a/tokeniser.go
+++ b/tokeniser.go
@@ -70,13 +70,19 @@ func parseParamName(t *parser.Tokeniser) (parser.Token, parser.TokenFunc) {
 	t.Accept(";")
 	t.Get()
 
-	if t.AcceptRun(ianaToken) != '=' {
+	next := t.AcceptRun(ianaToken)
+	name := t.Get()
+
+	if len(name) == 0 || next != '=' {
 		t.Err = ErrInvalidContentLineParamName
 
 		return t.Error()
 	}
 
-	return t.Return(tokenParamName, parseParamValue)
+	return parser.Token{
+		Type: tokenParamName,
+		Data: name,
+	}, parseParamValue
 }
 
 func parseParamValue(t *parser.Tokeniser) (parser.Token, parser.TokenFunc) {
-- 
2.43.0


From dbcf620253d000ed999f516be891f7e170d27707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:57 +0000
Subject: [PATCH 24/28] fix: reject alarms with an unknown action besides a
 known one

---
 sections_alarm.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sections_alarm.go b/sections_alarm.go
index 97f4f02..4a283e0 100644
--- a/sections_alarm.go
+++ b/sections_alarm.go
@@ -69,6 +69,8 @@ Loop:
 				a.AlarmType = new(AlarmURI)
 			case "NONE":
 				a.AlarmType = new(AlarmNone)
+			default:
+				return ErrMissingAlarmAction
 			}
 		case "END":
 			break Loop
-- 
2.43.0


From 2f77f17543e911752ffaa053b239dadbddf6f56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:49 +0000
Subject: [PATCH 25/28] fix: reject recurrence rules repeating FREQ, UNTIL or
 COUNT

---
 types.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index 4151c7f..a46ca90 100644
--- a/types.go
+++ b/types.go
@@ -669,6 +669,10 @@ func (r *Recur) decode(params map[string]string, data string) error {
 
 		switch parts[0] {
 		case "FREQ":
+			if freq {
+				return ErrInvalidRecur
+			}
+
 			switch parts[1] {
 			case "SECONDLY":
 				r.Frequency = Secondly
@@ -690,7 +694,7 @@ func (r *Recur) decode(params map[string]string, data string) error {
 
 			freq = true
 		case "UNTIL":
-			if r.Count > 0 {
+			if r.Count > 0 || !r.Until.IsZero() {
 				return ErrInvalidRecur
 			} else if len(parts[1]) > 10 {
 				var d DateTime
@@ -712,7 +716,7 @@ func (r *Recur) decode(params map[string]string, data string) error {
 				r.UntilTime = false
 			}
 		case "COUNT":
-			if !r.Until.IsZero() {
+			if r.Count > 0 || !r.Until.IsZero() {
 				return ErrInvalidRecur
 			}
 
-- 
2.43.0


From a99b3d16bcc8daaadf0fd69c1654514691aab436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:30:47 +0000
Subject: [PATCH 26/28] fix: reject durations with misplaced or repeated time
 designators

Time units before or without the T, and a second T resetting the order of
units, were accepted, so that P1M was read as a minute and the first of two
hour counts was lost.
---
 types.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index a46ca90..3d91b20 100644
--- a/types.go
+++ b/types.go
@@ -252,10 +252,18 @@ func (d *Duration) decode(_ map[string]string, data string) error {
 		return ErrInvalidDuration
 	}
 
-	var level uint8
+	var (
+		level    uint8
+		timePart bool
+	)
 
 	for t.Peek() != -1 {
 		if t.Accept("T") {
+			if timePart {
+				return ErrInvalidDuration
+			}
+
+			timePart = true
 			level = 1
 		}
 
@@ -267,6 +275,8 @@ func (d *Duration) decode(_ map[string]string, data string) error {
 
 		if err != nil {
 			return fmt.Errorf("error decoding duration: %w", err)
+		} else if timePart != strings.ContainsRune("HMS", mode) {
+			return ErrInvalidDuration
 		}
 
 		switch mode {
-- 
2.43.0


From 63699081c5640a775a023a8169aca57bfca3480c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:30:47 +0000
Subject: [PATCH 27/28] fix: do not mix floating and zoned times in a period

When the local zone is configured by name, a period from a floating time to
one in the zone of that name was written as floating throughout.
---
 types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 3d91b20..bba6e2c 100644
--- a/types.go
+++ b/types.go
@@ -585,7 +585,7 @@ func (p Period) valid() error {
 		if p.Duration.Negative || p.Duration.valid() != nil {
 			return ErrInvalidPeriodDuration
 		}
-	} else if p.End.valid() != nil || !p.End.After(p.Start.Time) || p.Start.Location().String() != p.End.Location().String() {
+	} else if p.End.valid() != nil || !p.End.After(p.Start.Time) || p.Start.Location().String() != p.End.Location().String() || (p.Start.Location() == time.Local) != (p.End.Location() == time.Local) {
 		return ErrInvalidPeriodEnd
 	}
 
-- 
2.43.0


From 5024d315449d9ca59573b010a1086a502ebe8267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:51 +0000
Subject: [PATCH 28/28] fix: report a failing reader instead of returning the
 calendar when it fails right after END:VCALENDAR

---
 decoder.go  |  7 ++++++-
 unfolder.go | 15 +++++++++++----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/decoder.go b/decoder.go
index 4152d50..5c3eb5d 100644
--- a/decoder.go
+++ b/decoder.go
@@ -14,7 +14,8 @@ type section interface {
 
 // Decode decodes an iCalendar object from the given reader.
 func Decode(r io.Reader) (*Calendar, error) {
-	t := newTokeniser(&unfolder{r: r})
+	u := &unfolder{r: r}
+	t := newTokeniser(u)
 
 	if p, err := t.GetPhrase(); err != nil {
 		return nil, err
@@ -33,5 +34,9 @@ func Decode(r io.Reader) (*Calendar, error) {
 		return nil, err
 	}
 
+	if u.ended && u.err != io.EOF {
+		return nil, u.err
+	}
+
 	return cal, nil
 }
diff --git a/unfolder.go b/unfolder.go
index 7d689dc..a6d8ffc 100644
--- a/unfolder.go
+++ b/unfolder.go
@@ -6,9 +6,10 @@ import (
 )
 
 type unfolder struct {
-	r   io.Reader
-	buf *bufio.Reader
-	err error
+	r     io.Reader
+	buf   *bufio.Reader
+	err   error
+	ended bool
 }
 
 func (u *unfolder) Read(p []byte) (int, error) {
@@ -29,7 +30,13 @@ func (u *unfolder) Read(p []byte) (int, error) {
 
 		l := u.buf.Buffered()
 		if l == 0 {
-			return n, u.err
+			if n > 0 {
+				break
+			}
+
+			u.ended = true
+
+			return 0, u.err
 		} else if l > len(eol) {
 			l = len(eol)
 		}
-- 
2.43.0

