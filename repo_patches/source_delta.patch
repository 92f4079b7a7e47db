From 26dbaeb6cc44d6f7c10c373af18581945f5bed0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 01/19] fix: decode every TEXT escape sequence exactly once

Sequential replaces decoded the output of earlier replaces again, so that
an escaped backslash followed by n, N, comma, ... was corrupted.
---
 src/parser/parsed_string.rs | 40 +++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/parser/parsed_string.rs b/src/parser/parsed_string.rs
index f7af4b5..e1a23d9 100644
--- a/src/parser/parsed_string.rs
+++ b/src/parser/parsed_string.rs
@@ -36,24 +36,30 @@ impl<'a> ParseString<'a> {
     }
 
     pub fn unescape_text(self) -> ParseString<'a> {
-        if self.0.contains(r#"\\"#)
-            || self.0.contains(r#"\,"#)
-            || self.0.contains(r#"\;"#)
-            || self.0.contains(r#"\:"#)
-            || self.0.contains(r#"\N"#)
-            || self.0.contains(r#"\n"#)
-        {
-            self.0
-                .replace(r#"\\"#, r#"\"#)
-                .replace(r#"\,"#, ",")
-                .replace(r#"\;"#, ";")
-                .replace(r#"\:"#, ":")
-                .replace(r#"\N"#, "\n")
-                .replace(r#"\n"#, "\n")
-                .into()
-        } else {
-            self
+        if !self.0.contains('\\') {
+            return self;
         }
+
+        // every escape sequence has to be decoded exactly once, so this must be a single pass:
+        // in `\\n` the backslash is escaped and the `n` is just an `n`
+        let mut unescaped = String::with_capacity(self.0.len());
+        let mut chars = self.0.chars();
+        while let Some(c) = chars.next() {
+            if c != '\\' {
+                unescaped.push(c);
+                continue;
+            }
+            match chars.next() {
+                Some('n' | 'N') => unescaped.push('\n'),
+                Some(escaped @ ('\\' | ',' | ';' | ':')) => unescaped.push(escaped),
+                Some(other) => {
+                    unescaped.push('\\');
+                    unescaped.push(other);
+                }
+                None => unescaped.push('\\'),
+            }
+        }
+        unescaped.into()
     }
 }
 
-- 
2.43.0


From 2ca62954bb5ef0a22f953a8deb662984f8727d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 02/19] fix: do not panic when folding long runs of multi-byte
 whitespace

While looking for a char boundary the position was also moved back for
every whitespace character (indexed by char, not byte), which can walk
back past the previous fold and panic.
---
 src/properties.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/properties.rs b/src/properties.rs
index 07cae81..2b6bfa9 100644
--- a/src/properties.rs
+++ b/src/properties.rs
@@ -407,9 +407,6 @@ pub(crate) fn fold_line(line: &str) -> String {
 
         while !line.is_char_boundary(next_pos) {
             next_pos -= 1;
-            if pos_is_whitespace(line, next_pos) {
-                next_pos -= 1;
-            }
         }
         ret.push_str(&line[pos..next_pos]);
         ret.push_str("\r\n ");
-- 
2.43.0


From b0fe742623d958b47be795f85b3a987e19c018b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 03/19] fix: keep the last continuation line within 75 octets

The leading space was not accounted for, so that the last line of a folded
content line could be 76 octets long.
---
 src/properties.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/properties.rs b/src/properties.rs
index 2b6bfa9..b8387e0 100644
--- a/src/properties.rs
+++ b/src/properties.rs
@@ -393,8 +393,9 @@ pub(crate) fn fold_line(line: &str) -> String {
 
     let mut pos = 0;
     let mut next_pos = LIMIT;
+    let mut limit = LIMIT;
 
-    while bytes_remaining > LIMIT {
+    while bytes_remaining > limit {
         let pos_is_whitespace = |line: &str, next_pos| {
             line.chars()
                 .nth(next_pos)
@@ -413,7 +414,9 @@ pub(crate) fn fold_line(line: &str) -> String {
 
         bytes_remaining -= next_pos - pos;
         pos = next_pos;
-        next_pos += LIMIT - 1;
+        // the leading space of a continuation line counts towards its length
+        limit = LIMIT - 1;
+        next_pos += limit;
     }
 
     ret.push_str(&line[len - bytes_remaining..]);
-- 
2.43.0


From 8f8a455e9479da7fee1e5dc076615e4e1a7f3a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:28 +0000
Subject: [PATCH 04/19] fix: accept property names that merely start with END
 or BEGIN

Names like ENDPOINT or BEGINNING are not END or BEGIN, but made the whole
calendar unreadable.
---
 src/parser/utils.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/utils.rs b/src/parser/utils.rs
index d04c886..c689937 100644
--- a/src/parser/utils.rs
+++ b/src/parser/utils.rs
@@ -16,13 +16,14 @@ use super::parsed_string::ParseString;
 pub fn property_key<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
 ) -> IResult<&'a str, &'a str, E> {
-    if input.get(0..=2) == Some("END") || input.get(0..=4) == Some("BEGIN") {
+    let (rest, key) = valid_key_sequence(input)?;
+    if key == "END" || key == "BEGIN" {
         IResult::Err(Err::Error(nom::error::make_error(
             input,
             nom::error::ErrorKind::Satisfy,
         )))
     } else {
-        valid_key_sequence(input)
+        Ok((rest, key))
     }
 }
 
-- 
2.43.0


From 7dbb80a4326a893494f2cfcfec45ae7d781eb4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:31 +0000
Subject: [PATCH 05/19] fix: an END line must name the open component in full

END:VEVENTS used to close VEVENT and left the rest of the name behind as a
property.
---
 src/parser/components.rs | 15 ++++++++++++---
 src/parser/utils.rs      | 15 ++++++---------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index 292841f..a5706d7 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -4,9 +4,11 @@ use chrono::Utc;
 use nom::{
     branch::alt,
     bytes::complete::tag,
-    combinator::{all_consuming, complete, cut},
+    character::complete::satisfy,
+    combinator::{all_consuming, complete, cut, not},
     error::{context, convert_error, ContextError, ParseError, VerboseError},
     multi::{many0, many_till},
+    sequence::terminated,
     Finish, IResult, Parser,
 };
 
@@ -20,7 +22,7 @@ use super::{
     parsed_string::ParseString,
     properties::property,
     unfold,
-    utils::{line, line_separated, valid_key_sequence_cow},
+    utils::{is_key_char, line, line_separated, valid_key_sequence_cow},
     Property,
 };
 
@@ -257,7 +259,14 @@ pub fn component<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
                 line_separated(property).map(ComponentChild::Property),
             )),
         )),
-        line("END:", cut(context("mismatching end", tag(name.as_str())))),
+        line(
+            "END:",
+            cut(context(
+                "mismatching end",
+                // the name has to match as a whole, not only as a prefix
+                terminated(tag(name.as_str()), not(satisfy(is_key_char))),
+            )),
+        ),
     )
     .map(|(body_elements, _)| {
         let mut properties = Vec::new();
diff --git a/src/parser/utils.rs b/src/parser/utils.rs
index c689937..00bcd15 100644
--- a/src/parser/utils.rs
+++ b/src/parser/utils.rs
@@ -27,23 +27,20 @@ pub fn property_key<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     }
 }
 
+pub fn is_key_char(c: char) -> bool {
+    c == '.' || c == ',' || c == '/' || c == '_' || c == '-' || c.is_alphanumeric()
+}
+
 pub fn valid_key_sequence<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
 ) -> IResult<&'a str, &'a str, E> {
-    take_while(|c: char| {
-        c == '.' || c == ',' || c == '/' || c == '_' || c == '-' || c.is_alphanumeric()
-    })
-    .parse(input)
+    take_while(is_key_char).parse(input)
 }
 
 pub fn valid_key_sequence_cow<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
 ) -> IResult<&'a str, ParseString<'a>, E> {
-    take_while(|c: char| {
-        c == '.' || c == ',' || c == '/' || c == '_' || c == '-' || c.is_alphanumeric()
-    })
-    .map(ParseString::from)
-    .parse(input)
+    take_while(is_key_char).map(ParseString::from).parse(input)
 }
 
 pub fn line<'a, O, E: ParseError<&'a str>, F: Parser<&'a str, O, E>>(
-- 
2.43.0


From e389d4a9596cbd4243bc719825928f357cd48f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:04 +0000
Subject: [PATCH 06/19] fix: read all root components of a stream

all_consuming was applied to every single component, so that any stream
with more than one root component silently yielded none at all.
---
 src/parser/components.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index a5706d7..b2f404c 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -5,7 +5,7 @@ use nom::{
     branch::alt,
     bytes::complete::tag,
     character::complete::satisfy,
-    combinator::{all_consuming, complete, cut, not},
+    combinator::{complete, cut, not},
     error::{context, convert_error, ContextError, ParseError, VerboseError},
     multi::{many0, many_till},
     sequence::terminated,
@@ -524,5 +524,5 @@ fn test_faulty_component() {
 pub fn components<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
 ) -> IResult<&'a str, Vec<Component<'a>>, E> {
-    complete(many0(all_consuming(component)))(input)
+    complete(many0(component))(input)
 }
-- 
2.43.0


From d4a4b119d0c0f4317048ab776d98a932a7ce4b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 07/19] fix: LAST-MODIFIED is spelled with a dash

The setter wrote a property unknown to RFC 5545 and the getter could not
read the standard one.
---
 src/components.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/components.rs b/src/components.rs
index 117fbf8..0de7e77 100644
--- a/src/components.rs
+++ b/src/components.rs
@@ -283,16 +283,16 @@ pub trait Component {
         self.property_value("URL")
     }
 
-    /// Set the [`LAST_MODIFIED`](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.7.3) [`Property`]
+    /// Set the [`LAST-MODIFIED`](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.7.3) [`Property`]
     ///
     /// This must be a UTC date-time value.
     fn last_modified(&mut self, dt: DateTime<Utc>) -> &mut Self {
-        self.add_property("LAST_MODIFIED", format_utc_date_time(dt))
+        self.add_property("LAST-MODIFIED", format_utc_date_time(dt))
     }
 
-    /// Gets the [`LAST_MODIFIED`](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.7.3) property.
+    /// Gets the [`LAST-MODIFIED`](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.7.3) property.
     fn get_last_modified(&self) -> Option<DateTime<Utc>> {
-        parse_utc_date_time(self.property_value("LAST_MODIFIED")?)
+        parse_utc_date_time(self.property_value("LAST-MODIFIED")?)
     }
 
     /// Set the [`CREATED`](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.7.1) [`Property`]
-- 
2.43.0


From 167ff9f50c8f4345a9327b6a92fd61833e6685ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 08/19] fix: get_timezone reads the property that timezone()
 writes

---
 src/calendar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/calendar.rs b/src/calendar.rs
index 118142c..e1aa9af 100644
--- a/src/calendar.rs
+++ b/src/calendar.rs
@@ -177,9 +177,9 @@ impl Calendar {
         self
     }
 
-    /// Gets the value of the `TIMEZONE_ID` or `X-WR-TIMEZONE` property.
+    /// Gets the value of the `TIMEZONE-ID` or `X-WR-TIMEZONE` property.
     pub fn get_timezone(&self) -> Option<&str> {
-        self.property_value("TIMEZONE_ID")
+        self.property_value("TIMEZONE-ID")
             .or_else(|| self.property_value("X-WR-TIMEZONE"))
     }
 
-- 
2.43.0


From 79f60dcbaba39cf15d8a64f6952a67b10dcf92fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 09/19] fix: read signed durations

Alarms are mostly triggered before an event, but the negative durations
written for them could not be read back as a Trigger.
---
 src/components/date_time.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/components/date_time.rs b/src/components/date_time.rs
index 67b6c68..0f7ffe7 100644
--- a/src/components/date_time.rs
+++ b/src/components/date_time.rs
@@ -22,9 +22,15 @@ pub(crate) fn format_utc_date_time(utc_dt: DateTime<Utc>) -> String {
 }
 
 pub(crate) fn parse_duration(s: &str) -> Option<Duration> {
-    iso8601::duration(s)
+    // iso8601 durations are unsigned, the RFC allows a leading sign
+    let (negative, unsigned) = match s.strip_prefix('-') {
+        Some(unsigned) => (true, unsigned),
+        None => (false, s.strip_prefix('+').unwrap_or(s)),
+    };
+    iso8601::duration(unsigned)
         .ok()
         .and_then(|iso| Duration::from_std(iso.into()).ok())
+        .map(|duration| if negative { -duration } else { duration })
 }
 
 pub(crate) fn naive_date_to_property(date: NaiveDate, key: &str) -> Property {
-- 
2.43.0


From a1fa782c2e8b8672f242e2206defc81962df43c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:40 +0000
Subject: [PATCH 10/19] fix: keep the time zone when reading an absolute
 Trigger

---
 src/components/alarm.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/components/alarm.rs b/src/components/alarm.rs
index 3b45d89..006e48c 100644
--- a/src/components/alarm.rs
+++ b/src/components/alarm.rs
@@ -519,7 +519,9 @@ pub mod properties {
             match (prop.key(), prop.params().get("VALUE").map(Parameter::value)) {
                 ("TRIGGER", Some("DATE-TIME")) => {
                     // date-time needs to be qualified "VALUE=DATE-TIME"
-                    CalendarDateTime::from_str(prop.value()).map(Trigger::from)
+                    CalendarDateTime::from_property(prop)
+                        .map(Trigger::from)
+                        .ok_or(())
                 }
                 ("TRIGGER", Some("DURATION") | None) => {
                     // duration is the assumed default or "VALUE=DURATION"
-- 
2.43.0


From 591166a1a63e2a94c334ab2830ad41e852233c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:04 +0000
Subject: [PATCH 11/19] fix: escape and quote when reserializing a parsed
 property

Reading removes TEXT escapes and parameter quotes, but printing the parsed
tree did not add them again, so that a printed calendar could not be read
back.
---
 src/parser/properties.rs | 14 ++++++++++++--
 src/properties.rs        |  4 ++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/parser/properties.rs b/src/parser/properties.rs
index c39bd16..8445309 100644
--- a/src/parser/properties.rs
+++ b/src/parser/properties.rs
@@ -69,12 +69,22 @@ impl Property<'_> {
         write!(line, "{}", self.name.as_str())?;
         for Parameter { key, val } in &self.params {
             if let Some(val) = val {
-                write!(line, ";{}={}", key.as_str(), val.as_str())?;
+                write!(
+                    line,
+                    ";{}={}",
+                    key.as_str(),
+                    crate::Property::quote_if_contains_colon(val.as_str())
+                )?;
             } else {
                 write!(line, ";{}", key.as_str())?;
             }
         }
-        write!(line, ":{}", self.val.as_str())?;
+        match determin_value_type(&self.name, &self.params) {
+            Some(ValueType::Text) => {
+                write!(line, ":{}", crate::Property::escape_text(self.val.as_str()))?
+            }
+            _ => write!(line, ":{}", self.val.as_str())?,
+        }
         write_crlf!(out, "{}", fold_line(&line))?;
         Ok(())
     }
diff --git a/src/properties.rs b/src/properties.rs
index b8387e0..1fdfd6d 100644
--- a/src/properties.rs
+++ b/src/properties.rs
@@ -154,7 +154,7 @@ impl Property {
     }
 
     /// <https://datatracker.ietf.org/doc/html/rfc5545#section-3.3.11>
-    fn escape_text(input: &str) -> String {
+    pub(crate) fn escape_text(input: &str) -> String {
         input
             .replace('\\', r#"\\"#)
             .replace(',', r#"\,"#)
@@ -162,7 +162,7 @@ impl Property {
             .replace('\n', r#"\N"#)
     }
 
-    fn quote_if_contains_colon(input: &str) -> String {
+    pub(crate) fn quote_if_contains_colon(input: &str) -> String {
         if input.contains([':', ';']) {
             let mut quoted = String::with_capacity(input.len() + 2);
             quoted.push('"');
-- 
2.43.0


From 2e0a658d38be5319a85a6db9cf0c32475755507f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 12/19] fix: keep the root's properties when converting parsed
 components

Calendar::from(Vec<Component>) replaced them with the default properties.
---
 src/parser/calendar.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/parser/calendar.rs b/src/parser/calendar.rs
index 218a8a8..d74a2e3 100644
--- a/src/parser/calendar.rs
+++ b/src/parser/calendar.rs
@@ -76,11 +76,15 @@ impl<'a> From<Vec<Component<'a>>> for crate::Calendar {
             .map(|first_root| first_root.name == "VCALENDAR")
             .unwrap_or(false);
 
-        let components: Vec<Component<'a>> = if root_is_calendar {
-            components.swap_remove(0).components
-        } else {
-            components
-        };
+        if root_is_calendar {
+            let root = components.swap_remove(0);
+            return Calendar {
+                properties: root.properties,
+                components: root.components,
+            }
+            .into();
+        }
+
         components
             .into_iter()
             .map(|c: Component<'a>| {
-- 
2.43.0


From 34b2d0af0a4c6047fce76ca2ca034e3ff47664f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 13/19] fix: escape the calendar's name and description

NAME, X-WR-CALNAME and X-WR-CALDESC hold TEXT but were written verbatim, so
that a name with a line break made the whole calendar unreadable.
---
 src/value_types.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/value_types.rs b/src/value_types.rs
index 2cad232..9fc97fe 100644
--- a/src/value_types.rs
+++ b/src/value_types.rs
@@ -48,6 +48,11 @@ impl ValueType {
             "METHOD" => Some(Text),   // 3.7.2
             "PRODID" => Some(Text),   // 3.7.3
             "VERSION" => Some(Text),  //3.7.4
+            "NAME" => Some(Text),     // rfc7986#section-5.1
+
+            // what `Calendar::name()` and `Calendar::description()` set besides `NAME` and `DESCRIPTION`
+            "X-WR-CALNAME" => Some(Text),
+            "X-WR-CALDESC" => Some(Text),
 
             // 3.8.0 component properties
             "ATTACH" => Some(Uri),               // or BINARY // 3.8.1.1
-- 
2.43.0


From 59e0892bb5e84fc55613d5f71c47fb976c8a9264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 14/19] fix: an empty quoted parameter value is empty

CN="" used to be read as a value of two quote characters.
---
 src/parser/parameters.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/parameters.rs b/src/parser/parameters.rs
index efe1f45..de378db 100644
--- a/src/parser/parameters.rs
+++ b/src/parser/parameters.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{is_not, tag, take_till1},
+    bytes::complete::{tag, take_till, take_till1},
     character::complete::space0,
     combinator::{eof, opt},
     error::{convert_error, ContextError, ParseError, VerboseError},
@@ -143,7 +143,7 @@ fn pair_parameter<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
             tag("="),
             opt(alt((
                 eof,
-                delimited(tag("\""), is_not("\""), tag("\"")),
+                delimited(tag("\""), take_till(|x| x == '"'), tag("\"")),
                 take_till1(|x| x == ';' || x == ':'),
             )))
             .map(remove_empty_string),
@@ -168,7 +168,7 @@ fn base_parameter<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
             tag("="),
             alt((
                 eof,
-                delimited(tag("\""), is_not("\""), tag("\"")),
+                delimited(tag("\""), take_till(|x| x == '"'), tag("\"")),
                 take_till1(|x| x == ';' || x == ':'),
             ))
             .map(ParseString::from),
-- 
2.43.0


From 5e43c04c329fdd6c7d96edf3297dc78fbe6c0c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:26 +0000
Subject: [PATCH 15/19] fix: do not ignore text behind a duration

'PT99999999999S' was read as no time at all and 'PT15 minutes' as PT:
whatever could not be parsed was dropped.
---
 src/components/date_time.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/components/date_time.rs b/src/components/date_time.rs
index 0f7ffe7..1f62250 100644
--- a/src/components/date_time.rs
+++ b/src/components/date_time.rs
@@ -27,10 +27,12 @@ pub(crate) fn parse_duration(s: &str) -> Option<Duration> {
         Some(unsigned) => (true, unsigned),
         None => (false, s.strip_prefix('+').unwrap_or(s)),
     };
-    iso8601::duration(unsigned)
-        .ok()
-        .and_then(|iso| Duration::from_std(iso.into()).ok())
-        .map(|duration| if negative { -duration } else { duration })
+    // unlike iso8601::duration() this does not ignore text behind the duration
+    match iso8601::parsers::parse_duration(unsigned.as_bytes()) {
+        Ok(([], iso)) => Duration::from_std(iso.into()).ok(),
+        _ => None,
+    }
+    .map(|duration| if negative { -duration } else { duration })
 }
 
 pub(crate) fn naive_date_to_property(date: NaiveDate, key: &str) -> Property {
-- 
2.43.0


From dfe390a920aec2acfb53acfe34af03721c892620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:22 +0000
Subject: [PATCH 16/19] fix: get_ttl reads durations like triggers do

Text behind a duration was ignored there, too, so that 'PT99999999999S'
was a time to live of zero.
---
 src/calendar.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/calendar.rs b/src/calendar.rs
index e1aa9af..def1ab8 100644
--- a/src/calendar.rs
+++ b/src/calendar.rs
@@ -1,7 +1,7 @@
 use chrono::Duration;
 use std::{fmt, mem, ops::Deref};
 
-use crate::{components::*, Parameter, Property};
+use crate::{components::date_time::parse_duration, components::*, Parameter, Property};
 
 mod calendar_component;
 
@@ -198,16 +198,11 @@ impl Calendar {
     /// Gets the value of the `REFRESH-INTERVAL` or `X-PUBLISHED-TTL` property.
     pub fn get_ttl(&self) -> Option<Duration> {
         self.property_value("REFRESH-INTERVAL")
-            .and_then(|refresh_interval| iso8601::duration(refresh_interval).ok())
+            .and_then(parse_duration)
             .or_else(|| {
                 self.property_value("X-PUBLISHED-TTL")
-                    .and_then(|published_ttl| iso8601::duration(published_ttl).ok())
+                    .and_then(parse_duration)
             })
-            .map(std::time::Duration::from)
-            .map(Duration::from_std)
-            .transpose()
-            .ok()
-            .flatten()
     }
 
     /// End of builder pattern.
-- 
2.43.0


From bd5264aa42be369c2f251fd361a614181e8d176a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:56 +0000
Subject: [PATCH 17/19] fix: print a component named CALENDAR without adding
 properties

---
 src/parser/components.rs | 22 +---------------------
 1 file changed, 1 insertion(+), 21 deletions(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index b2f404c..1ce577d 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -1,6 +1,5 @@
 use std::{fmt, str::FromStr};
 
-use chrono::Utc;
 use nom::{
     branch::alt,
     bytes::complete::tag,
@@ -14,7 +13,6 @@ use nom::{
 
 #[cfg(test)]
 use nom::error::ErrorKind;
-use uuid::Uuid;
 
 #[cfg(test)]
 use super::parameters::Parameter;
@@ -31,7 +29,7 @@ use pretty_assertions::assert_eq;
 
 use crate::{
     calendar::CalendarComponent,
-    components::{date_time::format_utc_date_time, InnerComponent, Other},
+    components::{InnerComponent, Other},
 };
 
 /// The parsing equivalent of [`crate::components::Component`]
@@ -71,24 +69,6 @@ pub(crate) trait LikeComponent<'a> {
     fn fmt_write<W: fmt::Write>(&'a self, out: &mut W) -> Result<(), fmt::Error> {
         write_crlf!(out, "BEGIN:{}", self.name())?;
 
-        if self.name().to_lowercase() == "calendar" {
-            if !self
-                .properties()
-                .iter()
-                .any(|property| property.name == "DTSTAMP")
-            {
-                let now = Utc::now();
-                write_crlf!(out, "DTSTAMP:{}", format_utc_date_time(now))?;
-            }
-
-            if !self
-                .properties()
-                .iter()
-                .any(|property| property.name == "UID")
-            {
-                write_crlf!(out, "UID:{}", Uuid::new_v4())?;
-            }
-        }
         for property in self.properties() {
             property.fmt_write(out)?;
         }
-- 
2.43.0


From f66664a3655e14fdb01483ac2552adf9de33fb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:50 +0000
Subject: [PATCH 18/19] fix: texts that only resemble a date or time are not
 read as one

chrono accepts spaces, signs and missing digits, so that 2000052T123702 was
read as the 2nd of May and 2023111 as the 1st of November.
---
 src/components/date_time.rs | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/components/date_time.rs b/src/components/date_time.rs
index 1f62250..628ce18 100644
--- a/src/components/date_time.rs
+++ b/src/components/date_time.rs
@@ -10,11 +10,22 @@ const NAIVE_DATE_FORMAT: &str = "%Y%m%d";
 
 // #[deprecated(note = "use `CalendarDateTime::from_str` if you can")]
 pub(crate) fn parse_utc_date_time(s: &str) -> Option<DateTime<Utc>> {
-    Utc.datetime_from_str(s, UTC_DATE_TIME_FORMAT).ok()
+    Utc.datetime_from_str(s, UTC_DATE_TIME_FORMAT)
+        .ok()
+        // chrono also accepts spaces, signs and missing digits
+        .filter(|utc_dt| format_utc_date_time(*utc_dt) == s)
 }
 
 pub(crate) fn parse_naive_date_time(s: &str) -> Option<NaiveDateTime> {
-    NaiveDateTime::parse_from_str(s, NAIVE_DATE_TIME_FORMAT).ok()
+    NaiveDateTime::parse_from_str(s, NAIVE_DATE_TIME_FORMAT)
+        .ok()
+        .filter(|naive_dt| naive_dt.format(NAIVE_DATE_TIME_FORMAT).to_string() == s)
+}
+
+fn parse_naive_date(s: &str) -> Option<NaiveDate> {
+    NaiveDate::parse_from_str(s, NAIVE_DATE_FORMAT)
+        .ok()
+        .filter(|naive_date| naive_date.format(NAIVE_DATE_FORMAT).to_string() == s)
 }
 
 pub(crate) fn format_utc_date_time(utc_dt: DateTime<Utc>) -> String {
@@ -90,12 +101,10 @@ impl CalendarDateTime {
         let value = property.value();
         if let Some(tzid) = property.params().get("TZID") {
             Some(Self::WithTimezone {
-                date_time: NaiveDateTime::parse_from_str(value, NAIVE_DATE_TIME_FORMAT).ok()?,
+                date_time: parse_naive_date_time(value)?,
                 tzid: tzid.value().to_owned(),
             })
-        } else if let Ok(naive_date_time) =
-            NaiveDateTime::parse_from_str(value, NAIVE_DATE_TIME_FORMAT)
-        {
+        } else if let Some(naive_date_time) = parse_naive_date_time(value) {
             Some(naive_date_time.into())
         } else {
             Self::from_str(value).ok()
@@ -259,11 +268,7 @@ impl DatePerhapsTime {
     /// Attempts to convert the given property into a `DatePerhapsTime`.
     pub fn from_property(property: &Property) -> Option<Self> {
         if property.value_type() == Some(ValueType::Date) {
-            Some(
-                NaiveDate::parse_from_str(property.value(), NAIVE_DATE_FORMAT)
-                    .ok()?
-                    .into(),
-            )
+            Some(parse_naive_date(property.value())?.into())
         } else {
             Some(CalendarDateTime::from_property(property)?.into())
         }
@@ -380,15 +385,15 @@ impl TryFrom<&crate::parser::Property<'_>> for DatePerhapsTime {
 
         // UTC is here first because lots of fields MUST be UTC, so it should,
         // in practice, be more common that others.
-        if let Ok(utc_dt) = Utc.datetime_from_str(val, "%Y%m%dT%H%M%SZ") {
+        if let Some(utc_dt) = parse_utc_date_time(val) {
             return Ok(Self::DateTime(CalendarDateTime::Utc(utc_dt)));
         };
 
-        if let Ok(naive_date) = NaiveDate::parse_from_str(val, "%Y%m%d") {
+        if let Some(naive_date) = parse_naive_date(val) {
             return Ok(Self::Date(naive_date));
         };
 
-        if let Ok(naive_dt) = NaiveDateTime::parse_from_str(val, "%Y%m%dT%H%M%S") {
+        if let Some(naive_dt) = parse_naive_date_time(val) {
             if let Some(tz_param) = value.params.iter().find(|p| p.key == "TZID") {
                 if let Some(tzid) = &tz_param.val {
                     return Ok(Self::DateTime(CalendarDateTime::WithTimezone {
-- 
2.43.0


From bcd159c108b0086de1da9d1c3bdf6510a08d6a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:58 +0000
Subject: [PATCH 19/19] fix: setting a calendar's name, description, time zone
 or interval again replaces it

---
 src/calendar.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/calendar.rs b/src/calendar.rs
index def1ab8..bab1bd4 100644
--- a/src/calendar.rs
+++ b/src/calendar.rs
@@ -117,6 +117,19 @@ impl Calendar {
         self
     }
 
+    /// Sets a `Property`, in place of the one of that name that counts, if there is one.
+    fn set_property(&mut self, property: Property) -> &mut Self {
+        match self
+            .properties
+            .iter_mut()
+            .find(|old| old.key() == property.key())
+        {
+            Some(old) => *old = property,
+            None => self.properties.push(property),
+        }
+        self
+    }
+
     /// Gets the value of a property.
     pub fn property_value(&self, key: &str) -> Option<&str> {
         Some(
@@ -145,8 +158,8 @@ impl Calendar {
     /// Set the `NAME` and `X-WR-CALNAME` `Property`s
     // TODO: where is `NAME` specified? it's not in rfc5545 or rfc2445
     pub fn name(&mut self, name: &str) -> &mut Self {
-        self.append_property(Property::new("NAME", name));
-        self.append_property(Property::new("X-WR-CALNAME", name));
+        self.set_property(Property::new("NAME", name));
+        self.set_property(Property::new("X-WR-CALNAME", name));
         self
     }
 
@@ -158,8 +171,8 @@ impl Calendar {
 
     /// Set the [`DESCRIPTION`](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.1.5) and `X-WR-CALDESC` `Property`s
     pub fn description(&mut self, description: &str) -> &mut Self {
-        self.append_property(Property::new("DESCRIPTION", description));
-        self.append_property(Property::new("X-WR-CALDESC", description));
+        self.set_property(Property::new("DESCRIPTION", description));
+        self.set_property(Property::new("X-WR-CALDESC", description));
         self
     }
 
@@ -172,8 +185,8 @@ impl Calendar {
     /// Set the `TIMEZONE-ID` and `X-WR-TIMEZONE` `Property`s
     // TODO: where is `TIMEZONE-ID` specified? it's not in rfc5545 or rfc2445
     pub fn timezone(&mut self, timezone: &str) -> &mut Self {
-        self.append_property(Property::new("TIMEZONE-ID", timezone));
-        self.append_property(Property::new("X-WR-TIMEZONE", timezone));
+        self.set_property(Property::new("TIMEZONE-ID", timezone));
+        self.set_property(Property::new("X-WR-TIMEZONE", timezone));
         self
     }
 
@@ -186,12 +199,12 @@ impl Calendar {
     /// Set the `REFRESH-INTERVAL` and `X-PUBLISHED-TTL` `Property`s
     pub fn ttl(&mut self, duration: &Duration) -> &mut Self {
         let duration_string = duration.to_string();
-        self.append_property(
+        self.set_property(
             Property::new("REFRESH-INTERVAL", &duration_string)
                 .append_parameter(Parameter::new("VALUE", "DURATION"))
                 .done(),
         );
-        self.append_property(Property::new("X-PUBLISHED-TTL", &duration_string));
+        self.set_property(Property::new("X-PUBLISHED-TTL", &duration_string));
         self
     }
 
-- 
2.43.0

