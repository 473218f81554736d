From 544201c237fda55ab7f5f878fecdd1da1504b5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:51 +0000
Subject: [PATCH 01/21] fix: make the json feature compile and send a sized
 application/json body

---
 src/responder.rs | 9 +++++----
 src/time.rs      | 4 ++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/responder.rs b/src/responder.rs
index 851bf8c..f8eed08 100644
--- a/src/responder.rs
+++ b/src/responder.rs
@@ -4,6 +4,8 @@ use crate::cookie::Cookie;
 use crate::file_handler::FileHandler;
 use crate::time::Time;
 use octane_http::{HttpVersion, StatusCode};
+#[cfg(feature = "json")]
+use serde::Serialize;
 use std::collections::HashMap;
 use std::error::Error;
 use std::fmt;
@@ -259,10 +261,9 @@ impl<'a> Response<'a> {
     /// ```
     #[cfg(feature = "json")]
     pub fn json<T: Serialize>(&mut self, structure: T) -> serde_json::Result<()> {
-        self.body =
-            ResBody::Unsized(Box::new(Cursor::new(serde_json::to_vec(structure))) as BoxReader);
-        self.with_type("application/json");
-        self.default_headers();
+        let body = serde_json::to_vec(&structure)?;
+        self.with_type("application/json").send(body);
+        Ok(())
     }
     /// Set the status code from the status code enum
     ///
diff --git a/src/time.rs b/src/time.rs
index 0a5534a..8d41353 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -71,7 +71,7 @@ impl Time {
     */
     fn week_day(&self) -> Option<String> {
         if let Some(week) = WEEKS.iter().enumerate().find(|(i, _)| {
-            if let Ok(week_day) = self.week.try_into() {
+            if let Ok(week_day) = TryInto::<usize>::try_into(self.week) {
                 *i == week_day
             } else {
                 false
@@ -84,7 +84,7 @@ impl Time {
     }
     fn month_day(&self) -> Option<String> {
         if let Some(month) = MONTHS.iter().enumerate().find(|(i, _)| {
-            if let Ok(month_day) = self.month.try_into() {
+            if let Ok(month_day) = TryInto::<usize>::try_into(self.month) {
                 *i == month_day
             } else {
                 false
-- 
2.43.0


From a1591bf870a9c294d8f1d40999bd2b856d46d562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:21 +0000
Subject: [PATCH 02/21] fix: answer 400 to an unusable request line or header
 instead of panicking

---
 src/request.rs |  8 ++++----
 src/server.rs  | 12 ++++++++++--
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index dbbc713..37d840e 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -87,11 +87,11 @@ impl RequestLine {
     pub(crate) fn parse(request_line: &str) -> Option<Self> {
         let mut toks = request_line.split(SP);
         let method = toks.next()?;
-        let path = match PathBuf::parse(toks.next()?) {
-            Ok(val) => val,
-            Err(e) => panic!("{:?}", e),
-        };
+        let path = PathBuf::parse(toks.next()?).ok()?;
         let version = toks.next()?;
+        if !version.is_char_boundary(5) {
+            return None;
+        }
         let (first, ver) = version.split_at(5);
         let enum_ver = match ver {
             "1.1" => HttpVersion::Http11,
diff --git a/src/server.rs b/src/server.rs
index 7fb9528..bde59e1 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -172,8 +172,16 @@ impl Octane {
         let mut data = Vec::new();
         let parsed = Http1xReader::new(RawRequest1x::new(reader), &mut data).await;
         if let Ok((raw_headers, raw_request_line, body_remainder, reader_left)) = parsed {
-            let headers = Headers::parse(raw_headers).unwrap();
-            let request_line = RequestLine::parse(raw_request_line).unwrap();
+            let parsed_head = (
+                Headers::parse(raw_headers),
+                RequestLine::parse(raw_request_line),
+            );
+            let (headers, request_line) = match parsed_head {
+                (Some(headers), Some(request_line)) => (headers, request_line),
+                _ => {
+                    declare_error!(writer, StatusCode::BadRequest);
+                }
+            };
             if let Some(request) = Request::from_raw(
                 &headers,
                 request_line,
-- 
2.43.0


From d0630182da991fe6bb19f18e300fff27e19e7888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:28 +0000
Subject: [PATCH 03/21] fix: take exactly Content-Length bytes as the body and
 answer 400 when it is cut short

---
 src/request.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 37d840e..9094fd0 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -299,7 +299,7 @@ impl<'a> Request<'a> {
         mut body: &'a [u8],
         body_vec: &'a mut Vec<u8>,
         body_remainder: &'a [u8],
-        mut reader: ReadHalf<T>,
+        reader: ReadHalf<T>,
     ) -> Option<Request<'a>> {
         let body_len = headers
             .get("content-length")
@@ -307,14 +307,19 @@ impl<'a> Request<'a> {
             .unwrap_or(0);
         if body_len > 0 {
             if body_remainder.len() < body_len {
-                let mut temp: Vec<u8> = vec![0; body_len - body_remainder.len()];
-                reader.read_exact(&mut temp[..]).await.ok().unwrap();
-                *body_vec = Vec::with_capacity(body_len);
+                let missing = body_len - body_remainder.len();
                 body_vec.extend_from_slice(body_remainder);
-                body_vec.extend_from_slice(&temp[..]);
+                reader
+                    .take(missing as u64)
+                    .read_to_end(body_vec)
+                    .await
+                    .ok()?;
+                if body_vec.len() < body_len {
+                    return None;
+                }
                 body = &body_vec[..];
             } else {
-                body = body_remainder;
+                body = &body_remainder[..body_len];
             }
         } else {
             body = &[];
-- 
2.43.0


From 1ada7b5618b15d7d927080cb7f994e823adad1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:51 +0000
Subject: [PATCH 04/21] fix: skip malformed request cookies instead of
 panicking

---
 src/cookie.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cookie.rs b/src/cookie.rs
index 201316e..26ca700 100644
--- a/src/cookie.rs
+++ b/src/cookie.rs
@@ -71,9 +71,10 @@ impl<'a> Cookie<'a> {
         let mut cookies_vec = Vec::new();
         let header_cookies = header.split("; ");
         for tok in header_cookies {
-            cookies_vec.push(Cookie {
-                cookie: CookieRs::parse(tok).unwrap(),
-            });
+            // a malformed pair is the client's mistake, not a reason to fail
+            if let Ok(cookie) = CookieRs::parse(tok) {
+                cookies_vec.push(Cookie { cookie });
+            }
         }
         cookies_vec
     }
-- 
2.43.0


From eb3d8d90512630fd5813a730d437fc00045c8c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:59 +0000
Subject: [PATCH 05/21] fix: accept a request that has no header lines

---
 octane_http/src/http1x/mod.rs | 13 ++++++++-----
 src/request.rs                |  3 +++
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/octane_http/src/http1x/mod.rs b/octane_http/src/http1x/mod.rs
index 59703d7..63a9e4c 100644
--- a/octane_http/src/http1x/mod.rs
+++ b/octane_http/src/http1x/mod.rs
@@ -73,9 +73,12 @@ pub fn find_in_slice<T: Eq>(haystack: &[T], needle: &[T]) -> Option<usize> {
 
 // Helper function for extracting some headers
 pub(crate) fn parse_without_body(data: &str) -> Option<(&str, String)> {
-    let n = data.find("\r\n")?;
-    let (line, rest) = data.split_at(n);
-    let request_line = line;
-    let headers = (&rest[2..]).to_owned();
-    Some((request_line, headers))
+    match data.find("\r\n") {
+        Some(n) => {
+            let (request_line, rest) = data.split_at(n);
+            Some((request_line, (&rest[2..]).to_owned()))
+        }
+        // a request line without any headers
+        None => Some((data, String::new())),
+    }
 }
diff --git a/src/request.rs b/src/request.rs
index 9094fd0..4529cdd 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -209,6 +209,9 @@ impl Headers {
         #[cfg(feature = "raw_headers")]
         let mut raw_headers: Vec<Header> = Vec::new();
         for tok in toks {
+            if request.is_empty() {
+                break;
+            }
             let parsed = Header::parse(match str::from_utf8(tok) {
                 Ok(s) => s.to_owned(),
                 Err(_) => return None,
-- 
2.43.0


From 0279a074f20bb666c9250b98e7d084a473021d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:34 +0000
Subject: [PATCH 06/21] fix: separate the query string from the request path

---
 src/request.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 4529cdd..ef30786 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -77,6 +77,9 @@ pub struct RequestLine {
     pub method: RequestMethod,
     /// The path of the request
     pub path: PathBuf,
+    /// The query string of the request, i.e what follows the first `?` in
+    /// the request target, empty if there is none
+    pub query: String,
     /// Http version of the request
     pub version: HttpVersion,
 }
@@ -87,7 +90,9 @@ impl RequestLine {
     pub(crate) fn parse(request_line: &str) -> Option<Self> {
         let mut toks = request_line.split(SP);
         let method = toks.next()?;
-        let path = PathBuf::parse(toks.next()?).ok()?;
+        let mut target = toks.next()?.splitn(2, '?');
+        let path = PathBuf::parse(target.next()?).ok()?;
+        let query = target.next().unwrap_or("").to_owned();
         let version = toks.next()?;
         if !version.is_char_boundary(5) {
             return None;
@@ -119,6 +124,7 @@ impl RequestLine {
         Some(Self {
             method: request_method,
             path,
+            query,
             version: enum_ver,
         })
     }
@@ -344,14 +350,14 @@ impl<'a> Request<'a> {
     /// }));
     /// ```
     pub fn get_query(&self) -> HashMap<String, String> {
-        parse_query(&self.request_line.path.to_string())
+        parse_query(&self.request_line.query)
     }
 
     /// Parse the extended query and return the key value pairs in the form
     /// of an HashMap. See [`QueryValue`](../enum.QueryValue.html)
     #[cfg(feature = "extended_queries")]
     pub fn get_extended_query(&self) -> HashMap<String, QueryValue> {
-        parse_extended_query(&self.request_line.path.to_string())
+        parse_extended_query(&self.request_line.query)
     }
 }
 
-- 
2.43.0


From 055cf35c7ebc62273273d3bfbc1c3fd560fb07f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:41 +0000
Subject: [PATCH 07/21] fix: decode percent escapes in queries as UTF-8 bytes

---
 src/query.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/query.rs b/src/query.rs
index af56205..03bc148 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -1,39 +1,40 @@
 use std::collections::HashMap;
 
 pub fn unescape_hex(string: &str) -> String {
-    let mut ret = "".to_owned();
-    let mut chars = string.chars();
-    let mut peekable = DoublePeek::new(&mut chars);
+    let mut ret: Vec<u8> = Vec::new();
+    let mut bytes = string.bytes();
+    let mut peekable = DoublePeek::new(&mut bytes);
     while let Some(val) = peekable.next() {
-        if val != '%' {
+        if val != b'%' {
             ret.push(val);
         } else {
             peekable.unpeek = true;
             let c1 = match peekable.peek() {
                 Some(&v) => v,
                 None => {
-                    ret.push('%');
+                    ret.push(b'%');
                     continue;
                 }
             };
             let c2 = match peekable.peek() {
                 Some(&v) => v,
                 None => {
-                    ret.push('%');
+                    ret.push(b'%');
                     continue;
                 }
             };
-            let (h1, h2) = (from_hex(c1), from_hex(c2));
+            let (h1, h2) = (from_hex(c1 as char), from_hex(c2 as char));
             if h1.is_none() || h2.is_none() {
-                ret.push('%');
+                ret.push(b'%');
                 continue;
             }
-            ret.push((h1.unwrap() * 16 + h2.unwrap()) as char);
+            ret.push(h1.unwrap() * 16 + h2.unwrap());
             peekable.next();
             peekable.next();
         }
     }
-    ret
+    // the escapes stand for the bytes of UTF-8 text
+    String::from_utf8_lossy(&ret).into_owned()
 }
 
 pub struct DoublePeek<'a, T>
-- 
2.43.0


From 7be06406b16b7eeb83a4511327943b3f5d0d409e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:42 +0000
Subject: [PATCH 08/21] fix: end every Set-Cookie line so that cookies do not
 swallow the end of the head

---
 src/responder.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/responder.rs b/src/responder.rs
index f8eed08..fca5d12 100644
--- a/src/responder.rs
+++ b/src/responder.rs
@@ -502,14 +502,9 @@ impl<'a> Response<'a> {
             .for_each(|data| headers_str.push_str(&format!("{}:{}{}{}", data.0, SP, data.1, CRLF)));
         // push cookies
         #[cfg(feature = "cookies")]
-        headers_str.push_str(
-            &self
-                .cookies
-                .iter()
-                .map(|cookie| cookie.serialise())
-                .collect::<Vec<String>>()
-                .join(CRLF),
-        );
+        self.cookies
+            .iter()
+            .for_each(|cookie| headers_str.push_str(&format!("{}{}", cookie.serialise(), CRLF)));
         headers_str
     }
 }
-- 
2.43.0


From b67d8bf8b4f947a70551456c532a6724af2fa428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:07 +0000
Subject: [PATCH 09/21] fix: report the bytes read by AsyncReader so that files
 are not sent empty

---
 src/util.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 9fadf91..3cf3608 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -64,7 +64,8 @@ impl<T: Read + Unpin> Deref for AsyncReader<T> {
 
 impl<T: Read + Unpin> AsyncRead for AsyncReader<T> {
     fn poll_read(mut self: Pin<&mut Self>, _: &mut Context, buf: &mut ReadBuf) -> Poll<Result<()>> {
-        self.reader.read(buf.initialized_mut())?;
+        let read = self.reader.read(buf.initialize_unfilled())?;
+        buf.advance(read);
         Poll::Ready(Ok(()))
     }
 }
-- 
2.43.0


From a670c1cda48d40584d166cc7a8a29a7bb2f9c5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:14 +0000
Subject: [PATCH 10/21] fix: send Content-Length and Date with files too

---
 src/responder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/responder.rs b/src/responder.rs
index fca5d12..a23e4fe 100644
--- a/src/responder.rs
+++ b/src/responder.rs
@@ -229,6 +229,7 @@ impl<'a> Response<'a> {
         let len = file.meta.len() as usize;
         self.content_len = Some(len);
         self.body = ResBody::Sized(len, Box::new(file.file) as BoxReader);
+        self.default_headers();
         Ok(Some(()))
     }
 
-- 
2.43.0


From 2185101d5487c11b3e8a01b8e519124d336728ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:21 +0000
Subject: [PATCH 11/21] fix: treat response header names as case insensitive

---
 src/responder.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/responder.rs b/src/responder.rs
index a23e4fe..ffae85c 100644
--- a/src/responder.rs
+++ b/src/responder.rs
@@ -95,6 +95,8 @@ impl<'a> Response<'a> {
     /// );
     /// ```
     pub fn set(&mut self, key: &str, value: &str) -> &mut Self {
+        // header names are case insensitive
+        self.headers.retain(|name, _| !name.eq_ignore_ascii_case(key));
         self.headers.insert(key.to_owned(), value.to_owned());
         self
     }
@@ -116,7 +118,10 @@ impl<'a> Response<'a> {
     /// );
     /// ```
     pub fn get(&mut self, field: &'static str) -> Option<&String> {
-        self.headers.get(field)
+        self.headers
+            .iter()
+            .find(|(name, _)| name.eq_ignore_ascii_case(field))
+            .map(|(_, value)| value)
     }
     /// Puts the given text to the body and send it
     /// as html by default
@@ -149,13 +154,12 @@ impl<'a> Response<'a> {
     /// if no content header is sent
     pub fn default_headers(&mut self) -> &mut Self {
         if let Some(x) = self.content_len {
-            self.headers
-                .insert("Content-Length".to_string(), x.to_string());
+            self.set("Content-Length", &x.to_string());
         }
         if let Some(date) = Time::now() {
-            self.headers.insert("Date".to_string(), date.format());
+            self.set("Date", &date.format());
         }
-        if self.headers.get("Content-Type").is_none() {
+        if self.get("Content-Type").is_none() {
             let mut format = String::from("text/html");
             if let Some(charset) = &self.charset {
                 format.push_str(&format!(" ;charset={:?}", charset));
@@ -222,10 +226,7 @@ impl<'a> Response<'a> {
     /// ```
     pub fn send_file(&mut self, file: &str) -> Result<Option<()>, Box<dyn Error>> {
         let file = FileHandler::handle_file(&PathBuf::from(file))?;
-        self.headers.insert(
-            "Content-Type".to_string(),
-            FileHandler::mime_type(file.extension),
-        );
+        self.set("Content-Type", &FileHandler::mime_type(file.extension));
         let len = file.meta.len() as usize;
         self.content_len = Some(len);
         self.body = ResBody::Sized(len, Box::new(file.file) as BoxReader);
-- 
2.43.0


From 8fa28591cc0617bb0d6d3c6711938b8b00b526b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:44 +0000
Subject: [PATCH 12/21] fix: keep line breaks in header and cookie values from
 starting new header lines

---
 src/responder.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/responder.rs b/src/responder.rs
index ffae85c..db34174 100644
--- a/src/responder.rs
+++ b/src/responder.rs
@@ -498,15 +498,20 @@ impl<'a> Response<'a> {
     }
     fn headers(&self) -> String {
         let mut headers_str = String::new();
+        // a line break inside a name or a value must not start a new line
+        let mut push_line = |line: String| {
+            headers_str.extend(line.chars().filter(|c| !matches!(*c, CR | LF)));
+            headers_str.push_str(CRLF);
+        };
         // push normal headers
         self.headers
             .iter()
-            .for_each(|data| headers_str.push_str(&format!("{}:{}{}{}", data.0, SP, data.1, CRLF)));
+            .for_each(|data| push_line(format!("{}:{}{}", data.0, SP, data.1)));
         // push cookies
         #[cfg(feature = "cookies")]
         self.cookies
             .iter()
-            .for_each(|cookie| headers_str.push_str(&format!("{}{}", cookie.serialise(), CRLF)));
+            .for_each(|cookie| push_line(cookie.serialise()));
         headers_str
     }
 }
-- 
2.43.0


From 78e232d25664beb88d27b1b35e45414ef4f504c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:51 +0000
Subject: [PATCH 13/21] fix: abbreviate September as Sep in the Date header

---
 src/constants.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/constants.rs b/src/constants.rs
index e066d0f..6239c2a 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -10,7 +10,7 @@ pub const CRLF: &str = "\r\n";
 pub const B_CRLF: &[u8] = b"\r\n";
 pub const WEEKS: [&str; 7] = ["Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"];
 pub const MONTHS: [&str; 12] = [
-    "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sept", "Oct", "Nov", "Dec",
+    "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec",
 ];
 
 // constants for time.rs
-- 
2.43.0


From 293ce8b13c54bd12e4e8f25502bcf0faf9443f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:58 +0000
Subject: [PATCH 14/21] fix: correct the mime type of bin files

---
 src/file_handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_handler.rs b/src/file_handler.rs
index e57a2e7..23435c8 100644
--- a/src/file_handler.rs
+++ b/src/file_handler.rs
@@ -78,7 +78,7 @@ impl FileHandler {
             "abw" => "application/x-abiword",
             "arc" => "application/x-freearc",
             "azw" => "application/vnd.amazon.ebook",
-            "bin" => "applcation/octet-stream",
+            "bin" => "application/octet-stream",
             "bz" => "application/x-bzip",
             "bz2" => "application/x-bzip2",
             "csh" => "application/x-csh",
-- 
2.43.0


From 2f61fdb600da85d1ba49562d01d1a567c5bfd94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:05 +0000
Subject: [PATCH 15/21] fix: write version 2.0 in the status line as 2.0

---
 octane_http/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/octane_http/src/lib.rs b/octane_http/src/lib.rs
index 0187819..a9fa5f6 100644
--- a/octane_http/src/lib.rs
+++ b/octane_http/src/lib.rs
@@ -43,7 +43,7 @@ impl ToString for HttpVersion {
             Self::Http11 => "1.1",
             Self::Http10 => "1.0",
             Self::Http09 => "0.9",
-            Self::Http02 => "0.2",
+            Self::Http02 => "2.0",
             _ => "",
         }
         .to_owned()
-- 
2.43.0


From 496460b281062f79cb282da70bdfffde4cf97216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:12 +0000
Subject: [PATCH 16/21] fix: trim header values on both sides, allow tabs and
 reject every control character

---
 src/path.rs    | 2 +-
 src/request.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/path.rs b/src/path.rs
index b308960..a054686 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -438,7 +438,7 @@ deref!(MatchedPath<'a, T>, T, data);
 deref!(PathBuf, Vec<String>, chunks);
 
 pub fn is_ctl(c: char) -> bool {
-    c < '\x1f' || c == '\x7f'
+    c <= '\x1f' || c == '\x7f'
 }
 
 fn get_second<T>(tup: (PathChunk, PathNode<T>)) -> PathNode<T> {
diff --git a/src/request.rs b/src/request.rs
index ef30786..bef8f05 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -158,8 +158,8 @@ impl Header {
                 TOKEN_CHARS.get(&c)?;
             }
         }
-        let value = toks.next()?.trim_start_matches(|c| c == SP || c == HT);
-        if cfg!(feature = "faithful") && value.chars().any(is_ctl) {
+        let value = toks.next()?.trim_matches(|c| c == SP || c == HT);
+        if cfg!(feature = "faithful") && value.chars().any(|c| c != HT && is_ctl(c)) {
             return None;
         }
         Some(Self {
-- 
2.43.0


From b630b8f82904fe11620a095b00a07822ef448b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:46 +0000
Subject: [PATCH 17/21] fix: allow address reuse before binding so that a
 restart can bind again

---
 src/server_builder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server_builder.rs b/src/server_builder.rs
index 7a0a5fb..e93bf31 100644
--- a/src/server_builder.rs
+++ b/src/server_builder.rs
@@ -22,9 +22,10 @@ impl ServerBuilder {
         let socket = Socket::new(Domain::ipv4(), stream, None)?;
         socket.set_nonblocking(true)?;
         let bind_add = SocketAddr::new(IpAddr::V4(Ipv4Addr::new(0, 0, 0, 0)), port);
+        // only has an effect on a later bind, e.g after a restart
+        socket.set_reuse_address(true)?;
         socket.bind(&SockAddr::from(bind_add))?;
         socket.listen(2048)?;
-        socket.set_reuse_address(true)?;
         Ok(ServerBuilder {
             socket: TcpListener::from_std(socket.into_tcp_listener())?,
         })
-- 
2.43.0


From 0e7462cc78ea46e745ccbca00480507e8e281bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:54 +0000
Subject: [PATCH 18/21] fix: run the listen callback only after the port is
 bound

---
 src/server.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index bde59e1..83e7978 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -126,6 +126,8 @@ impl Octane {
     where
         F: FnOnce(),
     {
+        // nothing is started and exec is not run unless the port is ours
+        let server_builder = ServerBuilder::new(port)?;
         let server = Arc::new(self);
         let mut _ssl = false;
 
@@ -153,8 +155,7 @@ impl Octane {
             });
         }
         exec();
-        let server_builder = ServerBuilder::new(port);
-        server_builder?
+        server_builder
             .listen(
                 move |stream, server| async move { Octane::serve(stream, server).await },
                 server,
-- 
2.43.0


From 7bb2ca49b1082c46317503648674022158d69b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:01 +0000
Subject: [PATCH 19/21] fix: keep serving after a failed accept

---
 src/server_builder.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/server_builder.rs b/src/server_builder.rs
index e93bf31..cc61966 100644
--- a/src/server_builder.rs
+++ b/src/server_builder.rs
@@ -37,12 +37,15 @@ impl ServerBuilder {
         C: FnOnce(TcpStream, Arc<Octane>) -> T + Send + 'static + Copy,
     {
         while let Some(stream) = self.socket.next().await {
-            stream.map(|stream| {
+            if let Ok(stream) = stream {
                 let server = Arc::clone(&server);
                 task!({
                     exec(stream, server).await;
-                })
-            })?;
+                });
+            } else {
+                // a failed accept concerns one connection, not the server
+                tokio::task::yield_now().await;
+            }
         }
         Ok(())
     }
@@ -57,7 +60,14 @@ impl ServerBuilder {
         let acceptor = crate::tls::openssl::acceptor(&server.settings)?;
         while let Some(stream) = ssl_listener.next().await {
             let acceptor = acceptor.clone();
-            let tcp_stream = stream?;
+            let tcp_stream = match stream {
+                Ok(tcp_stream) => tcp_stream,
+                // a failed accept concerns one connection, not the server
+                Err(_) => {
+                    tokio::task::yield_now().await;
+                    continue;
+                }
+            };
             let server = Arc::clone(&server);
 
             task!({
@@ -89,7 +99,14 @@ impl ServerBuilder {
 
             let server = Arc::clone(&server);
 
-            let tcp_stream = stream?;
+            let tcp_stream = match stream {
+                Ok(tcp_stream) => tcp_stream,
+                // a failed accept concerns one connection, not the server
+                Err(_) => {
+                    tokio::task::yield_now().await;
+                    continue;
+                }
+            };
             task!({
                 let stream = acceptor.accept(tcp_stream).await;
                 if let Ok(stream_ssl) = stream {
-- 
2.43.0


From dbb240963f4b8fde99acc9b2f739562fc435bea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:42 +0000
Subject: [PATCH 20/21] fix: a file that grows before it is sent does not
 exceed its Content-Length

---
 src/responder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/responder.rs b/src/responder.rs
index db34174..4ed88be 100644
--- a/src/responder.rs
+++ b/src/responder.rs
@@ -12,7 +12,7 @@ use std::fmt;
 use std::io::Cursor;
 use std::marker::PhantomData;
 use std::path::PathBuf;
-use tokio::io::AsyncRead;
+use tokio::io::{AsyncRead, AsyncReadExt};
 
 pub(crate) type BoxReader = Box<dyn AsyncRead + Unpin + Send>;
 
@@ -229,7 +229,9 @@ impl<'a> Response<'a> {
         self.set("Content-Type", &FileHandler::mime_type(file.extension));
         let len = file.meta.len() as usize;
         self.content_len = Some(len);
-        self.body = ResBody::Sized(len, Box::new(file.file) as BoxReader);
+        // a file that grows meanwhile must not outgrow the announced length
+        let reader = AsyncReadExt::take(file.file, len as u64);
+        self.body = ResBody::Sized(len, Box::new(reader) as BoxReader);
         self.default_headers();
         Ok(Some(()))
     }
-- 
2.43.0


From 9db391239886fccd131bb6d8183c5a62ea9f962a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:27 +0000
Subject: [PATCH 21/21] fix: a Content-Length too large to represent is
 refused, not taken for zero

---
 src/request.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index bef8f05..6a6be73 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -13,6 +13,7 @@ use std::cfg;
 use std::collections::HashMap;
 #[cfg(not(feature = "raw_headers"))]
 use std::marker::PhantomData;
+use std::num::IntErrorKind;
 use std::str;
 use std::string::ToString;
 use tokio::io::ReadHalf;
@@ -310,10 +311,12 @@ impl<'a> Request<'a> {
         body_remainder: &'a [u8],
         reader: ReadHalf<T>,
     ) -> Option<Request<'a>> {
-        let body_len = headers
-            .get("content-length")
-            .and_then(|s| s.parse().ok())
-            .unwrap_or(0);
+        let body_len = match headers.get("content-length").map(|s| s.parse::<usize>()) {
+            Some(Ok(len)) => len,
+            // more bytes than can be counted can not all arrive
+            Some(Err(e)) if *e.kind() == IntErrorKind::PosOverflow => return None,
+            _ => 0,
+        };
         if body_len > 0 {
             if body_remainder.len() < body_len {
                 let missing = body_len - body_remainder.len();
-- 
2.43.0

