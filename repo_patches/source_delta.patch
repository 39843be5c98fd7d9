From d8472224c0291f12abfdf45d00fe5190c4641d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:12 +0000
Subject: [PATCH 01/38] fix: request chunk length lines split over several data
 chunks

The buffered part of the line was kept and prepended again to the next
chunk-length line, and only the last part was checked for being empty or
invalid.
---
 src/request.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 4e62e3e..ce40bbb 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -383,25 +383,24 @@ impl ConnectionParser {
                 if !self.request_buf.is_empty() {
                     self.check_request_buffer_limit(line.len())?;
                 }
+                // The line starts with whatever was buffered from previous data chunks.
+                let mut buffered = take(&mut self.request_buf);
+                buffered.add(line);
                 let req = self.request_mut();
                 if req.is_none() {
                     return Err(HtpStatus::ERROR);
                 }
                 let req = req.unwrap();
+                req.request_message_len =
+                    req.request_message_len.wrapping_add(buffered.len() as u64);
 
-                if line.eq(b"\n") {
-                    req.request_message_len =
-                        req.request_message_len.wrapping_add(line.len() as u64);
+                if buffered.eq_slice(b"\n") {
                     //Empty chunk len. Try to continue parsing.
                     data = remaining;
                     continue;
                 }
-                let mut data = self.request_buf.clone();
-                data.add(line);
-                let req = self.request_mut().unwrap();
-                req.request_message_len = req.request_message_len.wrapping_add(data.len() as u64);
                 // Handle chunk length.
-                let (len, ext) = parse_chunked_length(&data)?;
+                let (len, ext) = parse_chunked_length(&buffered)?;
                 self.request_chunked_length = len;
                 if ext {
                     htp_warn!(
@@ -434,7 +433,9 @@ impl ConnectionParser {
                 return Ok(());
             } else {
                 // Check if the data we have seen so far is invalid
-                return if !is_valid_chunked_length_data(data) {
+                let mut buffered = self.request_buf.clone();
+                buffered.add(data);
+                return if !is_valid_chunked_length_data(&buffered) {
                     // Contains leading junk non hex_ascii data
                     // Invalid chunk length
                     htp_error!(
-- 
2.43.0


From 47ffc2cd2f639afbc43a4879e5770af6c37f9a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:12 +0000
Subject: [PATCH 02/38] fix: do not buffer the bytes between request chunk data
 and LF

A chunk-data CRLF split between CR and LF left the CR in the buffer, where
it was prepended to the next chunk-length line.
---
 src/request.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/request.rs b/src/request.rs
index ce40bbb..aa5bf90 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -336,8 +336,10 @@ impl ConnectionParser {
             self.request_state = State::BODY_CHUNKED_LENGTH;
             Ok(())
         } else {
+            // Advance to end. Dont need to buffer
             req.request_message_len = req.request_message_len.wrapping_add(input.len() as u64);
-            self.handle_request_absent_lf(input)
+            self.request_data_consume(input, input.len());
+            Err(HtpStatus::DATA_BUFFER)
         }
     }
 
-- 
2.43.0


From 06aeff0c9863719a347ddfc790b02be7be4f083a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:12 +0000
Subject: [PATCH 03/38] fix: request head terminator split between CR and LF

The byte after the terminator was consumed with it, or what follows the
empty line was parsed as a header.
---
 src/request.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index aa5bf90..44e2e8f 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -578,10 +578,14 @@ impl ConnectionParser {
             data
         };
 
-        let (remaining, eoh) = self.parse_request_headers(data2)?;
         //TODO: Update the request state machine so that we don't have to have this EOL check
-        let eol = remaining.len() == data2.len()
-            && (remaining.starts_with(b"\r\n") || remaining.starts_with(b"\n"));
+        let eol = data2.starts_with(b"\r\n") || data2.starts_with(b"\n");
+        let (remaining, eoh) = if eol {
+            // What follows the empty line is not a header
+            (data2, false)
+        } else {
+            self.parse_request_headers(data2)?
+        };
         if eoh
             //If the input started with an EOL, we assume this is the end of the headers
             || eol
@@ -589,11 +593,10 @@ impl ConnectionParser {
             if remaining.len() < data.len() {
                 self.request_data_consume(input, data.len() - remaining.len());
             } else if eol {
-                if remaining.starts_with(b"\r\n") {
-                    self.request_data_consume(input, min(data.len(), 2));
-                } else if remaining.starts_with(b"\n") {
-                    self.request_data_consume(input, min(data.len(), 1));
-                }
+                let eol_len: usize = if remaining.starts_with(b"\r\n") { 2 } else { 1 };
+                // Part of the EOL may have been seen at the end of the previous data chunk.
+                let buffered_len = data2.len() - data.len();
+                self.request_data_consume(input, eol_len.saturating_sub(buffered_len));
             }
             // We've seen all the request headers.
             self.state_request_headers(input)
-- 
2.43.0


From e7cf1963121eceae1a4a14104829bda6642a32b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:12 +0000
Subject: [PATCH 04/38] fix: response chunk length lines split over several
 data chunks

---
 src/response.rs | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 5a05a8d..1697631 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -184,11 +184,9 @@ impl ConnectionParser {
     pub fn response_body_chunked_length(&mut self, input: &mut ParserData) -> Result<()> {
         let mut data = input.as_slice();
         loop {
-            let resp = self.response_mut();
-            if resp.is_none() {
+            if self.response_mut().is_none() {
                 return Err(HtpStatus::ERROR);
             }
-            let resp = resp.unwrap();
 
             match take_till_lf(data) {
                 Ok((remaining, line)) => {
@@ -196,21 +194,20 @@ impl ConnectionParser {
                     if !self.response_buf.is_empty() {
                         self.check_response_buffer_limit(line.len())?;
                     }
-                    if is_chunked_ctl_line(line) {
-                        let resp = self.response_mut().unwrap();
-                        resp.response_message_len =
-                            (resp.response_message_len).wrapping_add(line.len() as u64);
+                    // The line starts with whatever was buffered from previous data chunks.
+                    let mut buffered = take(&mut self.response_buf);
+                    let buffered_len = buffered.len();
+                    buffered.add(line);
+                    let resp = self.response_mut().unwrap();
+                    resp.response_message_len =
+                        (resp.response_message_len).wrapping_add(buffered.len() as u64);
+                    if is_chunked_ctl_line(&buffered) {
                         //Empty chunk len. Try to continue parsing.
                         data = remaining;
                         continue;
                     }
-                    let mut data = self.response_buf.clone();
-                    data.add(line);
-                    let resp = self.response_mut().unwrap();
-                    resp.response_message_len =
-                        (resp.response_message_len).wrapping_add(data.len() as u64);
 
-                    match parse_chunked_length(&data) {
+                    match parse_chunked_length(&buffered) {
                         Ok((len, ext)) => {
                             self.response_chunked_length = len;
                             if ext {
@@ -250,6 +247,10 @@ impl ConnectionParser {
                                 HtpLogCode::INVALID_RESPONSE_CHUNK_LEN,
                                 "Response chunk encoding: Invalid chunk length"
                             );
+                            // nor the bytes of the line seen in previous data chunks
+                            if buffered_len > 0 {
+                                self.response_body_data(Some(&buffered[..buffered_len]))?;
+                            }
                         }
                     }
 
@@ -257,8 +258,12 @@ impl ConnectionParser {
                 }
                 _ => {
                     // Check if the data we have seen so far is invalid
-                    if !is_valid_chunked_length_data(data) {
+                    let mut buffered = self.response_buf.clone();
+                    let buffered_len = buffered.len();
+                    buffered.add(data);
+                    if !is_valid_chunked_length_data(&buffered) {
                         // Contains leading junk non hex_ascii data
+                        let resp = self.response_mut().unwrap();
                         resp.response_transfer_coding = HtpTransferCoding::IDENTITY;
                         self.response_state = State::BODY_IDENTITY_STREAM_CLOSE;
                         htp_error!(
@@ -266,6 +271,10 @@ impl ConnectionParser {
                             HtpLogCode::INVALID_RESPONSE_CHUNK_LEN,
                             "Response chunk encoding: Invalid chunk length"
                         );
+                        self.response_buf.clear();
+                        if buffered_len > 0 {
+                            self.response_body_data(Some(&buffered[..buffered_len]))?;
+                        }
                         return Ok(());
                     } else {
                         return self.handle_response_absent_lf(input);
-- 
2.43.0


From ede668980b50a05e2789c448b8a0136901841907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:12 +0000
Subject: [PATCH 05/38] fix: response line whose end of line is split over data
 chunks

---
 src/response.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 1697631..612a45c 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -641,14 +641,17 @@ impl ConnectionParser {
     /// Returns HtpStatus::OK on state change, HtpStatus::ERROR on error, or HtpStatus::DATA
     /// when more data is needed.
     pub fn response_line(&mut self, input: &ParserData) -> Result<()> {
-        match take_till_eol(input.as_slice()) {
+        // The end of the line may have started in the buffered data.
+        let buf_len = self.response_buf.len();
+        let mut data = self.response_buf.clone();
+        data.add(input.as_slice());
+        match take_till_eol(data.as_slice()) {
             Ok((_, (line, _))) => {
                 // We have a line ending, so consume the input
                 // and grab any buffered data.
-                let mut data = take(&mut self.response_buf);
-                data.add(line);
-                self.response_data_consume(input, line.len());
-                self.response_line_complete(data.as_slice(), input)
+                self.response_buf.clear();
+                self.response_data_consume(input, line.len().saturating_sub(buf_len));
+                self.response_line_complete(line, input)
             }
             _ => {
                 if self.response_status == HtpStreamState::CLOSED {
-- 
2.43.0


From 201211dd5896cc598350e271c9f4a25f975dfd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:12 +0000
Subject: [PATCH 06/38] fix: finalize raw header data of a 100 response

The header data receiver was left attached, so that the bytes delivered
depended on how the stream was cut.
---
 src/response.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/response.rs b/src/response.rs
index 612a45c..dba83fc 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -455,6 +455,8 @@ impl ConnectionParser {
                             "Already seen 100-Continue."
                         );
                     }
+                    // Finalize sending raw header data.
+                    self.response_receiver_finalize_clear(input)?;
                     // Expecting to see another response line next.
                     self.response_state = State::LINE;
                     let response_tx = self.response_mut().unwrap();
-- 
2.43.0


From d6710fcf0a2d8bf6597d6e86c5d8f73162ecc2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:12 +0000
Subject: [PATCH 07/38] fix: response head terminator split between CR and LF

A body starting with whitespace was then parsed as a header.
---
 src/response.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index dba83fc..532b284 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -972,14 +972,22 @@ impl ConnectionParser {
             self.response_state = State::FINALIZE;
             return Ok(());
         }
+        let mut buffered_len = 0;
         let response_header = if let Some(mut response_header) = self.response_header.take() {
+            buffered_len = response_header.len();
             response_header.add(input.as_slice());
             response_header
         } else {
             Bstr::from(input.as_slice())
         };
 
-        let (remaining, eoh) = self.parse_response_headers(response_header.as_slice())?;
+        // An EOL that started in the previous data chunk ends the headers: what follows is not a header
+        let split_eol = buffered_len == 1 && response_header.starts_with("\r\n");
+        let (remaining, eoh) = if split_eol {
+            (&response_header[2..], true)
+        } else {
+            self.parse_response_headers(response_header.as_slice())?
+        };
         //TODO: Update the response state machine so that we don't have to have this EOL check
         let eol = remaining.len() == response_header.len()
             && (remaining.eq(b"\r\n") || remaining.eq(b"\n"));
-- 
2.43.0


From 2bed22f091b5198f8d449143bb0ff88ddf17d1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:12 +0000
Subject: [PATCH 08/38] fix: the empty line ends the headers, nothing after it
 belongs to it

Body bytes that look like an empty fold (whitespace, EOL) were swallowed as
part of the header terminator.
---
 src/headers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/headers.rs b/src/headers.rs
index 8bd193e..4376736 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -463,7 +463,7 @@ impl Parser {
             if is_null_terminated {
                 return Ok((rest, (out, true)));
             }
-            if let Ok((rest, _eoh)) = self.complete_eol()(rest) {
+            if let Ok((rest, _eoh)) = self.complete_eol_regular()(rest) {
                 return Ok((rest, (out, true)));
             }
             let mut i = rest;
@@ -477,7 +477,7 @@ impl Parser {
                         if is_null_terminated {
                             return Ok((rest, (out, true)));
                         }
-                        if let Ok((rest, _eoh)) = self.complete_eol()(rest) {
+                        if let Ok((rest, _eoh)) = self.complete_eol_regular()(rest) {
                             return Ok((rest, (out, true)));
                         }
                     }
-- 
2.43.0


From 4cfa0aeefb703b1304826f65e409fa9479d161e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:38 +0000
Subject: [PATCH 09/38] fix: response head or trailer without headers ends at
 its empty line

A 100 response without headers, or a chunked body without trailer, followed by
more data in the same chunk was buffered until close and the following
response lost.
---
 src/response.rs | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 532b284..0ae3f88 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -972,31 +972,33 @@ impl ConnectionParser {
             self.response_state = State::FINALIZE;
             return Ok(());
         }
-        let mut buffered_len = 0;
         let response_header = if let Some(mut response_header) = self.response_header.take() {
-            buffered_len = response_header.len();
             response_header.add(input.as_slice());
             response_header
         } else {
             Bstr::from(input.as_slice())
         };
 
-        // An EOL that started in the previous data chunk ends the headers: what follows is not a header
-        let split_eol = buffered_len == 1 && response_header.starts_with("\r\n");
-        let (remaining, eoh) = if split_eol {
-            (&response_header[2..], true)
+        //TODO: Update the response state machine so that we don't have to have this EOL check
+        // If the data starts with an EOL this is the end of headers: what follows is not a header
+        let eol = response_header.starts_with("\r\n") || response_header.starts_with("\n");
+        let (remaining, eoh) = if eol {
+            let eol_len: usize = if response_header[0] == b'\r' { 2 } else { 1 };
+            let remaining = &response_header[eol_len..];
+            // Stray line endings after the trailer belong to nothing
+            if self.response().map(|resp| resp.response_progress)
+                == Some(HtpResponseProgress::TRAILER)
+                && remaining.iter().all(|c| *c == b'\r' || *c == b'\n')
+            {
+                (&remaining[remaining.len()..], true)
+            } else {
+                (remaining, true)
+            }
         } else {
             self.parse_response_headers(response_header.as_slice())?
         };
-        //TODO: Update the response state machine so that we don't have to have this EOL check
-        let eol = remaining.len() == response_header.len()
-            && (remaining.eq(b"\r\n") || remaining.eq(b"\n"));
-        // If remaining is EOL or header parsing saw EOH this is end of headers
-        if eoh || eol {
-            if eol {
-                //Consume the EOL so it isn't included in data processing
-                self.response_data_consume(input, input.len());
-            } else if remaining.len() <= input.len() {
+        if eoh {
+            if remaining.len() <= input.len() {
                 self.response_data_consume(input, input.len() - remaining.len());
             }
             // We've seen all response headers. At terminator.
-- 
2.43.0


From 1df68c2a1ae9f544cd8423164462b60c9a84dbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:36 +0000
Subject: [PATCH 10/38] fix: transaction complete is reported exactly once
 after a failed CONNECT

The transaction was finalized only when the response parser was called again,
so that the hook ran twice, or not at all when the connection was closed.
---
 src/connection_parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/connection_parser.rs b/src/connection_parser.rs
index 958ec12..97dd276 100644
--- a/src/connection_parser.rs
+++ b/src/connection_parser.rs
@@ -912,12 +912,12 @@ impl ConnectionParser {
             self.response_receiver_finalize_clear(input)?;
         }
         // Check if we want to signal the caller to send request data
-        self.request_parser_check_waiting()?;
-        // Otherwise finalize the transaction
+        let rc = self.request_parser_check_waiting();
+        // Finalize the transaction
         self.finalize(response_index)?;
         self.response_next();
         self.response_state = State::IDLE;
-        Ok(())
+        rc
     }
 
     /// Check if we had previously signalled the caller to give us response
-- 
2.43.0


From 813f52ebdf9329d29018c1c18c02081ca32522f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:05 +0000
Subject: [PATCH 11/38] fix: a request_start callback returning STOP or ERROR
 ends the stream

---
 src/request.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 44e2e8f..b77bb10 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -1434,9 +1434,7 @@ impl ConnectionParser {
         }
         self.request_reset();
         // Change state to TRANSACTION_START
-        // Ignore the result.
-        let _ = self.state_request_start();
-        Ok(())
+        self.state_request_start()
     }
 
     /// Buffer incomplete request data and verify that field_limit
-- 
2.43.0


From 5d67639bd1a7a8a8e05288ceccaedee84af60da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:17 +0000
Subject: [PATCH 12/38] fix: decoding an invalid hex escape does not overflow

---
 src/urlencoded.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/urlencoded.rs b/src/urlencoded.rs
index 744983b..8784c58 100644
--- a/src/urlencoded.rs
+++ b/src/urlencoded.rs
@@ -164,16 +164,16 @@ fn name_value(input: &[u8]) -> IResult<&[u8], &[u8]> {
 fn x2c(input: &[u8]) -> IResult<&[u8], u8> {
     let (input, (c1, c2)) = tuple((be_u8, be_u8))(input)?;
     let mut decoded_byte = if c1 >= b'A' {
-        ((c1 & 0xdf) - b'A') + 10
+        (c1 & 0xdf).wrapping_sub(b'A').wrapping_add(10)
     } else {
-        c1 - b'0'
+        c1.wrapping_sub(b'0')
     };
     decoded_byte = (decoded_byte as i32 * 16) as u8;
-    decoded_byte += if c2 >= b'A' {
-        ((c2 & 0xdf) - b'A') + 10
+    decoded_byte = decoded_byte.wrapping_add(if c2 >= b'A' {
+        (c2 & 0xdf).wrapping_sub(b'A').wrapping_add(10)
     } else {
-        c2 - b'0'
-    };
+        c2.wrapping_sub(b'0')
+    });
     Ok((input, decoded_byte))
 }
 
-- 
2.43.0


From 339e6ea8f7bbd57e42f3b06e3640beaf49150887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:28 +0000
Subject: [PATCH 13/38] fix: a path's expected status survives the bytes that
 follow the offending one

---
 src/urlencoded.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/urlencoded.rs b/src/urlencoded.rs
index 8784c58..4a1f8c1 100644
--- a/src/urlencoded.rs
+++ b/src/urlencoded.rs
@@ -356,7 +356,7 @@ fn path_decode_invalid_hex(
         let mut byte = b'%';
         // Invalid encoding
         let flags = HtpFlags::PATH_INVALID_ENCODING;
-        let expected_status_code = cfg.url_encoding_invalid_unwanted;
+        let mut expected_status_code = cfg.url_encoding_invalid_unwanted;
         if cfg.url_encoding_invalid_handling == HtpUrlEncodingHandling::REMOVE_PERCENT {
             // Do not place anything in output; consume the %.
             return Ok((remaining_input, (byte, expected_status_code, flags, false)));
@@ -366,7 +366,10 @@ fn path_decode_invalid_hex(
             remaining = left;
             byte = b;
         }
-        let (byte, expected_status_code) = path_decode_control(byte, cfg);
+        let (byte, code) = path_decode_control(byte, cfg);
+        if code != HtpUnwanted::IGNORE {
+            expected_status_code = code;
+        }
         Ok((remaining, (byte, expected_status_code, flags, true)))
     }
 }
@@ -500,7 +503,9 @@ fn path_decode_uri<'a>(
                 }
             }
             acc.1.set(flag);
-            acc.2 = code;
+            if code != HtpUnwanted::IGNORE {
+                acc.2 = code;
+            }
             acc
         },
     )(input)
@@ -519,7 +524,9 @@ pub fn path_decode_uri_inplace(
     {
         path.clear();
         path.add(consumed.as_slice());
-        *status = expected_status_code;
+        if expected_status_code != HtpUnwanted::IGNORE {
+            *status = expected_status_code;
+        }
         flag.set(flags);
     }
 }
-- 
2.43.0


From 8107871b2cacabb92d6f6d23cbfb3a4ef919456b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:39 +0000
Subject: [PATCH 14/38] fix: a parameter's expected status survives the
 parameters that follow it

---
 src/urlencoded.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/urlencoded.rs b/src/urlencoded.rs
index 4a1f8c1..7d03ee2 100644
--- a/src/urlencoded.rs
+++ b/src/urlencoded.rs
@@ -108,7 +108,9 @@ impl Parser {
                         decode_uri(name.as_slice(), &self.cfg)
                     {
                         self.flags.set(flags);
-                        self.response_status_expected_number = expected_status;
+                        if expected_status != HtpUnwanted::IGNORE {
+                            self.response_status_expected_number = expected_status;
+                        }
                         name.clear();
                         name.add(consumed);
                     }
@@ -116,7 +118,9 @@ impl Parser {
                         decode_uri(value.as_slice(), &self.cfg)
                     {
                         self.flags.set(flags);
-                        self.response_status_expected_number = expected_status;
+                        if expected_status != HtpUnwanted::IGNORE {
+                            self.response_status_expected_number = expected_status;
+                        }
                         value.clear();
                         value.add(consumed);
                     }
-- 
2.43.0


From 8c258d15e340b8e4602905ae43d910520df71777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:12 +0000
Subject: [PATCH 15/38] fix: a port number consists of digits only

---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 30d8648..1643d2c 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -374,7 +374,7 @@ pub fn is_line_ignorable(server_personality: HtpServerPersonality, data: &[u8])
 ///
 /// Returns port number if a valid one is found. None if fails to convert or the result is 0
 pub fn convert_port(port: &[u8]) -> Option<u16> {
-    if port.is_empty() {
+    if port.is_empty() || !port.iter().all(|c| c.is_ascii_digit()) {
         return None;
     }
     let port_number = std::str::from_utf8(port).ok()?.parse::<u16>().ok()?;
-- 
2.43.0


From 55671ec45ab216b5625d6eef9a5e7242082f5ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:22 +0000
Subject: [PATCH 16/38] fix: URI credentials do not reach past the authority

---
 src/parsers.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index 3e29204..a0e7b79 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -137,8 +137,13 @@ pub fn credentials() -> impl Fn(&[u8]) -> IResult<&[u8], ParsedCredentials> {
         // Authority test: two forward slash characters and it's an authority.
         // One, three or more slash characters, and it's a path.
         // Note: we only attempt to parse authority if we've seen a scheme.
-        let (input, (_, _, credentials, _)) =
-            tuple((tag("//"), peek(not(tag("/"))), take_until("@"), tag("@")))(input)?;
+        // The credentials are a part of the authority, which ends with the first '/', '?' or '#'.
+        let (input, (_, _, credentials, _)) = tuple((
+            tag("//"),
+            peek(not(tag("/"))),
+            take_while(|c: u8| !b"@/?#".contains(&c)),
+            tag("@"),
+        ))(input)?;
         let (password, username) = opt(tuple((take_until(":"), tag(":"))))(credentials)?;
         if let Some((username, _)) = username {
             Ok((input, (username, Some(password))))
-- 
2.43.0


From dfdc9b0c105b16e4f5d4921e65bbe8e898084681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:32 +0000
Subject: [PATCH 17/38] fix: an empty port does not become a part of the URI
 path

---
 src/uri.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/uri.rs b/src/uri.rs
index f61a6ab..29ba3c3 100644
--- a/src/uri.rs
+++ b/src/uri.rs
@@ -7,7 +7,7 @@ use crate::{
     utf8_decoder::decode_and_validate_inplace,
     util::{convert_port, FlagOperations, HtpFlags},
 };
-use nom::{combinator::opt, sequence::tuple};
+use nom::{bytes::complete::tag, combinator::opt, sequence::tuple};
 
 /// URI structure. Each of the fields provides access to a single
 /// URI element. Where an element is not present in a URI, the
@@ -184,7 +184,8 @@ impl Uri {
             opt(tuple((
                 scheme(),
                 opt(credentials()),
-                opt(tuple((hostname(), opt(port())))),
+                // A port may be empty, in which case there is nothing but the colon.
+                opt(tuple((hostname(), opt(port()), opt(tag(":"))))),
             ))),
             opt(path()),
             opt(query()),
@@ -208,7 +209,7 @@ impl Uri {
                         self.password = Some(Bstr::from(password));
                     }
                 }
-                if let Some((hostname, port)) = hostname_port {
+                if let Some((hostname, port, _)) = hostname_port {
                     self.hostname = Some(Bstr::from(hostname));
                     if let Some(port) = port {
                         self.port = Some(Bstr::from(port));
-- 
2.43.0


From 2abb42b496d186eba63a6139dbf4b4e95db5c418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:56 +0000
Subject: [PATCH 18/38] fix: a URI fragment after an empty query is not lost

---
 src/uri.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/uri.rs b/src/uri.rs
index 29ba3c3..3a9ba0f 100644
--- a/src/uri.rs
+++ b/src/uri.rs
@@ -189,9 +189,11 @@ impl Uri {
             ))),
             opt(path()),
             opt(query()),
+            // An empty query leaves its question mark behind.
+            opt(tag("?")),
             opt(fragment()),
         ))(input);
-        if let Ok((_, (scheme_authority, path, query, fragment))) = res {
+        if let Ok((_, (scheme_authority, path, query, _, fragment))) = res {
             if let Some(path) = path {
                 self.path = Some(Bstr::from(path));
             }
-- 
2.43.0


From 9cbf930139a850327fafe33741de7294616c0032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:53 +0000
Subject: [PATCH 19/38] fix: bytes outside ASCII do not make a valid hostname

---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 1643d2c..5b796bc 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -432,7 +432,7 @@ pub fn validate_hostname(input: &[u8]) -> bool {
         // According to the RFC, an underscore it not allowed in the label, but
         // we allow it here because we think it's often seen in practice.
         if take_while_m_n::<_, _, NomError<&[u8]>>(section.len(), section.len(), |c| {
-            c == b'_' || c == b'-' || (c as char).is_alphanumeric()
+            c == b'_' || c == b'-' || c.is_ascii_alphanumeric()
         })(section)
         .is_err()
         {
-- 
2.43.0


From 53dd13b209c2402e4a9d95244fe4047842870421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:02 +0000
Subject: [PATCH 20/38] fix: an empty or unparsable Host header is flagged as
 invalid

---
 src/transaction.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/transaction.rs b/src/transaction.rs
index 070c1d4..24720d7 100644
--- a/src/transaction.rs
+++ b/src/transaction.rs
@@ -875,10 +875,13 @@ impl Transaction {
                         }
                     }
                 }
-            } else if self.request_hostname.is_some() {
+            } else {
                 // Invalid host information in the headers.
-                // Raise the flag, even though the host information in the headers is invalid.
-                self.flags.set(HtpFlags::HOST_AMBIGUOUS)
+                self.flags.set(HtpFlags::HOSTH_INVALID);
+                if self.request_hostname.is_some() {
+                    // Raise the flag, even though the host information in the headers is invalid.
+                    self.flags.set(HtpFlags::HOST_AMBIGUOUS)
+                }
             }
         } else {
             // No host information in the headers.
-- 
2.43.0


From 2666892467c2f0b9e2cc5bfbc95d6757539ded07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:27 +0000
Subject: [PATCH 21/38] fix: a Content-Type header without a type does not end
 the stream

---
 src/transaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transaction.rs b/src/transaction.rs
index 24720d7..0542813 100644
--- a/src/transaction.rs
+++ b/src/transaction.rs
@@ -892,7 +892,7 @@ impl Transaction {
         }
         // Determine Content-Type.
         if let Some(ct) = self.request_headers.get_nocase_nozero("content-type") {
-            self.request_content_type = Some(parse_content_type(ct.value.as_slice())?);
+            self.request_content_type = parse_content_type(ct.value.as_slice()).ok();
         }
         // Parse authentication information.
         if self.cfg.parse_request_auth {
-- 
2.43.0


From e103b1daf9d5ef5a052be22a0c1b2159992651a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:01 +0000
Subject: [PATCH 22/38] fix: data after the port makes a host header invalid

---
 src/parsers.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index a0e7b79..78e9c97 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -294,7 +294,11 @@ type parsed_hostport<'a> = (&'a [u8], parsed_port<'a>, bool);
 pub fn parse_hostport(input: &[u8]) -> IResult<&[u8], parsed_hostport> {
     let (input, host) = hostname()(input)?;
     let mut valid = validate_hostname(host);
-    if let Ok((_, p)) = port()(input) {
+    if let Ok((trailing, p)) = port()(input) {
+        if !trailing.is_empty() {
+            //Trailing data after the port that is invalid e.g. www.example.com:80/xxxxx
+            valid = false;
+        }
         if let Some(port) = convert_port(p) {
             return Ok((input, (host, Some((p, Some(port))), valid)));
         } else {
-- 
2.43.0


From 5785f463a449fc84c907e7a0ad97f9df0562daf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:08 +0000
Subject: [PATCH 23/38] fix: a header with an empty name is not one without a
 colon

---
 src/request.rs  | 2 +-
 src/response.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index b77bb10..a365157 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -814,7 +814,7 @@ impl ConnectionParser {
                     );
                 }
                 // No colon?
-                if name_flags.is_set(HeaderFlags::MISSING_COLON) {
+                if name_flags & HeaderFlags::MISSING_COLON == HeaderFlags::MISSING_COLON {
                     // Log only once per transaction.
                     // We handle this case as a header with an empty name, with the value equal
                     // to the entire input string.
diff --git a/src/response.rs b/src/response.rs
index 0ae3f88..2eba622 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -849,7 +849,7 @@ impl ConnectionParser {
                     );
                 }
                 // No colon?
-                if name_flags.is_set(HeaderFlags::MISSING_COLON) {
+                if name_flags & HeaderFlags::MISSING_COLON == HeaderFlags::MISSING_COLON {
                     // We handle this case as a header with an empty name, with the value equal
                     // to the entire input string.
                     // TODO Apache will respond to this problem with a 400.
-- 
2.43.0


From e44ccdf21b76f3fb6eef8c6ffa1b83e2f1e3a9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:17 +0000
Subject: [PATCH 24/38] fix: mark folded headers, so that a folded
 Content-Length is noticed

---
 src/request.rs  | 3 +++
 src/response.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/request.rs b/src/request.rs
index a365157..29852e4 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -775,6 +775,9 @@ impl ConnectionParser {
             for h in headers {
                 let mut flags = 0;
                 let name_flags = h.name.flags;
+                if h.value.flags.is_set(HeaderFlags::FOLDING) {
+                    flags.set(HtpFlags::FIELD_FOLDED);
+                }
                 // Ignore LWS after field-name.
                 if name_flags.is_set(HeaderFlags::NAME_TRAILING_WHITESPACE) {
                     // Log only once per transaction.
diff --git a/src/response.rs b/src/response.rs
index 2eba622..52a4472 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -804,6 +804,9 @@ impl ConnectionParser {
                 let mut flags = 0;
                 let name_flags = &h.name.flags;
                 let value_flags = &h.value.flags;
+                if value_flags.is_set(HeaderFlags::FOLDING) {
+                    flags.set(HtpFlags::FIELD_FOLDED);
+                }
                 if value_flags.is_set(HeaderFlags::DEFORMED_EOL)
                     || name_flags.is_set(HeaderFlags::DEFORMED_EOL)
                 {
-- 
2.43.0


From 37079aeab721712feaa87211b0a7f3d4e9f748ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:27 +0000
Subject: [PATCH 25/38] fix: count and consume a gap in a response body that
 ends with the stream

A gap in an identity body of known length is added to response_message_len and
consumed; in a body delimited by the end of the stream it was neither.
---
 src/response.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index 52a4472..2adc6a9 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -341,8 +341,12 @@ impl ConnectionParser {
             if resp.is_none() {
                 return Err(HtpStatus::ERROR);
             }
-            let mut tx_data = Data::new(resp.unwrap(), data);
+            let resp = resp.unwrap();
+            resp.response_message_len = resp.response_message_len.wrapping_add(data.len() as u64);
+            let mut tx_data = Data::new(resp, data);
             self.response_run_hook_body_data(&mut tx_data)?;
+            // Adjust the counters.
+            self.response_data_consume(data, data.len());
         } else if !data.is_empty() {
             // Consume all data from the input buffer.
             self.response_body_data(data.data())?;
-- 
2.43.0


From c83f9c438ae61df50c2c8c257c3e51445ce83f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:36 +0000
Subject: [PATCH 26/38] fix: accept a gap that ends exactly with the message
 body

When the gap filled the body to its last byte, the message was completed and the
empty remainder of the gap was then refused in the idle state: the call returned
CLOSED and logged an invalid gap, although nothing of the gap was left over.
---
 src/request.rs  | 1 +
 src/response.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/request.rs b/src/request.rs
index 29852e4..8484c33 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -1549,6 +1549,7 @@ impl ConnectionParser {
         {
             // handle gap
             if chunk.is_gap()
+                && !chunk.is_empty()
                 && self.request_state != State::BODY_IDENTITY
                 && self.request_state != State::IGNORE_DATA_AFTER_HTTP_0_9
                 && self.request_state != State::FINALIZE
diff --git a/src/response.rs b/src/response.rs
index 2adc6a9..995af59 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1575,6 +1575,7 @@ impl ConnectionParser {
         // keep quiet here.
         {
             if chunk.is_gap()
+                && !chunk.is_empty()
                 && self.response_state != State::BODY_IDENTITY_CL_KNOWN
                 && self.response_state != State::BODY_IDENTITY_STREAM_CLOSE
                 && self.response_state != State::FINALIZE
-- 
2.43.0


From cfc36fa27b54e7393f2d40a3c33e251d6b7162f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:00 +0000
Subject: [PATCH 27/38] fix: keep half a gzip header field when the data is cut
 inside it

When a chunk ended between the two bytes of XLEN or of the header CRC, the first
of them was left unconsumed, offered again alone, and then taken for data after
the end of the stream and dropped, so the rest of the header was misread and the
body was not decompressed.
---
 src/decompressors.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/decompressors.rs b/src/decompressors.rs
index b533eef..1d07053 100644
--- a/src/decompressors.rs
+++ b/src/decompressors.rs
@@ -422,6 +422,8 @@ struct GzipBufWriter {
     buffer: Vec<u8>,
     flags: u8,
     xlen: u16,
+    /// First byte of a two-byte field (xlen, crc) that was cut in half.
+    half: Option<u8>,
     inner: flate2::write::DeflateDecoder<Cursor<Box<[u8]>>>,
     state: GzState,
 }
@@ -432,6 +434,7 @@ impl GzipBufWriter {
             buffer: Vec::with_capacity(10),
             flags: 0,
             xlen: 0,
+            half: None,
             inner: flate2::write::DeflateDecoder::new(buf),
             state: GzState::Start,
         }
@@ -462,6 +465,12 @@ impl Write for GzipBufWriter {
         let (mut parse, direct) = if !self.buffer.is_empty() && self.state == GzState::Start {
             self.buffer.extend_from_slice(data);
             (self.buffer.as_ref(), false)
+        } else if let (Some(half), false) = (self.half, data.is_empty()) {
+            self.half = None;
+            self.buffer.clear();
+            self.buffer.push(half);
+            self.buffer.extend_from_slice(data);
+            (self.buffer.as_ref(), false)
         } else {
             (data, true)
         };
@@ -495,6 +504,11 @@ impl Write for GzipBufWriter {
                                 self.xlen = xlen;
                             }
                             Err(nom::Err::Incomplete(_)) => {
+                                if parse.len() == 1 && data.len() == 1 {
+                                    // there is nothing else to consume: keep it
+                                    self.half = Some(data[0]);
+                                    return Ok(1);
+                                }
                                 return Ok(data.len() - parse.len());
                             }
                             Err(_) => {
@@ -570,6 +584,11 @@ impl Write for GzipBufWriter {
                                 parse = rest;
                             }
                             Err(nom::Err::Incomplete(_)) => {
+                                if parse.len() == 1 && data.len() == 1 {
+                                    // there is nothing else to consume: keep it
+                                    self.half = Some(data[0]);
+                                    return Ok(1);
+                                }
                                 return Ok(data.len() - parse.len());
                             }
                             Err(_) => {
-- 
2.43.0


From fef1deeec6f2e37d484e4e88978a4734dc118684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:03 +0000
Subject: [PATCH 28/38] fix: give the next decoder what the wrong one has
 already consumed

When the decoder named by Content-Encoding fails, the next one is tried, but only
on the current chunk: a zlib stream labelled deflate (which is what deflate means)
was not decompressed when it was cut within its first bytes, because the raw
deflate decoder had consumed them before it noticed. Keep the first bytes until
there is output, and start the next decoder with them.
---
 src/decompressors.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/decompressors.rs b/src/decompressors.rs
index 1d07053..cafc345 100644
--- a/src/decompressors.rs
+++ b/src/decompressors.rs
@@ -6,6 +6,10 @@ use std::{
 /// Buffer compression output to this chunk size.
 const ENCODING_CHUNK_SIZE: usize = 8192;
 
+/// Number of bytes within which the wrong decoder is noticed (a gzip header is
+/// longer).
+const PROBE_SIZE: usize = 9;
+
 /// Default LZMA dictionary memory limit in bytes.
 const DEFAULT_LZMA_MEMLIMIT: usize = 1_048_576;
 /// Default number of LZMA layers to pass to the decompressor.
@@ -713,6 +717,9 @@ struct InnerDecompressor {
     passthrough: bool,
     /// Tracks the number of restarts
     restarts: u8,
+    /// First bytes the writer has consumed, as long as it has not output anything.
+    /// After a restart, they are given to the next writer.
+    probe: Option<Vec<u8>>,
     /// Options for decompression
     options: Options,
 }
@@ -768,6 +775,7 @@ impl InnerDecompressor {
             writer: Some(writer),
             passthrough,
             restarts: 0,
+            probe: Some(Vec::new()),
             options,
         })
     }
@@ -800,6 +808,9 @@ impl InnerDecompressor {
                 // Flush all of the bytes the writer has written to our temporary
                 // buffer of fixed size.
                 if let Some(cursor) = writer.get_mut() {
+                    if cursor.position() > 0 {
+                        self.probe = None;
+                    }
                     inner.write_all(&cursor.get_ref()[0..cursor.position() as usize])?;
                     cursor.set_position(0);
                 }
@@ -853,6 +864,12 @@ impl Write for InnerDecompressor {
                         // we pretend to have consumed this data.
                         Ok(data.len())
                     } else {
+                        match &mut self.probe {
+                            Some(probe) if probe.len() + consumed <= PROBE_SIZE => {
+                                probe.extend_from_slice(&data[..consumed])
+                            }
+                            _ => self.probe = None,
+                        }
                         Ok(consumed)
                     };
                     self.writer.replace(writer);
@@ -870,13 +887,16 @@ impl Write for InnerDecompressor {
                         _ => {
                             // try to restart, any data in the temp buffer will be
                             // discarded
+                            let mut all = self.probe.replace(Vec::new()).unwrap_or_default();
+                            all.extend_from_slice(data);
                             if self.restart().is_err() {
-                                self.try_passthrough(data)
+                                self.try_passthrough(&all)?;
                             } else {
                                 // Recursion: restart will fail after a small
                                 // number of attempts
-                                self.write(data)
+                                self.write_all(&all)?;
                             }
+                            Ok(data.len())
                         }
                     }
                 }
-- 
2.43.0


From a759336abb250b23e76226340224fb324037b3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:52 +0000
Subject: [PATCH 29/38] fix: do not use a stale pointer when a parser is moved
 during a compressed body

The callback of a decompressor kept the address the parser had when the headers
were processed. Moving the parser afterwards (returning it, putting it in a Box or
a Vec) made the next body chunk a use after free from safe code. Record the
address before each run of the decompressors instead.
---
 src/connection_parser.rs |  5 +++++
 src/request.rs           | 10 +++++++---
 src/response.rs          | 10 +++++++---
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/connection_parser.rs b/src/connection_parser.rs
index 97dd276..b17b50f 100644
--- a/src/connection_parser.rs
+++ b/src/connection_parser.rs
@@ -351,6 +351,10 @@ pub struct ConnectionParser {
     /// The hook that should be receiving raw connection data.
     pub response_data_receiver_hook: Option<DataHook>,
 
+    /// Where this parser is while its decompressors run, for their callbacks. The
+    /// parser can be moved between calls.
+    pub(crate) decompress_target: Rc<Cell<*mut ConnectionParser>>,
+
     /// Transactions processed by this parser
     transactions: Transactions,
 }
@@ -402,6 +406,7 @@ impl ConnectionParser {
             response_state: State::IDLE,
             response_state_previous: State::NONE,
             response_data_receiver_hook: None,
+            decompress_target: Rc::new(Cell::new(std::ptr::null_mut())),
             transactions: Transactions::new(&cfg, &logger),
         }
     }
diff --git a/src/request.rs b/src/request.rs
index 8484c33..178a8e5 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -22,6 +22,7 @@ use nom::sequence::tuple;
 use std::{
     cmp::{min, Ordering},
     mem::take,
+    rc::Rc,
 };
 use time::OffsetDateTime;
 
@@ -1011,6 +1012,9 @@ impl ConnectionParser {
     /// Returns HtpStatus::OK on success or HtpStatus::ERROR if the request transaction
     /// is invalid or response body data hook fails.
     pub fn request_body_data(&mut self, data: Option<&[u8]>) -> Result<()> {
+        // The parser may have been moved since the decompressors were set up.
+        let target: *mut Self = self;
+        self.decompress_target.set(target);
         // None data is used to indicate the end of request body.
         // Keep track of body size before decompression.
         let req = self.request_mut();
@@ -1260,13 +1264,13 @@ impl ConnectionParser {
                 // Add the callback first because it will be called last in
                 // the chain of writers
 
-                // TODO: fix lifetime error and remove this line!
-                let connp_ptr: *mut ConnectionParser = self as *mut ConnectionParser;
+                // The callback finds the parser wherever it is when it runs.
+                let target = Rc::clone(&self.decompress_target);
                 let decompressor = unsafe {
                     Decompressor::new_with_callback(
                         encoding,
                         Box::new(move |data: Option<&[u8]>| -> std::io::Result<usize> {
-                            (*connp_ptr).request_decompressor_callback(data)
+                            (*target.get()).request_decompressor_callback(data)
                         }),
                         compression_options,
                     )?
diff --git a/src/response.rs b/src/response.rs
index 995af59..341f937 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -23,6 +23,7 @@ use nom::{bytes::streaming::take_till as streaming_take_till, error::ErrorKind,
 use std::{
     cmp::{min, Ordering},
     mem::take,
+    rc::Rc,
 };
 use time::OffsetDateTime;
 
@@ -1051,6 +1052,9 @@ impl ConnectionParser {
     /// Returns HtpStatus::OK on success or HtpStatus::ERROR if the request transaction
     /// is invalid or response body data hook fails.
     pub fn response_body_data(&mut self, data: Option<&[u8]>) -> Result<()> {
+        // The parser may have been moved since the decompressors were set up.
+        let target: *mut Self = self;
+        self.decompress_target.set(target);
         // None data is used to indicate the end of response body.
         // Keep track of body size before decompression.
         let resp = self.response_mut();
@@ -1359,13 +1363,13 @@ impl ConnectionParser {
                 // Add the callback first because it will be called last in
                 // the chain of writers
 
-                // TODO: fix lifetime error and remove this line!
-                let connp_ptr = self as *mut Self;
+                // The callback finds the parser wherever it is when it runs.
+                let target = Rc::clone(&self.decompress_target);
                 let decompressor = unsafe {
                     Decompressor::new_with_callback(
                         encoding,
                         Box::new(move |data: Option<&[u8]>| -> std::io::Result<usize> {
-                            (*connp_ptr).response_decompressor_callback(data)
+                            (*target.get()).response_decompressor_callback(data)
                         }),
                         compression_options,
                     )?
-- 
2.43.0


From 7b2d674096df0d320ca739e90f860bc2180ac1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:46 +0000
Subject: [PATCH 30/38] fix: htp_connp_destroy_all accepts NULL, as documented

---
 src/c_api/connection_parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/c_api/connection_parser.rs b/src/c_api/connection_parser.rs
index f8d750b..7813278 100644
--- a/src/c_api/connection_parser.rs
+++ b/src/c_api/connection_parser.rs
@@ -60,7 +60,9 @@ pub unsafe extern "C" fn htp_connp_create(cfg: *mut Config) -> *mut ConnectionPa
 /// When calling this method, you have to ensure that connp is either properly initialized or NULL
 #[no_mangle]
 pub unsafe extern "C" fn htp_connp_destroy_all(connp: *mut ConnectionParser) {
-    drop(Box::from_raw(connp));
+    if !connp.is_null() {
+        drop(Box::from_raw(connp));
+    }
 }
 
 /// Returns the connection associated with the connection parser.
-- 
2.43.0


From 9ce9ae933c8c347b6a954cdf247f5069b9b59a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:56 +0000
Subject: [PATCH 31/38] fix: htp_tx_normalized_uri accepts NULL, as documented

---
 src/c_api/transaction.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/c_api/transaction.rs b/src/c_api/transaction.rs
index 560339a..1448f68 100644
--- a/src/c_api/transaction.rs
+++ b/src/c_api/transaction.rs
@@ -25,17 +25,16 @@ pub unsafe extern "C" fn htp_tx_destroy(connp: *mut ConnectionParser, tx: *const
 /// When calling this method, you have to ensure that tx is either properly initialized or NULL
 #[no_mangle]
 pub unsafe extern "C" fn htp_tx_normalized_uri(tx: *const Transaction) -> *const Bstr {
-    if (*tx).cfg.decoder_cfg.normalized_uri_include_all {
-        tx.as_ref()
-            .and_then(|tx| tx.complete_normalized_uri.as_ref())
-            .map(|uri| uri as *const Bstr)
-            .unwrap_or(std::ptr::null())
-    } else {
-        tx.as_ref()
-            .and_then(|tx| tx.partial_normalized_uri.as_ref())
-            .map(|uri| uri as *const Bstr)
-            .unwrap_or(std::ptr::null())
-    }
+    tx.as_ref()
+        .and_then(|tx| {
+            if tx.cfg.decoder_cfg.normalized_uri_include_all {
+                tx.complete_normalized_uri.as_ref()
+            } else {
+                tx.partial_normalized_uri.as_ref()
+            }
+        })
+        .map(|uri| uri as *const Bstr)
+        .unwrap_or(std::ptr::null())
 }
 
 /// Get the transaction's configuration.
-- 
2.43.0


From d1799d00c66fdb05bd5b7a3829ee4def1f3ac403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:06 +0000
Subject: [PATCH 32/38] fix: C API: a timestamp beyond the representable range
 no longer panics

---
 src/c_api/connection_parser.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/c_api/connection_parser.rs b/src/c_api/connection_parser.rs
index 7813278..d9e2886 100644
--- a/src/c_api/connection_parser.rs
+++ b/src/c_api/connection_parser.rs
@@ -13,10 +13,9 @@ use time::{Duration, OffsetDateTime};
 
 /// Take seconds and microseconds and return a OffsetDateTime
 fn datetime_from_sec_usec(sec: i64, usec: i64) -> Option<OffsetDateTime> {
-    match OffsetDateTime::from_unix_timestamp(sec) {
-        Ok(date) => Some(date + Duration::microseconds(usec)),
-        Err(_) => None,
-    }
+    OffsetDateTime::from_unix_timestamp(sec)
+        .ok()
+        .and_then(|date| date.checked_add(Duration::microseconds(usec)))
 }
 
 /// Closes the connection associated with the supplied parser.
-- 
2.43.0


From 6cd9bfa919f6b3f44093172a8e696f644fb91bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:00 +0000
Subject: [PATCH 33/38] fix: deliver lzma output that exceeds the
 decompressor's buffer

---
 src/decompressors.rs | 54 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 42 insertions(+), 12 deletions(-)

diff --git a/src/decompressors.rs b/src/decompressors.rs
index cafc345..1a52785 100644
--- a/src/decompressors.rs
+++ b/src/decompressors.rs
@@ -10,6 +10,9 @@ const ENCODING_CHUNK_SIZE: usize = 8192;
 /// longer).
 const PROBE_SIZE: usize = 9;
 
+/// Number of bytes given to the lzma decoder at once.
+const LZMA_INPUT_SIZE: usize = 512;
+
 /// Default LZMA dictionary memory limit in bytes.
 const DEFAULT_LZMA_MEMLIMIT: usize = 1_048_576;
 /// Default number of LZMA layers to pass to the decompressor.
@@ -675,25 +678,54 @@ impl BufWriter for ZlibBufWriter {
 }
 
 /// Simple wrapper around an lzma implementation
-struct LzmaBufWriter(lzma_rs::decompress::Stream<Cursor<Box<[u8]>>>);
+///
+/// The lzma decoder keeps its output in a dictionary and writes it out in blocks
+/// that can be larger than our temporary buffer, so give it a buffer that can grow.
+struct LzmaBufWriter {
+    /// Decoder and its output.
+    stream: lzma_rs::decompress::Stream<Vec<u8>>,
+    /// Output handed over to be flushed.
+    buf: Cursor<Box<[u8]>>,
+}
+
+impl LzmaBufWriter {
+    fn new(options: &lzma_rs::decompress::Options) -> Self {
+        Self {
+            stream: lzma_rs::decompress::Stream::new_with_options(options, Vec::new()),
+            buf: Cursor::new(Box::new([])),
+        }
+    }
+}
 
 impl Write for LzmaBufWriter {
     fn write(&mut self, data: &[u8]) -> std::io::Result<usize> {
-        self.0.write(data)
+        let pending = self.stream.get_output().map_or(0, |output| output.len());
+        if pending >= ENCODING_CHUNK_SIZE {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::WriteZero,
+                "output has to be flushed",
+            ));
+        }
+        // A small input limits how much output there can be before it is flushed.
+        self.stream
+            .write(&data[..std::cmp::min(data.len(), LZMA_INPUT_SIZE)])
     }
 
     fn flush(&mut self) -> std::io::Result<()> {
-        self.0.flush()
+        self.stream.flush()
     }
 }
 
 impl BufWriter for LzmaBufWriter {
     fn get_mut(&mut self) -> Option<&mut Cursor<Box<[u8]>>> {
-        self.0.get_output_mut()
+        let output = std::mem::take(self.stream.get_output_mut()?);
+        self.buf = Cursor::new(output.into_boxed_slice());
+        self.buf.set_position(self.buf.get_ref().len() as u64);
+        Some(&mut self.buf)
     }
 
     fn finish(self: Box<Self>) -> std::io::Result<Cursor<Box<[u8]>>> {
-        self.0.finish().map_err(|e| match e {
+        let output = self.stream.finish().map_err(|e| match e {
             lzma_rs::error::Error::IoError(e) => e,
             lzma_rs::error::Error::HeaderTooShort(e) => {
                 std::io::Error::new(std::io::ErrorKind::Other, format!("{}", e))
@@ -701,7 +733,10 @@ impl BufWriter for LzmaBufWriter {
             lzma_rs::error::Error::LzmaError(e) | lzma_rs::error::Error::XzError(e) => {
                 std::io::Error::new(std::io::ErrorKind::Other, e)
             }
-        })
+        })?;
+        let mut output = Cursor::new(output.into_boxed_slice());
+        output.set_position(output.get_ref().len() as u64);
+        Ok(output)
     }
 }
 
@@ -744,12 +779,7 @@ impl InnerDecompressor {
             )),
             HtpContentEncoding::LZMA => {
                 if let Some(options) = options.lzma {
-                    Ok((
-                        Box::new(LzmaBufWriter(
-                            lzma_rs::decompress::Stream::new_with_options(&options, buf),
-                        )),
-                        false,
-                    ))
+                    Ok((Box::new(LzmaBufWriter::new(&options)), false))
                 } else {
                     Ok((Box::new(NullBufWriter(buf)), true))
                 }
-- 
2.43.0


From 7f8595c6036d45df97c2ed24a0851c937292b72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:49 +0000
Subject: [PATCH 34/38] fix: a compression ratio too large to be exceeded is
 not exceeded

---
 src/request.rs  | 4 ++--
 src/response.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 178a8e5..b5c9db6 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -1321,8 +1321,8 @@ impl ConnectionParser {
         let exceeds_ratio = if let Some(ratio) = req.request_message_len.checked_mul(ratio) {
             req.request_entity_len > ratio
         } else {
-            // overflow occured
-            true
+            // overflow occured: no output is that large
+            false
         };
 
         let bomb_limit = compression_options.get_bomb_limit();
diff --git a/src/response.rs b/src/response.rs
index 341f937..a95b8fa 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1322,8 +1322,8 @@ impl ConnectionParser {
         let exceeds_ratio = if let Some(ratio) = resp.response_message_len.checked_mul(ratio) {
             resp.response_entity_len > ratio
         } else {
-            // overflow occured
-            true
+            // overflow occured: no output is that large
+            false
         };
 
         let bomb_limit = compression_options.get_bomb_limit();
-- 
2.43.0


From dcf29ef355b0cd54b51739a50274d022ea59c16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:28 +0000
Subject: [PATCH 35/38] fix: a refusal answers only the request it belongs to

A 4xx response ends the request whose body is being waited for when the
request it answers expected 100-continue. With pipelining these can be two
different requests, and the body of the later one was lost.
---
 src/response.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/response.rs b/src/response.rs
index a95b8fa..610554a 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -479,6 +479,8 @@ impl ConnectionParser {
         else if response_tx.response_status_number.in_range(400, 499)
             && self.request_content_length > Some(0)
             && self.request_body_data_left == self.request_content_length
+            // A later request may be waiting for its body.
+            && self.request_index() == self.response_index()
         {
             let response_tx = self.response_mut().unwrap();
             if let Some(expect) = response_tx.request_headers.get_nocase("expect") {
-- 
2.43.0


From f80a4ff4231b179558c11e01fa182bf5a3a6d450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:04 +0000
Subject: [PATCH 36/38] fix: the verdict of a body data callback counts for
 compressed bodies too

STOP became ERROR on its way through the decompressors, and a verdict given
while the decompressors were finishing, or a bomb noticed then, was ignored.
---
 src/connection_parser.rs |  2 +-
 src/error.rs             | 16 ++++++++++++++--
 src/request.rs           | 16 +++++++++-------
 src/response.rs          | 16 +++++++++-------
 4 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/src/connection_parser.rs b/src/connection_parser.rs
index b17b50f..e84d547 100644
--- a/src/connection_parser.rs
+++ b/src/connection_parser.rs
@@ -905,7 +905,7 @@ impl ConnectionParser {
             tx.response_progress = HtpResponseProgress::COMPLETE;
             // Run the last RESPONSE_BODY_DATA HOOK, but only if there was a response body present.
             if tx.response_transfer_coding != HtpTransferCoding::NO_BODY {
-                let _ = self.response_body_data(None);
+                self.response_body_data(None)?;
             }
             // Run hook RESPONSE_COMPLETE.
             self.cfg
diff --git a/src/error.rs b/src/error.rs
index 2dc0157..9eaf763 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -28,9 +28,21 @@ impl From<HtpStatus> for Result<()> {
     }
 }
 
+impl std::fmt::Display for HtpStatus {
+    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
+        write!(f, "{:?}", self)
+    }
+}
+
+impl std::error::Error for HtpStatus {}
+
 impl From<std::io::Error> for HtpStatus {
-    fn from(_: std::io::Error) -> Self {
-        HtpStatus::ERROR
+    /// Returns the `HtpStatus` carried by the error, or ERROR if there is none.
+    fn from(e: std::io::Error) -> Self {
+        match e.into_inner().map(|e| e.downcast::<HtpStatus>()) {
+            Some(Ok(status)) => *status,
+            _ => HtpStatus::ERROR,
+        }
     }
 }
 
diff --git a/src/request.rs b/src/request.rs
index b5c9db6..ac359c6 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -1037,9 +1037,7 @@ impl ConnectionParser {
                 }
                 let mut decompressor = req.request_decompressor.take().ok_or(HtpStatus::ERROR)?;
                 if let Some(data) = data {
-                    decompressor
-                        .decompress(data)
-                        .map_err(|_| HtpStatus::ERROR)?;
+                    decompressor.decompress(data)?;
                     if decompressor.time_spent()
                         > self.cfg.compression_options.get_time_limit() as u64
                     {
@@ -1059,8 +1057,12 @@ impl ConnectionParser {
                     req.request_decompressor.replace(decompressor);
                 } else {
                     // don't put the decompressor back in its slot
-                    // ignore errors
-                    let _ = decompressor.finish();
+                    // ignore errors, except for those of the callback
+                    if let Err(e) = decompressor.finish() {
+                        if e.get_ref().map_or(false, |e| e.is::<HtpStatus>()) {
+                            return Err(e.into());
+                        }
+                    }
                 }
             }
             HtpContentEncoding::NONE => {
@@ -1295,7 +1297,7 @@ impl ConnectionParser {
 
         // Invoke all callbacks.
         self.request_run_hook_body_data(&mut tx_data)
-            .map_err(|_| std::io::Error::new(std::io::ErrorKind::Other, "body data hook failed"))?;
+            .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e))?;
 
         let compression_options = self.cfg.compression_options;
         let req = self.request_mut().unwrap();
@@ -1340,7 +1342,7 @@ impl ConnectionParser {
             );
             return Err(std::io::Error::new(
                 std::io::ErrorKind::Other,
-                "compression_bomb_limit reached",
+                HtpStatus::ERROR,
             ));
         }
         Ok(tx_data.len())
diff --git a/src/response.rs b/src/response.rs
index 610554a..a7e3e5b 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1080,9 +1080,7 @@ impl ConnectionParser {
                 }
                 let mut decompressor = resp.response_decompressor.take().ok_or(HtpStatus::ERROR)?;
                 if let Some(data) = data {
-                    decompressor
-                        .decompress(data)
-                        .map_err(|_| HtpStatus::ERROR)?;
+                    decompressor.decompress(data)?;
 
                     if decompressor.time_spent()
                         > self.cfg.compression_options.get_time_limit() as u64
@@ -1105,8 +1103,12 @@ impl ConnectionParser {
                         .replace(decompressor);
                 } else {
                     // don't put the decompressor back in its slot
-                    // ignore errors
-                    let _ = decompressor.finish();
+                    // ignore errors, except for those of the callback
+                    if let Err(e) = decompressor.finish() {
+                        if e.get_ref().map_or(false, |e| e.is::<HtpStatus>()) {
+                            return Err(e.into());
+                        }
+                    }
                 }
             }
             HtpContentEncoding::NONE => {
@@ -1300,7 +1302,7 @@ impl ConnectionParser {
 
         // Invoke all callbacks.
         self.response_run_hook_body_data(&mut tx_data)
-            .map_err(|_| std::io::Error::new(std::io::ErrorKind::Other, "body data hook failed"))?;
+            .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e))?;
         let resp = self.response_mut().unwrap();
         if let Some(decompressor) = &mut resp.response_decompressor {
             if decompressor.callback_inc() % compression_options.get_time_test_freq() == 0 {
@@ -1343,7 +1345,7 @@ impl ConnectionParser {
             );
             return Err(std::io::Error::new(
                 std::io::ErrorKind::Other,
-                "compression_bomb_limit reached",
+                HtpStatus::ERROR,
             ));
         }
         Ok(tx_data.len())
-- 
2.43.0


From b54b6a0812114e5dfbe48f0deab2b510e1ebb53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:31 +0000
Subject: [PATCH 37/38] fix: a request chunk length that is no number is logged
 also when its line comes whole

---
 src/request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request.rs b/src/request.rs
index ac359c6..a2ef6e6 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -403,7 +403,7 @@ impl ConnectionParser {
                     continue;
                 }
                 // Handle chunk length.
-                let (len, ext) = parse_chunked_length(&buffered)?;
+                let (len, ext) = parse_chunked_length(&buffered).unwrap_or((None, false));
                 self.request_chunked_length = len;
                 if ext {
                     htp_warn!(
-- 
2.43.0


From d2c5a7089ec84c852106652f533deb3d030957cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:51 +0000
Subject: [PATCH 38/38] fix: a response closed between CR and LF of the empty
 line keeps its last header

With no more data to come the header parser still waited for the rest of what
could have become a deformed end of line, and dropped the complete header line
before it.
---
 src/headers.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/headers.rs b/src/headers.rs
index 4376736..d092dc6 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -259,7 +259,9 @@ impl Parser {
                 complete(map(self.folding(), |(end, fold, flags)| {
                     ((end, flags), Some(fold))
                 })),
-                map(self.complete_null_or_eol(), |end| (end, None)),
+                complete(map(self.complete_null_or_eol(), |end| (end, None))),
+                // What may become a deformed end of line no longer can
+                map(self.complete_eol_regular(), |eol| ((eol, 0), None)),
             ))(input)
         }
     }
-- 
2.43.0

