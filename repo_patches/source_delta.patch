From d4d4ccca34610f2e068a7e4a1d3531feb9aad6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:09 +0000
Subject: [PATCH 01/28] fix: use an 8-bit displacement only up to 127

The byte is sign-extended: displacements 128..=255 addressed 256 bytes too low and
256 lost its high byte.
---
 at-x64/src/encoder/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/at-x64/src/encoder/mod.rs b/at-x64/src/encoder/mod.rs
index febf990..192cbaa 100644
--- a/at-x64/src/encoder/mod.rs
+++ b/at-x64/src/encoder/mod.rs
@@ -310,13 +310,13 @@ impl RegMemLike for Mem64 {
             // treat [RBP] and [R13] as [RBP + 0] and [R13 + 0] resprectively
             RegOffset(RBP | R13, 0) => 0b01,
             RegOffset(_, 0) => 0b00,
-            RegOffset(_, 1..=256) => 0b01,
+            RegOffset(_, 1..=127) => 0b01,
             RegOffset(_, _) => 0b10,
             RipOffset(_) => 0b00,
             Sib { base: None, .. } => 0b00,
             Sib {
                 base: Some(RBP | R13),
-                disp: 0..=256,
+                disp: 0..=127,
                 ..
             } => 0b01,
             Sib {
@@ -324,7 +324,7 @@ impl RegMemLike for Mem64 {
                 ..
             } => 0b10,
             Sib { disp: 0, .. } => 0b00,
-            Sib { disp: 1..=256, .. } => 0b01,
+            Sib { disp: 1..=127, .. } => 0b01,
             Sib { .. } => 0b10,
         }
     }
@@ -370,7 +370,7 @@ impl RegMemLike for Mem64 {
         match self {
             RegOffset(RBP | R13, 0) => BytesAtMost::from(0 as u8),
             RegOffset(_, 0) => BytesAtMost::with_len(0),
-            RegOffset(_, disp @ 1..=256) => BytesAtMost::from(*disp as u8),
+            RegOffset(_, disp @ 1..=127) => BytesAtMost::from(*disp as u8),
             RegOffset(_, disp) => BytesAtMost::from(*disp),
             RipOffset(disp) => BytesAtMost::from(*disp),
             Sib {
@@ -383,7 +383,7 @@ impl RegMemLike for Mem64 {
             } => BytesAtMost::from(0u8),
             Sib { disp: 0, .. } => BytesAtMost::with_len(0),
             Sib {
-                disp: disp @ 1..=256,
+                disp: disp @ 1..=127,
                 ..
             } => BytesAtMost::from(*disp as u8),
             Sib { disp, .. } => BytesAtMost::from(*disp),
-- 
2.43.0


From 782c0cd657164caaa321a4d868b918441e587833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:10 +0000
Subject: [PATCH 02/28] fix: push of a number pushes exactly that number

push sign-extends its immediate, so 128..=255 needs the 32-bit form and a number of
2^31 or more cannot be pushed as an immediate.
---
 at-asm/src/parsers/instruction/push.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/at-asm/src/parsers/instruction/push.rs b/at-asm/src/parsers/instruction/push.rs
index 26cd032..90395f5 100644
--- a/at-asm/src/parsers/instruction/push.rs
+++ b/at-asm/src/parsers/instruction/push.rs
@@ -26,14 +26,14 @@ pub fn parse_str(s: &str) -> Result<Instruction, ParseError> {
         return Ok(Instruction::new(push));
     }
 
-    // if operand is u8
-    if let Some(imm) = u8::try_parse_str(operand_str)? {
+    // if operand is u8. The immediate is sign-extended to 64bit
+    if let Some(imm) = u8::try_parse_str(operand_str)?.filter(|imm| *imm <= i8::MAX as u8) {
         let push = Push::new(imm);
         return Ok(Instruction::new(push));
     }
 
-    // if operand is u32
-    if let Some(imm) = u32::try_parse_str(operand_str)? {
+    // if operand is u32. The immediate is sign-extended to 64bit
+    if let Some(imm) = u32::try_parse_str(operand_str)?.filter(|imm| *imm <= i32::MAX as u32) {
         let push = Push::new(imm);
         return Ok(Instruction::new(push));
     }
-- 
2.43.0


From 22a2e81f3234b4467b5d1517ef7f5a8290694f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:11 +0000
Subject: [PATCH 03/28] fix: compute expressions modulo 2^64 in every build

Sums and differences leaving the signed 64-bit range panicked in debug builds and
wrapped in release builds.
---
 at-asm/src/parsers/expr.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/at-asm/src/parsers/expr.rs b/at-asm/src/parsers/expr.rs
index 053dd65..f411f3e 100644
--- a/at-asm/src/parsers/expr.rs
+++ b/at-asm/src/parsers/expr.rs
@@ -54,9 +54,13 @@ impl ParseStr for Expr {
             _ => return Err(ParseError::new("invalid rhs")),
         };
 
-        let res = lhs as i64 + sign_to_u64(sign) * rhs as i64;
+        let res = if sign {
+            lhs.wrapping_add(rhs)
+        } else {
+            lhs.wrapping_sub(rhs)
+        };
 
-        Ok(Some(Expr(res as u64)))
+        Ok(Some(Expr(res)))
     }
 
     fn parse_str(s: &str) -> Result<Self, ParseError> {
@@ -67,10 +71,6 @@ impl ParseStr for Expr {
     }
 }
 
-fn sign_to_u64(sign: bool) -> i64 {
-    sign as i64 * 2 - 1
-}
-
 enum Token {
     Num(u64),
     Plus,
-- 
2.43.0


From a04195855d1e5fb9bff46edd72b133efa0d20391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:11 +0000
Subject: [PATCH 04/28] fix: reject text after a complete expression

`1 + 2 + 3` was taken for `1 + 2`.
---
 at-asm/src/parsers/expr.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/at-asm/src/parsers/expr.rs b/at-asm/src/parsers/expr.rs
index f411f3e..37e528d 100644
--- a/at-asm/src/parsers/expr.rs
+++ b/at-asm/src/parsers/expr.rs
@@ -54,6 +54,10 @@ impl ParseStr for Expr {
             _ => return Err(ParseError::new("invalid rhs")),
         };
 
+        if tokens.next().is_some() {
+            return Err(ParseError::new("unexpected token after expression"));
+        }
+
         let res = if sign {
             lhs.wrapping_add(rhs)
         } else {
-- 
2.43.0


From 238cb3c2e65ac5c046b98faf415d487326eba30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:12 +0000
Subject: [PATCH 05/28] fix: reject text after push, ret and syscall statements

Everything after the operand of push and after ret and syscall was ignored.
---
 at-asm/src/parsers/instruction/mod.rs  | 5 ++++-
 at-asm/src/parsers/instruction/push.rs | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/at-asm/src/parsers/instruction/mod.rs b/at-asm/src/parsers/instruction/mod.rs
index 9eb96f8..7914f8f 100644
--- a/at-asm/src/parsers/instruction/mod.rs
+++ b/at-asm/src/parsers/instruction/mod.rs
@@ -40,9 +40,12 @@ impl Instruction {
 
 impl ParseStr for Instruction {
     fn try_parse_str(s: &str) -> Result<Option<Instruction>, ParseError> {
-        match s.split_whitespace().next() {
+        let mut tokens = s.split_whitespace();
+
+        match tokens.next() {
             Some("mov") => Ok(Some(mov::parse_str(s)?)),
             Some("push") => Ok(Some(push::parse_str(s)?)),
+            Some("ret" | "syscall") if tokens.next().is_some() => Err(ParseError::eol_expected()),
             Some("ret") => Ok(Some(Instruction::new(Ret::new()))),
             Some("syscall") => Ok(Some(Instruction::new(Syscall::new()))),
             _ => Ok(None),
diff --git a/at-asm/src/parsers/instruction/push.rs b/at-asm/src/parsers/instruction/push.rs
index 90395f5..0a1669a 100644
--- a/at-asm/src/parsers/instruction/push.rs
+++ b/at-asm/src/parsers/instruction/push.rs
@@ -20,6 +20,10 @@ pub fn parse_str(s: &str) -> Result<Instruction, ParseError> {
         }
     };
 
+    if tokens.next().is_some() {
+        return Err(ParseError::eol_expected());
+    }
+
     // if operand is Reg64
     if let Some(reg) = Reg64::try_parse_str(operand_str)? {
         let push = Push::new(reg);
-- 
2.43.0


From 9eed362f76238ffaf8b78c557a3df887452c9fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:13 +0000
Subject: [PATCH 06/28] fix: keep the symbols of sections that hold no bytes

Such a section was left out together with its symbols, so labels in it vanished and
references to them panicked.
---
 at-obj/src/object.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/at-obj/src/object.rs b/at-obj/src/object.rs
index c0ced39..cb8e329 100644
--- a/at-obj/src/object.rs
+++ b/at-obj/src/object.rs
@@ -76,7 +76,7 @@ impl<'a> SectionRef<'a> {
     }
 
     pub(crate) fn is_empty(&self) -> bool {
-        self.vm_size() == 0
+        self.vm_size() == 0 && self.symbols().is_empty()
     }
 
     pub(crate) fn file_data(&self) -> &[u8] {
-- 
2.43.0


From f49cef78321c9d052a9ebbc8bda0a36bd58bae31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:14 +0000
Subject: [PATCH 07/28] fix: absolute symbols belong to no section

---
 at-obj/src/macho.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/at-obj/src/macho.rs b/at-obj/src/macho.rs
index 3455a0f..0ea59c2 100644
--- a/at-obj/src/macho.rs
+++ b/at-obj/src/macho.rs
@@ -328,7 +328,7 @@ fn gen_nlist64s(object: &Object, sections: &Vec<Section64>, stab: &StringTable)
                         n_type: NType::Abs,
                         n_ext: *ext,
                     },
-                    n_sect: idx as u8,
+                    n_sect: NList64::NO_SECT,
                     n_desc: 0,
                     n_value: *val,
                 },
-- 
2.43.0


From 5f0c00c60892d722c672e8927b1bcc2cd593ca89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:15 +0000
Subject: [PATCH 08/28] fix: do not count padding in the segment's file size

The padding between the section data and the relocations made filesize exceed vmsize,
for which Mach-O tools reject the object.
---
 at-obj/src/macho.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/at-obj/src/macho.rs b/at-obj/src/macho.rs
index 0ea59c2..c641e5d 100644
--- a/at-obj/src/macho.rs
+++ b/at-obj/src/macho.rs
@@ -106,8 +106,7 @@ fn gen_segment_command64(object: &Object) -> SegmentCommand64 {
             .sections()
             .iter()
             .map(|sect| sect.file_size())
-            .sum::<u32>()
-            .aligned(8) as u64,
+            .sum::<u32>() as u64,
         // object fileのprotectionは常に7
         // つまりrwxの全てのbitが立っている状態
         maxprot: 7,
-- 
2.43.0


From a9d39906d61953e311b6a1fd6df6c70f846b24d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:16 +0000
Subject: [PATCH 09/28] fix: a debug symbol type is the whole byte

Masking it made every type 0x20..=0x3f read as N_GSYM.
---
 at-mac/src/nlist.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/at-mac/src/nlist.rs b/at-mac/src/nlist.rs
index 76b1135..f928991 100644
--- a/at-mac/src/nlist.rs
+++ b/at-mac/src/nlist.rs
@@ -91,7 +91,7 @@ impl NTypeField {
                 n_ext,
             }
         } else {
-            NTypeField::Stab(DebugSymbol::from_u8(n_stab))
+            NTypeField::Stab(DebugSymbol::from_u8(n))
         }
     }
 
-- 
2.43.0


From fe42be1727f71503bcfe121286d0b08a7f9c898d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:16 +0000
Subject: [PATCH 10/28] fix: a semicolon inside a string is not a comment

---
 at-asm/src/parsers/line.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/at-asm/src/parsers/line.rs b/at-asm/src/parsers/line.rs
index 9fb9933..afed537 100644
--- a/at-asm/src/parsers/line.rs
+++ b/at-asm/src/parsers/line.rs
@@ -15,10 +15,7 @@ pub enum Line {
 impl ParseStr for Line {
     fn parse_str(s: &str) -> Result<Self, ParseError> {
         // コメントを無視
-        let s = match s.split_once(";") {
-            Some((s, _)) => s,
-            None => s,
-        };
+        let s = strip_comment(s);
 
         let mut tokens = s.split_whitespace();
 
@@ -66,3 +63,16 @@ impl ParseStr for Line {
         Ok(Some(Self::parse_str(s)?))
     }
 }
+
+/// `;` 以降を取り除く。ただし文字列の中の `;` はコメントの始まりではない
+fn strip_comment(s: &str) -> &str {
+    let mut in_str = false;
+    let comment_start = s.find(|c| {
+        in_str ^= c == '"';
+        c == ';' && !in_str
+    });
+    match comment_start {
+        Some(idx) => &s[..idx],
+        None => s,
+    }
+}
-- 
2.43.0


From f42c1f2e66e391e136cf1f36a67e2ad372ffd201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:17 +0000
Subject: [PATCH 11/28] fix: accept any white space after mov

---
 at-asm/src/parsers/instruction/mov.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/at-asm/src/parsers/instruction/mov.rs b/at-asm/src/parsers/instruction/mov.rs
index c65863c..b26c5ba 100644
--- a/at-asm/src/parsers/instruction/mov.rs
+++ b/at-asm/src/parsers/instruction/mov.rs
@@ -10,7 +10,7 @@ use at_x64::{
 pub fn parse_str(s: &str) -> Result<Instruction, ParseError> {
     let (opcode, remain) = s
         .trim()
-        .split_once(" ")
+        .split_once(char::is_whitespace)
         .ok_or_else(|| ParseError::new("invalid mov instruction format"))?;
     if opcode != "mov" {
         return Err(ParseError::new("not mov opcode"));
-- 
2.43.0


From 28bd8b4ea905be45ee47c3bfdfecf44b0efae610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:18 +0000
Subject: [PATCH 12/28] fix: a hexadecimal literal has one 0x prefix

`0x0x10` was read as 0x10.
---
 at-asm/src/parsers/num.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/at-asm/src/parsers/num.rs b/at-asm/src/parsers/num.rs
index 4a167ba..3adbb81 100644
--- a/at-asm/src/parsers/num.rs
+++ b/at-asm/src/parsers/num.rs
@@ -7,8 +7,7 @@ macro_rules! impl_parse_str {
             /// Never error.
             /// Because another number format possibly fit.
             fn try_parse_str(s: &str) -> Result<Option<Self>, ParseError> {
-                if s.starts_with("0x") {
-                    let s = s.trim_start_matches("0x");
+                if let Some(s) = s.strip_prefix("0x") {
                     Ok(Self::from_str_radix(s, 16).ok())
                 } else {
                     Ok(Self::from_str_radix(s, 10).ok())
-- 
2.43.0


From 4b03f674685eedd4e5c42ffcf3200739f4c05cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:18 +0000
Subject: [PATCH 13/28] fix: allow white space before the comma after a number
 in data

---
 at-asm/src/parsers/data.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/at-asm/src/parsers/data.rs b/at-asm/src/parsers/data.rs
index 61f8b57..5576414 100644
--- a/at-asm/src/parsers/data.rs
+++ b/at-asm/src/parsers/data.rs
@@ -162,7 +162,10 @@ impl<'a> Iterator for DataDefIter<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         fn split_delim_once(s: &str) -> (&str, &str) {
             match s.split_once(|c: char| c.is_whitespace() || c == ',') {
-                Some((s1, s2)) => (s1, s2.trim_start()),
+                Some((s1, _)) => {
+                    let s2 = s[s1.len()..].trim_start();
+                    (s1, s2.strip_prefix(',').unwrap_or(s2).trim_start())
+                }
                 None => (s, ""),
             }
         }
-- 
2.43.0


From 0ad5be4eb065f31a8234883b5cee79b52e783b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:19 +0000
Subject: [PATCH 14/28] fix: refuse NUL in string table entries

It ends the entry early, and later entries can no longer be found by walking.
---
 at-mac/src/string_table.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/at-mac/src/string_table.rs b/at-mac/src/string_table.rs
index 30358ff..90aa0c4 100644
--- a/at-mac/src/string_table.rs
+++ b/at-mac/src/string_table.rs
@@ -19,6 +19,9 @@ impl StringTable {
             if !c.is_ascii() {
                 panic!("could not push non-ascii char");
             }
+            if c == '\0' {
+                panic!("could not push null char");
+            }
             self.data.push(c as u8);
         }
         self.data.push(0);
-- 
2.43.0


From d08ddebbc26be4a88d607b741c208e37ab41aef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:20 +0000
Subject: [PATCH 15/28] fix: check load command sizes without overflow

In builds without overflow checks a huge section or tool count wrapped around and
passed for consistent.
---
 at-mac/src/load_command/build_version.rs | 5 ++++-
 at-mac/src/load_command/segment64.rs     | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/at-mac/src/load_command/build_version.rs b/at-mac/src/load_command/build_version.rs
index 5366ae4..0337522 100644
--- a/at-mac/src/load_command/build_version.rs
+++ b/at-mac/src/load_command/build_version.rs
@@ -41,7 +41,10 @@ impl BuildVersionCommand {
 
         let ntools = read.read_u32_in(endian);
 
-        assert_eq!(cmdsize, Self::SIZE + BuildToolVersion::SIZE * ntools);
+        assert_eq!(
+            cmdsize as u64,
+            Self::SIZE as u64 + BuildToolVersion::SIZE as u64 * ntools as u64
+        );
 
         BuildVersionCommand {
             cmd,
diff --git a/at-mac/src/load_command/segment64.rs b/at-mac/src/load_command/segment64.rs
index f31991c..4dcddd4 100644
--- a/at-mac/src/load_command/segment64.rs
+++ b/at-mac/src/load_command/segment64.rs
@@ -55,7 +55,10 @@ impl SegmentCommand64 {
         let nsects = read.read_u32_in(endian);
         let flags = read.read_u32_in(endian);
 
-        assert_eq!(cmdsize, Self::SIZE + nsects * Section64::SIZE);
+        assert_eq!(
+            cmdsize as u64,
+            Self::SIZE as u64 + nsects as u64 * Section64::SIZE as u64
+        );
 
         SegmentCommand64 {
             cmd,
-- 
2.43.0


From 475ea9998b10f390bb7c45d699dfee2ec1f49265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:21 +0000
Subject: [PATCH 16/28] fix: never overwrite the source with the object

With -o naming the source, or a source called *.o, the source was truncated before it
was read.
---
 at-asm/src/main.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/at-asm/src/main.rs b/at-asm/src/main.rs
index 6c022fb..878dd3d 100644
--- a/at-asm/src/main.rs
+++ b/at-asm/src/main.rs
@@ -1,5 +1,9 @@
 use at_asm::Assembler;
-use std::{fs::OpenOptions, path::PathBuf, process::exit};
+use std::{
+    fs::{canonicalize, OpenOptions},
+    path::{Path, PathBuf},
+    process::exit,
+};
 
 pub fn main() {
     let config = Config::init();
@@ -9,6 +13,11 @@ pub fn main() {
         .open(&config.input_path)
         .unwrap();
 
+    if is_same_file(&config.input_path, &config.output_path) {
+        eprintln!("error: output file is the input file");
+        exit(1);
+    }
+
     let mut output_file = OpenOptions::new()
         .write(true)
         .truncate(true)
@@ -21,6 +30,22 @@ pub fn main() {
         .write_into(&mut output_file);
 }
 
+/// 既に存在する二つのpathが同じfileを指すかどうか
+fn is_same_file(path1: &Path, path2: &Path) -> bool {
+    #[cfg(unix)]
+    {
+        use std::{fs::metadata, os::unix::fs::MetadataExt as _};
+
+        if let (Ok(m1), Ok(m2)) = (metadata(path1), metadata(path2)) {
+            return (m1.dev(), m1.ino()) == (m2.dev(), m2.ino());
+        }
+    }
+    match (canonicalize(path1), canonicalize(path2)) {
+        (Ok(p1), Ok(p2)) => p1 == p2,
+        _ => false,
+    }
+}
+
 struct Config {
     output_path: PathBuf,
     input_path: PathBuf,
-- 
2.43.0


From 08933f7b26a1fe0520ddedb5384a6f9983841760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:17 +0000
Subject: [PATCH 17/28] fix: write a header in the byte order its magic
 announces

---
 at-mac/src/header.rs | 32 ++++++++++++++++++++------------
 at-mac/src/io.rs     | 17 +++++++++++++++++
 2 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/at-mac/src/header.rs b/at-mac/src/header.rs
index f29a2e0..ad79a2e 100644
--- a/at-mac/src/header.rs
+++ b/at-mac/src/header.rs
@@ -24,11 +24,7 @@ impl Header64 {
     pub fn read_from<R: Read>(read: &mut R) -> (Header64, Endian) {
         let magic_n = read.read_u32::<NativeEndian>().unwrap();
         let magic = Magic::from_u32(magic_n);
-        let endian = match magic {
-            Magic::Magic64 | Magic::Magic => Endian::NATIVE,
-            Magic::Cigam64 | Magic::Cigam => Endian::REVERSE,
-            _ => unimplemented!(),
-        };
+        let endian = magic.endian();
 
         let cpu_type_n = read.read_i32_in(endian);
         let cpu_subtype_n = read.read_i32_in(endian);
@@ -60,15 +56,18 @@ impl Header64 {
     }
 
     pub fn write_into<W: Write>(&self, write: &mut W) {
+        // The other fields are in the byte order the magic announces.
+        let endian = self.magic.endian();
+
         write.write_u32_native(self.magic.to_u32());
         let (cpu_type_n, cpu_subtype_n) = self.cpu_type.to_i32_i32();
-        write.write_i32_native(cpu_type_n);
-        write.write_i32_native(cpu_subtype_n);
-        write.write_u32_native(self.file_type.to_u32());
-        write.write_u32_native(self.n_cmds);
-        write.write_u32_native(self.size_of_cmds);
-        write.write_u32_native(self.flags.to_u32());
-        write.write_u32_native(self.reserved);
+        write.write_i32_in(cpu_type_n, endian);
+        write.write_i32_in(cpu_subtype_n, endian);
+        write.write_u32_in(self.file_type.to_u32(), endian);
+        write.write_u32_in(self.n_cmds, endian);
+        write.write_u32_in(self.size_of_cmds, endian);
+        write.write_u32_in(self.flags.to_u32(), endian);
+        write.write_u32_in(self.reserved, endian);
     }
 }
 
@@ -107,6 +106,15 @@ impl Magic {
     pub fn to_u32(&self) -> u32 {
         *self as u32
     }
+
+    /// byte order of a file with this magic.
+    fn endian(self) -> Endian {
+        match self {
+            Magic::Magic64 | Magic::Magic => Endian::NATIVE,
+            Magic::Cigam64 | Magic::Cigam => Endian::REVERSE,
+            _ => unimplemented!(),
+        }
+    }
 }
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
diff --git a/at-mac/src/io.rs b/at-mac/src/io.rs
index 20fb7ba..691ad95 100644
--- a/at-mac/src/io.rs
+++ b/at-mac/src/io.rs
@@ -61,6 +61,15 @@ pub trait ReadExt: Read + ReadBytesExt {
 
 impl<T> ReadExt for T where T: Read {}
 
+macro_rules! write_in {
+    ($func:ident, $endian:expr) => {
+        match $endian {
+            Endian::Little => WriteBytesExt::$func::<LittleEndian>,
+            Endian::Big => WriteBytesExt::$func::<BigEndian>,
+        }
+    };
+}
+
 pub trait WriteExt: Write + WriteBytesExt {
     fn write_u8(&mut self, n: u8) {
         WriteBytesExt::write_u8(self, n).unwrap()
@@ -82,6 +91,14 @@ pub trait WriteExt: Write + WriteBytesExt {
         self.write_u64::<NativeEndian>(n).unwrap()
     }
 
+    fn write_i32_in(&mut self, n: i32, endian: Endian) {
+        write_in!(write_i32, endian)(self, n).unwrap()
+    }
+
+    fn write_u32_in(&mut self, n: u32, endian: Endian) {
+        write_in!(write_u32, endian)(self, n).unwrap()
+    }
+
     fn write_fixed_size_string(&mut self, s: &str, size: usize) {
         assert!(s.is_ascii());
         assert!(s.len() <= size);
-- 
2.43.0


From 5760d485b733bfb16e74e0490da43f6ef9c3afe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:18 +0000
Subject: [PATCH 18/28] fix: refuse NUL in fixed-size names

---
 at-mac/src/io.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/at-mac/src/io.rs b/at-mac/src/io.rs
index 691ad95..7ffe723 100644
--- a/at-mac/src/io.rs
+++ b/at-mac/src/io.rs
@@ -100,7 +100,7 @@ pub trait WriteExt: Write + WriteBytesExt {
     }
 
     fn write_fixed_size_string(&mut self, s: &str, size: usize) {
-        assert!(s.is_ascii());
+        assert!(s.is_ascii() && !s.contains('\0'));
         assert!(s.len() <= size);
 
         let mut buf = vec![0u8; size];
-- 
2.43.0


From 6fa8b32029da283d0eb0b990d4590012369cfba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:19 +0000
Subject: [PATCH 19/28] fix: refuse relocation values beyond their bit fields

---
 at-mac/src/reloc.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/at-mac/src/reloc.rs b/at-mac/src/reloc.rs
index 449d5cb..1450395 100644
--- a/at-mac/src/reloc.rs
+++ b/at-mac/src/reloc.rs
@@ -84,6 +84,9 @@ impl RelocationInfo {
     // (inverse order if little endian, and vice versa).
     #[cfg(target_endian = "little")]
     pub fn write_into(self, write: &mut impl Write) {
+        assert!(self.r_symbolnum <= 0x00FF_FFFF);
+        assert!(self.r_type <= 0xF);
+
         write.write_i32_native(self.r_address);
 
         let mut infos: u32 = 0;
@@ -101,6 +104,9 @@ impl RelocationInfo {
     // (inverse order if little endian, and vice versa).
     #[cfg(target_endian = "big")]
     pub fn write_into(self, write: &mut impl Write) {
+        assert!(self.r_symbolnum <= 0x00FF_FFFF);
+        assert!(self.r_type <= 0xF);
+
         write.write_i32_native(self.r_address);
 
         let mut infos: u32 = 0;
-- 
2.43.0


From 10313973441d6c441255737c5e0b26ca82a5530e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:58 +0000
Subject: [PATCH 20/28] fix: refuse load commands that contradict their
 contents

---
 at-mac/src/load_command/build_version.rs | 6 ++++++
 at-mac/src/load_command/dysymtab.rs      | 3 +++
 at-mac/src/load_command/mod.rs           | 2 ++
 at-mac/src/load_command/segment64.rs     | 6 ++++++
 at-mac/src/load_command/symtab.rs        | 3 +++
 5 files changed, 20 insertions(+)

diff --git a/at-mac/src/load_command/build_version.rs b/at-mac/src/load_command/build_version.rs
index 0337522..4753857 100644
--- a/at-mac/src/load_command/build_version.rs
+++ b/at-mac/src/load_command/build_version.rs
@@ -57,6 +57,12 @@ impl BuildVersionCommand {
     }
 
     pub fn write_into<W: Write>(&self, write: &mut W) {
+        assert_eq!(self.cmd, Self::TYPE);
+        assert_eq!(
+            self.cmdsize as u64,
+            Self::SIZE as u64 + BuildToolVersion::SIZE as u64 * self.ntools as u64
+        );
+
         write.write_u32_native(self.cmd);
         write.write_u32_native(self.cmdsize);
         write.write_u32_native(self.platform.to_u32());
diff --git a/at-mac/src/load_command/dysymtab.rs b/at-mac/src/load_command/dysymtab.rs
index af2b57a..7e0e899 100644
--- a/at-mac/src/load_command/dysymtab.rs
+++ b/at-mac/src/load_command/dysymtab.rs
@@ -137,6 +137,9 @@ impl DysymtabCommand {
     }
 
     pub fn write_into<W: Write>(&self, write: &mut W) {
+        assert_eq!(self.cmd, Self::TYPE);
+        assert_eq!(self.cmdsize, Self::SIZE);
+
         write.write_u32_native(self.cmd);
         write.write_u32_native(self.cmdsize);
         write.write_u32_native(self.ilocalsym);
diff --git a/at-mac/src/load_command/mod.rs b/at-mac/src/load_command/mod.rs
index e4bb7ff..4367fca 100644
--- a/at-mac/src/load_command/mod.rs
+++ b/at-mac/src/load_command/mod.rs
@@ -95,6 +95,7 @@ impl LoadCommand {
 
         match self {
             LC::Segment64(cmd, sections) => {
+                assert_eq!(cmd.nsects as usize, sections.len());
                 cmd.write_into(write);
                 for section in sections.iter() {
                     section.write_into(write);
@@ -107,6 +108,7 @@ impl LoadCommand {
                 cmd.write_into(write);
             }
             LC::BuildVersion(cmd, tools) => {
+                assert_eq!(cmd.ntools as usize, tools.len());
                 cmd.write_into(write);
                 for tool in tools.iter() {
                     tool.write_into(write);
diff --git a/at-mac/src/load_command/segment64.rs b/at-mac/src/load_command/segment64.rs
index 4dcddd4..6d310b9 100644
--- a/at-mac/src/load_command/segment64.rs
+++ b/at-mac/src/load_command/segment64.rs
@@ -76,6 +76,12 @@ impl SegmentCommand64 {
     }
 
     pub fn write_into<W: Write>(&self, write: &mut W) {
+        assert_eq!(self.cmd, Self::TYPE);
+        assert_eq!(
+            self.cmdsize as u64,
+            Self::SIZE as u64 + self.nsects as u64 * Section64::SIZE as u64
+        );
+
         write.write_u32_native(self.cmd);
         write.write_u32_native(self.cmdsize);
         write.write_fixed_size_string(self.segname.as_str(), 16);
diff --git a/at-mac/src/load_command/symtab.rs b/at-mac/src/load_command/symtab.rs
index ee8c33e..8601b9b 100644
--- a/at-mac/src/load_command/symtab.rs
+++ b/at-mac/src/load_command/symtab.rs
@@ -44,6 +44,9 @@ impl SymtabCommand {
     }
 
     pub fn write_into<W: Write>(&self, write: &mut W) {
+        assert_eq!(self.cmd, Self::TYPE);
+        assert_eq!(self.cmdsize, Self::SIZE);
+
         write.write_u32_native(self.cmd);
         write.write_u32_native(self.cmdsize);
         write.write_u32_native(self.symoff);
-- 
2.43.0


From 8b2186722cccfbfcdc2f53563ffffc2cd59052d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:00 +0000
Subject: [PATCH 21/28] fix: refuse objects that no Mach-O file can hold

---
 at-obj/src/macho.rs | 46 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/at-obj/src/macho.rs b/at-obj/src/macho.rs
index c641e5d..243be97 100644
--- a/at-obj/src/macho.rs
+++ b/at-obj/src/macho.rs
@@ -40,6 +40,8 @@ use std::io::Write;
 
 /// ObjectをMach-O形式で書き込む
 pub fn write_into<W: Write>(object: &Object, write: &mut W) {
+    assert_representable(object);
+
     // write Header64
     gen_header64(object).write_into(write);
 
@@ -74,6 +76,50 @@ pub fn write_into<W: Write>(object: &Object, write: &mut W) {
     write.write_all(stab.as_ref()).unwrap();
 }
 
+/// Mach-O形式で表現できないObjectを拒否する.
+/// - シンボルと再配置の位置はセクションの中
+/// - アドレスは64bit、ファイルオフセットは32bitに収まる
+fn assert_representable(object: &Object) {
+    let mut vm_size = 0_u64;
+    let mut file_size = (Header64::SIZE
+        + SegmentCommand64::SIZE
+        + 3 * Section64::SIZE
+        + SymtabCommand::SIZE) as u64;
+
+    let sections = object.sections();
+    let sections = [
+        SectionRef::Text(&sections.text),
+        SectionRef::Data(&sections.data),
+        SectionRef::Bss(&sections.bss),
+    ];
+
+    for sect in sections.iter() {
+        vm_size = vm_size
+            .checked_add(sect.vm_size())
+            .expect("sections exceed the address space");
+
+        file_size += (sect.file_data().len() as u64).aligned(8);
+        file_size += sect.relocs().len() as u64 * RelocationInfo::SIZE as u64;
+
+        for sym in sect.symbols() {
+            file_size += NList64::SIZE as u64 + sym.name().len() as u64 + 1;
+            if let Symbol::Ref { addr, .. } = sym {
+                assert!(*addr <= sect.vm_size(), "symbol outside its section");
+            }
+        }
+
+        for reloc in sect.relocs() {
+            let width = 1 << RelocLength::from_u32(reloc.len as u32).to_u32();
+            assert!(
+                reloc.addr >= 0 && reloc.addr as u64 + width <= sect.vm_size(),
+                "relocation outside its section"
+            );
+        }
+    }
+
+    assert!(file_size < u32::MAX as u64, "object exceeds 4 GiB");
+}
+
 /// object形式の `Header64` を生成する.
 /// 現状、x86-64限定.
 fn gen_header64(object: &Object) -> Header64 {
-- 
2.43.0


From a0dd9dfe0990a95138dffd0e7edf10755bf1ab9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:53 +0000
Subject: [PATCH 22/28] fix: look up symbol names in time proportional to the
 program

---
 at-asm/src/assembler.rs |  5 +++--
 at-obj/src/macho.rs     | 40 +++++++++++++++++-----------------------
 2 files changed, 20 insertions(+), 25 deletions(-)

diff --git a/at-asm/src/assembler.rs b/at-asm/src/assembler.rs
index e78accf..bdf5ea8 100644
--- a/at-asm/src/assembler.rs
+++ b/at-asm/src/assembler.rs
@@ -2,6 +2,7 @@ use crate::parsers::{Line, ParseStr as _, Section};
 use crate::reader::Reader;
 use at_obj::{macho, BssSection, DataSection, Object, Reloc, Symbol, TextSection};
 use std::{
+    collections::HashSet,
     io::{Read, Write},
     process::exit,
 };
@@ -93,11 +94,11 @@ impl Assembler {
             };
         }
 
-        let ext_symbols = &self.ext_symbols;
+        let ext_symbols: HashSet<_> = self.ext_symbols.iter().map(String::as_str).collect();
         let obj = &mut self.obj;
 
         obj.symbols_mut()
-            .filter(|symbol| ext_symbols.iter().any(|s| s == symbol.name()))
+            .filter(|symbol| ext_symbols.contains(symbol.name()))
             .for_each(|symbol| match symbol {
                 Symbol::Undef { .. } => {}
                 Symbol::Abs { ext, .. } => *ext = true,
diff --git a/at-obj/src/macho.rs b/at-obj/src/macho.rs
index 243be97..990cddd 100644
--- a/at-obj/src/macho.rs
+++ b/at-obj/src/macho.rs
@@ -36,7 +36,7 @@ use at_mac::{
     reloc::{RelocLength, RelocationInfo, X86_64RelocType},
     string_table::StringTable,
 };
-use std::io::Write;
+use std::{collections::HashMap, io::Write};
 
 /// ObjectをMach-O形式で書き込む
 pub fn write_into<W: Write>(object: &Object, write: &mut W) {
@@ -336,17 +336,12 @@ fn gen_string_table(object: &Object) -> StringTable {
 }
 
 fn gen_nlist64s(object: &Object, sections: &Vec<Section64>, stab: &StringTable) -> Vec<NList64> {
-    fn get_strx(stab: &StringTable, name: &str) -> u32 {
-        let mut idx = 0;
-        for s in stab.iter() {
-            idx += 1;
-            if s == name {
-                break;
-            } else {
-                idx += s.len() as u32;
-            }
-        }
-        idx
+    // 名前からStringTable内の(最初の)位置を引く
+    let mut strx = HashMap::new();
+    let mut idx = 1;
+    for s in stab.iter() {
+        strx.entry(s).or_insert(idx);
+        idx += s.len() as u32 + 1;
     }
 
     let mut nlists = Vec::new();
@@ -356,7 +351,7 @@ fn gen_nlist64s(object: &Object, sections: &Vec<Section64>, stab: &StringTable)
         sect.symbols().iter().for_each(|sym| {
             nlists.push(match sym {
                 Symbol::Undef { name } => NList64 {
-                    n_strx: get_strx(stab, name.as_str()),
+                    n_strx: strx[name.as_str()],
                     n_type: NTypeField::Norm {
                         n_pext: false,
                         n_type: NType::Undf,
@@ -367,7 +362,7 @@ fn gen_nlist64s(object: &Object, sections: &Vec<Section64>, stab: &StringTable)
                     n_value: 0,
                 },
                 Symbol::Abs { name, val, ext } => NList64 {
-                    n_strx: get_strx(stab, name.as_str()),
+                    n_strx: strx[name.as_str()],
                     n_type: NTypeField::Norm {
                         n_pext: false,
                         n_type: NType::Abs,
@@ -378,7 +373,7 @@ fn gen_nlist64s(object: &Object, sections: &Vec<Section64>, stab: &StringTable)
                     n_value: *val,
                 },
                 Symbol::Ref { name, addr, ext } => NList64 {
-                    n_strx: get_strx(stab, name.as_str()),
+                    n_strx: strx[name.as_str()],
                     n_type: NTypeField::Norm {
                         n_pext: false,
                         n_type: NType::Sect,
@@ -400,13 +395,12 @@ fn gen_relocation_infos(
     symbols: &[NList64],
     stab: &StringTable,
 ) -> Vec<RelocationInfo> {
-    fn get_sym_idx(symbols: &[NList64], stab: &StringTable, name: &str) -> u32 {
-        symbols
-            .iter()
-            .enumerate()
-            .find(|(_, sym)| stab.get(sym.n_strx as usize) == name)
-            .map(|(idx, _)| idx as u32)
-            .unwrap()
+    // 名前から(最初の)シンボルの番号を引く
+    let mut sym_idx = HashMap::new();
+    for (idx, sym) in symbols.iter().enumerate() {
+        sym_idx
+            .entry(stab.get(sym.n_strx as usize))
+            .or_insert(idx as u32);
     }
 
     let mut reloc_infos = Vec::new();
@@ -415,7 +409,7 @@ fn gen_relocation_infos(
         sect.relocs().iter().for_each(|reloc| {
             let reloc_info = RelocationInfo {
                 r_address: reloc.addr,
-                r_symbolnum: get_sym_idx(symbols, stab, reloc.symbol.as_str()),
+                r_symbolnum: sym_idx[reloc.symbol.as_str()],
                 r_pcrel: reloc.pcrel,
                 r_length: RelocLength::from_u32(reloc.len as u32),
                 r_extern: true,
-- 
2.43.0


From 45a5d893dc56410188a052a6cda898774090176f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:02 +0000
Subject: [PATCH 23/28] fix: reserve no memory for entries that are merely
 announced

---
 at-mac/src/load_command/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/at-mac/src/load_command/mod.rs b/at-mac/src/load_command/mod.rs
index 4367fca..99fb5fa 100644
--- a/at-mac/src/load_command/mod.rs
+++ b/at-mac/src/load_command/mod.rs
@@ -62,7 +62,7 @@ impl LoadCommand {
             SegmentCommand64::TYPE => {
                 let cmd = SegmentCommand64::read_from_in(&mut read, endian);
 
-                let mut sections = Vec::with_capacity(cmd.nsects as usize);
+                let mut sections = Vec::new();
                 for _ in 0..cmd.nsects {
                     sections.push(Section64::read_from_in(&mut read, endian));
                 }
@@ -80,7 +80,7 @@ impl LoadCommand {
             BuildVersionCommand::TYPE => {
                 let cmd = BuildVersionCommand::read_from_in(&mut read, endian);
 
-                let mut tools = Vec::with_capacity(cmd.ntools as usize);
+                let mut tools = Vec::new();
                 for _ in 0..cmd.ntools {
                     tools.push(BuildToolVersion::read_from_in(&mut read, endian));
                 }
-- 
2.43.0


From 2da560f034c1e865972f3996190b3e4f49b6a309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:32 +0000
Subject: [PATCH 24/28] fix: a hexadecimal literal has no sign after its 0x

---
 at-asm/src/parsers/num.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/at-asm/src/parsers/num.rs b/at-asm/src/parsers/num.rs
index 3adbb81..5ca1ad1 100644
--- a/at-asm/src/parsers/num.rs
+++ b/at-asm/src/parsers/num.rs
@@ -7,6 +7,11 @@ macro_rules! impl_parse_str {
             /// Never error.
             /// Because another number format possibly fit.
             fn try_parse_str(s: &str) -> Result<Option<Self>, ParseError> {
+                // from_str_radixは先頭の+を受け付けるが、0xの後に符号は置けない
+                if s.starts_with("0x+") {
+                    return Ok(None);
+                }
+
                 if let Some(s) = s.strip_prefix("0x") {
                     Ok(Self::from_str_radix(s, 16).ok())
                 } else {
-- 
2.43.0


From 4a4f4434de8bff6ca9b304fe22a750188dd54ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:32 +0000
Subject: [PATCH 25/28] fix: refuse an empty item after a string as after a
 number

---
 at-asm/src/parsers/data.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/at-asm/src/parsers/data.rs b/at-asm/src/parsers/data.rs
index 5576414..5970ed9 100644
--- a/at-asm/src/parsers/data.rs
+++ b/at-asm/src/parsers/data.rs
@@ -179,7 +179,8 @@ impl<'a> Iterator for DataDefIter<'a> {
             match s.split_once('\"') {
                 None => Some(Err(ParseError::new("unclosed \" found"))),
                 Some((str_data, rmn)) => {
-                    self.s = rmn.trim_start_matches(|c: char| c.is_whitespace() || c == ',');
+                    let rmn = rmn.trim_start();
+                    self.s = rmn.strip_prefix(',').unwrap_or(rmn).trim_start();
                     Some(Ok(DataDef::Str(str_data)))
                 }
             }
-- 
2.43.0


From 6edff332efd69920a78926f8636bcd2fa91d13e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:31 +0000
Subject: [PATCH 26/28] fix: name the line of an operand that can be no label

---
 at-asm/src/parsers/instruction/mov.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/at-asm/src/parsers/instruction/mov.rs b/at-asm/src/parsers/instruction/mov.rs
index b26c5ba..d6f1e63 100644
--- a/at-asm/src/parsers/instruction/mov.rs
+++ b/at-asm/src/parsers/instruction/mov.rs
@@ -35,7 +35,7 @@ pub fn parse_str(s: &str) -> Result<Instruction, ParseError> {
         }
 
         // otherwise, second operand is symbol
-        let symbol = operand2_str.to_string();
+        let symbol = parse_symbol(operand2_str)?;
         let mov = Mov::new(dst_reg, 0_u64);
         let reloc = LocalReloc {
             offset: mov.offset_to_imm_bytes(),
@@ -66,7 +66,7 @@ pub fn parse_str(s: &str) -> Result<Instruction, ParseError> {
         }
 
         // otherwise, second operand is symbol
-        let symbol = operand2_str.to_string();
+        let symbol = parse_symbol(operand2_str)?;
         let mov = Mov::new(dst_reg, 0_u32);
         let reloc = LocalReloc {
             offset: mov.offset_to_imm_bytes(),
@@ -104,6 +104,14 @@ pub fn parse_str(s: &str) -> Result<Instruction, ParseError> {
     Err(ParseError::new("invalid first operand"))
 }
 
+/// シンボル名は空白を含まない1つのトークン
+fn parse_symbol(s: &str) -> Result<String, ParseError> {
+    if s.is_empty() || s.contains(char::is_whitespace) {
+        return Err(ParseError::new("invalid second operand"));
+    }
+    Ok(s.to_string())
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 8f116bd9bd4c0c7968c516af9fe0a7428138c350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:32 +0000
Subject: [PATCH 27/28] fix: refuse a label without a name

---
 at-asm/src/parsers/line.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/at-asm/src/parsers/line.rs b/at-asm/src/parsers/line.rs
index afed537..e3343b1 100644
--- a/at-asm/src/parsers/line.rs
+++ b/at-asm/src/parsers/line.rs
@@ -43,6 +43,9 @@ impl ParseStr for Line {
                 return Err(ParseError::new("error: expected end of line."));
             }
             let symbol = token.trim_end_matches(":");
+            if symbol.is_empty() {
+                return Err(ParseError::new("symbol name is expected"));
+            }
             return Ok(Line::Symbol(symbol.to_string()));
         }
 
-- 
2.43.0


From 64ed028a6782013f5009762edc9416a633ff5408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:58 +0000
Subject: [PATCH 28/28] fix: say why no memory is reserved for announced
 entries

---
 at-mac/src/load_command/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/at-mac/src/load_command/mod.rs b/at-mac/src/load_command/mod.rs
index 99fb5fa..49f1bea 100644
--- a/at-mac/src/load_command/mod.rs
+++ b/at-mac/src/load_command/mod.rs
@@ -62,6 +62,7 @@ impl LoadCommand {
             SegmentCommand64::TYPE => {
                 let cmd = SegmentCommand64::read_from_in(&mut read, endian);
 
+                // 個数は自己申告なので、実際に読めた分だけ確保していく
                 let mut sections = Vec::new();
                 for _ in 0..cmd.nsects {
                     sections.push(Section64::read_from_in(&mut read, endian));
@@ -80,6 +81,7 @@ impl LoadCommand {
             BuildVersionCommand::TYPE => {
                 let cmd = BuildVersionCommand::read_from_in(&mut read, endian);
 
+                // 個数は自己申告なので、実際に読めた分だけ確保していく
                 let mut tools = Vec::new();
                 for _ in 0..cmd.ntools {
                     tools.push(BuildToolVersion::read_from_in(&mut read, endian));
-- 
2.43.0

